// Package unit checks the exported building blocks of the decoder.
package unit

import "verif/pbt"

// Props by id.
var Props = map[string]func(*pbt.T){}

func reg(id string, f func(*pbt.T)) { Props[id] = f }
