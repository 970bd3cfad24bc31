package jx

// Fault is one structural error that the encoder makes.
type Fault struct {
	Kind string
	Skip int    // occasions to let pass
	R    uint32 // any number
	Hit  bool
}

// TheFault is the error to make, if any.
var TheFault *Fault

// fault tells if the error is to be made here.
func fault(kind string) (uint32, bool) {
	f := TheFault
	if f == nil || f.Hit || f.Kind != kind {
		return 0, false
	}
	if f.Skip > 0 {
		f.Skip--
		return 0, false
	}
	f.Hit = true
	return f.R, true
}
