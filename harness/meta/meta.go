// Package meta lists the properties the runner knows.
package meta

// P describes how a property is run.
type P struct {
	Quick    int // cases
	Thorough int
	Unit     bool
	Race     bool
	ASMB     int
	MaxProcs int
	CPU      float64
	Rule     string
}

// Bin is the worker binary.
func (p P) Bin() string {
	switch {
	case p.Unit && p.Race:
		return "wunit-race"
	case p.Unit:
		return "wunit"
	case p.Race:
		return "wcore-race"
	}
	return "wcore"
}

// Props by id.
var Props = map[string]P{
	"C01": {Quick: 4000, Rule: "the image has at least 4 samples that are not all equal and was decoded and compared sample by sample"},
	"C02": {Quick: 12000, Unit: true, Rule: "at least 8 values were coded and read back"},
	"C04": {Quick: 1500000, Thorough: 20000000, Unit: true, Rule: "at least 4 operations were compared and one of them started within a byte"},
	"C03": {Quick: 2500, Rule: "at least one colour, palette or squeeze transform was applied to a channel that is not constant"},
	"C07": {Quick: 3000, Rule: "the orientation is not the identity and some channel is not constant"},
	"C19": {Quick: 2500, Rule: "some block has high frequency coefficients"},
	"C28": {Quick: 2000, Rule: "the image has high frequency coefficients and custom tables, orders or block contexts"},
	"C20": {Quick: 2000, Rule: "a filter was applied to an image with high frequency coefficients or modular samples"},
	"C21": {Quick: 2000, Rule: "the image has high frequency coefficients or modular samples"},
	"C23": {Quick: 1500, Rule: "at least two of the frames have high frequency coefficients or modular samples"},
	"C29": {Quick: 2000, Rule: "the image has high frequency coefficients or modular samples"},
	"C22": {Quick: 1200, Rule: "a channel that is not constant was coded at a lower resolution"},
	"C18": {Quick: 4000, Rule: "a frame was blended with, or composed over, a saved reference frame"},
	"C05": {Quick: 100000, Rule: "the header has extra channels, extensions, extra fields or transform data, or is invalid"},
	"C06": {Quick: 8000, Rule: "the codestream was put into a container, decoded and compared with the bare codestream"},
	"C09": {Quick: 140, Race: true, MaxProcs: 4, Rule: "some image has several groups"},
	"C10": {Quick: 8000, Rule: "the data was decoded through a reader that splits reads or fails"},
	"C12": {Quick: 5000, Rule: "prefixes of a valid file were decoded"},
	"C11": {Quick: 40000, ASMB: 3000, Rule: "the bytes were given to every way of decoding"},
	"C13": {Quick: 12000, Rule: "some channel is not constant and the image was decoded through the image package"},
	"C14": {Quick: 15000, Rule: "some channel is not constant and the PNG was parsed and compared pixel by pixel"},
	"C15": {Quick: 15000, Rule: "some channel is not constant and the PFM was parsed and compared sample by sample"},
	"C16": {Quick: 20000, Rule: "some channel is not constant and at least two conversions were made"},
	"C17": {Quick: 15000, Rule: "the profile is longer than its header"},
	"C25": {Quick: 600000, Thorough: 12000000, Unit: true, Rule: "a buffer was cast and a buffer was copied"},
	"C26": {Quick: 30000, Unit: true, Race: true, MaxProcs: 4, Rule: "several goroutines made more than 20 operations each"},
	"C27": {Quick: 1000000, Thorough: 12000000, Unit: true, Rule: "the operands are neither empty nor all equal"},
	"C30": {Quick: 15000, Rule: "some channel is not constant or an image was edited while a copy of it existed"},
	"C31": {Quick: 20000, Rule: "some channel with samples of more than 8 bits is not constant"},
	"C33": {Quick: 500000, Thorough: 12000000, Unit: true, Rule: "two colour spaces that differ by more than 0.01 were converted into each other"},
	"C32": {Quick: 15000, Rule: "a valid file and parts of it were parsed"},
	"C24": {Quick: 15000, Rule: "the image holds the error, or uses the feature that is not implemented"},
	"C08": {Quick: 700, Rule: "the frame has more than one section and a channel that is not constant"},
}
