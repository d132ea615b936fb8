//go:build !race

package verifsimrt

// Y is the yield point placed before statements.
func Y() {
	yc--
	if yc <= 0 {
		ySlow()
	}
}

func raceOff()                {}
func raceOn()                 {}
func raceAcq(p *byte)         {}
func raceRel(p *byte)         {}
func raceRelMerge(p *byte)    {}
func raceReadRange(p []byte)  {}
func raceWriteRange(p []byte) {}
