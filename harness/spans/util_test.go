package spans

import "math"

func nan() float64      { return math.NaN() }
func inf(s int) float64 { return math.Inf(s) }
