package ai

import "math"

func log2(x float64) float64  { return math.Log2(x) }
func ceil(x float64) float64  { return math.Ceil(x) }
func floor(x float64) float64 { return math.Floor(x) }
