// Package planes states what a planes file means (C23) .
package planes

import (
	"bufio"
	"log"
	"math"
	"os"
	"strconv"

	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers/vip"
)

// DText reads back the text of a plane.
func DText(p vip.AnalyzedPlane) vip.AnalyzedPlane { return vip.ParsePlane(p.String()) }

// at print precision
func SPrinted(x float64) float64 {
	r, _ := strconv.ParseFloat(strconv.FormatFloat(x, 'f', 3, 64), 64)
	return r
}

// SNormal: straight up, or tilted by the 60 degrees of the bed towards the direction that the bed
// rotation turns to +Y.
func SNormal(tilted bool, rotz float64) Vector {
	if !tilted {
		return Vector{X: 0, Y: 0, Z: 1}
	}
	t, r := math.Pi*60/180, math.Pi*rotz/180
	return Vector{X: -math.Sin(t) * math.Sin(r), Y: math.Sin(t) * math.Cos(r), Z: math.Cos(t)}
}

// SRead: one plane per line, in file order.
func SRead(name string) []vip.AnalyzedPlane {
	f, err := os.Open(name)
	if os.IsNotExist(err) {
		return nil
	}
	if err != nil {
		log.Fatal(err)
	}
	ps := []vip.AnalyzedPlane{}
	s := bufio.NewScanner(f)
	for s.Scan() {
		ps = append(ps, vip.ParsePlane(s.Text()))
	}
	if s.Err() != nil {
		log.Fatal(s.Err())
	}
	return ps
}
