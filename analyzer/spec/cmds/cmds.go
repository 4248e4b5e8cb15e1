// Package cmds states what the command-line programs do with their options.
package cmds

import (
	"bytes"
	"encoding/binary"
	"io"
	"log"
	"os"
	"strconv"
	"strings"

	"github.com/l1va/goosli/gcode"
	"github.com/l1va/goosli/helpers"
	. "github.com/l1va/goosli/primitives"
	"github.com/l1va/goosli/slicers"
	"github.com/l1va/goosli/slicers/vip"
	"gopkg.in/alecthomas/kingpin.v2"
)

func num(name string) float64 { return *kingpin.Flag(name, "").Float64() }
func whole(name string) int   { return *kingpin.Flag(name, "").Int() }
func text(name string) string { return *kingpin.Flag(name, "").String() }
func on(name string) bool     { return *kingpin.Flag(name, "").Bool() }

func Settings() slicers.Settings {
	return slicers.Settings{
		GcodeSettings: &gcode.GcodeSettings{
			BarDiameter:        num("bar_diameter"),
			Flow:               num("flow"),
			LayerHeight:        num("layer_height"),
			LineWidth:          num("line_width"),
			FanOffLayer1:       on("fan_off_layer1"),
			PrintSpeed:         60 * whole("print_speed"),
			PrintSpeedLayer1:   60 * whole("print_speed_layer1"),
			PrintSpeedWall:     60 * whole("print_speed_wall"),
			Retraction:         on("retraction_on"),
			RetractionSpeed:    whole("retraction_speed"),
			RetractionDistance: num("retraction_distance"),
		},
		Epsilon:             num("epsilon"),
		LayerHeight:         num("layer_height"),
		WallThickness:       num("wall_thickness"),
		FillDensity:         whole("fill_density"),
		BedTemperature:      whole("bed_temperature"),
		ExtruderTemperature: whole("extruder_temperature"),
		RotationCenter:      Point{X: num("rotcx"), Y: num("rotcy"), Z: num("rotcz")},
		PlanesFile:          text("planes_file"),
		FillingType:         text("filling_type"),
		ColorizedAngle:      num("angle"),
		UnitVector:          Vector{X: num("normali"), Y: num("normalj"), Z: num("normalk")},
		SupportsOn:          on("supports_on"),
		SupportOffset:       num("support_offset"),
		TopLayers:           whole("top_layers"),
		BottomLayers:        whole("bottom_layers"),
		SkirtLineCount:      whole("skirt_line_count"),
	}
}

func load() *Mesh {
	m, err := LoadSTL(text("stl"))
	if err != nil {
		log.Fatal(err)
	}
	return m
}

func shifted() *Mesh {
	m := load()
	m.Shift(Vector{X: num("originx"), Y: num("originy"), Z: num("originz")})
	return m
}

func SGoosli() {
	m := shifted()
	switch text("slicing_type") {
	case "3axes":
		slicers.SliceByVectorToGcode(m, Vector{X: 0, Y: 0, Z: 1}, Settings())
	case "5axes_by_profile":
		slicers.SliceByProfile(m, Settings())
	case "5axes":
		slicers.Slice5Axes(m, Settings())
	case "vip":
		vip.Slice(m, Settings())
	default:
		log.Fatal("unknown type")
	}
	os.WriteFile(text("gcode"), nil, 0)
}

func SAnalyzer() {
	vip.Analyze(shifted(), num("angle"))
	os.WriteFile(text("out"), nil, 0)
}

// SAnalyzerFile: one line per plane, in order (C23).
func SAnalyzerFile() {
	b := bytes.Buffer{}
	for _, p := range vip.Analyze(shifted(), num("angle")) {
		b.WriteString(p.String())
		b.WriteString("\n")
	}
	os.WriteFile(text("out"), b.Bytes(), 0)
}

func SColorizer() {
	a := helpers.ColorizeTriangles(*load(), num("angle"), Vector{X: num("normali"), Y: num("normalj"), Z: num("normalk")})
	f, err := os.Create(text("out"))
	if err != nil {
		log.Fatal(err)
	}
	binary.Write(io.Writer(f), binary.LittleEndian, a)
}

func SCutter() {
	up, down, err := helpers.CutMesh(load(), Plane{P: Point{X: num("pointx"), Y: num("pointy"), Z: num("pointz")}, N: Vector{X: num("normali"), Y: num("normalj"), Z: num("normalk")}})
	if err != nil {
		log.Fatal(err)
	}
	if err = SaveSTL(text("out1"), up); err != nil {
		log.Fatal(err)
	}
	SaveSTL(text("out2"), down)
}

func SSimplifier() {
	m, err := helpers.SimplifyMesh(load(), whole("triangles"))
	if err != nil {
		log.Fatal(err)
	}
	SaveSTL(text("out"), m)
}

// ---- the output file (C28)

func places(s slicers.Settings, layers int) map[string]string {
	return map[string]string{
		"{datetime}":             s.DateTime,
		"{layer_height}":         StrF(s.LayerHeight),
		"{wall_thickness}":       StrF(s.WallThickness),
		"{fill_density}":         strconv.Itoa(s.FillDensity),
		"{bed_temperature}":      strconv.Itoa(s.BedTemperature),
		"{extruder_temperature}": strconv.Itoa(s.ExtruderTemperature),
		"{print_speed}":          strconv.Itoa(s.GcodeSettings.PrintSpeed),
		"{layer_count}":          strconv.Itoa(layers),
	}
}

func SOutput() {
	m := shifted()
	s := Settings()
	var g gcode.Gcode
	switch text("slicing_type") {
	case "3axes":
		g = slicers.SliceByVectorToGcode(m, Vector{X: 0, Y: 0, Z: 1}, s)
	case "5axes_by_profile":
		g = slicers.SliceByProfile(m, s)
	case "5axes":
		g = slicers.Slice5Axes(m, s)
	case "vip":
		g = vip.Slice(m, s)
	default:
		log.Fatal("unknown type")
	}
	p := places(s, g.LayerCount())
	var b bytes.Buffer
	b.WriteString(PrepareDataFile("data/header_template.txt", p))
	g.ToOutput(&b)
	b.WriteString(PrepareDataFile("data/footer_template.txt", p))
	os.WriteFile(text("gcode"), b.Bytes(), 0644)
}

func DPrepare(name string, m map[string]string) string { return PrepareDataFile(name, m) }
func SPrepare(name string, m map[string]string) string {
	data, err := os.ReadFile(name)
	if err != nil {
		log.Fatal(err)
	}
	s := string(data)
	for k, v := range m {
		s = strings.Replace(s, k, v, -1)
	}
	return s
}

func DLayerCount(g gcode.Gcode) int { return g.LayerCount() }
func SLayerCount(g gcode.Gcode) int {
	n := 0
	for i := range g.Cmds {
		n += g.Cmds[i].LayersCount()
	}
	return n
}
