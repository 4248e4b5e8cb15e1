s=open('gcode/cmds.go').read()
i=s.index('		for i := 1; i < len(p.Points); i++ {')
j=s.index('		state.pos = p.Points[len(p.Points)-1]')
s=s[:i]+'''		state = printPath(p, sett, state, b)
'''+s[j:]
s+='''
func extrusion(a, b Point, sett GcodeSettings) float64 {
	area := math.Pi * sett.BarDiameter * sett.BarDiameter / 4
	return sett.LineWidth * sett.LayerHeight * a.DistanceTo(b) * sett.Flow / area
}

func printPath(p Path, sett GcodeSettings, state State, b *bytes.Buffer) State {
	prev := p.Points[0]
	for _, cur := range p.Points[1:] {
		state.eOff += extrusion(prev, cur, sett)
		b.WriteString("G1 ")
		b.WriteString(cur.StringGcode(prev))
		b.WriteString(" E" + StrF(state.eOff))
		b.WriteString("\\n")
		prev = cur
	}
	return state
}
'''
open('gcode/cmds.go','w').write(s)
