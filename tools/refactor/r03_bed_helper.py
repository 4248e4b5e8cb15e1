import re
s=open('gcode/cmds.go').read()
def cut(s,name,a,b):
    i=s.index(a); j=s.index(b,i); return s[:i]+name+s[j:]
s=cut(s,'''func (r InclineXBack) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) State {
	state.t2 = bedMove(b, "T2", state.t2, 0, &state)
	return state
}
''','func (r InclineXBack) ToGCode','func (r InclineXBack) LayersCount')
s=cut(s,'''func (r InclineX) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) State {
	state.t2 = bedMove(b, "T2", state.t2, 60, &state)
	return state
}
''','func (r InclineX) ToGCode','func (r InclineX) LayersCount')
s=cut(s,'''func (r RotateZ) ToGCode(b *bytes.Buffer, state State, sett GcodeSettings) State {
	state.t1 = bedMove(b, "T1", state.t1, r.Angle, &state)
	return state
}
''','func (r RotateZ) ToGCode','func (r RotateZ) LayersCount')
s+='''
// bedMove drives one bed axis and gives control back to the extruder.
func bedMove(b *bytes.Buffer, tool string, from, to float64, state *State) float64 {
	lines := []string{
		"G0 X0 Y0 Z200",
		tool,
		"G92 E" + StrF(from),
		"G1 F300 E" + StrF(to),
		"G92 E0",
		"T0",
		"G92 E" + StrF(state.eOff),
	}
	for _, l := range lines {
		b.WriteString(l + " \\n")
	}
	state.pos = bedMovePos
	state.feedrate = bedMoveSpeed
	return to
}
'''
open('gcode/cmds.go','w').write(s)
