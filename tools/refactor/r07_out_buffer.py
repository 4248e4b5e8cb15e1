s=open('gcode/gcode.go').read()
s=s.replace('''	for _, cmd := range g.Cmds {
		state = cmd.ToGCode(b, state, g.Settings)
	}''','''	for i := range g.Cmds {
		var out bytes.Buffer
		state = g.Cmds[i].ToGCode(&out, state, g.Settings)
		b.Write(out.Bytes())
	}''')
open('gcode/gcode.go','w').write(s)
