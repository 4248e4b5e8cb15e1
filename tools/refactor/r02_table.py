s=open('gcode/cmds.go').read()
i=s.index('		state.isWall = true\n')
j=s.index('		state = decreaseEOff(state, b)')
s=s[:i]+'''		groups := []struct {
			paths []Path
			name  string
			wall  bool
		}{
			{lm.Layers[i].Paths, "OUTER_PATHES", true},
			{lm.Layers[i].MiddlePs, "MIDDLE_PATHES", true},
			{lm.Layers[i].InnerPs, "INNER_PATHES", true},
			{lm.Layers[i].Fill, "FILL_PATHES", false},
		}
		for _, g := range groups {
			state.isWall = g.wall
			state = pathesToGCode(g.paths, g.name, sett, state, b)
		}

'''+s[j:]
open('gcode/cmds.go','w').write(s)
