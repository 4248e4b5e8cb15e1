s=open('gcode/cmds.go').read()
i=s.index('	if state.layerIndex == 0 && sett.FanOffLayer1 {'); j=s.index('	return state',i)
s=s[:i]+'''	want := state.layerIndex != 0 || !sett.FanOffLayer1
	if want == state.fan {
		return state
	}
	cmd := "M107"
	if want {
		cmd = "M106"
	}
	b.WriteString(cmd + "\\n")
	state.fan = want
'''+s[j:]
i=s.index('	needed := state.feedrate'); j=s.index('	if needed != state.feedrate')
s=s[:i]+'''	var needed int
	switch {
	case state.layerIndex == 0:
		needed = sett.PrintSpeedLayer1
	case state.isWall:
		needed = sett.PrintSpeedWall
	default:
		needed = sett.PrintSpeed
	}
'''+s[j:]
s=s.replace('''	if needed != state.feedrate {
		b.WriteString("G0 F" + strconv.Itoa(needed) + "\\n")
		state.feedrate = needed
	}
	return state''','''	if needed == state.feedrate {
		return state
	}
	fmt.Fprintf(b, "G0 F%d\\n", needed)
	state.feedrate = needed
	return state''').replace('import (','import (\n\t"fmt"')
open('gcode/cmds.go','w').write(s)
