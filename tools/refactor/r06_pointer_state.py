import re
s=open('gcode/cmds.go').read()
# helpers work on a pointer
s=s.replace('func decreaseEOff(state State, b *bytes.Buffer) State {','func decreaseEOff(state *State, b *bytes.Buffer) {').replace('state = decreaseEOff(state, b)','decreaseEOff(&state, b)')
i=s.index('func decreaseEOff'); j=s.index('func switchFan')
s=s[:i]+s[i:j].replace('	return state\n','')+s[j:]
s=s.replace('func switchFanGCode(state State, sett GcodeSettings, b *bytes.Buffer) State {','func switchFanGCode(state *State, sett *GcodeSettings, b *bytes.Buffer) {').replace('state = switchFanGCode(state, sett, b)','switchFanGCode(&state, &sett, b)')
i=s.index('func switchFanGCode'); j=s.index('func printSpeed')
s=s[:i]+s[i:j].replace('	return state\n','')+s[j:]
open('gcode/cmds.go','w').write(s)
