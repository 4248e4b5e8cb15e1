s=open('gcode/cmds.go').read()
i=s.index('		for i := 1; i < len(p.Points); i++ {')
j=s.index('		state.pos = p.Points[len(p.Points)-1]')
s=s[:i]+'''		for i, p2 := range p.Points {
			if i == 0 {
				continue
			}
			p1 := p.Points[i-1]
			d := p1.VectorTo(p2)
			k := 4 * sett.LineWidth * sett.LayerHeight * sett.Flow / (math.Pi * sett.BarDiameter * sett.BarDiameter)
			state.eOff += k * d.Length()
			b.WriteString(fmt.Sprintf("G1 %s E%s\\n", p2.StringGcode(p1), StrF(state.eOff)))
		}
'''+s[j:]
s=s.replace('import (','import (\n\t"fmt"')
s=s.replace('		state.layerIndex += 1\n','		state.layerIndex++\n').replace('for i := 0; i < len(lm.Layers); i++ {','for i, l := range lm.Layers {\n\t\t_ = i').replace('lm.Layers[i].','l.')
open('gcode/cmds.go','w').write(s)
