# default slicing: turning extracted into helpers, loop turned inside out
f='slicers/vip/slice_default.go'
s=open(f).read()
i=s.index('	i := 1\n	rotated := false')
j=s.index('	//the rest, even if it is a single layer')
s=s[:i]+'''	tiltedNow := false
	azimuth := 0.0
	for {
		at, plane := firstFail(layers)
		if plane == nil {
			break
		}
		rest, low, err := helpers.CutMesh(mesh, *plane)
		if err != nil {
			log.Fatal("failed to cut mesh by newPlane in default slicing: ", err)
		}
		lowLayers := SliceByVector(low, AxisZ, settings)
		println("added: ", len(lowLayers), at)
		gcd.AddLayers(PrepareLayers(lowLayers, settings, fillPlanes, fullFillPlanes))
		var turns []RotationMatrix
		if !tiltedNow {
			azimuth = 90 + plane.N.Azimuth()
			turns = append(turns, RotationAroundZ(azimuth), RotationAroundX(angleX))
			gcd.Add(gcode.RotateZ{Angle: azimuth})
			gcd.Add(gcode.InclineX{})
		} else {
			turns = append(turns, RotationAroundX(-angleX), RotationAroundZ(-azimuth))
			gcd.Add(gcode.InclineXBack{})
			gcd.Add(gcode.RotateZ{Angle: 0})
		}
		tiltedNow = !tiltedNow
		for _, t := range turns {
			rest = rest.Rotate(t, OriginPoint)
		}
		turnPlanes(fillPlanes, turns)
		turnPlanes(fullFillPlanes, turns)
		mesh = rest
		layers = SliceByVector(mesh, AxisZ, settings)
	}
'''+s[j:]
s+='''
func turnPlanes(planes []Plane, turns []RotationMatrix) {
	for i := range planes {
		for _, t := range turns {
			planes[i] = planes[i].Rotate(t)
		}
	}
}

func firstFail(layers []Layer) (int, *Plane) {
	for i := 1; i < len(layers); i++ {
		if p := CalculateFails(layers[i-1], layers[i]); p != nil {
			return i, p
		}
	}
	return len(layers), nil
}
'''
open(f,'w').write(s)
f='slicers/vip/slice_by_planes.go'
s=open(f).read()
i=s.index('	var up *Mesh\n')
j=s.index('	return gcd\n')
s=s[:i]+'''	parts := cutParts(mesh, cutPlanes)
	first := PrepareLayers(slicers.SliceByVector(parts[0], AxisZ, settings), settings, fillPlanes, fullFillPlanes)
	if len(first) != 0 {
		first[0] = SkirtPathes(first[0], settings.SkirtLineCount, settings.GcodeSettings.LineWidth)
	}
	gcd.AddLayers(first)

	wasTilted := false
	for i, p := range cutPlanes {
		part := parts[i+1].Rotate(RotationAroundZ(p.rotz), settings.RotationCenter)
		gcd.Add(gcode.RotateZ{Angle: p.rotz})
		switch {
		case p.tilted:
			part = part.Rotate(RotationAroundX(-angleX), settings.RotationCenter)
			gcd.Add(gcode.InclineX{})
		case wasTilted:
			gcd.Add(gcode.InclineXBack{})
		}
		wasTilted = p.tilted
		gcd.AddLayers(PrepareLayers(slicers.SliceByVector(part, AxisZ, settings), settings, fillPlanes, fullFillPlanes))
	}
'''+s[j:]
i=s.index('func calcBedPlanes')
s=s[:i]+'''// cutParts returns the parts from the lowest to the highest.
func cutParts(mesh *Mesh, cutPlanes []AnalyzedPlane) []*Mesh {
	parts := make([]*Mesh, len(cutPlanes)+1)
	i := len(cutPlanes)
	for i > 0 {
		up, down, err := helpers.CutMesh(mesh, cutPlanes[i-1].Plane)
		if err != nil {
			log.Fatal("failed to cut mesh, by plane: ", err, cutPlanes[i-1].Plane)
		}
		parts[i] = up
		mesh = down
		i--
	}
	parts[0] = mesh
	return parts
}
'''
open(f,'w').write(s)
