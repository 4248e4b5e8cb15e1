# 5 axes, profile, bridge and rotation
f='slicers/slice_5axes.go'
s=open(f).read()
i=s.index('	i := 0\n	layers := SliceByVector(simpMesh')
j=s.index('	//the rest, even if it is a single layer')
s=s[:i]+'''	tilted, angleZ := false, 0.0
	layers, toAdd := SliceByVector(simpMesh, AxisZ, settings), SliceByVector(mesh, AxisZ, settings)
	for i := 1; i < len(layers); {
		newPlane := CalculateFails(layers[i-1], layers[i])
		if newPlane == nil {
			i = i + 1
			continue
		}
		gcd.AddLayers(toAdd[0:i])
		debug.AddLayer(layers[i-1], debug.GreenColor)
		fmt.Printf("\\n %v \\n", i)
		horizontal := Plane{P: calculateCenter(layers[i]), N: AxisZ}
		simpMesh, _ = mustCut(simpMesh, horizontal)
		mesh, _ = mustCut(mesh, horizontal)
		var down *Mesh
		mesh, down = mustCut(mesh, *newPlane)
		simpMesh, _ = mustCut(simpMesh, *newPlane)
		gcd.AddLayers(SliceByVector(down, AxisZ, settings))
		cmd := gcode.RotateXZ{}
		turn := func(m *Mesh) *Mesh {
			return m.Rotate(RotationAroundX(-angleX), OriginPoint).Rotate(RotationAroundZ(-angleZ), OriginPoint)
		}
		if !tilted {
			angleZ = newPlane.N.Azimuth() + 90
			cmd = gcode.RotateXZ{AngleX: angleX, AngleZ: angleZ}
			turn = func(m *Mesh) *Mesh {
				return m.Rotate(RotationAroundZ(angleZ), OriginPoint).Rotate(RotationAroundX(angleX), OriginPoint)
			}
		}
		mesh, simpMesh = turn(mesh), turn(simpMesh)
		gcd.Add(cmd)
		tilted = !tilted
		layers = SliceByVector(simpMesh, AxisZ, settings)
		toAdd = SliceByVector(mesh, AxisZ, settings)
		i = 1
	}
'''+s[j:]
s+='''
func mustCut(m *Mesh, p Plane) (*Mesh, *Mesh) {
	up, down, err := helpers.CutMesh(m, p)
	if err != nil {
		log.Fatal("failed to cut mesh in 5a slicing: ", err)
	}
	return up, down
}
'''
open(f,'w').write(s)
f='slicers/slice_by_profile.go'
s=open(f).read()
i=s.index('	up := mesh\n')
j=s.index('	return gcd\n')
s=s[:i]+'''	gcd := gcode.NewGcode(*settings.GcodeSettings)
	last := len(simplified) - 1
	if last < 1 {
		gcd.AddLayers(layers)
		return gcd
	}
	for i := 0; i < last; i++ {
		down := mesh
		if i+1 != last {
			var err error
			mesh, down, err = helpers.CutMesh(mesh, Plane{simplified[i+1], AxisZ})
			if err != nil {
				log.Fatal("failed to cut mesh by plane: ", err)
			}
		}
		v := simplified[i].VectorTo(simplified[i+1])
		cmd := gcode.RotateXZ{v.Angle(AxisZ), v.Azimuth() + 90}
		down = down.Rotate(RotationAroundZ(cmd.AngleZ), OriginPoint).Rotate(RotationAroundX(cmd.AngleX), OriginPoint)
		gcd.Add(cmd)
		gcd.AddLayers(SliceByVector(down, AxisZ, settings))
	}
'''+s[j:]
open(f,'w').write(s)
f='slicers/vip/slice_bridge.go'
s=open(f).read()
i=s.index('	i := 0\n	var newPlane')
j=s.index('	// Add horizontal layers\n')
s=s[:i]+'''	var newPlane *Plane
	i := 1
	for ; i < len(layers) && newPlane == nil; i++ {
		newPlane = failExistBridge(layers[i-1], layers[i])
	}
	if newPlane != nil {
		i--
	}
	if len(layers) == 0 {
		i = 0
	}
'''+s[j:]
i=s.index('	for i, plane := range fillPlanes {')
j=s.index('	rest := SliceByVector')
s=s[:i]+'''	turn := func(ps []Plane) []Plane {
		var res []Plane
		for _, p := range ps {
			res = append(res, p.Rotate(RotationAroundZ(angleZ)).Rotate(RotationAroundX(angleX)))
		}
		return res
	}
	fillPlanes, fullFillPlanes = turn(fillPlanes), turn(fullFillPlanes)

'''+s[j:]
open(f,'w').write(s)
f='slicers/vip/slice_rotation.go'
s=open(f).read()
open(f,'w').write(s)
