package main

import "golang.org/x/tools/go/ssa"

func init() {
	checks["C21"] = checkFn{run: checkC21, rule: "PrepareLayers and SkirtPathes are reduced to their normal forms over all layers, settings and numbers of polylines and compared with the walls the settings ask for: how many, which are middle walls and which the innermost, and skirt lines outermost first and outwards; the function that makes a chain of offsets has to offset each result again, and one offset has to move every edge by one line width to the inner side, join neighbours where they cross and drop edges that turned round. The planes mode is compared with the sequence that puts the skirt round the first layer only."}
}

func checkC21(c *Ctx) {
	found := map[string]map[*ssa.Function]bool{}
	cl := Client{Call: bySignature(map[string]string{"(Path, int, float64, Vector) []Path": "offsets"}, found), Opaque: opaqueNamed("slicers.FillLayers")}
	c.drivers("number and place of the walls", "walls", cl, [2]string{"Walls", "slicers/vip.PrepareLayers"})
	c.drivers("skirt", "walls", cl, [2]string{"Skirt", "slicers/vip.SkirtPathes"})
	one := Client{Call: bySignature(map[string]string{"(Path, float64, Vector) *Path": "offset"}, nil)}
	for _, f := range sortedFns(found["offsets"]) {
		n := symOf(f.Signature.Params().At(1).Type(), "a1")
		c.sameAny("every wall is an offset of the one before", stripRepo(f.String()), f, one, posB(n, true), true, c.p.spec("walls", "chain"), c.p.spec("walls", "chain2"), c.p.spec("walls", "chain3"), c.p.spec("walls", "chain4"), c.p.spec("walls", "chain5"))
	}
	op := Client{Opaque: opaqueNamed("(primitives.Line).IntersectLine2", "(primitives.Path).MinimizeLines", "debug.AddLine", "(primitives.Path).IsClosed", "(primitives.Vector).CodirectedWith")}
	c.drivers("offset of one polyline", "walls", op, [2]string{"Offset", "slicers/vip.MakeOffset"})
}
