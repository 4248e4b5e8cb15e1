package main

import (
	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C29"] = checkFn{run: checkC29, rule: "Joining two pieces, joining all pieces of a layer and merging collinear neighbours are reduced to their normal forms over all lists of pieces with at least one point each (the sort being a permutation, the search for the piece another one went into a fixpoint) and compared with the specification in analyzer/spec/joins: the second piece after the first without the shared point or the other way round, never reversed; what was joined takes one place and leaves the other; only points between collinear neighbours are dropped.", assume: []string{"pieces have at least one point (C26)"}}
}

func checkC29(c *Ctx) {
	found := map[string]map[*ssa.Function]bool{}
	eq := opaqueNamed("(primitives.Point).Equal")
	all := c.p.fn("primitives", "JoinPaths3AndMinimize")
	c.sameAny("each joined piece has its collinear neighbours merged", "primitives.JoinPaths3AndMinimize", all,
		Client{Call: bySignature(map[string]string{"([]Path) []Path": "joined"}, found), Opaque: opaqueNamed("(primitives.Path).MinimizeLines")}, nil, true, c.p.spec("joins", "SJoinAndMinimize"))
	pair := map[string]map[*ssa.Function]bool{}
	for _, f := range sortedFns(found["joined"]) {
		c.sameAny("each piece is in exactly one result", stripRepo(f.String()), f,
			Client{Call: bySignature(map[string]string{"(Path, Path) *Path": "join"}, pair), Opaque: eq}, nil, true, c.p.spec("joins", "SJoin"), c.p.spec("joins", "SJoinAppend"), c.p.spec("joins", "SJoinEnds"))
	}
	for _, f := range sortedFns(pair["join"]) {
		c.sameAny("an end is joined to a start, the shared point kept once", stripRepo(f.String()), f, Client{Opaque: eq}, nil, true, c.p.spec("joins", "STryJoin"))
	}
	c.need(len(pair["join"]), "a function that joins two pieces")
	op := Client{Opaque: opaqueNamed("(primitives.Line).IsCollinear", "(primitives.Path).IsClosed", "(primitives.Line).Len", "(primitives.Point).Equal")}
	c.sameAny("only points between collinear neighbours are dropped", "(primitives.Path).MinimizeLines", c.p.meth("primitives", "Path", "MinimizeLines"), op, nil, true,
		c.p.spec("joins", "SMinimize"), c.p.spec("joins", "SMinimizeEnds"))
	c.same("a path is closed if it ends where it starts", "(primitives.Path).IsClosed", c.p.meth("primitives", "Path", "IsClosed"), c.p.spec("joins", "SClosed"), Client{Opaque: eq})
	c.same("collinear: the cross product vanishes", "(primitives.Line).IsCollinear", c.p.meth("primitives", "Line", "IsCollinear"), c.p.spec("prim", "LineIsCollinear"), Client{})
}
