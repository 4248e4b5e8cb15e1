// Package joins states what joining the pieces of a contour means (C29).
package joins

import (
	"sort"

	. "github.com/l1va/goosli/primitives"
)

// STryJoin: the second after the first without the shared point where the first ends at the start
// of the second, the first after the second where it is the other way round, else nothing.
func STryJoin(a Path, b Path) *Path {
	if a.Points[len(a.Points)-1].Equal(b.Points[0]) {
		var r []Point
		r = append(r, a.Points...)
		r = append(r, b.Points[1:]...)
		return &Path{Points: r}
	}
	if b.Points[len(b.Points)-1].Equal(a.Points[0]) {
		var r []Point
		r = append(r, b.Points...)
		r = append(r, a.Points[1:]...)
		return &Path{Points: r}
	}
	return nil
}

type end struct {
	P Point
	I int
}

// join is what two pieces give, or nothing.
func join(a, b Path) *Path { panic("") }

// joinAll is what all pieces give.
func joinAll(p []Path) []Path { panic("") }

// SJoin: the ends of all pieces in order; neighbours that coincide and belong to different results
// so far are joined if they can be; the joined piece takes the place of the first, the second is
// gone; what is left, in order.
func SJoin(p []Path) []Path {
	n := len(p)
	ps := make([]Path, n)
	copy(ps, p)
	into := make([]int, n)
	ends := make([]end, 2*n)
	for i := 0; i < n; i++ {
		into[i] = i
		ends[2*i] = end{p[i].Points[0], i}
		ends[2*i+1] = end{p[i].Points[len(p[i].Points)-1], i}
	}
	return joinEnds(ps, into, ends)
}

// SJoinAppend: the same, the lists being collected.
func SJoinAppend(p []Path) []Path {
	ps := append([]Path{}, p...)
	var into []int
	var ends []end
	for i, q := range p {
		into = append(into, i)
		ends = append(ends, end{q.Points[0], i}, end{q.Points[len(q.Points)-1], i})
	}
	return joinEnds(ps, into, ends)
}

// SJoinEnds: the same, only the ends being collected.
func SJoinEnds(p []Path) []Path {
	ps := append([]Path{}, p...)
	into := make([]int, len(p))
	var ends []end
	for i, q := range p {
		into[i] = i
		ends = append(ends, end{q.Points[0], i}, end{q.Points[len(q.Points)-1], i})
	}
	return joinEnds(ps, into, ends)
}

func joinEnds(ps []Path, into []int, ends []end) []Path {
	n := len(ps)
	sort.Slice(ends, func(i, j int) bool {
		a, b := ends[i].P, ends[j].P
		if a.X < b.X {
			return true
		}
		if !AlmostZero(a.X - b.X) {
			return false
		}
		if a.Y < b.Y {
			return true
		}
		if !AlmostZero(a.Y - b.Y) {
			return false
		}
		return a.Z < b.Z
	})
	for i := 1; i < len(ends); i++ {
		if !ends[i-1].P.Equal(ends[i].P) {
			continue
		}
		a := ends[i-1].I
		for into[a] != a {
			a = into[a]
		}
		b := ends[i].I
		for into[b] != b {
			b = into[b]
		}
		if a == b {
			continue
		}
		if r := join(ps[a], ps[b]); r != nil {
			ps[a] = *r
			into[b] = a
		}
	}
	var res []Path
	for i := 0; i < n; i++ {
		if into[i] == i {
			res = append(res, ps[i])
		}
	}
	return res
}

// SMinimize: a point is dropped where the line that ends in it and the line that starts in it are
// collinear; a closed path whose first and last line are collinear loses its first point, keeping
// one that is on both of them.
func SMinimize(p Path) Path {
	if len(p.Points) < 3 {
		return p
	}
	r := []Point{p.Points[0], p.Points[1]}
	from, to := p.Points[0], p.Points[1]
	for i := 2; i < len(p.Points); i++ {
		q := p.Points[i]
		if (Line{P1: from, P2: to}).IsCollinear(Line{P1: to, P2: q}) {
			r[len(r)-1] = q
		} else {
			from = to
			r = append(r, q)
		}
		to = q
	}
	return close(r, Line{P1: from, P2: to})
}

// SMinimizeEnds: the same, looking at the last two points kept.
func SMinimizeEnds(p Path) Path {
	if len(p.Points) < 3 {
		return p
	}
	r := []Point{p.Points[0], p.Points[1]}
	for i := 2; i < len(p.Points); i++ {
		q := p.Points[i]
		to := r[len(r)-1]
		if (Line{P1: r[len(r)-2], P2: to}).IsCollinear(Line{P1: to, P2: q}) {
			r[len(r)-1] = q
		} else {
			r = append(r, q)
		}
	}
	return close(r, Line{P1: r[len(r)-2], P2: r[len(r)-1]})
}

func close(r []Point, last Line) Path {
	if !(Path{Points: r}).IsClosed() {
		return Path{Points: r}
	}
	first := Line{P1: r[0], P2: r[1]}
	if !last.IsCollinear(first) {
		return Path{Points: r}
	}
	if last.Len() > first.Len() {
		r[len(r)-1] = r[1]
		return Path{Points: r[1:]}
	}
	r[0] = r[len(r)-2]
	return Path{Points: r[:len(r)-1]}
}

// SJoinAndMinimize: every joined piece with its collinear neighbours merged.
func SJoinAndMinimize(p []Path) []Path {
	var r []Path
	for _, q := range joinAll(p) {
		r = append(r, q.MinimizeLines())
	}
	return r
}

// SClosed: the last point is the first.
func SClosed(p Path) bool {
	return len(p.Points) < 2 || p.Points[0].Equal(p.Points[len(p.Points)-1])
}
