def sub(f, old, new):
    s = open(f).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(f, "w").write(s.replace(old, new))

sub('primitives/path.go','''			j1 := b.Ind
			for w[j1] != j1 {
				j1 = w[j1]
			}
			p1 := p[j1]
			j2 := c.Ind
			for w[j2] != j2 {
				j2 = w[j2]
			}
			if j1 == j2 {
				continue
			}
			p2 := p[j2]
			res := tryJoin(p1, p2)
			if res != nil {
				p[j1] = *res
				w[j2] = j1
			}
		}
''','''			j1, j2 := findRoot(w, b.Ind), findRoot(w, c.Ind)
			if j1 != j2 {
				if res := tryJoin(p[j1], p[j2]); res != nil {
					w[j2] = j1
					p[j1] = *res
				}
			}
		}
''')
sub('primitives/path.go','''func JoinPaths3AndMinimize(''','''func findRoot(w []int, i int) int {
	for w[i] != i {
		i = w[i]
	}
	return i
}

func JoinPaths3AndMinimize(''')
sub('primitives/path.go','''	for i := 0; i < len(joined); i++ {
		joined[i] = joined[i].MinimizeLines()
	}
	return joined
''','''	for i, p := range joined {
		joined[i] = p.MinimizeLines()
	}
	return joined
''')
sub('primitives/path.go','''	for i := 2; i < len(p.Points); i++ {
		pt := p.Points[i]
		l2 := Line{l1.P2, pt}
		if l1.IsCollinear(l2) {
			l1.P2 = pt
			res.Points[len(res.Points)-1] = pt
		} else {
			l1 = l2
			res.Points = append(res.Points, pt)
		}
	}
''','''	for _, pt := range p.Points[2:] {
		l2 := Line{P1: l1.P2, P2: pt}
		if !l1.IsCollinear(l2) {
			res.Points = append(res.Points, pt)
			l1 = l2
			continue
		}
		res.Points[len(res.Points)-1] = pt
		l1 = Line{l1.P1, pt}
	}
''')
sub('primitives/path.go','''	if p1.Points[len(p1.Points)-1].Equal(p2.Points[0]) {
		p1.Points = append(p1.Points, p2.Points[1:]...)
		return &p1
	}
	if p2.Points[len(p2.Points)-1].Equal(p1.Points[0]) {
		p2.Points = append(p2.Points, p1.Points[1:]...)
		return &p2
	}
''','''	first1, last1 := p1.Points[0], p1.Points[len(p1.Points)-1]
	first2, last2 := p2.Points[0], p2.Points[len(p2.Points)-1]
	switch {
	case last1.Equal(first2):
		return &Path{Points: append(p1.Points, p2.Points[1:]...)}
	case last2.Equal(first1):
		return &Path{Points: append(p2.Points, p1.Points[1:]...)}
	}
''')
sub('primitives/path.go','''		return b.X < c.X || (AlmostZero(b.X-c.X) && b.Y < c.Y) || (AlmostZero(b.X-c.X) && AlmostZero(b.Y-c.Y) && b.Z < c.Z)
''','''		if b.X < c.X {
			return true
		}
		if !AlmostZero(b.X - c.X) {
			return false
		}
		return b.Y < c.Y || (AlmostZero(b.Y-c.Y) && b.Z < c.Z)
''')
