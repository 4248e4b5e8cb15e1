def sub(f, old, new):
    s = open(f).read()
    assert s.count(old) == 1, (f, old, s.count(old))
    open(f, "w").write(s.replace(old, new))

sub('primitives/path.go','''	w := make([]int, n)
	a := make([]sortp, n*2)
	for i := 0; i < n; i++ {
		w[i] = i
		a[2*i] = sortp{
			P:   p[i].Points[0],
			Ind: i,
		}
		a[2*i+1] = sortp{
			P:   p[i].Points[len(p[i].Points)-1],
			Ind: i,
		}
	}
''','''	w := make([]int, 0, n)
	a := make([]sortp, 0, n*2)
	for i, pth := range p {
		w = append(w, i)
		first, last := pth.Points[0], pth.Points[len(pth.Points)-1]
		a = append(a, sortp{P: first, Ind: i}, sortp{P: last, Ind: i})
	}
''')
sub('primitives/path.go','''	res := []Path{}
	for i := 0; i < n; i++ {
		if w[i] == i {
			res = append(res, p[i])
		}
	}
	return res
''','''	res := make([]Path, 0, n)
	for i, root := range w {
		if root != i {
			continue
		}
		res = append(res, p[i])
	}
	return res
''')
