package main

// conv translates grammar nodes into expressions.
type conv struct {
	in   *Interp
	l    *Lang
	memo map[int]int
	refs map[int]int // resolved node -> use of the recursive rule
}

func newConv(in *Interp, l *Lang) *conv {
	return &conv{in: in, l: l, memo: map[int]int{}, refs: map[int]int{}}
}

func (c *conv) exp(g *Gram) int {
	l := c.l
	if g.op == "lazy" || g.op == "indirect" {
		g = c.in.resolveGram(g)
		if e, ok := c.refs[g.id]; ok {
			return e
		}
		r, e := l.newRef()
		c.refs[g.id] = e
		l.refs[r] = c.exp(g)
		return e
	}
	if e, ok := c.memo[g.id]; ok {
		return e
	}
	var e int
	kids := func() []int {
		var r []int
		for _, x := range g.kids {
			r = append(r, c.exp(x))
		}
		return r
	}
	switch g.op {
	case "Group":
		e = l.seq(kids()...)
	case "First":
		e = l.alt(kids()...)
	case "Trans":
		e = c.exp(g.kids[0])
	case "LookAhead":
		e = l.and(l.seq(kids()...))
	case "LookAheadN":
		e = l.not(l.seq(kids()...))
	case "Repeat":
		e = l.repeat(l.seq(kids()...), g.min, g.max)
	case "Seq":
		e = l.str(g.strs[0])
	case "SeqI":
		e = l.strI(g.strs[0])
	case "Any":
		e = l.any()
	case "End":
		e = l.end()
	case "Start":
		e = l.startE()
	case "WordBoundary":
		e = l.wb()
	case "CharRange":
		e = l.rng(g.ranges...)
	case "CharRangeN":
		e = l.seq(l.not(l.rng(g.ranges...)), l.any())
	case "CharClass":
		var xs []int
		for _, s := range g.strs {
			xs = append(xs, l.str(s))
		}
		e = l.alt(xs...)
	case "CharClassN":
		var xs []int
		for _, s := range g.strs {
			xs = append(xs, l.str(s))
		}
		e = l.seq(l.not(l.alt(xs...)), l.any())
	case "Zero":
		e = l.eps()
	case "Error":
		e = l.err()
	case "Unmatched":
		e = l.fail()
	default:
		undec("the parser %s at %s cannot be used on text", g.op, g.site)
	}
	c.memo[g.id] = e
	return e
}

// walkGram visits every grammar node reachable from g once.
func (in *Interp) walkGram(g *Gram, seen map[int]bool, f func(g *Gram)) {
	if seen[g.id] {
		return
	}
	seen[g.id] = true
	f(g)
	if g.op == "lazy" || g.op == "indirect" {
		in.walkGram(in.resolveGram(g), seen, f)
		return
	}
	for _, k := range g.kids {
		in.walkGram(k, seen, f)
	}
}
