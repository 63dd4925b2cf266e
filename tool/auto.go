package main

import (
	"fmt"
	"os"
	"strings"
)

// Auto is a deterministic automaton built on demand from the derivatives of an
// expression, restricted to texts whose parentheses outside quotes and comments
// are nested at most max deep.
type Auto struct {
	l    *Lang
	max  int
	st   []astate
	ix   map[astate]int32
	next [][]int32 // -1: not computed
	acc  []int8    // 0: not computed, 1 no, 2 yes
}

type astate struct {
	f, prev int
	depth   int
	lex     int
}

// Lexical context: which quote or comment the position is in.
const (
	lexText = iota
	lexDash
	lexSlash
	lexDigit // after a digit outside quotes and comments
	lexLine
	lexBlock
	lexBlockStar
	lexSingle
	lexSingleEsc
	lexDouble
	lexDoubleEsc
)

func lexNext(s, c int) int {
	switch s {
	case lexText, lexDash, lexSlash, lexDigit:
		switch c {
		case '\'':
			return lexSingle
		case '"':
			return lexDouble
		case '-':
			if s == lexDash {
				return lexLine
			}
			return lexDash
		case '/':
			return lexSlash
		case '*':
			if s == lexSlash {
				return lexBlock
			}
		}
		if c >= '0' && c <= '9' {
			return lexDigit
		}
		return lexText
	case lexLine:
		if c == '\n' || c == '\r' {
			return lexText
		}
		return lexLine
	case lexBlock:
		if c == '*' {
			return lexBlockStar
		}
		return lexBlock
	case lexBlockStar:
		if c == '/' {
			return lexText
		}
		if c == '*' {
			return lexBlockStar
		}
		return lexBlock
	case lexSingle:
		if c == '\'' {
			return lexText
		}
		if c == '\\' {
			return lexSingleEsc
		}
		return s
	case lexSingleEsc:
		return lexSingle
	case lexDouble:
		if c == '"' {
			return lexText
		}
		if c == '\\' {
			return lexDoubleEsc
		}
		return s
	case lexDoubleEsc:
		return lexDouble
	}
	return s
}

func inText(lex int) bool {
	return lex == lexText || lex == lexDash || lex == lexSlash || lex == lexDigit
}

// newAuto is the automaton of the texts that e matches from the start to the end.
func newAuto(l *Lang, e, prev0, max int) *Auto {
	a := &Auto{l: l, max: max, ix: map[astate]int32{}}
	a.state(astate{l.atom(l.list(e, false, l.list(l.end(), false, -1))), prev0, 0, lexText})
	return a
}

func (a *Auto) state(s astate) int32 {
	if s.f == fFalse {
		s = astate{f: fFalse}
	}
	if i, ok := a.ix[s]; ok {
		return i
	}
	i := int32(len(a.st))
	a.ix[s] = i
	a.st = append(a.st, s)
	row := make([]int32, len(a.l.classes))
	for c := range row {
		row[c] = -1
	}
	a.next = append(a.next, row)
	a.acc = append(a.acc, 0)
	return i
}

func (a *Auto) accepts(i int32) bool {
	if a.acc[i] == 0 {
		a.acc[i] = 1
		if a.l.next(a.st[i].f, a.st[i].prev, symEnd) == fTrue {
			a.acc[i] = 2
		}
	}
	return a.acc[i] == 2
}

func (a *Auto) dead(i int32) bool { return a.st[i].f == fFalse }

func (a *Auto) step(i int32, c int) int32 {
	if n := a.next[i][c]; n >= 0 {
		return n
	}
	s := a.st[i]
	sym := a.l.classes[c]
	t := astate{prev: prevOf(sym), depth: s.depth, lex: lexNext(s.lex, sym)}
	t.f = fFalse
	if inText(s.lex) {
		switch sym {
		case '(':
			t.depth++
		case ')':
			if t.depth > 0 {
				t.depth--
			}
		}
	}
	if s.f != fFalse && t.depth <= a.max {
		t.f = a.l.next(s.f, s.prev, sym)
	}
	n := a.state(t)
	a.next[i][c] = n
	return n
}

// diffAuto finds a shortest text on which two automata over one alphabet differ.
func diffAuto(a, b *Auto, limit int) (string, bool, bool) {
	w, inA, _, d := diffFrom(a, b, []pairSt{{x: 0, y: 0, from: -1}}, limit)
	return w, inA, d
}

type pairSt struct {
	x, y int32
	from int
	sym  int
	tag  int // index of the seed
}

// diffFrom decides whether the two states of every seed accept the same texts;
// otherwise it gives a text, whether a accepts it, and the seed's tag.
func diffFrom(a, b *Auto, q []pairSt, limit int) (w string, inA bool, seed int, differ bool) {
	pa := []int32{}
	// union-find over the states of a (even) and b (odd); one automaton if a == b
	id := func(m *Auto, i int32) int32 {
		if a == b {
			return i
		}
		if m == a {
			return 2 * i
		}
		return 2*i + 1
	}
	find := func(x int32) int32 {
		for int(x) >= len(pa) {
			pa = append(pa, int32(len(pa)))
		}
		for pa[x] != x {
			pa[x] = pa[pa[x]]
			x = pa[x]
		}
		return x
	}
	var todo []pairSt
	merge := func(p pairSt) {
		rx, ry := find(id(a, p.x)), find(id(b, p.y))
		if rx == ry {
			return
		}
		pa[rx] = ry
		todo = append(todo, p)
	}
	for _, p := range q {
		merge(p)
	}
	for i := 0; i < len(todo); i++ {
		e := todo[i]
		if a.accepts(e.x) != b.accepts(e.y) {
			var syms []int
			j := i
			for ; todo[j].from >= 0; j = todo[j].from {
				syms = append(syms, todo[j].sym)
			}
			var sb strings.Builder
			seed = todo[j].tag
			for k := len(syms) - 1; k >= 0; k-- {
				sb.WriteString(symText(syms[k]))
			}
			return sb.String(), a.accepts(e.x), seed, true
		}
		for c, sym := range a.l.classes {
			merge(pairSt{x: a.step(e.x, c), y: b.step(e.y, c), from: i, sym: sym})
		}
		if len(a.st)+len(b.st) > limit {
			undec("the comparison of the grammar languages needs more than %d states", limit)
		}
	}
	return "", false, 0, false
}

// explore computes all states. If there are more than limit it stops early: the
// first ones can still be compared, but the comparison is not complete then.
func (a *Auto) explore(limit int) (n int, all bool) {
	for i := 0; i < len(a.st); i++ {
		for c := range a.l.classes {
			a.step(int32(i), c)
		}
		if os.Getenv("AUTODBG") != "" && i%5000 == 0 {
			fmt.Fprintln(os.Stderr, "state", i, len(a.st), len(a.l.exps), len(a.l.forms))
		}
		if len(a.st) > limit {
			return 8000, false
		}
	}
	return len(a.st), true
}

// run is the state after a text.
func (a *Auto) run(from int32, s string) int32 {
	for _, r := range s {
		from = a.step(from, a.l.classOf[symOf(r)])
	}
	return from
}

// access gives a shortest text to each state of an explored automaton.
func (a *Auto) access(to int32) string {
	from := make([]int32, len(a.st))
	sym := make([]int, len(a.st))
	for i := range from {
		from[i] = -1
	}
	from[0] = 0
	q := []int32{0}
	for len(q) > 0 && from[to] < 0 {
		s := q[0]
		q = q[1:]
		for c := range a.l.classes {
			if n := a.next[s][c]; n >= 0 && from[n] < 0 {
				from[n], sym[n] = s, c
				q = append(q, n)
			}
		}
	}
	r := ""
	for to != 0 {
		r = symText(a.l.classes[sym[to]]) + r
		to = from[to]
	}
	return r
}
