package main

import (
	"fmt"
	"sort"
	"strings"
)

// A small language of parsing expressions (PEG) with the semantics of the
// combinators: ordered choice, possessive repetition, aborting errors.

type bits [4]uint64

func (b *bits) set(i int)      { b[i>>6] |= 1 << uint(i&63) }
func (b *bits) has(i int) bool { return b[i>>6]&(1<<uint(i&63)) != 0 }

// The alphabet: 0..127 ASCII, then the ones below.
const (
	symNEL   = 128
	symNBSP  = 129
	symOther = 130
	maxSym   = 131
)

func symOf(r rune) int {
	switch {
	case r < 128:
		return int(r)
	case r == 0x85:
		return symNEL
	case r == 0xa0:
		return symNBSP
	}
	return symOther
}

func symText(s int) string {
	switch {
	case s < 128:
		return string(rune(s))
	case s == symNEL:
		return "\u0085"
	case s == symNBSP:
		return "\u00a0"
	case s == symOther:
		return "\u00e9"
	}
	return "?"
}

const (
	pEps = iota
	pFail
	pErr
	pSet
	pSeq
	pAlt
	pStar
	pNot
	pAnd
	pWB
	pStart
	pRef // a recursive rule, by number
)

type pexp struct {
	op  int
	set bits
	a   []int
	ref int
}

// Lang holds hash-consed expressions, lists, formulas and automata.
type Lang struct {
	exps     []pexp
	expIx    map[string]int
	lists    []plist
	listIx   map[plist]int
	forms    []form
	formIx   map[string]int
	memo     map[[3]int]int
	ememo    map[[2]int]int8
	refs     []int // bodies of the recursive rules
	classes  []int // representative symbol of each class
	classOf  [maxSym]int
	classed  bool
	anyChar  bits
	stepWork int
}

type plist struct {
	head int
	neg  bool
	tail int // -1: none
}

type form [][]int // disjunction of conjunctions of list ids; nil: false; {{}}: true

func newLang() *Lang {
	l := &Lang{expIx: map[string]int{}, listIx: map[plist]int{}, formIx: map[string]int{}, memo: map[[3]int]int{}, ememo: map[[2]int]int8{}}
	for i := 0; i < maxSym; i++ {
		l.anyChar.set(i)
	}
	l.form(nil)
	l.form(form{{}})
	return l
}

func (l *Lang) exp(e pexp) int {
	k := fmt.Sprint(e.op, ":", e.set, ":", e.a, ":", e.ref)
	if i, ok := l.expIx[k]; ok {
		return i
	}
	i := len(l.exps)
	l.exps = append(l.exps, e)
	l.expIx[k] = i
	return i
}

func (l *Lang) eps() int  { return l.exp(pexp{op: pEps}) }
func (l *Lang) fail() int { return l.exp(pexp{op: pFail}) }
func (l *Lang) err() int  { return l.exp(pexp{op: pErr}) }
func (l *Lang) set(b bits) int {
	return l.exp(pexp{op: pSet, set: b})
}
func (l *Lang) any() int { return l.set(l.anyChar) }
func (l *Lang) seq(xs ...int) int {
	var r []int
	for _, x := range xs {
		switch l.exps[x].op {
		case pEps:
			continue
		case pSeq:
			r = append(r, l.exps[x].a...)
			continue
		}
		r = append(r, x)
	}
	if len(r) == 0 {
		return l.eps()
	}
	if len(r) == 1 {
		return r[0]
	}
	return l.exp(pexp{op: pSeq, a: r})
}
func (l *Lang) alt(xs ...int) int {
	var r []int
	for _, x := range xs {
		if l.exps[x].op == pFail {
			continue
		}
		if l.exps[x].op == pAlt {
			r = append(r, l.exps[x].a...)
			continue
		}
		r = append(r, x)
	}
	if len(r) == 0 {
		return l.fail()
	}
	if len(r) == 1 {
		return r[0]
	}
	return l.exp(pexp{op: pAlt, a: r})
}
func (l *Lang) star(x int) int { return l.exp(pexp{op: pStar, a: []int{x}}) }
func (l *Lang) not(x int) int  { return l.exp(pexp{op: pNot, a: []int{x}}) }
func (l *Lang) and(x int) int  { return l.exp(pexp{op: pAnd, a: []int{x}}) }
func (l *Lang) opt(x int) int  { return l.alt(x, l.eps()) }
func (l *Lang) wb() int        { return l.exp(pexp{op: pWB}) }
func (l *Lang) startE() int    { return l.exp(pexp{op: pStart}) }
func (l *Lang) end() int       { return l.not(l.any()) }

// ref is a use of a recursive rule; newRef makes one, whose body is set later.
func (l *Lang) newRef() (ref, e int) {
	l.refs = append(l.refs, -1)
	return len(l.refs) - 1, l.exp(pexp{op: pRef, ref: len(l.refs) - 1})
}
func (l *Lang) str(s string) int {
	var xs []int
	for _, r := range s {
		var b bits
		b.set(symOf(r))
		xs = append(xs, l.set(b))
	}
	return l.seq(xs...)
}
func (l *Lang) strI(s string) int {
	var xs []int
	for _, r := range s {
		var b bits
		b.set(symOf(r))
		if r < 128 {
			b.set(symOf([]rune(strings.ToLower(string(r)))[0]))
			b.set(symOf([]rune(strings.ToUpper(string(r)))[0]))
		}
		xs = append(xs, l.set(b))
	}
	return l.seq(xs...)
}
func (l *Lang) rng(rs ...[2]rune) int {
	var b bits
	for _, r := range rs {
		if r[1] < 128 {
			for c := r[0]; c <= r[1]; c++ {
				b.set(symOf(c))
			}
			continue
		}
		for c := r[0]; c <= r[1] && c < 128; c++ {
			b.set(symOf(c))
		}
		if r[0] <= 0x85 && r[1] >= 0x85 {
			b.set(symNEL)
		}
		if r[0] <= 0xa0 && r[1] >= 0xa0 {
			b.set(symNBSP)
		}
		if r[1] > 0xa0 || r[0] > 0x85 && r[0] < 0xa0 {
			if !(r[0] == 0xa0 && r[1] == 0xa0) {
				b.set(symOther)
			}
		}
	}
	return l.set(b)
}

func (l *Lang) repeat(x, min, max int) int {
	var xs []int
	for i := 0; i < min; i++ {
		xs = append(xs, x)
	}
	if max < 0 {
		xs = append(xs, l.star(x))
		return l.seq(xs...)
	}
	r := l.eps()
	for i := min; i < max; i++ {
		r = l.opt(l.seq(x, r))
	}
	return l.seq(append(xs, r)...)
}

// classify partitions the alphabet by the sets in use.
func (l *Lang) classify() {
	sig := map[string]int{}
	l.classes = nil
	var sets []bits
	seen := map[bits]bool{}
	for _, e := range l.exps {
		if e.op == pSet && !seen[e.set] {
			seen[e.set] = true
			sets = append(sets, e.set)
		}
	}
	for s := 0; s < maxSym; s++ {
		var sb strings.Builder
		if isWordSym(s) {
			sb.WriteString("w")
		}
		for i := range sets {
			if sets[i].has(s) {
				sb.WriteByte('1')
			} else {
				sb.WriteByte('0')
			}
		}
		c, ok := sig[sb.String()]
		if !ok {
			c = len(l.classes)
			sig[sb.String()] = c
			l.classes = append(l.classes, s)
		}
		l.classOf[s] = c
	}
	// prefer readable representatives
	for c, s := range l.classes {
		best := s
		for t := 0; t < maxSym; t++ {
			if l.classOf[t] == c && rank(t) < rank(best) {
				best = t
			}
		}
		l.classes[c] = best
	}
	l.memo = map[[3]int]int{}
	l.ememo = map[[2]int]int8{}
}

func rank(s int) int {
	switch {
	case s >= 'a' && s <= 'z':
		return 0
	case s >= '0' && s <= '9':
		return 1
	case s == ' ':
		return 1
	case s > 32 && s < 127:
		return 2
	}
	return 3
}

func isWordSym(s int) bool {
	return s >= 'a' && s <= 'z' || s >= 'A' && s <= 'Z' || s >= '0' && s <= '9' || s == '_' || s == '$'
}

// previous character: 0 start of the text, 1 word, 2 other
func prevOf(s int) int {
	if isWordSym(s) {
		return 1
	}
	return 2
}

const symEnd = -1

func wbOK(prev, c int) bool {
	w := c >= 0 && isWordSym(c)
	switch {
	case prev == 0:
		return w
	case c == symEnd:
		return prev == 1
	}
	return (prev == 1) != w
}

func (l *Lang) list(head int, neg bool, tail int) int {
	p := plist{head, neg, tail}
	if i, ok := l.listIx[p]; ok {
		return i
	}
	i := len(l.lists)
	l.lists = append(l.lists, p)
	l.listIx[p] = i
	return i
}

func (l *Lang) form(f form) int {
	var sb strings.Builder
	for _, c := range f {
		for _, a := range c {
			fmt.Fprintf(&sb, "%d,", a)
		}
		sb.WriteByte(';')
	}
	k := sb.String()
	if i, ok := l.formIx[k]; ok {
		return i
	}
	i := len(l.forms)
	l.forms = append(l.forms, f)
	l.formIx[k] = i
	return i
}

const fFalse, fTrue = 0, 1

func subsetOf(a, b []int) bool { // a subset of b, both sorted
	i := 0
	for _, x := range b {
		if i < len(a) && a[i] == x {
			i++
		}
	}
	return i == len(a)
}

func (l *Lang) norm(f form) int {
	sort.Slice(f, func(i, j int) bool { return len(f[i]) < len(f[j]) })
	var r form
	for _, c := range f {
		abs := false
		for _, d := range r {
			if subsetOf(d, c) {
				abs = true
				break
			}
		}
		if !abs {
			r = append(r, c)
		}
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := r[i], r[j]
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	return l.form(r)
}

func (l *Lang) or(a, b int) int {
	if a == fFalse || b == fTrue {
		return b
	}
	if b == fFalse || a == fTrue {
		return a
	}
	if a == b {
		return a
	}
	f := append(append(form{}, l.forms[a]...), l.forms[b]...)
	return l.norm(f)
}

func (l *Lang) andF(a, b int) int {
	if a == fTrue || b == fFalse {
		return b
	}
	if b == fTrue || a == fFalse {
		return a
	}
	if a == b {
		return a
	}
	var f form
	for _, x := range l.forms[a] {
	next:
		for _, y := range l.forms[b] {
			m := map[int]bool{}
			var c []int
			for _, z := range append(append([]int{}, x...), y...) {
				if !m[z] {
					m[z] = true
					c = append(c, z)
				}
			}
			// contradictions: e matches and e fails
			for _, z := range c {
				p := l.lists[z]
				if p.tail < 0 {
					if o, ok := l.listIx[plist{p.head, !p.neg, -1}]; ok && m[o] {
						continue next
					}
				}
				// e.K needs e to match
				if !p.neg {
					if o, ok := l.listIx[plist{p.head, true, -1}]; ok && m[o] {
						continue next
					}
				}
			}
			sort.Ints(c)
			f = append(f, c)
		}
	}
	if len(f) > 4000 {
		undec("the comparison of the grammar languages grows too large")
	}
	return l.norm(f)
}

// atom makes the formula of a list.
func (l *Lang) atom(ls int) int {
	if ls < 0 {
		return fTrue
	}
	return l.form(form{{ls}})
}

// step is the formula that must hold after the symbol c (symEnd: at the end,
// giving true or false).
func (l *Lang) step(ls, prev, c int) int {
	if ls < 0 {
		return fTrue
	}
	k := [3]int{ls, prev, c}
	if r, ok := l.memo[k]; ok {
		if r < 0 {
			undec("a rule of the grammar re-enters itself without reading input")
		}
		return r
	}
	l.memo[k] = -1
	l.stepWork++
	r := l.step1(ls, prev, c)
	l.memo[k] = r
	return r
}

func (l *Lang) bool(b bool) int {
	if b {
		return fTrue
	}
	return fFalse
}

func (l *Lang) step1(ls, prev, c int) int {
	p := l.lists[ls]
	e := l.exps[p.head]
	rest := func() int { return l.step(p.tail, prev, c) }
	one := func(x int, neg bool) int { return l.step(l.list(x, neg, -1), prev, c) }
	if !p.neg {
		switch e.op {
		case pEps:
			return rest()
		case pFail, pErr:
			return fFalse
		case pSet:
			if c >= 0 && c < maxSym && e.set.has(c) {
				return l.atom(p.tail)
			}
			return fFalse
		case pRef:
			return l.step(l.list(l.refs[e.ref], false, p.tail), prev, c)
		case pSeq:
			t := p.tail
			for i := len(e.a) - 1; i >= 0; i-- {
				t = l.list(e.a[i], false, t)
			}
			return l.step(t, prev, c)
		case pAlt:
			r := fFalse
			g := fTrue
			for _, x := range e.a {
				if g == fFalse {
					break
				}
				r = l.or(r, l.andF(g, l.step(l.list(x, false, p.tail), prev, c)))
				g = l.andF(g, one(x, true))
			}
			return r
		case pStar:
			x := e.a[0]
			r := l.step(l.list(x, false, l.list(p.head, false, p.tail)), prev, c)
			f := one(x, true)
			if f == fFalse {
				return r
			}
			return l.or(r, l.andF(f, rest()))
		case pNot:
			f := one(e.a[0], true)
			if f == fFalse {
				return f
			}
			return l.andF(f, rest())
		case pAnd:
			f := one(e.a[0], false)
			if f == fFalse {
				return f
			}
			return l.andF(f, rest())
		case pWB:
			if wbOK(prev, c) {
				return rest()
			}
			return fFalse
		case pStart:
			if prev == 0 {
				return rest()
			}
			return fFalse
		}
	}
	// the head must fail
	switch e.op {
	case pEps, pErr, pStar:
		return fFalse
	case pFail:
		return fTrue
	case pSet:
		return l.bool(!(c >= 0 && c < maxSym && e.set.has(c)))
	case pRef:
		return one(l.refs[e.ref], true)
	case pSeq:
		f := one(e.a[0], true)
		if f == fTrue {
			return f
		}
		rs := l.seq(e.a[1:]...)
		return l.or(f, l.step(l.list(e.a[0], false, l.list(rs, true, -1)), prev, c))
	case pAlt:
		r := fTrue
		for _, x := range e.a {
			r = l.andF(r, one(x, true))
			if r == fFalse {
				return r
			}
		}
		return r
	case pNot:
		return one(e.a[0], false)
	case pAnd:
		return one(e.a[0], true)
	case pWB:
		return l.bool(!wbOK(prev, c))
	case pStart:
		return l.bool(prev != 0)
	}
	undec("internal: step")
	return 0
}

// next is the derivative of a formula.
func (l *Lang) next(f, prev, c int) int {
	r := fFalse
	for _, cj := range l.forms[f] {
		g := fTrue
		for _, a := range cj {
			g = l.andF(g, l.step(a, prev, c))
			if g == fFalse {
				break
			}
		}
		r = l.or(r, g)
		if r == fTrue {
			break
		}
	}
	return r
}

// DFA is a deterministic automaton over the symbol classes.
type DFA struct {
	l    *Lang
	next [][]int32
	acc  []bool
	prev []int
	dead int
}

type fstate struct{ f, prev int }

// dfa builds the automaton of the texts that e matches from the start to the end.
func (l *Lang) dfa(e int, limit int) *DFA {
	return l.dfaFrom(e, 0, limit)
}

func (l *Lang) dfaFrom(e, prev0, limit int) *DFA {
	start := fstate{l.atom(l.list(e, false, l.list(l.end(), false, -1))), prev0}
	ix := map[fstate]int{start: 0}
	work := []fstate{start}
	d := &DFA{l: l, dead: -1}
	for i := 0; i < len(work); i++ {
		s := work[i]
		d.acc = append(d.acc, l.next(s.f, s.prev, symEnd) == fTrue)
		d.prev = append(d.prev, s.prev)
		row := make([]int32, len(l.classes))
		for c, sym := range l.classes {
			g := l.next(s.f, s.prev, sym)
			t := fstate{g, prevOf(sym)}
			if g == fFalse {
				t.prev = 2
			}
			n, ok := ix[t]
			if !ok {
				n = len(work)
				ix[t] = n
				work = append(work, t)
				if g == fFalse {
					d.dead = n
				}
				if len(work) > limit {
					undec("the automaton of a grammar rule has more than %d states", limit)
				}
			}
			row[c] = int32(n)
		}
		d.next = append(d.next, row)
	}
	return d
}

// minimize merges equivalent states.
func (d *DFA) minimize() *DFA {
	n := len(d.next)
	cl := make([]int32, n)
	for i := range cl {
		if d.acc[i] {
			cl[i] = 1
		}
	}
	k := 0
	for {
		ix := map[string]int32{}
		nc := make([]int32, n)
		buf := make([]byte, 0, 4*(len(d.l.classes)+1))
		for i := range cl {
			buf = buf[:0]
			put := func(x int32) { buf = append(buf, byte(x), byte(x>>8), byte(x>>16), byte(x>>24)) }
			put(cl[i])
			for _, t := range d.next[i] {
				put(cl[t])
			}
			c, ok := ix[string(buf)]
			if !ok {
				c = int32(len(ix))
				ix[string(buf)] = c
			}
			nc[i] = c
		}
		cl = nc
		if len(ix) == k {
			break
		}
		k = len(ix)
	}
	m := &DFA{l: d.l, next: make([][]int32, k), acc: make([]bool, k), prev: make([]int, k), dead: -1}
	for i := range cl {
		c := cl[i]
		if m.next[c] == nil {
			row := make([]int32, len(d.next[i]))
			for j, t := range d.next[i] {
				row[j] = cl[t]
			}
			m.next[c] = row
			m.acc[c] = d.acc[i]
		}
	}
	// move the start state to the front
	s := cl[0]
	if s != 0 {
		m.next[0], m.next[s] = m.next[s], m.next[0]
		m.acc[0], m.acc[s] = m.acc[s], m.acc[0]
		for _, row := range m.next {
			for j, t := range row {
				if t == 0 {
					row[j] = s
				} else if t == s {
					row[j] = 0
				}
			}
		}
	}
	for i, row := range m.next {
		dead := !m.acc[i]
		for _, t := range row {
			if int(t) != i {
				dead = false
			}
		}
		if dead {
			m.dead = i
		}
	}
	return m
}

// diff finds a shortest text on which two automata differ.
func diff(a, b *DFA) (string, bool, bool) {
	type pr struct{ x, y int }
	type ent struct {
		p    pr
		from int
		sym  int
	}
	par := map[int]int{}
	var find func(x int) int
	find = func(x int) int {
		for {
			p, ok := par[x]
			if !ok || p == x {
				return x
			}
			if q, ok := par[p]; ok {
				par[x] = q
			}
			x = p
		}
	}
	off := len(a.next)
	q := []ent{{pr{0, 0}, -1, 0}}
	par[find(0)] = find(off)
	for i := 0; i < len(q); i++ {
		e := q[i]
		if a.acc[e.p.x] != b.acc[e.p.y] {
			var syms []int
			for j := i; q[j].from >= 0; j = q[j].from {
				syms = append(syms, q[j].sym)
			}
			var sb strings.Builder
			for j := len(syms) - 1; j >= 0; j-- {
				sb.WriteString(symText(syms[j]))
			}
			return sb.String(), a.acc[e.p.x], true
		}
		for c, sym := range a.l.classes {
			x, y := int(a.next[e.p.x][c]), int(b.next[e.p.y][c])
			rx, ry := find(x), find(off+y)
			if rx == ry {
				continue
			}
			par[rx] = ry
			q = append(q, ent{pr{x, y}, i, sym})
		}
	}
	return "", false, false
}

// shortest is the shortest accepted text (from a state).
func (d *DFA) shortest(from int) (string, bool) {
	type ent struct{ st, from, sym int }
	seen := map[int]bool{from: true}
	q := []ent{{from, -1, 0}}
	for i := 0; i < len(q); i++ {
		if d.acc[q[i].st] {
			s := ""
			for j := i; q[j].from >= 0; j = q[j].from {
				s = symText(q[j].sym) + s
			}
			return s, true
		}
		for c, sym := range d.l.classes {
			t := int(d.next[q[i].st][c])
			if !seen[t] {
				seen[t] = true
				q = append(q, ent{t, i, sym})
			}
		}
	}
	return "", false
}

// pathTo is a shortest text leading to a state.
func (d *DFA) pathTo(st int) string {
	type ent struct{ st, from, sym int }
	seen := map[int]bool{0: true}
	q := []ent{{0, -1, 0}}
	for i := 0; i < len(q); i++ {
		if q[i].st == st {
			s := ""
			for j := i; q[j].from >= 0; j = q[j].from {
				s = symText(q[j].sym) + s
			}
			return s
		}
		for c, sym := range d.l.classes {
			t := int(d.next[q[i].st][c])
			if !seen[t] {
				seen[t] = true
				q = append(q, ent{t, i, sym})
			}
		}
	}
	return "?"
}

func (d *DFA) run(s string) bool {
	st := 0
	for _, r := range s {
		st = int(d.next[st][d.l.classOf[symOf(r)]])
	}
	return d.acc[st]
}
