package main

import (
	"fmt"
	"strings"
)

func init() {
	register("C01", "The parser that Parse runs is evaluated to its grammar (partial evaluation of the combinator constructors). "+
		"The language of that grammar and the language of an independently written reference grammar are compared by derivatives of parsing "+
		"expressions (ordered choice, possessive repetition and aborting errors included) for texts of any length and content, over the whole "+
		"Unicode alphabet by character classes, with parentheses nested up to the stated depth. A difference is reported with a shortest text.", checkC01)
	register("C02", "In every state of the automaton of the grammar, the two letter cases of every letter lead to states that accept the same "+
		"continuations (quoted text, the letter after a backslash, and T/Z after a digit excepted); and no result of a transformation of the "+
		"syntax tree depends on the letter case of keyword text.", checkC02)
	register("C03", "In every state of the automaton of the grammar outside quotes and comments, every white-space character, every block comment "+
		"and every terminated line comment lead to states that accept the same continuations, and repeating them changes nothing.", checkC03)
	register("C04", "No unbounded repetition of the grammar has a body that can succeed without reading input, no rule can reach itself before "+
		"reading input, and every reduction of the production rules replaces what it matched by something shorter.", checkC04)
}

func (r *Run) depth(quick, thorough int) int {
	if r.tier == "thorough" {
		return thorough
	}
	return quick
}

// repoLang builds the language of the repository's grammar.
func (r *Run) repoLang() (*Interp, *Gram, *Lang, int) {
	in := r.interp()
	g, _ := in.rootGram()
	n, tr := 0, 0
	in.walkGram(g, map[int]bool{}, func(x *Gram) {
		n++
		if x.op == "Trans" {
			tr++
		}
	})
	r.counts["grammar nodes"] = n
	r.counts["tree transformations"] = tr
	r.floor("grammar nodes", 600)
	l := newLang()
	return in, g, l, newConv(in, l).exp(g)
}

func checkC01(r *Run) {
	_, _, l, e := r.repoLang()
	rg := newRefGram(l)
	ref := rg.rule("query")
	r.counts["reference rules"] = len(rg.rules)
	l.classify()
	r.counts["character classes"] = len(l.classes)
	d := r.depth(2, 3)
	r.counts["parenthesis nesting covered"] = d
	a, b := newAuto(l, e, 0, d), newAuto(l, ref, 0, d)
	w, inA, differ := diffAuto(a, b, r.depth(300000, 4000000))
	r.counts["states of the repository's automaton"] = len(a.st)
	r.counts["states of the reference automaton"] = len(b.st)
	r.floor("states of the repository's automaton", 5000)
	if differ {
		verb := "rejects"
		if inA {
			verb = "accepts"
		}
		r.fail("language", "the grammar %s the text %q, the supported grammar does not agree (shortest such text)", verb, w)
		return
	}
	r.shapes().rejections()
	r.sample("equal languages: %d + %d states, %d derivative steps", len(a.st), len(b.st), l.stepWork)
	r.assume = append(r.assume, "texts whose parentheses are nested deeper behave as those compared: the grammar re-enters the same rules")
}

func checkC02(r *Run) {
	_, _, l, e := r.repoLang()
	l.classify()
	d := r.depth(1, 2)
	r.counts["parenthesis nesting covered"] = d
	a := newAuto(l, e, 0, d)
	limit := r.depth(60000, 2000000)
	n, all := a.explore(limit)
	r.counts["states"] = len(a.st)
	r.floor("states", 5000)
	var seeds []pairSt
	type origin struct {
		st int32
		c  byte
	}
	var from []origin
	for i := 0; i < n; i++ {
		s := a.st[i]
		if s.f == fFalse || !inText(s.lex) {
			continue
		}
		for c := byte('a'); c <= 'z'; c++ {
			if (c == 't' || c == 'z') && s.lex == lexDigit {
				continue
			}
			lo, up := l.classOf[c], l.classOf[c-32]
			if lo == up {
				continue
			}
			x, y := a.step(int32(i), lo), a.step(int32(i), up)
			if x == y {
				r.count("letter transitions compared", 1)
				continue
			}
			r.count("letter transitions compared", 1)
			seeds = append(seeds, pairSt{x: x, y: y, from: -1, tag: len(from)})
			from = append(from, origin{int32(i), c})
		}
	}
	if w, inA, tag, differ := diffFrom(a, a, seeds, r.depth(300000, 4000000)); differ {
		o := from[tag]
		p := a.access(o.st)
		yes, no := string(o.c), strings.ToUpper(string(o.c))
		if !inA {
			yes, no = no, yes
		}
		all = true
		r.fail("case-recognition", "%q is accepted, but %q is rejected: letter case matters", p+yes+w, p+no+w)
	}
	if !all {
		undec("the automaton of the grammar has more than %d states", limit)
	}
	r.caseLeaks()
}

func checkC03(r *Run) {
	_, _, l, e := r.repoLang()
	l.classify()
	d := r.depth(1, 2)
	r.counts["parenthesis nesting covered"] = d
	a := newAuto(l, e, 0, d)
	limit := r.depth(60000, 2000000)
	n, all := a.explore(limit)
	r.counts["states"] = len(a.st)
	r.floor("states", 5000)
	var seeds []pairSt
	var text [][3]string
	seen := map[[2]int32]bool{}
	add := func(x, y int32, st int32, t1, t2 string) {
		r.count("pairs of variants compared", 1)
		if x == y || seen[[2]int32{x, y}] {
			return
		}
		seen[[2]int32{x, y}] = true
		seeds = append(seeds, pairSt{x: x, y: y, from: -1, tag: len(text)})
		text = append(text, [3]string{fmt.Sprint(st), t1, t2})
	}
	for i := int32(0); i < int32(n); i++ {
		s := a.st[i]
		if s.f == fFalse || !(s.lex == lexText || s.lex == lexDigit) {
			continue
		}
		r.count("positions outside quotes and comments", 1)
		sp := a.run(i, " ")
		for _, w := range []string{"\t", "\n", "\v", "\f", "\r"} {
			add(sp, a.run(i, w), i, " ", w)
			add(sp, a.run(sp, w), i, " ", " "+w)
		}
		add(sp, a.run(sp, " "), i, " ", "  ")
		for _, at := range []struct {
			st  int32
			pre string
		}{{i, ""}, {sp, " "}} {
			// block comment: its content does not matter
			in := a.run(at.st, "/*")
			star := a.run(in, "*")
			for c, sym := range l.classes {
				t := symText(sym)
				if sym != '*' {
					add(in, a.step(in, c), i, at.pre+"/*", at.pre+"/*"+t)
				}
				switch sym {
				case '*':
					add(star, a.step(star, c), i, at.pre+"/**", at.pre+"/***")
				case '/':
					add(sp, a.step(star, c), i, " ", at.pre+"/**/")
				default:
					add(in, a.step(star, c), i, at.pre+"/*", at.pre+"/**"+t)
				}
			}
			// line comment
			ln := a.run(at.st, "--")
			for c, sym := range l.classes {
				t := symText(sym)
				if sym == '\n' || sym == '\r' {
					add(sp, a.step(ln, c), i, " ", at.pre+"--"+t)
				} else {
					add(ln, a.step(ln, c), i, at.pre+"--", at.pre+"--"+t)
				}
			}
		}
	}
	if w, inA, tag, differ := diffFrom(a, a, seeds, r.depth(300000, 4000000)); differ {
		var st int32
		fmt.Sscan(text[tag][0], &st)
		p := a.access(st)
		yes, no := text[tag][1], text[tag][2]
		if !inA {
			yes, no = no, yes
		}
		all = true
		r.fail("whitespace", "%q is accepted, but %q is rejected: the kind of white space matters", p+yes+w, p+no+w)
	}
	if !all {
		undec("the automaton of the grammar has more than %d states", limit)
	}
}

// nullables computes which nodes can succeed without reading input.
func (in *Interp) nullables(g *Gram) map[int]bool {
	null := map[int]bool{}
	var all []*Gram
	in.walkGram(g, map[int]bool{}, func(x *Gram) { all = append(all, x) })
	for ch := true; ch; {
		ch = false
		for _, x := range all {
			if null[x.id] {
				continue
			}
			v := false
			every := func() bool {
				for _, k := range x.kids {
					if !null[k.id] {
						return false
					}
				}
				return true
			}
			switch x.op {
			case "lazy", "indirect":
				v = null[in.resolveGram(x).id]
			case "Seq", "SeqI", "CharClass":
				for _, s := range x.strs {
					v = v || s == ""
				}
			case "End", "Start", "WordBoundary", "Zero", "LookAhead", "LookAheadN", "ObjEnd":
				v = true
			case "Group", "Trans":
				v = every()
			case "Repeat":
				v = x.min == 0 || every()
			case "First":
				for _, k := range x.kids {
					v = v || null[k.id]
				}
			case "Any", "CharRange", "CharRangeN", "CharClassN", "Error", "Unmatched", "ObjAny", "ObjClassFn":
			default:
				undec("the parser %s at %s is not known", x.op, x.site)
			}
			if v {
				null[x.id] = true
				ch = true
			}
		}
	}
	return null
}

func checkC04(r *Run) {
	in, g, _, _ := r.repoLang()
	r.termination(in, g)
	// production rules
	n := 0
	in.walkGram(g, map[int]bool{}, func(x *Gram) {
		for _, t := range x.trs {
			if tm, ok := t.(*Term); ok {
				if pr, ok := tm.x.(*ProdRule); ok {
					n++
					r.reductions(in, pr)
				}
			}
		}
	})
	r.counts["uses of production rules"] = n
	r.floor("uses of production rules", 2)
	r.floor("reductions", 6)
	r.floor("unbounded repetitions", 10)
}

func (r *Run) termination(in *Interp, g *Gram) {
	null := in.nullables(g)
	edges := map[int][]*Gram{}
	var all []*Gram
	in.walkGram(g, map[int]bool{}, func(x *Gram) {
		all = append(all, x)
		switch x.op {
		case "lazy", "indirect":
			edges[x.id] = []*Gram{in.resolveGram(x)}
		case "First":
			edges[x.id] = x.kids
		default:
			for _, k := range x.kids {
				edges[x.id] = append(edges[x.id], k)
				if !null[k.id] {
					break
				}
			}
		}
		if x.op == "Repeat" && x.max < 0 {
			r.count("unbounded repetitions", 1)
			body := true
			for _, k := range x.kids {
				body = body && null[k.id]
			}
			if body {
				r.fail("repeat:"+x.String()+in.describe(x), "the unbounded repetition built at %s repeats %s, which can succeed without reading input: recognition does not end", x.site, in.describe(x))
			}
		}
		if x.op == "Repeat" && x.max >= 0 && x.max < x.min {
			r.fail("repeat-bounds:"+in.describe(x), "the repetition built at %s has more mandatory than allowed iterations", x.site)
		}
	})
	color := map[int]int{}
	var path []*Gram
	var dfs func(x *Gram)
	dfs = func(x *Gram) {
		color[x.id] = 1
		path = append(path, x)
		for _, k := range edges[x.id] {
			switch color[k.id] {
			case 0:
				dfs(k)
			case 1:
				var s []string
				for i := len(path) - 1; i >= 0; i-- {
					s = append(s, path[i].String()+" ("+path[i].site+")")
					if path[i].id == k.id {
						break
					}
				}
				r.fail("left-recursion:"+in.describe(k), "a rule can re-enter itself without reading input: %s", strings.Join(s, " <- "))
			}
		}
		path = path[:len(path)-1]
		color[x.id] = 2
	}
	for _, x := range all {
		if color[x.id] == 0 {
			dfs(x)
		}
	}
	r.counts["rules checked for re-entry"] = len(all)
}

// describe names a node by the terminals it starts with.
func (in *Interp) describe(g *Gram) string {
	var parts []string
	seen := map[int]bool{}
	in.walkGram(g, seen, func(x *Gram) {
		if len(parts) < 4 && len(x.strs) > 0 {
			parts = append(parts, fmt.Sprintf("%q", x.strs[0]))
		}
		if len(parts) < 4 && len(x.ranges) > 0 {
			parts = append(parts, fmt.Sprintf("[%c-%c]", x.ranges[0][0], x.ranges[0][1]))
		}
	})
	return "{" + strings.Join(parts, " ") + "}"
}
