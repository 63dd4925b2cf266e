package main

import (
	"fmt"
	"sort"
	"strings"
)

// cond08 is one operator of conditions.
var condOps = []struct {
	word, opcode string
}{{"not", "Not"}, {"and", "And"}, {"or", "Or"}}

func checkC08(r *Run) {
	s := r.shapes()
	sh := s.sh
	// the operator nodes that are put between the operands, and the operands
	ops := map[string]map[string]*El{}
	conds := map[string]*El{}
	for _, sub := range s.subsOf("[]types.SoqlCondition") {
		conds[sub.els[0].key] = sub.els[0]
	}
	uses := 0
	clauses := map[string]bool{}
	s.condForms(func(sub *Sub, d *Deriv, kind string) {
		switch kind {
		case "pass":
			r.count("forms passed on", 1)
			if unbox(d.vals[0]).k() != unbox(leaves(d.toks)[0].vals[0]).k() {
				r.fail("pass:"+where(sub), "the conditions in %q are not passed on unchanged at %s", d, where(sub))
			}
			ws := words(d.toks)
			if has(ws, "where") {
				clauses["where"] = true
			}
			if has(ws, "having") {
				clauses["having"] = true
			}
			if has(ws, "not") || has(ws, "and") || has(ws, "or") {
				r.fail("pass-op:"+where(sub), "the operator in %q is dropped at %s", d, where(sub))
			}
			return
		case "comparison":
			return
		case "other":
			r.fail("form:"+where(sub)+d.String(), "the condition %q at %s is neither one comparison nor the operands and operators of the production rules", d, where(sub))
			return
		}
		uses++
		// the nodes that the rules get, in order
		chain := func(ts []Tok, nodes []*El, first bool) {
			var seq, ws []string
			for _, t := range ts {
				switch {
				case t.kind == 'l':
					if len(t.els) != 1 || leafType(t) != "[]types.SoqlCondition" {
						undec("an operand of %q at %s is not a list of conditions", d, where(sub))
					}
					seq, ws = append(seq, "C"), append(ws, "C")
				case t.kind == 'w' && (t.text == "not" || t.text == "and" || t.text == "or"):
					ws = append(ws, t.text)
					seq = append(seq, map[string]string{"not": "N", "and": "B", "or": "B"}[t.text])
				case t.kind == 'w' && t.text != "" && t.text != "(" && t.text != ")":
					undec("the word %q in a condition at %s is not known", t.text, where(sub))
				case t.kind == 'r':
					undec("a repetition within the conditions at %s", where(sub))
				}
			}
			if len(nodes) != len(ws) {
				r.fail("nodes:"+where(sub)+strings.Join(ws, " "), "the text %q at %s gives the production rules %d nodes", toksText(ts), where(sub), len(nodes))
				return
			}
			for i, el := range nodes {
				if ws[i] == "C" {
					conds[el.key] = el
					continue
				}
				if ops[ws[i]] == nil {
					ops[ws[i]] = map[string]*El{}
				}
				ops[ws[i]][el.key] = el
			}
			got := strings.Join(seq, "")
			want := map[string]bool{"BC": true, "BNC": true}
			if first {
				want = map[string]bool{"C": true, "NC": true}
			}
			if !want[got] {
				r.fail("chain:"+where(sub)+got, "the operands and operators of %q at %s reach the production rules as %s", toksText(ts), where(sub), got)
			}
			r.count("operand chains", 1)
		}
		var head []Tok
		reps := 0
		for _, t := range d.toks {
			if t.kind == 'r' {
				reps++
				for _, b := range t.bodies {
					chain(b.toks, b.nodes, false)
				}
				continue
			}
			if reps > 0 && (t.kind == 'l' || t.kind == 'w' && t.text != "") {
				undec("text after the repetition at %s", where(sub))
			}
			head = append(head, t)
		}
		if reps > 1 {
			undec("several repetitions at %s", where(sub))
		}
		chain(head, d.nodes, true)
	})
	r.counts["forms of operator chains"] = uses
	r.floor("forms of operator chains", 4)
	r.floor("operand chains", 16)
	for _, c := range []string{"where", "having"} {
		if !clauses[c] {
			r.fail("clause:"+c, "the conditions of the clause %q do not come from the production rules", c)
		}
	}
	for _, o := range condOps {
		if len(ops[o.word]) == 0 {
			r.fail("operator:"+o.word, "the operator %q never reaches the production rules", o.word)
		}
	}
	if len(sh.prods) == 0 {
		undec("no production rules were evaluated")
	}
	var operand *El
	for _, k := range sortedKeys(conds) {
		if operand == nil {
			operand = conds[k]
		}
	}
	done := map[*ProdRule]bool{}
	for pr, pi := range sh.prods {
		if done[pr] {
			continue
		}
		done[pr] = true
		s.prodRules(pr, pi, ops, conds, operand)
	}
	r.floor("reduction rules", 3)
}

func (s *shp) prodRules(pr *ProdRule, pi *ProdInfo, ops map[string]map[string]*El, conds map[string]*El, operand *El) {
	r, sh := s.r, s.sh
	seen := map[string]bool{}
	ranks := map[int]map[string]bool{}
	for _, ri := range pi.rules {
		r.count("reduction rules", 1)
		name := fmt.Sprintf("rule %d of precedence %d of the production rules at %s", ri.idx+1, ri.prec+1, pr.site)
		key := fmt.Sprintf("rule:%s:%d.%d:", pr.site, ri.prec, ri.idx)
		// which node each cell takes
		var pat []string
		for _, c := range ri.cells {
			r.count("matcher decisions", 1)
			acc := map[string]bool{}
			for w, els := range ops {
				n := 0
				for _, k := range sortedKeys(els) {
					switch m := sh.matches(c, els[k]); m {
					case 1:
						n++
					case 0:
					default:
						undec("a matcher of %s does not decide on the operator %q", name, w)
					}
				}
				if n > 0 && n < len(els) {
					r.fail(key+"some:"+w, "%s does not match every spelling or place of %q", name, w)
				}
				if n > 0 {
					acc[w] = true
				}
			}
			nc := 0
			for _, k := range sortedKeys(conds) {
				switch m := sh.matches(c, conds[k]); m {
				case 1:
					nc++
				case 0:
				default:
					undec("a matcher of %s does not decide on operands", name)
				}
			}
			switch {
			case nc == len(conds):
				pat = append(pat, "C")
			case nc == 0 && len(acc) == 1:
				pat = append(pat, sortedKeys(acc)[0])
			default:
				r.fail(key+"cell", "%s: a matcher takes %v and %d of %d kinds of operands", name, sortedKeys(acc), nc, len(conds))
				pat = append(pat, "?")
			}
		}
		op := ""
		switch p := strings.Join(pat, " "); p {
		case "not C":
			op = "not"
		case "C and C":
			op = "and"
		case "C or C":
			op = "or"
		default:
			r.fail(key+"pattern", "%s matches %q instead of an operator with its operands", name, p)
			continue
		}
		seen[op] = true
		opcode := ""
		for _, o := range condOps {
			if o.word == op {
				opcode = o.opcode
			}
		}
		if ranks[ri.prec] == nil {
			ranks[ri.prec] = map[string]bool{}
		}
		ranks[ri.prec][op] = true
		if pr.precs[ri.prec].rtol && op != "not" {
			r.fail(key+"direction", "%s groups %q from the right", name, op)
		}
		// what it makes
		var els []*El
		for _, p := range pat {
			if p == "C" {
				els = append(els, operand)
			} else {
				els = append(els, ops[p][sortedKeys(ops[p])[0]])
			}
		}
		ok := 0
		for _, src := range sh.action(ri, els) {
			if src.panic != "" {
				r.fail(key+"panic", "%s can panic: %s", name, src.panic)
				continue
			}
			if src.err != nil {
				r.fail(key+"error", "%s fails: %s", name, show(src.err))
				continue
			}
			ok++
			if len(src.elems) != 1 {
				r.fail(key+"count", "%s is replaced by %d nodes", name, len(src.elems))
				continue
			}
			v := src.w.resolve(field(s.in.deep(src.w, src.elems[0]), sh.fValue, sh.astT))
			got := flatCat(s, unbox(v))
			want := ""
			n := 0
			for i, p := range pat {
				if p == "C" {
					in := sh.value(operand, "", kInt(int64(i))).(*StructV).f[sh.fValue]
					want += unbox(in).k() + " ++ "
					n++
				}
			}
			want += "[" + opcode + "]"
			if got != want {
				r.fail(key+"result", "%s makes %s instead of the lists of its operands followed by %s", name, trunc(got, 200), opcode)
			}
			// what remains must be an operand again
			el := sh.elOf(src.w, src.elems[0], nil, 0)
			for _, r2 := range pi.rules {
				for _, c := range r2.cells {
					a, b := sh.matches(c, el), sh.matches(c, operand)
					if a != b {
						r.fail(key+"node", "%s makes a node that the other rules do not take as an operand", name)
					}
				}
			}
			r.sample("%s: %s -> %s", name, strings.Join(pat, " "), trunc(got, 120))
		}
		if ok == 0 {
			undec("%s never succeeds", name)
		}
	}
	// order
	first := map[string]int{}
	lastP := map[string]int{}
	for p, m := range ranks {
		for o := range m {
			if f, ok := first[o]; !ok || p < f {
				first[o] = p
			}
			if l, ok := lastP[o]; !ok || p > l {
				lastP[o] = p
			}
		}
	}
	for i := 0; i+1 < len(condOps); i++ {
		a, b := condOps[i].word, condOps[i+1].word
		if !seen[a] || !seen[b] {
			continue
		}
		if lastP[a] >= first[b] {
			r.fail("order:"+a+":"+b, "the production rules at %s do not reduce %q before %q", pr.site, a, b)
		}
	}
	for _, o := range condOps {
		if !seen[o.word] {
			r.fail("no-rule:"+o.word, "the production rules at %s have no rule for %q", pr.site, o.word)
		}
	}
	// the end: exactly one node
	var parts []string
	var walk func(g *Gram)
	walk = func(g *Gram) {
		g = s.in.resolveGram(g)
		switch g.op {
		case "Group", "LookAhead":
			for _, k := range g.kids {
				walk(k)
			}
		case "Trans":
			walk(g.kids[0])
		default:
			parts = append(parts, g.op)
		}
	}
	walk(pr.check)
	if p := strings.Join(parts, " "); p != "Start ObjAny ObjEnd" && p != "ObjAny ObjEnd" && p != "Start ObjAny End" && p != "ObjAny End" {
		r.fail("end", "the production rules at %s end with %q instead of a single node", pr.site, p)
	}
}

// flatCat writes a list of conditions as its parts.
func flatCat(s *shp, v Val) string {
	t, ok := v.(*Term)
	if !ok {
		return v.k()
	}
	switch t.op {
	case "cat":
		var r []string
		for _, a := range t.args {
			if x, ok := isTerm(a, "seq"); ok && len(x.args) == 0 {
				continue
			}
			r = append(r, flatCat(s, a))
		}
		return strings.Join(r, " ++ ")
	case "seq":
		var r []string
		for _, a := range t.args {
			op := member(a, "Opcode")
			n := op.k()
			for _, o := range condOps {
				if n == s.constant("SoqlConditionOpcode_"+o.opcode).k() {
					n = o.opcode
				}
			}
			if !isZeroVal(member(a, "Value")) {
				n += "(" + show(member(a, "Value")) + ")"
			}
			r = append(r, "["+n+"]")
		}
		return strings.Join(r, " ++ ")
	}
	return v.k()
}

// what follows a backslash -> the text it denotes
var escapes = map[string]string{
	"\\": "\\", "'": "'", "\"": "\"", "`": "`", "n": "\n", "N": "\n", "r": "\r", "R": "\r", "v": "\v", "V": "\v", "t": "\t", "T": "\t",
	"b": "\b", "B": "\b", "f": "\f", "F": "\f", "_": "\\_", "%": "\\%",
}

// plainText: the text between the escape sequences contains neither a backslash nor the quote.
func (s *shp) plainText(t Tok, at, key, quote string) {
	if t.g == nil {
		undec("%s: the plain text %q has no parser", at, toksText([]Tok{t}))
	}
	for _, c := range []string{"\\", quote} {
		free := false
		switch t.g.op {
		case "CharClassN":
			for _, x := range t.g.strs {
				free = free || x == c
			}
		case "CharClass", "Seq":
			free = true
			for _, x := range t.g.strs {
				free = free && !strings.Contains(x, c)
			}
		default:
			undec("%s: the plain text is read by %s", at, t.g.op)
		}
		if !free {
			s.r.fail(key+":plain:"+c, "%s: the plain text may contain %s", at, c)
		}
	}
}

func checkC11(r *Run) {
	s := r.shapes()
	s.escSeen = map[string]bool{}
	quotes := map[string]bool{}
	for _, sub := range s.subsOf("string") {
		dv := &Deriver{sh: s.sh}
		for _, d := range dv.of(sub, "") {
			var top []string
			quoted, esc := false, false
			for _, t := range d.toks {
				switch {
				case t.kind == 'w' && t.text != "":
					top = append(top, t.text)
				case t.kind == 'r':
					for _, b := range t.bodies {
						esc = esc || has(words(b.toks), "\\")
					}
				}
			}
			quoted = len(top) == 2 && top[0] == top[1] && (top[0] == "'" || top[0] == "\"")
			if !quoted && !esc {
				continue
			}
			at := fmt.Sprintf("the quoted string built at %s", where(sub))
			key := where(sub)
			if !quoted {
				undec("a string with escape sequences at %s is not delimited by one kind of quotes: %v", where(sub), top)
			}
			r.count("forms of quoted strings", 1)
			v := unbox(d.vals[0])
			if len(d.nodes) != 0 {
				r.fail(key+":quotes", "%s: the quotes or other fixed text become a part of the value", at)
				continue
			}
			if !esc {
				if v.k() != `""` {
					r.fail(key+":empty", "%s: the empty string has the value %s", at, show(v))
				}
				continue
			}
			quotes[top[0]] = true
			if t, ok := v.(*Term); !ok || t.op != "text" {
				r.fail(key+":concat", "%s is not the concatenation of its parts in order: %s", at, show(v))
			}
			for _, t := range d.toks {
				if t.kind == 'r' {
					for _, b := range t.bodies {
						s.stringPart(b, at, key, top[0])
					}
				}
			}
		}
	}
	all := []string{"u####", "x##", "###", "u{}1", "u{}2", "u{}3", "u{}4", "u{}5", "u{}6"}
	for c := range escapes {
		all = append(all, c)
	}
	sort.Strings(all)
	for _, q := range []string{"'", "\""} {
		if !quotes[q] {
			r.fail("missing:"+q, "no transformation decodes the strings delimited by %s", q)
			continue
		}
		for _, c := range all {
			r.count("documented escape sequences looked for", 1)
			if !s.escSeen[q+c] {
				r.fail("missing:"+q+c, "no escape sequence \\%s is decoded in the strings delimited by %s", c, q)
			}
		}
	}
	r.floor("forms of escape sequences", 28)
	r.floor("forms of plain text in strings", 2)
}

func (s *shp) stringPart(b *Deriv, at, key, quote string) {
	r := s.r
	if !has(words(b.toks), "\\") {
		r.count("forms of plain text in strings", 1)
		check := func(x *Deriv) {
			n := 0
			for _, t := range x.toks {
				if len(t.els) == 0 && t.kind == 'x' && t.text != "text" {
					r.fail(key+":lost", "%s: the text %q is not a part of the value", at, x)
				}
				if len(t.els) > 0 {
					n++
					s.plainText(t, at, key, quote)
				}
			}
			if n != len(x.vals) || len(x.nodes) != n {
				r.fail(key+":parts", "%s: the text %q becomes %d parts of the value", at, x, len(x.vals))
				return
			}
			i := 0
			for _, t := range x.toks {
				if len(t.els) == 0 {
					continue
				}
				if unbox(x.vals[i]).k() != unbox(t.vals[0]).k() {
					r.fail(key+":text", "%s: the text %q does not denote itself but %s", at, x, show(x.vals[i]))
				}
				i++
			}
		}
		for _, t := range b.toks {
			if t.kind == 'r' {
				for _, x := range t.bodies {
					check(x)
				}
				continue
			}
			if len(t.els) > 0 {
				check(b)
				break
			}
		}
		return
	}
	r.count("forms of escape sequences", 1)
	form := b.String()
	var rest []Tok
	for _, t := range b.toks {
		if t.kind == 'r' {
			undec("%s: the escape sequence %q has a repetition", at, form)
		}
		rest = append(rest, t)
	}
	if len(rest) < 2 || rest[0].text != "\\" {
		undec("%s: the escape sequence %q has an unexpected form", at, form)
	}
	rest = rest[1:]
	if len(b.vals) != 1 {
		r.fail(key+":escape:"+form, "%s: the escape sequence %q makes %d parts of the value", at, form, len(b.vals))
		return
	}
	v := unbox(b.vals[0])
	bad := func(c, want string) {
		r.fail(key+":escape:"+c, "%s: the escape sequence \\%s denotes %s instead of %s", at, c, show(v), want)
	}
	// one character
	if len(rest) == 1 && rest[0].g != nil && (rest[0].g.op == "CharClass" || rest[0].g.op == "Seq") {
		for _, c := range rest[0].g.strs {
			s.escSeen[quote+c] = true
			w, ok := escapes[c]
			if !ok {
				r.fail(key+":escape:"+c, "%s: the escape sequence \\%s is not documented", at, c)
				continue
			}
			if len(rest[0].vals) == 1 && v.k() == unbox(rest[0].vals[0]).k() && w == c {
				continue // the character itself
			}
			if got, ok := asStr(v); !ok || got != w {
				bad(c, fmt.Sprintf("%q", w))
			}
		}
		return
	}
	// a code
	name, digits := "", []Val{}
	var shape strings.Builder
	for _, t := range rest {
		switch {
		case t.kind == 'w':
			name += t.text
			shape.WriteString(t.text)
		case t.kind == 'x' && len(t.vals) == 1:
			digits = append(digits, unbox(t.vals[0]))
			shape.WriteString("#")
		default:
			undec("%s: the escape sequence %q has an unexpected part", at, form)
		}
	}
	if name == "u{}" {
		s.escSeen[quote+name+fmt.Sprint(len(digits))] = true
	}
	s.escSeen[quote+shape.String()] = true
	base := map[string]string{"u####": "16", "x##": "16", "###": "8"}[shape.String()]
	if n := len(digits); name == "u{}" && n >= 1 && n <= 6 && shape.String() == "u{"+strings.Repeat("#", n)+"}" {
		base = "16"
	}
	if base == "" {
		r.fail(key+":escape:"+shape.String(), "%s: the escape sequence \\%s is not documented", at, shape.String())
		return
	}
	var text Val = kStr("")
	for _, d := range digits {
		text = concatVal(text, d)
	}
	rune_, ok := isTerm(v, "strOfRune")
	if ok {
		p, isP := stripConv(rune_.args[0]).(*Term)
		ok = isP && (p.op == "ParseInt" || p.op == "ParseUint") && p.args[0].k() == text.k() && p.args[1].k() == base
	}
	if !ok {
		bad(shape.String(), "the character with the code written in base "+base)
	}
}
