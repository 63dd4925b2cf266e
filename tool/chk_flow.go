package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func init() {
	register("C06", "Every function of the repository that calls something returning an error is analysed: on every path from a call that failed to a return, the return must report an error. "+
		"Every return of Parse must give exactly one of query and error; the message of a failed recognition must be made of the line, column and excerpt of the position where recognition stopped in the text passed in.", checkC06)
}

// repoFuncs are the functions of the repository with bodies, with closures.
func (p *Program) repoFuncs(keep func(pkg string) bool) []*ssa.Function {
	var r []*ssa.Function
	for f := range ssautil.AllFunctions(p.Prog) {
		if f.Blocks == nil || !isRepoPath(fnPkg(f)) || keep != nil && !keep(fnPkg(f)) {
			continue
		}
		if f.Synthetic != "" && f.Parent() == nil {
			continue
		}
		r = append(r, f)
	}
	sort.Slice(r, func(i, j int) bool {
		a, b := r[i].RelString(nil), r[j].RelString(nil)
		if a != b {
			return a < b
		}
		return r[i].Pos() < r[j].Pos()
	})
	return r
}

func errIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && types.Identical(sig.Results().At(n-1).Type(), errorType()) {
		return n - 1
	}
	return -1
}

func parserPkg(pkg string) bool { return strings.HasPrefix(pkg, modPath+"/soql") }

func checkC06(r *Run) {
	p := r.program()
	r.lostErrors(p, parserPkg)
	r.parseReturns(p)
	r.floor("functions with calls that can fail", 15)
}

// lostErrors checks that an error reported by a call is reported on.
func (r *Run) lostErrors(p *Program, keep func(string) bool) {
	for _, fn := range p.repoFuncs(keep) {
		ncalls := 0
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && errIndex(c.Common().Signature()) >= 0 {
					ncalls++
				}
			}
		}
		r.count("functions scanned", 1)
		if ncalls == 0 {
			continue
		}
		r.count("functions with calls that can fail", 1)
		r.count("calls that can fail", ncalls)
		f := newFlow(p)
		f.onCall = func(f *Flow, st *FState, c *FCall) ([]FRet, bool) {
			return f.opaqueCall(st, c), true
		}
		ei := errIndex(fn.Signature)
		f.onEv = func(e *FEvent) {
			if e.kind != "return" || e.ctx.up != nil {
				return
			}
			if len(e.st.pend) == 0 {
				return
			}
			what := ""
			for t := range e.st.pend {
				if s, ok := t.obj.(string); ok && (what == "" || s < what) {
					what = s
				}
			}
			if ei < 0 {
				r.fail("lost:"+shortFn(fn)+":"+what, "%s: the error of %s is lost: the function returns without reporting it", p.instrPos(e.site), what)
				return
			}
			v := e.args[ei]
			for t := range e.st.pend {
				if v == t {
					return
				}
			}
			if f.truth(e.st, f.eq(v, f.nilc())) != 0 {
				r.fail("lost:"+shortFn(fn)+":"+what, "%s: the error of %s is lost: the function can return %s as its error", p.instrPos(e.site), what, v)
			}
		}
		f.start(fn, nil)
	}
}

// parseReturns checks the outcomes of Parse.
func (r *Run) parseReturns(p *Program) {
	fn := p.parseFn()
	if fn.Signature.Params().Len() != 1 || fn.Signature.Results().Len() != 2 {
		undec("the signature of Parse is %s", fn.Signature)
	}
	f := newFlow(p)
	here := fnPkg(fn)
	text := f.param(fn.Params[0])
	var rec, recErr, norm *T // the context after recognition, its error, the query given to Normalize
	var normErr *T
	isCtx := func(t types.Type) bool { return isNamed(t, tkBase, "ParserContext") }
	f.onCall = func(f *Flow, st *FState, c *FCall) ([]FRet, bool) {
		sig := c.site.Common().Signature()
		if sig.Results().Len() == 2 && isCtx(sig.Results().At(0).Type()) && errIndex(sig) == 1 {
			out := f.opaqueCall(st, c)
			if len(out) != 2 || len(c.args) == 0 {
				undec("the call of the recogniser at %s", p.instrPos(c.site))
			}
			if f.live {
				if rec != nil && rec != out[0].vals[0] {
					undec("recognition is started at several places in Parse")
				}
				arg := c.args[len(c.args)-1]
				if !arg.has(func(t *T) bool { s, ok := t.obj.(string); return ok && strings.HasSuffix(s, "NewStringParserContext") }) {
					// the argument is the content of a context made for the text
					undec("the input of the recogniser at %s is %s", p.instrPos(c.site), arg)
				}
			}
			rec, recErr = out[0].vals[0], out[1].vals[1]
			return out, true
		}
		if c.fn != nil && strings.HasSuffix(fullName(c.fn), ".NewStringParserContext") && f.live {
			if len(c.args) != 1 || c.args[0] != text {
				r.fail("parse:input", "%s: recognition runs on %s instead of the text passed in", p.instrPos(c.site), c.args[0])
			}
			r.count("recogniser inputs", 1)
		}
		if c.fn != nil && fnPkg(c.fn) == modPath+"/soql/parser/postprocess" {
			out := f.opaqueCall(st, c)
			if len(out) == 2 && len(c.args) > 0 {
				norm, normErr = c.args[0], out[1].vals[len(out[1].vals)-1]
			}
			return out, true
		}
		if c.fn != nil && fnPkg(c.fn) == here {
			return nil, false
		}
		if c.fn == nil && (c.fv == nil || c.fv.op != "builtin") && !c.site.Common().IsInvoke() {
			undec("the function called at %s is not known", p.instrPos(c.site))
		}
		return f.opaqueCall(st, c), true
	}
	good, bad := 0, 0
	f.onEv = func(e *FEvent) {
		if e.kind != "return" || e.ctx.up != nil {
			return
		}
		where := p.instrPos(e.site)
		if rec == nil {
			undec("Parse returns before recognition at %s", where)
		}
		qn := f.truth(e.st, f.eq(e.args[0], f.nilc()))
		en := f.truth(e.st, f.eq(e.args[1], f.nilc()))
		if qn < 0 || en < 0 {
			undec("whether Parse returns a query or an error at %s: %s, %s", where, e.args[0], e.args[1])
		}
		if qn == en {
			r.fail("parse:both", "%s: Parse returns %s and %s", where, e.args[0], e.args[1])
			return
		}
		failed := e.st.facts[f.mk("failed", "", types.Typ[types.Bool], recErr)]
		status := f.matched(e.st, rec)
		if en == 1 {
			good++
			if failed {
				r.fail("parse:error", "%s: Parse succeeds although the recogniser reports an error", where)
			}
			if status != 1 {
				r.fail("parse:status", "%s: Parse succeeds although the text may not have been recognised", where)
			}
			if norm == nil {
				r.fail("parse:normal", "%s: Parse succeeds without normalisation", where)
			} else if v, ok := e.st.facts[f.mk("failed", "", types.Typ[types.Bool], normErr)]; !ok || v {
				r.fail("parse:normal", "%s: Parse succeeds although normalisation may have failed", where)
			} else if norm != e.args[0] {
				r.fail("parse:normal", "%s: Parse returns %s but %s was normalised", where, e.args[0], norm)
			}
			return
		}
		bad++
		if !failed && status == 1 {
			return // an error of a later stage
		}
		r.count("failures of recognition", 1)
		err := e.args[1]
		if failed && !err.mentionsAny(f.leaves(recErr)) {
			r.fail("parse:message", "%s: the error of the recogniser is not part of the error %s", where, err)
		}
		for _, m := range []string{"Line", "Col", "ErrSource"} {
			m := m
			if !err.has(func(t *T) bool {
				return (t.op == "field" || t.op == "load") && lastName(t) == m && t.has(func(t *T) bool {
					return t.op == "call" && strings.HasSuffix(t.c, ".GetLineAndColPosition") && len(t.args) == 3 && t.args[0] == text && f.isPosition(t.args[1], rec)
				})
			}) {
				r.fail("parse:"+m, "%s: the error of a failed recognition does not carry %s of the position where recognition stopped in the text: %s", where, m, err)
			}
		}
	}
	f.start(fn, nil)
	if good == 0 || bad == 0 {
		undec("Parse has %d successful and %d failing returns", good, bad)
	}
	r.counts["returns of Parse"] = good + bad
	r.floor("returns of Parse", 3)
	r.floor("recogniser inputs", 1)
	r.floor("failures of recognition", 1)
}

func (t *T) mentionsAny(xs []*T) bool {
	for _, x := range xs {
		if t.mentions(x) {
			return true
		}
	}
	return false
}

func lastName(t *T) string {
	if t.op == "load" {
		return t.args[0].c
	}
	return t.c
}

// isPosition: the source position of the context after recognition.
func (f *Flow) isPosition(t, rec *T) bool {
	if t.op == "struct" { // all members of it
		for i, a := range t.args {
			_ = i
			if !(a.op == "field" && f.isPosition(a.args[0], rec)) {
				return false
			}
		}
		return len(t.args) > 0
	}
	return t.op == "field" && t.c == "SourcePosition" && t.args[0] == rec
}

// matched tells whether the context after recognition has the status Matched.
func (f *Flow) matched(st *FState, rec *T) int {
	want := f.p.Pkgs[tkBase].Pkg.Scope().Lookup("MatchStatus_Matched")
	c, ok := want.(*types.Const)
	if !ok {
		undec("the constant MatchStatus_Matched is not found")
	}
	for k := range st.facts {
		if k.op == "eq" && k.args[0].op == "field" && k.args[0].c == "MatchStatus" && k.args[0].args[0] == rec {
			return f.truth(st, f.eq(k.args[0], f.cnst(c.Val(), k.args[0].typ)))
		}
	}
	return -1
}
