package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	register("C26", "The wrapper is analysed for GOOS=js GOARCH=wasm: main must register a function under the name parseSoql and keep running; on every path of that function the result must be the text of the error "+
		"of Parse or of the encoding if that failed, and otherwise the encoding of the parsed query, indented by two blanks; Parse must be given exactly the text of the first argument.", checkC26)
}

func checkC26(r *Run) {
	p := load(r.repo, []string{"GOOS=js", "GOARCH=wasm", "CGO_ENABLED=0"}, "./wasm/...")
	var mainFn *ssa.Function
	for _, sp := range p.Repo {
		if sp.Pkg.Name() == "main" && strings.HasSuffix(sp.Pkg.Path(), "/wasm") {
			mainFn = sp.Func("main")
		}
	}
	if mainFn == nil {
		undec("the function main of the package wasm is not found")
	}
	here := fnPkg(mainFn)
	local := func(f *Flow, st *FState, c *FCall) ([]FRet, bool) {
		if c.fn != nil && fnPkg(c.fn) == here {
			return nil, false
		}
		return f.opaqueCall(st, c), true
	}
	// registration
	f := newFlow(p)
	f.noFork = true
	var reg *ssa.Function
	f.onCall = func(f *Flow, st *FState, c *FCall) ([]FRet, bool) {
		if c.name == "(syscall/js.Value).Set" && len(c.args) == 3 {
			n, ok := c.args[1].strVal()
			if !ok {
				undec("the name registered at %s is %s", p.instrPos(c.site), c.args[1])
			}
			if f.live {
				r.count("registrations", 1)
			}
			if n == "parseSoql" && f.live {
				var fn *ssa.Function
				c.args[2].has(func(t *T) bool {
					if g, ok := t.obj.(*ssa.Function); ok {
						fn = g
					}
					return false
				})
				if s, ok := c.args[0].obj.(string); !ok || s != "syscall/js.Global" {
					r.fail("wasm:global", "%s: parseSoql is not registered in the global object but in %s", p.instrPos(c.site), c.args[0])
				}
				if fn == nil {
					undec("the function registered as parseSoql at %s is %s", p.instrPos(c.site), c.args[2])
				}
				reg = fn
			}
		}
		if c.name == "syscall/js.FuncOf" {
			v := f.mk("call", c.name, c.site.Common().Signature().Results().At(0).Type(), c.args...)
			return []FRet{{st: st, vals: []*T{v}}}, true
		}
		return local(f, st, c)
	}
	f.onEv = func(e *FEvent) {
		if e.kind == "return" && e.ctx.up == nil {
			r.fail("wasm:main", "%s: main returns, after which parseSoql cannot be called", p.instrPos(e.site))
		}
	}
	f.start(mainFn, nil)
	if reg == nil {
		r.fail("wasm:registered", "main does not register a function under the name parseSoql")
		return
	}
	sig := reg.Signature
	np := len(reg.Params)
	if np < 2 || sig.Results().Len() != 1 {
		undec("the signature of parseSoql is %s", sig)
	}
	for _, given := range []bool{true, false} {
		r.wasmCall(p, reg, given, local)
	}
	r.floor("registrations", 1)
	r.floor("outcomes of parseSoql", 3)
}

func (r *Run) wasmCall(p *Program, fn *ssa.Function, given bool, local func(f *Flow, st *FState, c *FCall) ([]FRet, bool)) {
	f := newFlow(p)
	parse := modPath + "/soql/parser.Parse"
	var query, perr *T
	var argv *T
	buf := func(a *T) *T { return f.mk("fa", "content", types.NewPointer(strT), rootOf(a)) }
	f.onCall = func(f *Flow, st *FState, c *FCall) ([]FRet, bool) {
		one := func(t *T) ([]FRet, bool) { return []FRet{{st: st, vals: []*T{t}}}, true }
		pure := func(i int) *T {
			return f.mk("call", c.name, c.site.Common().Signature().Results().At(i).Type(), c.args...)
		}
		switch c.name {
		case parse:
			out := f.opaqueCall(st, c)
			query, perr = out[0].vals[0], out[1].vals[1]
			if f.live && given {
				r.count("calls of Parse", 1)
				want := f.mk("load", "", nil, f.ia(argv, f.intc(0), argv.typ), f.mk("entry", "", nil))
				_ = want
				a := c.args[0]
				if !(a.op == "call" && a.c == "(syscall/js.Value).String" && firstArg(a.args[0], argv)) {
					r.fail("wasm:source", "%s: Parse is given %s instead of the text of the first argument", p.instrPos(c.site), a)
				}
			}
			return out, true
		case "(syscall/js.Value).String", "syscall/js.ValueOf", "(error).Error":
			return one(pure(0))
		case "encoding/json.Indent":
			if rootOf(c.args[0]).op != "alloc" {
				undec("the destination of the indented text at %s", p.instrPos(c.site))
			}
			old := st.mem[buf(c.args[0])]
			v := f.mk("call", c.name, strT, c.args[1:]...)
			if old != nil {
				v = f.mk("cat", "", strT, old, v)
			}
			st.mem[buf(c.args[0])] = v
			return one(f.nilc())
		case "(*bytes.Buffer).String", "(*bytes.Buffer).Bytes", "(*strings.Builder).String":
			v := st.mem[buf(c.args[0])]
			if v == nil {
				v = f.cnst(f.zero(strT).cv, strT)
			}
			return one(v)
		case "(*bytes.Buffer).Write", "(*bytes.Buffer).WriteString", "(*bytes.Buffer).WriteByte", "(*bytes.Buffer).WriteRune", "(*bytes.Buffer).Reset", "(*bytes.Buffer).Truncate":
			undec("the use of %s at %s", c.name, p.instrPos(c.site))
		case "encoding/json.MarshalIndent":
			v := f.mk("call", "encoding/json.Indent", types.NewSlice(types.Typ[types.Byte]), f.mk("ext", "0", nil, f.mk("call", "encoding/json.Marshal", nil, c.args[0])), c.args[1], c.args[2])
			e := f.mk("ext", "1", errorType(), f.mk("call", "encoding/json.Marshal", nil, c.args[0]))
			return f.failing(st, v, e), true
		case "encoding/json.Marshal":
			b := f.mk("call", c.name, nil, c.args...)
			return f.failing(st, f.mk("ext", "0", types.NewSlice(types.Typ[types.Byte]), b), f.mk("ext", "1", errorType(), b)), true
		}
		return local(f, st, c)
	}
	strip := func(t *T) *T {
		for t.op == "iface" || t.op == "conv" || t.op == "call" && t.c == "syscall/js.ValueOf" {
			t = t.args[0]
		}
		return t
	}
	f.onEv = func(e *FEvent) {
		if !given && e.kind == "index" && len(e.args) == 2 && e.args[0] == argv {
			r.fail("wasm:noarg", "%s: an argument is read although none was given", p.instrPos(e.site))
		}
		if e.kind != "return" || e.ctx.up != nil {
			return
		}
		where := p.instrPos(e.site)
		if query == nil {
			undec("parseSoql returns without parsing at %s", where)
		}
		r.count("outcomes of parseSoql", 1)
		failed := func(x *T) bool { return e.st.facts[f.mk("failed", "", types.Typ[types.Bool], x)] }
		got := strip(e.args[0])
		isErr := func(x *T) bool {
			return got.op == "call" && got.c == "(error).Error" && got.args[0] == x
		}
		marshal := f.mk("call", "encoding/json.Marshal", nil, f.mk("iface", "", query.typ, query))
		merr := f.mk("ext", "1", errorType(), marshal)
		switch {
		case failed(perr):
			if !isErr(perr) {
				r.fail("wasm:parse-error", "%s: when parsing fails parseSoql gives %s instead of the text of the error", where, got)
			}
		case failed(merr):
			if !isErr(merr) {
				r.fail("wasm:encode-error", "%s: when encoding fails parseSoql gives %s instead of the text of the error", where, got)
			}
		default:
			if got.op == "phi" {
				undec("the result of parseSoql at %s is %s", where, got)
			}
			ok := got.op == "call" && got.c == "encoding/json.Indent" && len(got.args) == 3 && got.args[0] == f.mk("ext", "0", nil, marshal)
			if ok {
				a, ok1 := got.args[1].strVal()
				b, ok2 := got.args[2].strVal()
				ok = ok1 && ok2 && a == "" && strings.Trim(b, " \t") == "" && b != ""
			}
			if !ok {
				r.fail("wasm:result", "%s: the result of parseSoql is %s instead of the indented JSON of the parsed query", where, got)
			}
		}
	}
	f.start(fn, func(st *FState, args []*T) {
		argv = args[len(args)-1]
		f.assume(st, f.mk("lt", "", types.Typ[types.Bool], f.intc(0), f.length(argv)), given)
		f.assume(st, f.eq(f.length(argv), f.intc(0)), !given)
		if given {
			f.assume(st, f.mk("lt", "", types.Typ[types.Bool], f.length(argv), f.intc(1)), false)
		} else {
			f.assume(st, f.mk("lt", "", types.Typ[types.Bool], f.length(argv), f.intc(1)), true)
		}
	})
}

// firstArg: the first element of the arguments.
func firstArg(t, argv *T) bool {
	ok := false
	t.has(func(x *T) bool {
		if x.op == "load" && x.args[0].op == "ia" || x.op == "load" && x.args[0].op == "fa" {
			a := x.args[0]
			for a.op == "fa" {
				a = a.args[0]
			}
			if a.op == "ia" && a.args[0] == argv {
				if n, k := a.args[1].intVal(); k && n == 0 {
					ok = true
				}
			}
		}
		return false
	})
	return ok
}

// failing gives the two outcomes of a call that can fail.
func (f *Flow) failing(st *FState, v, e *T) []FRet {
	good := st.fork()
	ft := f.mk("failed", "", types.Typ[types.Bool], e)
	f.assume(good, ft, false)
	f.assume(st, ft, true)
	f.assume(st, f.eq(e, f.nilc()), false)
	st.pend[e] = true
	z := f.nilc()
	return []FRet{{st: good, vals: []*T{v, f.nilc()}}, {st: st, vals: []*T{z, e}}}
}
