package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// This file is a forward dataflow analysis with symbolic values: states are
// joined at merges (a value that differs becomes a symbol of the merge), loops
// are solved by a fixed point, calls of functions of the repository are
// analysed in their calling context, and recursive calls are replaced by their
// effects. Checks look at the events (stores, calls, map accesses, returns) of
// the solution.

// T is an interned symbolic value.
type T struct {
	op   string
	c    string
	args []*T
	typ  types.Type
	id   int
	blk  *ssa.BasicBlock // of symbols: where they are defined
	ctx  *Ctx
	cv   constant.Value
	syms []*T
	obj  interface{}
	str  string
	nn   bool // the error of a call that failed; the path of its success has nil instead
}

// Ctx is a calling context.
type Ctx struct {
	up   *Ctx
	call ssa.Instruction
	fn   *ssa.Function
	id   int
	loop map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool // header -> body
}

func (c *Ctx) depth() int {
	n := 0
	for ; c != nil; c = c.up {
		n++
	}
	return n
}

type Flow struct {
	p      *Program
	tab    map[string]*T
	ctxs   map[string]*Ctx
	alts   map[*T][]*T
	mods   map[*ssa.Function]map[string]bool
	live   bool // events are recorded
	onCall func(f *Flow, st *FState, c *FCall) ([]FRet, bool)
	onEv   func(e *FEvent)
	opaque map[*ssa.Function]bool
	// assumptions of a scenario
	onRead func(a *T, typ types.Type) *T // what is found at an address
	// open makes loop variables unknown from the first turn on
	open    bool
	onBack  func(ctx *Ctx, header *ssa.BasicBlock, st *FState)
	onEdge  func(ctx *Ctx, from, to *ssa.BasicBlock, was, st *FState) // before and after the phis of the target
	onTruth func(st *FState, c *T) int                                // 1, 0, or -1 for not assumed
	onRet   func(vals []*T, rs []FRet)                                // the results of a call and what they come from
	stop    func(e *FEvent) bool                                      // what ends the paths of interest
	noFork  bool                                                      // do not split opaque calls by their error
	nInstr  int
	names   []string
	gen     int // grows when something changes that is not part of the states
	memo    map[*Ctx]*flowMemo
}

// flowMemo is the result of a call analysed before.
type flowMemo struct {
	in  *FState
	out []FRet
	gen int
}

// FCall is a call being analysed.
type FCall struct {
	site ssa.CallInstruction
	ctx  *Ctx
	fn   *ssa.Function // static callee or nil
	name string        // full name, or of the method for dynamic calls
	args []*T
	fv   *T
}

// FEvent is something that happens in the solution.
type FEvent struct {
	kind  string // store, mapset, mapget, call, ret, append, panic, branch
	site  ssa.Instruction
	ctx   *Ctx
	addr  *T
	val   *T
	args  []*T
	name  string
	st    *FState
	whole bool
}

type FState struct {
	env   map[ssa.Value]*T
	mem   map[*T]*T
	ep    map[string]*T
	facts map[*T]bool
	esc   map[*T]bool
	pend  map[*T]bool
	must  map[*T]bool
	defs  []*FCall
	dead  bool
}

type FRet struct {
	st   *FState
	vals []*T
	pan  bool
}

func newFlow(p *Program) *Flow {
	return &Flow{p: p, tab: map[string]*T{}, ctxs: map[string]*Ctx{}, alts: map[*T][]*T{}, mods: map[*ssa.Function]map[string]bool{}, opaque: map[*ssa.Function]bool{}, memo: map[*Ctx]*flowMemo{}}
}

func newFState() *FState {
	return &FState{env: map[ssa.Value]*T{}, mem: map[*T]*T{}, ep: map[string]*T{}, facts: map[*T]bool{}, esc: map[*T]bool{}, pend: map[*T]bool{}, must: map[*T]bool{}}
}

func cpm[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m))
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (s *FState) fork() *FState {
	return &FState{env: cpm(s.env), mem: cpm(s.mem), ep: cpm(s.ep), facts: cpm(s.facts), esc: cpm(s.esc), pend: cpm(s.pend), must: cpm(s.must), defs: append([]*FCall{}, s.defs...)}
}

// ---- terms

func (f *Flow) mk(op, c string, typ types.Type, args ...*T) *T {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte('|')
	sb.WriteString(c)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.Itoa(a.id))
	}
	if op == "const" || op == "conv" || op == "struct" || op == "iface" || op == "zero" {
		sb.WriteString("|" + typeKey(typ))
	}
	k := sb.String()
	if t := f.tab[k]; t != nil {
		return t
	}
	t := &T{op: op, c: c, args: args, typ: typ, id: len(f.tab) + 1}
	seen := map[*T]bool{}
	for _, a := range args {
		for _, s := range a.allSyms() {
			if !seen[s] {
				seen[s] = true
				t.syms = append(t.syms, s)
			}
		}
	}
	f.tab[k] = t
	return t
}

// sym makes a symbol defined at a block of a context.
func (f *Flow) sym(op, c string, typ types.Type, ctx *Ctx, blk *ssa.BasicBlock, args ...*T) *T {
	id := 0
	if ctx != nil {
		id = ctx.id
	}
	t := f.mk(op, c+"@"+strconv.Itoa(id), typ, args...)
	if t.blk == nil {
		t.blk, t.ctx = blk, ctx
	}
	return t
}

func (t *T) allSyms() []*T {
	if t.blk != nil {
		return append([]*T{t}, t.syms...)
	}
	return t.syms
}

func (t *T) String() string {
	if t == nil {
		return "<nil>"
	}
	if t.str != "" {
		return t.str
	}
	var s string
	switch t.op {
	case "const":
		s = t.c
	case "param":
		s = t.c
	case "fa":
		s = "&" + strings.TrimPrefix(t.args[0].String(), "&") + "." + t.c
	case "ia":
		s = "&" + strings.TrimPrefix(t.args[0].String(), "&") + "[" + t.args[1].String() + "]"
	case "load":
		s = strings.TrimPrefix(t.args[0].String(), "&")
		if t.args[0].op != "fa" && t.args[0].op != "ia" {
			s = "*" + s
		}
	case "field":
		s = t.args[0].String() + "." + t.c
	case "alloc", "phi", "sym", "makemap", "res", "makeslice":
		s = t.op + "#" + fmt.Sprint(t.id)
	default:
		var as []string
		for _, a := range t.args {
			as = append(as, a.String())
		}
		s = t.op
		if t.c != "" {
			s += ":" + t.c
		}
		s += "(" + strings.Join(as, ", ") + ")"
	}
	if len(s) > 400 {
		s = s[:400] + "…"
	}
	t.str = s
	return s
}

// mentions tells whether a term contains another one.
func (t *T) mentions(x *T) bool {
	if t == x {
		return true
	}
	for _, a := range t.args {
		if a.mentions(x) {
			return true
		}
	}
	return false
}

func (t *T) has(pred func(*T) bool) bool {
	if pred(t) {
		return true
	}
	for _, a := range t.args {
		if a.has(pred) {
			return true
		}
	}
	return false
}

func (f *Flow) cnst(v constant.Value, typ types.Type) *T {
	t := f.mk("const", v.ExactString(), typ)
	t.cv = v
	return t
}

func (f *Flow) intc(n int64) *T { return f.cnst(constant.MakeInt64(n), types.Typ[types.Int]) }
func (f *Flow) boolc(b bool) *T { return f.cnst(constant.MakeBool(b), types.Typ[types.Bool]) }
func (f *Flow) nilc() *T        { return f.mk("const", "nil", types.Typ[types.UntypedNil]) }

func isNilT(t *T) bool { return t.op == "const" && t.c == "nil" }

func (t *T) boolVal() (bool, bool) {
	if t.op == "const" && t.cv != nil && t.cv.Kind() == constant.Bool {
		return constant.BoolVal(t.cv), true
	}
	return false, false
}

func (t *T) intVal() (int64, bool) {
	if t.op == "const" && t.cv != nil && t.cv.Kind() == constant.Int {
		return constant.Int64Val(t.cv)
	}
	return 0, false
}

func (t *T) strVal() (string, bool) {
	if t.op == "const" && t.cv != nil && t.cv.Kind() == constant.String {
		return constant.StringVal(t.cv), true
	}
	return "", false
}

func (f *Flow) zero(typ types.Type) *T {
	switch u := under(typ).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return f.cnst(constant.MakeBool(false), typ)
		case u.Info()&types.IsString != 0:
			return f.cnst(constant.MakeString(""), typ)
		case u.Info()&types.IsNumeric != 0:
			return f.cnst(constant.MakeInt64(0), typ)
		}
		return f.nilc()
	case *types.Struct:
		var as []*T
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, f.zero(u.Field(i).Type()))
		}
		return f.mkStruct(typ, as)
	case *types.Array:
		return f.mk("zero", "", typ)
	}
	return f.nilc()
}

func (f *Flow) mkStruct(typ types.Type, as []*T) *T {
	u := under(typ).(*types.Struct)
	var src *T
	ok := len(as) > 0
	for i, a := range as {
		if a.op != "field" || a.c != u.Field(i).Name() || src != nil && a.args[0] != src || !types.Identical(a.args[0].typ, typ) {
			ok = false
			break
		}
		src = a.args[0]
	}
	if ok {
		return src
	}
	return f.mk("struct", "", typ, as...)
}

func (f *Flow) field(v *T, typ types.Type, i int) *T {
	u := under(typ).(*types.Struct)
	if v.op == "struct" {
		return v.args[i]
	}
	ft := u.Field(i).Type()
	t := f.mk("field", u.Field(i).Name(), ft, v)
	if _, ok := under(ft).(*types.Struct); ok {
		return t
	}
	return t
}

// eq makes an equality.
func (f *Flow) eq(a, b *T) *T {
	if a == b {
		return f.boolc(true)
	}
	if a.op == "const" && b.op == "const" {
		if a.cv != nil && b.cv != nil && a.cv.Kind() == b.cv.Kind() {
			return f.boolc(constant.Compare(a.cv, token.EQL, b.cv))
		}
		if a.c == "nil" && b.c == "nil" {
			return f.boolc(true)
		}
	}
	if isNilT(a) && nonNil(b) || isNilT(b) && nonNil(a) {
		return f.boolc(false)
	}
	if v, ok := b.boolVal(); ok && a.op != "const" {
		if v {
			return a
		}
		return f.not(a)
	}
	if a.op == "const" || b.op != "const" && a.id > b.id {
		a, b = b, a
	}
	return f.mk("eq", "", types.Typ[types.Bool], a, b)
}

func nonNil(t *T) bool {
	switch t.op {
	case "alloc", "makemap", "makeslice", "closure", "fa", "ia", "iface", "func", "app":
		return true
	case "call":
		return strings.HasPrefix(t.c, "errors.New") || strings.HasPrefix(t.c, "fmt.Errorf")
	}
	return false
}

func (f *Flow) not(a *T) *T {
	if v, ok := a.boolVal(); ok {
		return f.boolc(!v)
	}
	if a.op == "not" {
		return a.args[0]
	}
	return f.mk("not", "", types.Typ[types.Bool], a)
}

// add with constant folding: sums are (term + constant).
func (f *Flow) add(a *T, n int64) *T {
	if v, ok := a.intVal(); ok {
		return f.cnst(constant.MakeInt64(v+n), a.typ)
	}
	if a.op == "add" {
		if c, ok := a.args[1].intVal(); ok {
			return f.add(a.args[0], c+n)
		}
	}
	if n == 0 {
		return a
	}
	return f.mk("add", "", a.typ, a, f.intc(n))
}

// splitAdd gives base and offset.
func splitAdd(a *T) (*T, int64) {
	if a.op == "add" {
		if c, ok := a.args[1].intVal(); ok {
			return a.args[0], c
		}
	}
	return a, 0
}

func (f *Flow) binop(op token.Token, a, b *T, typ types.Type) *T {
	switch op {
	case token.EQL:
		return f.eq(a, b)
	case token.NEQ:
		return f.not(f.eq(a, b))
	case token.GTR:
		return f.binop(token.LSS, b, a, typ)
	case token.LEQ:
		return f.not(f.binop(token.LSS, b, a, typ))
	case token.GEQ:
		return f.not(f.binop(token.LSS, a, b, typ))
	}
	if a.cv != nil && b.cv != nil && a.op == "const" && b.op == "const" {
		switch op {
		case token.ADD, token.SUB, token.MUL, token.AND, token.OR, token.XOR:
			if a.cv.Kind() == b.cv.Kind() {
				return f.cnst(constant.BinaryOp(a.cv, op, b.cv), typ)
			}
		case token.LSS:
			return f.boolc(constant.Compare(a.cv, op, b.cv))
		}
	}
	if isInt(typ) {
		if op == token.ADD {
			if n, ok := b.intVal(); ok {
				return f.add(a, n)
			}
			if n, ok := a.intVal(); ok {
				return f.add(b, n)
			}
		}
		if op == token.SUB {
			if n, ok := b.intVal(); ok {
				return f.add(a, -n)
			}
			if a == b {
				return f.intc(0)
			}
		}
	}
	if op == token.LSS {
		x, n := splitAdd(a)
		y, m := splitAdd(b)
		if x == y && isInt(a.typ) {
			return f.boolc(n < m)
		}
		return f.mk("lt", "", types.Typ[types.Bool], a, b)
	}
	return f.mk("op", op.String(), typ, a, b)
}

func isInt(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (f *Flow) length(x *T) *T {
	switch x.op {
	case "const":
		if s, ok := x.strVal(); ok {
			return f.intc(int64(len(s)))
		}
		if x.c == "nil" {
			return f.intc(0)
		}
	case "app":
		return f.add(f.length(x.args[0]), int64(len(x.args)-1))
	case "makeslice":
		return x.args[0]
	case "slice":
		lo, hi := x.args[1], x.args[2]
		if !isNilT(hi) {
			if n, ok := lo.intVal(); ok {
				return f.add(hi, -n)
			}
			if isNilT(lo) {
				return hi
			}
		} else if a, ok := x.obj.(int64); ok { // whole array
			if n, ok := lo.intVal(); ok {
				return f.intc(a - n)
			}
			return f.intc(a)
		} else if n, ok := lo.intVal(); ok {
			return f.add(f.length(x.args[0]), -n)
		}
	}
	return f.mk("len", "", types.Typ[types.Int], x)
}

// ---- addresses

// class names what an address may alias with.
func (f *Flow) class(a *T) string {
	switch a.op {
	case "fa":
		c := a.obj.(string)
		if t := f.p.takenMembers()[c]; t != "" {
			return t
		}
		return c
	case "ma":
		return "map " + typeKey(a.args[0].typ)
	}
	if a.typ != nil {
		if p, ok := under(a.typ).(*types.Pointer); ok {
			return "*" + typeKey(p.Elem())
		}
	}
	return "*?"
}

func (f *Flow) fa(base *T, st types.Type, i int) *T {
	u := under(st).(*types.Struct)
	t := f.mk("fa", u.Field(i).Name(), types.NewPointer(u.Field(i).Type()), base)
	if t.obj == nil {
		t.obj = classOf(st, i)
	}
	return t
}

func classOf(st types.Type, i int) string {
	u := under(st).(*types.Struct)
	if n, ok := types.Unalias(st).(*types.Named); ok && n.Obj().Pkg() != nil {
		return n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + u.Field(i).Name()
	}
	return typeKey(st) + "." + u.Field(i).Name()
}

func (f *Flow) ia(s, i *T, et types.Type) *T {
	for s.op == "slice" {
		if n, ok := s.args[1].intVal(); ok {
			i = f.add(i, n)
			s = s.args[0]
			continue
		}
		if isNilT(s.args[1]) {
			s = s.args[0]
			continue
		}
		break
	}
	return f.mk("ia", "", types.NewPointer(et), s, i)
}

// root of an address: the object it lies in.
func rootOf(a *T) *T {
	for a.op == "fa" || a.op == "ia" || a.op == "ma" || a.op == "slice" {
		a = a.args[0]
	}
	return a
}

func isFresh(r *T) bool { return r.op == "alloc" || r.op == "makemap" || r.op == "makeslice" }

// distinct tells whether two addresses can never be the same.
func (f *Flow) distinct(st *FState, a, b *T) bool {
	if a == b {
		return false
	}
	ra, rb := rootOf(a), rootOf(b)
	if ra != rb {
		if isFresh(ra) && isFresh(rb) {
			return true
		}
		if isFresh(ra) && !st.esc[ra] || isFresh(rb) && !st.esc[rb] {
			return true
		}
	}
	if a.op == "fa" && b.op == "fa" {
		if a.c != b.c || a.obj != b.obj {
			return true
		}
		return f.distinct(st, a.args[0], b.args[0])
	}
	if a.op == "ia" && b.op == "ia" {
		if a.args[0] == b.args[0] {
			x, n := splitAdd(a.args[1])
			y, m := splitAdd(b.args[1])
			xi, ok1 := a.args[1].intVal()
			yi, ok2 := b.args[1].intVal()
			if ok1 && ok2 {
				return xi != yi
			}
			return x == y && n != m
		}
		return false
	}
	if a.op == "ma" && b.op == "ma" {
		if a.args[0] == b.args[0] && a.args[1].op == "const" && b.args[1].op == "const" {
			return true
		}
		return false
	}
	kinds := map[string]int{"fa": 1, "ia": 2, "ma": 3, "alloc": 4}
	x, y := kinds[a.op], kinds[b.op]
	if x != 0 && y != 0 && x != y {
		return true
	}
	return false
}

func (f *Flow) epoch(st *FState, cl string) *T {
	if e := st.ep[cl]; e != nil {
		return e
	}
	if e := st.ep["*"]; e != nil {
		return e
	}
	return f.mk("entry", "", nil)
}

// read gives the leaf value at an address.
func (f *Flow) read(st *FState, a *T, typ types.Type) *T {
	if v := st.mem[a]; v != nil {
		return v
	}
	if a.op == "ia" && a.args[0].op == "app" {
		b, n := a.args[0], a.args[1]
		ln := f.length(b.args[0])
		x, k := splitAdd(n)
		y, m := splitAdd(ln)
		xi, c1 := n.intVal()
		yi, c2 := ln.intVal()
		if c1 && c2 {
			x, y, k, m = nil, nil, xi, yi
		}
		if x == y && k >= m && int(k-m)+1 < len(b.args) {
			return b.args[int(k-m)+1]
		}
	}
	r := rootOf(a)
	if isFresh(r) && !st.esc[r] && st.ep[f.class(a)] == nil {
		// nothing was stored
	}
	return f.entry(st, a, typ)
}

// entry is the content of an address nothing is known about.
func (f *Flow) entry(st *FState, a *T, typ types.Type) *T {
	if f.onRead != nil {
		if v := f.onRead(a, typ); v != nil {
			return v
		}
	}
	return f.mk("load", "", typ, a, f.epoch(st, f.class(a)))
}

// load gives the value at an address of a type.
func (f *Flow) load(st *FState, a *T, typ types.Type) *T {
	if u, ok := under(typ).(*types.Struct); ok {
		if a.op == "ia" && a.args[0].op == "app" {
			v := f.read(st, a, typ)
			if v.op != "load" {
				// the appended value, unless a member was stored since
				changed := false
				for k := range st.mem {
					if k != a && k.mentions(a) {
						changed = true
					}
				}
				if !changed {
					return v
				}
			}
		}
		var as []*T
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, f.load(st, f.fa(a, typ, i), u.Field(i).Type()))
		}
		return f.loadStruct(st, a, typ, as)
	}
	if a.op == "fa" {
		// a member of an appended value
		if v := st.mem[a]; v == nil {
			if v := f.memberOfAppended(st, a, typ); v != nil {
				return v
			}
		}
	}
	v := f.read(st, a, typ)
	st.mem[a] = v
	return v
}

// memberOfAppended: the member of an element just appended.
func (f *Flow) memberOfAppended(st *FState, a *T, typ types.Type) *T {
	var path []*T
	x := a
	for x.op == "fa" {
		path = append(path, x)
		x = x.args[0]
	}
	if x.op != "ia" || x.args[0].op != "app" {
		return nil
	}
	et := x.typ.(*types.Pointer).Elem()
	v := f.read(st, x, et)
	if v.op == "load" {
		return nil
	}
	t := et
	for i := len(path) - 1; i >= 0; i-- {
		u, ok := under(t).(*types.Struct)
		if !ok {
			return nil
		}
		for j := 0; j < u.NumFields(); j++ {
			if u.Field(j).Name() == path[i].c {
				v = f.field(v, t, j)
				t = u.Field(j).Type()
				break
			}
		}
	}
	return v
}

// loadStruct makes a struct of its leaves; a struct read untouched from one
// place is that place's content.
func (f *Flow) loadStruct(st *FState, a *T, typ types.Type, as []*T) *T {
	u := under(typ).(*types.Struct)
	// all leaves are loads of this address of the entry state: a single value
	ok := len(as) > 0
	for i := range as {
		if as[i].op == "field" {
			continue
		}
		if as[i].op != "load" || as[i].args[0] != f.fa(a, typ, i) {
			ok = false
			break
		}
	}
	_ = u
	_ = ok
	return f.mkStruct(typ, as)
}

// kill forgets what may be at an address of the class.
func (f *Flow) kill(st *FState, a *T, cl string, ep *T) {
	for k := range st.mem {
		if f.class(k) == cl && k != a && !f.distinct(st, a, k) {
			delete(st.mem, k)
		}
	}
	r := rootOf(a)
	if isFresh(r) && !st.esc[r] {
		return
	}
	st.ep[cl] = ep
}

// store of a value; structs are stored by leaves.
func (f *Flow) store(st *FState, a, v *T, typ types.Type, ep *T) {
	if u, ok := under(typ).(*types.Struct); ok {
		for i := 0; i < u.NumFields(); i++ {
			f.store(st, f.fa(a, typ, i), f.field(v, typ, i), u.Field(i).Type(), ep)
		}
		return
	}
	if arr, ok := under(typ).(*types.Array); ok && v.op == "zero" {
		n := arr.Len()
		if n <= 16 {
			for i := int64(0); i < n; i++ {
				f.store(st, f.ia(a, f.intc(i), arr.Elem()), f.zero(arr.Elem()), arr.Elem(), ep)
			}
		}
		st.mem[a] = v
		return
	}
	f.kill(st, a, f.class(a), ep)
	st.mem[a] = v
	f.escape(st, v)
}

// escape notes the objects whose address is kept somewhere.
func (f *Flow) escape(st *FState, v *T) {
	seen := map[*T]bool{}
	var walk func(v *T)
	walk = func(v *T) {
		if seen[v] {
			return
		}
		seen[v] = true
		switch v.op {
		case "fa", "ia", "ma", "alloc", "slice", "makemap", "makeslice":
			r := rootOf(v)
			if isFresh(r) && !st.esc[r] {
				st.esc[r] = true
				// what it refers to is reachable as well
				for a, x := range st.mem {
					if rootOf(a) == r {
						walk(x)
					}
				}
			}
			if r.op != v.op {
				walk(r)
			}
		case "struct", "iface", "closure", "app", "appall", "conv", "tuple", "field", "list":
			for _, a := range v.args {
				walk(a)
			}
		case "phi":
			for _, a := range f.alts[v] {
				walk(a)
			}
		}
	}
	walk(v)
}

// ---- facts

func (f *Flow) truth(st *FState, c *T) int {
	if v, ok := c.boolVal(); ok {
		if v {
			return 1
		}
		return 0
	}
	if c.op == "not" {
		switch f.truth(st, c.args[0]) {
		case 1:
			return 0
		case 0:
			return 1
		}
		return -1
	}
	if f.onTruth != nil {
		if n := f.onTruth(st, c); n >= 0 {
			return n
		}
	}
	if v, ok := st.facts[c]; ok {
		if v {
			return 1
		}
		return 0
	}
	if c.op == "eq" {
		a, b := c.args[0], c.args[1]
		if a.nn && isNilT(b) {
			return 0
		}
		if b.op == "const" {
			for k, v := range st.facts {
				if v && k.op == "eq" && k.args[0] == a && k.args[1].op == "const" && k.args[1] != b {
					return 0
				}
			}
			if a.op == "phi" { // one of known alternatives
				all := len(f.alts[a]) > 0
				for _, x := range f.leaves(a) {
					if x.op == "phi" || f.truth(st, f.eq(x, b)) != 0 {
						all = false
						break
					}
				}
				if all {
					return 0
				}
			}
		}
	}
	if c.op == "lt" {
		// lengths are not negative
		if n, ok := c.args[1].intVal(); ok && n <= 0 && c.args[0].op == "len" {
			return 0
		}
		if n, ok := c.args[0].intVal(); ok && n < 0 && c.args[1].op == "len" {
			return 1
		}
	}
	return -1
}

// leaves gives the alternatives of a merged value.
func (f *Flow) leaves(t *T) []*T {
	var r []*T
	seen := map[*T]bool{}
	var walk func(t *T)
	walk = func(t *T) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "phi" && len(f.alts[t]) > 0 {
			for _, x := range f.alts[t] {
				walk(x)
			}
			return
		}
		r = append(r, t)
	}
	walk(t)
	return r
}

func (f *Flow) assume(st *FState, c *T, v bool) {
	for c.op == "not" {
		c, v = c.args[0], !v
	}
	if c.op == "const" {
		return
	}
	st.facts[c] = v
}

// ---- solving

func (f *Flow) context(up *Ctx, call ssa.Instruction, fn *ssa.Function) *Ctx {
	k := fmt.Sprintf("%p|%p|%p", up, call, fn)
	if c := f.ctxs[k]; c != nil {
		return c
	}
	c := &Ctx{up: up, call: call, fn: fn, id: len(f.ctxs) + 1, loop: loopsOf(fn)}
	f.ctxs[k] = c
	return c
}

func loopsOf(fn *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	r := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			body := r[h]
			if body == nil {
				body = map[*ssa.BasicBlock]bool{h: true}
				r[h] = body
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if body[x] {
					continue
				}
				body[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	return r
}

// inLoop tells whether a symbol is defined in the loop of header h of ctx.
func inLoop(s *T, ctx *Ctx, h *ssa.BasicBlock) bool {
	body := ctx.loop[h]
	for c, b := s.ctx, s.blk; c != nil; c = c.up {
		if c == ctx {
			return body[b]
		}
		if c.call == nil {
			return false
		}
		b = c.call.Block()
	}
	return false
}

func (f *Flow) staleIn(t *T, ctx *Ctx, h *ssa.BasicBlock) bool {
	for _, s := range t.allSyms() {
		if inLoop(s, ctx, h) {
			return true
		}
	}
	return false
}

type inState struct {
	st   *FState
	back bool
}

// isCounter tells whether a value is an integer that changes with the turns of
// the loop of header b.
func (f *Flow) isCounter(k ssa.Value, b *ssa.BasicBlock) bool {
	ph, ok := k.(*ssa.Phi)
	return ok && ph.Block() == b && isInt(ph.Type())
}

// counter is the value of a loop variable in any turn, the first included.
func (f *Flow) counter(ctx *Ctx, b *ssa.BasicBlock, part string, k ssa.Value, vs ...*T) *T {
	s := f.sym("phi", fmt.Sprintf("%d.%s.v:%s", b.Index, part, k.Name()), k.Type(), ctx, b)
	alts := []*T{f.add(s, 1)}
	for _, v := range vs {
		if v != s {
			alts = append(alts, v)
		}
	}
	if na := dedupT(alts); !sameTs(f.alts[s], na) {
		f.alts[s] = na
		f.gen++
	}
	return s
}

// join merges states at a block.
func (f *Flow) join(ctx *Ctx, b *ssa.BasicBlock, part string, ins []inState, sticky map[*T]bool, widen bool) *FState {
	open := f.open && ctx.loop[b] != nil
	if len(ins) == 1 && !ins[0].back {
		r := ins[0].st.fork()
		if open {
			for k, v := range r.env {
				if f.isCounter(k, b) {
					r.env[k] = f.counter(ctx, b, part, k, v)
				}
			}
		}
		return r
	}
	r := newFState()
	slot := func(name string, typ types.Type, get func(i int) *T) *T {
		var sym *T
		mkSym := func() *T {
			if sym == nil {
				sym = f.sym("phi", fmt.Sprintf("%d.%s.%s", b.Index, part, name), typ, ctx, b)
			}
			return sym
		}
		var one *T
		differ := false
		var raw []*T
		for i := range ins {
			v := get(i)
			if v == nil {
				return nil
			}
			if v.op == "phi" && v == mkSym() {
				continue
			}
			raw = append(raw, v)
			if ins[i].back && f.staleIn(v, ctx, b) {
				differ = true
			}
			if one != nil && one != v {
				differ = true
			}
			one = v
		}
		if !differ && one == nil {
			return mkSym()
		}
		if !differ && !(widen && sticky[mkSym()]) {
			return one
		}
		s := mkSym()
		sticky[s] = true
		if na := dedupT(raw); !sameTs(f.alts[s], na) {
			f.alts[s] = na
			f.gen++
		}
		return s
	}
	// environment
	for k, v := range ins[0].st.env {
		k := k
		ok := true
		for _, x := range ins[1:] {
			if x.st.env[k] == nil {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		_ = v
		if in, ok := k.(ssa.Instruction); ok && !in.Block().Dominates(b) {
			continue
		}
		if open && f.isCounter(k, b) {
			var vs []*T
			for _, x := range ins {
				vs = append(vs, x.st.env[k])
			}
			r.env[k] = f.counter(ctx, b, part, k, vs...)
			continue
		}
		if t := slot("v:"+k.Name(), k.Type(), func(i int) *T { return ins[i].st.env[k] }); t != nil {
			r.env[k] = t
		}
	}
	// epochs
	cls := map[string]bool{}
	for _, x := range ins {
		for c := range x.st.ep {
			cls[c] = true
		}
		if x.back {
			for a := range x.st.mem {
				if f.staleIn(a, ctx, b) {
					rt := rootOf(a)
					if isFresh(rt) && !x.st.esc[rt] {
						continue
					}
					if v := x.st.mem[a]; v.op == "load" && v.args[0] == a && v.args[1] == f.epoch(x.st, f.class(a)) {
						continue // only read
					}
					cls[f.class(a)] = true
				}
			}
		}
	}
	staleCls := map[string]bool{}
	for _, x := range ins {
		if !x.back {
			continue
		}
		for a, v := range x.st.mem {
			rt := rootOf(a)
			if isFresh(rt) && !x.st.esc[rt] {
				continue
			}
			if f.staleIn(a, ctx, b) && !(v.op == "load" && v.args[0] == a && v.args[1] == f.epoch(x.st, f.class(a))) {
				staleCls[f.class(a)] = true
			}
		}
	}
	for _, c := range sortedKeys(cls) {
		c := c
		t := slot("e:"+c, nil, func(i int) *T {
			if staleCls[c] && ins[i].back {
				return f.sym("stale", c, nil, ctx, b)
			}
			return f.epoch(ins[i].st, c)
		})
		if t.op != "entry" {
			r.ep[c] = t
		}
	}
	// memory
	for _, x := range ins {
		for a := range x.st.esc {
			r.esc[a] = true
		}
		for a := range x.st.pend {
			r.pend[a] = true
		}
	}
	addrs := map[*T]bool{}
	for _, x := range ins {
		for a := range x.st.mem {
			addrs[a] = true
		}
	}
	for a := range addrs {
		a := a
		if ctx.loop[b] != nil && f.staleIn(a, ctx, b) {
			continue
		}
		var typ types.Type
		for _, x := range ins {
			if v := x.st.mem[a]; v != nil {
				typ = v.typ
			}
		}
		skip := false
		for _, x := range ins {
			if x.st.mem[a] == nil && isFresh(rootOf(a)) && !x.st.esc[rootOf(a)] {
				skip = true // not allocated there
			}
		}
		if skip {
			continue
		}
		t := slot(fmt.Sprintf("m:%d", a.id), typ, func(i int) *T {
			s := ins[i].st
			if v := s.mem[a]; v != nil {
				return v
			}
			return f.entry(s, a, typ)
		})
		if t != nil {
			r.mem[a] = t
		}
	}
	// facts and obligations met
	for k, v := range ins[0].st.facts {
		ok := true
		for i, x := range ins {
			if w, has := x.st.facts[k]; has {
				if w != v {
					ok = false
				}
			} else if n := f.truth(x.st, k); n < 0 || (n == 1) != v {
				ok = false
			}
			if ins[i].back && f.staleIn(k, ctx, b) {
				ok = false
			}
			if !ok {
				break
			}
		}
		if ok {
			r.facts[k] = v
		}
	}
	for k := range ins[0].st.must {
		ok := true
		for _, x := range ins {
			if !x.st.must[k] || x.back && f.staleIn(k, ctx, b) {
				ok = false
				break
			}
		}
		if ok {
			r.must[k] = true
		}
	}
	r.defs = ins[0].st.defs
	for _, x := range ins[1:] {
		if len(x.st.defs) != len(r.defs) {
			undec("deferred calls differ at a merge in %s", shortFn(ctx.fn))
		}
		for i := range r.defs {
			if r.defs[i].site != x.st.defs[i].site {
				undec("deferred calls differ at a merge in %s", shortFn(ctx.fn))
			}
		}
	}
	r.defs = append([]*FCall{}, r.defs...)
	return r
}

func sameTs(a, b []*T) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func dedupT(ts []*T) []*T {
	seen := map[*T]bool{}
	var r []*T
	for _, t := range ts {
		if !seen[t] {
			seen[t] = true
			r = append(r, t)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

func sameState(a, b *FState) bool {
	if len(a.env) != len(b.env) || len(a.mem) != len(b.mem) || len(a.ep) != len(b.ep) || len(a.facts) != len(b.facts) ||
		len(a.esc) != len(b.esc) || len(a.pend) != len(b.pend) || len(a.must) != len(b.must) || len(a.defs) != len(b.defs) {
		return false
	}
	for k, v := range a.env {
		if b.env[k] != v {
			return false
		}
	}
	for k, v := range a.mem {
		if b.mem[k] != v {
			return false
		}
	}
	for k, v := range a.ep {
		if b.ep[k] != v {
			return false
		}
	}
	for k, v := range a.facts {
		if w, ok := b.facts[k]; !ok || v != w {
			return false
		}
	}
	for k := range a.esc {
		if !b.esc[k] {
			return false
		}
	}
	for k := range a.pend {
		if !b.pend[k] {
			return false
		}
	}
	for k := range a.must {
		if !b.must[k] {
			return false
		}
	}
	return true
}

// run analyses a function in a context.
func (f *Flow) run(fn *ssa.Function, ctx *Ctx, args, binds []*T, st *FState) []FRet {
	if len(fn.Blocks) == 0 {
		undec("the function %s has no body", fullName(fn))
	}
	if ctx.depth() > 60 {
		undec("calls are nested too deeply in %s", shortFn(fn))
	}
	callerEnv, callerDefs := st.env, st.defs
	s0 := st.fork()
	s0.env = map[ssa.Value]*T{}
	s0.defs = nil
	for i, p := range fn.Params {
		s0.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		if i < len(binds) {
			s0.env[v] = binds[i]
		} else {
			s0.env[v] = f.mk("param", "free:"+v.Name(), v.Type())
		}
	}
	if m := f.memo[ctx]; m != nil && !f.live && m.gen == f.gen && sameState(m.in, s0) {
		var out []FRet
		for _, r := range m.out {
			j := r.st.fork()
			j.env = cpm(callerEnv)
			j.defs = append([]*FCall{}, callerDefs...)
			out = append(out, FRet{st: j, vals: r.vals, pan: r.pan})
		}
		return out
	}
	in0, gen0 := s0.fork(), f.gen
	order := rpo(fn)
	edges := map[[2]int][]*FState{} // pred index, succ index
	entry := map[string]*FState{}
	var rets []FRet
	wasLive := f.live
	n := 0
	sticky := map[*T]bool{}
	entered := map[*ssa.BasicBlock][]*FState{}
	resets := map[*ssa.BasicBlock]int{}
	pass := func(live bool) bool {
		changed := false
		f.live = live
		rets = nil
		for _, b := range order {
			parts := map[string][]inState{}
			var ks []string
			addIn := func(s *FState, back bool) {
				k := ""
				if ctx.loop[b] == nil {
					k = f.partKey(s, b)
				}
				if parts[k] == nil {
					ks = append(ks, k)
				}
				parts[k] = append(parts[k], inState{s, back})
			}
			if b == fn.Blocks[0] {
				addIn(s0, false)
			}
			drop := false
			if ctx.loop[b] != nil && resets[b] < 30 {
				// a loop entered with another state is solved anew
				var in []*FState
				if b == fn.Blocks[0] {
					in = append(in, s0)
				}
				for pi, pb := range b.Preds {
					if !b.Dominates(pb) {
						in = append(in, edges[[2]int{pb.Index, edgeNo(b, pi)}]...)
					}
				}
				old, was := entered[b]
				same := len(old) == len(in)
				for i := 0; same && i < len(in); i++ {
					same = sameState(old[i], in[i])
				}
				if was && !same {
					drop = true
					changed = true
					resets[b]++
				}
				entered[b] = nil
				for _, s := range in {
					entered[b] = append(entered[b], s.fork())
				}
			}
			for pi, pb := range b.Preds {
				if drop && b.Dominates(pb) {
					continue
				}
				for _, s := range edges[[2]int{pb.Index, edgeNo(b, pi)}] {
					addIn(s, b.Dominates(pb))
				}
			}
			if len(ks) == 0 {
				continue
			}
			sort.Strings(ks)
			var cur []*FState
			for _, k := range ks {
				j := f.join(ctx, b, k, parts[k], sticky, n > 6)
				ek := fmt.Sprintf("%d/%s", b.Index, k)
				if old := entry[ek]; old == nil || !sameState(old, j) {
					if n > 36 && flowDebug {
						diffState(ek, old, j)
					}
					entry[ek] = j.fork()
					changed = true
				}
				cur = append(cur, j)
			}
			outs, rs := f.block(ctx, b, cur)
			rets = append(rets, rs...)
			for si, succ := range b.Succs {
				key := [2]int{b.Index, predSlot(b, si)}
				edges[key] = nil
				for _, s := range outs[si] {
					if live && f.onBack != nil && succ.Dominates(b) {
						f.onBack(ctx, succ, s)
					}
					// phis of the successor
					e := s.fork()
					pidx := predIndex(b, si)
					vals := map[*ssa.Phi]*T{}
					for _, in := range succ.Instrs {
						ph, ok := in.(*ssa.Phi)
						if !ok {
							break
						}
						vals[ph] = f.val(s, ph.Edges[pidx])
					}
					for ph, v := range vals {
						e.env[ph] = v
					}
					if live && f.onEdge != nil {
						f.onEdge(ctx, b, succ, s, e)
					}
					edges[key] = append(edges[key], e)
				}
			}
		}
		return changed
	}
	for pass(false) {
		n++
		if n > 80 {
			undec("the analysis of %s does not settle", shortFn(fn))
		}
	}
	if wasLive {
		pass(true)
	}
	f.live = wasLive
	// group the returns
	groups := map[string][]FRet{}
	var gk []string
	for _, r := range rets {
		k := fmt.Sprint(r.pan)
		for _, v := range r.vals {
			k += "|" + f.constKey(r.st, v)
		}
		if groups[k] == nil {
			gk = append(gk, k)
		}
		groups[k] = append(groups[k], r)
	}
	sort.Strings(gk)
	var out []FRet
	for gi, k := range gk {
		rs := groups[k]
		// the results take part in the join
		var ins []inState
		for _, r := range rs {
			s := r.st
			s.env = map[ssa.Value]*T{}
			for i, v := range r.vals {
				s.env[retSlot(fn, i)] = v
			}
			s.defs = nil
			ins = append(ins, inState{s, false})
		}
		j := f.join(ctx, fn.Blocks[0], fmt.Sprintf("ret%d", gi), ins, sticky, false)
		var vals []*T
		for i := range rs[0].vals {
			vals = append(vals, j.env[retSlot(fn, i)])
		}
		if wasLive && f.onRet != nil {
			f.onRet(vals, rs)
		}
		j.env = cpm(callerEnv)
		j.defs = append([]*FCall{}, callerDefs...)
		out = append(out, FRet{st: j, vals: vals, pan: rs[0].pan})
	}
	if f.gen == gen0 && !f.live {
		m := &flowMemo{in: in0, gen: gen0}
		for _, r := range out {
			j := r.st.fork()
			j.env = nil
			m.out = append(m.out, FRet{st: j, vals: r.vals, pan: r.pan})
		}
		f.memo[ctx] = m
	} else {
		delete(f.memo, ctx)
	}
	return out
}

// retSlots are pseudo values that stand for results in joins.
var retSlotsMu sync.Mutex
var retSlots = map[string]ssa.Value{}

func retSlot(fn *ssa.Function, i int) ssa.Value {
	k := fmt.Sprintf("%p/%d", fn, i)
	retSlotsMu.Lock()
	defer retSlotsMu.Unlock()
	if v := retSlots[k]; v != nil {
		return v
	}
	v := ssa.NewConst(constant.MakeInt64(int64(len(retSlots)+1000)), types.Typ[types.Int])
	w := &retVal{Const: v, n: i, t: fn.Signature.Results().At(i).Type()}
	retSlots[k] = w
	return w
}

type retVal struct {
	*ssa.Const
	n int
	t types.Type
}

func (r *retVal) Name() string     { return fmt.Sprintf("ret%d", r.n) }
func (r *retVal) Type() types.Type { return r.t }

// constKey is the part of a value that distinguishes returns and partitions.
func (f *Flow) constKey(st *FState, v *T) string {
	if v == nil {
		return "_"
	}
	if v.op == "const" {
		switch under(v.typ).(type) {
		case *types.Basic:
			if b := under(v.typ).(*types.Basic); b.Info()&types.IsBoolean != 0 || b.Kind() == types.UntypedNil {
				return v.c
			}
		}
		return "_"
	}
	switch under(v.typ).(type) {
	case *types.Interface, *types.Pointer:
		if f.truth(st, f.eq(v, f.nilc())) == 0 {
			return "nonnil"
		}
	case *types.Basic:
		switch f.truth(st, v) {
		case 1:
			if isBool(v.typ) {
				return "true"
			}
		case 0:
			if isBool(v.typ) {
				return "false"
			}
		}
	}
	return "_"
}

func isBool(t types.Type) bool {
	b, ok := under(t).(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func (f *Flow) partKey(s *FState, b *ssa.BasicBlock) string {
	k := ""
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		switch under(ph.Type()).(type) {
		case *types.Interface, *types.Pointer:
			k += "|" + f.constKey(s, s.env[ph])
		case *types.Basic:
			if isBool(ph.Type()) {
				k += "|" + f.constKey(s, s.env[ph])
			}
		}
	}
	return k
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var walk func(b *ssa.BasicBlock)
	walk = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				walk(s)
			}
		}
		post = append(post, b)
	}
	walk(fn.Blocks[0])
	for i, j := 0, len(post)-1; i < j; i, j = i+1, j-1 {
		post[i], post[j] = post[j], post[i]
	}
	return post
}

// An edge is identified by its source block and the number of the successor.
func predSlot(b *ssa.BasicBlock, si int) int { return si }

// predIndex gives the position of an edge among the predecessors.
func predIndex(b *ssa.BasicBlock, si int) int {
	succ := b.Succs[si]
	nth := 0
	for i := 0; i < si; i++ {
		if b.Succs[i] == succ {
			nth++
		}
	}
	for i, p := range succ.Preds {
		if p == b {
			if nth == 0 {
				return i
			}
			nth--
		}
	}
	return -1
}

// edgeNo gives the successor number of the i-th incoming edge of b.
func edgeNo(b *ssa.BasicBlock, pi int) int {
	pb := b.Preds[pi]
	nth := 0
	for i := 0; i < pi; i++ {
		if b.Preds[i] == pb {
			nth++
		}
	}
	for si, s := range pb.Succs {
		if s == b {
			if nth == 0 {
				return si
			}
			nth--
		}
	}
	return -1
}
