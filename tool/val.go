package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Val is an abstract value. Equal keys mean equal values.
type Val interface{ k() string }

// Konst is a known scalar.
type Konst struct {
	kind byte // i s b f c(complex)
	i    int64
	s    string
	b    bool
	f    string
}

func (c *Konst) k() string {
	switch c.kind {
	case 'i':
		return strconv.FormatInt(c.i, 10)
	case 's':
		return strconv.Quote(c.s)
	case 'b':
		if c.b {
			return "true"
		}
		return "false"
	}
	return "f" + c.f
}

func kInt(i int64) *Konst  { return &Konst{kind: 'i', i: i} }
func kStr(s string) *Konst { return &Konst{kind: 's', s: s} }
func kBool(b bool) *Konst  { return &Konst{kind: 'b', b: b} }
func kFlt(s string) *Konst { return &Konst{kind: 'f', f: s} }
func asInt(v Val) (int64, bool) {
	if c, ok := v.(*Konst); ok && c.kind == 'i' {
		return c.i, true
	}
	return 0, false
}
func asStr(v Val) (string, bool) {
	if c, ok := v.(*Konst); ok && c.kind == 's' {
		return c.s, true
	}
	return "", false
}
func asBool(v Val) (bool, bool) {
	if c, ok := v.(*Konst); ok && c.kind == 'b' {
		return c.b, true
	}
	return false, false
}

// NilV is the nil pointer, slice, map, function or interface.
type NilV struct{}

func (NilV) k() string { return "nil" }

// Term is an uninterpreted (Herbrand) value.
type Term struct {
	op   string
	args []Val
	typ  types.Type
	x    interface{} // payload, not part of the identity
	key  string
}

func (t *Term) k() string { return t.key }

func mk(op string, typ types.Type, args ...Val) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	if len(args) > 0 {
		sb.WriteByte('(')
		for i, a := range args {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(a.k())
		}
		sb.WriteByte(')')
	}
	return &Term{op: op, args: args, typ: typ, key: sb.String()}
}

func isTerm(v Val, op string) (*Term, bool) {
	t, ok := v.(*Term)
	if ok && t.op == op {
		return t, true
	}
	return nil, false
}

// Lin is a linear integer expression: c + sum coef*atom.
type Lin struct {
	c   int64
	m   map[string]int64
	at  map[string]Val
	key string
}

func (l *Lin) k() string { return l.key }

func (l *Lin) finish() Val {
	for k, v := range l.m {
		if v == 0 {
			delete(l.m, k)
			delete(l.at, k)
		}
	}
	if len(l.m) == 0 {
		return kInt(l.c)
	}
	if len(l.m) == 1 && l.c == 0 {
		for k, v := range l.m {
			if v == 1 {
				return l.at[k]
			}
		}
	}
	ks := make([]string, 0, len(l.m))
	for k := range l.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var sb strings.Builder
	sb.WriteString("[")
	for i, k := range ks {
		if i > 0 {
			sb.WriteString("+")
		}
		if l.m[k] != 1 {
			fmt.Fprintf(&sb, "%d*", l.m[k])
		}
		sb.WriteString(k)
	}
	if l.c != 0 {
		fmt.Fprintf(&sb, "%+d", l.c)
	}
	sb.WriteString("]")
	l.key = sb.String()
	return l
}

func toLin(v Val) *Lin {
	switch x := v.(type) {
	case *Konst:
		return &Lin{c: x.i, m: map[string]int64{}, at: map[string]Val{}}
	case *Lin:
		n := &Lin{c: x.c, m: map[string]int64{}, at: map[string]Val{}}
		for k, c := range x.m {
			n.m[k] = c
			n.at[k] = x.at[k]
		}
		return n
	}
	return &Lin{m: map[string]int64{v.k(): 1}, at: map[string]Val{v.k(): v}}
}

func linAdd(a, b Val, sign int64) Val {
	x, y := toLin(a), toLin(b)
	x.c += sign * y.c
	for k, c := range y.m {
		x.m[k] += sign * c
		x.at[k] = y.at[k]
	}
	return x.finish()
}

func linMul(a Val, n int64) Val {
	x := toLin(a)
	x.c *= n
	for k := range x.m {
		x.m[k] *= n
	}
	return x.finish()
}

// StructV is a struct value.
type StructV struct {
	typ types.Type
	f   []Val
	key string
}

func (s *StructV) k() string {
	if s.key == "" {
		var sb strings.Builder
		sb.WriteByte('{')
		for i, a := range s.f {
			if i > 0 {
				sb.WriteByte(',')
			}
			sb.WriteString(a.k())
		}
		sb.WriteByte('}')
		s.key = sb.String()
	}
	return s.key
}

func (s *StructV) with(i int, v Val) *StructV {
	n := &StructV{typ: s.typ, f: append([]Val{}, s.f...)}
	n.f[i] = v
	return n
}

// TupleV is a multiple result.
type TupleV struct{ v []Val }

func (t *TupleV) k() string {
	s := "<"
	for i, a := range t.v {
		if i > 0 {
			s += ","
		}
		s += a.k()
	}
	return s + ">"
}

// PathEl is a field selection or an index.
type PathEl struct {
	field int
	idx   Val // nil for a field
}

func (p PathEl) k() string {
	if p.idx != nil {
		return "[" + p.idx.k() + "]"
	}
	return "." + strconv.Itoa(p.field)
}

// PtrV points into a heap object.
type PtrV struct {
	obj  int
	path []PathEl
}

func (p *PtrV) k() string {
	s := "&" + strconv.Itoa(p.obj)
	for _, e := range p.path {
		s += e.k()
	}
	return s
}

func (p *PtrV) ext(e PathEl) *PtrV {
	return &PtrV{obj: p.obj, path: append(append([]PathEl{}, p.path...), e)}
}

// SliceV is a slice of an array object.
type SliceV struct {
	arr         int
	off, ln, cp Val
}

func (s *SliceV) k() string {
	return "S" + strconv.Itoa(s.arr) + "[" + s.off.k() + ":+" + s.ln.k() + "]"
}

// IfaceV is an interface value of a known dynamic type.
type IfaceV struct {
	dyn types.Type
	v   Val
}

func (i *IfaceV) k() string { return "I<" + typeKey(i.dyn) + ">" + i.v.k() }

// FuncV is a function value.
type FuncV struct {
	fn      *ssa.Function
	b       []Val
	builtin string
}

func (f *FuncV) k() string {
	if f.fn == nil {
		return "builtin:" + f.builtin
	}
	s := "fn:" + f.fn.RelString(nil)
	if len(f.b) > 0 {
		s += "["
		for i, a := range f.b {
			if i > 0 {
				s += ","
			}
			s += a.k()
		}
		s += "]"
	}
	return s
}

// MapV is a map object.
type MapV struct{ obj int }

func (m *MapV) k() string { return "M" + strconv.Itoa(m.obj) }

// GramV is a parser of the combinator library.
type GramV struct{ g *Gram }

func (g *GramV) k() string { return "G" + strconv.Itoa(g.g.id) }

var typeKeys sync.Map // types.Type -> string

func typeKey(t types.Type) string {
	if s, ok := typeKeys.Load(t); ok {
		return s.(string)
	}
	s := types.TypeString(types.Unalias(t), nil)
	typeKeys.Store(t, s)
	return s
}

func under(t types.Type) types.Type { return t.Underlying() }

// zero returns the zero value of a type.
func zero(t types.Type) Val {
	switch u := under(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return kBool(false)
		case u.Info()&types.IsInteger != 0:
			return kInt(0)
		case u.Info()&types.IsString != 0:
			return kStr("")
		case u.Info()&types.IsFloat != 0:
			return kFlt("0")
		}
		return NilV{}
	case *types.Struct:
		s := &StructV{typ: t, f: make([]Val, u.NumFields())}
		for i := range s.f {
			s.f[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return mk("zeroarr", t)
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.v = append(tv.v, zero(u.At(i).Type()))
		}
		return tv
	}
	return NilV{}
}

// subst replaces values by key.
func subst(v Val, m map[string]Val) Val {
	if r, ok := m[v.k()]; ok {
		return r
	}
	switch x := v.(type) {
	case *Term:
		if len(x.args) == 0 {
			return v
		}
		ch := false
		as := make([]Val, len(x.args))
		for i, a := range x.args {
			as[i] = subst(a, m)
			if as[i] != a {
				ch = true
			}
		}
		if !ch {
			return v
		}
		t := mk(x.op, x.typ, as...)
		t.x = x.x
		return t
	case *Lin:
		var r Val = kInt(x.c)
		for _, k := range sortedKeys(x.m) {
			r = linAdd(r, linMul(subst(x.at[k], m), x.m[k]), 1)
		}
		return r
	case *StructV:
		ch := false
		n := &StructV{typ: x.typ, f: make([]Val, len(x.f))}
		for i, a := range x.f {
			n.f[i] = subst(a, m)
			if n.f[i] != a {
				ch = true
			}
		}
		if !ch {
			return v
		}
		return n
	case *IfaceV:
		r := subst(x.v, m)
		if r == x.v {
			return v
		}
		return &IfaceV{x.dyn, r}
	case *SliceV:
		return &SliceV{x.arr, subst(x.off, m), subst(x.ln, m), subst(x.cp, m)}
	case *PtrV:
		n := &PtrV{obj: x.obj}
		for _, e := range x.path {
			if e.idx != nil {
				e.idx = subst(e.idx, m)
			}
			n.path = append(n.path, e)
		}
		return n
	case *TupleV:
		n := &TupleV{}
		for _, a := range x.v {
			n.v = append(n.v, subst(a, m))
		}
		return n
	}
	return v
}

// mentions tells whether a value contains the value of a key.
func mentions(v Val, key string) bool {
	return strings.Contains(v.k(), key)
}
