package main

import (
	"strings"
)

// refText is the supported grammar, written independently of the code as
// parsing expressions:
//
//	'x' exact text   "x" text in any letter case   [..] one character
//	.   any character   e* e+ e? e{n} e{n,m} e{n,}   &e !e   a / b ordered choice
//	WB word boundary   EOT end of the text   ERR gives up with an error
//
// A rule marked with @ is recursive: it refers to itself, directly or not.
const refText = `
query    = sp select sp EOT ;

select     = "select" sp1 items (from / ERR) tail &(sp (EOT / ERR)) ;
@subselect = "select" sp1 items (from / ERR) tail &(sp (')' / ERR)) ;

tail  = where? (group having?)? order? (offset limit? / limit offset?)? for? ;

items = (item sp / ERR) (',' (sp item sp / ERR))* ;
item  = !reserved (func / name / subquery) (!reserved ident)? ;

from  = "from" sp1 (object / ERR) (',' (sp object / ERR))* ;
object = !reserved name (!reserved ident sp)? ;

where  = "where" WB (sp wherecond / ERR) ;
group  = "group" sp1 ("by" sp1 name (',' sp name)* / ERR) ;
having = "having" WB (sp havingcond / ERR) ;
order  = "order" WB (sp1 "by" sp1 key (',' (sp key / ERR))* / ERR) ;
key    = name (("asc" / "desc") WB sp)? ("nulls" sp1 ("first" / "last") WB sp)? ;
offset = "offset" sp1 (int WB / param / ERR) sp ;
limit  = "limit" sp1 (int WB / param / ERR) sp ;
for    = "for" sp1 ( "view" WB sp (',' sp "reference" WB sp)?
                   / "reference" WB sp (',' sp "view" WB sp)?
                   / "update" WB sp ( "tracking" WB sp (',' sp "viewstat" WB sp)?
                                    / "viewstat" WB sp (',' sp "tracking" WB sp)? )? )
       / "for" WB ERR ;

@wherecond  = wopnd (("and" / "or") WB (sp wopnd / ERR))* ;
wopnd       = ("not" WB sp)? ( '(' (sp wherecond ')' sp / ERR) / wcomp ) ;
wcomp       = !reserved (func / name / ERR) (op / ERR) sp (lit / subquery / func / name / list / ERR) ;

@havingcond = hopnd (("and" / "or") WB (sp hopnd / ERR))* ;
hopnd       = ("not" WB sp)? ( '(' (sp havingcond ')' sp / ERR) / hcomp ) ;
hcomp       = !reserved (func / ERR) (op / ERR) sp (lit / subquery / func / list / ERR) ;

op = '!=' / '<=' / '>=' / '=' / '<' / '>'
   / "not" sp1 ("like" / "in") WB / "like" WB / "in" WB / "includes" WB / "excludes" WB ;

@func = ident sp '(' (sp (arg (sp ',' sp arg)* sp)? ')' sp / ERR) ;
arg   = func / lit / name ;

subquery = '(' sp subselect sp ')' sp ;
list     = '(' sp lit (',' sp lit)* ')' sp ;

name  = (ident / quoted) sp ('.' sp (ident / quoted) sp)* ;
ident = [A-Za-z$_] [A-Za-z0-9$_]* ;
quoted = '"' ( '\' esc / ([\r\n] ERR / [^"\\])+ )* (EOT ERR / '"') ;

lit   = (datetime / date / time / number / string / "true" WB / "false" WB / "null" WB / param / datelit) sp ;
param = ':' sp ident ;
string = ['] ( '\' esc / [^'\\]+ )* (EOT ERR / [']) ;
esc   = [\\'"` + "`" + `nNrRvVtTbBfF_%] / 'u' hex{4} / 'u{' hex{1,6} '}' / 'x' hex{2} / [0-7]{3} ;
hex   = [0-9A-Fa-f] ;

ymd   = '-'? [0-9]{4,} '-' [01] [0-9] '-' [0-3] [0-9] ;
hms   = [0-2] [0-9] ':' [0-5] [0-9] (':' [0-6] [0-9] ('.' [0-9]{1,9})?)? ;
date  = ymd WB ;
time  = hms WB ;
datetime = ymd 'T' hms ('Z' / [+-] [0-9]{2} ':' [0-5] [0-9]) WB ;

number = ("0b" [01] [01_]* / "0o" [0-7] [0-7_]* / "0x" hex [0-9A-Fa-f_]* / float / int) WB
       / '+'? "infinity" WB / "-infinity" WB / "nan" WB ;
int    = [+-]? digits ;
intlit = ("0b" [01] [01_]* / "0o" [0-7] [0-7_]* / "0x" hex [0-9A-Fa-f_]* / int) ;
floatlit = float ;
digits = '0' '_'* / [0-9] [0-9_]* ;
float  = [+-]? ( digits '.' [0-9_]* exp? / '.' [0-9_]+ exp? / digits exp ) ;
exp    = [eE] [+-]? [0-9] [0-9_]* ;

datelit = ( counted ':' !'-' int WB / fixed ) WB ;
counted = ("next_n_" / "last_n_") ("fiscal_quarters" / "fiscal_years" / "quarters" / "months" / "years" / "weeks" / "days") ;
fixed   = ("this_" / "last_" / "next_") ("fiscal_quarter" / "fiscal_year" / "quarter" / "month" / "week" / "year")
        / ("last_" / "next_") "90_days" / "yesterday" / "tomorrow" / "today" ;

reserved = ( ("select" / "from" / "where" / "having" / "offset" / "limit") WB
           / ("order" / "group") sp1 "by" WB
           / "for" sp1 ("view" / "reference" / "update") WB ) WB ;

sp  = (ws / comment)* ;
sp1 = (ws / comment)+ ;
ws  = [\t\n\v\f\r \x85\xa0] ;
comment = '--' (!eol .)* (eol / EOT) / '/*' (!'*/' .)* '*/' ;
eol = [\r\n] ;
`

type refGram struct {
	l     *Lang
	rules map[string]string
	rec   map[string]bool
	memo  map[string]int
}

func newRefGram(l *Lang) *refGram {
	r := &refGram{l: l, rules: map[string]string{}, rec: map[string]bool{}, memo: map[string]int{}}
	rs := []rune(refText)
	// split at ';' outside quotes
	var cur []rune
	flush := func() {
		s := strings.TrimSpace(string(cur))
		cur = nil
		if s == "" {
			return
		}
		i := strings.Index(s, "=")
		name := strings.TrimSpace(s[:i])
		if strings.HasPrefix(name, "@") {
			name = name[1:]
			r.rec[name] = true
		}
		r.rules[name] = s[i+1:]
	}
	for i := 0; i < len(rs); i++ {
		c := rs[i]
		switch c {
		case '\'', '"':
			for cur = append(cur, c); rs[i+1] != c; {
				i++
				cur = append(cur, rs[i])
			}
			i++
			cur = append(cur, c)
		case '[':
			for cur = append(cur, c); rs[i+1] != ']'; {
				i++
				if rs[i] == '\\' {
					cur = append(cur, rs[i])
					i++
				}
				cur = append(cur, rs[i])
			}
			i++
			cur = append(cur, ']')
		case ';':
			flush()
		default:
			cur = append(cur, c)
		}
	}
	flush()
	return r
}

func (r *refGram) rule(name string) int {
	src, ok := r.rules[name]
	if !ok {
		undec("internal: rule %s of the reference grammar is missing", name)
	}
	if e, ok := r.memo[name]; ok {
		return e
	}
	ref := -1
	if r.rec[name] {
		ref, r.memo[name] = r.l.newRef()
	}
	p := &refParser{r: r, s: []rune(src)}
	e := p.alt()
	p.ws()
	if p.i < len(p.s) {
		undec("internal: reference grammar rule %s: unexpected %q", name, string(p.s[p.i:]))
	}
	if ref >= 0 {
		r.l.refs[ref] = e
		return r.memo[name]
	}
	r.memo[name] = e
	return e
}

type refParser struct {
	r *refGram
	s []rune
	i int
}

func (p *refParser) ws() {
	for p.i < len(p.s) && (p.s[p.i] == ' ' || p.s[p.i] == '\n' || p.s[p.i] == '\t') {
		p.i++
	}
}

func (p *refParser) peek() rune {
	p.ws()
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return 0
}

func (p *refParser) alt() int {
	xs := []int{p.seq()}
	for p.peek() == '/' {
		p.i++
		xs = append(xs, p.seq())
	}
	return p.r.l.alt(xs...)
}

func (p *refParser) seq() int {
	var xs []int
	for {
		c := p.peek()
		if c == 0 || c == '/' || c == ')' {
			return p.r.l.seq(xs...)
		}
		xs = append(xs, p.prefix())
	}
}

func (p *refParser) prefix() int {
	l := p.r.l
	switch p.peek() {
	case '!':
		p.i++
		return l.not(p.prefix())
	case '&':
		p.i++
		return l.and(p.prefix())
	}
	e := p.atom()
	for p.i < len(p.s) {
		switch p.s[p.i] {
		case '*':
			p.i++
			e = l.star(e)
		case '+':
			p.i++
			e = l.seq(e, l.star(e))
		case '?':
			p.i++
			e = l.opt(e)
		case '{':
			p.i++
			num := func() int {
				n := 0
				for p.s[p.i] >= '0' && p.s[p.i] <= '9' {
					n = n*10 + int(p.s[p.i]-'0')
					p.i++
				}
				return n
			}
			lo := num()
			hi := lo
			if p.s[p.i] == ',' {
				p.i++
				hi = -1
				if p.s[p.i] != '}' {
					hi = num()
				}
			}
			p.i++
			e = l.repeat(e, lo, hi)
		default:
			return e
		}
	}
	return e
}

func (p *refParser) atom() int {
	l := p.r.l
	c := p.peek()
	p.i++
	switch c {
	case '(':
		e := p.alt()
		if p.peek() != ')' {
			undec("internal: reference grammar: ')' expected at %q", string(p.s[p.i:]))
		}
		p.i++
		return e
	case '.':
		return l.any()
	case '\'', '"':
		j := p.i
		for p.s[p.i] != c {
			p.i++
		}
		t := string(p.s[j:p.i])
		p.i++
		if c == '"' {
			return l.strI(t)
		}
		return l.str(t)
	case '[':
		neg := false
		if p.s[p.i] == '^' {
			neg = true
			p.i++
		}
		var b bits
		get := func() rune {
			x := p.s[p.i]
			p.i++
			if x == '\\' {
				x = p.s[p.i]
				p.i++
				switch x {
				case 't':
					return '\t'
				case 'n':
					return '\n'
				case 'v':
					return '\v'
				case 'f':
					return '\f'
				case 'r':
					return '\r'
				case 'x':
					h := func(r rune) rune {
						if r >= 'a' {
							return r - 'a' + 10
						}
						return r - '0'
					}
					x = h(p.s[p.i])*16 + h(p.s[p.i+1])
					p.i += 2
					return x
				}
			}
			return x
		}
		for p.s[p.i] != ']' {
			a := get()
			z := a
			if p.s[p.i] == '-' && p.s[p.i+1] != ']' {
				p.i++
				z = get()
			}
			for x := a; x <= z; x++ {
				b.set(symOf(x))
			}
		}
		p.i++
		if neg {
			var n bits
			for i := 0; i < maxSym; i++ {
				if !b.has(i) {
					n.set(i)
				}
			}
			b = n
		}
		return l.set(b)
	}
	j := p.i - 1
	for p.i < len(p.s) && (p.s[p.i] >= 'a' && p.s[p.i] <= 'z' || p.s[p.i] >= '0' && p.s[p.i] <= '9' || p.s[p.i] >= 'A' && p.s[p.i] <= 'Z') {
		p.i++
	}
	n := string(p.s[j:p.i])
	switch n {
	case "WB":
		return l.wb()
	case "EOT":
		return l.end()
	case "ERR":
		return l.err()
	case "":
		undec("internal: reference grammar: unexpected %q", string(p.s[j:]))
	}
	return p.r.rule(n)
}
