package gen

import (
	"math"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf8"
)

// Syntax renders types as expressions of the type language, written from the documentation. The layout, the notation
// of literals, and redundant parentheses are selected at random.
type Syntax struct {
	R        *rand.Rand
	Plain    bool          // no redundant parentheses
	Names    map[*T]string // aliased parts
	declared map[*T]bool
	NoInline bool // aliases are referenced only
	toks     []string
}

var reserved = map[string]bool{`any`: true, `bool`: true, `int`: true, `float`: true, `dgo`: true, `binary`: true, `true`: true, `false`: true, `nil`: true, `map`: true, `type`: true,
	`string`: true, `sensitive`: true, `func`: true, `data`: true, `richdata`: true}

// IsBareKey returns true if the string can be used without quotes as a key
func IsBareKey(s string) bool {
	if s == `` || reserved[s] {
		return false
	}
	for i, c := range s {
		if !(c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && c >= '0' && c <= '9') {
			return false
		}
	}
	return true
}

func (s *Syntax) put(ts ...string) { s.toks = append(s.toks, ts...) }

func (s *Syntax) intTok(i int64) string {
	if s.R.Intn(6) == 0 && i >= 0 {
		x := strconv.FormatInt(i, 16)
		if s.R.Intn(2) == 0 {
			x = strings.ToUpper(x)
		}
		return []string{`0x`, `0X`}[s.R.Intn(2)] + x
	}
	if i >= 0 && s.R.Intn(8) == 0 {
		return `+` + strconv.FormatInt(i, 10)
	}
	return strconv.FormatInt(i, 10)
}

func (s *Syntax) floatTok(f float64) string {
	x := strconv.FormatFloat(f, []byte{'g', 'e', 'E'}[s.R.Intn(3)], -1, 64)
	if a := math.Abs(f); a < 1e15 && (a > 1e-6 || a == 0) && s.R.Intn(3) > 0 {
		x = strconv.FormatFloat(f, 'f', -1, 64)
	}
	if !strings.ContainsAny(x, `.eE`) {
		x += `.0`
	}
	if f > 0 && s.R.Intn(8) == 0 {
		x = `+` + x
	}
	return x
}

// StrTok writes a literal string
func (s *Syntax) StrTok(x string) string {
	if s.R.Intn(3) == 0 && utf8.ValidString(x) && !strings.ContainsAny(x, "`\x00") {
		return "`" + x + "`"
	}
	return strconv.Quote(x)
}

func slashed(x string) string {
	var sb strings.Builder
	sb.WriteByte('/')
	esc := false
	for _, c := range x {
		if c == '/' && !esc {
			sb.WriteByte('\\')
		}
		esc = c == '\\' && !esc
		sb.WriteRune(c)
	}
	sb.WriteByte('/')
	return sb.String()
}

func (s *Syntax) level(t *T) int {
	switch t.K {
	case TAnyOf:
		return 0
	case TOneOf:
		return 1
	case TAllOf:
		return 2
	case TNot, TCi:
		return 3
	case TFunc:
		return -1 // a return type extends as far as possible
	}
	return 4
}

// Type writes the type so that it can be used where an operand of at least the given level is expected
func (s *Syntax) Type(t *T, level int) {
	lv := s.level(t)
	name := s.Names[t]
	if name != `` {
		if s.NoInline || s.declared[t] {
			if s.R.Intn(4) == 0 {
				s.put(`<`, name, `>`)
			} else {
				s.put(name)
			}
			return
		}
		s.declared[t] = true
		lv = -1
	}
	paren := lv < level && !(lv == -1 && level == 0)
	if !s.Plain && s.R.Intn(6) == 0 {
		paren = true
	}
	if paren {
		s.put(`(`)
	}
	if name != `` {
		s.put(name, `=`)
	}
	s.expr(t)
	if paren {
		s.put(`)`)
	}
	if !s.Plain && paren && s.R.Intn(6) == 0 { // another pair
		n := 0
		for i := len(s.toks) - 1; ; i-- {
			if s.toks[i] == `)` {
				n++
			} else if s.toks[i] == `(` {
				n--
			}
			if n == 0 {
				s.toks = append(s.toks[:i], append([]string{`(`}, s.toks[i:]...)...)
				break
			}
		}
		s.put(`)`)
	}
}

func (s *Syntax) sizes(min, max int64, comma bool) {
	if comma {
		s.put(`,`)
	}
	s.put(s.intTok(min))
	if max != Inf {
		s.put(`,`, s.intTok(max))
	}
}

func (s *Syntax) value(v *V) {
	switch v.K {
	case KNil:
		s.put(`nil`)
	case KBool:
		s.put(strconv.FormatBool(v.B))
	case KInt:
		s.put(s.intTok(v.I))
	case KFloat:
		s.put(s.floatTok(v.F))
	case KStr:
		s.put(s.StrTok(v.S))
	case KArr:
		s.put(`{`)
		for i, e := range v.E {
			if i > 0 {
				s.put(`,`)
			}
			s.value(e)
		}
		s.end()
		s.put(`}`)
	case KMap:
		s.put(`{`)
		for i, e := range v.E {
			if i > 0 {
				s.put(`,`)
			}
			s.key(v.Keys[i])
			s.put(`:`)
			s.value(e)
		}
		s.end()
		s.put(`}`)
	default:
		panic(`no syntax for ` + v.String())
	}
}

func (s *Syntax) end() {
	if l := s.toks[len(s.toks)-1]; l != `{` && l != `...` && !s.Plain && s.R.Intn(10) == 0 {
		s.put(`,`)
	}
}

func (s *Syntax) key(k *V) {
	if k.K == KStr && IsBareKey(k.S) && s.R.Intn(2) == 0 {
		s.put(k.S)
		return
	}
	if k.K == KBool || k.K == KNil {
		// an identifier followed by a colon is a string
		s.put(`(`)
		s.value(k)
		s.put(`)`)
		return
	}
	s.value(k)
}

// element writes a list element. Initial dots would denote that the list is variadic.
func (s *Syntax) element(e *T) {
	at := len(s.toks)
	s.Type(e, 0)
	if s.toks[at] == `...` {
		s.parens(at)
	}
}

func (s *Syntax) parens(at int) {
	s.toks = append(s.toks[:at], append([]string{`(`}, s.toks[at:]...)...)
	s.put(`)`)
}

func (s *Syntax) list(t *T) {
	for i, e := range t.Ts {
		if i > 0 {
			s.put(`,`)
		}
		if t.Variadic && i == len(t.Ts)-1 {
			s.put(`...`)
			s.Type(e, 0)
			continue
		}
		s.element(e)
	}
}

func (s *Syntax) expr(t *T) {
	ops := func(op string, level int) {
		for i, o := range t.Ts {
			if i > 0 {
				s.put(op)
			}
			s.Type(o, level)
		}
	}
	dots := func() {
		if t.Incl {
			s.put(`..`)
		} else {
			s.put(`...`)
		}
	}
	switch t.K {
	case TAny:
		s.put(`any`)
	case TNil:
		s.put(`nil`)
	case TBool:
		s.put(`bool`)
	case TInt:
		s.put(`int`)
	case TFloat:
		s.put(`float`)
	case TStr:
		s.put(`string`)
		if s.R.Intn(5) == 0 {
			s.put(`[`, `0`, `]`)
		}
	case TBin:
		s.put(`binary`)
	case TIntR:
		if !(t.Min == math.MinInt64 && s.R.Intn(4) > 0) {
			s.put(s.intTok(t.Min))
		}
		dots()
		if !(t.Max == Inf && t.Min != math.MinInt64 && s.R.Intn(4) > 0) {
			s.put(s.intTok(t.Max))
		}
	case TFloatR:
		lo, hi := t.FMin != -math.MaxFloat64, t.FMax != math.MaxFloat64
		f := func(x float64) {
			// one of the bounds may be an integer literal
			s.put(s.floatTok(x))
		}
		switch {
		case lo && hi && t.FMin == math.Trunc(t.FMin) && math.Abs(t.FMin) < 1e6 && s.R.Intn(4) == 0:
			s.put(s.intTok(int64(t.FMin)))
			dots()
			f(t.FMax)
		case lo && hi && t.FMax == math.Trunc(t.FMax) && math.Abs(t.FMax) < 1e6 && s.R.Intn(4) == 0:
			f(t.FMin)
			dots()
			s.put(s.intTok(int64(t.FMax)))
		default:
			if lo || !hi || s.R.Intn(4) == 0 {
				f(t.FMin)
			}
			dots()
			if hi || !lo || s.R.Intn(4) == 0 {
				f(t.FMax)
			}
		}
	case TStrR:
		s.put(`string`, `[`)
		s.sizes(t.Min, t.Max, false)
		s.put(`]`)
	case TPat:
		s.put(slashed(t.S))
	case TCi:
		s.put(`~`, s.StrTok(t.S))
	case TMetaAny:
		s.put(`type`)
		if s.R.Intn(3) == 0 {
			s.put(`[`, `any`, `]`)
		}
	case TMeta:
		s.put(`type`, `[`)
		s.Type(t.Ts[0], 0)
		s.put(`]`)
	case TSensAny:
		s.put(`sensitive`)
		if s.R.Intn(3) == 0 {
			s.put(`[`, `any`, `]`)
		}
	case TSens:
		s.put(`sensitive`, `[`)
		s.Type(t.Ts[0], 0)
		s.put(`]`)
	case TExact:
		s.value(t.V)
	case TArr:
		s.put(`[`)
		if t.Min != 0 || t.Max != Inf {
			s.sizes(t.Min, t.Max, false)
		}
		s.put(`]`)
		s.Type(t.Ts[0], 3)
	case TMap:
		s.put(`map`, `[`)
		s.Type(t.Ts[0], 0)
		if t.Min != 0 || t.Max != Inf {
			s.sizes(t.Min, t.Max, true)
		}
		s.put(`]`)
		s.Type(t.Ts[1], 3)
	case TTuple:
		s.put(`{`)
		s.list(t)
		if !t.Variadic {
			s.end()
		}
		s.put(`}`)
	case TStruct:
		s.put(`{`)
		for i, e := range t.Entries {
			if i > 0 {
				s.put(`,`)
			}
			s.key(e.Key)
			if !e.Required {
				s.put(`?`)
			}
			s.put(`:`)
			s.Type(e.T, 0)
		}
		if t.Additional {
			if len(t.Entries) > 0 {
				s.put(`,`)
			}
			s.put(`...`)
		} else if len(t.Entries) > 0 {
			s.end()
		}
		s.put(`}`)
	case TAnyOf:
		ops(`|`, 1)
	case TOneOf:
		ops(`^`, 2)
	case TAllOf:
		ops(`&`, 3)
	case TNot:
		s.put(`!`)
		s.Type(t.Ts[0], 3)
	case TFunc:
		s.put(`func`, `(`)
		s.list(t.Ts[0])
		s.put(`)`)
		out := t.Ts[1]
		if len(out.Ts) == 1 && !out.Variadic && s.R.Intn(2) == 0 {
			at := len(s.toks)
			s.Type(out.Ts[0], 0)
			if s.toks[at] != `(` {
				break
			}
			// a parenthesis that follows the arguments starts a list of return types
			s.parens(at)
			break
		}
		if len(out.Ts) > 0 || s.R.Intn(3) == 0 {
			s.put(`(`)
			s.list(out)
			s.put(`)`)
		}
	default:
		panic(`no syntax for ` + t.String())
	}
}

func wordy(c byte) bool {
	return c == '_' || c == '$' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z'
}

var blanks = []string{` `, `  `, "\t", "\n", " \n\t"}

// Join joins the tokens using a random layout
func Join(r *rand.Rand, toks []string, comments bool) string {
	var sb strings.Builder
	style := r.Intn(3) // compact, random, spacious
	pad := func() {
		if style == 2 || style == 1 && r.Intn(3) == 0 {
			sb.WriteString(blanks[r.Intn(len(blanks))])
		}
		if comments && style != 0 && r.Intn(8) == 0 {
			sb.WriteString("# [comment] 'x\n")
		}
	}
	last := ``
	for _, t := range toks {
		if last == `` {
			pad()
		} else {
			n := sb.Len()
			pad()
			if sb.Len() == n && wordy(last[len(last)-1]) && wordy(t[0]) {
				sb.WriteByte(' ')
			}
		}
		sb.WriteString(t)
		last = t
	}
	pad()
	return sb.String()
}

// Render writes an expression for the type
func (s *Syntax) Render(t *T) string {
	s.toks = nil
	s.declared = map[*T]bool{}
	s.Type(t, 0)
	return Join(s.R, s.toks, false)
}

// RenderAliases writes an expression for the tuple of the given type and all aliased types, in which the names are only
// declared by the elements of the tuple
func (s *Syntax) RenderAliases(t *T, aliased []*T, first bool) string {
	s.toks = nil
	s.NoInline = true
	s.put(`{`)
	body := func() { s.element(t) }
	if first {
		for _, a := range aliased {
			s.put(s.Names[a], `=`)
			s.expr(a)
			s.put(`,`)
		}
		body()
	} else {
		body()
		for _, a := range aliased {
			s.put(`,`, s.Names[a], `=`)
			s.expr(a)
		}
	}
	s.put(`}`)
	return Join(s.R, s.toks, false)
}

// Pcore renders the type in the syntax of Puppet types. It returns false if there is no such notation.
func Pcore(r *rand.Rand, t *T) (string, bool) {
	p := &pcore{Syntax: Syntax{R: r, Plain: true}}
	if !p.expr(t) {
		return ``, false
	}
	return Join(r, p.toks, true), true
}

type pcore struct {
	Syntax
}

func (p *pcore) str(x string) string {
	if p.R.Intn(2) == 0 && utf8.ValidString(x) && strings.IndexFunc(x, func(c rune) bool { return c < ' ' || c == '\\' || c == '\'' }) < 0 {
		return `'` + x + `'`
	}
	return strconv.Quote(x)
}

func (p *pcore) int(i int64) string {
	if i >= 0 && p.R.Intn(6) == 0 {
		return `0x` + strconv.FormatInt(i, 16)
	}
	return strconv.FormatInt(i, 10)
}

func (p *pcore) scalar(v *V) bool {
	switch v.K {
	case KBool:
		p.put(map[bool]string{true: `True`, false: `False`}[v.B])
	case KInt:
		p.put(`Integer`, `[`, p.int(v.I), `,`, p.int(v.I), `]`)
	case KFloat:
		p.put(`Float`, `[`, p.floatTok(v.F), `,`, p.floatTok(v.F), `]`)
	case KStr:
		p.put(`Enum`, `[`, p.str(v.S), `]`)
	default:
		return false
	}
	return true
}

func (p *pcore) list(ts []*T) bool {
	for i, o := range ts {
		if i > 0 {
			p.put(`,`)
		}
		if !p.expr(o) {
			return false
		}
	}
	return true
}

func (p *pcore) expr(t *T) bool {
	word := func(w string) bool {
		p.put(w)
		return true
	}
	sizes := func(min, max int64, comma bool) {
		if comma {
			p.put(`,`)
		}
		if min == 0 && p.R.Intn(4) == 0 {
			p.put(`default`)
		} else {
			p.put(p.int(min))
		}
		if max != Inf {
			p.put(`,`, p.int(max))
		} else if p.R.Intn(4) == 0 {
			p.put(`,`, `default`)
		}
	}
	switch t.K {
	case TAny:
		return word(`Any`)
	case TNil:
		return word(`Undef`)
	case TBool:
		return word(`Boolean`)
	case TInt:
		return word(`Integer`)
	case TFloat:
		return word(`Float`)
	case TStr:
		return word(`String`)
	case TBin:
		return word(`Binary`)
	case TTime:
		return word(`Timestamp`)
	case TRegexp:
		return word(`Regexp`)
	case TMetaAny:
		return word(`Type`)
	case TSensAny:
		return word(`Sensitive`)
	case TIntR:
		if !t.Incl {
			return false
		}
		p.put(`Integer`, `[`)
		if t.Min == math.MinInt64 {
			p.put(`default`)
		} else {
			p.put(p.int(t.Min))
		}
		if t.Max != Inf {
			p.put(`,`, p.int(t.Max))
		} else if p.R.Intn(2) == 0 {
			p.put(`,`, `default`)
		}
		p.put(`]`)
	case TFloatR:
		if !t.Incl {
			return false
		}
		p.put(`Float`, `[`)
		if t.FMin == -math.MaxFloat64 {
			p.put(`default`)
		} else {
			p.put(p.floatTok(t.FMin))
		}
		if t.FMax != math.MaxFloat64 {
			p.put(`,`, p.floatTok(t.FMax))
		} else if p.R.Intn(2) == 0 {
			p.put(`,`, `default`)
		}
		p.put(`]`)
	case TStrR:
		p.put(`String`, `[`, p.int(t.Min))
		if t.Max != Inf {
			p.put(`,`, p.int(t.Max))
		}
		p.put(`]`)
	case TBinR:
		p.put(`Binary`, `[`)
		sizes(t.Min, t.Max, false)
		p.put(`]`)
	case TPat:
		p.put(`Pattern`, `[`)
		if p.R.Intn(3) == 0 {
			p.put(p.str(t.S))
		} else {
			p.put(slashed(t.S))
		}
		p.put(`]`)
	case TCi:
		p.put(`Enum`, `[`, p.str(t.S), `,`, `true`, `]`)
	case TMeta:
		p.put(`Type`, `[`)
		if !p.expr(t.Ts[0]) {
			return false
		}
		p.put(`]`)
	case TSens:
		p.put(`Sensitive`, `[`)
		if !p.expr(t.Ts[0]) {
			return false
		}
		p.put(`]`)
	case TExact:
		return p.scalar(t.V)
	case TArr:
		p.put(`Array`)
		if t.Ts[0].K == TAny && t.Min == 0 && t.Max == Inf && p.R.Intn(2) == 0 {
			return true
		}
		p.put(`[`)
		if t.Ts[0].K == TAny && p.R.Intn(2) == 0 {
			sizes(t.Min, t.Max, false)
		} else {
			if !p.expr(t.Ts[0]) {
				return false
			}
			if t.Min != 0 || t.Max != Inf {
				sizes(t.Min, t.Max, true)
			}
		}
		p.put(`]`)
	case TMap:
		p.put(`Hash`)
		if t.Ts[0].K == TAny && t.Ts[1].K == TAny && t.Min == 0 && t.Max == Inf && p.R.Intn(2) == 0 {
			return true
		}
		p.put(`[`)
		if t.Ts[0].K == TAny && t.Ts[1].K == TAny && p.R.Intn(2) == 0 {
			sizes(t.Min, t.Max, false)
		} else {
			if !p.list(t.Ts) {
				return false
			}
			if t.Min != 0 || t.Max != Inf {
				sizes(t.Min, t.Max, true)
			}
		}
		p.put(`]`)
	case TTuple:
		if len(t.Ts) == 0 {
			return false
		}
		p.put(`Tuple`, `[`)
		if !p.list(t.Ts) {
			return false
		}
		if t.Variadic {
			p.put(`,`, p.int(int64(len(t.Ts)-1)), `,`, `default`)
		}
		p.put(`]`)
	case TStruct:
		if t.Additional {
			return false
		}
		p.put(`Struct`, `[`, `{`)
		for i, e := range t.Entries {
			if i > 0 {
				p.put(`,`)
			}
			if e.Key.K != KStr {
				return false
			}
			k := p.str(e.Key.S)
			if p.R.Intn(2) == 0 && len(e.Key.S) == 1 && e.Key.S >= `a` && e.Key.S <= `z` {
				k = e.Key.S
			}
			if e.Required {
				p.put(k)
			} else {
				p.put(`Optional`, `[`, k, `]`)
			}
			p.put(`=>`)
			if !p.expr(e.T) {
				return false
			}
		}
		p.put(`}`, `]`)
	case TAnyOf:
		if len(t.Ts) == 2 && t.Ts[0].K == TNil && p.R.Intn(2) == 0 && !t.Ts[1].Accept(&V{K: KNil}) {
			p.put(`Optional`, `[`)
			if !p.expr(t.Ts[1]) {
				return false
			}
			p.put(`]`)
			break
		}
		p.put(`Variant`, `[`)
		if !p.list(t.Ts) {
			return false
		}
		p.put(`]`)
	case TNot:
		if t.Ts[0].K != TNil {
			return false
		}
		p.put(`NotUndef`)
	case TFunc:
		in, out := t.Ts[0], t.Ts[1]
		if len(in.Ts) == 0 || len(out.Ts) > 1 || out.Variadic {
			return false
		}
		for _, x := range in.Ts {
			if x.K == TFunc {
				return false // a trailing function is a block
			}
		}
		p.put(`Callable`, `[`)
		if len(out.Ts) == 1 {
			p.put(`[`)
		}
		if !p.list(in.Ts) {
			return false
		}
		if in.Variadic {
			p.put(`,`, p.int(int64(len(in.Ts)-1)), `,`, `default`)
		}
		if len(out.Ts) == 1 {
			p.put(`]`, `,`)
			if !p.expr(out.Ts[0]) {
				return false
			}
		}
		p.put(`]`)
	default:
		return false
	}
	return true
}
