package checks

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C13`, Scale: 30, Rule: `a parsed expression; distinct by text`, Run: runC13})
}

// parsePcoreAlone parses a Puppet type without any effect on the default aliases
func parsePcoreAlone(am dgo.AliasMap, s string) (t dgo.Type, err interface{}) {
	err = mon.Catch(func() {
		am.Collect(func(a dgo.AliasAdder) {
			t = typ.AsType(pcore.ParseFile(a, ``, s))
		})
	})
	return
}

// meansSame checks that a parsed type is the type that the model denotes
func meansSame(c *mon.Ctx, r *rand.Rand, what, s string, p dgo.Type, m *gen.T, samples int) {
	meansSameAs(c, r, what, s, p, m, samples, false)
}

// meansSameAs is like meansSame. Equality isn't required if loose is true
func meansSameAs(c *mon.Ctx, r *rand.Rand, what, s string, p dgo.Type, m *gen.T, samples int, loose bool) {
	t := m.Canonical()
	d := func() string {
		return fmt.Sprintf("expression %q\nparsed as %s (%T)\nexpected %s (%T)\nmodel %s", s, p, p, t, t, m)
	}
	c.Count(`expressions`, 1)
	if c.Seen(s) {
		c.Count(`operators and delimiters in distinct expressions`, strings.Count(s, `|`)+strings.Count(s, `&`)+strings.Count(s, `^`)+strings.Count(s, `!`)+strings.Count(s, `(`))
	}
	if !loose && (!p.Equals(t) || !t.Equals(p)) {
		c.Fail(what+`: another type than the one composed with the factory functions`, "%s", d())
	}
	if !loose && p.HashCode() != t.HashCode() {
		c.Fail(what+`: the parsed type has another hash code than the one composed with the factory functions`, "%s", d())
	}
	if loose && m.Has(func(x *gen.T) bool { return x.K == gen.TMeta }) {
		return // assignability isn't complete
	}
	for i := 0; i < samples; i++ {
		v := m.GenFor(r)
		if i%2 == 1 {
			v = gen.Tweak(r, v)
		}
		e := m.Accept(v)
		c.Count(`instance checks`, 1)
		c.Count([]string{`rejected`, `accepted`}[b2i(e)], 1)
		if p.Instance(v.Build(r, false)) != e {
			c.Fail(what+`: the parsed type accepts other values`, "value %s, expected %v\n%s", v, e, d())
		}
	}
}

// typeParts returns the nested types that are expressions of their own, each after the type that contains it
func typeParts(t *gen.T) []*gen.T {
	var ps []*gen.T
	add := func(x *gen.T) { ps = append(append(ps, x), typeParts(x)...) }
	for _, x := range t.Ts {
		if t.K == gen.TFunc {
			ps = append(ps, typeParts(x)...)
		} else {
			add(x)
		}
	}
	for _, e := range t.Entries {
		add(e.T)
	}
	return ps
}

// share replaces nested types by others so that the same part is used more than once
func share(r *rand.Rand, t *gen.T) []*gen.T {
	var aliased []*gen.T
	for n := 1 + r.Intn(3); n > 0; n-- {
		ps := typeParts(t)
		if len(ps) == 0 {
			return nil
		}
		a := ps[r.Intn(len(ps))]
		for k := r.Intn(3); k > 0; k-- {
			replacePart(r, t, a)
		}
		aliased = append(aliased, a)
	}
	// what has been replaced is gone
	left := map[*gen.T]bool{}
	for _, x := range typeParts(t) {
		left[x] = true
	}
	var as []*gen.T
	for _, a := range aliased {
		if left[a] {
			left[a] = false
			as = append(as, a)
		}
	}
	return as
}

// contains returns true if x is t or a part of t
func contains(t, x *gen.T) bool {
	if t == x {
		return true
	}
	for _, p := range typeParts(t) {
		if p == x {
			return true
		}
	}
	return false
}

// replacePart replaces one part of t, which neither contains a nor is contained in it, with a
func replacePart(r *rand.Rand, t, a *gen.T) {
	var slots []**gen.T
	var walk func(t *gen.T)
	walk = func(t *gen.T) {
		if t == a {
			return
		}
		for i := range t.Ts {
			if t.K != gen.TFunc && !contains(a, t.Ts[i]) && !contains(t.Ts[i], a) {
				slots = append(slots, &t.Ts[i])
			}
			walk(t.Ts[i])
		}
		for i := range t.Entries {
			if !contains(a, t.Entries[i].T) && !contains(t.Entries[i].T, a) {
				slots = append(slots, &t.Entries[i].T)
			}
			walk(t.Entries[i].T)
		}
	}
	walk(t)
	if len(slots) > 0 {
		*slots[r.Intn(len(slots))] = a
	}
}

var syntaxAliases = []string{`ascii`, `slug`, `$x`, `_y`, `integer`, `anything`, `Types`, `a1`, `T_2$`}

// documented are the expressions of docs/types.md
var documented = func() map[string]*gen.T {
	k := func(k gen.TK, ts ...*gen.T) *gen.T { return &gen.T{K: k, Ts: ts} }
	str, integer, flt, null, all := k(gen.TStr), k(gen.TInt), k(gen.TFloat), k(gen.TNil), k(gen.TAny)
	ex := func(v *gen.V) *gen.T { return &gen.T{K: gen.TExact, V: v} }
	pat := func(s string) *gen.T { return &gen.T{K: gen.TPat, S: s} }
	ir := func(a, b int64, incl bool) *gen.T { return &gen.T{K: gen.TIntR, Min: a, Max: b, Incl: incl} }
	fr := func(a, b float64, incl bool) *gen.T { return &gen.T{K: gen.TFloatR, FMin: a, FMax: b, Incl: incl} }
	ss := func(a, b int64) *gen.T { return &gen.T{K: gen.TStrR, Min: a, Max: b} }
	arr := func(e *gen.T, a, b int64) *gen.T { return &gen.T{K: gen.TArr, Ts: []*gen.T{e}, Min: a, Max: b} }
	mp := func(kt, vt *gen.T, a, b int64) *gen.T {
		return &gen.T{K: gen.TMap, Ts: []*gen.T{kt, vt}, Min: a, Max: b}
	}
	st := func(es ...interface{}) *gen.T {
		t := &gen.T{K: gen.TStruct}
		for i := 0; i < len(es); i += 2 {
			n := es[i].(string)
			req := !strings.HasSuffix(n, `?`)
			t.Entries = append(t.Entries, gen.StructEntry{Key: gen.Str(strings.TrimSuffix(n, `?`)), T: es[i+1].(*gen.T), Required: req})
		}
		return t
	}
	address := st(`name`, str, `co?`, str, `address`, str, `zip`, pat(`\d{5,5}`), `city`, str)
	slug, ascii := pat(`^[a-z0-9-]+$`), ir(1, 127, true)
	return map[string]*gen.T{
		`nil`: null, `bool`: k(gen.TBool), `true`: ex(gen.Bool(true)), `false`: ex(gen.Bool(false)), `string`: str, `int`: integer, `float`: flt, `any`: all,
		`string[10,12]`:                   ss(10, 12),
		`/.*abc.*/`:                       pat(`.*abc.*`),
		`"abc"`:                           ex(gen.Str(`abc`)),
		`~"abc"`:                          {K: gen.TCi, S: `abc`},
		`3..28`:                           ir(3, 28, true),
		`3...28`:                          ir(3, 28, false),
		`0..`:                             ir(0, gen.Inf, true),
		`-1.2..3.8`:                       fr(-1.2, 3.8, true),
		`-1.2...3.8`:                      fr(-1.2, 3.8, false),
		`[]int`:                           arr(integer, 0, gen.Inf),
		`[]0..15`:                         arr(ir(0, 15, true), 0, gen.Inf),
		`[1,10]any`:                       arr(all, 1, 10),
		`[1,10]string[1]`:                 arr(ss(1, gen.Inf), 1, 10),
		`{0..3,string,float}`:             k(gen.TTuple, ir(0, 3, true), str, flt),
		`map[string]int`:                  mp(str, integer, 0, gen.Inf),
		`map[string](string|int)`:         mp(str, k(gen.TAnyOf, str, integer), 0, gen.Inf),
		`map[string](string|nil)`:         mp(str, k(gen.TAnyOf, str, null), 0, gen.Inf),
		`map[string|int]any`:              mp(k(gen.TAnyOf, str, integer), all, 0, gen.Inf),
		`map[/\A[A-Z]+\z/,1,10]string[1]`: mp(pat(`\A[A-Z]+\z`), ss(1, gen.Inf), 1, 10),
		`{name:string,co?:string,address:string,zip:/\d{5,5}/,city:string}`:           address,
		`{"name":string,"co"?:string,"address":string,"zip":/\d{5,5}/,"city":string}`: address,
		`/^Ap/&string[20]`: k(gen.TAllOf, pat(`^Ap`), ss(20, gen.Inf)),
		`"a"|"b"|"c"`:      k(gen.TAnyOf, ex(gen.Str(`a`)), ex(gen.Str(`b`)), ex(gen.Str(`c`))),
		`int|float`:        k(gen.TAnyOf, integer, flt),
		`1|8|10|16`:        k(gen.TAnyOf, ex(gen.Int(1)), ex(gen.Int(8)), ex(gen.Int(10)), ex(gen.Int(16))),
		`!string`:          k(gen.TNot, str),
		"{\n  types: {\n    ascii=1..127,\n    slug=/^[a-z0-9-]+$/\n  },\n  x: map[slug]{token:ascii,value:string}\n}": st(`types`, k(gen.TTuple, ascii, slug), `x`, mp(slug, st(`token`, ascii, `value`, str), 0, gen.Inf)),
	}
}()

func runC13(c *mon.Ctx) {
	var names []string
	for s := range documented {
		names = append(names, s)
	}
	c.Run(`documented`, c.N(10, 200), func(r *rand.Rand, i int) {
		for _, s := range names {
			p, err := parseAlone(tf.BuiltInAliases(), s)
			if err != nil {
				c.Violate(`documented expression: not accepted`, "%q: %v", s, err)
				continue
			}
			meansSame(c, r, `documented expression`, s, p, documented[s], 20)
		}
	})
	c.Run(`types`, c.N(12000, 500000), func(r *rand.Rand, i int) {
		m := unlistedSyntax(r, &gen.TCfg{Depth: r.Intn(5), Lang: true})
		sx := &gen.Syntax{R: r, Plain: r.Intn(3) == 0}
		s := sx.Render(m)
		p, err := parseAlone(tf.BuiltInAliases(), s)
		if err != nil {
			c.Fail(`expression: not accepted (`+errClass(err)+`)`, "%v\n%q\nmodel %s", err, s, m)
		}
		meansSame(c, r, `expression`, s, p, m, 6)
		if i < 3 {
			c.Sample(s)
		}
		if r.Intn(3) == 0 {
			// another layout of the same type
			s2 := sx.Render(m)
			if p2, err := parseAlone(tf.BuiltInAliases(), s2); err != nil || !p2.Equals(p) || p2.String() != p.String() {
				c.Fail(`two expressions of the same type differ`, "%q and %q\n%v and %v, error %v", s, s2, p, p2, err)
			}
		}
	})
	c.Run(`operators`, c.N(8000, 300000), func(r *rand.Rand, i int) {
		var mk func(depth int) *gen.T
		leaf := []gen.TK{gen.TInt, gen.TStr, gen.TBool, gen.TFloat, gen.TNil}
		mk = func(depth int) *gen.T {
			if depth == 0 || r.Intn(6) == 0 {
				switch r.Intn(8) {
				case 0:
					return &gen.T{K: gen.TExact, V: gen.Int(int64(r.Intn(3)))}
				case 1:
					return &gen.T{K: gen.TCi, S: `a`}
				}
				return &gen.T{K: leaf[r.Intn(len(leaf))]}
			}
			switch r.Intn(8) {
			case 0:
				if o := mk(depth - 1); o.K != gen.TNot {
					return &gen.T{K: gen.TNot, Ts: []*gen.T{o}}
				}
				return mk(depth - 1)
			case 1:
				return &gen.T{K: gen.TArr, Max: gen.Inf, Ts: []*gen.T{mk(depth - 1)}}
			case 2:
				return &gen.T{K: gen.TMap, Max: gen.Inf, Ts: []*gen.T{mk(depth - 1), mk(depth - 1)}}
			}
			t := &gen.T{K: []gen.TK{gen.TAllOf, gen.TAnyOf, gen.TOneOf}[r.Intn(3)]}
			for n := 2 + r.Intn(2); n > 0; n-- {
				t.Ts = append(t.Ts, mk(depth-1))
			}
			return t
		}
		m := mk(1 + r.Intn(4))
		s := (&gen.Syntax{R: r, Plain: r.Intn(2) == 0}).Render(m)
		p, err := parseAlone(tf.BuiltInAliases(), s)
		if err != nil {
			c.Fail(`operators: not accepted (`+errClass(err)+`)`, "%v\n%q\nmodel %s", err, s, m)
		}
		meansSame(c, r, `operators`, s, p, m, 4)
	})
	c.Run(`literals`, c.N(6000, 300000), func(r *rand.Rand, i int) {
		m := literalType(r, r.Intn(3))
		if noSyntax(m) {
			return
		}
		s := (&gen.Syntax{R: r}).Render(m)
		if strings.Contains(s, "\x00") {
			return
		}
		p, err := parseAlone(tf.BuiltInAliases(), s)
		if err != nil {
			c.Fail(`literals: not accepted (`+errClass(err)+`)`, "%v\n%q\nmodel %s", err, s, m)
		}
		meansSame(c, r, `literals`, s, p, m, 3)
	})
	c.Run(`aliases`, c.N(8000, 300000), func(r *rand.Rand, i int) {
		m := unlistedSyntax(r, &gen.TCfg{Depth: 2 + r.Intn(3), Lang: true})
		as := share(r, m)
		if len(as) == 0 {
			return
		}
		sx := &gen.Syntax{R: r, Names: map[*gen.T]string{}}
		perm := r.Perm(len(syntaxAliases))
		for j, a := range as {
			sx.Names[a] = syntaxAliases[perm[j]]
		}
		c.Count(`aliases`, len(as))
		var s, what string
		switch r.Intn(3) {
		case 0:
			what = `alias declared at its first use`
			s = sx.Render(m)
		case 1:
			what = `alias declared before it is used`
			s = sx.RenderAliases(m, as, true)
			m = &gen.T{K: gen.TTuple, Ts: append(append([]*gen.T{}, as...), m)}
		default:
			what = `alias used before it is declared`
			s = sx.RenderAliases(m, as, false)
			m = &gen.T{K: gen.TTuple, Ts: append([]*gen.T{m}, as...)}
		}
		p, err := parseAlone(tf.BuiltInAliases(), s)
		if err != nil {
			c.Fail(what+`: not accepted (`+errClass(err)+`)`, "%v\n%q\nmodel %s", err, s, m)
		}
		// the factory functions simplify types with exact, unconstrained, and negated parts but when a part is referenced
		// before it is declared, it isn't known to be one
		loose := false
		for _, a := range as {
			loose = loose || a.K == gen.TAny || a.K == gen.TNot || dgo.IsExact(a.Canonical())
		}
		meansSameAs(c, r, what, s, p, m, 4, loose)
		if i < 3 {
			c.Sample(s)
		}
	})
	c.Run(`positions`, c.N(2500, 60000), func(r *rand.Rand, i int) { c13Positions(c, r, i) })
	c.Run(`pcore`, c.N(12000, 400000), func(r *rand.Rand, i int) {
		var m *gen.T
		var s string
		for n := 0; ; n++ {
			m = unlistedSyntax(r, &gen.TCfg{Depth: r.Intn(4), NoOne: true, Lang: r.Intn(2) == 0})
			var ok bool
			if s, ok = gen.Pcore(r, m); ok {
				break
			}
		}
		p, err := parsePcoreAlone(tf.BuiltInAliases(), s)
		if err != nil {
			c.Fail(`puppet type: not accepted (`+errClass(err)+`)`, "%v\n%q\nmodel %s", err, s, m)
		}
		meansSame(c, r, `puppet type`, s, p, m, 6)
		if i < 3 {
			c.Sample(s)
		}
	})
	c13Pcore(c)
	c13Literals(c)
	c.Run(`pcore literals`, c.N(4000, 200000), func(r *rand.Rand, i int) {
		m := literalType(r, r.Intn(3))
		if noSyntax(m) {
			return
		}
		s, ok := gen.Pcore(r, m)
		if !ok {
			return
		}
		p, err := parsePcoreAlone(tf.BuiltInAliases(), s)
		if err != nil {
			c.Fail(`puppet literals: not accepted (`+errClass(err)+`)`, "%v\n%q\nmodel %s", err, s, m)
		}
		meansSame(c, r, `puppet literals`, s, p, m, 3)
	})
	c.Run(`malformed`, c.N(4000, 100000), func(r *rand.Rand, i int) {
		// an operator without operand, an unbalanced delimiter, or two expressions are never accepted
		m := unlistedSyntax(r, &gen.TCfg{Depth: r.Intn(3), Lang: true, NoSens: true, NoFunc: true})
		s := (&gen.Syntax{R: r}).Render(m)
		if strings.HasSuffix(strings.TrimSpace(s), `.`) {
			s = `(` + s + `)` // what follows could be a bound of the range
		}
		bad := []string{s + ` |`, s + `&`, `^` + s, `(` + s, s + `)`, `{` + s, s + `}`, `[` + s, `(` + s + `) (` + s + `)`, s + `,` + s, `map[` + s + `]`, `[1` + s, `{a:` + s + `,` + s + `}`, s + `!`, `type[` + s, `map(` + s, s + `||` + s}[r.Intn(17)]
		p, err := parseAlone(tf.BuiltInAliases(), bad)
		c.Count(`malformed expressions`, 1)
		if err == nil {
			c.Fail(`a malformed expression is accepted`, "%q parsed as %s", bad, p)
		}
	})
}

// unlistedSyntax generates a type that has an expression
func unlistedSyntax(r *rand.Rand, cfg *gen.TCfg) *gen.T {
	for {
		m := gen.GenType(r, cfg)
		if !noSyntax(m) {
			return m
		}
	}
}

func noSyntax(m *gen.T) bool {
	return m.Has(func(x *gen.T) bool {
		return x.K == gen.TPat && (strings.ContainsAny(x.S, "\n\x00") || strings.Contains(x.S, `\/`)) || x.K == gen.TSens && listedC11(x)
	})
}
