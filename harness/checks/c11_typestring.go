package checks

import (
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/stringer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C11`, Scale: 40, Rule: `a type whose text was parsed back; distinct by text`, Run: runC11})
}

// parseAlone parses a text without any effect on the default aliases
func parseAlone(am dgo.AliasMap, s string) (t dgo.Type, err interface{}) {
	err = mon.Catch(func() {
		am.Collect(func(a dgo.AliasAdder) {
			t = typ.AsType(tf.ParseFile(a, ``, s))
		})
	})
	return
}

func errClass(e interface{}) string {
	s := fmt.Sprint(e)
	if i := strings.Index(s, `: (column`); i > 0 {
		s = s[:i]
	}
	for _, p := range []string{`illegal escape`, `unterminated`, `unexpected character`, `expected`, `reference to unresolved`, `mix of`, `error parsing regexp`, `runtime error`, `unexpected end`} {
		if strings.Contains(s, p) {
			if p == `expected` {
				if i := strings.Index(s, `, got `); i > 0 {
					return s[:i]
				}
			}
			return p
		}
	}
	return s
}

// roundTrip checks the text of one type
func roundTrip(c *mon.Ctx, r *rand.Rand, what string, t, again dgo.Type, m *gen.T, samples int) {
	s := t.String()
	d := func() string { return fmt.Sprintf("text %q of type %T, model %s", s, t, m) }
	if t.String() != s || again.String() != s {
		c.Fail(what+`: the text is not stable`, "again %q, rebuilt %q\n%s", t, again, d())
	}
	c.Seen(s)
	p, err := parseAlone(tf.BuiltInAliases(), s)
	if err != nil {
		c.Fail(what+`: the text is not accepted by the parser (`+errClass(err)+`)`, "%v\n%s", err, d())
	}
	c.Count(`parsed`, 1)
	if !p.Equals(t) || !t.Equals(p) {
		c.Fail(what+`: the text parses to another type`, "parsed %s (%T)\n%s", p, p, d())
	}
	if p.HashCode() != t.HashCode() {
		c.Fail(what+`: the parsed type has another hash code`, "parsed %s (%T)\n%s", p, p, d())
	}
	if ps := p.String(); ps != s {
		c.Fail(what+`: the parsed type has another text`, "parsed %s (%T)\n%s", ps, p, d())
	}
	if !p.Assignable(t) || !t.Assignable(p) {
		c.Fail(what+`: the parsed type is not mutually assignable`, "parsed %s (%T)\n%s", p, p, d())
	}
	if m == nil {
		return
	}
	for i := 0; i < samples; i++ {
		v := m.GenFor(r)
		if i%2 == 1 {
			v = gen.Tweak(r, v)
		}
		x := v.Build(r, false)
		e, a, b := m.Accept(v), t.Instance(x), p.Instance(x)
		c.Count(`instance checks`, 1)
		if a != b || e != b {
			c.Fail(what+`: the parsed type accepts other values`, "value %s: reference %v, original type %v, parsed type %v\n%s", v, e, a, b, d())
		}
	}
}

// listedC11 returns true if the type contains something that is reported by a probe of the phase listed: the
// sensitive type of a literal, and patterns with backslashes or control characters.
func listedC11(m *gen.T) bool {
	return m.Has(func(x *gen.T) bool {
		switch x.K {
		case gen.TPat:
			return strings.IndexFunc(x.S, func(r rune) bool { return r < ' ' || r == '\\' }) >= 0
		case gen.TSens:
			if len(x.Ts) == 1 {
				switch x.Ts[0].K {
				case gen.TNil:
					return true
				case gen.TExact:
					return len(x.Ts[0].V.E) == 0 && len(x.Ts[0].V.Keys) == 0
				}
			}
		}
		return false
	})
}

func unlisted(g func() *gen.T) *gen.T {
	for {
		if m := g(); !listedC11(m) {
			return m
		}
	}
}

var hostileRunes = []rune{'"', '\'', '\\', '/', '`', '\n', '\r', '\t', 0, 1, 7, 8, 0x0b, 0x0c, 0x1b, 0x1f, ' ', 'a', 'b', 'Z', '0', '9', '$', '{', '}', '[', ']', '(', ')', '|', '&', '^', '!', '~', '?', ':', ',', '.', '=', '<', '>',
	0x7f, 0x80, 0xa0, 0xad, 0xe9, 0x301, 0x2028, 0x202e, 0x3042, 0xfeff, 0xfffd, 0xfffe, 0x1f600, 0xe0001, 0x10ffff, 'n', 't', 'x', 'u', 'd', 'w', '-', '+', '*'}

func hostileString(r *rand.Rand, invalid bool) string {
	var sb strings.Builder
	n := r.Intn(9)
	for i := 0; i < n; i++ {
		if invalid && r.Intn(6) == 0 {
			sb.WriteByte(byte(r.Intn(256)))
			continue
		}
		if r.Intn(8) == 0 {
			if x := rune(r.Intn(0x3000)); utf8.ValidRune(x) {
				sb.WriteRune(x)
			}
			continue
		}
		sb.WriteRune(hostileRunes[r.Intn(len(hostileRunes))])
	}
	return sb.String()
}

var rxParts = []string{`a`, `\d`, `\\`, `/`, `\/`, "\t", "\n", "\r", `\t`, `\n`, `\.`, `[a-z]`, `[/]`, `[^/\\]`, `(?i)x`, `(a|b)`, `\x{41}`, `\pL`, `\x01`, "\x01", "\x7f", `é`, `日`, `"`, `'`, `.`, `*`, `+`, `?`, `^`, `$`, `\A`, `\z`, ` `, `{2}`, "\u2028", "\x00", `\Q/\E`, `\Q\\E`}

func hostilePattern(r *rand.Rand) string {
	for {
		var sb strings.Builder
		for n := r.Intn(7); n > 0; n-- {
			sb.WriteString(rxParts[r.Intn(len(rxParts))])
		}
		if _, err := regexp.Compile(sb.String()); err == nil {
			return sb.String()
		}
	}
}

func anyFloat(r *rand.Rand) float64 {
	for {
		f := math.Float64frombits(r.Uint64())
		switch r.Intn(4) {
		case 0:
			f = gen.Floats[r.Intn(len(gen.Floats))]
		case 1:
			f = float64(r.Intn(2000)-1000) / float64(int(1)<<uint(r.Intn(8)))
		case 2:
			f = r.NormFloat64() * math.Pow(10, float64(r.Intn(40)-20))
		}
		if !math.IsNaN(f) && !math.IsInf(f, 0) {
			return f
		}
	}
}

func anyInt(r *rand.Rand) int64 {
	switch r.Intn(4) {
	case 0:
		return gen.BigInts[r.Intn(len(gen.BigInts))]
	case 1:
		return gen.Ints[r.Intn(len(gen.Ints))]
	case 2:
		return int64(r.Intn(200) - 100)
	default:
		return int64(r.Uint64()) >> uint(r.Intn(64))
	}
}

// literalType generates a type with hostile literals
func literalType(r *rand.Rand, depth int) *gen.T {
	if depth > 0 && r.Intn(2) == 0 {
		l := func() *gen.T { return literalType(r, depth-1) }
		switch r.Intn(9) {
		case 0:
			return &gen.T{K: gen.TArr, Max: gen.Inf, Ts: []*gen.T{l()}}
		case 1:
			return &gen.T{K: gen.TTuple, Ts: []*gen.T{l(), l()}, Variadic: r.Intn(2) == 0}
		case 2:
			return &gen.T{K: gen.TMap, Min: int64(r.Intn(2)), Max: gen.Inf, Ts: []*gen.T{l(), l()}}
		case 3:
			return &gen.T{K: gen.TAnyOf, Ts: []*gen.T{l(), l()}}
		case 4:
			t := &gen.T{K: gen.TStruct, Additional: r.Intn(2) == 0}
			var ks []*gen.V
			for n := r.Intn(3); n > 0; n-- {
				k := literalKey(r)
				dup := false
				for _, x := range ks {
					dup = dup || gen.Eq(x, k)
				}
				if !dup {
					ks = append(ks, k)
					t.Entries = append(t.Entries, gen.StructEntry{Key: k, T: l(), Required: r.Intn(2) == 0})
				}
			}
			return t
		case 5:
			o := l()
			if o.K == gen.TNot {
				return o
			}
			return &gen.T{K: gen.TNot, Ts: []*gen.T{o}}
		case 6:
			return &gen.T{K: gen.TSens, Ts: []*gen.T{l()}}
		case 7:
			return &gen.T{K: gen.TFunc, Ts: []*gen.T{{K: gen.TTuple, Ts: []*gen.T{l()}}, {K: gen.TTuple, Ts: []*gen.T{l()}}}}
		default:
			return &gen.T{K: gen.TMeta, Ts: []*gen.T{l()}}
		}
	}
	switch r.Intn(8) {
	case 0, 1:
		return &gen.T{K: gen.TExact, V: literalKey(r)}
	case 2:
		return &gen.T{K: gen.TPat, S: hostilePattern(r)}
	case 3:
		return &gen.T{K: gen.TCi, S: hostileString(r, false)}
	case 4:
		a, b := anyInt(r), anyInt(r)
		switch r.Intn(4) {
		case 0:
			a = math.MinInt64
		case 1:
			b = math.MaxInt64
		case 2:
			if r.Intn(10) == 0 {
				return &gen.T{K: gen.TIntR, Min: math.MinInt64, Max: math.MaxInt64, Incl: false}
			}
		}
		if a > b {
			a, b = b, a
		}
		if a == b || a == math.MinInt64 && b == math.MaxInt64 {
			return &gen.T{K: gen.TExact, V: gen.Int(a)}
		}
		return &gen.T{K: gen.TIntR, Min: a, Max: b, Incl: r.Intn(2) == 0}
	case 5:
		a, b := anyFloat(r), anyFloat(r)
		switch r.Intn(4) {
		case 0:
			a = -math.MaxFloat64
		case 1:
			b = math.MaxFloat64
		case 2:
			if r.Intn(10) == 0 {
				return &gen.T{K: gen.TFloatR, FMin: -math.MaxFloat64, FMax: math.MaxFloat64, Incl: false}
			}
		}
		if a > b {
			a, b = b, a
		}
		if a == b || a == -math.MaxFloat64 && b == math.MaxFloat64 {
			return &gen.T{K: gen.TExact, V: gen.Float(a)}
		}
		return &gen.T{K: gen.TFloatR, FMin: a, FMax: b, Incl: r.Intn(2) == 0}
	case 6:
		if r.Intn(2) == 0 {
			return &gen.T{K: gen.TExact, V: gen.MapKV(literalKey(r), literalKey(r))}
		}
		return &gen.T{K: gen.TExact, V: gen.Arr(literalKey(r), literalKey(r))}
	default:
		t := &gen.T{K: gen.TStrR, Min: int64(r.Intn(5) + 1), Max: gen.Inf}
		if r.Intn(2) == 0 {
			t.Max = t.Min + int64(r.Intn(1<<20))
		}
		return t
	}
}

func literalKey(r *rand.Rand) *gen.V {
	switch r.Intn(8) {
	case 0:
		return gen.Int(anyInt(r))
	case 1:
		return gen.Float(anyFloat(r))
	case 2:
		return gen.Bool(r.Intn(2) == 0)
	case 3:
		return gen.Str([]string{`int`, `string`, `true`, `nil`, `map`, `func`, `type`, `data`, `any`, `sensitive`, `x`}[r.Intn(11)])
	default:
		return gen.Str(hostileString(r, true))
	}
}

// aliasNames are given to types in the alias phase
var aliasNames = []string{`alpha`, `beta`, `gamma`, `delta$1`, `_eps`, `Zeta9`}

// aliasKey matches an alias, or some other literal key, that is the key of a struct or an exact map
var aliasKey = regexp.MustCompile(`[{,](alpha|beta|gamma|delta\$1|_eps|Zeta9)\??:`)

func runC11(c *mon.Ctx) {
	c.Run(`listed`, 4, func(r *rand.Rand, i int) {
		if i == 3 {
			t := tf.StructMap(false, tf.StructMapEntry(`key`, typ.Integer, true))
			am := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { a.Add(vf.String(`key`).Type(), vf.String(`alpha`)) })
			s := stringer.TypeStringWithAliasMap(t, am)
			p, err := parseAlone(am, s)
			if err != nil || !p.Equals(t) {
				c.Fail(`the text does not denote the type: an aliased type as key`, "text %s, error %v, parsed %v", s, err, p)
			}
			return
		}
		m := &gen.T{K: gen.TSens, Ts: []*gen.T{{K: gen.TExact, V: gen.Int(34)}}}
		what := `the sensitive type of a literal`
		if i > 0 {
			what = `a pattern with a backslash or control character`
			m = &gen.T{K: gen.TPat, S: []string{`\d`, "a\tb"}[i-1]}
		}
		t := m.Canonical()
		p, err := parseAlone(tf.BuiltInAliases(), t.String())
		if err != nil || !p.Equals(t) {
			c.Fail(`the text does not denote the type: `+what, "text %s, error %v, parsed %v", t, err, p)
		}
	})
	c.Run(`types`, c.N(6000, 400000), func(r *rand.Rand, i int) {
		m := unlisted(func() *gen.T { return gen.GenType(r, &gen.TCfg{Depth: 1 + r.Intn(4), Lang: true}) })
		t := m.Canonical()
		roundTrip(c, r, `generated type`, t, m.Canonical(), m, 6)
		// the same type, composed in another way, may have another text which then must be its own
		if i%4 == 0 {
			b := m.Build(r)
			roundTrip(c, r, `type composed in another way`, b, b, m, 2)
		}
		if i < 3 {
			c.Sample(t.String())
		}
	})
	c.Run(`literals`, c.N(6000, 400000), func(r *rand.Rand, i int) {
		m := unlisted(func() *gen.T { return literalType(r, r.Intn(3)) })
		roundTrip(c, r, `type with special literals`, m.Canonical(), m.Canonical(), m, 4)
	})
	c.Run(`exact`, c.N(2000, 100000), func(r *rand.Rand, i int) {
		v := gen.Gen(r, &gen.Cfg{Depth: r.Intn(4), Data: true})
		if hasEmptyCollection(v) {
			return
		}
		x, y := v.Build(r, false), v.Build(r, true)
		roundTrip(c, r, `type of a value`, x.Type(), y.Type(), nil, 0)
		// the text denotes the value
		var p dgo.Value
		if e := mon.Catch(func() { p = tf.Parse(x.Type().String()) }); e != nil {
			c.Fail(`text of the type of a value: not accepted`, "%v\n%s", e, x.Type())
		}
		et, ok := p.(dgo.ExactType)
		if ok {
			p = et.ExactValue()
		}
		if v.K != gen.KArr && v.K != gen.KMap && gen.Observe(p).Canon(false) != v.Canon(false) {
			c.Fail(`the text of the type of a value denotes another value`, "value %s, text %s, parsed %s", v, x.Type(), p)
		}
	})
	c.Run(`alias`, c.N(1500, 60000), func(r *rand.Rand, i int) {
		m := unlisted(func() *gen.T { return gen.GenType(r, &gen.TCfg{Depth: 2 + r.Intn(2), Lang: true}) })
		t := m.Canonical()
		// name some of the parts
		var parts []*gen.T
		m.Has(func(x *gen.T) bool {
			if x.K != gen.TExact && x.K != gen.TAny {
				parts = append(parts, x)
			}
			return false
		})
		am := tf.BuiltInAliases()
		names := map[string]bool{}
		for n := 0; n < 3 && len(parts) > 0; n++ {
			pt := parts[r.Intn(len(parts))].Canonical()
			name := aliasNames[r.Intn(len(aliasNames))]
			if names[name] || am.GetName(pt) != nil {
				continue
			}
			names[name] = true
			am = am.Collect(func(a dgo.AliasAdder) { a.Add(pt, vf.String(name)) })
		}
		s := stringer.TypeStringWithAliasMap(t, am)
		c.Seen(s)
		if aliasKey.MatchString(s) {
			c.Count(`skipped, alias as key`, 1)
			return
		}
		p, err := parseAlone(am, s)
		if err != nil {
			c.Fail(`aliases: the text is not accepted by the parser (`+errClass(err)+`)`, "%v\n%s of %s", err, s, m)
		}
		c.Count(`parsed with aliases`, 1)
		if !p.Equals(t) || !t.Equals(p) {
			c.Fail(`aliases: the text parses to another type`, "%s parsed as %s, expected %s", s, p, t)
		}
		if ps := stringer.TypeStringWithAliasMap(p, am); ps != s {
			c.Fail(`aliases: the parsed type has another text`, "%s parsed as %s", s, ps)
		}
		for j := 0; j < 3; j++ {
			v := m.GenFor(r)
			if p.Instance(v.Build(r, false)) != m.Accept(v) {
				c.Fail(`aliases: the parsed type accepts other values`, "%s parsed as %s, value %s", s, p, v)
			}
		}
	})
}

func hasEmptyCollection(v *gen.V) bool {
	if v.K == gen.KArr && len(v.E) == 0 {
		return true
	}
	for _, e := range v.E {
		if hasEmptyCollection(e) {
			return true
		}
	}
	for _, e := range v.Keys {
		if hasEmptyCollection(e) {
			return true
		}
	}
	return false
}
