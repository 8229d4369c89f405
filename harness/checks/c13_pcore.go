package checks

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

// pcoreSub generates a type with a notation in Puppet, and that notation
func pcoreSub(r *rand.Rand, depth int, noFunc bool) (*gen.T, string) {
	for {
		m := unlistedSyntax(r, &gen.TCfg{Depth: depth, NoOne: true, NoFunc: noFunc, Lang: chance(r, 50)})
		if m.K == gen.TFunc && noFunc {
			continue
		}
		if s, ok := gen.Pcore(r, m); ok {
			return m, s
		}
	}
}

func pcoreSubs(r *rand.Rand, n int, noFunc bool) (ms []*gen.T, ss []string) {
	for ; n > 0; n-- {
		m, s := pcoreSub(r, r.Intn(2), noFunc)
		ms, ss = append(ms, m), append(ss, s)
	}
	return
}

var nilT, anyT = &gen.T{K: gen.TNil}, &gen.T{K: gen.TAny}

func tupleT(variadic bool, ts ...*gen.T) *gen.T {
	return &gen.T{K: gen.TTuple, Ts: ts, Variadic: variadic}
}

// pcoreForm generates one of the forms of Puppet types that have a notation of their own
func pcoreForm(r *rand.Rand) (m *gen.T, s string) {
	sp := func() string { return []string{``, ` `, "\n", ` # x` + "\n"}[r.Intn(4)] }
	list := func(ss ...string) string { return sp() + strings.Join(ss, sp()+`,`+sp()) + sp() }
	words := []string{`a`, `b`, `foo`, `fee`, `x y`, `É`, `default2`, `1`, ``}
	word := func() (string, string) {
		w := words[r.Intn(len(words))]
		if w == `a` || w == `foo` {
			return w, w
		}
		return w, strconv.Quote(w)
	}
	exact := func(w string) *gen.T { return &gen.T{K: gen.TExact, V: gen.Str(w)} }
	opt := func(t *gen.T) *gen.T {
		if t.Accept(gen.Nil()) {
			return t
		}
		return &gen.T{K: gen.TAnyOf, Ts: []*gen.T{nilT, t}}
	}
	switch r.Intn(13) {
	case 0: // numbers
		lo, hi := int64(r.Intn(40)-20), int64(r.Intn(20)+20)
		it := &gen.T{K: gen.TIntR, Min: lo, Max: hi, Incl: true}
		ft := &gen.T{K: gen.TFloatR, FMin: float64(lo), FMax: float64(hi), Incl: true}
		m = &gen.T{K: gen.TAnyOf, Ts: []*gen.T{it, ft}}
		switch r.Intn(7) {
		case 0:
			return &gen.T{K: gen.TAnyOf, Ts: []*gen.T{{K: gen.TInt}, {K: gen.TFloat}}}, `Number`
		case 1:
			it.Max, ft.FMax = math.MaxInt64, math.MaxFloat64
			return m, fmt.Sprintf("Number[%d]", lo)
		case 2:
			it.Max, ft.FMax = math.MaxInt64, math.MaxFloat64
			return m, fmt.Sprintf("Number[%s]", list(strconv.Itoa(int(lo)), `default`))
		case 3:
			it.Min, ft.FMin = math.MinInt64, -math.MaxFloat64
			return m, fmt.Sprintf("Number[%s]", list(`default`, strconv.Itoa(int(hi))))
		case 5:
			// limits that no integer has
			big := []float64{1e19, 1e100, 9223372036854775808, 1.5e300}[r.Intn(4)]
			bt := strconv.FormatFloat(big, 'e', -1, 64)
			switch r.Intn(4) {
			case 0:
				ft.FMin, ft.FMax = big, math.MaxFloat64
				return ft, `Number[` + list(bt, `default`) + `]`
			case 1:
				ft.FMin, ft.FMax = -math.MaxFloat64, -2*big
				return ft, `Number[` + list(`default`, `-`+strconv.FormatFloat(2*big, 'e', -1, 64)) + `]`
			case 2:
				it.Min, ft.FMin, it.Max, ft.FMax = math.MinInt64, -big, math.MaxInt64, big
				return m, `Number[` + list(`-`+bt, bt) + `]`
			}
			it.Max, ft.FMax = math.MaxInt64, big
			return m, fmt.Sprintf("Number[%s]", list(strconv.Itoa(int(lo)), bt))
		case 4:
			// limits with a fraction
			fl, fh := float64(lo)+[]float64{0, 0.5, 0.25}[r.Intn(3)], float64(hi)+[]float64{0, 0.5, 0.25}[r.Intn(3)]
			it.Min, it.Max = int64(math.Ceil(fl)), int64(math.Floor(fh))
			ft.FMin, ft.FMax = fl, fh
			return m, fmt.Sprintf("Number[%s]", list(strconv.FormatFloat(fl, 'f', 3, 64), strconv.FormatFloat(fh, 'f', 3, 64)))
		}
		return m, fmt.Sprintf("Number[%s]", list(strconv.Itoa(int(lo)), strconv.Itoa(int(hi))))
	case 1: // not undef
		t, x := pcoreSub(r, r.Intn(3), false)
		not := &gen.T{K: gen.TNot, Ts: []*gen.T{nilT}}
		s = `NotUndef[` + list(x) + `]`
		switch {
		case t.K == gen.TAny:
			return not, s
		case t.Accept(gen.Nil()):
			return &gen.T{K: gen.TAllOf, Ts: []*gen.T{not, t}}, s
		}
		return t, s
	case 2: // optional
		if chance(r, 30) {
			w, x := word()
			return opt(exact(w)), `Optional[` + list(x) + `]`
		}
		if chance(r, 10) {
			return anyT, `Optional`
		}
		t, x := pcoreSub(r, r.Intn(3), false)
		return opt(t), `Optional[` + list(x) + `]`
	case 3: // enums
		ws, xs := []*gen.T{}, []string{}
		ci := chance(r, 40)
		for k := 1 + r.Intn(4); k > 0; k-- {
			w, x := word()
			if ci {
				ws = append(ws, &gen.T{K: gen.TCi, S: w})
			} else {
				ws = append(ws, exact(w))
			}
			xs = append(xs, x)
		}
		if ci {
			xs = append(xs, `true`)
		} else if chance(r, 20) {
			xs = append(xs, `false`)
		}
		s = `Enum[` + list(xs...) + `]`
		if len(ws) == 1 {
			return ws[0], s
		}
		return &gen.T{K: gen.TAnyOf, Ts: ws}, s
	case 4: // patterns
		ps := []string{`a`, `^b+$`, `[0-9]`, `x y`, `\d`}
		ws, xs := []*gen.T{}, []string{}
		for k := 1 + r.Intn(3); k > 0; k-- {
			p := ps[r.Intn(len(ps))]
			ws = append(ws, &gen.T{K: gen.TPat, S: p})
			xs = append(xs, `/`+p+`/`)
			if chance(r, 40) {
				xs[len(xs)-1] = strconv.Quote(p)
			}
		}
		s = `Pattern[` + list(xs...) + `]`
		if len(ws) == 1 {
			return ws[0], s
		}
		return &gen.T{K: gen.TAnyOf, Ts: ws}, s
	case 5:
		p := []string{`a`, `^b+$`, `[0-9]`, `x y`, `\d`}[r.Intn(5)]
		s = `/` + p + `/`
		if chance(r, 40) {
			s = strconv.Quote(p)
		}
		return &gen.T{K: gen.TExact, V: gen.Regexp(p)}, `Regexp[` + list(s) + `]`
	case 6:
		switch r.Intn(6) {
		case 0:
			return &gen.T{K: gen.TStruct, Additional: true}, `Struct`
		case 1:
			return &gen.T{K: gen.TStruct}, `Struct[` + list(`{}`) + `]`
		case 2:
			return &gen.T{K: gen.TStr}, []string{`Enum`, `Pattern`}[r.Intn(2)]
		case 3:
			return tupleT(true, anyT), `Tuple`
		case 4:
			return &gen.T{K: gen.TNot, Ts: []*gen.T{nilT}}, `NotUndef`
		}
		return &gen.T{K: gen.TFunc, Ts: []*gen.T{tupleT(true, anyT), tupleT(true, anyT)}}, `Callable`
	case 7, 8: // tuples with sizes
		n := 1 + r.Intn(3)
		ts, xs := pcoreSubs(r, n, true)
		switch r.Intn(4) {
		case 0: // exact size
			return tupleT(false, ts...), `Tuple[` + list(append(xs, strconv.Itoa(n), strconv.Itoa(n))...) + `]`
		case 1: // unlimited
			return tupleT(true, ts...), `Tuple[` + list(append(xs, strconv.Itoa(n-1))...) + `]`
		case 2:
			return tupleT(true, ts...), `Tuple[` + list(append(xs, strconv.Itoa(n-1), `default`+``)...) + `]`
		}
		return tupleT(false, ts...), `Tuple[` + list(xs...) + `]`
	case 9, 10: // functions
		n := r.Intn(4)
		ts, xs := pcoreSubs(r, n, true)
		variadic := false
		if n == 0 {
			xs = []string{`0`, `0`}
		} else if variadic = chance(r, 40); variadic {
			xs = append(xs, strconv.Itoa(n-1))
			if chance(r, 50) {
				xs = append(xs, `default`)
			}
		}
		in := tupleT(variadic, ts...)
		if n > 0 && chance(r, 30) {
			// a block is the first argument
			xs = append(xs, `Callable`)
			in.Ts = append([]*gen.T{{K: gen.TFunc, Ts: []*gen.T{tupleT(true, anyT), tupleT(true, anyT)}}}, in.Ts...)
		}
		out := tupleT(false)
		s = list(xs...)
		if chance(r, 60) {
			t, x := pcoreSub(r, r.Intn(2), true)
			out.Ts = []*gen.T{t}
			s = list(`[`+s+`]`, x)
		}
		return &gen.T{K: gen.TFunc, Ts: []*gen.T{in, out}}, `Callable[` + s + `]`
	case 11: // a declared alias
		t, x := pcoreSub(r, r.Intn(3), false)
		n := []string{`X`, `Foo`, `Foo::Bar`, `A::B::C`}[r.Intn(4)]
		switch r.Intn(3) {
		case 0:
			return t, `type ` + n + sp() + `=` + sp() + x
		case 1:
			return &gen.T{K: gen.TArr, Ts: []*gen.T{t}, Max: gen.Inf}, `Array[type ` + n + ` = ` + x + `]`
		}
		return tupleT(false, t, t, &gen.T{K: gen.TArr, Ts: []*gen.T{t}, Max: gen.Inf}), `Tuple[` + list(`type `+n+` = `+x, n, `Array[`+n+`]`) + `]`
	}
	// struct with all forms of keys
	m = &gen.T{K: gen.TStruct}
	es := []string{}
	used := map[string]bool{}
	for k := 1 + r.Intn(4); k > 0; k-- {
		w, x := word()
		if used[w] {
			continue
		}
		used[w] = true
		t, y := pcoreSub(r, r.Intn(2), false)
		req := true
		switch r.Intn(3) {
		case 0:
			req = false
			x = `Optional[` + list(x) + `]`
		}
		m.Entries = append(m.Entries, gen.StructEntry{Key: gen.Str(w), T: t, Required: req})
		es = append(es, x+sp()+`=>`+sp()+y)
	}
	return m, `Struct[{` + list(es...) + `}]`
}

// pcoreValue generates the notation of a value
func pcoreValue(r *rand.Rand, depth int) (*gen.V, string) {
	n := 7
	if depth == 0 {
		n = 5
	}
	switch r.Intn(n) {
	case 0:
		i := int64(r.Intn(2000) - 1000)
		switch r.Intn(5) {
		case 0:
			i = []int64{math.MaxInt64, math.MinInt64, 0}[r.Intn(3)]
		case 1:
			if i >= 0 {
				return gen.Int(i), []string{`0x%x`, `0X%X`, `0%o`}[r.Intn(3)] + "\x00" + strconv.FormatInt(i, 10)
			}
		}
		return gen.Int(i), strconv.FormatInt(i, 10)
	case 1:
		f := float64(r.Intn(4000)-2000) / 16
		s := strconv.FormatFloat(f, 'f', -1, 64)
		if chance(r, 30) {
			s = strconv.FormatFloat(f, 'e', -1, 64)
		}
		if !strings.ContainsAny(s, `.e`) {
			s += `.0`
		}
		return gen.Float(f), s
	case 2:
		return []*gen.V{gen.Bool(true), gen.Bool(false), gen.Nil()}[r.Intn(3)], ``
	case 3:
		w := []string{`a`, `foo`, `typex`, `default`, `undefx`, `truex`, `foo_bar`, `x9`}[r.Intn(8)]
		return gen.Str(w), w
	case 4:
		w := gen.Strs[r.Intn(len(gen.Strs))]
		return gen.Str(w), `"` + w + `"`
	case 5:
		v := gen.Arr()
		ss := []string{}
		for k := r.Intn(4); k > 0; k-- {
			if chance(r, 30) {
				// entries that follow each other are one map
				if len(v.E) > 0 && v.E[len(v.E)-1].K == gen.KMap {
					continue
				}
				m := gen.MapKV()
				for j := 1 + r.Intn(3); j > 0; j-- {
					w := string(rune('a' + j))
					e, x := pcoreValueText(r, depth-1)
					m.Keys, m.E = append(m.Keys, gen.Str(w)), append(m.E, e)
					ss = append(ss, w+`=>`+x)
				}
				v.E = append(v.E, m)
				continue
			}
			e, x := pcoreValueText(r, depth-1)
			if e.K == gen.KMap && len(v.E) > 0 {
				continue
			}
			v.E, ss = append(v.E, e), append(ss, x)
		}
		return v, `[` + strings.Join(ss, []string{`,`, ` , `, ",\n"}[r.Intn(3)]) + []string{``, `,`}[b2i(len(ss) > 0 && chance(r, 20))] + `]`
	}
	m := gen.MapKV()
	ss := []string{}
	for j := r.Intn(4); j > 0; j-- {
		k, x := gen.Str(string(rune('a'+j))), string(rune('a'+j))
		if chance(r, 30) {
			k, x = gen.Int(int64(j)), strconv.Itoa(j)
		}
		e, y := pcoreValueText(r, depth-1)
		m.Keys, m.E = append(m.Keys, k), append(m.E, e)
		ss = append(ss, x+` => `+y)
	}
	return m, `{` + strings.Join(ss, `, `) + []string{``, `,`}[b2i(len(ss) > 0 && chance(r, 20))] + `}`
}

func pcoreValueText(r *rand.Rand, depth int) (*gen.V, string) {
	if depth < 0 {
		depth = 0
	}
	v, s := pcoreValue(r, depth)
	switch v.K {
	case gen.KNil:
		s = `undef`
	case gen.KBool:
		s = strconv.FormatBool(v.B)
	case gen.KStr:
		if strings.HasPrefix(s, `"`) {
			if plain := strings.IndexFunc(v.S, func(c rune) bool { return c < ' ' || c == '\\' || c == '\'' || c > '~' }) < 0; plain && chance(r, 50) {
				s = `'` + v.S + `'`
			} else {
				s = strconv.Quote(v.S)
			}
		}
	case gen.KInt:
		if i := strings.IndexByte(s, 0); i >= 0 {
			s = fmt.Sprintf(s[:i], v.I)
		}
	}
	return v, s
}

func c13Pcore(c *mon.Ctx) {
	c.Run(`pcore forms`, c.N(8000, 300000), func(r *rand.Rand, i int) {
		m, s := pcoreForm(r)
		if chance(r, 20) {
			// as part of another type
			m, s = &gen.T{K: gen.TArr, Ts: []*gen.T{m}, Max: gen.Inf}, `Array[`+s+`]`
		}
		if noSyntax(m) {
			return
		}
		p, err := parsePcoreAlone(tf.BuiltInAliases(), s)
		if err != nil {
			c.Fail(`puppet form: not accepted (`+errClass(err)+`)`, "%v\n%q\nmodel %s", err, s, m)
		}
		meansSame(c, r, `puppet form`, s, p, m, 8)
		if i < 5 {
			c.Sample(s)
		}
	})
	c.Run(`pcore values`, c.N(4000, 200000), func(r *rand.Rand, i int) {
		m, s := pcoreValueText(r, r.Intn(3))
		if chance(r, 10) {
			k, x := pcoreValueText(r, 0)
			m, s = gen.MapKV(k, m), x+` => `+s
		}
		var v dgo.Value
		if err := mon.Catch(func() {
			tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { v = pcore.ParseFile(a, ``, s) })
		}); err != nil {
			c.Fail(`puppet value: not accepted (`+errClass(err)+`)`, "%v\n%q\nmodel %s", err, s, m)
		}
		c.Count(`values`, 1)
		c.Seen(s)
		if g := canonOf(v); g != m.Canon(false) {
			c.Fail(`puppet value: another value than the one written`, "%q\nexpected %s\ngot %s", s, m.Canon(false), g)
		}
		// what is parsed is also the argument of a call
		if m.K == gen.KInt && chance(r, 50) {
			var g dgo.Value
			e := mon.Catch(func() {
				tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { g = pcore.ParseFile(a, ``, `String(`+s+`)`) })
			})
			if e != nil || !vf.String(strconv.FormatInt(m.I, 10)).Equals(g) {
				c.Fail(`puppet call: not what the call gives`, "String(%s) is %v, %v", s, g, e)
			}
		}
	})
}
