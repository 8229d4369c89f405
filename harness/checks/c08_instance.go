package checks

import (
	"errors"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C08`, Scale: 20, Rule: `a (type model, value model) pair where the reference evaluator and the instance check gave a verdict; distinct by type and value`, Run: runC08})
}

// sigOf names the part of the type which decides, so that different defects have different signatures
func typeSig(t *gen.T) string {
	names := map[gen.TK]string{gen.TIntR: `int range`, gen.TFloatR: `float range`, gen.TStrR: `sized string`, gen.TBinR: `sized binary`, gen.TPat: `pattern`, gen.TCi: `ci string`,
		gen.TExact: `exact`, gen.TMeta: `meta`, gen.TSens: `sensitive`, gen.TArr: `array`, gen.TTuple: `tuple`, gen.TMap: `map`, gen.TStruct: `struct`, gen.TAllOf: `allOf`,
		gen.TAnyOf: `anyOf`, gen.TOneOf: `oneOf`, gen.TNot: `not`, gen.TFunc: `func`}
	if n, ok := names[t.K]; ok {
		if t.K == gen.TExact {
			n += [...]string{` nil`, ` bool`, ` int`, ` float`, ` string`, ` binary`, ` time`, ` regexp`, ` error`, ` sensitive`, ` type`, ` array`, ` map`}[t.V.K]
		}
		return n
	}
	return t.String()
}

// blame descends to the smallest part of the type that gives the wrong answer for the corresponding part of the value
func blame(t *gen.T, v *gen.V) (*gen.T, *gen.V) {
	wrong := func(t *gen.T, v *gen.V) bool {
		var g bool
		if e := mon.Catch(func() { g = t.Canonical().Instance(v.Build(rand.New(rand.NewSource(1)), false)) }); e != nil {
			return true
		}
		return g != t.Accept(v)
	}
	for {
		next := false
		try := func(st *gen.T, sv *gen.V) {
			if !next && wrong(st, sv) {
				t, v, next = st, sv, true
			}
		}
		switch t.K {
		case gen.TAllOf, gen.TAnyOf, gen.TOneOf, gen.TNot:
			for _, o := range t.Ts {
				try(o, v)
			}
		case gen.TArr:
			if v.K == gen.KArr {
				for _, e := range v.E {
					try(t.Ts[0], e)
				}
			}
		case gen.TTuple:
			if v.K == gen.KArr {
				for i, e := range v.E {
					if i < len(t.Ts) {
						try(t.Ts[i], e)
					}
				}
			}
		case gen.TMap:
			if v.K == gen.KMap {
				for i := range v.E {
					try(t.Ts[0], v.Keys[i])
					try(t.Ts[1], v.E[i])
				}
			}
		case gen.TStruct:
			if v.K == gen.KMap {
				for _, e := range t.Entries {
					if i := v.Find(e.Key); i >= 0 {
						try(e.T, v.E[i])
					}
				}
			}
		case gen.TSens:
			if v.K == gen.KSens {
				try(t.Ts[0], v.E[0])
			}
		}
		if !next {
			return t, v
		}
	}
}

// goScalars returns all Go representations of a scalar
func goScalars(v *gen.V) []interface{} {
	switch v.K {
	case gen.KNil:
		return []interface{}{nil}
	case gen.KBool:
		return []interface{}{v.B}
	case gen.KInt:
		is := []interface{}{v.I, int(v.I)}
		add := func(ok bool, x interface{}) {
			if ok {
				is = append(is, x)
			}
		}
		add(v.I == int64(int8(v.I)), int8(v.I))
		add(v.I == int64(int16(v.I)), int16(v.I))
		add(v.I == int64(int32(v.I)), int32(v.I))
		add(v.I == int64(uint8(v.I)), uint8(v.I))
		add(v.I == int64(uint16(v.I)), uint16(v.I))
		add(v.I == int64(uint32(v.I)), uint32(v.I))
		add(v.I >= 0, uint64(v.I))
		add(v.I >= 0, uint(v.I))
		return is
	case gen.KFloat:
		fs := []interface{}{v.F}
		if float64(float32(v.F)) == v.F {
			fs = append(fs, float32(v.F))
		}
		return fs
	case gen.KStr:
		return []interface{}{v.S}
	case gen.KBin:
		return []interface{}{append([]byte{}, v.Bin...)}
	case gen.KTime:
		t := v.T
		return []interface{}{t, &t}
	case gen.KRegexp:
		return []interface{}{regexp.MustCompile(v.S)}
	case gen.KErr:
		return []interface{}{errors.New(v.S), fmt.Errorf(`%s`, v.S)}
	}
	return nil
}

func c08One(c *mon.Ctx, r *rand.Rand, t *gen.T, dt dgo.Type, v *gen.V) {
	e := t.Accept(v)
	if e {
		c.Count(`accepted`, 1)
	} else {
		c.Count(`rejected`, 1)
	}
	c.Seen(t.String() + ` ? ` + v.Canon(false))
	check := func(how string, x interface{}) {
		var g bool
		pn := mon.Catch(func() { g = dt.Instance(x) })
		if pn != nil || g != e {
			bt, bv := blame(t, v)
			c.Fail(fmt.Sprintf(`%s on %s: expected %v`, typeSig(bt), how, bt.Accept(bv)), "type %s (%s)\nvalue %s given as %s (%T)\nexpected %v, got %v (panic %v)\ndecided by %s ? %s",
				t, dt, v.Canon(false), how, x, e, g, pn, bt, bv.Canon(false))
		}
	}
	check(`value`, v.Build(r, false))
	check(`mutable value`, v.Build(r, true))
	for _, x := range goScalars(v) {
		check(fmt.Sprintf(`go %T`, x), x)
	}
	// the specific forms of the same question
	is := func(g bool) {
		if g != e {
			c.Fail(`IsInstance of `+typeSig(t), "type %s, value %s: expected %v got %v", t, v.Canon(false), e, g)
		}
	}
	switch xt := dt.(type) {
	case dgo.IntegerType:
		if v.K == gen.KInt {
			is(xt.IsInstance(v.I))
		}
	case dgo.FloatType:
		if v.K == gen.KFloat {
			is(xt.IsInstance(v.F))
		}
	case dgo.BooleanType:
		if v.K == gen.KBool {
			is(xt.IsInstance(v.B))
		}
	case dgo.RegexpType:
		if v.K == gen.KRegexp {
			is(xt.IsInstance(regexp.MustCompile(v.S)))
		}
	case dgo.TimeType:
		if v.K == gen.KTime {
			is(xt.IsInstance(v.T))
		}
	case dgo.BinaryType:
		if v.K == gen.KBin {
			is(xt.IsInstance(v.Bin))
		}
	case dgo.ErrorType:
		if v.K == gen.KErr {
			is(xt.IsInstance(errors.New(v.S)))
		}
	}
}

func runC08(c *mon.Ctx) {
	valsFor := func(r *rand.Rand, t *gen.T) []*gen.V {
		vs := make([]*gen.V, 0, 14)
		for i := 0; i < 8; i++ {
			vs = append(vs, t.GenFor(r))
		}
		for i := 0; i < 3; i++ {
			vs = append(vs, gen.Tweak(r, vs[i]))
		}
		return append(vs, gen.Gen(r, &gen.Cfg{Depth: 1, MaxLen: 3}))
	}
	c.Run(`types`, c.N(24000, 1200000), func(r *rand.Rand, i int) {
		t := gen.GenType(r, &gen.TCfg{Depth: i % 4})
		dt := t.Build(r)
		c.Count(`types`, 1)
		for _, v := range valsFor(r, t) {
			c08One(c, r, t, dt, v)
		}
		if i < 3 {
			c.Sample(fmt.Sprintf(`type %s = %s`, t, dt))
		}
	})
	c.Run(`values`, c.N(16000, 800000), func(r *rand.Rand, i int) {
		v := gen.Gen(r, &gen.Cfg{Depth: i % 4, MaxLen: 4})
		t := gen.TypeOfValue(r, v, &gen.TCfg{Depth: 1})
		dt := t.Build(r)
		c.Count(`types`, 1)
		c08One(c, r, t, dt, v)
		for k := 0; k < 5; k++ {
			x := gen.Tweak(r, v)
			for r.Intn(3) == 0 {
				x = gen.Tweak(r, x)
			}
			c08One(c, r, t, dt, x)
		}
		nt := gen.NearType(r, t, &gen.TCfg{Depth: 1})
		dnt := nt.Build(r)
		c08One(c, r, nt, dnt, v)
		c08One(c, r, nt, dnt, nt.GenFor(r))
	})
	c.Run(`functions`, c.N(2000, 50000), func(r *rand.Rand, _ int) { c08Function(c, r) })
	c.Run(`natives`, c.N(500, 10000), func(r *rand.Rand, _ int) { c08Native(c, r) })
	c.Run(`own types`, c.N(12000, 600000), func(r *rand.Rand, i int) { c08Own(c, r, i) })
	c.Run(`dgo`, c.N(500, 20000), func(r *rand.Rand, i int) { c08Dgo(c, r, i) })
}

var goFuncs = []struct {
	f        interface{}
	in       string
	variadic bool
	out      string
}{
	{func() {}, ``, false, ``},
	{func(int) {}, `int`, false, ``},
	{func(int) int { return 0 }, `int`, false, `int`},
	{func(int64) int64 { return 0 }, `int`, false, `int`},
	{func(string) string { return `` }, `string`, false, `string`},
	{func(string, int) string { return `` }, `string,int`, false, `string`},
	{func(...int) {}, `int`, true, ``},
	{func(string, ...int) (string, bool) { return ``, false }, `string,int`, true, `string,bool`},
	{func(interface{}) error { return nil }, `any`, false, `error`},
	{func([]int, map[string]int) {}, `[]int,map[string]int`, false, ``},
	{func(float64) bool { return true }, `float`, false, `bool`},
	{func(bool, float64, string) (interface{}, error) { return nil, nil }, `bool,float,string`, false, `any,error`},
}

// c08Function checks that a function type accepts a function that has exactly its parameter and return types, and
// rejects functions with another number of parameters or with unrelated types
func c08Function(c *mon.Ctx, r *rand.Rand) {
	base := map[string]dgo.Type{`int`: typ.Integer, `string`: typ.String, `bool`: typ.Boolean, `float`: typ.Float, `any`: typ.Any, `error`: typ.Error,
		`[]int`: tf.Array(typ.Integer), `map[string]int`: tf.Map(typ.String, typ.Integer)}
	tuple := func(s string, variadic bool) dgo.TupleType {
		if s == `` {
			return tf.Tuple()
		}
		var ts []interface{}
		for _, n := range strings.Split(s, `,`) {
			ts = append(ts, base[n])
		}
		if variadic {
			return tf.VariadicTuple(ts...)
		}
		return tf.Tuple(ts...)
	}
	a, b := goFuncs[r.Intn(len(goFuncs))], goFuncs[r.Intn(len(goFuncs))]
	ft := tf.Function(tuple(a.in, a.variadic), tuple(a.out, false))
	vt := vf.Value(a.f).Type()
	for _, t := range []dgo.Type{ft, vt} {
		for _, f := range []interface{}{b.f, vf.Value(b.f)} {
			same := a.in == b.in && a.variadic == b.variadic && a.out == b.out
			related := same || strings.Contains(a.in+a.out+b.in+b.out, `any`) && a.variadic == b.variadic &&
				strings.Count(a.in, `,`) == strings.Count(b.in, `,`) && (a.in == ``) == (b.in == ``) && strings.Count(a.out, `,`) == strings.Count(b.out, `,`) && (a.out == ``) == (b.out == ``)
			if !same && related {
				continue // covered by assignability
			}
			g := t.Instance(f)
			c.Count(`functions checked`, 1)
			c.Seen(fmt.Sprintf(`func %s/%v/%s ? %s/%v/%s`, a.in, a.variadic, a.out, b.in, b.variadic, b.out))
			if g != same {
				c.Fail(fmt.Sprintf(`function type: expected %v`, same), "type %s, function %T: expected %v, got %v", t, b.f, same, g)
			}
		}
	}
	v := gen.Gen(r, &gen.Cfg{Depth: 2, MaxLen: 2})
	if ft.Instance(v.Build(r, false)) || vt.Instance(v.Build(r, false)) {
		c.Fail(`function type accepts a value that is not a function`, "type %s, value %s", ft, v)
	}
	if !typ.Function.Instance(b.f) || !typ.Function.Instance(vf.Value(b.f)) || typ.Function.Instance(v.Build(r, false)) {
		c.Fail(`unconstrained function type`, "function %T", b.f)
	}
}

var dgoString = typ.DgoString

type nat1 struct{ A, B int }
type nat2 struct{ X string }

func c08Native(c *mon.Ctx, r *rand.Rand) {
	nats := []interface{}{make(chan int), &nat1{}, nat2{`x`}, make(chan string), complex(1, 2), struct{ Z bool }{true}, &nat2{`y`}}
	n := nats[r.Intn(len(nats))]
	m := nats[r.Intn(len(nats))]
	nv, mv := vf.Value(n), vf.Value(m)
	if _, ok := nv.(dgo.Native); !ok {
		return
	}
	if _, ok := mv.(dgo.Native); !ok {
		return
	}
	same := reflect.TypeOf(n) == reflect.TypeOf(m)
	c.Count(`natives checked`, 1)
	if g := nv.Type().Instance(mv); g != same {
		c.Fail(`native type`, "type %s, value of Go type %T: expected %v, got %v", nv.Type(), m, same, g)
	}
	if !typ.Native.Instance(nv) {
		c.Fail(`unconstrained native type`, "value of Go type %T", n)
	}
	v := gen.Gen(r, &gen.Cfg{Depth: 2, MaxLen: 2})
	if nv.Type().Instance(v.Build(r, false)) {
		c.Fail(`native type accepts other value`, "type %s value %s", nv.Type(), v)
	}
}

// c08Dgo checks that the dgo type accepts the strings that can be parsed, that asking has no effect on later answers
func c08Dgo(c *mon.Ctx, r *rand.Rand, i int) {
	good := []string{`int`, `string[1,3]`, `[]int`, `{a:int}`, `"x"`, `1..3`, `a|b`, fmt.Sprintf(`x%d_%d=int`, i, r.Intn(1<<30)), `map[string]any`, `3`, `nil`, `[]`, `func(int) string`}
	bad := []string{``, `[`, `map[`, `1..a`, `{a:int`, `"abc`, `string[1,3`, `int]`, `)`, `unknown`, `|int`, `int|`}
	for k := 0; k < 4; k++ {
		s, e := good[r.Intn(len(good))], true
		if r.Intn(2) == 0 {
			s, e = bad[r.Intn(len(bad))], false
		}
		if s == `a|b` || s == `[]` {
			continue
		}
		for n := 0; n < 2; n++ {
			var g bool
			if n == 0 {
				g = dgoString.Instance(s)
			} else {
				g = dgoString.Instance(vf.String(s))
			}
			c.Count(`dgo strings`, 1)
			if g != e {
				c.Fail(fmt.Sprintf(`dgo type: expected %v (attempt %d)`, e, n+1), "dgo type with string %q: expected %v, got %v", s, e, g)
			}
		}
		if ix := strings.IndexByte(s, '='); ix > 0 {
			if tf.DefaultAliases().GetType(vf.String(s[:ix])) != nil {
				c.Fail(`dgo instance check declares a type`, "the instance check on %q declared the type %q", s, s[:ix])
			}
		}
	}
	if dgoString.Instance(3) || dgoString.Instance(vf.Values(`int`)) || dgoString.Instance(time.Now()) || dgoString.Instance(typ.Integer) {
		c.Fail(`dgo type accepts other than strings`, ``)
	}
}
