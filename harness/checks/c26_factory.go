package checks

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C26`, Scale: 100, Rule: `a call of a type factory whose result or refusal was compared with the reading of its arguments; distinct by factory, kinds of arguments and described type`, Run: runC26})
}

// fArg is an argument of a factory
type fArg struct {
	kind byte // t type, i integer, s string, x something else
	t    *gen.T
	i    int64
	s    string
	arg  interface{}
}

func (a fArg) String() string {
	switch a.kind {
	case 't':
		return a.t.String()
	case 'i':
		return fmt.Sprintf("%T(%d)", a.arg, a.i)
	}
	return fmt.Sprintf("%T(%v)", a.arg, a.arg)
}

func genFArg(r *rand.Rand, cfg *gen.TCfg, kind byte) fArg {
	a := fArg{kind: kind}
	switch kind {
	case 't':
		a.t = gen.GenType(r, cfg)
		a.arg = a.t.Build(r)
	case 'i':
		a.i = int64(r.Intn(7)) - 1
		if chance(r, 10) {
			a.i = []int64{math.MaxInt64, math.MinInt64, -3, 100}[r.Intn(4)]
		}
		a.arg = a.i
		switch r.Intn(8) {
		case 0:
			a.arg = int(a.i)
		case 1:
			a.arg = vf.Integer(a.i)
		case 2:
			if a.i == int64(int8(a.i)) {
				a.arg = int8(a.i)
			}
		case 3:
			if a.i == int64(uint16(a.i)) {
				a.arg = uint16(a.i)
			}
		case 4:
			if a.i >= 0 {
				a.arg = uint64(a.i)
			}
		case 5:
			if a.i == int64(int32(a.i)) {
				a.arg = int32(a.i)
			}
		}
	case 's':
		a.s = gen.Strs[r.Intn(len(gen.Strs))]
		a.arg = a.s
		if chance(r, 30) {
			a.arg = vf.String(a.s)
		}
	default:
		a.arg = []interface{}{nil, 1.5, true, []int{1}, map[string]int{`a`: 1}, errors.New(`x`), time.Unix(1, 0), vf.Values(1), vf.Nil, vf.Float(1), []byte{1}, struct{ A int }{1}, vf.Map(),
			regexp.MustCompile(`a`), vf.Sensitive(1), vf.Boolean(false)}[r.Intn(16)]
	}
	return a
}

// sizesOf gives the range described by one or two integers. Negative sizes are the same as zero.
func sizesOf(is ...int64) (int64, int64, bool) {
	min, max := is[0], int64(gen.Inf)
	if len(is) > 1 {
		max = is[1]
	}
	if min < 0 {
		min = 0
	}
	if max < 0 {
		max = 0
	}
	if min > max {
		min, max = max, min
	}
	return min, max, true
}

// described returns the model of the type that the arguments describe, or nil if they are not accepted by the factory
func described(f string, as []fArg) *gen.T {
	ks := make([]byte, len(as))
	var is []int64
	var ts []*gen.T
	for i, a := range as {
		ks[i] = a.kind
		switch a.kind {
		case 'i':
			is = append(is, a.i)
		case 't':
			ts = append(ts, a.t)
		}
	}
	any := &gen.T{K: gen.TAny}
	t := &gen.T{Max: gen.Inf}
	switch f + `:` + string(ks) {
	case `Array:`, `Array:i`, `Array:ii`, `Array:t`, `Array:ti`, `Array:tii`:
		t.K = gen.TArr
		t.Ts = append(ts, any)[:1]
	case `Map:`, `Map:i`, `Map:ii`, `Map:tt`, `Map:tti`, `Map:ttii`:
		t.K = gen.TMap
		t.Ts = append(ts, any, any)[:2]
	case `String:`, `String:i`, `String:ii`:
		t.K = gen.TStrR
	case `String:s`:
		return &gen.T{K: gen.TExact, V: gen.Str(as[0].s)}
	case `Binary:`, `Binary:i`, `Binary:ii`:
		t.K = gen.TBinR
	case `Sensitive:`:
		return &gen.T{K: gen.TSensAny}
	case `Sensitive:t`:
		return &gen.T{K: gen.TSens, Ts: ts}
	default:
		return nil
	}
	if len(is) > 0 {
		t.Min, t.Max, _ = sizesOf(is...)
	}
	return t
}

// wantRefusal checks that the call panics with an error that is no runtime error
func wantRefusal(c *mon.Ctx, what, call string, f func()) {
	e := mon.Catch(f)
	if e == nil {
		c.Fail(what+`: arguments that describe no type are accepted`, "%s", call)
	}
	err, ok := e.(error)
	if !ok {
		c.Fail(what+`: the refusal is not an error`, "%s panics with %T %v", call, e, e)
	}
	if isRuntimeError(e) {
		c.Fail(what+`: the refusal is a runtime error`, "%s panics with %v", call, err)
	}
	if strings.TrimSpace(err.Error()) == `` {
		c.Fail(what+`: the refusal has no message`, "%s", call)
	}
	c.Count(`refusals`, 1)
}

// sameMeaning compares a type with its model using instances that are on both sides of its limits
func sameMeaning(c *mon.Ctx, r *rand.Rand, what, call string, m *gen.T, t dgo.Type, n int) {
	if t == nil {
		c.Fail(what+`: no type`, "%s", call)
	}
	for k := 0; k < n; k++ {
		var v *gen.V
		switch r.Intn(4) {
		case 0:
			v = m.GenFor(r)
		case 1:
			if v = m.GenFor(r); v != nil {
				v = gen.Tweak(r, v)
			}
		case 2:
			v = sizedValue(r, m)
		default:
			v = gen.Gen(r, &gen.Cfg{Depth: 2})
		}
		if v == nil {
			continue
		}
		e := m.Accept(v)
		dv := v.Build(r, chance(r, 50))
		if g := t.Instance(dv); g != e {
			c.Fail(what+`: accepts something else than what was described`, "%s describes %s\ngives %s (%T)\nthe value %s is accepted: %v", call, m, t, t, v, g)
		}
		if e {
			c.Count(`instances`, 1)
		} else {
			c.Count(`other values`, 1)
		}
	}
}

// sizedValue gives a value of the kind that the type describes with a size close to its limits
func sizedValue(r *rand.Rand, m *gen.T) *gen.V {
	n := r.Intn(8)
	if chance(r, 50) && m.Min < 100 {
		n = int(m.Min) + r.Intn(3) - 1
	} else if m.Max < 100 {
		n = int(m.Max) + r.Intn(3) - 1
	}
	if n < 0 {
		n = 0
	}
	switch m.K {
	case gen.TStrR:
		return gen.Str(strings.Repeat(`x`, n))
	case gen.TBinR:
		return gen.Bin(make([]byte, n))
	case gen.TArr:
		v := gen.Arr()
		for k := 0; k < n; k++ {
			if e := m.Ts[0].GenFor(r); e != nil {
				v.E = append(v.E, e)
			}
		}
		return v
	case gen.TMap:
		v := gen.MapKV()
		for k := 0; k < n*2 && len(v.E) < n; k++ {
			kv, e := m.Ts[0].GenFor(r), m.Ts[1].GenFor(r)
			if kv != nil && e != nil && v.Find(kv) < 0 {
				v.Keys = append(v.Keys, kv)
				v.E = append(v.E, e)
			}
		}
		return v
	}
	return nil
}

func call(f string, as []fArg) string {
	ss := make([]string, len(as))
	for i := range as {
		ss[i] = as[i].String()
	}
	return f + `(` + strings.Join(ss, `, `) + `)`
}

func runC26(c *mon.Ctx) {
	cfg := &gen.TCfg{Depth: 2, NoFunc: true}
	forms := map[string][]string{
		`Array`:     {``, `i`, `ii`, `t`, `ti`, `tii`},
		`Map`:       {``, `i`, `ii`, `tt`, `tti`, `ttii`},
		`String`:    {``, `i`, `ii`, `s`},
		`Binary`:    {``, `i`, `ii`},
		`Sensitive`: {``, `t`},
	}
	names := []string{`Array`, `Map`, `String`, `Binary`, `Sensitive`}
	c.Run(`arguments`, c.N(3000, 50000), func(r *rand.Rand, i int) {
		f := names[r.Intn(len(names))]
		fs := []byte(forms[f][r.Intn(len(forms[f]))])
		if chance(r, 35) { // another form
			switch r.Intn(3) {
			case 0:
				p := r.Intn(len(fs) + 1)
				fs = append(fs[:p:p], append([]byte{"tisx"[r.Intn(4)]}, fs[p:]...)...)
			case 1:
				if len(fs) > 0 {
					fs[r.Intn(len(fs))] = "tisx"[r.Intn(4)]
				}
			default:
				fs = fs[:0]
				for k := r.Intn(6); k > 0; k-- {
					fs = append(fs, "tisx"[r.Intn(4)])
				}
			}
		}
		as := make([]fArg, len(fs))
		args := make([]interface{}, len(fs))
		for k := range fs {
			as[k] = genFArg(r, cfg, fs[k])
			args[k] = as[k].arg
		}
		cs := call(f, as)
		make := func() dgo.Type {
			switch f {
			case `Array`:
				return tf.Array(args...)
			case `Map`:
				return tf.Map(args...)
			case `String`:
				return tf.String(args...)
			case `Binary`:
				return tf.Binary(args...)
			}
			return tf.Sensitive(args...)
		}
		m := described(f, as)
		if m == nil {
			c.Seen(f + ` ` + string(fs))
			wantRefusal(c, `tf.`+f, cs, func() { make() })
			return
		}
		c.Seen(f + ` ` + string(fs) + ` ` + m.String())
		t := make()
		switch st := t.(type) {
		case dgo.ArrayType:
			if int64(st.Min()) != m.Min || int64(st.Max()) != m.Max || st.Unbounded() != (m.Min == 0 && m.Max == gen.Inf) {
				c.Fail(`tf.Array: size`, "%s has size %d to %d unbounded %v", cs, st.Min(), st.Max(), st.Unbounded())
			}
			if !st.ElementType().Equals(m.Ts[0].Canonical()) {
				c.Fail(`tf.Array: element type`, "%s has element type %s", cs, st.ElementType())
			}
		case dgo.MapType:
			if int64(st.Min()) != m.Min || int64(st.Max()) != m.Max || st.Unbounded() != (m.Min == 0 && m.Max == gen.Inf) {
				c.Fail(`tf.Map: size`, "%s has size %d to %d unbounded %v", cs, st.Min(), st.Max(), st.Unbounded())
			}
			if !st.KeyType().Equals(m.Ts[0].Canonical()) || !st.ValueType().Equals(m.Ts[1].Canonical()) {
				c.Fail(`tf.Map: key and value type`, "%s has key type %s and value type %s", cs, st.KeyType(), st.ValueType())
			}
		case dgo.StringType:
			if m.K == gen.TStrR && (int64(st.Min()) != m.Min || int64(st.Max()) != m.Max || st.Unbounded() != (m.Min == 0 && m.Max == gen.Inf)) ||
				m.K == gen.TExact && (st.Min() != len(m.V.S) || st.Max() != len(m.V.S)) {
				c.Fail(`tf.String: size`, "%s has size %d to %d unbounded %v", cs, st.Min(), st.Max(), st.Unbounded())
			}
		case dgo.BinaryType:
			if int64(st.Min()) != m.Min || int64(st.Max()) != m.Max || st.Unbounded() != (m.Min == 0 && m.Max == gen.Inf) {
				c.Fail(`tf.Binary: size`, "%s has size %d to %d unbounded %v", cs, st.Min(), st.Max(), st.Unbounded())
			}
		}
		c.Count(`described types`, 1)
		sameMeaning(c, r, `tf.`+f, cs, m, t, 12)
		// the text denotes the type that was described too
		if ct := m.Canonical(); !t.Equals(ct) || !ct.Equals(t) || t.HashCode() != ct.HashCode() || t.String() != ct.String() {
			c.Fail(`tf.`+f+`: differs from the type with the same description`, "%s is %s, expected %s", cs, t, ct)
		}
	})
	c.Run(`lists`, c.N(1500, 25000), func(r *rand.Rand, i int) {
		// factories for lists of types or values
		n := r.Intn(5)
		var m *gen.T
		var t dgo.Type
		var cs string
		f := []string{`Tuple`, `VariadicTuple`, `AllOf`, `AnyOf`, `OneOf`, `Enum`, `CiEnum`, `IntEnum`, `Integer`, `Float`, `CiString`, `Function`}[r.Intn(12)]
		switch f {
		case `Tuple`, `VariadicTuple`, `AllOf`, `AnyOf`, `OneOf`:
			as := make([]fArg, n)
			args := make([]interface{}, n)
			ts := make([]*gen.T, n)
			bad := false
			for k := range as {
				kind := byte('t')
				if chance(r, 10) {
					kind = "isx"[r.Intn(3)]
				}
				as[k] = genFArg(r, cfg, kind)
				args[k] = as[k].arg
				ts[k] = as[k].t
				if kind == 'x' && !strings.HasSuffix(f, `Tuple`) {
					as[k].arg = []interface{}{1.5, true, vf.Float(1), []byte{1}, vf.Values(1, `a`)}[r.Intn(5)]
					args[k] = as[k].arg
				}
				if kind != 't' {
					bad = true
					ts[k] = &gen.T{K: gen.TExact, V: gen.Observe(vf.Value(args[k]))}
				}
			}
			cs = call(f, as)
			mk := func() {
				switch f {
				case `Tuple`:
					t = tf.Tuple(args...)
				case `VariadicTuple`:
					t = tf.VariadicTuple(args...)
				case `AllOf`:
					t = tf.AllOf(args...)
				case `AnyOf`:
					t = tf.AnyOf(args...)
				default:
					t = tf.OneOf(args...)
				}
			}
			if strings.HasSuffix(f, `Tuple`) {
				if bad || n == 0 && f == `VariadicTuple` {
					c.Seen(f + fmt.Sprint(n))
					wantRefusal(c, `tf.`+f, cs, mk)
					return
				}
				m = &gen.T{K: gen.TTuple, Ts: ts, Variadic: f == `VariadicTuple`}
			} else {
				m = &gen.T{K: map[string]gen.TK{`AllOf`: gen.TAllOf, `AnyOf`: gen.TAnyOf, `OneOf`: gen.TOneOf}[f], Ts: ts}
				if n == 0 {
					if f == `AllOf` {
						m = &gen.T{K: gen.TAny}
					} else {
						m = &gen.T{K: gen.TNot, Ts: []*gen.T{{K: gen.TAny}}}
					}
				} else if n == 1 {
					m = ts[0]
				}
			}
			mk()
			if tt, ok := t.(dgo.TupleType); ok && strings.HasSuffix(f, `Tuple`) {
				if tt.Len() != n || tt.Variadic() != m.Variadic {
					c.Fail(`tf.`+f+`: length`, "%s has length %d, variadic %v", cs, tt.Len(), tt.Variadic())
				}
				mn, mx := n, n
				if m.Variadic {
					mn, mx = n-1, math.MaxInt64
				}
				if tt.Min() != mn || tt.Max() != mx {
					c.Fail(`tf.`+f+`: size`, "%s has size %d to %d", cs, tt.Min(), tt.Max())
				}
				for k := 0; k < n; k++ {
					if !tt.Element(k).Equals(ts[k].Canonical()) || !tt.ElementTypes().Get(k).Equals(ts[k].Canonical()) {
						c.Fail(`tf.`+f+`: element`, "%s has element %d %s", cs, k, tt.Element(k))
					}
				}
			}
			if tt, ok := t.(dgo.TernaryType); ok && n > 1 && m.K != gen.TTuple {
				if tt.Operands().Len() != n {
					c.Fail(`tf.`+f+`: operands`, "%s has the operands %s", cs, tt.Operands())
				}
			}
		case `Enum`, `CiEnum`:
			ss := make([]string, n)
			m = &gen.T{K: gen.TAnyOf}
			for k := range ss {
				if f == `Enum` {
					ss[k] = gen.Strs[r.Intn(len(gen.Strs))]
					m.Ts = append(m.Ts, &gen.T{K: gen.TExact, V: gen.Str(ss[k])})
				} else {
					ss[k] = gen.CiStrs[r.Intn(len(gen.CiStrs))]
					m.Ts = append(m.Ts, &gen.T{K: gen.TCi, S: ss[k]})
				}
			}
			cs = fmt.Sprintf("%s(%q)", f, ss)
			if f == `Enum` {
				t = tf.Enum(ss...)
			} else {
				t = tf.CiEnum(ss...)
			}
		case `IntEnum`:
			is := make([]int, n)
			m = &gen.T{K: gen.TAnyOf}
			for k := range is {
				is[k] = r.Intn(6) - 2
				m.Ts = append(m.Ts, &gen.T{K: gen.TExact, V: gen.Int(int64(is[k]))})
			}
			cs = fmt.Sprintf("IntEnum(%v)", is)
			t = tf.IntEnum(is...)
		case `Integer`:
			mn, mx, incl := int64(r.Intn(9)-4), int64(r.Intn(9)-4), chance(r, 60)
			if chance(r, 20) {
				mn = math.MinInt64
			}
			if chance(r, 20) {
				mx = math.MaxInt64
			}
			cs = fmt.Sprintf("Integer(%d, %d, %v)", mn, mx, incl)
			if mn == mx && !incl {
				c.Seen(cs)
				wantRefusal(c, `tf.Integer`, cs, func() { tf.Integer(mn, mx, incl) })
				return
			}
			t = tf.Integer(mn, mx, incl)
			if mn > mx {
				mn, mx = mx, mn
			}
			m = &gen.T{K: gen.TIntR, Min: mn, Max: mx, Incl: incl}
			it := t.(dgo.IntegerType)
			if it.Min() != mn || it.Max() != mx || it.Inclusive() != incl {
				c.Fail(`tf.Integer: limits`, "%s is %d to %d inclusive %v", cs, it.Min(), it.Max(), it.Inclusive())
			}
			for k := 0; k < 6; k++ {
				x := []int64{mn, mx, mn + 1, mx - 1, mn - 1, mx + 1}[k]
				if e, g := m.Accept(gen.Int(x)), it.IsInstance(x); e != g || t.Instance(x) != e || t.Instance(vf.Integer(x)) != e {
					c.Fail(`tf.Integer: limits`, "%s accepts %d: %v", cs, x, g)
				}
			}
		case `Float`:
			mn, mx, incl := float64(r.Intn(9)-4)/2, float64(r.Intn(9)-4)/2, chance(r, 60)
			cs = fmt.Sprintf("Float(%g, %g, %v)", mn, mx, incl)
			if mn == mx && !incl {
				c.Seen(cs)
				wantRefusal(c, `tf.Float`, cs, func() { tf.Float(mn, mx, incl) })
				return
			}
			t = tf.Float(mn, mx, incl)
			if mn > mx {
				mn, mx = mx, mn
			}
			m = &gen.T{K: gen.TFloatR, FMin: mn, FMax: mx, Incl: incl}
			ft := t.(dgo.FloatType)
			if ft.Min() != mn || ft.Max() != mx || ft.Inclusive() != incl {
				c.Fail(`tf.Float: limits`, "%s is %g to %g inclusive %v", cs, ft.Min(), ft.Max(), ft.Inclusive())
			}
			for k := 0; k < 6; k++ {
				x := []float64{mn, mx, math.Nextafter(mn, -9), math.Nextafter(mn, 9), math.Nextafter(mx, -9), math.Nextafter(mx, 9)}[k]
				if e, g := m.Accept(gen.Float(x)), ft.IsInstance(x); e != g || t.Instance(x) != e || t.Instance(vf.Float(x)) != e {
					c.Fail(`tf.Float: limits`, "%s accepts %g: %v", cs, x, g)
				}
			}
		case `CiString`:
			a := genFArg(r, cfg, "sssstix"[r.Intn(7)])
			cs = call(f, []fArg{a})
			if a.kind != 's' {
				c.Seen(cs)
				wantRefusal(c, `tf.CiString`, cs, func() { tf.CiString(a.arg) })
				return
			}
			m = &gen.T{K: gen.TCi, S: a.s}
			t = tf.CiString(a.arg)
		default:
			tup := func() (*gen.T, dgo.TupleType) {
				ts := make([]*gen.T, r.Intn(3))
				as := make([]interface{}, len(ts))
				for k := range ts {
					ts[k] = gen.GenType(r, &gen.TCfg{NoFunc: true})
					as[k] = ts[k].Build(r)
				}
				if len(ts) > 0 && chance(r, 30) {
					return &gen.T{K: gen.TTuple, Ts: ts, Variadic: true}, tf.VariadicTuple(as...)
				}
				return &gen.T{K: gen.TTuple, Ts: ts}, tf.Tuple(as...)
			}
			ma, a := tup()
			mo, o := tup()
			cs = fmt.Sprintf("Function(%s, %s)", ma, mo)
			c.Seen(cs)
			if mo.Variadic && !typ.Tuple.Equals(o) {
				wantRefusal(c, `tf.Function`, cs, func() { tf.Function(a, o) })
				return
			}
			ft := tf.Function(a, o)
			if !ft.In().Equals(a) || !ft.Out().Equals(o) || ft.Variadic() != ma.Variadic || ft.In().Len() != len(ma.Ts) || ft.Out().Len() != len(mo.Ts) {
				c.Fail(`tf.Function: parts`, "%s has %s %s %v", cs, ft.In(), ft.Out(), ft.Variadic())
			}
			c.Count(`function types`, 1)
			return
		}
		c.Seen(f + ` ` + m.String())
		c.Count(`described types`, 1)
		sameMeaning(c, r, `tf.`+f, cs, m, t, 12)
	})
	c.Run(`entries`, c.N(1500, 25000), func(r *rand.Rand, i int) { c26Struct(c, r) })
}

// c26Struct composes struct map types from entries
func c26Struct(c *mon.Ctx, r *rand.Rand) {
	cfg := &gen.TCfg{Depth: 1, NoFunc: true}
	type ent struct {
		k, v     fArg
		required bool
	}
	n := r.Intn(4)
	es := make([]ent, n)
	des := make([]dgo.StructMapEntry, n)
	m := &gen.T{K: gen.TStruct, Additional: chance(r, 40)}
	bad := false
	cs := fmt.Sprintf("StructMap(%v", m.Additional)
	for k := range es {
		e := ent{v: genFArg(r, cfg, 't'), required: chance(r, 60)}
		key := gen.Str(fmt.Sprintf("%s%d", gen.Strs[r.Intn(4)], k))
		if chance(r, 20) {
			key = gen.Int(int64(k))
		}
		var ka interface{} = key.Build(r, false)
		switch r.Intn(3) {
		case 0:
			ka = key.Build(r, false).Type()
		case 1:
			if key.K == gen.KStr {
				ka = key.S
			}
		}
		if chance(r, 4) {
			ka = []dgo.Type{typ.String, typ.Any, tf.Integer(1, 2, true), tf.Pattern(regexp.MustCompile(`a`))}[r.Intn(4)]
			bad = true
		}
		var et *gen.T = e.v.t
		var va interface{} = e.v.arg
		if chance(r, 20) { // a value stands for its exact type
			x := genFArg(r, cfg, "is"[r.Intn(2)])
			va = x.arg
			if x.kind == 'i' {
				et = &gen.T{K: gen.TExact, V: gen.Int(x.i)}
			} else {
				et = &gen.T{K: gen.TExact, V: gen.Str(x.s)}
			}
		}
		de := tf.StructMapEntry(ka, va, e.required)
		des[k] = de
		m.Entries = append(m.Entries, gen.StructEntry{Key: key, T: et, Required: e.required})
		cs += fmt.Sprintf(", %v (%T) %v %v", ka, ka, et, e.required)
		if kt, ok := de.Key().(dgo.Type); !ok || !bad && !kt.Instance(key.Build(r, false)) || de.Required() != e.required || !de.Value().Equals(et.Canonical()) {
			c.Fail(`tf.StructMapEntry: parts`, "%s: the entry is %s", cs, de)
		}
		// equality of entries
		d2 := tf.StructMapEntry(ka, va, e.required)
		d3 := tf.StructMapEntry(ka, va, !e.required)
		if !de.Equals(d2) || de.HashCode() != d2.HashCode() || de.Equals(d3) || de.Equals(et) || k > 0 && !bad && de.Equals(des[0]) {
			c.Fail(`tf.StructMapEntry: equality`, "%s: the entry is %s", cs, de)
		}
	}
	c.Seen(cs)
	if bad {
		mon.Catch(func() {}) // keys must be exact
		if m.Additional || n > 0 {
			wantRefusal(c, `tf.StructMap`, cs, func() { tf.StructMap(m.Additional, des...) })
		}
		return
	}
	t := tf.StructMap(m.Additional, des...)
	if t.Additional() != m.Additional || t.Len() != n {
		c.Fail(`tf.StructMap: parts`, "%s has length %d, additional %v", cs, t.Len(), t.Additional())
	}
	k := 0
	t.Each(func(e dgo.StructMapEntry) {
		if k >= n || !e.Key().Equals(des[k].Key()) || e.Required() != des[k].Required() || !e.Value().Equals(des[k].Value()) {
			c.Fail(`tf.StructMap: entries`, "%s has entry %d %s", cs, k, e)
		}
		k++
	})
	if k != n {
		c.Fail(`tf.StructMap: entries`, "%s has %d entries", cs, k)
	}
	for _, e := range m.Entries {
		g := t.Get(e.Key.Build(r, false))
		if g == nil || g.Required() != e.Required || !g.Value().Equals(e.T.Canonical()) {
			c.Fail(`tf.StructMap: Get`, "%s has entry %s for key %s", cs, g, e.Key)
		}
	}
	if g := t.Get(`no such key`); g != nil {
		c.Fail(`tf.StructMap: Get`, "%s has entry %s for a key that it does not have", cs, g)
	}
	min, max := 0, n
	for _, e := range m.Entries {
		if e.Required {
			min++
		}
	}
	if m.Additional {
		max = math.MaxInt64
	}
	if t.Min() != min || t.Max() != max {
		c.Fail(`tf.StructMap: size`, "%s has size %d to %d, expected %d to %d", cs, t.Min(), t.Max(), min, max)
	}
	c.Count(`struct map types`, 1)
	sameMeaning(c, r, `tf.StructMap`, cs, m, t, 12)
}
