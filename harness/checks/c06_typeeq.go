package checks

import (
	"fmt"
	"math/rand"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C06`, Scale: 8, Rule: `a pair of types for which the equality laws were evaluated; distinct by the models of both`, Run: runC06})
}

// shuffled returns a type with the operands of commutative operators in another order, on all levels
func shuffled(r *rand.Rand, t *gen.T) *gen.T {
	n := *t
	n.Ts = make([]*gen.T, len(t.Ts))
	for i := range t.Ts {
		n.Ts[i] = shuffled(r, t.Ts[i])
	}
	n.Entries = append([]gen.StructEntry{}, t.Entries...)
	for i := range n.Entries {
		n.Entries[i].T = shuffled(r, n.Entries[i].T)
	}
	if t.K == gen.TAnyOf || t.K == gen.TAllOf || t.K == gen.TOneOf {
		r.Shuffle(len(n.Ts), func(i, j int) { n.Ts[i], n.Ts[j] = n.Ts[j], n.Ts[i] })
	}
	return &n
}

// typePair is a type with a description and something to draw sample values from
type namedType struct {
	t    dgo.Type
	desc string
	m    *gen.T // may be nil
}

// eqLaws checks the laws for a pair of types. must is true when the types are known to be equal
func eqLaws(c *mon.Ctx, r *rand.Rand, a, b namedType, must bool, what string) bool {
	ab, ba := a.t.Equals(b.t), b.t.Equals(a.t)
	d := fmt.Sprintf("a = %s (%T %s)\nb = %s (%T %s)", a.desc, a.t, a.t, b.desc, b.t, b.t)
	if !a.t.Equals(a.t) || !b.t.Equals(b.t) {
		c.Fail(`type equality is not reflexive: `+what, `%s`, d)
	}
	if ab != ba {
		c.Fail(`type equality is not symmetric: `+what, "a equals b: %v, b equals a: %v\n%s", ab, ba, d)
	}
	if must && !ab {
		c.Fail(`types built from the same parts are not equal: `+what, `%s`, d)
	}
	if a.t.HashCode() != a.t.HashCode() {
		c.Fail(`type hash is not stable: `+what, `%s`, d)
	}
	c.Count(`pairs`, 1)
	if !ab {
		c.Count(`unequal pairs`, 1)
		if vf.Map(a.t, 1).Get(b.t) != nil {
			c.Fail(`map finds an unequal type: `+what, `%s`, d)
		}
		return false
	}
	c.Count(`equal pairs`, 1)
	if a.t.HashCode() != b.t.HashCode() {
		c.Fail(`equal types have different hash codes: `+what, "%d and %d\n%s", a.t.HashCode(), b.t.HashCode(), d)
	}
	if vf.Map(a.t, 1).Get(b.t) == nil || !vf.Map(`x`, 0, a.t, 1, `y`, 2).ContainsKey(b.t) {
		c.Fail(`map does not find an equal type: `+what, `%s`, d)
	}
	if !vf.Values(a.t).Equals(vf.Values(b.t)) || vf.Values(1, a.t).IndexOf(b.t) != 1 {
		c.Fail(`array does not find an equal type: `+what, `%s`, d)
	}
	if !a.t.Assignable(b.t) || !b.t.Assignable(a.t) {
		c.Fail(`equal types are not mutually assignable: `+what, "a from b: %v, b from a: %v\n%s", a.t.Assignable(b.t), b.t.Assignable(a.t), d)
	}
	allOf := func(t *gen.T) bool { return t.K == gen.TAllOf }
	if a.m != nil {
		n := gen.NearType(r, a.m, &gen.TCfg{Depth: 1})
		if n.Has(allOf) || a.m.Has(allOf) {
			n = &gen.T{K: gen.TStr} // the order of operands makes a difference, see the findings of C09
		}
		p := n.Build(r)
		if x, y := a.t.Assignable(p), b.t.Assignable(p); x != y {
			c.Fail(`equal types are assignable from different types: `+what, "from %s: a: %v, b: %v\n%s", n, x, y, d)
		}
		if x, y := p.Assignable(a.t), p.Assignable(b.t); x != y {
			c.Fail(`equal types are assignable to different types: `+what, "to %s: a: %v, b: %v\n%s", n, x, y, d)
		}
		c.Count(`assignabilities compared`, 2)
	}
	for _, m := range []*gen.T{a.m, b.m} {
		for k := 0; m != nil && k < 5; k++ {
			v := m.GenFor(r)
			x := v.Build(r, false)
			if a.t.Instance(x) != b.t.Instance(x) {
				c.Fail(`equal types accept different values: `+what, "value %s, accepted by a: %v, accepted by b: %v\n%s", v.Canon(false), a.t.Instance(x), b.t.Instance(x), d)
			}
			c.Count(`values compared`, 1)
		}
	}
	return true
}

func runC06(c *mon.Ctx) {
	mk := func(r *rand.Rand, m *gen.T) namedType { return namedType{m.Build(r), m.String(), m} }
	seen := func(a, b *gen.T) { c.Seen(a.String() + ` = ` + b.String()) }
	c.Run(`same parts`, c.N(20000, 800000), func(r *rand.Rand, i int) {
		m := gen.GenType(r, &gen.TCfg{Depth: i % 4})
		s := shuffled(r, m)
		seen(m, s)
		a, b := mk(r, m), mk(r, m)
		eqLaws(c, r, a, b, true, typeSig(m))
		eqLaws(c, r, a, mk(r, s), true, `permuted `+typeSig(m))
		if a.t.Equals(42) || a.t.Equals(nil) || a.t.Equals(`x`) {
			c.Fail(`type equals a value: `+typeSig(m), "%s", a.desc)
		}
		if m.K == gen.TExact {
			if v := m.V.Build(r, false); a.t.Equals(v) || v.Equals(a.t) {
				c.Fail(`exact type equals its value: `+typeSig(m), "%s", a.desc)
			}
		}
		if i < 3 {
			c.Sample(a.t.String())
		}
	})
	c.Run(`near`, c.N(20000, 800000), func(r *rand.Rand, i int) {
		m := gen.GenType(r, &gen.TCfg{Depth: i % 3})
		n := gen.NearType(r, m, &gen.TCfg{Depth: 1})
		o := gen.NearType(r, n, &gen.TCfg{Depth: 1})
		seen(m, n)
		x, y, z := mk(r, m), mk(r, n), mk(r, o)
		xy := eqLaws(c, r, x, y, false, typeSig(m)+` with `+typeSig(n))
		yz := eqLaws(c, r, y, z, false, typeSig(n)+` with `+typeSig(o))
		xz := eqLaws(c, r, x, z, false, typeSig(m)+` with `+typeSig(o))
		if xy && yz && !xz || xy && xz && !yz || xz && yz && !xy {
			c.Fail(`type equality is not transitive: `+typeSig(m), "%s\n%s\n%s", x.desc, y.desc, z.desc)
		}
	})
	// types with many parts that differ in a few of them
	c.Run(`many parts`, c.N(6000, 300000), func(r *rand.Rand, _ int) {
		m, n := gen.WideType(r)
		seen(m, n)
		a := mk(r, m)
		eqLaws(c, r, a, mk(r, shuffled(r, m)), true, `permuted `+typeSig(m))
		eqLaws(c, r, a, mk(r, n), false, typeSig(m)+` with `+typeSig(n))
	})
	// types obtained from values and types
	c.Run(`derived`, c.N(10000, 400000), func(r *rand.Rand, i int) {
		m := gen.GenType(r, &gen.TCfg{Depth: 1 + i%3})
		n := gen.NearType(r, m, &gen.TCfg{Depth: 1})
		as := derivedTypes(mk(r, m).t)
		bs := append(derivedTypes(mk(r, m).t), derivedTypes(mk(r, n).t)...)
		if i%2 == 0 {
			v := gen.GenArr(r, &gen.Cfg{Depth: 2, MaxLen: 3})
			as = derivedTypes(v.Build(r, false).Type())
			w := v
			if r.Intn(2) == 0 {
				w = gen.Tweak(r, v)
			}
			bs = derivedTypes(w.Build(r, false).Type())
			seen(&gen.T{K: gen.TExact, V: v}, &gen.T{K: gen.TExact, V: w})
		} else {
			seen(m, n)
		}
		for _, a := range as {
			for _, b := range bs {
				if a.t != nil && b.t != nil {
					eqLaws(c, r, a, b, false, `derived`)
				}
			}
		}
	})
	c.Run(`element types`, c.N(6000, 200000), func(r *rand.Rand, i int) { c06ElementTypes(c, r, i) })
	c.Run(`functions`, c.N(1500, 40000), func(r *rand.Rand, _ int) {
		fa, fb := goFuncs[r.Intn(len(goFuncs))], goFuncs[r.Intn(len(goFuncs))]
		var ts []namedType
		for _, f := range []interface{}{fa.f, fb.f} {
			ft := vf.Value(f).Type().(dgo.FunctionType)
			ts = append(ts, namedType{t: ft, desc: `type of go function ` + ft.String()})
			ct := tf.Function(rebuildTuple(ft.In()), rebuildTuple(ft.Out()))
			ts = append(ts, namedType{t: ct, desc: `composed ` + ct.String()})
		}
		c.Seen(ts[0].desc + ts[2].desc)
		for i, a := range ts {
			for j, b := range ts {
				eqLaws(c, r, a, b, i/2 == j/2, `function`)
				eqLaws(c, r, namedType{t: a.t.(dgo.FunctionType).In(), desc: `in ` + a.desc}, namedType{t: b.t.(dgo.FunctionType).In(), desc: `in ` + b.desc}, i/2 == j/2, `function tuple`)
			}
		}
	})
	c.Run(`named`, c.N(300, 10000), func(r *rand.Rand, i int) {
		x, y := fmt.Sprintf(`c06a%d`, i), fmt.Sprintf(`c06b%d`, i)
		nx, ny := tf.NewNamed(x, nil, nil, nil, nil, nil), tf.NewNamed(y, nil, nil, nil, nil, nil)
		defer tf.RemoveNamed(x)
		defer tf.RemoveNamed(y)
		v := gen.GenArr(r, &gen.Cfg{Depth: 1, MaxLen: 3, Data: true})
		w := v
		if r.Intn(2) == 0 {
			w = gen.Tweak(r, v)
		}
		ts := []namedType{{t: nx, desc: x}, {t: ny, desc: y}, {t: tf.Named(x), desc: x},
			{t: tf.Parameterized(nx, v.Build(r, false).(dgo.Array)), desc: x + v.String()},
			{t: tf.Parameterized(nx, w.Build(r, false).(dgo.Array)), desc: x + w.String()},
			{t: tf.Parameterized(ny, v.Build(r, false).(dgo.Array)), desc: y + v.String()},
			{t: tf.ExactNamed(nx, v.Build(r, false)), desc: `exact ` + x + v.String()},
			{t: tf.ExactNamed(nx, w.Build(r, false)), desc: `exact ` + x + w.String()},
			{t: tf.ExactNamed(ny, v.Build(r, false)), desc: `exact ` + y + v.String()}}
		for _, a := range ts {
			for _, b := range ts {
				if strictlyNamedEq(c, a, b) {
					c.Count(`equal pairs`, 1)
				}
			}
		}
	})
	if c.Shard == 0 || c.Only != `` {
		c.Run(`defaults`, 1, func(r *rand.Rand, _ int) {
			var ts []namedType
			for _, t := range []dgo.Type{typ.AllOf, typ.AnyOf, typ.OneOf, typ.Array, typ.Tuple, typ.EmptyTuple, typ.Map, typ.Any, typ.Boolean, typ.False, typ.True, typ.Float,
				typ.Integer, typ.Type, typ.Native, typ.Nil, typ.Not, typ.Regexp, typ.String, typ.DgoString, typ.Error, typ.Sensitive, typ.Function, typ.Binary, typ.Time, typ.Integer.Type(),
				typ.Any.Type(), typ.Any.Type().Type(), tf.Meta(typ.Any.Type())} {
				ts = append(ts, namedType{t: t, desc: t.String()})
			}
			for i, a := range ts {
				for j, b := range ts {
					ab, ba := a.t.Equals(b.t), b.t.Equals(a.t)
					if ab != ba || i == j && !ab || ab && a.t.HashCode() != b.t.HashCode() {
						c.Violate(`laws for the unconstrained types`, "%s %s: %v %v, hash %d %d", a.desc, b.desc, ab, ba, a.t.HashCode(), b.t.HashCode())
					}
				}
			}
		})
	}
}

func strictlyNamedEq(c *mon.Ctx, a, b namedType) bool {
	ab, ba := a.t.Equals(b.t), b.t.Equals(a.t)
	d := fmt.Sprintf(`%s, %s`, a.desc, b.desc)
	if ab != ba {
		c.Fail(`named type equality is not symmetric`, `%s`, d)
	}
	// The exact type of a value is identified by that value, and a value belongs to one named type only
	foreign := strings.HasPrefix(a.desc, `exact`) && strings.HasPrefix(b.desc, `exact`) && a.desc[:10] != b.desc[:10]
	if !foreign && ab != (a.desc == b.desc) {
		c.Fail(fmt.Sprintf(`named type equality: expected %v`, !ab), `%s`, d)
	}
	if ab && a.t.HashCode() != b.t.HashCode() {
		c.Fail(`equal named types have different hash codes`, `%s`, d)
	}
	c.Count(`pairs`, 1)
	return ab
}

func rebuildTuple(t dgo.TupleType) dgo.TupleType {
	var es []interface{}
	t.ElementTypes().Each(func(e dgo.Value) { es = append(es, e) })
	if t.Variadic() {
		return tf.VariadicTuple(es...)
	}
	return tf.Tuple(es...)
}

// derivedTypes returns types which can be obtained from the given type
func derivedTypes(t dgo.Type) []namedType {
	ts := []namedType{{t: t, desc: t.String()}}
	add := func(n string, x dgo.Type) { ts = append(ts, namedType{t: x, desc: n + ` of ` + t.String()}) }
	add(`generic`, typ.Generic(t))
	add(`type`, t.Type())
	switch xt := t.(type) {
	case dgo.TupleType:
		add(`element type`, xt.ElementType())
		for i := 0; i < xt.Len(); i++ {
			add(`element`, xt.Element(i))
		}
	case dgo.ArrayType:
		add(`element type`, xt.ElementType())
	case dgo.MapType:
		add(`key type`, xt.KeyType())
		add(`value type`, xt.ValueType())
	case dgo.FunctionType:
		add(`in`, xt.In())
		add(`out`, xt.Out())
	case dgo.UnaryType:
		if xt.Operand() != nil {
			add(`operand`, xt.Operand())
		}
	case dgo.TernaryType:
		xt.Operands().Each(func(v dgo.Value) {
			if o, ok := v.(dgo.Type); ok {
				add(`operand`, o)
			}
		})
	}
	return ts
}

// c06ElementTypes compares the type of the elements, keys or values of an exact collection with the intersection that is
// composed of the types of those same elements
func c06ElementTypes(c *mon.Ctx, r *rand.Rand, i int) {
	v := gen.GenArr(r, &gen.Cfg{Depth: i % 3, MaxLen: 4})
	if len(v.E) > 0 && chance(r, 30) {
		v.E = append(v.E, v.E[r.Intn(len(v.E))])
	}
	if len(v.E) < 2 {
		return
	}
	ts := make([]interface{}, len(v.E))
	es := make([]dgo.Value, len(v.E))
	for k, e := range v.E {
		es[k] = e.Build(r, false)
		ts[k] = e.Build(r, false).Type()
	}
	arr := v.Build(r, false).(dgo.Array)
	var et dgo.Type
	what := `element type`
	switch r.Intn(3) {
	case 0:
		et = arr.Type().(dgo.ArrayType).ElementType()
	case 1:
		what = `value type`
		m := vf.MutableMap()
		for k, e := range v.E {
			m.Put(k, e.Build(r, false))
		}
		et = m.Type().(dgo.MapType).ValueType()
	default:
		what = `key type`
		m := vf.MutableMap()
		for k, e := range v.E {
			m.Put(e.Build(r, false), k)
		}
		if m.Len() != len(v.E) {
			return
		}
		et = m.Type().(dgo.MapType).KeyType()
	}
	comp := tf.AllOf(ts...)
	a, b := namedType{et, what + ` of ` + v.Canon(false), nil}, namedType{comp, `composed of ` + v.Canon(false), nil}
	eqLaws(c, r, a, b, true, what)
	perm := append([]interface{}{}, ts...)
	r.Shuffle(len(perm), func(x, y int) { perm[x], perm[y] = perm[y], perm[x] })
	eqLaws(c, r, a, namedType{tf.AllOf(perm...), `permuted`, nil}, true, `permuted `+what)
	less := namedType{tf.AllOf(ts[1:]...), `without the first`, nil}
	eqLaws(c, r, a, less, false, `shorter `+what)
	if et.Equals(less.t) {
		c.Fail(`an intersection equals one with fewer operands: `+what, "%s and %s", et, less.t)
	}
	if et.String() != comp.String() {
		c.Fail(`texts of equal types differ: `+what, "%s\n%s", et, comp)
	}
	if tt, ok := et.(dgo.TernaryType); !ok || tt.Operator() != dgo.OpAnd || tt.Operands().Len() != len(ts) {
		c.Fail(`the operands of an intersection: `+what, "%s", et)
	}
	if g, h := typ.Generic(et), typ.Generic(comp); !g.Equals(h) || !h.Equals(g) {
		c.Fail(`equal types have different generic types: `+what, "%s: %s and %s", et, g, h)
	}
	if g, h := et.ReflectType(), comp.ReflectType(); g != h {
		c.Fail(`equal types have different Go types: `+what, "%s: %s and %s", et, g, h)
	}
	for k := 0; k < 4; k++ {
		x := es[r.Intn(len(es))]
		if k > 2 {
			x = gen.Gen(r, &gen.Cfg{Depth: 1}).Build(r, false)
		}
		if et.Instance(x) != comp.Instance(x) {
			c.Fail(`equal types accept different values: `+what, "%s: %s: %t and %t", et, x, et.Instance(x), comp.Instance(x))
		}
		var p dgo.Type
		switch k {
		case 0:
			p = x.Type()
		case 1:
			p = tf.AnyOf(x.Type(), gen.GenType(r, &gen.TCfg{Depth: 1}).Build(r))
		case 2:
			p = gen.TypeOfValue(r, v.E[r.Intn(len(v.E))], &gen.TCfg{Depth: 1}).Build(r)
		default:
			p = tf.AllOf(append([]interface{}{x.Type()}, ts[:1+r.Intn(len(ts))]...)...)
		}
		if et.Assignable(p) != comp.Assignable(p) {
			c.Fail(`equal types are assignable from different types: `+what, "%s from %s: %t and %t", et, p, et.Assignable(p), comp.Assignable(p))
		}
		if p.Assignable(et) != p.Assignable(comp) {
			c.Fail(`equal types are assignable to different types: `+what, "%s to %s: %t and %t", et, p, p.Assignable(et), p.Assignable(comp))
		}
	}
	c.Seen(what + v.Canon(false))
}
