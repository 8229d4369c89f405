package checks

import (
	"fmt"
	"math/rand"
	"reflect"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C10`, Scale: 8, Rule: `a value (with its type, generic type, and near misses) or a type with its instances; distinct by model`, Run: runC10})
}

var kindNames = []string{`nil`, `bool`, `int`, `float`, `string`, `binary`, `time`, `regexp`, `error`, `sensitive`, `type`, `array`, `map`}

// operandsOf returns the types from which an element, key, or value type of a tuple, struct, or exact type is composed
func operandsOf(t dgo.Type) []dgo.Type {
	if tt, ok := t.(dgo.TernaryType); ok && (tt.Operator() == dgo.OpAnd) {
		var ts []dgo.Type
		tt.Operands().Each(func(v dgo.Value) {
			if x, ok := v.(dgo.Type); ok && t.TypeIdentifier() == dgo.TiAllOf {
				ts = append(ts, x)
			} else {
				ts = append(ts, v.Type())
			}
		})
		return ts
	}
	return []dgo.Type{t}
}

func anyInstance(ts []dgo.Type, v interface{}) bool {
	for _, t := range ts {
		if t.Instance(v) {
			return true
		}
	}
	return false
}

// declared checks what a type declares about the elements and sizes of its instances
func declared(c *mon.Ctx, what string, t dgo.Type, x dgo.Value, d string) {
	if st, ok := t.(dgo.SizedType); ok {
		n := -1
		switch v := x.(type) {
		case dgo.String:
			n = len(v.GoString())
		case dgo.Array:
			n = v.Len()
		case dgo.Map:
			n = v.Len()
		case dgo.Binary:
			n = len(v.GoBytes())
		}
		_, isTuple := t.(dgo.TupleType)
		_, isString := t.(dgo.StringType)
		if isTuple {
			isString = false
		}
		if n >= 0 {
			c.Count(`sizes`, 1)
			if n < st.Min() || n > st.Max() {
				c.Fail(what+`: the declared size does not cover an instance`, "%s declares [%d, %d], instance has size %d\n%s", t, st.Min(), st.Max(), n, d)
			}
			if st.Unbounded() && !isTuple && !(st.Min() == 0 && st.Max() == int(gen.Inf)) && !isString {
				c.Fail(what+`: unbounded type with bounds`, "%s declares [%d, %d]\n%s", t, st.Min(), st.Max(), d)
			}
		}
	}
	switch tt := t.(type) {
	case dgo.IntegerType:
		if v, ok := x.(dgo.Integer); ok {
			i := v.GoInt()
			if i < tt.Min() || i > tt.Max() || i == tt.Max() && !tt.Inclusive() || !tt.IsInstance(i) {
				c.Fail(what+`: the declared range does not cover an instance`, "%s [%d %d %v] %d\n%s", t, tt.Min(), tt.Max(), tt.Inclusive(), i, d)
			}
		}
	case dgo.FloatType:
		if v, ok := x.(dgo.Float); ok {
			f := v.GoFloat()
			if f < tt.Min() || f > tt.Max() || f == tt.Max() && !tt.Inclusive() || !tt.IsInstance(f) {
				c.Fail(what+`: the declared range does not cover an instance`, "%s [%g %g %v] %g\n%s", t, tt.Min(), tt.Max(), tt.Inclusive(), f, d)
			}
		}
	case dgo.TupleType:
		a, ok := x.(dgo.Array)
		if !ok {
			break
		}
		n := tt.Len()
		ops := operandsOf(tt.ElementType())
		ets := tt.ElementTypes()
		if ets.Len() != n {
			c.Fail(what+`: number of element types`, "%s has %d elements and %d element types\n%s", t, n, ets.Len(), d)
		}
		for i := 0; i < a.Len(); i++ {
			j := i
			if j >= n {
				j = n - 1
				if !tt.Variadic() {
					c.Fail(what+`: instance is longer than the tuple`, "%s\n%s", t, d)
				}
			}
			c.Count(`elements`, 1)
			e := a.Get(i)
			if !tt.Element(j).Instance(e) || !ets.Get(j).(dgo.Type).Instance(e) {
				c.Fail(what+`: the element type of a position does not accept that element`, "%s position %d, element %s\n%s", t, i, e, d)
			}
			if !anyInstance(ops, e) {
				c.Fail(what+`: no part of the element type accepts an element`, "%s (element type %s), element %s\n%s", t, tt.ElementType(), e, d)
			}
		}
	case dgo.ArrayType:
		if a, ok := x.(dgo.Array); ok {
			a.Each(func(e dgo.Value) {
				c.Count(`elements`, 1)
				if !tt.ElementType().Instance(e) {
					c.Fail(what+`: the element type does not accept an element`, "%s (element type %s), element %s\n%s", t, tt.ElementType(), e, d)
				}
			})
		}
	case dgo.MapType:
		m, ok := x.(dgo.Map)
		if !ok {
			break
		}
		st, isStruct := t.(dgo.StructMapType)
		kts, vts := []dgo.Type{tt.KeyType()}, []dgo.Type{tt.ValueType()}
		if isStruct {
			kts, vts = operandsOf(kts[0]), operandsOf(vts[0])
		}
		m.EachEntry(func(e dgo.MapEntry) {
			c.Count(`elements`, 1)
			if _, isType := e.Key().(dgo.Type); isType && isStruct {
				return // a struct type is asked for the entry of a key, or for the entry of the type of a key
			}
			if isStruct {
				if se := st.Get(e.Key()); se != nil {
					if !se.Key().(dgo.Type).Instance(e.Key()) || !se.Value().(dgo.Type).Instance(e.Value()) {
						c.Fail(what+`: the declared entry does not accept an entry`, "%s entry %s declared as %s: %s\n%s", t, e, se.Key(), se.Value(), d)
					}
				} else if st.Additional() {
					return
				} else {
					c.Fail(what+`: no declared entry for an entry of an instance`, "%s entry %s\n%s", t, e, d)
				}
			}
			if !anyInstance(kts, e.Key()) {
				c.Fail(what+`: the key type does not accept a key`, "%s (key type %s), key %s\n%s", t, tt.KeyType(), e.Key(), d)
			}
			if !anyInstance(vts, e.Value()) {
				c.Fail(what+`: the value type does not accept a value`, "%s (value type %s), value %s\n%s", t, tt.ValueType(), e.Value(), d)
			}
		})
		if isStruct {
			n, req := 0, 0
			st.Each(func(e dgo.StructMapEntry) {
				n++
				if e.Required() {
					req++
					if et, ok := e.Key().(dgo.ExactType); ok && m.Get(et.ExactValue()) == nil {
						c.Fail(what+`: a required entry is missing in an instance`, "%s entry %s\n%s", t, et, d)
					}
				}
			})
			if n != st.Len() || st.Min() != req || (st.Additional() != (st.Max() > n)) {
				c.Fail(what+`: struct counts`, "%s has %d entries, %d required, declares len %d, min %d, max %d\n%s", t, n, req, st.Len(), st.Min(), st.Max(), d)
			}
		}
	case dgo.UnaryType:
		if sv, ok := x.(dgo.Sensitive); ok && tt.Operator() == dgo.OpSensitive {
			if tt.Operand() != nil && !tt.Operand().Instance(sv.Unwrap()) {
				c.Fail(what+`: the operand of the sensitive type does not accept the content`, "%s", d)
			}
		}
	}
}

// c10Value checks the type of a value
func c10Value(c *mon.Ctx, r *rand.Rand, v *gen.V) {
	kind := kindNames[v.K]
	x, y := v.Build(r, false), v.Build(r, r.Intn(2) == 0)
	t := x.Type()
	d := fmt.Sprintf("value %s, type %s (%T)", v.Canon(false), t, t)
	c.Seen(v.Canon(false))
	if t == nil {
		c.Fail(`no type: `+kind, `%s`, d)
	}
	exact := !hasKind(v, gen.KSens, gen.KType)
	if v.K == gen.KType {
		if !t.Instance(x) || !typ.Type.Instance(x) || !t.Type().Instance(t) {
			c.Fail(`the type of a type does not accept it`, `%s`, d)
		}
		if mt, ok := t.(dgo.Meta); !ok || mt.Describes() != nil && !mt.Describes().Equals(x) { // the chain of meta types ends with one that describes nothing
			c.Fail(`the type of a type does not describe it`, `%s`, d)
		}
		return
	}
	if !t.Instance(x) || !t.Instance(y) || !t.Instance(x) {
		c.Fail(`the type of a value does not accept it: `+kind, "same: %v, equal: %v\n%s", t.Instance(x), t.Instance(y), d)
	}
	if !t.Equals(y.Type()) || !y.Type().Equals(t) {
		c.Fail(`equal values have different types: `+kind, "other type %s\n%s", y.Type(), d)
	}
	declared(c, `type of a value`, t, y, d)
	g := typ.Generic(t)
	if !g.Instance(x) || !g.Instance(y) {
		c.Fail(`the generic type of a value does not accept it: `+kind, "generic type %s\n%s", g, d)
	}
	if !g.Assignable(t) {
		c.Fail(`the generic type is not assignable from the type: `+kind, "generic type %s\n%s", g, d)
	}
	if gg := typ.Generic(g); !gg.Equals(g) {
		c.Fail(`generic is not idempotent: `+kind, "generic type %s, generic of that %s\n%s", g, gg, d)
	}
	if _, ok := g.(dgo.ExactType); ok && v.K != gen.KNil {
		c.Fail(`the generic type is exact: `+kind, "generic type %s\n%s", g, d)
	}
	declared(c, `generic type of a value`, g, y, d)
	if want := genericModel(v); want != nil && (!want.Equals(g) || !g.Equals(want)) {
		c.Fail(`the generic type is not the least one: `+kind, "generic type %s, expected %s\n%s", g, want, d)
	}
	var ev dgo.Value
	if et, ok := t.(dgo.ExactType); ok {
		ev = et.ExactValue()
		if !gen.Eq(gen.Observe(ev), v) && exact {
			c.Fail(`exact value of the type: `+kind, "exact value %s\n%s", ev, d)
		}
	}
	if v.K != gen.KSens {
		if typ.ExactValue(t) == nil || !typ.ExactValue(t).Equals(x) {
			c.Fail(`the type does not know its value: `+kind, "exact value %v\n%s", typ.ExactValue(t), d)
		}
	}
	if x.Type().TypeIdentifier() != t.TypeIdentifier() {
		c.Fail(`type identifier is not stable: `+kind, `%s`, d)
	}
	if !exact {
		return
	}
	for k := 0; k < 5; k++ {
		w := gen.Tweak(r, v)
		switch k {
		case 2:
			w = gen.Tweak(r, w)
		case 3:
			w = gen.Gen(r, &gen.Cfg{Depth: 1, MaxLen: 3})
		case 4:
			w = gen.Arr(v)
		}
		wx := w.Build(r, false)
		eq := gen.Eq(v, w)
		c.Count(`near misses`, 1)
		if t.Instance(wx) != eq {
			c.Fail(fmt.Sprintf(`the type of a value accepts another value (expected %v): %s`, eq, kind), "other value %s\n%s", w.Canon(false), d)
		}
		if !hasKind(w, gen.KSens, gen.KType) {
			if t.Equals(wx.Type()) != eq {
				c.Fail(fmt.Sprintf(`types of values are equal (expected %v): %s`, eq, kind), "other value %s\n%s", w.Canon(false), d)
			}
			if t.Assignable(wx.Type()) != eq {
				c.Fail(fmt.Sprintf(`type assignable from the type of another value (expected %v): %s`, eq, kind), "other value %s\n%s", w.Canon(false), d)
			}
		}
	}
}

// genericModel returns the generic type of a value without sensitives and types: the type that only retains the kinds of
// the parts where one of those accepts the others
func genericModel(v *gen.V) dgo.Type {
	switch v.K {
	case gen.KNil:
		return typ.Nil
	case gen.KBool:
		return typ.Boolean
	case gen.KInt:
		return typ.Integer
	case gen.KFloat:
		return typ.Float
	case gen.KStr:
		return typ.String
	case gen.KArr:
		if e := genericCommon(v.E); e != nil {
			return tf.Array(e)
		}
	case gen.KMap:
		if kt, vt := genericCommon(v.Keys), genericCommon(v.E); kt != nil && vt != nil {
			return tf.Map(kt, vt)
		}
	}
	return nil
}

func genericCommon(vs []*gen.V) dgo.Type {
	ts := make([]dgo.Type, len(vs))
	for i := range vs {
		if ts[i] = genericModel(vs[i]); ts[i] == nil {
			return nil
		}
	}
next:
	for _, t := range ts {
		for _, o := range ts {
			if !t.Assignable(o) {
				continue next
			}
		}
		return t
	}
	return typ.Any
}

// wrongNot returns true if a negation is assignable from alternatives in the type although one of those is not covered,
// which is listed as known for C09. The generic type of a tuple or struct is composed by such verdicts.
func wrongNot(m *gen.T) bool {
	subs := subTypes(m)
	for _, a := range subs {
		for _, b := range subs {
			if a.K == gen.TNot && (b.K == gen.TAnyOf || b.K == gen.TOneOf) && a.Canonical().Assignable(b.Canonical()) {
				for _, o := range b.Ts {
					if !a.Canonical().Assignable(o.Canonical()) {
						return true
					}
				}
			}
		}
	}
	return false
}

type c10Struct struct {
	Name  string
	Age   int
	Tags  []string
	Inner map[string]int
	P     *int
}

func runC10(c *mon.Ctx) {
	c.Run(`values`, c.N(100000, 2500000), func(r *rand.Rand, i int) {
		v := gen.Gen(r, &gen.Cfg{Depth: i % 4, MaxLen: 4})
		c10Value(c, r, v)
		if i < 3 {
			c.Sample(v.String())
		}
	})
	// a mutable collection has, at each point in time, a type that denotes its current content
	c.Run(`changing values`, c.N(20000, 500000), func(r *rand.Rand, _ int) {
		v := gen.GenArr(r, &gen.Cfg{Depth: 2, MaxLen: 3, NoSens: true, NoType: true})
		w := gen.GenArr(r, &gen.Cfg{Depth: 2, MaxLen: 3, NoSens: true, NoType: true})
		x := v.Build(r, true).(dgo.Array)
		before := x.FrozenCopy().Type()
		x.AddAll(w.Build(r, true).(dgo.Array))
		m := gen.Arr(append(append([]*gen.V{}, v.E...), w.E...)...)
		d := fmt.Sprintf("%s changed to %s", v, m)
		c.Seen(d)
		if !x.Type().Instance(m.Build(r, false)) || x.Type().Instance(v.Build(r, false)) != (len(w.E) == 0) {
			c.Fail(`the type of a changed value does not denote it`, `%s: %s`, d, x.Type())
		}
		if !before.Instance(v.Build(r, false)) {
			c.Fail(`the type of a frozen copy changed`, `%s: %s`, d, before)
		}
	})
	c.Run(`types`, c.N(60000, 2000000), func(r *rand.Rand, i int) {
		m := gen.GenType(r, &gen.TCfg{Depth: i % 4})
		if i == 0 { // the finding that is listed as known
			ex := func(v *gen.V) *gen.T { return &gen.T{K: gen.TExact, V: v} }
			m = &gen.T{K: gen.TTuple, Ts: []*gen.T{{K: gen.TNot, Ts: []*gen.T{{K: gen.TStr}}},
				{K: gen.TAnyOf, Ts: []*gen.T{ex(gen.Bool(false)), ex(gen.Str(`x y`))}}}}
		}
		if i%3 == 1 {
			m = gen.TypeOfValue(r, gen.Gen(r, &gen.Cfg{Depth: 2, MaxLen: 3}), &gen.TCfg{Depth: 1})
		}
		t := m.Build(r)
		g := typ.Generic(t)
		c.Seen(m.String())
		d := fmt.Sprintf("%s = %s, generic %s", m, t, g)
		if gg := typ.Generic(g); !gg.Equals(g) {
			c.Fail(`generic is not idempotent: `+typeSig(m), "generic of the generic %s\n%s", gg, d)
		}
		for k := 0; k < 6; k++ {
			v := m.GenFor(r)
			if i == 0 {
				v = gen.Arr(gen.Int(1), gen.Str(`x y`))
			}
			x := v.Build(r, false)
			if !t.Instance(x) {
				continue
			}
			c.Count(`instances`, 1)
			dv := "instance " + v.Canon(false) + "\n" + d
			if !g.Instance(x) {
				sig := `the generic type does not accept an instance: ` + typeSig(m)
				if (m.K == gen.TTuple || m.K == gen.TStruct) && wrongNot(m) {
					sig = `the generic type does not accept an instance: negation beside alternatives`
				}
				c.Fail(sig, `%s`, dv)
			}
			declared(c, `type `+typeSig(m), t, x, dv)
			declared(c, `generic type `+typeSig(m), g, x, dv)
			if ev := typ.ExactValue(t); ev != nil && m.K == gen.TExact && !ev.Equals(x) {
				c.Fail(`exact value of a type differs from an instance: `+typeSig(m), `%s`, dv)
			}
		}
		mt := t.Type()
		if m.K != gen.TMeta && m.K != gen.TMetaAny {
			if !mt.Instance(t) || !typ.Type.Instance(t) {
				c.Fail(`the type of a type does not accept it: `+typeSig(m), `%s`, d)
			}
			if mm, ok := mt.(dgo.Meta); !ok || !mm.Describes().Equals(t) {
				c.Fail(`the type of a type does not describe it: `+typeSig(m), `%s`, d)
			}
		}
		if m.K == gen.TExact {
			if typ.ExactValue(t) == nil || !gen.Eq(gen.Observe(typ.ExactValue(t)), m.V) {
				c.Fail(`an exact type does not know its value: `+typeSig(m), `%s`, d)
			}
		}
	})
	// values that are not made by the model: functions, natives, structs, entries
	c.Run(`other values`, c.N(2000, 40000), func(r *rand.Rand, _ int) {
		one := 1
		s := &c10Struct{Name: gen.Strs[r.Intn(len(gen.Strs))], Age: r.Intn(5), Tags: []string{`a`, `b`}[:r.Intn(3)]}
		if r.Intn(2) == 0 {
			s.P = &one
		}
		if r.Intn(2) == 0 {
			s.Inner = map[string]int{`x`: r.Intn(3)}
		}
		e := vf.Map(`k`, gen.Gen(r, &gen.Cfg{Depth: 1, NoSens: true, NoType: true}).Build(r, false)).Find(func(dgo.MapEntry) bool { return true })
		for _, x := range []dgo.Value{vf.Value(goFuncs[r.Intn(len(goFuncs))].f), vf.Value(make(chan int)), vf.Value(&struct{ A int }{r.Intn(3)}), vf.Map(s), e,
			vf.Arguments(`a`, 1), vf.Value(reflect.ValueOf(3)), vf.Value([]int{1, r.Intn(3)}), vf.Value(map[string]int{`a`: r.Intn(3)})} {
			t := x.Type()
			c.Seen(fmt.Sprintf("%T %s", x, x))
			if t == nil || !t.Instance(x) {
				c.Fail(fmt.Sprintf(`the type of a value does not accept it: %T`, x), "%v has type %v", x, t)
			}
			if !typ.Generic(t).Instance(x) {
				c.Fail(fmt.Sprintf(`the generic type of a value does not accept it: %T`, x), "%v has type %v, generic %s", x, t, typ.Generic(t))
			}
			if !t.Equals(x.Type()) || !tf.AnyOf(t, typ.Nil).Instance(x) {
				c.Fail(fmt.Sprintf(`type of a value: %T`, x), "%v has type %v", x, t)
			}
			if g := typ.Generic(t); !typ.Generic(g).Equals(g) {
				c.Fail(fmt.Sprintf(`generic is not idempotent: %T`, x), "%v has type %v", x, t)
			}
			declared(c, fmt.Sprintf(`type of %T`, x), t, x, x.String())
		}
		t := vf.Map(s).Type()
		o := *s
		o.Age++
		if t.Instance(vf.Map(&o)) {
			c.Fail(`the type of a struct accepts another`, "%s", t)
		}
		p := *s
		if !t.Instance(vf.Map(&p)) || !vf.Map(&p).Type().Equals(t) {
			c.Fail(`the type of a struct rejects an equal one`, "%s", t)
		}
	})
}
