package checks

import (
	"fmt"
	"math/rand"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C09`, Scale: 8, Rule: `a (type, type) pair with an assignability verdict or a (type, exact type) pair compared with the instance check; distinct by the models`, Run: runC09})
}

// subTypes returns the type and all types that are part of it
func subTypes(t *gen.T) []*gen.T {
	ts := []*gen.T{t}
	for _, s := range t.Ts {
		ts = append(ts, subTypes(s)...)
	}
	for _, e := range t.Entries {
		ts = append(ts, subTypes(e.T)...)
	}
	if t.K == gen.TExact {
		for _, v := range subValues(t.V)[1:] {
			if hasKind(v, gen.KSens, gen.KType) {
				continue // the type of a sensitive is not exact
			}
			ts = append(ts, &gen.T{K: gen.TExact, V: v})
		}
	}
	return ts
}

// subValues returns the value and all values that are part of it
func subValues(v *gen.V) []*gen.V {
	vs := []*gen.V{v}
	for _, e := range v.E {
		vs = append(vs, subValues(e)...)
	}
	for _, e := range v.Keys {
		vs = append(vs, subValues(e)...)
	}
	return vs
}

func weight(t *gen.T) int {
	n := 1
	for _, s := range t.Ts {
		n += weight(s)
	}
	for _, e := range t.Entries {
		n += weight(e.T)
	}
	if t.K == gen.TExact {
		n += t.V.Size() - 1
	}
	return n
}

// blameAssign finds the smallest pair of parts that shows the unsound verdict
func blameAssign(a, b *gen.T, v *gen.V) (*gen.T, *gen.T, *gen.V) {
	ba, bb, bv, bw := a, b, v, weight(a)+weight(b)
	vs := subValues(v)
	try := func(x, y *gen.T) {
		w := weight(x) + weight(y)
		if w >= bw {
			return
		}
		ok := false
		if mon.Catch(func() { ok = x.Canonical().Assignable(y.Canonical()) }) != nil || !ok {
			return
		}
		for _, s := range vs {
			if y.Accept(s) && !x.Accept(s) {
				ba, bb, bv, bw = x, y, s, w
				return
			}
		}
	}
	as, bs := subTypes(a), subTypes(b)
	for _, x := range as {
		for _, y := range bs {
			try(x, y)
			try(y, x)
		}
	}
	return ba, bb, bv
}

var poolOnce sync.Once
var poolVals []*gen.V
var poolBuilt []dgo.Value

// witnessPool returns fixed values to which all verdicts are applied
func witnessPool() ([]*gen.V, []dgo.Value) {
	poolOnce.Do(func() {
		r := rand.New(rand.NewSource(99))
		add := func(v *gen.V) { poolVals = append(poolVals, v) }
		add(gen.Nil())
		add(gen.Bool(true))
		add(gen.Bool(false))
		for _, i := range []int64{0, 1, 2, 3, 5, -1, 42} {
			add(gen.Int(i))
		}
		for _, f := range []float64{0, 1, 1.5, 3.14, -1} {
			add(gen.Float(f))
		}
		for _, s := range []string{``, `a`, `b`, `ab`, `abc`, `ABC`, `key`, `type`, `int`, `9`} {
			add(gen.Str(s))
		}
		add(gen.Bin(nil))
		add(gen.Bin([]byte{1, 2}))
		for i := 0; i < 4; i++ {
			add(gen.Regexp(gen.Regexps[i]))
			add(gen.Time(gen.Times[i]))
			add(gen.Err(gen.Strs[i]))
			add(gen.Type(gen.Types[i]))
			add(gen.Sens(gen.GenScalar(r, &gen.Cfg{})))
		}
		add(gen.Arr())
		add(gen.Map(nil, nil))
		for i := 0; i < 14; i++ {
			add(gen.GenArr(r, &gen.Cfg{Depth: 1, MaxLen: 3}))
			add(gen.GenMap(r, &gen.Cfg{Depth: 1, MaxLen: 3}))
		}
		for _, v := range poolVals {
			poolBuilt = append(poolBuilt, v.Build(r, false))
		}
	})
	return poolVals, poolBuilt
}

// soundPair checks the verdict for a and b with values of both
func soundPair(c *mon.Ctx, r *rand.Rand, a, b *gen.T, extra []*gen.V) {
	c.Seen(a.String() + ` <- ` + b.String())
	ta, tb := a.Build(r), b.Build(r)
	ok := ta.Assignable(tb)
	if ok != ta.Assignable(tb) {
		c.Fail(`verdict is not stable`, "%s from %s", a, b)
	}
	if !ok {
		c.Count(`not assignable`, 1)
		return
	}
	c.Count(`assignable`, 1)
	one := func(v *gen.V, x dgo.Value) {
		if tb.Instance(x) {
			c.Count(`instances compared`, 1)
			if !ta.Instance(x) {
				ba, bb, bv := blameAssign(a, b, v)
				sig := fmt.Sprintf(`unsound: %s from %s`, typeSig(ba), typeSig(bb))
				if ba.K == gen.TNot && (bb.K == gen.TAnyOf || bb.K == gen.TOneOf) {
					// known: the verdict for an operand is taken for the verdict for all of them
					for _, o := range bb.Ts {
						if !o.Accept(bv) && ba.Canonical().Assignable(o.Canonical()) {
							sig = fmt.Sprintf(`unsound: %s from %s by one operand`, typeSig(ba), typeSig(bb))
						}
					}
				}
				if intersectionArray(ba, bb.Canonical()) {
					sig = `unsound: array of the intersection of the elements of a tuple`
				}
				c.Fail(sig, "%s\nis assignable from %s\nwhich accepts %s, but the former does not\ntypes %s from %s\nsmallest part: %s (%s) from %s (%s) value %s",
					a, b, v.Canon(false), ta, tb, ba, ba.Canonical(), bb, bb.Canonical(), bv.Canon(false))
			}
		}
	}
	vs, xs := witnessPool()
	for i := range vs {
		one(vs[i], xs[i])
	}
	var near []*gen.V
	for i := 0; i < 6; i++ {
		near = append(near, b.GenFor(r))
	}
	near = append(near, a.GenFor(r), gen.Tweak(r, near[0]), gen.Tweak(r, near[1]))
	for _, v := range append(near, extra...) {
		one(v, v.Build(r, false))
	}
}

func runC09(c *mon.Ctx) {
	reflexive := func(r *rand.Rand, m *gen.T) {
		a, b := m.Build(r), m.Build(r)
		c.Count(`reflexive`, 1)
		if !a.Assignable(a) || !a.Assignable(b) {
			bt := m
			for _, s := range subTypes(m) {
				if x := s.Canonical(); weight(s) < weight(bt) && (!x.Assignable(x) || !x.Assignable(s.Canonical())) {
					bt = s
				}
			}
			c.Fail(`not reflexive: `+typeSig(bt), "%s\nis not assignable from itself (same: %v, other: %v)\nsmallest part %s = %s", a, a.Assignable(a), a.Assignable(b), bt, bt.Canonical())
		}
		if !typ.Any.Assignable(a) || !tf.AnyOf(typ.Any, typ.Nil).Assignable(a) {
			c.Fail(`any is not assignable from: `+typeSig(m), "%s", m)
		}
	}
	c.Run(`pairs`, c.N(24000, 1500000), func(r *rand.Rand, i int) {
		m := gen.GenType(r, &gen.TCfg{Depth: i % 3})
		reflexive(r, m)
		n := gen.NearType(r, m, &gen.TCfg{Depth: 1})
		soundPair(c, r, m, n, nil)
		soundPair(c, r, n, m, nil)
		o := gen.NearType(r, n, &gen.TCfg{Depth: 1})
		soundPair(c, r, m, o, nil)
		soundPair(c, r, o, m, nil)
		soundPair(c, r, m, gen.GenType(r, &gen.TCfg{Depth: i % 2}), nil)
		if i < 3 {
			c.Sample(fmt.Sprintf(`%s <- %s`, m, n))
		}
	})
	// two generalizations of one value, or of values that are nearly the same
	c.Run(`values`, c.N(24000, 1500000), func(r *rand.Rand, i int) {
		v := gen.Gen(r, &gen.Cfg{Depth: i % 3, MaxLen: 3})
		w := v
		if r.Intn(3) == 0 {
			w = gen.Tweak(r, v)
		}
		a, b := gen.TypeOfValue(r, v, &gen.TCfg{Depth: 1}), gen.TypeOfValue(r, w, &gen.TCfg{Depth: 1})
		vs := []*gen.V{v, w, gen.Tweak(r, v), gen.Tweak(r, w), gen.Tweak(r, gen.Tweak(r, v))}
		soundPair(c, r, a, b, vs)
		soundPair(c, r, b, a, vs)
		n := gen.NearType(r, a, &gen.TCfg{Depth: 1})
		soundPair(c, r, a, n, vs)
		soundPair(c, r, n, a, vs)
		reflexive(r, a)
	})
	// types with many parts that differ in a few of them
	c.Run(`many parts`, c.N(12000, 600000), func(r *rand.Rand, _ int) {
		a, b := gen.WideType(r)
		var vs []*gen.V
		for _, t := range []*gen.T{a, b} {
			for k := 0; k < 3; k++ {
				v := t.GenFor(r)
				vs = append(vs, v, gen.Tweak(r, v))
				for _, e := range append(append([]gen.StructEntry{}, a.Entries...), b.Entries...) {
					if v.K == gen.KMap && v.Find(e.Key) < 0 && r.Intn(3) == 0 {
						vs = append(vs, gen.Map(append(append([]*gen.V{}, v.Keys...), e.Key), append(append([]*gen.V{}, v.E...), gen.GenScalar(r, &gen.Cfg{}))))
					}
				}
			}
		}
		soundPair(c, r, a, b, vs)
		soundPair(c, r, b, a, vs)
		reflexive(r, a)
	})
	// composed operators over few operands
	c.Run(`operators`, c.N(24000, 1500000), func(r *rand.Rand, i int) {
		base := []*gen.T{gen.GenType(r, &gen.TCfg{Depth: i % 2}), gen.GenType(r, &gen.TCfg{})}
		base = append(base, gen.NearType(r, base[0], &gen.TCfg{}), gen.NearType(r, base[1], &gen.TCfg{}))
		var comp func(d int) *gen.T
		comp = func(d int) *gen.T {
			if d == 0 || r.Intn(4) == 0 {
				return base[r.Intn(len(base))]
			}
			t := &gen.T{K: []gen.TK{gen.TAnyOf, gen.TAllOf, gen.TOneOf, gen.TNot}[r.Intn(4)]}
			n := 2 + r.Intn(2)
			if t.K == gen.TNot {
				n = 1
			}
			for ; n > 0; n-- {
				t.Ts = append(t.Ts, comp(d-1))
			}
			if t.K == gen.TNot && t.Ts[0].K == gen.TNot {
				return t.Ts[0].Ts[0]
			}
			return t
		}
		a, b := comp(2), comp(2)
		var vs []*gen.V
		for _, x := range base {
			vs = append(vs, x.GenFor(r), x.GenFor(r))
		}
		soundPair(c, r, a, b, vs)
		soundPair(c, r, b, a, vs)
		soundPair(c, r, a, base[0], vs)
		soundPair(c, r, base[0], a, vs)
	})
	c.Run(`exact`, c.N(24000, 1500000), func(r *rand.Rand, i int) {
		m := gen.GenType(r, &gen.TCfg{Depth: i % 4, NoSens: true, NoMeta: true})
		t := m.Build(r)
		var v *gen.V
		if r.Intn(4) == 0 {
			v = gen.Gen(r, &gen.Cfg{Depth: 2, MaxLen: 3, NoSens: true, NoType: true})
			m = gen.TypeOfValue(r, v, &gen.TCfg{Depth: 1, NoSens: true, NoMeta: true})
			t = m.Build(r)
		}
		for k := 0; k < 4; k++ {
			if v == nil || k > 0 {
				v = m.GenFor(r)
			}
			if hasKind(v, gen.KSens, gen.KType) {
				continue
			}
			checkExactAssign(c, r, m, t, v)
		}
	})
	// the findings that are listed as known
	c.Run(`listed`, 4, func(r *rand.Rand, i int) {
		str, fl := &gen.T{K: gen.TStr}, &gen.T{K: gen.TFloat}
		ex := func(s string) *gen.T { return &gen.T{K: gen.TExact, V: gen.Str(s)} }
		not := func(t *gen.T) *gen.T { return &gen.T{K: gen.TNot, Ts: []*gen.T{t}} }
		and := &gen.T{K: gen.TAllOf, Ts: []*gen.T{ex(`hello`), ex(`world`)}}
		arr := &gen.T{K: gen.TArr, Ts: []*gen.T{and}, Min: 2, Max: 2}
		hello := gen.Arr(gen.Str(`hello`), gen.Str(`world`))
		switch i {
		case 0:
			soundPair(c, r, not(str), &gen.T{K: gen.TAnyOf, Ts: []*gen.T{not(str), not(&gen.T{K: gen.TInt})}}, nil)
		case 1:
			soundPair(c, r, not(fl), &gen.T{K: gen.TOneOf, Ts: []*gen.T{str, fl}}, nil)
		case 2:
			soundPair(c, r, arr, &gen.T{K: gen.TTuple, Ts: []*gen.T{ex(`hello`), ex(`world`)}}, []*gen.V{hello})
		case 3:
			checkExactAssign(c, r, arr, arr.Build(r), hello)
		}
	})
	c.Run(`functions`, c.N(2000, 40000), func(r *rand.Rand, _ int) {
		var ts []dgo.FunctionType
		for k := 0; k < 3; k++ {
			ft := vf.Value(goFuncs[r.Intn(len(goFuncs))].f).Type().(dgo.FunctionType)
			if r.Intn(2) == 0 {
				ft = tf.Function(rebuildTuple(ft.In()), rebuildTuple(ft.Out()))
			}
			if r.Intn(4) == 0 {
				ft = tf.Function(tf.VariadicTuple(typ.Any), rebuildTuple(ft.Out()))
			}
			ts = append(ts, ft)
		}
		c.Seen(ts[0].String() + ` <- ` + ts[1].String())
		for _, x := range ts {
			if !x.Assignable(x) || !typ.Function.Assignable(x) || !typ.Any.Assignable(x) {
				c.Fail(`not reflexive: function`, "%s (self %v, function %v)", x, x.Assignable(x), typ.Function.Assignable(x))
			}
			for _, y := range ts {
				if x.Assignable(y) {
					c.Count(`assignable`, 1)
					for _, f := range goFuncs {
						c.Count(`instances compared`, 1)
						if y.Instance(f.f) && !x.Instance(f.f) {
							c.Fail(`unsound: function from function`, "%s from %s with %T", x, y, f.f)
						}
					}
				}
			}
		}
		g := goFuncs[r.Intn(len(goFuncs))].f
		for _, x := range ts {
			if x.Instance(g) != x.Assignable(vf.Value(g).Type()) {
				c.Fail(`function type and the type of a function`, "%s, %T: instance %v, assignable %v", x, g, x.Instance(g), x.Assignable(vf.Value(g).Type()))
			}
		}
	})
}

// checkExactAssign checks that the verdict for the exact type of a value is the verdict for the value
func checkExactAssign(c *mon.Ctx, r *rand.Rand, m *gen.T, t dgo.Type, v *gen.V) {
	x := v.Build(r, false)
	et := x.Type()
	c.Seen(m.String() + ` <- exact ` + v.Canon(false))
	i, a := t.Instance(x), t.Assignable(et)
	if i {
		c.Count(`exact accepted`, 1)
	} else {
		c.Count(`exact rejected`, 1)
	}
	if i == a {
		return
	}
	bm, bv, bw := m, v, weight(m)+v.Size()
	for _, s := range subTypes(m) {
		st := s.Canonical()
		for _, sv := range subValues(v) {
			sx := sv.Build(r, false)
			if w := weight(s) + sv.Size(); w < bw && st.Instance(sx) != st.Assignable(sx.Type()) {
				bm, bv, bw = s, sv, w
			}
		}
	}
	sig := fmt.Sprintf(`exact: %s from %s: instance %v`, typeSig(bm), typeSig(&gen.T{K: gen.TExact, V: bv}), bm.Accept(bv))
	if !bm.Accept(bv) && intersectionArray(bm, bv.Build(r, false).Type()) {
		sig = `exact: array of the intersection of the elements of a tuple`
	}
	c.Fail(sig, "%s (%s)\nvalue %s is instance: %v, type of value %s is assignable: %v\nsmallest part %s = %s with %s",
		m, t, v.Canon(false), i, et, a, bm, bm.Canonical(), bv.Canon(false))
}

// intersectionArray returns true if a is an array of exactly that intersection of types which is the element type of the
// tuple b. A test requires that such an array type is assignable from the tuple.
func intersectionArray(a *gen.T, b dgo.Type) bool {
	if bt, ok := b.(dgo.TupleType); ok && a.K == gen.TArr && a.Ts[0].K == gen.TAllOf && bt.Len() > 1 {
		return a.Canonical().(dgo.ArrayType).ElementType().Equals(bt.ElementType())
	}
	return false
}

// hasKind returns true if the value or any part of it has one of the given kinds
func hasKind(v *gen.V, ks ...gen.Kind) bool {
	for _, s := range subValues(v) {
		for _, k := range ks {
			if s.K == k {
				return true
			}
		}
	}
	return false
}
