package checks

import (
	"math/rand"

	"dgoverif/gen"
	"dgoverif/mon"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

// typePieces returns the given type and all types that it consists of, in an order that depends on its structure only
func typePieces(t dgo.Type, ps []dgo.Type, depth int) []dgo.Type {
	if depth > 6 || len(ps) > 40 || t == nil {
		return ps
	}
	ps = append(ps, t)
	sub := func(o dgo.Type) { ps = typePieces(o, ps, depth+1) }
	switch x := t.(type) {
	case dgo.TernaryType:
		for _, o := range operandsOf(t) {
			sub(o)
		}
	case dgo.StructMapType:
		x.Each(func(e dgo.StructMapEntry) {
			if o, ok := e.Key().(dgo.Type); ok {
				sub(o)
			}
			if o, ok := e.Value().(dgo.Type); ok {
				sub(o)
			}
		})
	case dgo.MapType:
		sub(x.KeyType())
		sub(x.ValueType())
	case dgo.TupleType:
		if dgo.IsExact(t) {
			return ps
		}
		x.ElementTypes().Each(func(e dgo.Value) { sub(e.(dgo.Type)) })
	case dgo.ArrayType:
		sub(x.ElementType())
	case dgo.UnaryType:
		sub(x.Operand())
	}
	return ps
}

// putInto replaces some part of the given value with x
func putInto(r *rand.Rand, v dgo.Value, x dgo.Value) dgo.Value {
	if r.Intn(6) == 0 {
		return x
	}
	switch v := v.(type) {
	case dgo.Array:
		if v.Len() > 0 {
			c := v.Copy(false)
			i := r.Intn(v.Len())
			c.Set(i, putInto(r, v.Get(i), x))
			return c
		}
	case dgo.Map:
		if v.Len() > 0 {
			c := v.Copy(false)
			k := v.Keys().Get(r.Intn(v.Len()))
			c.Put(k, putInto(r, v.Get(k), x))
			return c
		}
	case dgo.Sensitive:
		return vf.Sensitive(putInto(r, v.Unwrap(), x))
	}
	return x
}

// c08Own checks that a type, or a part of it, that is contained in a value is like any other type that equals it: the
// outcome of the instance check must not depend on that it is the very type that does the check
func c08Own(c *mon.Ctx, r *rand.Rand, i int) {
	t := gen.GenType(r, &gen.TCfg{Depth: 1 + i%3})
	seed := r.Int63()
	var a, b dgo.Type
	if mon.Catch(func() {
		a = t.Build(rand.New(rand.NewSource(seed)))
		b = t.Build(rand.New(rand.NewSource(seed)))
	}) != nil {
		return
	}
	as, bs := typePieces(a, nil, 0), typePieces(b, nil, 0)
	if len(as) != len(bs) {
		c.Count(`own types skipped`, 1)
		return
	}
	// a collection of a type that contains that type, or an equal one, accepts it exactly when the type does
	for _, x := range []dgo.Type{a, b} {
		e := a.Instance(x)
		q := vf.MutableMap()
		q.Put(x, 1)
		for _, p := range []struct {
			t dgo.Type
			v dgo.Value
		}{
			{tf.Array(a), vf.Values(x)}, {tf.Map(a, typ.Any), q}, {tf.Map(typ.Any, a), vf.Map(1, x)}, {tf.Map(a, typ.Integer), q}, {tf.Tuple(typ.Any, a), vf.Values(1, x)},
			{tf.VariadicTuple(typ.Integer, a), vf.Values(1, x)}, {tf.StructMap(false, tf.StructMapEntry(`k`, a, true)), vf.Map(`k`, x)},
			{tf.AllOf(typ.Any, tf.Array(a)), vf.Values(x)}, {tf.AnyOf(typ.Integer, tf.Array(a)), vf.Values(x)}, {tf.Sensitive(a), vf.Sensitive(x)},
		} {
			if g := p.t.Instance(p.v); g != e {
				c.Fail(`instance check of a collection that contains its element type`, "%s accepts %s: %v, %s accepts %s: %v", p.t, p.v, g, a, x, e)
			}
		}
		c.Count(`types within collections of that type`, 10)
		if e {
			c.Count(`types that accept themselves`, 1)
		}
	}
	for k := 0; k < 4; k++ {
		ix := r.Intn(len(as))
		if !as[ix].Equals(bs[ix]) {
			c.Count(`own types skipped`, 1)
			continue
		}
		v := t.GenFor(r)
		seed = r.Int63()
		mk := func(x dgo.Value) dgo.Value {
			sr := rand.New(rand.NewSource(seed))
			return putInto(sr, v.Build(sr, false), x)
		}
		va, vb := mk(as[ix]), mk(bs[ix])
		ga, gb := a.Instance(va), a.Instance(vb)
		c.Count(`own types`, 1)
		if ga {
			c.Count(`own types accepted`, 1)
		}
		if as[ix] != bs[ix] {
			c.Seen(a.String() + ` own ` + va.String())
		}
		if ga != gb {
			c.Fail(`instance check of a value that contains a part of the type`, "%s accepts %s: %v with its own %s, %v with another equal type", a, va, ga, as[ix], gb)
		}
		// a check that goes one level deeper
		if pa, pb := vf.Values(va, as[ix]), vf.Values(vb, bs[ix]); as[ix].Instance(pa) != as[ix].Instance(pb) {
			c.Fail(`instance check of a value that contains the type`, "%s accepts %s: %v, %v with another equal type", as[ix], pa, as[ix].Instance(pa), as[ix].Instance(pb))
		}
	}
}
