package checks

import (
	"math"
	"math/rand"
	"reflect"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/mon"
)

// c16FunctionType compares the type that is reflected from a Go function type with the type that is composed of the
// types that its parameters and returns reflect to. Both describe the same functions, so they must be one type.
func c16FunctionType(c *mon.Ctx, r *rand.Rand, ft reflect.Type, fn dgo.Function, args, rets []dgo.Value) {
	variadic := ft.IsVariadic()
	ins := make([]interface{}, ft.NumIn())
	for i := range ins {
		t := ft.In(i)
		if variadic && i == len(ins)-1 {
			t = t.Elem()
		}
		ins[i] = tf.FromReflected(t)
	}
	outs := make([]interface{}, ft.NumOut())
	for i := range outs {
		outs[i] = tf.FromReflected(ft.Out(i))
	}
	in, out := tf.Tuple(ins...), tf.Tuple(outs...)
	if variadic {
		in = tf.VariadicTuple(ins...)
	}
	composed := tf.Function(in, out)
	exact := fn.Type().(dgo.FunctionType)
	if !exact.Equals(composed) || !composed.Equals(exact) {
		c.Fail(`the reflected type of a function is not equal to the composed type`, "%s: %s and %s (%t, %t)", ft, exact, composed, exact.Equals(composed), composed.Equals(exact))
	}
	if exact.HashCode() != composed.HashCode() {
		c.Fail(`the reflected type of a function has another hash than the composed type`, "%s: %s and %s", ft, exact, composed)
	}
	if exact.String() != composed.String() {
		c.Fail(`the reflected type of a function has another text than the composed type`, "%s: %s and %s", ft, exact, composed)
	}
	if !exact.Assignable(composed) || !composed.Assignable(exact) {
		c.Fail(`the reflected and the composed type of a function are not assignable`, "%s: %s and %s (%t, %t)", ft, exact, composed, exact.Assignable(composed), composed.Assignable(exact))
	}
	if !composed.Instance(fn) || !exact.Instance(fn.(dgo.GoFunction).GoFunc()) {
		c.Fail(`a function is no instance of the composed type`, "%s: %s", ft, composed)
	}
	if exact.Instance(7) || composed.Instance(`x`) || exact.Instance(nil) {
		c.Fail(`something that is no function is an instance of a function type`, "%s: %s", ft, composed)
	}
	if exact.ReflectType() != ft {
		c.Fail(`the Go type of a reflected function type`, "%s: %s", ft, exact.ReflectType())
	}
	if !tf.FromReflected(ft).Equals(exact) || exact.TypeIdentifier() != dgo.TiFunction {
		c.Fail(`the reflected type of a function depends on the function`, "%s: %s", ft, exact)
	}
	if !exact.Type().(dgo.Meta).Describes().Equals(exact) || !exact.Type().Instance(composed) {
		c.Fail(`the meta type of a function type`, "%s: %s", ft, exact.Type())
	}
	c16FunctionTuple(c, ft, exact.In(), in, ins, variadic, args)
	c16FunctionTuple(c, ft, exact.Out(), out, outs, false, rets)

	// changes of the type are seen
	other := append([]interface{}{}, ins...)
	at := r.Intn(len(other) + 1)
	other = append(other[:at:at], append([]interface{}{tf.Sensitive(tf.Integer(1, 3+int64(r.Intn(9)), true))}, other[at:]...)...)
	changed := tf.Function(tf.Tuple(other...), out)
	if exact.Equals(changed) || changed.Equals(exact) || exact.Assignable(changed) || changed.Assignable(exact) {
		c.Fail(`function types with different parameters are confused`, "%s: %s and %s", ft, exact, changed)
	}
	changed = tf.Function(in, tf.Tuple(append(append([]interface{}{}, outs...), typ.Boolean)...))
	if exact.Equals(changed) || changed.Equals(exact) || exact.Assignable(changed) || changed.Assignable(exact) {
		c.Fail(`function types with different returns are confused`, "%s: %s and %s", ft, exact, changed)
	}
	any := tf.ParseType(`func(...any)(...any)`)
	if !any.Assignable(exact) || !any.Instance(fn) {
		c.Fail(`the type of every function rejects a function`, "%s", ft)
	}
	c.Count(`function types compared`, 1)
}

func c16FunctionTuple(c *mon.Ctx, ft reflect.Type, tup, composed dgo.TupleType, ts []interface{}, variadic bool, vs []dgo.Value) {
	if !tup.Equals(composed) || !composed.Equals(tup) || tup.HashCode() != composed.HashCode() || tup.String() != composed.String() {
		c.Fail(`the parameters or returns of a function type are not the composed tuple`, "%s: %s and %s", ft, tup, composed)
	}
	if !tup.Assignable(composed) || !composed.Assignable(tup) {
		c.Fail(`the parameters or returns of a function type are not assignable to the composed tuple`, "%s: %s and %s", ft, tup, composed)
	}
	n := len(ts)
	min, max := n, n
	if variadic {
		min, max = n-1, math.MaxInt64
	}
	unbounded := variadic && n == 1
	if tup.Len() != n || tup.Min() != min || tup.Max() != max || tup.Variadic() != variadic || tup.Unbounded() != unbounded || tup.TypeIdentifier() != dgo.TiTuple {
		c.Fail(`the size of the parameters or returns of a function type`, "%s: %s has length %d, min %d, max %d, variadic %t, unbounded %t", ft, tup, tup.Len(), tup.Min(), tup.Max(), tup.Variadic(), tup.Unbounded())
	}
	if composed.Len() != n || composed.Min() != min || composed.Max() != max || composed.Variadic() != variadic {
		c.Fail(`the size of a composed tuple`, "%s: %s has length %d, min %d, max %d, variadic %t, unbounded %t", ft, composed, composed.Len(), composed.Min(), composed.Max(), composed.Variadic(), composed.Unbounded())
	}
	es := tup.ElementTypes()
	if es.Len() != n || !es.Frozen() {
		c.Fail(`the element types of the parameters or returns`, "%s: %s has %d, frozen %t", ft, tup, es.Len(), es.Frozen())
	}
	for i, t := range ts {
		if !tup.Element(i).Equals(t) || !es.Get(i).Equals(t) || !composed.Element(i).Equals(t) {
			c.Fail(`an element of the parameters or returns of a function type`, "%s: %s at %d", ft, tup.Element(i), i)
		}
	}
	et := tup.ElementType()
	if !et.Equals(composed.ElementType()) {
		c.Fail(`the element type of the parameters or returns of a function type`, "%s: %s and %s", ft, et, composed.ElementType())
	}
	if vs != nil {
		a := vf.Values()
		if len(vs) > 0 {
			is := make([]interface{}, len(vs))
			for i, v := range vs {
				is[i] = v
			}
			a = vf.Values(is...)
		}
		if x, y := tup.Instance(a), composed.Instance(a); x != y {
			c.Fail(`the parameters or returns of a function type accept other values than the composed tuple`, "%s: %s for %s: %t and %t", ft, tup, a, x, y)
		}
		for _, s := range ts {
			if s.(dgo.Type).TypeIdentifier() == dgo.TiNamed {
				return
			}
		}
		all := true
		for i, v := range vs {
			if i >= n {
				i = n - 1
			}
			if i < 0 || !ts[i].(dgo.Type).Instance(v) {
				all = false
			}
		}
		all = all && len(vs) >= min && len(vs) <= max
		if tup.Instance(a) != all {
			c.Fail(`the parameters or returns of a function type accept the wrong values`, "%s: %s for %s: %t, expected %t", ft, tup, a, !all, all)
		}
	}
}
