package checks

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strings"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C28`, Scale: 10, Rule: `a value or type that involves a named type, printed, parsed, created, or checked; distinct by text`, Run: runC28})
}

// boxA and boxB are values of named types
type boxA struct{ v dgo.Value }
type boxB struct{ v dgo.Value }

// boxR is the value of a named type with a range as parameters
type boxR int

type boxed interface {
	dgo.Value
	Unbox() dgo.Value
}

// boxedOnly is the interface of a named type that has another implementation type
type boxedOnly interface {
	boxed
	Only()
}

// onlyBox is the implementation of a named type with an interface of its own
type onlyBox struct{ boxA }

func (b *onlyBox) Only()                     {}
func (b *onlyBox) String() string            { return `only` }
func (b *onlyBox) Type() dgo.Type            { return tf.ExactNamed(namedO, b) }
func (b *onlyBox) Equals(o interface{}) bool { return b == o }

func (b *boxA) Unbox() dgo.Value { return b.v }
func (b *boxA) String() string   { return namedA.ValueString(b) }
func (b *boxA) Type() dgo.Type   { return tf.ExactNamed(namedA, b) }
func (b *boxA) HashCode() int    { return b.v.HashCode()*31 + 1 }
func (b *boxA) Equals(o interface{}) bool {
	x, ok := o.(*boxA)
	return ok && b.v.Equals(x.v)
}

func (b *boxB) Unbox() dgo.Value { return b.v }
func (b *boxB) String() string   { return namedB.ValueString(b) }
func (b *boxB) Type() dgo.Type   { return tf.ExactNamed(namedB, b) }
func (b *boxB) HashCode() int    { return b.v.HashCode()*31 + 2 }
func (b *boxB) Equals(o interface{}) bool {
	x, ok := o.(*boxB)
	return ok && b.v.Equals(x.v)
}

func (b boxR) String() string            { return namedR.ValueString(b) }
func (b boxR) Type() dgo.Type            { return tf.ExactNamed(namedR, b) }
func (b boxR) HashCode() int             { return int(b) }
func (b boxR) Equals(o interface{}) bool { return b == o }

var c28Once sync.Once
var namedA, namedB, namedI, namedO, namedR, namedN dgo.NamedType
var namedPeers []dgo.NamedType

// peerV is the implementation of several named types
type peerV int

func rangeOf(a dgo.Array) (int64, int64) {
	if a == nil {
		return math.MinInt64, math.MaxInt64
	}
	lo, hi := a.Get(0).(dgo.Integer).GoInt(), int64(math.MaxInt64)
	if a.Len() > 1 {
		hi = a.Get(1).(dgo.Integer).GoInt()
	}
	return lo, hi
}

func c28Register() {
	ctor := func(f func(v dgo.Value) dgo.Value) dgo.Constructor {
		return func(a dgo.Value) dgo.Value {
			if as, ok := a.(dgo.Arguments); ok {
				a = as.Get(0)
			}
			return f(a)
		}
	}
	unbox := func(v dgo.Value) dgo.Value { return v.(boxed).Unbox() }
	boxedT := reflect.TypeOf((*boxed)(nil)).Elem()
	namedA = tf.NewNamed(`boxa`, ctor(func(v dgo.Value) dgo.Value { return &boxA{v} }), unbox, reflect.TypeOf(&boxA{}), nil, nil)
	namedB = tf.NewNamed(`boxb`, ctor(func(v dgo.Value) dgo.Value { return &boxB{v} }), unbox, reflect.TypeOf(&boxB{}), nil, nil)
	namedI = tf.NewNamed(`boxed`, nil, unbox, boxedT, boxedT, nil)
	for i, rt := range []reflect.Type{reflect.TypeOf(peerV(0)), reflect.TypeOf(peerV(0)), nil, nil} {
		namedPeers = append(namedPeers, tf.NewNamed(fmt.Sprintf(`peer%d`, i), nil, nil, rt, nil, nil))
	}
	namedO = tf.NewNamed(`only`, nil, unbox, reflect.TypeOf(&onlyBox{}), reflect.TypeOf((*boxedOnly)(nil)).Elem(), nil)
	namedN = tf.NewNamed(`nothing`, nil, nil, nil, nil, nil)
	namedR = tf.NewNamed(`ranged`, ctor(func(v dgo.Value) dgo.Value { return boxR(v.(dgo.Integer).GoInt()) }),
		func(v dgo.Value) dgo.Value { return vf.Integer(int64(v.(boxR))) }, reflect.TypeOf(boxR(0)), nil,
		func(self dgo.NamedType, t dgo.Type) bool {
			ot, ok := t.(dgo.NamedType)
			if !ok || ot.Name() != self.Name() {
				return false
			}
			lo, hi := rangeOf(self.Parameters())
			var olo, ohi int64
			if et, ok := ot.(dgo.ExactType); ok {
				olo = int64(et.ExactValue().(boxR))
				ohi = olo
			} else {
				olo, ohi = rangeOf(ot.Parameters())
			}
			return lo <= olo && ohi <= hi
		})
}

func runC28(c *mon.Ctx) {
	c28Once.Do(c28Register)
	c.Run(`text`, c.N(6000, 100000), func(r *rand.Rand, i int) { c28Text(c, r) })
	c.Run(`values`, c.N(4000, 60000), func(r *rand.Rand, i int) { c28Values(c, r) })
	c.Run(`shared implementation`, c.N(4000, 60000), func(r *rand.Rand, i int) { c28Shared(c, r) })
	c.Run(`parameters`, c.N(4000, 60000), func(r *rand.Rand, i int) { c28Parameters(c, r) })
}

// boxArg generates an argument that has a text of its own
func boxArg(r *rand.Rand, depth int) dgo.Value {
	if chance(r, 10) {
		// a type that is not exact
		return []dgo.Type{typ.String, tf.AnyOf(typ.String, typ.Integer), tf.Array(typ.String), tf.Integer(1, 3, true), typ.Any, tf.Not(typ.Nil),
			tf.AllOf(typ.String, tf.Not(typ.Nil)), namedA, tf.Map(typ.String, namedB)}[r.Intn(9)]
	}
	return plainArg(r, depth)
}

// plainArg generates a value that isn't a type, since types in a collection make its text the one of a type
func plainArg(r *rand.Rand, depth int) dgo.Value {
	n := 8
	if depth <= 0 {
		n = 5
	}
	switch r.Intn(n) {
	case 0:
		return vf.Integer(int64(r.Intn(20) - 10))
	case 1:
		return vf.String([]string{``, `a`, `x y`, `"`, `é`, "a`b", "a\nb", `|nil`}[r.Intn(8)])
	case 2:
		return vf.Boolean(chance(r, 50))
	case 3:
		return vf.Nil
	case 4:
		return vf.Float(float64(r.Intn(40)-20) / 4)
	case 5:
		vs := []interface{}{} // not empty, since that text is the one of an empty map
		for n := 1 + r.Intn(3); n > 0; n-- {
			vs = append(vs, plainArg(r, depth-1))
		}
		return vf.Values(vs...)
	case 6:
		m := vf.MutableMap()
		for n := r.Intn(3); n > 0; n-- {
			m.Put(string(rune('a'+n)), plainArg(r, depth-1))
		}
		return m.FrozenCopy()
	}
	return box(r, depth-1)
}

func box(r *rand.Rand, depth int) dgo.Value {
	switch r.Intn(5) {
	case 0, 1:
		return &boxA{boxArg(r, depth)}
	case 2, 3:
		return &boxB{boxArg(r, depth)}
	}
	return boxR(r.Intn(20) - 10)
}

// boxType generates a type that involves named types
func boxType(r *rand.Rand, depth int) dgo.Type {
	leaf := func() dgo.Type {
		switch r.Intn(8) {
		case 0:
			return []dgo.Type{namedA, namedB, namedI, namedR, namedN}[r.Intn(5)]
		case 1:
			return []dgo.Type{typ.String, typ.Nil, tf.Integer(1, 5, true), vf.String(`x`).Type(), typ.Any}[r.Intn(5)]
		}
		return box(r, 2).Type()
	}
	if depth <= 0 {
		return leaf()
	}
	sub := func() interface{} { return boxType(r, depth-1) }
	switch r.Intn(14) {
	case 0:
		return tf.Array(sub(), r.Intn(2), 2+r.Intn(4))
	case 1:
		return tf.Array(sub())
	case 2:
		return tf.Tuple(sub(), sub())
	case 3:
		return tf.VariadicTuple(sub(), sub())
	case 4:
		return tf.Map(sub(), sub())
	case 5:
		return tf.StructMap(chance(r, 30), tf.StructMapEntry(`a`, sub(), chance(r, 50)), tf.StructMapEntry(`b`, sub(), chance(r, 50)))
	case 6:
		return tf.AnyOf(sub(), sub())
	case 7:
		return tf.AllOf(sub(), sub())
	case 8:
		return tf.OneOf(sub(), sub())
	case 9:
		return tf.Not(sub().(dgo.Type))
	case 10:
		return tf.Meta(sub().(dgo.Type))
	case 11:
		return tf.Function(tf.Tuple(sub()), tf.Tuple(sub()))
	case 12:
		return vf.Values(box(r, 1), 1, box(r, 1)).Type()
	}
	return leaf()
}

func c28Text(c *mon.Ctx, r *rand.Rand) {
	t := boxType(r, r.Intn(4))
	s := t.String()
	var p dgo.Type
	if e := mon.Catch(func() { p = tf.ParseType(s) }); e != nil {
		c.Fail(`the text of a type with a named type cannot be parsed: `+errClass(e), "%q: %v", s, e)
	}
	c.Seen(s)
	c.Count(`types parsed`, 1)
	if !p.Equals(t) || !t.Equals(p) || p.HashCode() != t.HashCode() {
		c.Fail(`the text of a type with a named type is parsed as another type`, "%s (%T)\nparsed as %s (%T)", s, t, p, p)
	}
	if g := p.String(); g != s {
		if !sameTypeText(g, s) {
			c.Fail(`the text of a type with a named type is not stable`, "%q\n%q", s, g)
		}
	}
	for n := 0; n < 4; n++ {
		var v dgo.Value = box(r, 2)
		switch r.Intn(6) {
		case 0:
			v = vf.Values(v)
		case 1:
			v = vf.Values(v, box(r, 1))
		case 2:
			v = vf.Map(`a`, v)
		case 3:
			v = plainArg(r, 1)
		}
		e := t.Instance(v)
		c.Count([]string{`rejected`, `accepted`}[b2i(e)], 1)
		if p.Instance(v) != e {
			c.Fail(`a parsed type with a named type accepts other values`, "%s\nvalue %s: %v", s, v, e)
		}
	}
}

// sameTypeText ignores the blank that separates a name from a string, since a string literal needs none
func sameTypeText(a, b string) bool {
	f := func(s string) string { return strings.ReplaceAll(s, ` "`, `"`) }
	return f(a) == f(b)
}

func c28Values(c *mon.Ctx, r *rand.Rand) {
	v := box(r, 3)
	w := box(r, 1)
	if chance(r, 30) {
		w = v
	}
	et := v.Type().(dgo.NamedType)
	nt := typ.Generic(et).(dgo.NamedType)
	d := func() string { return fmt.Sprintf("value %s type %s", v, et) }
	c.Seen(v.String())
	c.Count(`values`, 1)
	// what it was made of makes it again
	for _, t := range []dgo.NamedType{nt, et} {
		arg := t.ExtractInitArg(v)
		var again dgo.Value
		if e := mon.Catch(func() { again = t.New(arg) }); e != nil || !again.Equals(v) || !v.Equals(again) || again.HashCode() != v.HashCode() {
			c.Fail(`a value created from what was extracted is another value`, "%v %v\n%s", again, e, d())
		}
		if e := mon.Catch(func() { again = vf.New(t, vf.Arguments(arg)) }); e != nil || !again.Equals(v) {
			c.Fail(`a value created from what was extracted is another value`, "%v %v\n%s", again, e, d())
		}
		if s := t.ValueString(v); s != v.String() || s != et.String() {
			c.Fail(`texts of a value of a named type differ`, "%q\n%s", s, d())
		}
	}
	// the text makes it again, also in collections
	var in dgo.Value
	switch r.Intn(4) {
	case 0:
		in = v
	case 1:
		in = vf.Values(w, v, 1)
	case 2:
		in = vf.Map(`a`, v, `b`, vf.Values(w))
	default:
		in = vf.Values(vf.Values(v))
	}
	s := in.Type().String()
	var out dgo.Value
	if e := mon.Catch(func() { out = tf.ParseType(s) }); e != nil {
		c.Fail(`the text of a value of a named type cannot be parsed: `+errClass(e), "%q: %v", s, e)
	}
	if x, ok := out.(dgo.ExactType); !ok || !x.ExactValue().Equals(in) {
		c.Fail(`the text of a value of a named type is parsed as something else`, "%q\nparsed %v", s, out)
	}
	// names, reflection, and instances
	if nt.Name() != et.Name() || nt.Parameters() != nil || et.Parameters() != nil || tf.Named(nt.Name()) != nt || nt.String() != nt.Name() {
		c.Fail(`the name of a named type`, "%s %s\n%s", nt.Name(), et.Name(), d())
	}
	rt := reflect.TypeOf(v)
	if nt.ReflectType() != rt || et.ReflectType() != rt || tf.NamedFromReflected(rt) != nt {
		c.Fail(`the implementation of a named type`, "%v %v\n%s", nt.ReflectType(), tf.NamedFromReflected(rt), d())
	}
	for _, x := range []reflect.Type{reflect.TypeOf((*boxedOnly)(nil)).Elem(), reflect.PtrTo(rt), reflect.TypeOf(0), reflect.TypeOf((*dgo.Value)(nil)).Elem(), reflect.TypeOf((*fmt.Stringer)(nil)).Elem(), reflect.SliceOf(rt)} {
		if x := tf.NamedFromReflected(x); x != nil {
			c.Fail(`a named type is found for a Go type that is not the implementation of one`, "%s", x)
		}
	}
	if nt.TypeIdentifier() != dgo.TiNamed || et.TypeIdentifier() != dgo.TiNamedExact || !nt.Type().Instance(nt) || !et.Type().Instance(et) || !nt.Type().Instance(et) || et.Type().Instance(nt) {
		c.Fail(`the type of a named type`, "%s", d())
	}
	if o := (&onlyBox{}); !namedO.Instance(o) || namedO.Instance(v) || !namedI.Instance(o) || tf.NamedFromReflected(reflect.TypeOf(o)) != namedO || nt.Instance(o) {
		c.Fail(`a named type with an interface and an implementation`, "%s", d())
	}
	_, isR := v.(boxR)
	if !nt.Instance(v) || !et.Instance(v) || namedI.Instance(v) == isR || namedN.Instance(v) || !namedI.Instance(&boxA{v}) {
		c.Fail(`a value is no instance of its named type`, "%s", d())
	}
	same := v.Equals(w)
	sameName := typ.Generic(w.Type()).Equals(nt)
	if et.Instance(w) != same || et.Assignable(w.Type()) != same || et.Equals(w.Type()) != same || nt.Instance(w) != sameName || nt.Assignable(w.Type()) != sameName {
		c.Fail(`a named type does not distinguish values`, "%s\nother %s", d(), w)
	}
	for _, x := range []interface{}{nil, 1, `x`, vf.Values(1), namedA, vf.Map()} {
		if nt.Instance(x) || et.Instance(x) {
			c.Fail(`something else is an instance of a named type`, "%v\n%s", x, d())
		}
	}
	for _, t := range []dgo.Type{namedA, namedB, namedI, namedR, namedN} {
		if !t.Assignable(t) || !t.Equals(t) {
			c.Fail(`a named type is not assignable to itself`, "%s", t)
		}
		if nt != t && (nt.Equals(t) || t.Equals(nt) || nt.Assignable(t)) {
			c.Fail(`different named types are equal or assignable`, "%s %s", nt, t)
		}
	}
	for _, u := range []dgo.Type{tf.AnyOf(v.Type(), w.Type()), tf.OneOf(w.Type(), v.Type())} {
		e := sameName
		if g := nt.Assignable(u); g != e {
			c.Fail(`a named type and alternatives of values`, "%s from %s: expected %v\n%s", nt, u, e, d())
		}
		if g := et.Assignable(u); g != same {
			c.Fail(`an exact named type and alternatives of values`, "%s from %s: expected %v\n%s", et, u, same, d())
		}
		if !isR && namedI.Assignable(u) != namedI.Instance(w) {
			c.Fail(`a named interface type and alternatives of values`, "%s from %s\n%s", namedI, u, d())
		}
	}
	if u := tf.AnyOf(nt, typ.Nil); nt.Assignable(u) || et.Assignable(u) || !u.Assignable(nt) || !u.Assignable(et) || !u.Assignable(v.Type()) {
		c.Fail(`a named type and an optional named type`, "%s\n%s", u, d())
	}
	if e := mon.Catch(func() { namedN.New(vf.Integer(1)) }); e == nil || isRuntimeError(e) {
		c.Fail(`a named type without constructor creates a value`, "%v", e)
	}
	if e := mon.Catch(func() { namedN.ExtractInitArg(v) }); e == nil || isRuntimeError(e) {
		c.Fail(`a named type without extractor extracts an argument`, "%v", e)
	}
}

func c28Parameters(c *mon.Ctx, r *rand.Rand) {
	type pt struct {
		t      dgo.NamedType
		lo, hi int64
		ps     dgo.Array
		text   string
	}
	mk := func() pt {
		lo := int64(r.Intn(6) - 3)
		switch r.Intn(5) {
		case 0:
			return pt{namedR, math.MinInt64, math.MaxInt64, nil, `Ranged`}
		case 1:
			ps := vf.Values(lo)
			return pt{tf.Parameterized(namedR, ps), lo, math.MaxInt64, ps, fmt.Sprintf("Ranged[%d]", lo)}
		case 2:
			// an exact type
			return pt{boxR(lo).Type().(dgo.NamedType), lo, lo, nil, fmt.Sprintf("Ranged(%d)", lo)}
		}
		hi := lo + int64(r.Intn(4))
		ps := vf.Values(lo, hi)
		return pt{tf.Parameterized(namedR, ps), lo, hi, ps, fmt.Sprintf("Ranged[%d,%d]", lo, hi)}
	}
	a, b := mk(), mk()
	d := func() string { return fmt.Sprintf("%s and %s", a.t, b.t) }
	c.Seen(d())
	c.Count(`pairs of parameterized types`, 1)
	_, exact := a.t.(dgo.ExactType)
	if g, e := a.t.Assignable(b.t), a.lo <= b.lo && b.hi <= a.hi; g != e {
		if !(exact && !typeIsExact(b.t)) || g {
			c.Fail(`assignability of parameterized types is not what the checker tells`, "expected %v, got %v: %s", e, g, d())
		}
	}
	x := mk()
	if u := tf.AnyOf(b.t, x.t); !exact {
		e := a.lo <= b.lo && b.hi <= a.hi && a.lo <= x.lo && x.hi <= a.hi
		if g := a.t.Assignable(u); g != e {
			c.Fail(`assignability of alternatives of parameterized types is not what the checker tells`, "expected %v, got %v: %s from %s", e, g, a.t, u)
		}
	}
	e := a.text == b.text
	if a.t.Equals(b.t) != e || b.t.Equals(a.t) != e || e && a.t.HashCode() != b.t.HashCode() {
		c.Fail(`equality of parameterized types is not equality of the parameters`, "expected %v: %s", e, d())
	}
	if a.t.Name() != `ranged` || a.t.ReflectType() != reflect.TypeOf(boxR(0)) || !typ.Generic(a.t).Equals(namedR) {
		c.Fail(`a parameterized type has another name or generic type`, "%s", d())
	}
	if g := a.t.Parameters(); (g == nil) != (a.ps == nil) || g != nil && !g.Equals(a.ps) {
		c.Fail(`a parameterized type has other parameters`, "%v: %s", g, d())
	}
	if !exact {
		if s := a.t.String(); s != strings.ToLower(a.text) {
			c.Fail(`the text of a parameterized type`, "%q: %s", s, d())
		}
	}
	for n := 0; n < 4; n++ {
		x := int64(r.Intn(12) - 6)
		in := a.lo <= x && x <= a.hi
		c.Count([]string{`out of range`, `in range`}[b2i(in)], 1)
		if a.t.Instance(boxR(x)) != in {
			c.Fail(`an instance of a parameterized type is not what the checker tells`, "%d %v: %s", x, in, a.t)
		}
		var v dgo.Value
		pe := mon.Catch(func() { v = vf.New(a.t, vf.Integer(x)) })
		if in && (pe != nil || !boxR(x).Equals(v)) || !in && (pe == nil || isRuntimeError(pe)) {
			c.Fail(`a parameterized type creates another value`, "%d gives %v %v: %s", x, v, pe, a.t)
		}
	}
	if a.t.Instance(&boxA{vf.Integer(a.lo)}) || a.t.Instance(a.lo) || a.t.Instance(nil) {
		c.Fail(`something else is an instance of a parameterized type`, "%s", a.t)
	}
	if !a.t.Type().Instance(a.t) {
		c.Fail(`the type of a parameterized type does not accept it`, "%s", a.t)
	}
	// the notation of Puppet has parameters
	if exact || typeIsExact(b.t) {
		return
	}
	var p dgo.Value
	if e := mon.Catch(func() {
		tf.BuiltInAliases().Collect(func(am dgo.AliasAdder) { p = pcore.ParseFile(am, ``, `Tuple[`+a.text+`,`+b.text+`]`) })
	}); e != nil {
		c.Fail(`a parameterized type is not parsed`, "%s %v", a.text, e)
	}
	if !tf.Tuple(a.t, b.t).Equals(p) {
		c.Fail(`a parameterized type is parsed as another type`, "%s %s\ngot %v", a.text, b.text, p)
	}
}

// c28Shared checks that it is the name, and the parameters, that tell types with the same implementation apart
func c28Shared(c *mon.Ctx, r *rand.Rand) {
	type pt struct {
		t  dgo.NamedType
		n  int
		ps []dgo.Value
	}
	mk := func() *pt {
		p := &pt{n: r.Intn(len(namedPeers))}
		p.t = namedPeers[p.n]
		if chance(r, 80) {
			p.ps = []dgo.Value{}
			for n := r.Intn(3); n > 0; n-- {
				p.ps = append(p.ps, plainArg(r, 1))
			}
			p.t = tf.Parameterized(p.t, vf.Array(p.ps))
		}
		return p
	}
	a, b := mk(), mk()
	switch r.Intn(4) {
	case 0:
		b.ps = a.ps
	case 1:
		b.n, b.ps = a.n, a.ps
	case 2:
		if len(a.ps) > 0 {
			b.n, b.ps = a.n, append(a.ps[1:len(a.ps):len(a.ps)], plainArg(r, 1))
		}
	}
	if b.t = namedPeers[b.n]; b.ps != nil {
		b.t = tf.Parameterized(b.t, vf.Array(b.ps))
	}
	same := a.n == b.n && (a.ps == nil) == (b.ps == nil) && len(a.ps) == len(b.ps)
	for i := 0; same && i < len(a.ps); i++ {
		same = a.ps[i].Type().String() == b.ps[i].Type().String()
	}
	d := func() string { return fmt.Sprintf("%s and %s", a.t, b.t) }
	c.Seen(d())
	c.Count([]string{`types with the same implementation that differ`, `equal types with the same implementation`}[b2i(same)], 1)
	for _, w := range []func(t dgo.Type) dgo.Type{func(t dgo.Type) dgo.Type { return t }, func(t dgo.Type) dgo.Type { return tf.Array(t) }, func(t dgo.Type) dgo.Type { return t.Type() },
		func(t dgo.Type) dgo.Type { return tf.StructMap(false, tf.StructMapEntry(`a`, t, true)) }} {
		x, y := w(a.t), w(b.t)
		if x.Equals(y) != same || y.Equals(x) != same || vf.Values(x).Equals(vf.Values(y)) != same {
			c.Fail(`types with the same implementation but another name or other parameters are equal, or the same ones are not`, "expected %v: %s", same, d())
		}
		if same && x.HashCode() != y.HashCode() {
			c.Fail(`hash codes of equal named types`, "%s", d())
		}
		if m := vf.Map(x, 1); (m.Get(y) != nil) != same {
			c.Fail(`a named type is found as a key when another one is asked for`, "%s", d())
		}
		if (x.String() == y.String()) != same && a.n != b.n {
			c.Fail(`the texts of different named types are the same`, "%s", d())
		}
	}
	if a.t.Name() != fmt.Sprintf(`peer%d`, a.n) || !typ.Generic(a.t).Equals(namedPeers[a.n]) || a.t.ReflectType() != namedPeers[a.n].ReflectType() {
		c.Fail(`a parameterized type has another name or generic type`, "%s", d())
	}
	if g := a.t.Parameters(); (g == nil) != (a.ps == nil) || g != nil && !g.Equals(vf.Array(a.ps)) {
		c.Fail(`a parameterized type has other parameters`, "%v: %s", g, d())
	}
	// without a checker, it is the implementation that decides and, when there is none, the name
	if e := a.n < 2 && b.n < 2 || a.n == b.n; a.t.Assignable(b.t) != e {
		c.Fail(`assignability of named types that have no checker`, "expected %v: %s", e, d())
	}
}

func typeIsExact(t dgo.Type) bool {
	_, ok := t.(dgo.ExactType)
	return ok
}
