package checks

import (
	"encoding/base64"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"strconv"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C19`, Scale: 20, Rule: `a (type, argument) pair whose outcome of New was compared with the reference conversion and the type; distinct by type and argument`, Run: runC19})
}

// kindOf returns the kind of value that the factory of a type creates. The second result is false for types which
// only accept their own instances
func kindOf(t *gen.T) (gen.Kind, bool) {
	switch t.K {
	case gen.TBool:
		return gen.KBool, true
	case gen.TInt, gen.TIntR:
		return gen.KInt, true
	case gen.TFloat, gen.TFloatR:
		return gen.KFloat, true
	case gen.TStr, gen.TStrR, gen.TPat, gen.TCi:
		return gen.KStr, true
	case gen.TBin, gen.TBinR:
		return gen.KBin, true
	case gen.TTime:
		return gen.KTime, true
	case gen.TMeta, gen.TMetaAny:
		return gen.KType, true
	case gen.TSens, gen.TSensAny:
		return gen.KSens, true
	case gen.TArr, gen.TTuple:
		return gen.KArr, true
	case gen.TMap, gen.TStruct:
		return gen.KMap, true
	case gen.TExact:
		switch t.V.K {
		case gen.KNil, gen.KRegexp, gen.KErr:
			return 0, false
		}
		return t.V.K, true
	}
	return 0, false
}

// convert is the reference conversion. The result is nil when there is none. The text of a value is taken as given.
// The second result is false when the reference has no opinion
func convert(k gen.Kind, v *gen.V, text string) (*gen.V, bool) {
	if v.K == k {
		return v, true
	}
	switch k {
	case gen.KBool:
		switch v.K {
		case gen.KInt:
			return gen.Bool(v.I != 0), true
		case gen.KFloat:
			return gen.Bool(v.F != 0), true
		case gen.KStr:
			switch {
			case strings.EqualFold(v.S, `true`), strings.EqualFold(v.S, `yes`), strings.EqualFold(v.S, `y`):
				return gen.Bool(true), true
			case strings.EqualFold(v.S, `false`), strings.EqualFold(v.S, `no`), strings.EqualFold(v.S, `n`):
				return gen.Bool(false), true
			}
		}
	case gen.KInt:
		switch v.K {
		case gen.KBool:
			return gen.Int(int64(b2i(v.B))), true
		case gen.KFloat:
			f := math.Trunc(v.F)
			if f >= -(1<<63) && f < 1<<63 {
				return gen.Int(int64(f)), true
			}
		case gen.KTime:
			return gen.Int(v.T.Unix()), true
		case gen.KStr:
			if i, err := strconv.ParseInt(v.S, 10, 64); err == nil {
				return gen.Int(i), true
			}
		}
	case gen.KFloat:
		switch v.K {
		case gen.KBool:
			return gen.Float(float64(b2i(v.B))), true
		case gen.KInt:
			return gen.Float(float64(v.I)), true
		case gen.KTime:
			return gen.Float(float64(v.T.Unix()) + float64(v.T.Nanosecond())/1e9), false
		case gen.KStr:
			if f, err := strconv.ParseFloat(v.S, 64); err == nil {
				return gen.Float(f), !math.IsNaN(f)
			}
		}
	case gen.KStr:
		return gen.Str(text), true
	case gen.KBin:
		switch v.K {
		case gen.KStr:
			if bs, err := base64.StdEncoding.Strict().DecodeString(v.S); err == nil {
				return gen.Bin(bs), true
			}
		case gen.KArr:
			bs := make([]byte, len(v.E))
			for i, e := range v.E {
				if e.K != gen.KInt || e.I < 0 || e.I > 255 {
					return nil, true
				}
				bs[i] = byte(e.I)
			}
			return gen.Bin(bs), true
		}
	case gen.KTime:
		switch v.K {
		case gen.KInt:
			return gen.Time(time.Unix(v.I, 0)), true
		case gen.KFloat:
			f := math.Trunc(v.F)
			if !(f >= -(1<<63) && f < 1<<63) {
				return nil, true
			}
			return gen.Time(time.Unix(int64(f), int64((v.F-f)*1e9))), false
		case gen.KStr:
			if t, err := time.Parse(time.RFC3339Nano, v.S); err == nil {
				return gen.Time(t), true
			}
		}
	case gen.KType:
		return nil, v.K != gen.KStr
	case gen.KSens:
		return gen.Sens(v), true
	case gen.KArr:
		return nil, v.K != gen.KMap // a map gives an array of entries
	case gen.KMap:
		if v.K == gen.KArr && len(v.E)%2 == 0 {
			m := gen.MapKV()
			for i := 0; i < len(v.E); i += 2 {
				if n := m.Find(v.E[i]); n >= 0 {
					m.E[n] = v.E[i+1]
				} else {
					m.Keys = append(m.Keys, v.E[i])
					m.E = append(m.E, v.E[i+1])
				}
			}
			return m, true
		}
	}
	return nil, true
}

var boolTexts = []string{`true`, `false`, `yes`, `no`, `y`, `n`, `True`, `FALSE`, `Yes`, `nO`, `Y`, `N`, `on`, `off`, `1`, `0`, `t`, `f`, ``, ` true`, `tru`, `truee`, `ye\u017f`, "ye\u017f", "fal\u017fe", "\u212a"}

// convertible generates an argument for a type that creates values of the given kind
func convertible(r *rand.Rand, k gen.Kind, t *gen.T) *gen.V {
	target := t.GenFor(r)
	toText := func(v *gen.V) *gen.V {
		s := ``
		switch v.K {
		case gen.KBool:
			s = fmt.Sprint(v.B)
		case gen.KInt:
			s = strconv.FormatInt(v.I, 10)
		case gen.KFloat:
			s = strconv.FormatFloat(v.F, []byte(`gGeEf`)[r.Intn(5)], -1, 64)
		case gen.KBin:
			s = base64.StdEncoding.EncodeToString(v.Bin)
		case gen.KTime:
			s = v.T.Format(time.RFC3339Nano)
		default:
			s = boolTexts[r.Intn(len(boolTexts))]
		}
		if r.Intn(4) == 0 {
			s = mutateText(r, s, `0123456789-+.eExXaAfF_ Tt:Z=/`)
		}
		return gen.Str(s)
	}
	switch r.Intn(4) {
	case 0:
		return target
	case 1:
		return toText(target)
	}
	switch target.K {
	case gen.KBool:
		return []*gen.V{gen.Int(int64(r.Intn(3))), gen.Float([]float64{0, math.Copysign(0, -1), 1, 0.1, -3}[r.Intn(5)]), gen.Str(boolTexts[r.Intn(len(boolTexts))]), gen.Nil()}[r.Intn(4)]
	case gen.KInt:
		switch r.Intn(4) {
		case 0:
			return gen.Float(float64(target.I))
		case 1:
			return gen.Float(float64(target.I) + []float64{0.5, -0.5, 0.999, 1e19, -1e19, 1e300}[r.Intn(6)])
		case 2:
			return gen.Time(time.Unix(target.I%(1<<33), 7))
		default:
			return gen.Bool(r.Intn(2) == 0)
		}
	case gen.KFloat:
		switch r.Intn(4) {
		case 0:
			return gen.Int(anyInt(r))
		case 1:
			if r.Intn(3) == 0 {
				return gen.Time(time.Unix(r.Int63n(1<<45)-1<<44, int64(r.Intn(1000))*1e6))
			}
			return gen.Time(time.Unix(int64(r.Intn(1<<30)), int64(r.Intn(1000))*1e6))
		default:
			return gen.Int(int64(math.Max(math.Min(target.F, 1e15), -1e15)))
		}
	case gen.KTime:
		switch r.Intn(3) {
		case 0:
			return gen.Int(target.T.Unix())
		case 1:
			return gen.Float(float64(target.T.Unix()))
		default:
			return gen.Float([]float64{1e18, 1e19, -1e19, 1e300, 0.5, -0.5, 1234567.25, -1234567.75, 1e10 + 0.125, -62135596801.5}[r.Intn(10)])
		}
	case gen.KBin:
		a := gen.Arr()
		for _, b := range target.Bin {
			a.E = append(a.E, gen.Int(int64(b)))
		}
		if len(a.E) > 0 && r.Intn(4) == 0 {
			a.E[r.Intn(len(a.E))] = []*gen.V{gen.Int(256), gen.Int(-1), gen.Float(1), gen.Nil(), gen.Str(`1`)}[r.Intn(5)]
		}
		return a
	case gen.KMap:
		a := gen.Arr()
		for i := range target.Keys {
			a.E = append(a.E, target.Keys[i], target.E[i])
			if r.Intn(8) == 0 {
				a.E = append(a.E, target.Keys[r.Intn(i+1)], target.E[r.Intn(len(target.E))])
			}
		}
		if r.Intn(8) == 0 {
			a.E = append(a.E, gen.Int(1))
		}
		return a
	case gen.KSens:
		if r.Intn(4) > 0 {
			return target.E[0]
		}
	}
	if k == gen.KSens && r.Intn(2) == 0 && target.K == gen.KSens {
		return target.E[0]
	}
	return gen.Gen(r, &gen.Cfg{Depth: 1, MaxLen: 3})
}

func c19One(c *mon.Ctx, r *rand.Rand, m *gen.T, dt dgo.Type, k gen.Kind, factory bool, v *gen.V) {
	x := v.Build(r, r.Intn(2) == 0)
	text := x.String()
	if k == gen.KType && strings.Contains(text, `=`) {
		return // the text of a type that declares an alias, which changes the aliases of this process
	}
	before := canonOf(x)
	arg := x
	if r.Intn(3) == 0 {
		arg = vf.Arguments(x)
		x = arg.(dgo.Arguments).Get(0)
	}
	d := func() string { return fmt.Sprintf("type %s (%s)\nargument %s (%T)", m, dt, v.Canon(false), arg) }
	c.Seen(m.String() + ` < ` + v.Canon(false))
	var got dgo.Value
	e := mon.Catch(func() { got = vf.New(dt, arg) })
	if canonOf(x) != before {
		c.Fail(`the argument is modified`, "now %s\n%s", canonOf(x), d())
	}
	var exp *gen.V
	known := true
	switch {
	case factory:
		exp, known = convert(k, v, text)
	case m.Accept(v):
		exp = v
	}
	if _, ok := dt.(dgo.Factory); ok && !factory {
		known = false // an operator with one operand is that operand
	}
	if exp != nil && !m.Accept(exp) {
		if known || exp.K != gen.KFloat && exp.K != gen.KTime {
			exp = nil
		}
	}
	if e != nil {
		if _, ok := e.(error); !ok || isRuntimeError(e) {
			c.Fail(`New panics with something else than an error`, "%T %v\n%s", e, e, d())
		}
		if e.(error).Error() == `` {
			c.Fail(`New panics without a message`, "%s", d())
		}
		c.Count(`refused`, 1)
		if exp != nil && known {
			c.Fail(`New refuses what is convertible to an instance`, "%v\nexpected %s\n%s", e, exp.Canon(false), d())
		}
		return
	}
	c.Count(`created`, 1)
	if got == nil {
		c.Fail(`New returns nothing`, "%s", d())
	}
	if !dt.Instance(got) {
		c.Fail(`New returns a value that is not an instance`, "%s\n%s", got, d())
	}
	switch got.(type) {
	case dgo.Array, dgo.Map:
		if factory {
			frozenDeep(c, `New returns a collection that is not frozen`, got, d)
		}
	}
	g, observable := func() (g *gen.V, ok bool) {
		ok = mon.Catch(func() { g = gen.Observe(got) }) == nil
		return
	}()
	if observable && k != gen.KType && !m.Has(func(t *gen.T) bool { return t.K == gen.TFunc || t.K == gen.TMeta }) && v.K != gen.KMap && !m.Accept(g) {
		c.Fail(`New returns a value that the definition of the type doesn't accept`, "%s\n%s", got, d())
	}
	if m.Accept(v) && factory && g.K == v.K && !gen.Eq(g, v) {
		c.Fail(`New of an instance returns another value`, "%s\n%s", got, d())
	}
	if known {
		if exp == nil {
			c.Fail(`New accepts what cannot be converted to an instance`, "%s\n%s", got, d())
		}
		if !gen.Eq(exp, g) {
			c.Fail(`New returns another value than the one that the argument denotes`, "got %s, expected %s\n%s", g.Canon(false), exp.Canon(false), d())
		}
	} else if exp != nil && exp.K == gen.KFloat {
		if g.K != gen.KFloat || math.Abs(g.F-exp.F) > 1e-6+1e-15*math.Abs(exp.F) && !math.IsNaN(exp.F) {
			c.Fail(`New returns another number than the one that the argument denotes`, "got %s, expected %s\n%s", g.Canon(false), exp.Canon(false), d())
		}
	}
	if !known && exp != nil && exp.K == gen.KTime && factory {
		if d2 := g.T.Sub(exp.T); g.K != gen.KTime || d2 > time.Microsecond || d2 < -time.Microsecond {
			c.Fail(`New returns another time than the one that the argument denotes`, "got %s, expected %s\n%s", g.Canon(false), exp.Canon(false), d())
		}
	}
	if k == gen.KType && v.K == gen.KStr {
		// what is created from text is what the text parses to
		p := tf.ParseType(v.S)
		if !p.Equals(got) {
			c.Fail(`New of a meta type returns another type than the text denotes`, "got %s, expected %s\n%s", got, p, d())
		}
	}
	if v.K == gen.KMap && k == gen.KArr && factory {
		a := got.(dgo.Array)
		if a.Len() != len(v.E) {
			c.Fail(`array of map entries`, "%s\n%s", got, d())
		}
		for i := range v.E {
			me, ok := a.Get(i).(dgo.MapEntry)
			if !ok || canonOf(me.Key()) != v.Keys[i].Canon(false) || canonOf(me.Value()) != v.E[i].Canon(false) {
				c.Fail(`array of map entries`, "%s\n%s", got, d())
			}
		}
	}
	// once created, it is created from itself
	again := vf.New(dt, got)
	if !again.Equals(got) && factory && k != gen.KType {
		c.Fail(`New of a created value returns another value`, "%s from %s\n%s", again, got, d())
	}
}

type c19Named struct {
	v interface{}
	t *dgo.NamedType
}

func (x *c19Named) String() string { return fmt.Sprintf(`named(%v)`, x.v) }
func (x *c19Named) Type() dgo.Type { return tf.ExactNamed(*x.t, x) }
func (x *c19Named) HashCode() int  { return vf.Value(x.v).HashCode() }
func (x *c19Named) Equals(o interface{}) bool {
	ox, ok := o.(*c19Named)
	return ok && ox.t == x.t && vf.Value(x.v).Equals(ox.v)
}

func c19NamedTypes(c *mon.Ctx, r *rand.Rand, i int) {
	name := fmt.Sprintf(`c19.t%d`, i)
	var nt, other dgo.NamedType
	impl, ifd := reflect.TypeOf(&c19Named{}), reflect.TypeOf((*fmt.Stringer)(nil)).Elem()
	var ctor dgo.Constructor
	mode := r.Intn(4)
	if mode != 3 {
		ctor = func(a dgo.Value) dgo.Value {
			if as, ok := a.(dgo.Arguments); ok {
				a = as.Get(0)
			}
			switch mode {
			case 0:
				return &c19Named{v: a, t: &nt}
			case 1:
				return &c19Named{v: a, t: &other}
			default:
				return a
			}
		}
	}
	withImpl := r.Intn(2) == 0
	if !withImpl {
		impl, ifd = nil, nil
	} else if r.Intn(2) == 0 {
		ifd = nil
	}
	limited := r.Intn(3) == 0
	var check dgo.AssignableChecker
	if limited {
		check = func(self dgo.NamedType, t dgo.Type) bool {
			if et, ok := t.(dgo.ExactType); ok {
				if x, ok := et.ExactValue().(*c19Named); ok && x.t == &nt {
					if p := self.Parameters(); p != nil {
						iv, ok := x.v.(dgo.Integer)
						return ok && p.Get(0).(dgo.Integer).GoInt() >= iv.GoInt()
					}
					return true
				}
			}
			return self.Equals(t)
		}
	}
	defer tf.RemoveNamed(name)
	defer tf.RemoveNamed(name + `x`)
	nt = tf.NewNamed(name, ctor, func(v dgo.Value) dgo.Value { return vf.Value(v.(*c19Named).v) }, impl, ifd, check)
	other = tf.NewNamed(name+`x`, ctor, nil, nil, nil, nil)
	n := r.Intn(5)
	arg := vf.Value(n)
	if r.Intn(2) == 0 {
		arg = vf.Arguments(n)
	}
	c.Seen(fmt.Sprint(`named `, mode, withImpl, limited, n))
	types := []dgo.Type{nt, tf.ExactNamed(nt, &c19Named{v: vf.Value(2), t: &nt})}
	if limited {
		types = append(types, tf.Parameterized(nt, vf.Values(2)))
	}
	for _, t := range types {
		var got dgo.Value
		e := mon.Catch(func() { got = vf.New(t, arg) })
		d := func() string {
			return fmt.Sprintf("type %s argument %s mode %d impl %v limited %v: %v %v", t, arg, mode, withImpl, limited, got, e)
		}
		if e != nil {
			if _, ok := e.(error); !ok || isRuntimeError(e) {
				c.Fail(`New of a named type panics with something else than an error`, "%s", d())
			}
		} else if !t.Instance(got) {
			c.Fail(`New of a named type returns a value that is not an instance`, "%s", d())
		}
		ok := mode == 0
		switch t.(type) {
		case dgo.ExactType:
			ok = ok && n == 2
		default:
			if nt, is := t.(dgo.NamedType); is && nt.Parameters() != nil {
				ok = ok && n <= 2
			}
		}
		// a value of another named type with the same implementation is an instance unless the check tells otherwise
		if ok != (e == nil) && !(mode == 1 && withImpl) {
			c.Fail(`New of a named type`, "expected success %v: %s", ok, d())
		}
		c.Count(`named types`, 1)
		if !t.Assignable(t) {
			c.Fail(`a named type is not assignable from itself`, "%s", d())
		}
	}
}

func c19Format(c *mon.Ctx, r *rand.Rand) {
	v := gen.GenScalar(r, &gen.Cfg{})
	switch v.K {
	case gen.KBool, gen.KInt, gen.KFloat, gen.KStr:
	default:
		v = gen.Int(anyInt(r))
	}
	f := `%`
	for n := r.Intn(3); n > 0; n-- {
		f += []string{`#`, `+`, `0`, ` `, `-`}[r.Intn(5)]
	}
	if r.Intn(2) == 0 {
		f += strconv.Itoa(1 + r.Intn(20))
	}
	if r.Intn(3) == 0 {
		f += `.` + strconv.Itoa(r.Intn(8))
	}
	f += []string{`d`, `s`, `v`, `x`, `X`, `q`, `g`, `e`, `f`, `t`, `o`, `b`, `c`, `E`, `G`, `U`}[r.Intn(16)]
	var g interface{}
	switch v.K {
	case gen.KBool:
		g = v.B
	case gen.KInt:
		g = v.I
	case gen.KFloat:
		g = v.F
	default:
		g = v.S
	}
	bad := r.Intn(6) == 0
	if bad {
		f = []string{``, `x`, `%`, `%%`, `%d%d`, ` %d`, `%d `, `%.`, `%1`, "%d\n", `%[1]d`, `%*d`}[r.Intn(12)]
	}
	var got dgo.Value
	c.Seen(f + v.Canon(false))
	e := mon.Catch(func() { got = vf.New(typ.String, vf.Arguments(v.BuildScalar(), f)) })
	if bad {
		if e == nil || isRuntimeError(e) {
			if _, ok := e.(error); !ok {
				c.Fail(`New of a string accepts a bad format`, "format %q: %v %v", f, got, e)
			}
		}
		return
	}
	if e != nil {
		c.Fail(`New of a string refuses a format`, "format %q: %v", f, e)
	}
	if s := fmt.Sprintf(f, g); got.String() != s {
		c.Fail(`New of a formatted string`, "format %q of %v: got %q, expected %q", f, g, got, s)
	}
	c.Count(`formatted`, 1)
}

func runC19(c *mon.Ctx) {
	c.Run(`new`, c.N(30000, 1200000), func(r *rand.Rand, i int) {
		m := gen.GenType(r, &gen.TCfg{Depth: i % 4})
		if i%2 == 0 {
			for n := 0; n < 20; n++ {
				if _, ok := kindOf(m); ok {
					break
				}
				m = gen.GenType(r, &gen.TCfg{Depth: i % 3})
			}
		}
		dt := m.Build(r)
		k, factory := kindOf(m)
		for n := 0; n < 8; n++ {
			v := convertible(r, k, m)
			c19One(c, r, m, dt, k, factory, v)
			if i < 6 && n == 0 {
				c.Sample(fmt.Sprintf(`New of %s from %s`, dt, v.Canon(false)))
			}
		}
		// a wrong number of arguments
		if _, ok := dt.(dgo.Factory); ok || true {
			x := m.GenFor(r).Build(r, false)
			for n, args := range []dgo.Value{vf.Arguments(), vf.Arguments(x, x, x)} {
				e := mon.Catch(func() { vf.New(dt, args) })
				if _, ok := e.(error); !ok || isRuntimeError(e) {
					c.Fail(fmt.Sprintf(`New with a wrong number of arguments %d`, n), "%s: %v", dt, e)
				}
			}
		}
	})
	c.Run(`meta`, c.N(4000, 150000), func(r *rand.Rand, i int) {
		// types from text
		m := gen.GenType(r, &gen.TCfg{Depth: 1 + i%3, Lang: true})
		if noSyntax(m) {
			return
		}
		text := (&gen.Syntax{R: r}).Render(m)
		want := tf.ParseType(text)
		over := gen.GenType(r, &gen.TCfg{Depth: 1 + i%2, Lang: true})
		if r.Intn(2) == 0 {
			over = gen.NearType(r, m, &gen.TCfg{Depth: 1, Lang: true})
		}
		mt := over.Build(r).Type()
		if r.Intn(4) == 0 {
			mt = typ.Any.Type()
		}
		var got dgo.Value
		e := mon.Catch(func() { got = vf.New(mt, vf.String(text)) })
		c.Seen(`meta ` + mt.String() + ` < ` + text)
		if ok := mt.Instance(want); ok != (e == nil) {
			c.Fail(`New of a meta type from text`, "%s from %s: %v, the type is an instance: %v", mt, text, e, ok)
		}
		if e == nil && (!mt.Instance(got) || !want.Equals(got)) {
			c.Fail(`New of a meta type returns another type`, "%s from %s: %s", mt, text, got)
		}
		c.Count(`types from text`, 1)
	})
	c.Run(`format`, c.N(8000, 200000), func(r *rand.Rand, i int) { c19Format(c, r) })
	c.Run(`two arguments`, c.N(12000, 400000), func(r *rand.Rand, i int) { c19Args(c, r) })
	c.Run(`named`, c.N(2000, 20000), func(r *rand.Rand, i int) { c19NamedTypes(c, r, i) })
}

// frozenDeep checks that a value and all its parts are frozen
func frozenDeep(c *mon.Ctx, sig string, x dgo.Value, d func() string) {
	if f, ok := x.(dgo.Freezable); ok && !f.Frozen() {
		c.Fail(sig, "%s (%T)\n%s", x, x, d())
	}
	switch x := x.(type) {
	case dgo.Array:
		x.Each(func(e dgo.Value) { frozenDeep(c, sig, e, d) })
	case dgo.Map:
		x.EachEntry(func(e dgo.MapEntry) {
			frozenDeep(c, sig, e.Key(), d)
			frozenDeep(c, sig, e.Value(), d)
		})
	case dgo.Sensitive:
		frozenDeep(c, sig, x.Unwrap(), d)
	}
}
