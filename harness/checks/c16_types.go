package checks

import (
	"encoding/json"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"reflect"
	"strconv"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

var jsonNumbers = []string{`0`, `-0`, `9223372036854775807`, `9223372036854775808`, `-9223372036854775808`, `-9223372036854775809`, `1e3`, `1E+2`, `0.1`, `-2.5e-3`,
	`1e308`, `1e309`, `-1e400`, `1e-400`, `4.9e-324`, `12345678901234567890`, ``, `x`, `1.`, `.5`, `--1`, `1e`, `0x10`, `1 `, ` 1`, `+7`, `NaN`, `Inf`, `-inf`, `0.30000000000000004`, `1_000`, `007`, `9007199254740993`}

// c16Numbers converts the texts of numbers that a JSON decoder keeps as they are
func c16Numbers(c *mon.Ctx, r *rand.Rand) {
	s := jsonNumbers[r.Intn(len(jsonNumbers))]
	switch r.Intn(4) {
	case 0:
		s = strconv.FormatInt(int64(r.Uint64()), 10)
	case 1:
		s = strconv.FormatFloat(math.Float64frombits(r.Uint64()), "eEfgG"[r.Intn(5)], -1, 64)
	case 2:
		if len(s) > 0 {
			b := []byte(s)
			b[r.Intn(len(b))] = "0123456789.eE+-x"[r.Intn(16)]
			s = string(b)
		}
	}
	var v dgo.Value
	in := interface{}(json.Number(s))
	what := `json.Number`
	switch r.Intn(3) {
	case 0:
		what = `json.Number in a slice`
		in = []interface{}{json.Number(s)}
	case 1:
		what = `json.Number in a map`
		in = map[string]interface{}{`a`: json.Number(s)}
	}
	e := mon.Catch(func() {
		v = vf.Value(in)
		switch a := v.(type) {
		case dgo.Array:
			v = a.Get(0)
		case dgo.Map:
			v = a.Get(`a`)
		}
	})
	c.Seen(what + s)
	n, ne := strconv.ParseInt(s, 10, 64)
	f, fe := strconv.ParseFloat(s, 64)
	if ne != nil && fe != nil {
		if e == nil {
			c.Fail(`a text that is no number becomes a number`, "%s %q: %v", what, s, v)
		}
		if _, ok := e.(error); !ok || isRuntimeError(e) {
			c.Fail(`a text that is no number is not refused with an error`, "%s %q: %T %v", what, s, e, e)
		}
		c.Count(`refused number texts`, 1)
		return
	}
	if e != nil {
		c.Fail(`the text of a number is refused`, "%s %q: %v", what, s, e)
	}
	if ne == nil {
		if i, ok := v.(dgo.Integer); !ok || i.GoInt() != n {
			c.Fail(`the text of an integer becomes another value`, "%s %q: %T %v", what, s, v, v)
		}
	} else if d, ok := v.(dgo.Float); !ok || d.GoFloat() != f && f == f || f != f && d.GoFloat() == d.GoFloat() {
		c.Fail(`the text of a float becomes another value`, "%s %q: %T %v", what, s, v, v)
	}
	// numbers that are held exactly are the ones in the text
	if x, ok := new(big.Rat).SetString(s); ok && ne == nil && x.Cmp(new(big.Rat).SetInt64(n)) != 0 {
		c.Fail(`the text of an integer is rounded`, "%s %q: %v", what, s, v)
	}
	c.Count(`number texts`, 1)
}

// c16Targets assigns to what is no variable
func c16Targets(c *mon.Ctx, r *rand.Rand) {
	m := gen.Gen(r, &gen.Cfg{Depth: r.Intn(2), MaxLen: 3})
	v := m.Build(r, chance(r, 50))
	var dest interface{}
	switch r.Intn(7) {
	case 0:
		dest = ``
	case 1:
		dest = []string{`a`}
	case 2:
		dest = 7
	case 3:
		dest = map[string]interface{}{}
	case 4:
		dest = struct{ A int }{}
	case 5:
		dest = nil
	default:
		dest = reflect.ValueOf(7)
	}
	e := mon.Catch(func() { vf.FromValue(v, dest) })
	if e == nil {
		c.Fail(`a value is assigned to what is no pointer`, "%s to %T", m.Canon(false), dest)
	}
	if _, ok := e.(error); !ok || isRuntimeError(e) {
		c.Fail(`assignment to what is no pointer is not refused with an error`, "%s to %T: %T %v", m.Canon(false), dest, e, e)
	}
	c.Seen(fmt.Sprintf("%T %s", dest, m.Canon(true)))
}

// c16TypeHolds checks that a variable of the Go type of a type can hold the instances of that type
func c16TypeHolds(c *mon.Ctx, r *rand.Rand, i int) {
	t := gen.GenType(r, &gen.TCfg{Depth: i % 3, NoFunc: true})
	v := t.GenFor(r)
	if !t.Accept(v) {
		return
	}
	dt := t.Build(r)
	if chance(r, 30) {
		dt = v.Build(r, false).Type()
	}
	dv := v.Build(r, false)
	if !dt.Instance(dv) {
		return
	}
	var rt reflect.Type
	if e := mon.Catch(func() { rt = dt.ReflectType() }); e != nil {
		if _, ok := e.(error); !ok || isRuntimeError(e) {
			c.Fail(`the Go type of a type is not refused with an error`, "%s: %T %v", dt, e, e)
		}
		c.Count(`types without Go type`, 1)
		return
	}
	desc := fmt.Sprintf("%s, instance of %s, to %s", v.Canon(false), dt, rt)
	dest := reflect.New(rt)
	how := r.Intn(2)
	e := mon.Catch(func() {
		if how == 0 {
			vf.FromValue(dv, dest.Interface())
		} else {
			vf.ReflectTo(dv, dest.Elem())
		}
	})
	c.Seen(desc)
	if e != nil {
		if fatalPanic(e) {
			c.Fail(`conversion to Go causes a runtime error`, "%s: %v", desc, e)
		}
		if unhashableKey(v) {
			c.Count(`refused keys`, 1)
			return
		}
		c.Fail(`the Go type of a type cannot hold an instance of the type`, "%s: %v", desc, e)
	}
	var back dgo.Value
	if e := mon.Catch(func() { back = vf.ValueFromReflected(dest.Elem()) }); e != nil {
		c.Fail(`the Go value of an instance has no value`, "%s: %v", desc, e)
	}
	if back == nil {
		back = vf.Nil
	}
	if !dt.Instance(back) || !back.Equals(dv) {
		c.Fail(`an instance changes on its way through the Go type of its type`, "%s: became %T %s", desc, back, back)
	}
	if ft := tf.FromReflected(rt); plainGoType(rt) && !ft.Instance(dv) {
		c.Fail(`the type of the Go type of a type rejects an instance`, "%s: %s", desc, ft)
	}
	c.Count(`instances held by the Go type`, 1)
}

// unhashableKey is true if some map has keys that Go cannot have as keys
func unhashableKey(v *gen.V) bool {
	for _, k := range v.Keys {
		switch k.K {
		case gen.KArr, gen.KMap, gen.KBin:
			return true
		}
	}
	for _, l := range [][]*gen.V{v.E, v.Keys} {
		for _, e := range l {
			if unhashableKey(e) {
				return true
			}
		}
	}
	return false
}

// plainGoType is true for a type that is made of predeclared types only
func plainGoType(t reflect.Type) bool {
	if t.PkgPath() != `` {
		return false
	}
	switch t.Kind() {
	case reflect.Slice:
		return plainGoType(t.Elem())
	case reflect.Array:
		return false // native
	case reflect.Ptr:
		return t.Elem().Kind() != reflect.Ptr && t.Elem().Kind() != reflect.Interface && plainGoType(t.Elem())
	case reflect.Map:
		return plainGoType(t.Key()) && plainGoType(t.Elem())
	}
	return true
}

// c16TypeOf checks that the value of a Go value is an instance of the type of the Go type. A nil slice or map becomes Nil,
// values of defined types are native, and the type of a pointer is exclusive of nil.
func c16TypeOf(c *mon.Ctx, t reflect.Type, x reflect.Value, dv dgo.Value, desc string) {
	if !plainGoType(t) || goNil(x) {
		return
	}
	rt := tf.FromReflected(t)
	if !rt.Instance(dv) {
		c.Fail(`the value of a Go value is no instance of the type of its Go type: `+t.Kind().String(), "%s: %s", desc, rt)
	}
	c.Count(`values checked with the type of the Go type`, 1)
}

// goNil is true if there is a nil slice, map or error somewhere in the value
func goNil(x reflect.Value) bool {
	switch x.Kind() {
	case reflect.Slice, reflect.Array:
		if x.Kind() == reflect.Slice && x.IsNil() {
			return true
		}
		for i := 0; i < x.Len(); i++ {
			if goNil(x.Index(i)) {
				return true
			}
		}
	case reflect.Map:
		if x.IsNil() {
			return true
		}
		for _, k := range x.MapKeys() {
			if goNil(x.MapIndex(k)) {
				return true
			}
		}
	case reflect.Interface:
		if x.IsNil() {
			return x.Type() == rtError
		}
		return goNil(x.Elem())
	case reflect.Ptr:
		return !x.IsNil() && goNil(x.Elem())
	}
	return false
}
