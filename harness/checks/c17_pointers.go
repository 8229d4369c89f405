package checks

import (
	"fmt"
	"math/rand"
	"reflect"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/mon"
)

// wPtrs is a struct in which every field can be shared with a copy
type wPtrs struct {
	B   *bool
	I   *int
	I8  *int8
	I16 *int16
	I32 *int32
	I64 *int64
	U   *uint
	U8  *uint8
	U16 *uint16
	U32 *uint32
	U64 *uint64
	F32 *float32
	F64 *float64
	S   *string
	N   int
}

// poke changes what the pointers of a struct refer to
func (s *wPtrs) poke(r *rand.Rand) (names []string) {
	rv := reflect.ValueOf(s).Elem()
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Field(i)
		if f.Kind() != reflect.Ptr || f.IsNil() || chance(r, 30) {
			continue
		}
		e := f.Elem()
		names = append(names, rv.Type().Field(i).Name)
		switch e.Kind() {
		case reflect.Bool:
			e.SetBool(!e.Bool())
		case reflect.String:
			e.SetString(e.String() + `x`)
		case reflect.Float32, reflect.Float64:
			e.SetFloat(e.Float() + 1)
		default:
			if e.CanInt() {
				e.SetInt(e.Int()&63 + 1)
			} else {
				e.SetUint(e.Uint()&63 + 1)
			}
		}
	}
	return
}

func newPtrs(r *rand.Rand) *wPtrs {
	s := &wPtrs{N: r.Intn(10)}
	rv := reflect.ValueOf(s).Elem()
	for i := 0; i < rv.NumField(); i++ {
		if f := rv.Field(i); f.Kind() == reflect.Ptr && chance(r, 80) {
			f.Set(reflect.New(f.Type().Elem()))
		}
	}
	s.poke(r)
	return s
}

// text is what a struct contains
func (s *wPtrs) text() string {
	rv := reflect.ValueOf(s).Elem()
	t := ``
	for i := 0; i < rv.NumField(); i++ {
		f := rv.Field(i)
		if f.Kind() == reflect.Ptr {
			if f.IsNil() {
				t += `nil,`
				continue
			}
			f = f.Elem()
		}
		t += fmt.Sprintf("%v,", f.Interface())
	}
	return t
}

// mapText is what a map tells about the same fields
func (s *wPtrs) mapText(m dgo.Map) string {
	rt := reflect.TypeOf(s).Elem()
	t := ``
	for i := 0; i < rt.NumField(); i++ {
		switch v := m.Get(rt.Field(i).Name).(type) {
		case nil:
			t += `absent,`
		case dgo.Nil:
			t += `nil,`
		case dgo.String:
			t += v.GoString() + `,`
		case dgo.Float:
			if rt.Field(i).Name == `F32` {
				t += fmt.Sprintf("%v,", float32(v.GoFloat()))
			} else {
				t += fmt.Sprintf("%v,", v.GoFloat())
			}
		default:
			t += v.String() + `,`
		}
	}
	return t
}

// c17Pointers checks that what the pointers in a struct refer to is seen through the view, and never shared with a copy
// or something that is frozen
func c17Pointers(c *mon.Ctx, r *rand.Rand) {
	s := newPtrs(r)
	m := vf.Map(s)
	c.Seen(s.text())
	same := func(what string, m dgo.Map, e string) {
		if g := s.mapText(m); g != e {
			c.Fail(`pointers: `+what, "expected %s\ngot      %s", e, g)
		}
	}
	same(`the view shows something else`, m, s.text())
	s.poke(r)
	same(`the view does not show a change`, m, s.text())
	type held struct {
		what string
		m    dgo.Map
		text string
	}
	var hs []*held
	add := func(what string, v dgo.Value) {
		hs = append(hs, &held{what, v.(dgo.Map), s.text()})
	}
	add(`frozen copy`, m.FrozenCopy())
	add(`thawed copy`, m.ThawedCopy())
	add(`copy`, m.Copy(true))
	add(`mutable copy`, m.Copy(false))
	add(`merged`, m.Merge(vf.Map(`other`, 1)))
	add(`without`, m.Without(`other`))
	add(`in a frozen array`, vf.Values(m).FrozenCopy().(dgo.Array).Get(0))
	add(`copy of a frozen copy`, m.FrozenCopy().(dgo.Freezable).ThawedCopy())
	if chance(r, 30) {
		m.Freeze()
		add(`frozen in place`, m)
	}
	check := func(after string) {
		for _, h := range hs {
			if h.what == `without` {
				continue // may be the view itself, when nothing is removed
			}
			same(h.what+` has changed `+after, h.m, h.text)
		}
		c.Count(`copies compared `+after, len(hs))
	}
	s.poke(r)
	check(`with the struct`)
	// through what a copy gives away
	for _, h := range hs {
		if h.what == `without` {
			continue
		}
		var g *wPtrs
		if sm, ok := h.m.(interface{ GoStruct() interface{} }); ok && chance(r, 50) {
			g = sm.GoStruct().(*wPtrs)
		} else if e := mon.Catch(func() { vf.FromValue(h.m, &g) }); e != nil || g == nil {
			continue
		}
		if g.text() != h.text {
			c.Fail(`pointers: the struct of a copy is another one`, "%s: expected %s, got %s", h.what, h.text, g.text())
		}
		g.poke(r)
		c.Count(`structs taken from a copy`, 1)
		if !h.m.Frozen() {
			h.text = s.mapText(h.m) // may be shared
		}
		check(`with a struct taken from ` + h.what)
	}
	// and as a value
	for _, h := range hs {
		if h.what == `without` || !h.m.Frozen() {
			continue
		}
		var g wPtrs
		if e := mon.Catch(func() { vf.FromValue(h.m, &g) }); e == nil {
			g.poke(r)
			check(`with a struct value taken from ` + h.what)
		}
	}
}
