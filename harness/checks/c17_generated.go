package checks

import (
	"fmt"
	"math/rand"
	"reflect"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/mon"
)

var genFieldTypes = []reflect.Type{
	reflect.TypeOf(0), reflect.TypeOf(int16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(``), reflect.TypeOf(true), reflect.TypeOf(1.5),
	reflect.TypeOf([]string{}), reflect.TypeOf([]int{}), reflect.TypeOf(map[string]int{}), reflect.TypeOf((*string)(nil)), reflect.TypeOf((*int)(nil)),
	reflect.TypeOf((*dgo.Value)(nil)).Elem(), reflect.TypeOf((*dgo.Array)(nil)).Elem(), reflect.TypeOf((*interface{})(nil)).Elem()}

// genFieldValue returns a Go value for a field, and the same value in the form that the constructors accept
func genFieldValue(r *rand.Rand, t reflect.Type) (interface{}, interface{}) {
	n := r.Intn(100)
	s := fmt.Sprintf("s%d", n)
	switch t {
	case genFieldTypes[0]:
		return n, n
	case genFieldTypes[1]:
		return int16(n), n
	case genFieldTypes[2]:
		return uint32(n), n
	case genFieldTypes[3]:
		return s, s
	case genFieldTypes[4]:
		return n < 50, n < 50
	case genFieldTypes[5]:
		return float64(n) + .5, float64(n) + .5
	case genFieldTypes[6]:
		return []string{s, `x`}, []string{s, `x`}
	case genFieldTypes[7]:
		return []int{n, 2}, []int{n, 2}
	case genFieldTypes[8]:
		return map[string]int{s: n}, map[string]int{s: n}
	case genFieldTypes[9]:
		return &s, s
	case genFieldTypes[10]:
		return &n, n
	case genFieldTypes[11], genFieldTypes[12]:
		return vf.MutableValues(n, s), vf.Values(n, s)
	}
	return []interface{}{n, s}, []interface{}{n, s}
}

// pokeField changes what a field of a struct contains or refers to
func pokeField(f reflect.Value) {
	switch f.Kind() {
	case reflect.Int, reflect.Int16:
		f.SetInt(f.Int() + 1)
	case reflect.Uint32:
		f.SetUint(f.Uint() + 1)
	case reflect.String:
		f.SetString(f.String() + `!`)
	case reflect.Bool:
		f.SetBool(!f.Bool())
	case reflect.Float64:
		f.SetFloat(f.Float() + 1)
	case reflect.Slice:
		if f.Type().Elem().Kind() == reflect.Interface {
			f.Index(0).Set(reflect.ValueOf(`poked`))
		} else {
			pokeField(f.Index(0))
		}
	case reflect.Map:
		f.SetMapIndex(reflect.ValueOf(`poked`), reflect.ValueOf(1))
	case reflect.Ptr:
		pokeField(f.Elem())
	case reflect.Interface:
		switch x := f.Interface().(type) {
		case dgo.Array:
			if !x.Frozen() {
				x.Add(`poked`)
			} else {
				f.Set(reflect.ValueOf(vf.Values(`poked`)))
			}
		default:
			f.Set(reflect.ValueOf(`poked`).Convert(reflect.TypeOf(``)))
		}
	}
}

// c17Generated covers structs with any number of fields of several types
func c17Generated(c *mon.Ctx, r *rand.Rand) {
	n := 1 + r.Intn(3)
	switch r.Intn(4) {
	case 0:
		n = 1
	case 1:
		n = r.Intn(40) + 1
	}
	fs := make([]reflect.StructField, n)
	for i := range fs {
		fs[i] = reflect.StructField{Name: fmt.Sprintf(`F%d`, (i*7+3)%41), Type: genFieldTypes[r.Intn(len(genFieldTypes))]}
	}
	st := reflect.StructOf(fs)
	p := reflect.New(st)
	ref := vf.MutableMap()
	var names []interface{}
	for i := range fs {
		g, v := genFieldValue(r, fs[i].Type)
		p.Elem().Field(i).Set(reflect.ValueOf(g))
		ref.Put(fs[i].Name, v)
		names = append(names, fs[i].Name)
	}
	what := st.String()
	c.Seen(what)
	c.Count(`generated structs`, 1)
	same := func(m dgo.Map, ref dgo.Map, at string) {
		if m.Len() != n || !m.Keys().Equals(vf.Values(names...)) {
			c.Fail(`generated struct: the keys, `+at, "%s\n%s", m, what)
		}
		if !m.Equals(ref) || !ref.Equals(m) || m.HashCode() != ref.HashCode() || !m.Values().Equals(ref.Values()) || m.String() != ref.String() {
			c.Fail(`generated struct: the content, `+at, "%s\nexpected %s\n%s", m, ref, what)
		}
		c.Count(`views compared`, 1)
	}
	m := vf.Map(p.Interface())
	same(m, ref, `new`)
	old := ref.Copy(true)
	fz, th := m.FrozenCopy().(dgo.Map), m.ThawedCopy().(dgo.Map)
	same(fz, old, `frozen copy`)
	same(th, old, `thawed copy`)
	// Put through the view is seen in the struct
	i := r.Intn(n)
	_, v := genFieldValue(r, fs[i].Type)
	if fs[i].Type != genFieldTypes[12] {
		if prev := m.Put(fs[i].Name, v); !old.Get(fs[i].Name).Equals(prev) {
			c.Fail(`generated struct: the result of Put`, "%s, expected %s\n%s", prev, old.Get(fs[i].Name), what)
		}
		ref.Put(fs[i].Name, v)
	}
	same(m, ref, `after Put`)
	if !vf.Map(p.Interface()).Equals(ref) {
		c.Fail(`generated struct: the struct after Put`, "%s\n%s", vf.Map(p.Interface()), what)
	}
	same(fz, old, `frozen copy after Put`)
	same(th, old, `thawed copy after Put`)
	// what is obtained from a frozen view doesn't give access to it
	ref = ref.Copy(true).(dgo.Map)
	frozen := []dgo.Map{fz}
	refs := []dgo.Map{old}
	if chance(r, 50) {
		m.Freeze()
		frozen, refs = append(frozen, m), append(refs, ref)
	}
	poke := func(x reflect.Value) {
		for k := 0; k < n; k++ {
			if chance(r, 60) {
				pokeField(x.Field(k))
			}
		}
	}
	for k, f := range frozen {
		if !f.Frozen() {
			c.Fail(`generated struct: not frozen`, "%s", what)
		}
		poke(reflect.ValueOf(f.(dgo.Struct).GoStruct()).Elem())
		same(f, refs[k], `frozen, after a change of its GoStruct`)
		x, y := reflect.New(st).Elem(), reflect.New(reflect.PtrTo(st)).Elem()
		vf.ReflectTo(f, x)
		poke(x)
		same(f, refs[k], `frozen, after a change of a struct it was assigned to`)
		vf.ReflectTo(f, y)
		poke(y.Elem())
		same(f, refs[k], `frozen, after a change by a pointer it was assigned to`)
	}
	poke(p.Elem())
	for k, f := range frozen {
		same(f, refs[k], `frozen, after a change of the original struct`)
	}
	same(th, old, `thawed copy after a change of the original struct`)
	poke(reflect.ValueOf(th.(dgo.Struct).GoStruct()).Elem())
	for k, f := range frozen {
		same(f, refs[k], `frozen, after a change of the thawed copy`)
	}
}
