package checks

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C16`, Scale: 30, Rule: `a conversion between a Go value and a dgo value, in either direction or through a function call, that was compared with the reference; distinct by Go type and content`, Run: runC16})
}

type (
	goInt     int
	goInt8    int8
	goUint    uint64
	goFloat   float64
	goFloat32 float32
	goStr     string
	goBool    bool
	goBytes   []byte
	goInts    []int
	goMap     map[string]int
	goPoint   struct {
		X, Y int
	}
	goRec struct {
		Name string
		Tags []string
		In   goPoint
		Ptr  *goPoint
		m    int
	}
	goStringer interface{ String() string }
)

func (p goPoint) String() string { return fmt.Sprintf(`%d,%d`, p.X, p.Y) }

var (
	rtValue  = reflect.TypeOf((*dgo.Value)(nil)).Elem()
	rtArray  = reflect.TypeOf((*dgo.Array)(nil)).Elem()
	rtMap    = reflect.TypeOf((*dgo.Map)(nil)).Elem()
	rtAny    = reflect.TypeOf((*interface{})(nil)).Elem()
	rtError  = reflect.TypeOf((*error)(nil)).Elem()
	rtTime   = reflect.TypeOf(time.Time{})
	rtRegexp = reflect.TypeOf(&regexp.Regexp{})
	rtBytes  = reflect.TypeOf([]byte{})
)

var goBasics = []reflect.Type{
	reflect.TypeOf(true), reflect.TypeOf(0), reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)),
	reflect.TypeOf(uint(0)), reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(``),
}

var goSpecial = []reflect.Type{rtTime, rtRegexp, rtBytes, rtError, rtAny, rtAny, rtValue, rtValue, rtArray, rtMap}

var goNatives = []reflect.Type{
	reflect.TypeOf(goInt(0)), reflect.TypeOf(goInt8(0)), reflect.TypeOf(goUint(0)), reflect.TypeOf(goFloat(0)), reflect.TypeOf(goFloat32(0)), reflect.TypeOf(goStr(``)), reflect.TypeOf(goBool(true)),
	reflect.TypeOf(goPoint{}), reflect.TypeOf(&goPoint{}), reflect.TypeOf(goRec{}), reflect.TypeOf(&goRec{}), reflect.TypeOf(complex(1, 1)), reflect.TypeOf(make(chan int)),
	reflect.TypeOf(uintptr(0)), reflect.TypeOf([2]int{}), reflect.TypeOf([0]string{}), reflect.TypeOf((*goStringer)(nil)).Elem(),
}

var goNamedCollections = []reflect.Type{reflect.TypeOf(goBytes{}), reflect.TypeOf(goInts{}), reflect.TypeOf(goMap{})}

// goType generates a Go type. Types that dgo can only represent as native are only included when asked for
func goType(r *rand.Rand, depth int, natives bool) reflect.Type {
	if depth > 0 {
		switch r.Intn(8) {
		case 0, 1:
			return reflect.SliceOf(goType(r, depth-1, natives))
		case 2, 3:
			return reflect.MapOf(goKeyType(r), goType(r, depth-1, natives))
		case 4:
			return reflect.PointerTo(goType(r, depth-1, natives))
		}
	}
	switch k := r.Intn(10); {
	case k < 5:
		return goBasics[r.Intn(len(goBasics))]
	case k < 8:
		return goSpecial[r.Intn(len(goSpecial))]
	case k < 9 || !natives:
		return goNamedCollections[r.Intn(len(goNamedCollections))]
	default:
		return goNatives[r.Intn(len(goNatives))]
	}
}

func goKeyType(r *rand.Rand) reflect.Type {
	switch r.Intn(6) {
	case 0, 1, 2:
		return goBasics[len(goBasics)-1]
	case 3:
		return rtAny
	default:
		return goBasics[r.Intn(len(goBasics))]
	}
}

// goValue generates a Go value of a type. Values of interfaces are chosen so that they survive without their static type
func goValue(r *rand.Rand, t reflect.Type, depth int) reflect.Value {
	v := reflect.New(t).Elem()
	switch t {
	case rtTime:
		v.Set(reflect.ValueOf(anyTime(r)))
		return v
	case rtRegexp:
		if !chance(r, 10) {
			v.Set(reflect.ValueOf(regexp.MustCompile([]string{`a+`, `^x.*$`, `[0-9]{2}`}[r.Intn(3)])))
		}
		return v
	case rtError:
		if !chance(r, 15) {
			v.Set(reflect.ValueOf(errors.New(hostileString(r, false))))
		}
		return v
	case rtValue:
		v.Set(reflect.ValueOf(gen.Gen(r, &gen.Cfg{Depth: 1, MaxLen: 3}).Build(r, chance(r, 30))))
		return v
	case rtArray:
		if !chance(r, 20) {
			v.Set(reflect.ValueOf(gen.GenArr(r, &gen.Cfg{Depth: 1, MaxLen: 3}).Build(r, chance(r, 30))))
		}
		return v
	case rtMap:
		if !chance(r, 20) {
			v.Set(reflect.ValueOf(gen.GenMap(r, &gen.Cfg{Depth: 1, MaxLen: 3}).Build(r, chance(r, 30))))
		}
		return v
	case rtAny:
		if depth <= 0 || chance(r, 40) {
			if chance(r, 10) {
				return v
			}
			v.Set(goValue(r, goBasics[r.Intn(len(goBasics))], 0))
		} else {
			x := goValue(r, goType(r, depth-1, false), depth-1)
			if x.Type() != rtAny || !x.IsNil() {
				v.Set(x)
			}
		}
		return v
	}
	switch t.Kind() {
	case reflect.Bool:
		v.SetBool(r.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b := t.Bits()
		x := anyInt(r)
		switch r.Intn(4) {
		case 0:
			x = math.MaxInt64 >> (64 - b)
		case 1:
			x = math.MinInt64 >> (64 - b)
		}
		v.SetInt(x >> (64 - b))
		if v.OverflowInt(x) {
			x >>= 64 - b
		}
		v.SetInt(x)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b := t.Bits()
		x := uint64(anyInt(r)) &^ (1 << 63)
		switch r.Intn(4) {
		case 0:
			x = math.MaxUint64
		case 1:
			x = uint64(r.Intn(5))
		}
		x >>= 64 - b
		if b == 64 && x > math.MaxInt64 && chance(r, 80) {
			x >>= 1 // only sometimes a value that dgo has no integer for
		}
		v.SetUint(x)
	case reflect.Float32:
		f := float32(anyFloat(r))
		if f != f || math.IsInf(float64(f), 0) {
			f = math.MaxFloat32
		}
		v.SetFloat(float64(f))
	case reflect.Float64:
		v.SetFloat(anyFloat(r))
	case reflect.Complex128:
		v.SetComplex(complex(anyFloat(r), anyFloat(r)))
	case reflect.String:
		v.SetString(hostileString(r, true))
	case reflect.Chan:
		if !chance(r, 20) {
			v.Set(reflect.MakeChan(t, 1))
		}
	case reflect.Slice:
		switch {
		case chance(r, 10):
			return v
		case t.Elem().Kind() == reflect.Uint8:
			v.Set(reflect.ValueOf(anyBytes(r)).Convert(t))
		default:
			n := r.Intn(4)
			v.Set(reflect.MakeSlice(t, n, n))
			for i := 0; i < n; i++ {
				v.Index(i).Set(goValue(r, t.Elem(), depth-1))
			}
		}
	case reflect.Array:
		for i := 0; i < t.Len(); i++ {
			v.Index(i).Set(goValue(r, t.Elem(), depth-1))
		}
	case reflect.Map:
		if chance(r, 10) {
			return v
		}
		v.Set(reflect.MakeMap(t))
		for n := r.Intn(4); n > 0; n-- {
			k := reflect.New(t.Key()).Elem()
			if t.Key() == rtAny {
				if chance(r, 50) {
					k.Set(goValue(r, goBasics[len(goBasics)-1], 0))
				} else {
					k.Set(goValue(r, goBasics[1], 0))
				}
			} else {
				k = goValue(r, t.Key(), 0)
			}
			v.SetMapIndex(k, goValue(r, t.Elem(), depth-1))
		}
	case reflect.Ptr:
		if chance(r, 15) {
			return v
		}
		x := reflect.New(t.Elem())
		x.Elem().Set(goValue(r, t.Elem(), depth-1))
		v.Set(x)
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			if t.Field(i).PkgPath == `` {
				v.Field(i).Set(goValue(r, t.Field(i).Type, depth-1))
			}
		}
	case reflect.Interface:
		v.Set(reflect.ValueOf(goPoint{r.Intn(10), r.Intn(10)}))
	}
	return v
}

type goTraits struct{ bigUint, native, nilPtr, badKey bool }

// traits finds the parts of a Go value that dgo has no representation for
func (g *goTraits) scan(v reflect.Value) {
	if !v.IsValid() {
		return
	}
	t := v.Type()
	switch t {
	case rtTime, rtRegexp, rtBytes, rtError:
		return
	}
	if v.CanInterface() {
		if dv, ok := v.Interface().(dgo.Value); ok {
			g.badKey = g.badKey || badKey(gen.Observe(dv))
			return
		}
	}
	switch v.Kind() {
	case reflect.Uint, reflect.Uint64:
		if t.PkgPath() == `` && v.Uint() > math.MaxInt64 {
			g.bigUint = true
		}
	case reflect.Chan, reflect.Struct, reflect.Array, reflect.Complex128, reflect.Uintptr:
		g.native = true
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			g.scan(v.Index(i))
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			g.scan(k)
			g.scan(v.MapIndex(k))
		}
	case reflect.Ptr:
		if v.IsNil() {
			g.nilPtr = true
		} else {
			g.scan(v.Elem())
		}
		return
	case reflect.Interface:
		if !v.IsNil() {
			g.scan(v.Elem())
		}
		return
	}
	switch v.Kind() {
	case reflect.Slice, reflect.Map, reflect.Ptr, reflect.Interface:
	default:
		if t.PkgPath() != `` {
			g.native = true
		}
	}
}

// badKey is true if the value contains a map with a key that cannot be a key in a Go map
func badKey(m *gen.V) bool {
	for _, k := range m.Keys {
		switch k.K {
		case gen.KArr, gen.KMap, gen.KBin:
			return true
		}
	}
	for _, e := range m.E {
		if badKey(e) {
			return true
		}
	}
	return false
}

// goSame compares what came back with the original. Within interfaces, where the static type is lost, the kind of
// number and the number of pointers is not significant
func goSame(a, b reflect.Value) error {
	if a.Type() != b.Type() {
		return fmt.Errorf(`%s became %s`, a.Type(), b.Type())
	}
	switch a.Type() {
	case rtTime:
		x, y := a.Interface().(time.Time), b.Interface().(time.Time)
		if !x.Equal(y) || x.Format(time.RFC3339Nano) != y.Format(time.RFC3339Nano) {
			return fmt.Errorf(`time %s became %s`, x, y)
		}
		return nil
	case rtRegexp:
		if a.IsNil() != b.IsNil() || !a.IsNil() && a.Interface().(*regexp.Regexp).String() != b.Interface().(*regexp.Regexp).String() {
			return fmt.Errorf(`regexp %v became %v`, a, b)
		}
		return nil
	case rtValue, rtArray, rtMap:
		if nilGo(a) || nilGo(b) {
			if !nilGo(a) || !nilGo(b) {
				return fmt.Errorf(`%v became %v`, a, b)
			}
			return nil
		}
		x, y := gen.Observe(a.Interface().(dgo.Value)).Canon(false), gen.Observe(b.Interface().(dgo.Value)).Canon(false)
		if x != y {
			return fmt.Errorf(`value %s became %s`, x, y)
		}
		return nil
	}
	switch a.Kind() {
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			if !nilGo(a) || !nilGo(b) {
				return fmt.Errorf(`interface %#v became %#v`, a, b)
			}
			return nil
		}
		return goLoose(a.Elem(), b.Elem())
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			if !nilGo(a) || !nilGo(b) {
				return fmt.Errorf(`pointer %#v became %#v`, a, b)
			}
			return nil
		}
		return goSame(a.Elem(), b.Elem())
	case reflect.Slice:
		if a.Len() != b.Len() { // a nil slice and an empty slice are equal
			return fmt.Errorf(`slice %#v became %#v`, a, b)
		}
		for i := 0; i < a.Len(); i++ {
			if err := goSame(a.Index(i), b.Index(i)); err != nil {
				return fmt.Errorf(`[%d]: %s`, i, err)
			}
		}
		return nil
	case reflect.Map:
		if a.IsNil() != b.IsNil() || a.Len() != b.Len() {
			return fmt.Errorf(`map %#v became %#v`, a, b)
		}
		for _, k := range a.MapKeys() {
			var y reflect.Value
			for _, bk := range b.MapKeys() {
				if goSame(k, bk) == nil {
					y = b.MapIndex(bk)
				}
			}
			if !y.IsValid() {
				return fmt.Errorf(`key %#v is lost`, k)
			}
			if err := goSame(a.MapIndex(k), y); err != nil {
				return fmt.Errorf(`[%v]: %s`, k, err)
			}
		}
		return nil
	case reflect.Float32, reflect.Float64:
		if a.Float() != b.Float() && (a.Float() == a.Float() || b.Float() == b.Float()) {
			return fmt.Errorf(`%v became %v`, a, b)
		}
		return nil
	}
	if !reflect.DeepEqual(a.Interface(), b.Interface()) {
		return fmt.Errorf(`%s %#v became %#v`, a.Type(), a, b)
	}
	return nil
}

func nilGo(v reflect.Value) bool {
	for v.IsValid() && (v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr) {
		if v.IsNil() {
			return true
		}
		if v.Type() == rtValue && v.Interface() == vf.Nil {
			return true
		}
		v = v.Elem()
	}
	return !v.IsValid() || v.Type() == reflect.TypeOf(vf.Nil) || (v.Kind() == reflect.Slice || v.Kind() == reflect.Map) && v.IsNil()
}

// deref removes interfaces and pointers, except the pointers that are values in their own right
func deref(v reflect.Value) reflect.Value {
	for v.IsValid() && (v.Kind() == reflect.Interface || v.Kind() == reflect.Ptr) {
		if v.Kind() == reflect.Ptr {
			if v.Type() == rtRegexp {
				break
			}
			if _, ok := v.Interface().(dgo.Value); ok {
				break
			}
			if _, ok := v.Interface().(error); ok {
				break
			}
		}
		v = v.Elem()
	}
	return v
}

func goLoose(a, b reflect.Value) error {
	a, b = deref(a), deref(b)
	if nilGo(a) || !a.IsValid() {
		if !b.IsValid() || nilGo(b) || (b.Kind() == reflect.Slice || b.Kind() == reflect.Map) && b.Len() == 0 {
			return nil
		}
		return fmt.Errorf(`nil became %#v`, b)
	}
	if dv, ok := a.Interface().(dgo.Value); ok {
		return matchGo(gen.Observe(dv), b)
	}
	m := modelOfGo(a)
	if m == nil { // native
		return goSame(a, b)
	}
	return matchGo(m, b)
}

// modelOfGo creates the model of the dgo value for a Go value. The result is nil for a native
func modelOfGo(v reflect.Value) *gen.V {
	v = deref(v)
	if !v.IsValid() {
		return gen.Nil()
	}
	switch x := v.Interface().(type) {
	case dgo.Value:
		return gen.Observe(x)
	case time.Time:
		return gen.Time(x)
	case *regexp.Regexp:
		if x == nil {
			return gen.Nil()
		}
		return gen.Regexp(x.String())
	case []byte:
		if x == nil {
			return gen.Nil()
		}
		return gen.Bin(x)
	case error:
		return gen.Err(x.Error())
	}
	if k := v.Kind(); k != reflect.Slice && k != reflect.Map && v.Type().PkgPath() != `` {
		return nil
	}
	switch v.Kind() {
	case reflect.Bool:
		return gen.Bool(v.Bool())
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return gen.Int(v.Int())
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return gen.Int(int64(v.Uint()))
	case reflect.Float32, reflect.Float64:
		return gen.Float(v.Float())
	case reflect.String:
		return gen.Str(v.String())
	case reflect.Slice:
		if v.IsNil() {
			return gen.Nil()
		}
		m := gen.Arr()
		for i := 0; i < v.Len(); i++ {
			e := modelOfGo(v.Index(i))
			if e == nil {
				return nil
			}
			m.E = append(m.E, e)
		}
		return m
	case reflect.Map:
		if v.IsNil() {
			return gen.Nil()
		}
		m := gen.Map(nil, nil)
		for _, k := range v.MapKeys() {
			mk, mv := modelOfGo(k), modelOfGo(v.MapIndex(k))
			if mk == nil || mv == nil {
				return nil
			}
			m.Keys, m.E = append(m.Keys, mk), append(m.E, mv)
		}
		return m
	}
	return nil
}

// matchGo checks that a Go value is exactly what the model denotes. Nil denotes the zero value
func matchGo(m *gen.V, v reflect.Value) error {
	bad := func() error {
		if v.IsValid() {
			return fmt.Errorf(`%s became %s %#v`, m.Canon(false), v.Type(), v)
		}
		return fmt.Errorf(`%s became nil`, m.Canon(false))
	}
	if m.K == gen.KNil {
		if v.IsValid() && !v.IsZero() && !nilGo(v) {
			if dv, ok := v.Interface().(dgo.Value); !ok || dv != vf.Nil {
				return bad()
			}
		}
		return nil
	}
	if !v.IsValid() {
		return bad()
	}
	v = deref(v)
	if !v.IsValid() {
		return bad()
	}
	if dv, ok := v.Interface().(dgo.Value); ok {
		if dv == nil || !gen.Same(m, dv) {
			return bad()
		}
		return nil
	}
	ok := false
	switch m.K {
	case gen.KBool:
		ok = v.Kind() == reflect.Bool && v.Bool() == m.B
	case gen.KInt:
		switch v.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			ok = v.Int() == m.I
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
			ok = m.I >= 0 && v.Uint() == uint64(m.I)
		}
	case gen.KFloat:
		switch v.Kind() {
		case reflect.Float32:
			ok = float32(m.F) == float32(v.Float()) && (!math.IsInf(v.Float(), 0) || math.IsInf(m.F, 0)) || m.F != m.F && v.Float() != v.Float()
		case reflect.Float64:
			ok = m.F == v.Float() || m.F != m.F && v.Float() != v.Float()
		}
	case gen.KStr:
		ok = v.Kind() == reflect.String && v.String() == m.S
	case gen.KBin:
		ok = v.Kind() == reflect.Slice && v.Type().Elem().Kind() == reflect.Uint8 && bytes.Equal(v.Bytes(), m.Bin)
	case gen.KTime:
		var t time.Time
		if t, ok = v.Interface().(time.Time); ok {
			ok = t.Equal(m.T) && t.Format(time.RFC3339Nano) == m.T.Format(time.RFC3339Nano)
		}
	case gen.KRegexp:
		switch x := v.Interface().(type) {
		case *regexp.Regexp:
			ok = x != nil && x.String() == m.S
		case regexp.Regexp:
			ok = x.String() == m.S
		}
	case gen.KErr:
		var e error
		if e, ok = v.Interface().(error); ok {
			ok = e.Error() == m.S
		}
	case gen.KArr:
		if (v.Kind() == reflect.Slice && !v.IsNil() || v.Kind() == reflect.Array) && v.Len() == len(m.E) {
			for i, e := range m.E {
				if err := matchGo(e, v.Index(i)); err != nil {
					return fmt.Errorf(`[%d]: %s`, i, err)
				}
			}
			ok = true
		}
	case gen.KMap:
		if v.Kind() == reflect.Map && !v.IsNil() && v.Len() == len(m.E) {
			for i, k := range m.Keys {
				found := false
				for _, gk := range v.MapKeys() {
					if matchGo(k, gk) == nil && matchGo(m.E[i], v.MapIndex(gk)) == nil {
						found = true
					}
				}
				if !found {
					return fmt.Errorf("entry %s: %s of\n%s\n is not in\n%#v", k.Canon(false), m.E[i].Canon(false), m.Canon(false), v)
				}
			}
			ok = true
		}
	}
	if !ok {
		return bad()
	}
	return nil
}

// fatal is true for panics that are never an acceptable refusal
func fatalPanic(e interface{}) bool {
	if isRuntimeError(e) {
		s := fmt.Sprint(e)
		return !strings.Contains(s, `hash of unhashable type`)
	}
	return false
}

func runC16(c *mon.Ctx) {
	c.Run(`roundtrip`, c.N(20000, 500000), func(r *rand.Rand, i int) { c16RoundTrip(c, r) })
	c.Run(`assign`, c.N(20000, 500000), func(r *rand.Rand, i int) { c16Assign(c, r) })
	c.Run(`function`, c.N(8000, 200000), func(r *rand.Rand, i int) { c16Function(c, r) })
	c.Run(`number texts`, c.N(4000, 50000), func(r *rand.Rand, i int) { c16Numbers(c, r) })
	c.Run(`targets`, c.N(500, 5000), func(r *rand.Rand, i int) { c16Targets(c, r) })
	c.Run(`type holds`, c.N(20000, 300000), func(r *rand.Rand, i int) { c16TypeHolds(c, r, i) })
	c.Run(`go keys`, c.N(8000, 150000), func(r *rand.Rand, i int) { c16Keys(c, r) })
}

func c16RoundTrip(c *mon.Ctx, r *rand.Rand) {
	t := goType(r, r.Intn(4), chance(r, 30))
	x := goValue(r, t, 3)
	tr := &goTraits{}
	tr.scan(x)
	desc := fmt.Sprintf("%s %#v", t, x)
	var dv dgo.Value
	how := r.Intn(2)
	e := mon.Catch(func() {
		if how == 0 {
			dv = vf.Value(x.Interface())
		} else {
			dv = vf.ValueFromReflected(x)
		}
	})
	if e != nil {
		if isRuntimeError(e) {
			c.Fail(`creating a value causes a runtime error`, "%s: %v", desc, e)
		}
		if !tr.bigUint && !tr.native {
			c.Fail(`a Go value has no value`, "%s: %v", desc, e)
		}
		c.Count(`refused Go values`, 1)
		return
	}
	if tr.bigUint {
		c.Fail(`an unsigned integer that does not fit is converted`, "%s became %s", desc, dv)
	}
	if dv == nil {
		c.Fail(`conversion yields no value`, "%s", desc)
	}
	if m := modelOfGo(x); m != nil {
		g := gen.Observe(dv)
		if m.K == gen.KNil && (g.K == gen.KArr || g.K == gen.KMap || g.K == gen.KBin) && len(g.E)+len(g.Bin) == 0 {
			m = g // a nil slice is empty
		}
		if !gen.Eq(m, g) {
			c.Fail(`the value of a Go value`, "%s\nexpected %s\ngot %s", desc, m.Canon(true), g.Canon(true))
		}
		c.Count(`Go values observed as dgo values`, 1)
	}
	c16TypeOf(c, t, x, dv, desc)
	back := reflect.New(t)
	e = mon.Catch(func() {
		if how == 0 {
			vf.FromValue(dv, back.Interface())
		} else {
			vf.ReflectTo(dv, back.Elem())
		}
	})
	if e != nil {
		if fatalPanic(e) {
			c.Fail(`conversion to Go causes a runtime error`, "%s: %v", desc, e)
		}
		if tr.badKey { // a key within a dgo value that cannot be a key in Go
			c.Count(`refused keys`, 1)
			return
		}
		c.Fail(`the value of a Go value cannot be assigned to a variable of the same type`, "%s: %v", desc, e)
	}
	if err := goSame(x, back.Elem()); err != nil {
		c.Fail(`a Go value changes on its way through dgo`, "%s: %s", desc, err)
	}
	c.Count(`round trips`, 1)
	if c.Seen(desc) {
		c.Sample(desc)
	}
}

func c16Assign(c *mon.Ctx, r *rand.Rand) {
	m := gen.Gen(r, &gen.Cfg{Depth: r.Intn(3), MaxLen: 4})
	var t reflect.Type
	switch r.Intn(3) {
	case 0:
		t = goType(r, r.Intn(3), true)
	default:
		t = fitGo(r, m)
	}
	v := m.Build(r, chance(r, 50))
	back := reflect.New(t)
	desc := fmt.Sprintf(`%s to %s`, m.Canon(false), t)
	e := mon.Catch(func() { vf.ReflectTo(v, back.Elem()) })
	if e != nil {
		if fatalPanic(e) {
			c.Fail(`assignment to a Go variable causes a runtime error`, "%s: %v", desc, e)
		}
		c.Count(`refused assignments`, 1)
	} else {
		if err := matchGo(m, back.Elem()); err != nil {
			c.Fail(`assignment to a Go variable changes the value`, "%s: %s", desc, err)
		}
		c.Count(`assignments`, 1)
	}
	if !gen.Same(m, v) {
		c.Fail(`assignment changes the source`, "%s is now %s", desc, v)
	}
	c.Seen(desc)
}

// fitGo generates a Go type that is likely to be a destination of a value
func fitGo(r *rand.Rand, m *gen.V) (t reflect.Type) {
	if chance(r, 15) {
		return rtAny
	}
	if chance(r, 5) {
		return rtValue
	}
	switch m.K {
	case gen.KBool:
		t = reflect.TypeOf(true)
	case gen.KInt:
		t = goBasics[1+r.Intn(10)]
		if chance(r, 10) {
			t = goNatives[r.Intn(3)]
		}
	case gen.KFloat:
		t = goBasics[11+r.Intn(2)]
		if chance(r, 10) {
			t = goNatives[3+r.Intn(2)]
		}
	case gen.KStr:
		t = reflect.TypeOf(``)
	case gen.KBin:
		t = rtBytes
		if chance(r, 20) {
			t = goNamedCollections[0]
		}
	case gen.KTime:
		t = rtTime
	case gen.KRegexp:
		t = rtRegexp
	case gen.KErr:
		t = rtError
	case gen.KArr:
		t = rtAny
		if len(m.E) > 0 {
			t = fitGo(r, m.E[r.Intn(len(m.E))])
		}
		if chance(r, 15) {
			t = reflect.ArrayOf(len(m.E)+r.Intn(3)-1+b2i(len(m.E) == 0), t)
		} else {
			t = reflect.SliceOf(t)
		}
	case gen.KMap:
		kt, vt := rtAny, rtAny
		if len(m.E) > 0 {
			kt, vt = fitGo(r, m.Keys[r.Intn(len(m.E))]), fitGo(r, m.E[r.Intn(len(m.E))])
		}
		if !kt.Comparable() {
			kt = rtAny
		}
		t = reflect.MapOf(kt, vt)
	default:
		t = rtAny
	}
	if chance(r, 12) {
		t = reflect.PointerTo(t)
	}
	return t
}

func c16Function(c *mon.Ctx, r *rand.Rand) {
	nIn, nOut := r.Intn(4), r.Intn(3)
	variadic := chance(r, 40)
	var in, out []reflect.Type
	for i := 0; i < nIn; i++ {
		in = append(in, goType(r, r.Intn(3), false))
	}
	if variadic {
		in = append(in, reflect.SliceOf(goType(r, r.Intn(2), false)))
	}
	var rets []reflect.Value
	for i := 0; i < nOut; i++ {
		t := goType(r, r.Intn(3), false)
		out = append(out, t)
		rets = append(rets, goValue(r, t, 2))
	}
	ft := reflect.FuncOf(in, out, variadic)
	var got []reflect.Value
	calls := 0
	fn := reflect.MakeFunc(ft, func(args []reflect.Value) []reflect.Value {
		calls++
		got = args
		return rets
	})
	dv := vf.Value(fn.Interface())
	f, ok := dv.(dgo.Function)
	if !ok {
		c.Fail(`a Go function is not a Function`, "%s became %T", ft, dv)
	}
	typ := f.Type().(dgo.FunctionType)
	if typ.In().Len() != len(in) || typ.Out().Len() != len(out) || typ.Variadic() != variadic || typ.In().Variadic() != variadic {
		c.Fail(`the type of a function`, "%s became %s", ft, typ)
	}
	if !typ.Instance(dv) {
		c.Fail(`the type of a function rejects the function`, "%s", ft)
	}
	tr := &goTraits{}
	n := nIn
	if variadic {
		n += r.Intn(3)
	}
	var sent []reflect.Value
	args := vf.MutableValues()
	for i := 0; i < n; i++ {
		t := in[nIn*b2i(i >= nIn)+i*b2i(i < nIn)]
		if i >= nIn {
			t = t.Elem()
		}
		x := goValue(r, t, 2)
		tr.scan(x)
		if tr.bigUint || tr.native {
			return
		}
		sent = append(sent, x)
		args.Add(vf.ValueFromReflected(x))
	}
	trOut := &goTraits{}
	for _, x := range rets {
		trOut.scan(x)
	}
	var outVals []dgo.Value
	if !trOut.bigUint && !trOut.native && !trOut.badKey {
		outVals = []dgo.Value{}
		for _, x := range rets {
			outVals = append(outVals, vf.ValueFromReflected(x))
		}
	}
	inVals := []dgo.Value{}
	args.Each(func(v dgo.Value) { inVals = append(inVals, v) })
	c16FunctionType(c, r, ft, f, inVals, outVals)
	wrong := 0
	if chance(r, 25) {
		if chance(r, 50) && !variadic {
			wrong = 1 + r.Intn(2)
			for i := 0; i < wrong; i++ {
				args.Add(r.Intn(3))
			}
		} else if nIn > 0 {
			wrong = -1
			for args.Len() >= nIn {
				args.Remove(args.Len() - 1)
			}
		}
	}
	desc := fmt.Sprintf(`%s called with %s`, ft, args)
	var res []dgo.Value
	e := mon.Catch(func() { res = f.Call(args) })
	if wrong != 0 {
		if e == nil || calls > 0 {
			c.Fail(`a function accepts the wrong number of arguments`, "%s", desc)
		}
		if _, ok := e.(error); !ok || isRuntimeError(e) {
			c.Fail(`the wrong number of arguments is not reported as an error`, "%s: %T %v", desc, e, e)
		}
		c.Count(`refused calls`, 1)
		return
	}
	if e != nil {
		if (trOut.bigUint || trOut.native) && !isRuntimeError(e) {
			c.Count(`refused returns`, 1)
			return
		}
		if (tr.badKey || trOut.badKey) && !fatalPanic(e) { // a key within a dgo value that cannot be a key in Go
			c.Count(`refused keys`, 1)
			return
		}
		c.Fail(`a function cannot be called with values of its parameter types`, "%s: %v", desc, e)
	}
	if calls != 1 {
		c.Fail(`a function is not called once`, "%s: %d calls", desc, calls)
	}
	if trOut.bigUint {
		c.Fail(`an unsigned integer that does not fit is returned`, "%s returned %v", desc, res)
	}
	for i, x := range sent {
		var g reflect.Value
		if i < nIn {
			g = got[i]
		} else {
			if got[nIn].Len() != n-nIn {
				c.Fail(`the number of variadic arguments changes`, "%s: got %#v", desc, got[nIn])
			}
			g = got[nIn].Index(i - nIn)
		}
		if err := goSame(x, g); err != nil {
			c.Fail(`an argument changes`, "%s: argument %d: %s", desc, i, err)
		}
	}
	if variadic && n == nIn && got[nIn].Len() != 0 {
		c.Fail(`the number of variadic arguments changes`, "%s: got %#v", desc, got[nIn])
	}
	if len(res) != nOut {
		c.Fail(`the number of returned values`, "%s: %v", desc, res)
	}
	for i, x := range rets {
		m := modelOfGo(x)
		if m == nil {
			continue
		}
		if res[i] == nil {
			if m.K != gen.KNil {
				c.Fail(`a returned value is lost`, "%s: %#v", desc, x)
			}
			continue
		}
		if g := gen.Observe(res[i]); !gen.Eq(m, g) {
			c.Fail(`a returned value changes`, "%s: expected %s, got %s", desc, m.Canon(true), g.Canon(true))
		}
	}
	c.Count(`calls`, 1)
	c.Count(`arguments and returned values compared`, n+nOut)
	c.Seen(desc)
}
