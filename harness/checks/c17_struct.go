package checks

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C17`, Scale: 4, Rule: `a history of operations on the map view of a Go struct, and on the maps derived from it, where every live view and the Go struct were compared with the reference after each operation; distinct by operation situation and content`, Run: runC17})
}

type wEmbedded struct {
	Promoted int
	Shadow   string
}

type wStruct struct {
	Zeta   string // declaration order differs from alphabetic order
	Alpha  int
	hidden int
	I8     int8
	U16    uint16
	I64    int64
	F64    float64
	F32    float32
	Bool   bool
	wEmbedded
	Strs   []string
	Ints   []int64
	Map    map[string]int
	Bytes  []byte
	T      time.Time
	Rx     *regexp.Regexp
	PInt   *int
	PStr   *string
	V      dgo.Value
	Arr    dgo.Array
	M      dgo.Map
	Any    interface{}
	NN     [][]int
	MM     map[string]interface{}
	Shadow string // hides the promoted field
	a1     string
	Last   int32
}

// wField describes how a field is seen through the view
type wField struct {
	name string
	// gen returns the model of a value that can be assigned to the field
	gen func(r *rand.Rand) *gen.V
	// bad returns the model of a value that cannot be assigned to the field, or nil
	bad  func(r *rand.Rand) *gen.V
	zero *gen.V
}

func wStrs(r *rand.Rand) *gen.V { return gen.Str(gen.Strs[r.Intn(len(gen.Strs))]) }
func wInts(lo, hi int64) func(r *rand.Rand) *gen.V {
	return func(r *rand.Rand) *gen.V {
		switch r.Intn(4) {
		case 0:
			return gen.Int(lo)
		case 1:
			return gen.Int(hi)
		}
		return gen.Int(r.Int63n(100))
	}
}
func wOver(lo, hi int64) func(r *rand.Rand) *gen.V {
	return func(r *rand.Rand) *gen.V {
		switch r.Intn(4) {
		case 0:
			return gen.Int(lo - 1)
		case 1:
			return gen.Int(hi + 1)
		case 2:
			return gen.Float(1.5)
		}
		return wStrs(r)
	}
}
func wList(e func(r *rand.Rand) *gen.V) func(r *rand.Rand) *gen.V {
	return func(r *rand.Rand) *gen.V {
		m := gen.Arr()
		for n := r.Intn(4); n > 0; n-- {
			m.E = append(m.E, e(r))
		}
		return m
	}
}
func wOne(m ...*gen.V) func(r *rand.Rand) *gen.V {
	return func(r *rand.Rand) *gen.V { return m[r.Intn(len(m))] }
}
func wMap(e func(r *rand.Rand) *gen.V) func(r *rand.Rand) *gen.V {
	return func(r *rand.Rand) *gen.V {
		// a map that has been a Go map is sorted by key
		m := gen.Map(nil, nil)
		for _, k := range []string{`a`, `b`, `c`} {
			if chance(r, 50) {
				m.Keys, m.E = append(m.Keys, gen.Str(k)), append(m.E, e(r))
			}
		}
		return m
	}
}

var wNotNumber = wOne(gen.Str(`x`), gen.Bool(true), gen.Arr(), gen.Bin([]byte{1}))
var wCfg = &gen.Cfg{Depth: 2, MaxLen: 3}

var wFields = []*wField{
	{`Zeta`, wStrs, wOne(gen.Int(1), gen.Bool(true), gen.Arr()), gen.Str(``)},
	{`Alpha`, wInts(math.MinInt64, math.MaxInt64), wNotNumber, gen.Int(0)},
	{`I8`, wInts(math.MinInt8, math.MaxInt8), wOver(math.MinInt8, math.MaxInt8), gen.Int(0)},
	{`U16`, wInts(0, math.MaxUint16), wOver(0, math.MaxUint16), gen.Int(0)},
	{`I64`, wInts(math.MinInt64, math.MaxInt64), wNotNumber, gen.Int(0)},
	{`F64`, func(r *rand.Rand) *gen.V { return gen.Float(anyFloat(r)) }, wNotNumber, gen.Float(0)},
	{`F32`, func(r *rand.Rand) *gen.V { return gen.Float(float64(r.Intn(1000)) / 8) }, wOne(gen.Str(`x`), gen.Float(1e300)), gen.Float(0)},
	{`Bool`, wOne(gen.Bool(true), gen.Bool(false)), wOne(gen.Int(1), gen.Str(`true`)), gen.Bool(false)},
	{`Strs`, wList(wStrs), wOne(gen.Arr(gen.Int(1)), gen.Str(`x`), gen.Bin([]byte{1})), gen.Nil()},
	{`Ints`, wList(wInts(-5, 5)), wOne(gen.Arr(gen.Str(`x`)), gen.Int(1)), gen.Nil()},
	{`Map`, wMap(wInts(-5, 5)), wOne(gen.MapKV(gen.Int(1), gen.Int(2)), gen.Arr(), gen.MapKV(gen.Str(`a`), gen.Str(`b`))), gen.Nil()},
	{`Bytes`, func(r *rand.Rand) *gen.V { return gen.Bin(anyBytes(r)) }, wOne(gen.Str(`x`), gen.Int(1)), gen.Nil()},
	{`T`, func(r *rand.Rand) *gen.V { return gen.Time(anyTime(r)) }, wOne(gen.Str(`2020-01-01T00:00:00Z`), gen.Int(1)), gen.Time(time.Time{})},
	{`Rx`, wOne(gen.Regexp(`a+`), gen.Regexp(`^b$`)), wOne(gen.Str(`a+`)), gen.Nil()},
	{`PInt`, wInts(math.MinInt64, math.MaxInt64), wNotNumber, gen.Nil()},
	{`PStr`, wStrs, wOne(gen.Int(1)), gen.Nil()},
	{`V`, func(r *rand.Rand) *gen.V { return gen.Gen(r, wCfg) }, nil, gen.Nil()},
	{`Arr`, func(r *rand.Rand) *gen.V { return gen.GenArr(r, wCfg) }, wOne(gen.Int(1), gen.MapKV(gen.Int(1), gen.Int(2))), gen.Nil()},
	{`M`, func(r *rand.Rand) *gen.V { return gen.GenMap(r, wCfg) }, wOne(gen.Int(1), gen.Arr()), gen.Nil()},
	{`Any`, func(r *rand.Rand) *gen.V {
		return wOne(gen.Int(3), gen.Str(`any`), gen.Float(2.5), gen.Bool(true), gen.Arr(gen.Str(`a`), gen.Int(1)), gen.Bin([]byte{7}), gen.Time(anyTime(r)))(r)
	}, nil, gen.Nil()},
	{`NN`, wList(wList(wInts(-3, 3))), wOne(gen.Arr(gen.Int(1)), gen.Arr(gen.Arr(gen.Str(`x`)))), gen.Nil()},
	{`MM`, wMap(wOne(gen.Int(1), gen.Str(`s`), gen.Arr(gen.Int(1)))), wOne(gen.Int(1), gen.MapKV(gen.Int(1), gen.Int(2))), gen.Nil()},
	{`Shadow`, wStrs, wOne(gen.Int(1)), gen.Str(``)},
	{`Last`, wInts(math.MinInt32, math.MaxInt32), wOver(math.MinInt32, math.MaxInt32), gen.Int(0)},
}

// wNoField are keys that are not keys of the view
var wNoField = []*gen.V{gen.Str(`hidden`), gen.Str(`a1`), gen.Str(`Promoted`), gen.Str(`wEmbedded`), gen.Str(`alpha`), gen.Str(``), gen.Str(`Nope`), gen.Int(0), gen.Int(1),
	gen.Nil(), gen.Arr(gen.Str(`Alpha`)), gen.Bin([]byte(`Alpha`)), gen.Regexp(`Alpha`)}

type wSlot struct {
	m      dgo.Map
	mod    *gen.V
	view   bool
	frozen bool
	gs     *wStruct // the struct that the view is a view of, nil when it is not known to the outside
}

type wHist struct {
	c  *mon.Ctx
	r  *rand.Rand
	l  *log
	ss []*wSlot
}

func runC17(c *mon.Ctx) {
	c.Run(`history`, c.N(2500, 60000), func(r *rand.Rand, i int) {
		h := &wHist{c: c, r: r, l: &log{}}
		h.fresh()
		for n := 10 + r.Intn(30); n > 0; n-- {
			h.step()
			h.verify()
			c.Count(`operations`, 1)
		}
		for _, s := range h.ss {
			c.Seen(s.mod.Canon(false))
		}
		c.Count(`maps`, len(h.ss))
		c.Sample(h.l.String())
	})
	c.Run(`pointers`, c.N(2000, 40000), func(r *rand.Rand, i int) { c17Pointers(c, r) })
	c.Run(`generated`, c.N(1500, 40000), func(r *rand.Rand, i int) { c17Generated(c, r) })
	c.Run(`shapes`, c.N(400, 4000), func(r *rand.Rand, i int) { c17Shapes(c, r) })
}

func (h *wHist) fresh() {
	gs := &wStruct{hidden: h.r.Intn(10), a1: `private`, wEmbedded: wEmbedded{Promoted: 4, Shadow: `promoted`}}
	mod := gen.Map(nil, nil)
	rv := reflect.ValueOf(gs).Elem()
	for _, f := range wFields {
		m := f.zero
		if !chance(h.r, 15) {
			m = f.gen(h.r)
			vf.ReflectTo(m.Build(h.r, false), rv.FieldByName(f.name))
		}
		mod.Keys, mod.E = append(mod.Keys, gen.Str(f.name)), append(mod.E, m)
	}
	s := &wSlot{mod: mod, view: true}
	switch h.r.Intn(3) {
	case 0:
		s.m = vf.Map(*gs) // by value
		h.l.add("m%d = vf.Map(%s)", len(h.ss), mod)
	default:
		s.m, s.gs = vf.Map(gs), gs
		h.l.add("m%d = vf.Map(&%s)", len(h.ss), mod)
	}
	if _, ok := s.m.(dgo.Struct); !ok {
		h.c.Fail(`the map of a struct is not a Struct`, "%T\n%s", s.m, h.l)
	}
	h.ss = append(h.ss, s)
}

// verify compares every live map and Go struct with its model
func (h *wHist) verify() {
	for i, s := range h.ss {
		if e, g := s.mod.Canon(false), gen.Observe(s.m).Canon(false); e != g {
			h.c.Fail(`content differs from the reference`, "m%d (view %v) is\n%s, expected\n%s\n%s", i, s.view, g, e, h.l)
		}
		if s.m.Len() != len(s.mod.E) || s.m.Frozen() != s.frozen {
			h.c.Fail(`Len or Frozen differs from the reference`, "m%d Len %d, Frozen %v\n%s", i, s.m.Len(), s.m.Frozen(), h.l)
		}
		if s.gs != nil {
			rv := reflect.ValueOf(s.gs).Elem()
			for fi, f := range wFields {
				if err := matchGo(s.mod.E[fi], rv.FieldByName(f.name)); err != nil {
					h.c.Fail(`the struct differs from the reference`, "m%d field %s: %s\n%s", i, f.name, err, h.l)
				}
				if m := s.mod.E[fi]; m.K != gen.KNil && (f.name == `Any` || f.name == `MM`) {
					// an untyped variable gets the Go value that the dgo value represents
					want := reflect.New(rv.FieldByName(f.name).Type())
					vf.FromValue(m.Build(h.r, false), want.Interface())
					if e, g := goTypes(want.Elem()), goTypes(rv.FieldByName(f.name)); e != g {
						h.c.Fail(`the struct differs from the reference: type of an untyped variable`, "m%d field %s has %s, expected %s\n%s", i, f.name, g, e, h.l)
					}
				}
			}
			if s.gs.a1 != `private` || s.gs.Promoted != 4 || s.gs.wEmbedded.Shadow != `promoted` {
				h.c.Fail(`a field that is not a key has changed`, "m%d %#v\n%s", i, s.gs, h.l)
			}
		}
	}
}

// goTypes describes the types of all values that are held by untyped variables
func goTypes(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return `nil`
		}
		return v.Elem().Type().String() + goTypes(v.Elem())
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return ``
		}
		s := `[`
		for i := 0; i < v.Len(); i++ {
			s += goTypes(v.Index(i)) + ` `
		}
		return s + `]`
	case reflect.Map:
		ks := []string{}
		for _, k := range v.MapKeys() {
			ks = append(ks, fmt.Sprint(k.Interface(), `:`, goTypes(v.MapIndex(k))))
		}
		sort.Strings(ks)
		return fmt.Sprint(ks)
	}
	return ``
}

func (h *wHist) add(m dgo.Map, s *wSlot) {
	s.m = m
	for i, o := range h.ss {
		if o.m == m {
			// an operation that changes nothing may return the receiver
			if o.mod.Canon(false) != s.mod.Canon(false) {
				h.c.Fail(`an operation returned a map with other content`, "m%d\n%s", i, h.l)
			}
			return
		}
	}
	if _, isView := m.(dgo.Struct); s.view != isView {
		h.c.Fail(`kind of map`, "got %T\n%s", m, h.l)
	}
	h.ss = append(h.ss, s)
	if len(h.ss) > 10 {
		h.ss = append(h.ss[:1], h.ss[2:]...)
	}
}

func (h *wHist) arg(m *gen.V) interface{} {
	if chance(h.r, 40) {
		return m.GoArg(h.r)
	}
	return m.Build(h.r, false)
}

func (h *wHist) step() {
	r, c, l := h.r, h.c, h.l
	si := r.Intn(len(h.ss))
	s := h.ss[si]
	m, mod := s.m, s.mod
	situation := func(op string, x ...interface{}) {
		c.Seen(fmt.Sprint(op, s.view, s.frozen, s.gs != nil, x))
	}
	fi := r.Intn(len(wFields))
	f := wFields[fi]
	switch op := r.Intn(24); op {
	case 0, 1, 2: // Put that fits
		v := f.gen(r)
		if chance(r, 10) {
			v = gen.Nil()
		}
		var key interface{} = f.name
		if chance(r, 50) {
			key = vf.String(f.name)
		}
		l.add("m%d.Put(%s, %s)", si, f.name, v)
		situation(`Put`, f.name, v.K == gen.KNil)
		if s.frozen {
			mustPanic(c, l, `Put on a frozen map`, func() { m.Put(key, h.arg(v)) })
			return
		}
		k, old := mod.Find(gen.Str(f.name)), (*gen.V)(nil)
		if k >= 0 {
			old = mod.E[k]
		}
		got := m.Put(key, h.arg(v))
		want(c, l, `result of Put`, old, got)
		if s.view {
			if v.K == gen.KNil {
				v = f.zero
			}
			nm := cloneMap(mod)
			nm.E[fi] = v
			s.mod = nm
		} else {
			s.mod, _ = modPut(mod, gen.Str(f.name), v)
		}
	case 3: // Put that does not fit
		if f.bad == nil || !s.view {
			return
		}
		v := f.bad(r)
		if f.name == `U16` && v.K == gen.KInt && v.I < 0 {
			situation(`negative to unsigned`)
		}
		l.add("m%d.Put(%s, %s) does not fit", si, f.name, v)
		situation(`bad Put`, f.name, v.K)
		if e := mon.Catch(func() { m.Put(f.name, h.arg(v)) }); e == nil {
			c.Fail(`a value that does not fit the field is accepted`, "%s = %s\n%s", f.name, v, l)
		}
	case 4: // Put with a key that isn't one
		if !s.view {
			return
		}
		k := wNoField[r.Intn(len(wNoField))]
		l.add("m%d.Put(%s, 1)", si, k)
		situation(`no Put`, k)
		mustPanic(c, l, `Put with a key that is no field`, func() { m.Put(h.arg(k), gen.Int(1).Build(r, false)) })
	case 5: // PutAll
		o := gen.Map(nil, nil)
		nm := cloneMap(mod)
		for _, x := range r.Perm(len(wFields))[:r.Intn(4)] {
			v := wFields[x].gen(r)
			o.Keys, o.E = append(o.Keys, gen.Str(wFields[x].name)), append(o.E, v)
			if s.view {
				nm.E[x] = v
			} else {
				nm, _ = modPut(nm, gen.Str(wFields[x].name), v)
			}
		}
		l.add("m%d.PutAll(%s)", si, o)
		situation(`PutAll`, len(o.E))
		if s.frozen {
			if len(o.E) > 0 {
				mustPanic(c, l, `PutAll on a frozen map`, func() { m.PutAll(o.Build(r, false).(dgo.Map)) })
			}
			return
		}
		m.PutAll(o.Build(r, chance(r, 30)).(dgo.Map))
		s.mod = nm
	case 6: // Remove
		l.add("m%d.Remove(%s)", si, f.name)
		situation(`Remove`)
		if s.view || s.frozen {
			if chance(r, 50) {
				mustPanic(c, l, `Remove of a struct field`, func() { m.Remove(f.name) })
			} else {
				mustPanic(c, l, `RemoveAll of struct fields`, func() { m.RemoveAll(vf.Values(f.name)) })
			}
			return
		}
		nm, old := modRemove(mod, gen.Str(f.name))
		want(c, l, `result of Remove`, old, m.Remove(f.name))
		s.mod = nm
	case 7, 8: // change the struct from the Go side
		if s.gs == nil {
			return
		}
		v := f.gen(r)
		l.add("m%d: struct.%s = %s", si, f.name, v)
		situation(`Go write`, f.name)
		vf.ReflectTo(v.Build(r, false), reflect.ValueOf(s.gs).Elem().FieldByName(f.name))
		nm := cloneMap(mod)
		nm.E[fi] = v
		s.mod = nm
	case 9: // With
		k, v := gen.Str(f.name), gen.Gen(r, wCfg)
		if chance(r, 30) {
			k = wNoField[r.Intn(len(wNoField))]
		}
		l.add("m%d = m%d.With(%s, %s)", len(h.ss), si, k, v)
		situation(`With`, k)
		nm, _ := modPut(mod, k, v)
		h.add(m.With(h.arg(k), h.arg(v)), &wSlot{mod: nm, frozen: s.frozen})
	case 10: // Without
		k := gen.Str(f.name)
		l.add("m%d = m%d.Without(%s)", len(h.ss), si, k)
		situation(`Without`, k)
		if mod.Find(k) < 0 {
			return
		}
		nm, _ := modRemove(mod, k)
		h.add(m.Without(h.arg(k)), &wSlot{mod: nm, frozen: s.frozen})
	case 11: // WithoutAll
		nm := mod
		ks := gen.Arr()
		for _, x := range r.Perm(len(wFields))[:1+r.Intn(4)] {
			k := gen.Str(wFields[x].name)
			if chance(r, 30) {
				k = wNoField[r.Intn(len(wNoField))]
			}
			ks.E = append(ks.E, k)
			nm, _ = modRemove(nm, k)
		}
		l.add("m%d = m%d.WithoutAll(%s)", len(h.ss), si, ks)
		situation(`WithoutAll`)
		if len(nm.E) == len(mod.E) {
			return
		}
		h.add(m.WithoutAll(ks.Build(r, false).(dgo.Array)), &wSlot{mod: nm, frozen: s.frozen})
	case 12: // Merge
		oi := r.Intn(len(h.ss))
		o := h.ss[oi]
		l.add("m%d = m%d.Merge(m%d)", len(h.ss), si, oi)
		situation(`Merge`, o.view, o.frozen)
		if oi == si || len(o.mod.E) == 0 || len(mod.E) == 0 {
			return
		}
		h.add(m.Merge(o.m), &wSlot{mod: modMerge(mod, o.mod), frozen: s.frozen})
	case 13: // Map
		l.add("m%d = m%d.Map(f)", len(h.ss), si)
		situation(`Map`)
		nm := cloneMap(mod)
		for i := range nm.E {
			nm.E[i] = gen.Arr(nm.Keys[i], nm.E[i])
		}
		h.add(m.Map(func(e dgo.MapEntry) interface{} { return vf.Values(e.Key(), e.Value()) }), &wSlot{mod: nm, frozen: s.frozen})
	case 14, 15: // Copy
		fz := chance(r, 50)
		var cp dgo.Map
		switch r.Intn(3) {
		case 0:
			cp = m.Copy(fz)
		default:
			if fz {
				cp = m.FrozenCopy().(dgo.Map)
			} else {
				cp = m.ThawedCopy().(dgo.Map)
			}
		}
		l.add("m%d = copy of m%d, frozen %v", len(h.ss), si, fz)
		situation(`Copy`, fz)
		if cp == m && !(fz && s.frozen) {
			c.Fail(`Copy returned the receiver`, "%s", l)
		}
		h.add(cp, &wSlot{mod: mod, view: s.view, frozen: fz})
	case 16: // Freeze detaches the view from the struct
		if !chance(r, 30) {
			return
		}
		l.add("m%d.Freeze()", si)
		situation(`Freeze`)
		m.Freeze()
		s.frozen, s.gs = true, nil
	case 17: // the wrapped struct
		sv, ok := m.(dgo.Struct)
		if !ok {
			return
		}
		l.add("m%d.GoStruct()", si)
		situation(`GoStruct`)
		gs := sv.GoStruct().(*wStruct)
		if s.gs != nil && gs != s.gs {
			c.Fail(`GoStruct returns another struct`, "%s", l)
		}
		if s.frozen {
			gs.Zeta += `!`
			gs.Strs = append(gs.Strs, `x`)
			if len(gs.Bytes) > 0 {
				gs.Bytes[0]++
			}
			if gs.PInt != nil {
				*gs.PInt++
			}
		} else if s.gs == nil {
			s.gs = gs // from now on it is known
			if gs.wEmbedded.Promoted != 4 {
				c.Fail(`GoStruct`, "%#v\n%s", gs, l)
			}
		}
		var ps *wStruct
		vf.FromValue(m, &ps)
		var vs wStruct
		vf.FromValue(m, &vs)
		for i, f := range wFields {
			for _, x := range []*wStruct{ps, &vs} {
				if err := matchGo(mod.E[i], reflect.ValueOf(x).Elem().FieldByName(f.name)); err != nil {
					c.Fail(`the struct obtained with FromValue`, "%s: %s\n%s", f.name, err, l)
				}
			}
		}
		vs.Alpha++ // a copy
		vs.Zeta += `?`
	default:
		h.read(si, op)
	}
}

// read compares the answers of all operations that do not change anything with those of an ordinary map
func (h *wHist) read(si, op int) {
	r, c, l := h.r, h.c, h.l
	s := h.ss[si]
	m, mod := s.m, s.mod
	l.add("m%d read %d", si, op)
	// ordinary map with the same content
	om := vf.MutableMap()
	for i := range mod.Keys {
		om.Put(mod.Keys[i].Build(r, false), mod.E[i].Build(r, false))
	}
	c.Seen(fmt.Sprint(`read`, op, s.view, s.frozen))
	switch op {
	case 18: // Get and ContainsKey
		for i, k := range mod.Keys {
			want(c, l, `Get`, mod.E[i], m.Get(h.arg(k)))
			wantBool(c, l, `ContainsKey`, true, m.ContainsKey(h.arg(k)))
		}
		for _, k := range wNoField {
			i := mod.Find(k)
			var e *gen.V
			if i >= 0 {
				e = mod.E[i]
			}
			want(c, l, `Get of a key that is no field`, e, m.Get(h.arg(k)))
			wantBool(c, l, `ContainsKey of a key that is no field`, e != nil, m.ContainsKey(h.arg(k)))
		}
	case 19: // Keys, Values, and iteration
		ks := m.Keys()
		want(c, l, `Keys`, gen.Arr(mod.Keys...), ks)
		wantBool(c, l, `Keys must be frozen`, true, ks.Frozen())
		vs := m.Values()
		want(c, l, `Values`, gen.Arr(mod.E...), vs)
		if !vs.Frozen() && vs.Len() > 0 {
			vs.Set(0, `changed`)
			vs.Add(1)
		}
		var k2, v2, e1, e2 []*gen.V
		m.EachKey(func(k dgo.Value) { k2 = append(k2, gen.Observe(k)) })
		m.EachValue(func(v dgo.Value) { v2 = append(v2, gen.Observe(v)) })
		m.EachEntry(func(e dgo.MapEntry) { e1 = append(e1, gen.Arr(gen.Observe(e.Key()), gen.Observe(e.Value()))) })
		m.Each(func(v dgo.Value) {
			e := v.(dgo.MapEntry)
			e2 = append(e2, gen.Arr(gen.Observe(e.Key()), gen.Observe(e.Value())))
		})
		var es []*gen.V
		for i := range mod.Keys {
			es = append(es, gen.Arr(mod.Keys[i], mod.E[i]))
		}
		for n, x := range map[string][2]*gen.V{`EachKey`: {gen.Arr(k2...), gen.Arr(mod.Keys...)}, `EachValue`: {gen.Arr(v2...), gen.Arr(mod.E...)}, `EachEntry`: {gen.Arr(e1...), gen.Arr(es...)}, `Each`: {gen.Arr(e2...), gen.Arr(es...)}} {
			if x[0].Canon(false) != x[1].Canon(false) {
				c.Fail(n, "got %s, expected %s\n%s", x[0], x[1], l)
			}
		}
	case 20: // predicates stop at the first answer
		at := r.Intn(len(mod.Keys) + 1)
		n := 0
		hit := func() bool { n++; return n-1 == at }
		check := func(name string, got, expect bool) {
			visits := at + 1
			if at == len(mod.Keys) {
				visits = at
			}
			if got != expect || n != visits {
				c.Fail(name, "got %v after %d visits, expected %v after %d\n%s", got, n, expect, visits, l)
			}
			n = 0
		}
		in := at < len(mod.Keys)
		check(`All`, m.All(func(dgo.MapEntry) bool { return !hit() }), !in)
		check(`AllKeys`, m.AllKeys(func(dgo.Value) bool { return !hit() }), !in)
		check(`AllValues`, m.AllValues(func(dgo.Value) bool { return !hit() }), !in)
		check(`Any`, m.Any(func(dgo.MapEntry) bool { return hit() }), in)
		check(`AnyKey`, m.AnyKey(func(dgo.Value) bool { return hit() }), in)
		check(`AnyValue`, m.AnyValue(func(dgo.Value) bool { return hit() }), in)
		e := m.Find(func(dgo.MapEntry) bool { return hit() })
		check(`Find`, e != nil, in)
		if in {
			want(c, l, `key of the found entry`, mod.Keys[at], e.Key())
			want(c, l, `value of the found entry`, mod.E[at], e.Value())
		}
	case 21: // comparison
		if !m.Equals(om) || !om.Equals(m) || !m.Equals(m) || m.HashCode() != om.HashCode() {
			c.Fail(`equality with an ordinary map`, "%v %v %d %d\n%s", m.Equals(om), om.Equals(m), m.HashCode(), om.HashCode(), l)
		}
		if len(mod.E) > 0 {
			x := r.Intn(len(mod.E))
			o2 := om.Copy(false)
			o2.Put(mod.Keys[x].Build(r, false), vf.Values(`something else`, r.Intn(1000)))
			if m.Equals(o2) || o2.Equals(m) {
				c.Fail(`equality with a map that differs`, "%s\n%s", mod.Keys[x], l)
			}
			o3 := om.Copy(false)
			o3.Remove(mod.Keys[x].Build(r, false))
			if m.Equals(o3) || o3.Equals(m) {
				c.Fail(`equality with a map that lacks a key`, "%s\n%s", mod.Keys[x], l)
			}
			o3.Put(`Another`, mod.E[x].Build(r, false))
			if m.Equals(o3) || o3.Equals(m) {
				c.Fail(`equality with a map that has another key`, "%s\n%s", mod.Keys[x], l)
			}
		}
		for i, o := range h.ss {
			if e := gen.Eq(mod, o.mod); m.Equals(o.m) != e {
				c.Fail(`equality of views`, "m%d, expected %v\n%s", i, e, l)
			}
		}
	case 22: // printing and streaming
		if a, b := m.String(), om.String(); a != b {
			c.Fail(`String`, "%s\nexpected %s\n%s", a, b, l)
		}
		if a, b := util.ToIndentedStringERP(m), util.ToIndentedStringERP(om); a != b {
			c.Fail(`indented text`, "%s\nexpected %s\n%s", a, b, l)
		}
		json := func(m dgo.Map) (s string, e interface{}) {
			e = mon.Catch(func() { s = string(streamer.MarshalJSON(m, nil)) })
			return
		}
		a, ea := json(m)
		b, eb := json(om)
		if (ea == nil) != (eb == nil) {
			c.Fail(`JSON`, "%s %v\nexpected %s %v\n%s", a, ea, b, eb, l)
		}
		// values that occur more than once are written as references
		if a != b {
			var va, vb dgo.Value
			if e := mon.Catch(func() { va, vb = streamer.UnmarshalJSON([]byte(a), nil), streamer.UnmarshalJSON([]byte(b), nil) }); e == nil && gen.Observe(va).Canon(false) != gen.Observe(vb).Canon(false) {
				c.Fail(`JSON`, "%s\nexpected %s\n%s", a, b, l)
			}
		}
	case 23: // types
		if m.StringKeys() != om.StringKeys() {
			c.Fail(`StringKeys`, "%s", l)
		}
		mt, ot := m.Type(), om.Type()
		if !mt.Instance(m) || !mt.Instance(om) || !ot.Instance(m) || !mt.Equals(ot) || !ot.Equals(mt) || mt.HashCode() != ot.HashCode() || !mt.Assignable(ot) || !ot.Assignable(mt) {
			c.Fail(`the type of a view`, "%s\n%s\n%s", mt, ot, l)
		}
		if !hasSens(mod) && mt.String() != ot.String() {
			c.Fail(`the text of the type of a view`, "%s\n%s\n%s", mt, ot, l)
		}
		if g, og := typ.Generic(mt), typ.Generic(ot); !g.Equals(og) || !g.Instance(m) {
			c.Fail(`the generic type of a view`, "%s\n%s\n%s", g, og, l)
		}
	}
}

type (
	wEmpty   struct{}
	wHidden  struct{ a, b int }
	wPtrEmb  struct{ *wEmbedded }
	wNatives struct {
		P   goPoint
		PP  *goPoint
		N   goInt
		C   chan int
		F   func(int) int
		Nil func()
		E   error
		End string
	}
	WExported struct{ X, Y int }
	wEmbExp   struct {
		WExported
		X string
	}
)

// c17Shapes covers structs of unusual shape
func c17Shapes(c *mon.Ctx, r *rand.Rand) {
	l := &log{}
	for n, m := range map[string]dgo.Map{`empty`: vf.Map(&wEmpty{}), `hidden`: vf.Map(&wHidden{1, 2}), `pointer`: vf.Map(&wPtrEmb{}), `empty value`: vf.Map(wEmpty{}), `hidden value`: vf.Map(wHidden{3, 4})} {
		if m.Len() != 0 || m.Keys().Len() != 0 || m.Values().Len() != 0 || m.ContainsKey(`a`) || m.Get(`wEmbedded`) != nil || m.Get(`Promoted`) != nil || !m.Equals(vf.Map()) || !vf.Map().Equals(m) ||
			m.HashCode() != vf.Map().HashCode() || m.String() != `{}` || m.Find(func(dgo.MapEntry) bool { return true }) != nil {
			c.Fail(`a struct without exported fields is not an empty map`, "%s: %s", n, m)
		}
		mustPanic(c, l, `Put on a struct without exported fields`, func() { m.Put(`a`, 1) })
		if x := m.With(`a`, 1); !x.Equals(vf.Map(`a`, 1)) {
			c.Fail(`With on an empty struct`, "%s: %s", n, x)
		}
	}
	// an embedded struct that is exported is a field like any other
	x := &wEmbExp{WExported{1, 2}, `x`}
	m := vf.Map(x)
	if ks := m.Keys(); !ks.Equals(vf.Strings(`WExported`, `X`)) {
		c.Fail(`the keys of a struct with an exported embedded struct`, "%s", ks)
	}
	if m.Get(`Y`) != nil || m.ContainsKey(`Y`) || !m.Get(`X`).Equals(`x`) {
		c.Fail(`promoted fields are not keys`, "%s", m)
	}
	mustPanic(c, l, `Put of a promoted field`, func() { m.Put(`Y`, 1) })
	m.Put(`X`, `new`)
	if x.X != `new` || x.WExported.X != 1 {
		c.Fail(`Put of a field that hides a promoted field`, "%#v", x)
	}
	// native fields
	ch := make(chan int)
	k := r.Intn(100)
	ns := &wNatives{P: goPoint{k, 2}, PP: &goPoint{3, 4}, N: goInt(k), C: ch, F: func(i int) int { return i + k }, End: `e`}
	nm := vf.Map(ns)
	if ks := nm.Keys(); !ks.Equals(vf.Strings(`P`, `PP`, `N`, `C`, `F`, `Nil`, `E`, `End`)) {
		c.Fail(`the keys of a struct with native fields`, "%s", ks)
	}
	if !nm.Get(`P`).Equals(goPoint{k, 2}) || nm.Get(`PP`).(dgo.Native).GoValue() != ns.PP || nm.Get(`C`).(dgo.Native).GoValue() != ch {
		c.Fail(`the values of native fields`, "%s", nm)
	}
	if rs := nm.Get(`F`).(dgo.Function).Call(vf.MutableValues(7)); len(rs) != 1 || !rs[0].Equals(7+k) {
		c.Fail(`the function in a field`, "%v", rs)
	}
	if nm.Values().Len() != 8 || nm.HashCode() != nm.HashCode() || !strings.HasSuffix(nm.String(), `"End":"e"}`) {
		c.Fail(`values of a struct with native fields`, "%s", nm)
	}
	nm.Put(`P`, goPoint{9, 9})
	nm.Put(`PP`, &goPoint{8, 8})
	nm.Put(`N`, goInt(5))
	nm.Put(`End`, `changed`)
	nm.Put(`E`, vf.Value(fmt.Errorf(`err`)))
	if ns.P != (goPoint{9, 9}) || *ns.PP != (goPoint{8, 8}) || ns.N != 5 || ns.End != `changed` || ns.E == nil || ns.E.Error() != `err` {
		c.Fail(`Put of native fields`, "%#v", ns)
	}
	ns.N = goInt(r.Intn(50))
	if nm.Get(`N`).(dgo.Native).GoValue() != ns.N {
		c.Fail(`the view of a native field is stale`, "%v", nm.Get(`N`))
	}
	c.Count(`structs of unusual shape`, 8)
	c.Seen(fmt.Sprint(`shapes`, k))
}
