package checks

import (
	"errors"
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"regexp"
	"time"
	"unsafe"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{
		ID:    `C05`,
		Scale: 20,
		Rule: `Pairs and triples of generated values (independent, rebuilt in another way, or with one node changed), in frozen, mutable and Go representations; ` +
			`a case counts as distinct by the canonical text of the pair. Equality is judged by a structural reference model.`,
		Run: runC05,
	})
}

// mutateModel returns a copy of v with one random node changed. The result is usually, but not always, different.
func mutateModel(r *rand.Rand, v *gen.V, cfg *gen.Cfg) *gen.V {
	c := *v
	if len(v.E) == 0 || r.Intn(4) == 0 {
		switch v.K {
		case gen.KArr:
			c.E = append([]*gen.V{}, v.E...)
			switch r.Intn(3) {
			case 0:
				c.E = append(c.E, gen.GenScalar(r, cfg))
			case 1:
				if len(c.E) > 0 {
					c.E = c.E[:len(c.E)-1]
				} else {
					return gen.MapKV()
				}
			default:
				if len(c.E) > 1 {
					c.E[0], c.E[1] = c.E[1], c.E[0]
				} else {
					return gen.Arr(v)
				}
			}
			return &c
		case gen.KMap:
			c.E = append([]*gen.V{}, v.E...)
			c.Keys = append([]*gen.V{}, v.Keys...)
			switch r.Intn(4) {
			case 0: // other order: still equal
				r.Shuffle(len(c.E), func(i, j int) { c.E[i], c.E[j] = c.E[j], c.E[i]; c.Keys[i], c.Keys[j] = c.Keys[j], c.Keys[i] })
			case 1:
				k := gen.GenKey(r, cfg)
				if c.Find(k) < 0 {
					c.Keys = append(c.Keys, k)
					c.E = append(c.E, gen.Nil())
				}
			case 2:
				if len(c.E) > 0 {
					c.E, c.Keys = c.E[1:], c.Keys[1:]
				} else {
					return gen.Arr()
				}
			default:
				if len(c.E) > 0 {
					i := r.Intn(len(c.E))
					k := gen.GenKey(r, cfg)
					if c.Find(k) < 0 {
						c.Keys[i] = k
					}
				}
			}
			return &c
		case gen.KSens:
			return v.E[0]
		case gen.KInt:
			if r.Intn(2) == 0 {
				return gen.Float(float64(v.I))
			}
			return gen.Int(v.I ^ 1<<uint(r.Intn(63)))
		case gen.KFloat:
			if r.Intn(2) == 0 {
				return gen.Int(int64(v.F))
			}
			return gen.Float(v.F + 1)
		case gen.KStr:
			switch r.Intn(4) {
			case 0:
				return gen.Str(v.S + "\x00")
			case 1:
				return gen.Bin([]byte(v.S))
			case 2:
				return gen.Err(v.S)
			default:
				return gen.Arr(v)
			}
		case gen.KBin:
			if len(v.Bin) > 0 {
				b := append([]byte{}, v.Bin...)
				b[r.Intn(len(b))] ^= 1
				return gen.Bin(b)
			}
			return gen.Str(``)
		case gen.KTime:
			return gen.Time(v.T.Add(1))
		default:
			return gen.GenScalar(r, cfg)
		}
	}
	i := r.Intn(len(v.E))
	c.E = append([]*gen.V{}, v.E...)
	c.E[i] = mutateModel(r, v.E[i], cfg)
	return &c
}

// goDeep returns the Go data that a value represents, or the value itself where there is none.
func goDeep(r *rand.Rand, v *gen.V) interface{} {
	switch v.K {
	case gen.KArr:
		s := make([]interface{}, len(v.E))
		for i := range v.E {
			s[i] = goDeep(r, v.E[i])
		}
		return s
	case gen.KMap:
		str := true
		for _, k := range v.Keys {
			str = str && k.K == gen.KStr
		}
		if !str {
			return v.Build(r, false)
		}
		m := map[string]interface{}{}
		for i := range v.Keys {
			m[v.Keys[i].S] = goDeep(r, v.E[i])
		}
		return m
	case gen.KSens:
		return v.Build(r, false)
	default:
		if gs := goScalars(v); len(gs) > 0 && r.Intn(2) == 0 {
			if v.K == gen.KTime {
				// the same instant in another location, possibly as a pointer
				t := v.T.In(time.FixedZone(`X`, (r.Intn(49)-24)*1800))
				gs = append(gs, t, &t)
			}
			return gs[r.Intn(len(gs))]
		}
		return v.GoArg(r)
	}
}

func runC05(c *mon.Ctx) {
	cfg := &gen.Cfg{Depth: 3}
	c.Run(`pairs`, c.N(60000, 1500000), func(r *rand.Rand, i int) {
		l := &log{}
		a := gen.Gen(r, cfg)
		var b *gen.V
		switch r.Intn(6) {
		case 0:
			b = gen.Gen(r, cfg)
		case 1, 2:
			b = a
		default:
			b = mutateModel(r, a, cfg)
			if r.Intn(3) == 0 {
				b = mutateModel(r, b, cfg)
			}
		}
		eq := gen.Eq(a, b)
		da, db := a.Build(r, r.Intn(2) == 0), b.Build(r, r.Intn(2) == 0)
		l.add("a = %s (%T)\nb = %s (%T)", a, da, b, db)
		c.Seen(a.Canon(true) + ` ~ ` + b.Canon(true))
		if i < 3 {
			c.Sample(l.String())
		}
		if eq {
			c.Count(`equal pairs`, 1)
		} else {
			c.Count(`different pairs`, 1)
		}
		kinds := fmt.Sprintf("%T/%T", da, db)
		if da.Equals(db) != eq {
			c.Fail(`Equals differs from structural equality `+kinds, "a.Equals(b) is %v\n%s", !eq, l)
		}
		if db.Equals(da) != eq {
			c.Fail(`Equals differs from structural equality `+kinds, "b.Equals(a) is %v\n%s", !eq, l)
		}
		wantBool(c, l, `Equals is not reflexive`, true, da.Equals(da))
		wantBool(c, l, `Equals accepts nothing as equal to a native string`, false, da.Equals(struct{ X int }{1}))
		ha := da.HashCode()
		wantInt(c, l, `HashCode is not stable`, ha, da.HashCode())
		if eq && ha != db.HashCode() {
			c.Fail(`equal values have different hash codes `+kinds, "%d != %d\n%s", ha, db.HashCode(), l)
		}
		gb := goDeep(r, b)
		if da.Equals(gb) != eq {
			c.Fail(fmt.Sprintf(`Equals with a Go argument %T/%T`, da, gb), "a.Equals(%T %v) is %v\n%s", gb, gb, !eq, l)
		}
		// frozen and thawed forms
		if fa, ok := da.(dgo.Freezable); ok {
			f := fa.FrozenCopy()
			wantBool(c, l, `frozen copy equality`, eq, f.Equals(db))
			wantBool(c, l, `frozen copy equality (reverse)`, eq, db.Equals(f))
			wantInt(c, l, `frozen copy hash`, ha, f.HashCode())
			t := fa.ThawedCopy()
			wantBool(c, l, `thawed copy equality`, eq, t.Equals(db))
			wantInt(c, l, `thawed copy hash`, ha, t.HashCode())
		}
		// as a value that is looked up
		arr := vf.Values(`x`, da, `y`)
		ix := arr.IndexOf(db)
		if eq && ix != 1 || !eq && ix == 1 {
			c.Fail(`Array.IndexOf and equality`, "IndexOf(b) is %d\n%s", ix, l)
		}
		// exact types of the values
		ta, tb := da.Type(), db.Type()
		if a.K != gen.KSens && a.K != gen.KType && b.K != gen.KType && b.K != gen.KSens && !hasSens(a) && !hasSens(b) {
			if ta.Equals(tb) != eq {
				c.Fail(`equality of the types of values `+kinds, "a.Type().Equals(b.Type()) is %v\n%s", !eq, l)
			}
		}
		if eq && ta.HashCode() != tb.HashCode() {
			c.Fail(`types of equal values have different hash codes `+kinds, "%s %s\n%s", ta, tb, l)
		}
	})
	c.Run(`keys`, c.N(6000, 150000), func(r *rand.Rand, i int) {
		// Many different values as keys of one map. Each one must be found by everything that equals it and by nothing else.
		l := &log{}
		m := gen.MapKV()
		cf := &gen.Cfg{Depth: 2, MaxLen: 3}
		n := 1 + r.Intn(30)
		for k := 0; k < n; k++ {
			key := gen.Gen(r, cf)
			if len(m.Keys) > 0 && r.Intn(3) == 0 {
				key = mutateModel(r, m.Keys[r.Intn(len(m.Keys))], cf)
			}
			if m.Find(key) < 0 {
				m.Keys = append(m.Keys, key)
				m.E = append(m.E, gen.Int(int64(k)))
			}
		}
		dm := vf.MapWithCapacity(0)
		for k := range m.Keys {
			dm.Put(m.Keys[k].Build(r, r.Intn(2) == 0), m.E[k].I)
		}
		l.add("m = %s", m)
		c.Seen(m.Canon(true))
		wantInt(c, l, `number of keys`, len(m.Keys), dm.Len())
		for k := range m.Keys {
			var arg interface{} = m.Keys[k].Build(r, r.Intn(2) == 0)
			if r.Intn(2) == 0 {
				arg = goDeep(r, m.Keys[k])
			}
			v := dm.Get(arg)
			if v == nil || !v.Equals(m.E[k].I) {
				c.Fail(fmt.Sprintf(`key is not found by an equal value %T`, arg), "key %s given as %T %v\n%s", m.Keys[k], arg, arg, l)
			}
			o := mutateModel(r, m.Keys[k], cf)
			x := m.Find(o)
			v = dm.Get(o.Build(r, r.Intn(2) == 0))
			if x < 0 && v != nil || x >= 0 && (v == nil || !v.Equals(m.E[x].I)) {
				c.Fail(`key is found by a different value`, "key %s got %s\n%s", o, v, l)
			}
			c.Count(`key lookups`, 2)
		}
	})
	c.Run(`native`, c.N(6000, 150000), func(r *rand.Rand, i int) { c05Native(c, r) })
	c.Run(`errors`, c.N(1500, 30000), func(r *rand.Rand, i int) { c05Errors(c, r) })
	c.Run(`others`, c.N(800, 8000), func(r *rand.Rand, i int) {
		l := &log{}
		// values of kinds which have no model: entries, arguments, natives, functions
		type S struct {
			A int
			B string
			C []int
		}
		mk := func() []dgo.Value {
			f1 := func(a int) int { return a }
			_ = f1
			return []dgo.Value{
				vf.MutableMap(`a`, 1).Find(func(e dgo.MapEntry) bool { return true }),
				vf.Map(`a`, 2).Find(func(e dgo.MapEntry) bool { return true }),
				vf.Map(`b`, 1).Find(func(e dgo.MapEntry) bool { return true }),
				vf.Value(S{1, `x`, []int{1}}),
				vf.Value(S{1, `x`, []int{2}}),
				vf.Value(&S{1, `x`, []int{1}}),
				vf.Value(&S{2, `x`, []int{1}}),
				vf.Value(fmtPrintln), vf.Value(regexp.Compile),
				vf.Map(&S{1, `x`, []int{1}}), vf.Map(&S{1, `y`, []int{1}}),
				vf.Value(errors.New(`boom`)), vf.Value(errors.New(`bang`)), vf.String(`boom`),
				vf.Sensitive(1), vf.Sensitive(vf.Values(1)), vf.Sensitive(`1`),
				vf.Values(`a`, 1), vf.Values(), vf.Map(), vf.Nil, vf.Value(reflect.ValueOf(map[string]int{})).Type(),
				vf.Value(complex(1, 2)), vf.Value(complex(1, 3)),
			}
		}
		as, bs := mk(), mk()
		for x := range as {
			for y := range bs {
				e := x == y
				if e != as[x].Equals(bs[y]) {
					// vf.Map(reflected map type) etc. are distinct by construction
					c.Fail(fmt.Sprintf(`Equals of %T and %T`, as[x], bs[y]), "%d %s, %d %s is %v\n%s", x, as[x], y, bs[y], !e, l)
				}
				if e && as[x].HashCode() != bs[y].HashCode() {
					c.Fail(fmt.Sprintf(`HashCode of %T`, as[x]), "%s: %d %d\n%s", as[x], as[x].HashCode(), bs[y].HashCode(), l)
				}
				c.SeenHash(uint64(x*100 + y))
			}
		}
		// a map which is backed by a struct equals the map with the same content
		n, s := r.Intn(5), gen.Strs[r.Intn(8)]
		sm := vf.Map(&S{n, s, []int{n, 2}})
		om := vf.Map(`A`, n, `B`, s, `C`, vf.Values(n, 2))
		wantBool(c, l, `struct map equals map`, true, sm.Equals(om))
		wantBool(c, l, `map equals struct map`, true, om.Equals(sm))
		wantInt(c, l, `hash of struct map`, om.HashCode(), sm.HashCode())
		wantBool(c, l, `map equals struct map with one key changed`, false, vf.Map(`A`, n, `B`, s, `D`, vf.Values(n, 2)).Equals(sm))
		// arguments are arrays
		av := gen.GenArr(r, &gen.Cfg{Depth: 2})
		bv := av
		if r.Intn(2) == 0 {
			bv = mutateModel(r, av, cfg)
		}
		if bv.K == gen.KArr {
			aa := vf.ArgumentsFromArray(av.Build(r, false).(dgo.Array))
			ba := vf.ArgumentsFromArray(bv.Build(r, false).(dgo.Array))
			e := gen.Eq(av, bv)
			l.add("%s %s", av, bv)
			wantBool(c, l, `arguments equal arguments`, e, aa.Equals(ba))
			wantBool(c, l, `arguments equal array`, e, aa.Equals(bv.Build(r, false)))
			wantBool(c, l, `array equals arguments`, e, bv.Build(r, false).Equals(aa))
			wantInt(c, l, `hash of arguments`, aa.HashCode(), av.Build(r, false).HashCode())
			c.Seen(av.Canon(true))
		}
	})
}

func hasSens(v *gen.V) bool {
	if v.K == gen.KSens || v.K == gen.KType {
		return true
	}
	for _, e := range v.E {
		if hasSens(e) {
			return true
		}
	}
	for _, e := range v.Keys {
		if hasSens(e) {
			return true
		}
	}
	return false
}

func fmtPrintln(string) {}

type (
	natLeaf struct {
		n int
		U uint64
	}
	natNode struct {
		Name  string
		F     float64
		Next  *natNode
		self  *natNode
		Leafs []natLeaf
		Any   interface{}
		m     map[goInt]natLeaf
		A     [2]goStr
		C     chan int
		f     func()
		P     uintptr
		anys  []interface{}
		c     complex128
		B     bool
		deep  [][][][][][]goInt
		u     unsafe.Pointer
		pp    **goInt
		I     int8
		e     error
	}
)

var natNode0 natNode

func newNative(r *rand.Rand, ch chan int) interface{} {
	switch r.Intn(8) {
	case 0:
		return goInt(r.Intn(3))
	case 1:
		return goStr([]string{`a`, `b`}[r.Intn(2)])
	case 2:
		return uintptr(r.Intn(3))
	case 3:
		return [2]int{r.Intn(2), r.Intn(2)}
	case 4:
		return complex(float64(r.Intn(2)), math.Copysign(0, float64(r.Intn(2)*2-1)))
	}
	node := func() *natNode {
		n := &natNode{Name: []string{`x`, `y`}[r.Intn(2)], F: float64(r.Intn(2)), P: uintptr(r.Intn(2)), A: [2]goStr{goStr([]string{`p`, `q`}[r.Intn(2)])}}
		if chance(r, 20) {
			n.F = math.Copysign(0, -1)
		}
		for k := r.Intn(3); k > 0; k-- {
			n.Leafs = append(n.Leafs, natLeaf{r.Intn(2), uint64(r.Intn(2)) << 63})
		}
		switch r.Intn(5) {
		case 0:
			n.Any = natLeaf{1, 2}
		case 1:
			n.Any = []interface{}{goInt(1), uint64(1) << 63}
		case 2:
			n.Any = n.Name
		case 3:
			n.anys = []interface{}{1, nil}
			n.anys[1] = n.anys
		}
		if chance(r, 30) {
			n.m = map[goInt]natLeaf{1: {r.Intn(2), 1}, 2: {}}
		}
		if chance(r, 30) {
			n.C = ch
		}
		n.c = complex(float64(r.Intn(2)), math.Copysign(0, float64(r.Intn(2)*2-1)))
		n.B = chance(r, 50)
		n.I = int8(-r.Intn(2))
		if chance(r, 30) {
			n.deep = [][][][][][]goInt{{{{{{goInt(r.Intn(2))}}}}}}
		}
		if chance(r, 30) {
			n.u = unsafe.Pointer(&natNode0)
		}
		if chance(r, 30) {
			i := goInt(r.Intn(2))
			p := &i
			n.pp = &p
		}
		if chance(r, 30) {
			n.e = fmt.Errorf("error %d", r.Intn(2))
		}
		if chance(r, 30) {
			n.self = n
		}
		return n
	}
	n := node()
	if chance(r, 60) {
		n.Next = node()
		if chance(r, 50) {
			n.Next.Next = n
		}
	}
	if chance(r, 30) {
		return *n
	}
	return n
}

// c05Native compares natives. The reference is reflect.DeepEqual
func c05Native(c *mon.Ctx, r *rand.Rand) {
	ch := make(chan int)
	seed := r.Int63()
	a := newNative(rand.New(rand.NewSource(seed)), ch)
	if chance(r, 50) {
		seed++
	}
	b := newNative(rand.New(rand.NewSource(seed)), ch)
	va, vb := vf.Value(a), vf.Value(b)
	e := reflect.DeepEqual(a, b)
	if va.Equals(vb) != e || vb.Equals(va) != e || !va.Equals(va) {
		c.Fail(`Equals of natives`, "%#v\n%#v\nexpected %v, got %v %v", a, b, e, va.Equals(vb), vb.Equals(va))
	}
	ha, hb := va.HashCode(), vb.HashCode()
	if ha != va.HashCode() || e && ha != hb {
		c.Fail(`HashCode of natives`, "%#v\n%#v\nare equal but have hash codes %d and %d", a, b, ha, hb)
	}
	c.Count(`natives`, 2)
	c.Seen(fmt.Sprintf("%T %v %d", a, e, seed%4096))
}

// errModel is an error value together with what it says
type errModel struct {
	kind string
	t, u *gen.T
	v    *gen.V
	n    int
	msg  string
}

type wrapped struct {
	msg string
	err error
}

func (w *wrapped) Error() string { return w.msg }
func (w *wrapped) Unwrap() error { return w.err }

func (e *errModel) build(r *rand.Rand) dgo.Value {
	switch e.kind {
	case `assign`:
		return tf.IllegalAssignment(e.t.Build(r), e.v.Build(r, chance(r, 50)))
	case `size`:
		return tf.IllegalSize(e.t.Build(r), e.n)
	case `key`:
		return tf.IllegalMapKey(e.t.Build(r).(dgo.StructMapType), e.v.Build(r, chance(r, 50)))
	case `wrapped`:
		return vf.Value(&wrapped{e.msg, errors.New(`cause`)})
	}
	return vf.Value(errors.New(e.msg))
}

func genErrModel(r *rand.Rand) *errModel {
	cfg := &gen.TCfg{Depth: 1, NoFunc: true, NoMeta: true}
	e := &errModel{kind: []string{`assign`, `size`, `key`, `message`, `wrapped`}[r.Intn(5)]}
	switch e.kind {
	case `assign`:
		e.t, e.v = gen.GenType(r, cfg), gen.Gen(r, &gen.Cfg{Depth: 1})
	case `size`:
		e.t, e.n = gen.GenType(r, cfg), r.Intn(5)
	case `key`:
		e.t = &gen.T{K: gen.TStruct, Additional: chance(r, 50)}
		e.v = gen.GenKey(r, &gen.Cfg{})
		if chance(r, 70) {
			e.t.Entries = []gen.StructEntry{{Key: gen.Str([]string{`a`, `b`}[r.Intn(2)]), T: &gen.T{K: []gen.TK{gen.TStr, gen.TInt}[r.Intn(2)]}, Required: chance(r, 50)}}
		}
	default:
		e.msg = gen.Strs[r.Intn(len(gen.Strs))]
	}
	return e
}

// same is false for a change that makes a difference. Types are compared by their canonical form.
func (e *errModel) same(o *errModel) bool {
	if e.kind == `message` || e.kind == `wrapped` {
		return (o.kind == `message` || o.kind == `wrapped`) && e.msg == o.msg
	}
	if e.kind != o.kind || !e.t.Canonical().Equals(o.t.Canonical()) || e.n != o.n {
		return false
	}
	return e.v == nil || gen.Eq(e.v, o.v)
}

// c05Errors compares errors
func c05Errors(c *mon.Ctx, r *rand.Rand) {
	a := genErrModel(r)
	b := genErrModel(r)
	if chance(r, 70) {
		x := *a
		b = &x
		if chance(r, 60) {
			switch n := genErrModel(r); r.Intn(4) {
			case 0:
				if b.t != nil {
					for k := 0; k < 20 && (n.t == nil || (n.kind == `key`) != (b.kind == `key`)); k++ {
						n = genErrModel(r)
					}
					if n.t != nil && (n.kind == `key`) == (b.kind == `key`) {
						b.t = n.t
					}
				}
			case 1:
				if b.v != nil {
					b.v = mutateModel(r, b.v, &gen.Cfg{})
				}
			case 2:
				if b.kind == `size` {
					b.n++
				}
			default:
				b.msg = n.msg
				if b.kind != `message` && b.kind != `wrapped` {
					b.msg = ``
				}
			}
		}
	}
	if a.msg == `` && a.t != nil && chance(r, 10) { // another kind of error with the same message
		b = &errModel{kind: []string{`message`, `wrapped`}[r.Intn(2)], msg: a.build(r).String()}
		if chance(r, 50) {
			a, b = b, a
		}
	}
	if a.v != nil && hasSens(a.v) || b.v != nil && hasSens(b.v) {
		return // the types of sensitives are not exact
	}
	va, vb := a.build(r), b.build(r)
	e := a.same(b)
	d := fmt.Sprintf("a = %s (%T)\nb = %s (%T)\nexpected to be equal: %v", va, va, vb, vb, e)
	kinds := fmt.Sprintf("%T and %T", va, vb)
	if va.Equals(vb) != e || vb.Equals(va) != e {
		c.Fail(`Equals of errors `+kinds, "%s", d)
	}
	if !va.Equals(va) || va.Equals(nil) || va.Equals(`x`) || va.Equals(vf.Nil) || va.Equals(vf.String(va.String())) {
		c.Fail(`Equals of an error and something else`, "%s", d)
	}
	if h := va.HashCode(); h != va.HashCode() || e && h != vb.HashCode() {
		c.Fail(`HashCode of errors `+kinds, "%d and %d\n%s", h, vb.HashCode(), d)
	}
	ga, ok := va.(error)
	if !ok || ga.Error() != va.String() || !typ.Error.Instance(va) || !typ.Error.Assignable(va.Type()) && a.msg != `` {
		c.Fail(`an error is an error `+fmt.Sprintf("%T", va), "%s", d)
	}
	if a.kind == `wrapped` {
		u, ok := va.(interface{ Unwrap() error })
		if !ok || u.Unwrap() == nil || u.Unwrap().Error() != `cause` {
			c.Fail(`Unwrap of an error`, "%s", d)
		}
	} else if a.kind == `message` {
		if u, ok := va.(interface{ Unwrap() error }); ok && u.Unwrap() != nil {
			c.Fail(`Unwrap of an error`, "%s", d)
		}
	}
	// errors as keys and elements
	m := vf.MapWithCapacity(0)
	m.Put(va, 1)
	m.Put(vb, 2)
	n := 2
	if e {
		n = 1
	}
	if m.Len() != n || !vf.Integer(2).Equals(m.Get(vb)) || !e && !vf.Integer(1).Equals(m.Get(va)) {
		c.Fail(`errors as keys`, "%s\n%s", m, d)
	}
	if ix := vf.Values(1, va).IndexOf(vb); e != (ix == 1) {
		c.Fail(`errors as elements`, "%d\n%s", ix, d)
	}
	c.Count(`errors`, 2)
	c.Seen(kinds + va.String() + vb.String())
}
