package checks

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"time"

	"dgoverif/gen"
	"dgoverif/mon"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"
)

// goKey returns a Go value that can be the key of a map and the model of the value that it becomes
func goKey(r *rand.Rand) (interface{}, *gen.V) {
	i := int64(r.Intn(7) - 3)
	in := func(k interface{}) (interface{}, *gen.V) { return k, gen.Int(i) }
	switch r.Intn(16) {
	case 0:
		return in(int(i))
	case 1:
		return in(int8(i))
	case 2:
		return in(int16(i))
	case 3:
		return in(int32(i))
	case 4:
		return in(i)
	case 5:
		i = int64(r.Intn(4))
		return in(uint8(i))
	case 6:
		i = int64(r.Intn(4))
		return in(uint64(i))
	case 7:
		p := int(i)
		return in(&p)
	case 8:
		f := float32(i)/2 + .25
		return f, gen.Float(float64(f))
	case 9:
		f := float64(i)/2 + .25
		return f, gen.Float(f)
	case 10:
		return i%2 == 0, gen.Bool(i%2 == 0)
	case 11:
		s := []string{``, `a`, `b`, `1`, `true`}[r.Intn(5)]
		return s, gen.Str(s)
	case 12:
		s := []string{``, `a`, `b`, `1`, `true`}[r.Intn(5)]
		return &s, gen.Str(s)
	case 13:
		return vf.Integer(i), gen.Int(i)
	case 14:
		t := time.Unix(i, 0).UTC()
		return t, &gen.V{K: gen.KTime, T: t}
	default:
		return nil, gen.Nil()
	}
}

// c16Keys checks Go maps that have interfaces as keys. Keys of different Go types can become equal.
func c16Keys(c *mon.Ctx, r *rand.Rand) {
	g := map[interface{}]interface{}{}
	var ks []*gen.V
	var vs []int
	dup := false
	times := 0
	for n := r.Intn(7); n > 0; n-- {
		k, m := goKey(r)
		if _, ok := g[k]; ok {
			continue
		}
		if m.K == gen.KTime {
			times++ // which have no order
		}
		for _, o := range ks {
			dup = dup || gen.Eq(o, m)
		}
		ks = append(ks, m)
		vs = append(vs, len(vs))
		g[k] = len(vs) - 1
	}
	frozen := r.Intn(2) == 0
	d := func() string { return fmt.Sprintf("%#v, frozen %v", g, frozen) }
	conv := []func() dgo.Value{
		func() dgo.Value { return vf.Value(g) },
		func() dgo.Value { return vf.Map(g) },
		func() dgo.Value { return vf.MutableMap(g) },
		func() dgo.Value { return vf.FromReflectedMap(reflect.ValueOf(g), frozen) },
	}
	text := ``
	for n := 0; n < 6; n++ {
		w := r.Intn(len(conv))
		var x dgo.Value
		e := mon.Catch(func() { x = conv[w]() })
		c.Count(`maps with keys of different Go types`, 1)
		if dup {
			if err, ok := e.(error); !ok || isRuntimeError(e) {
				c.Fail(`a Go map with keys that become equal is not refused`, "%s\ngives %v %v", d(), x, err)
			}
			c.Count(`maps with keys that become equal`, 1)
			continue
		}
		if e != nil {
			c.Fail(`a Go map is not converted`, "%s\n%v", d(), e)
		}
		m, ok := x.(dgo.Map)
		if !ok || m.Len() != len(ks) {
			c.Fail(`the map made from a Go map has another size`, "%s\ngives %v", d(), x)
		}
		for i, k := range ks {
			if v := m.Get(k.Build(r, true)); v == nil || !v.Equals(vs[i]) {
				c.Fail(`the map made from a Go map has another entry`, "%s\ngives %v, %s is %v", d(), x, k, v)
			}
		}
		if n > 0 && times < 2 && text != x.String() {
			c.Fail(`the entries of a Go map are not converted in a predictable order`, "%s\ngives %v and %v", d(), text, x)
		}
		text = x.String()
	}
	c.Seen(fmt.Sprint(dup, text))

	// a key that is not equal to itself retains its value
	if r.Intn(8) == 0 {
		nan := map[float64]int{1: 1}
		n := 1 + r.Intn(3)
		want := 1
		for i := 0; i < n; i++ {
			nan[math.NaN()] = 10 << uint(i)
			want += 10 << uint(i)
		}
		var x dgo.Map
		if e := mon.Catch(func() { x = vf.Map(nan) }); e != nil || x.Len() != n+1 {
			c.Fail(`a Go map with NaN keys`, "%v gives %v, panic %v", nan, x, e)
		}
		got := 0
		x.EachValue(func(v dgo.Value) {
			if i, ok := v.(dgo.Integer); ok {
				got += int(i.GoInt())
			}
		})
		if got != want {
			c.Fail(`a Go map with NaN keys loses values`, "%v gives %v", nan, x)
		}
	}

	// and in the other direction
	f := math.Nextafter(float64(float32(r.Float64())), float64(r.Intn(3)-1))
	o := float64(float32(f))
	if f != o {
		m := vf.Map(f, 1, o, 2)
		if r.Intn(2) == 0 {
			m = vf.MutableMap(f, 1, o, 2)
		}
		to := map[float32]int{}
		if e := mon.Catch(func() { vf.FromValue(m, &to) }); e == nil && len(to) != 2 {
			c.Fail(`a map loses entries when its keys become equal`, "%v gives %v", m, to)
		}
		to2 := map[float64]int{}
		if e := mon.Catch(func() { vf.FromValue(m, &to2) }); e != nil || to2[f] != 1 || to2[o] != 2 {
			c.Fail(`a map is not converted to a Go map`, "%v gives %v, panic %v", m, to2, e)
		}
	}
}
