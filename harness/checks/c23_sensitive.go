package checks

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/stringer"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C23`, Scale: 3, Rule: `a value with secrets wrapped in sensitives for which every output was searched for the secrets; distinct by shape and kind of secret`, Run: runC23})
}

// secret is a wrapped scalar and the texts that would disclose it
type secret struct {
	kind    string
	v       *gen.V
	needles []string
}

const secretAlpha = `BCDFGHJKLMNPQRSTVWXZ`

func newSecret(r *rand.Rand) *secret {
	word := func(n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = secretAlpha[r.Intn(len(secretAlpha))]
		}
		return string(b)
	}
	s := &secret{}
	num := 4123456789000000 + r.Int63n(1e12)
	text := func(x string) {
		s.needles = append(s.needles, x, hex.EncodeToString([]byte(x)), strings.ToUpper(hex.EncodeToString([]byte(x))), base64.StdEncoding.EncodeToString([]byte(x)),
			strings.Trim(fmt.Sprint([]byte(x)), `[]`), strings.ReplaceAll(strings.Trim(fmt.Sprint([]byte(x)), `[]`), ` `, `,`))
	}
	switch r.Intn(8) {
	case 0, 1:
		w := word(12)
		s.kind, s.v = `string`, gen.Str(w)
		text(w)
	case 2:
		s.kind, s.v = `integer`, gen.Int(num)
		s.needles = []string{strconv.FormatInt(num, 10), strconv.FormatInt(num, 16), strings.ToUpper(strconv.FormatInt(num, 16)), strconv.FormatInt(num, 8), strconv.FormatInt(num, 2),
			strconv.FormatFloat(float64(num), 'e', -1, 64), fmt.Sprintf(`%e`, float64(num))}
	case 3:
		f := float64(num) / 1000
		s.kind, s.v = `float`, gen.Float(f)
		s.needles = []string{strconv.FormatFloat(f, 'f', -1, 64)[:9], strconv.FormatFloat(f, 'e', -1, 64)[:9], strconv.FormatFloat(f, 'x', -1, 64)[2:12], strconv.FormatFloat(f, 'b', -1, 64)[:12]}
	case 4:
		w := word(12)
		s.kind, s.v = `binary`, gen.Bin([]byte(w))
		text(w)
	case 5:
		t := time.Date(1811+r.Intn(60), time.Month(1+r.Intn(12)), 1+r.Intn(28), r.Intn(24), r.Intn(60), r.Intn(60), 0, time.UTC)
		s.kind, s.v = `time`, gen.Time(t)
		s.needles = []string{t.Format(time.RFC3339)[:16], t.Format(`2006-01-02`), t.Format(time.UnixDate), strconv.FormatInt(t.Unix(), 10)}
	case 6:
		w := word(12)
		s.kind, s.v = `regexp`, gen.Regexp(w+`+`)
		text(w)
	default:
		w := word(12)
		s.kind, s.v = `error`, gen.Err(w)
		text(w)
	}
	return s
}

// hide returns a value with wrapped secrets and the secrets. Secrets are found at any depth within the wrapped value
func hide(r *rand.Rand, depth int) (v *gen.V, ss []*secret) {
	var inner func(d int) *gen.V
	inner = func(d int) *gen.V {
		s := newSecret(r)
		ss = append(ss, s)
		if d <= 0 {
			return s.v
		}
		switch r.Intn(5) {
		case 0:
			return gen.Arr(gen.Int(1), inner(d-1))
		case 1:
			return gen.MapKV(gen.Str(`k`), inner(d-1))
		case 2:
			s2 := newSecret(r)
			if s2.v.K != gen.KErr { // as a key
				ss = append(ss, s2)
				return gen.MapKV(s2.v, inner(d-1))
			}
			return gen.Arr(s.v, inner(d-1))
		case 3:
			return gen.Sens(inner(d - 1))
		}
		return s.v
	}
	var outer func(d int) *gen.V
	outer = func(d int) *gen.V {
		if d <= 0 {
			return gen.Sens(inner(r.Intn(3)))
		}
		plain := func() *gen.V { return gen.GenScalar(r, &gen.Cfg{NoSens: true, NoType: true}) }
		switch r.Intn(4) {
		case 0:
			return gen.Arr(plain(), outer(d-1), plain())
		case 1:
			return gen.MapKV(gen.Str(`a`), plain(), gen.Str(`b`), outer(d-1))
		case 2:
			return gen.MapKV(gen.Sens(inner(r.Intn(2))), outer(d-1))
		}
		return gen.Arr(outer(d-1), outer(d-1))
	}
	v = outer(depth)
	return
}

type leak struct {
	c     *mon.Ctx
	ss    []*secret
	where func() string
}

func (k *leak) look(what string, texts ...string) {
	k.c.Count(`outputs searched`, len(texts))
	for _, x := range texts {
		if x == `` {
			continue
		}
		for _, s := range k.ss {
			for _, n := range s.needles {
				if strings.Contains(x, n) {
					k.c.Fail(`disclosed by `+what, "the secret %s %s is disclosed as %q\nin %q\n%s", s.kind, s.v, n, x, k.where())
				}
			}
		}
	}
}

// fails runs f and searches the text of what it panics with
func (k *leak) fails(what string, f func()) {
	if e := mon.Catch(f); e != nil {
		k.c.Count(`error messages searched`, 1)
		ts := []string{fmt.Sprint(e), fmt.Sprintf(`%+v`, e), fmt.Sprintf(`%#v`, e), fmt.Sprintf(`%q`, e)}
		if v, ok := e.(dgo.Value); ok {
			ts = append(ts, v.String(), v.Type().String())
		}
		if err, ok := e.(error); ok {
			ts = append(ts, err.Error())
		}
		k.look(`the error of `+what, ts...)
	}
}

func (k *leak) types(t dgo.Type, depth int) {
	k.look(`the text of the type`, t.String(), fmt.Sprint(t), fmt.Sprintf(`%+v`, t), stringer.TypeString(t))
	if depth == 0 {
		return
	}
	k.types(t.Type(), 0)
	k.types(typ.Generic(t), 0)
	switch t := t.(type) {
	case dgo.StructMapType:
		t.Each(func(e dgo.StructMapEntry) {
			k.look(`the text of an entry of the type`, e.String(), fmt.Sprint(e))
			k.types(e.Key().(dgo.Type), depth-1)
			k.types(e.Value().(dgo.Type), depth-1)
		})
		k.types(t.KeyType(), 0)
		k.types(t.ValueType(), 0)
	case dgo.TupleType:
		k.types(t.ElementType(), 0)
		for i, n := 0, t.Len(); i < n; i++ {
			k.types(t.ElementTypes().Get(i).(dgo.Type), depth-1)
		}
	case dgo.UnaryType:
		if t.Operator() == dgo.OpSensitive {
			k.types(t.Operand(), depth-1)
		}
	}
}

var allVerbs = strings.Split(`v +v #v s +s #s q +q #q x X #x d +d t f e g G c b o O U #U p T 5v -20s .3s .2f 08d w`, ` `)

type c23Struct struct {
	Name string
	S    dgo.Sensitive
	V    dgo.Value
	P    interface{}
}

type c23Hidden struct {
	name string
	s    dgo.Sensitive
	v    dgo.Value
	p    interface{}
	m    map[string]interface{}
}

// textSearch is the control which shows that the search finds what is not wrapped
func c23Control(c *mon.Ctx, ss []*secret) {
	for _, s := range ss {
		dv := s.v.Build(rand.New(rand.NewSource(1)), false)
		found := false
		for _, t := range []string{dv.String(), fmt.Sprint(dv), dv.Type().String()} {
			for _, n := range s.needles {
				found = found || strings.Contains(t, n)
			}
		}
		if !found {
			c.Fail(`control: the search does not find the text of a plain value`, "%s, needles %q", dv, s.needles)
		}
		c.Count(`control: secret found when not wrapped`, 1)
		c.Count(`secrets of kind `+s.kind, 1)
	}
}

func c23Probe(c *mon.Ctx, r *rand.Rand, m *gen.V, dv dgo.Value, ss []*secret) {
	k := &leak{c: c, ss: ss, where: func() string { return m.Canon(false) }}
	// text forms
	k.look(`String`, dv.String())
	if ia, ok := dv.(dgo.Indentable); ok {
		k.look(`the indented text`, util.ToString(ia), util.ToIndentedString(ia), util.ToStringERP(ia), util.ToIndentedStringERP(ia))
	}
	in := util.NewIndenter(`  `)
	in.AppendValue(dv)
	in.Printf(`%v %s`, dv, dv)
	k.look(`an indenter`, in.String())
	// formatting verbs, on the value and on Go values that contain it
	var sv dgo.Sensitive
	if s, ok := dv.(dgo.Sensitive); ok {
		sv = s
	}
	goValues := []interface{}{dv, []dgo.Value{dv}, []interface{}{dv}, map[string]interface{}{`a`: dv}, c23Struct{`x`, sv, dv, dv}, &c23Struct{`x`, sv, dv, dv},
		c23Hidden{`x`, sv, dv, dv, map[string]interface{}{`k`: dv}}, &c23Hidden{`x`, sv, dv, dv, nil}, &dv, [1]dgo.Value{dv}}
	for _, x := range goValues {
		for _, verb := range allVerbs {
			k.look(fmt.Sprintf(`the verb %%%s on %T`, verb, x), fmt.Errorf(`%`+verb, x).Error())
		}
		k.look(fmt.Sprintf(`fmt.Sprint on %T`, x), fmt.Sprint(x), fmt.Sprintln(x, x))
		k.fails(`json.Marshal`, func() {
			bs, err := json.Marshal(x)
			if err != nil {
				panic(err)
			}
			k.look(`json.Marshal`, string(bs))
		})
	}
	// types
	k.types(dv.Type(), 3)
	// map backed by a struct, native, and array from Go values
	for _, x := range []interface{}{&c23Struct{`x`, sv, dv, dv}, goValues[1], goValues[3]} {
		w := vf.Value(x)
		k.look(fmt.Sprintf(`String of the dgo form of %T`, x), w.String(), fmt.Sprint(w), w.Type().String())
		if _, ok := x.(*c23Struct); ok {
			sm := vf.Map(x)
			k.look(`String of a map backed by a struct`, sm.String(), fmt.Sprintf(`%v %+v`, sm, sm), sm.Type().String())
			k.fails(`Put in a map backed by a struct`, func() { sm.Put(`Name`, dv) })
			k.fails(`Put in a map backed by a struct`, func() { sm.Put(`S`, vf.Values(dv)) })
			k.fails(`Put in a map backed by a struct`, func() { sm.Put(dv, 1) })
		}
	}
	// errors
	for i := 0; i < 6; i++ {
		t := gen.GenType(r, &gen.TCfg{Depth: i % 3}).Build(r)
		k.fails(`New`, func() { k.look(`the text of a created value`, c23Redacted(vf.New(t, dv))) })
		k.fails(`New`, func() { k.look(`the text of a created value`, c23Redacted(vf.New(t, vf.Arguments(dv)))) })
		k.fails(`New`, func() { k.look(`the text of a created value`, c23Redacted(vf.New(t, vf.Arguments(dv, dv)))) })
		k.fails(`Arg`, func() { vf.Arguments(dv, 1).Arg(`test`, 0, t) })
		k.fails(`the constructor of a type`, func() { tf.Array(dv); tf.Map(dv, dv) })
		k.fails(`the constructor of a type`, func() { tf.String(dv) })
	}
	k.fails(`New`, func() { vf.New(tf.Sensitive(tf.Integer(1, 2, true)), dv) })
	k.fails(`New`, func() { vf.New(tf.Sensitive(tf.String(3, 4)), dv) })
	// what is to become a sensitive is not disclosed when it is refused
	for _, s := range ss {
		plain := s.v.Build(r, false)
		for _, x := range []dgo.Value{plain, vf.Values(plain), vf.Map(`a`, plain), vf.Map(plain, 1)} {
			for _, t := range []dgo.Type{tf.Integer(1, 2, true), tf.String(3, 4), typ.Nil, tf.Array(typ.Nil), tf.Map(typ.Nil, typ.Nil), tf.AnyOf(typ.Nil, tf.Integer(1, 2, true)), tf.Not(typ.Any)} {
				k.fails(`New of a sensitive`, func() {
					k.look(`a created sensitive`, c23Redacted(vf.New(tf.Sensitive(t), x)))
				})
				k.fails(`New of a sensitive`, func() { vf.New(tf.Sensitive(t), vf.Arguments(x)) })
				k.fails(`New of an array with a sensitive`, func() { vf.New(tf.Array(tf.Sensitive(t)), vf.Values(vf.Sensitive(x))) })
				k.fails(`New of a map with a sensitive`, func() { vf.New(tf.Map(typ.String, tf.Sensitive(t)), vf.Map(`a`, vf.Sensitive(x))) })
				c.Count(`refused content of sensitives`, 1)
			}
		}
	}
	st := tf.StructMap(r.Intn(2) == 0, tf.StructMapEntry(`b`, typ.Integer, true), tf.StructMapEntry(`c`, typ.Integer, true))
	for _, x := range []interface{}{dv, map[string]interface{}{`b`: dv, `c`: 3}, vf.Map(`b`, dv, dv, dv)} {
		for _, e := range st.Validate(nil, x) {
			k.look(`a validation error`, e.Error())
		}
		out := util.NewIndenter(`  `)
		st.ValidateVerbose(x, out)
		k.look(`verbose validation`, out.String())
	}
	et := vf.Map(`b`, dv).Type().(dgo.StructMapType)
	for _, e := range et.Validate(nil, vf.Map(`b`, 3)) {
		k.look(`a validation error`, e.Error())
	}
	out := util.NewIndenter(``)
	et.ValidateVerbose(vf.Map(`b`, 3, `c`, dv), out)
	k.look(`verbose validation`, out.String())
	for _, d := range []interface{}{new(int), new(string), new(float64), new(bool), new([]int), new(map[string]int), new([]byte), new(time.Time), new(*regexp.Regexp), new(error), new(chan int), new(struct{ A int }), new(func())} {
		k.fails(fmt.Sprintf(`FromValue to %T`, d), func() { vf.FromValue(dv, d) })
		k.fails(fmt.Sprintf(`FromValue to %T`, d), func() { vf.FromValue(vf.Values(dv), d) })
		k.fails(fmt.Sprintf(`FromValue to %T`, d), func() { vf.FromValue(vf.Map(`a`, dv), d) })
	}
	for _, f := range []interface{}{func(int) {}, func(string, ...int) {}, func() {}, func([]string) {}, func(map[string]int) {}, func(dgo.Array) {}} {
		fn := vf.Value(f).(dgo.Function)
		k.fails(`Call`, func() { fn.Call(vf.Values(dv)) })
		k.fails(`Call`, func() { fn.Call(vf.Values(dv, dv)) })
	}
	k.fails(`Sort`, func() { k.look(`a sorted array`, vf.Values(dv, 1, `a`, dv).Sort().String()) })
	k.fails(`Map`, func() { vf.Map(dv) })
	k.fails(`Map`, func() { vf.Map(1, 2, dv) })
	k.fails(`MutableMap`, func() { vf.MutableMap(dv) })
	k.fails(`Array`, func() { vf.Array(dv) })
	k.fails(`New map`, func() { vf.New(typ.Map, vf.Values(dv, 1, 2)) })
	k.fails(`ToMap`, func() { vf.Values(dv, 1, 2).ToMap() })
	k.fails(`ToMapFromEntries`, func() { k.look(`a map from entries`, fmt.Sprint(vf.Values(vf.Values(dv, dv)).ToMapFromEntries())) })
	frozen := vf.Values(dv)
	fm := vf.Map(`a`, dv)
	k.fails(`Add to a frozen array`, func() { frozen.Add(dv) })
	k.fails(`Put in a frozen map`, func() { fm.Put(dv, dv) })
	k.fails(`Remove from a frozen map`, func() { fm.Remove(dv) })
	k.fails(`Freeze`, func() { vf.Sensitive(make(chan int)).Freeze() })
	k.fails(`parsing`, func() { tf.ParseType(dv.String()) })
	me := vf.MapEntry(`a`, dv)
	k.look(`the text of an entry`, me.String(), me.Type().String(), fmt.Sprintf(`%v %+v %s`, me, me, me))
	// serialization that is not asked to include rich data refuses
	k.fails(`streaming without rich data`, func() {
		o := streamer.DefaultOptions()
		o.RichData = false
		buf := bytes.Buffer{}
		defer func() { k.look(`streaming without rich data`, buf.String()) }()
		streamer.New(nil, o).Stream(dv, streamer.JSON(&buf))
		c.Fail(`a sensitive is streamed without rich data`, "%s\n%s", m, buf.String())
	})
	k.look(`reflect`, fmt.Sprint(reflect.ValueOf(dv)), reflect.ValueOf(dv).String())
}

// c23Redacted is the text of a created value. When a sensitive is unwrapped by nobody, the created value has a text that discloses nothing
func c23Redacted(v dgo.Value) string {
	return v.String() + v.Type().String()
}

// c23Equality checks that sensitives are equal exactly when their content is
func c23Equality(c *mon.Ctx, r *rand.Rand) {
	a := gen.Gen(r, &gen.Cfg{Depth: r.Intn(3), MaxLen: 3})
	b := a
	if r.Intn(2) == 0 {
		b = gen.Tweak(r, a)
	}
	e := gen.Eq(a, b)
	x, y := vf.Sensitive(a.Build(r, r.Intn(2) == 0)), vf.Sensitive(b.Build(r, r.Intn(2) == 0))
	c.Count(`equality checks`, 1)
	c.Seen(`eq ` + a.Canon(false) + ` ` + b.Canon(false))
	if x.Equals(y) != e || y.Equals(x) != e || vf.Values(x).Equals(vf.Values(y)) != e {
		c.Fail(fmt.Sprintf(`equality of sensitives, expected %v`, e), "%s\n%s", a, b)
	}
	if e && x.HashCode() != y.HashCode() {
		c.Fail(`hash codes of equal sensitives`, "%s\n%s", a, b)
	}
	if x.Equals(a.Build(r, false)) && a.K != gen.KSens || vf.Value(a.Build(r, false)).Equals(x) && a.K != gen.KSens {
		c.Fail(`a sensitive equals its content`, "%s", a)
	}
	if u := x.Unwrap(); canonOf(u) != a.Canon(false) {
		c.Fail(`Unwrap`, "got %s, expected %s", canonOf(u), a)
	}
}

func runC23(c *mon.Ctx) {
	c.Run(`outputs`, c.N(3000, 80000), func(r *rand.Rand, i int) {
		m, ss := hide(r, i%4)
		c23Control(c, ss)
		dv := m.Build(r, r.Intn(2) == 0)
		shape := ``
		for _, s := range ss {
			shape += s.kind + `,`
		}
		c.Seen(fmt.Sprintf(`%s in %s`, shape, strings.NewReplacer(`sensitive`, `S`).Replace(dv.String())))
		if i < 3 {
			c.Sample(fmt.Sprintf(`%s with secrets %s prints as %s`, dv.Type(), shape, dv))
		}
		c23Probe(c, r, m, dv, ss)
		// what has been copied, frozen, merged, or sent through a stream stays redacted
		switch d := dv.(type) {
		case dgo.Map:
			c23Probe(c, r, m, d.Merge(vf.Map(`zz`, 1)), ss)
		case dgo.Array:
			c23Probe(c, r, m, d.With(1).Flatten(), ss)
		case dgo.Sensitive:
			c23Probe(c, r, m, d.FrozenCopy(), ss)
		}
	})
	c.Run(`stream`, c.N(1500, 40000), func(r *rand.Rand, i int) {
		m, ss := hide(r, i%3)
		if m.Canon(false) == `` || hasErr(m) {
			return
		}
		dv := m.Build(r, false)
		buf := bytes.Buffer{}
		streamer.New(nil, streamer.DefaultOptions()).Stream(dv, streamer.JSON(&buf))
		back := streamer.UnmarshalJSON(buf.Bytes(), nil)
		k := &leak{c: c, ss: ss, where: func() string { return m.Canon(false) }}
		k.look(`String of a streamed value`, back.String(), back.Type().String(), fmt.Sprintf(`%v %+v %s %q`, back, back, back, back))
		c.Count(`streamed`, 1)
	})
	c.Run(`equality`, c.N(10000, 300000), func(r *rand.Rand, _ int) { c23Equality(c, r) })
}

func hasErr(v *gen.V) bool {
	if v.K == gen.KErr || v.K == gen.KRegexp {
		return true
	}
	for _, x := range append(append([]*gen.V{}, v.E...), v.Keys...) {
		if hasErr(x) {
			return true
		}
	}
	return false
}
