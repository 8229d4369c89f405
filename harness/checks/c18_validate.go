package checks

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C18`, Scale: 5, Rule: `a (struct map type, value) pair whose validation errors were compared with the expected errors; distinct by type and value`, Run: runC18})
}

// expectedErrors returns the expected errors, sorted. The label of a key is its notation
func expectedErrors(t *gen.T, v *gen.V) (errs []string, accepted int) {
	for _, e := range t.Entries {
		i := v.Find(e.Key)
		switch {
		case i < 0:
			if e.Required {
				errs = append(errs, `missing `+e.Key.Canon(false))
			}
		case !e.T.Accept(v.E[i]):
			errs = append(errs, `mismatch `+e.Key.Canon(false))
		default:
			accepted++
		}
	}
	if !t.Additional {
		for _, k := range v.Keys {
			known := false
			for _, e := range t.Entries {
				known = known || gen.Eq(e.Key, k)
			}
			if !known {
				errs = append(errs, `unknown `+k.Canon(false))
			}
		}
	}
	sort.Strings(errs)
	return
}

// c18Validate compares the errors for one value with the errors that the model predicts
func c18Validate(c *mon.Ctx, what string, m *gen.T, dt dgo.StructMapType, v *gen.V, x interface{}) {
	d := func() string { return fmt.Sprintf("type %s (%s)\nvalue %s (%T)", m, dt, v.Canon(false), x) }
	var labels []string
	label := func(k dgo.Value) string {
		labels = append(labels, canonOf(k))
		return fmt.Sprintf(`«%d»`, len(labels)-1)
	}
	var errs []error
	if e := mon.Catch(func() { errs = dt.Validate(label, x) }); e != nil {
		c.Fail(what+`: Validate panics`, "%v\n%s", e, d())
	}
	c.Count(`validations`, 1)
	inst := dt.Instance(vf.Value(x))
	if inst != (len(errs) == 0) {
		c.Fail(what+`: Validate disagrees with Instance`, "instance %v, errors %v\n%s", inst, errs, d())
	}
	out := util.NewIndenter(`  `)
	var ok bool
	if e := mon.Catch(func() { ok = dt.ValidateVerbose(x, out) }); e != nil {
		c.Fail(what+`: ValidateVerbose panics`, "%v\n%s", e, d())
	}
	if ok != inst {
		c.Fail(what+`: ValidateVerbose disagrees with Instance`, "instance %v, verbose %v\n%s\n%s", inst, ok, out, d())
	}
	plain := dt.Validate(nil, x)
	if len(plain) != len(errs) {
		c.Fail(what+`: the number of errors depends on the label function`, "%v\n%v\n%s", plain, errs, d())
	}
	if v.K != gen.KMap {
		if len(errs) != 1 || len(labels) != 0 {
			c.Fail(what+`: errors for a value that is not a map`, "%v\n%s", errs, d())
		}
		return
	}
	exp, accepted := expectedErrors(m, v)
	var got []string
	for _, e := range errs {
		s := e.Error()
		a, b := strings.Index(s, `«`), strings.Index(s, `»`)
		if a < 0 || b < a {
			c.Fail(what+`: an error does not use the label of a key`, "%q\n%s", s, d())
		}
		n := -1
		_, _ = fmt.Sscan(s[a+len(`«`):b], &n)
		if n < 0 || n >= len(labels) {
			c.Fail(what+`: an error does not use the label of a key`, "%q\n%s", s, d())
		}
		kind := `mismatch`
		switch {
		case strings.HasPrefix(s, `missing `):
			kind = `missing`
		case strings.HasPrefix(s, `unknown `):
			kind = `unknown`
		}
		got = append(got, kind+` `+labels[n])
		if strings.Count(s, `«`) != 1 {
			c.Fail(what+`: an error mentions more than one key`, "%q\n%s", s, d())
		}
	}
	sort.Strings(got)
	if g, e := strings.Join(got, "\n"), strings.Join(exp, "\n"); g != e {
		c.Fail(what+`: the errors are not the expected errors`, "got:\n%s\nexpected:\n%s\n%s", g, e, d())
	}
	c.Count(`errors`, len(errs))
	for _, e := range got {
		c.Count(e[:strings.IndexByte(e, ' ')]+` errors`, 1)
	}
	if len(errs) == 0 {
		c.Count(`valid values`, 1)
	}
	for _, e := range plain {
		if !strings.Contains(e.Error(), `parameter '`) {
			c.Fail(what+`: the default label is not used`, "%q\n%s", e, d())
		}
	}
	text := out.String()
	if n := strings.Count(text, `FAILED!`); n != len(exp) {
		c.Fail(what+`: the number of failures in the verbose output`, "%d failures, expected %d\n%s\n%s", n, len(exp), text, d())
	}
	if n := strings.Count(text, `OK!`); n != accepted {
		c.Fail(what+`: the number of accepted entries in the verbose output`, "%d accepted, expected %d\n%s\n%s", n, accepted, text, d())
	}
	for i, k := range v.Keys {
		if m.Additional && i >= 0 {
			break
		}
		if anyPart(k, func(x *gen.V) bool { return x.K == gen.KTime }) {
			continue // equal times have different texts when their time zones differ
		}
		if ks := k.Build(rand.New(rand.NewSource(1)), false).String(); !strings.ContainsAny(ks, "\n\t ") && !strings.Contains(text, `'`+ks+`'`) {
			c.Fail(what+`: a key is not mentioned in the verbose output`, "key %s\n%s\n%s", ks, text, d())
		}
	}
}

// c18Views checks that all ways to read the definition of a struct type agree with the model
func c18Views(c *mon.Ctx, r *rand.Rand, what string, m *gen.T, dt dgo.StructMapType) {
	d := func() string { return fmt.Sprintf("type %s (%s)", m, dt) }
	bad := func(sig string, g, e interface{}) {
		c.Fail(what+`: `+sig, "got %v, expected %v\n%s", g, e, d())
	}
	if dt.Additional() != m.Additional {
		bad(`Additional`, dt.Additional(), m.Additional)
	}
	if dt.Len() != len(m.Entries) {
		bad(`Len`, dt.Len(), len(m.Entries))
	}
	var es []dgo.StructMapEntry
	dt.Each(func(e dgo.StructMapEntry) { es = append(es, e) })
	if len(es) != len(m.Entries) {
		bad(`the number of entries`, len(es), len(m.Entries))
	}
	req := 0
	for i, me := range m.Entries {
		k := me.Key.Build(r, false)
		for n, e := range []dgo.StructMapEntry{es[i], dt.Get(k), dt.Get(k.Type())} {
			if e == nil {
				bad(fmt.Sprintf(`Get %d finds no entry`, n), nil, me.Key)
			}
			if e.Required() != me.Required {
				bad(`Required`, e.Required(), me.Required)
			}
			if kt := e.Key(); !kt.Equals(k.Type()) {
				bad(`Key`, kt, k.Type())
			}
			if vt := e.Value(); !vt.Equals(me.T.Canonical()) {
				bad(`Value`, vt, me.T)
			}
		}
		if me.Required {
			req++
		}
	}
	max := int64(len(m.Entries))
	if m.Additional {
		max = gen.Inf
	}
	if dt.Min() != req || int64(dt.Max()) != max {
		bad(`Min and Max`, fmt.Sprint(dt.Min(), dt.Max()), fmt.Sprint(req, max))
	}
	if u := m.Additional && req == 0; u != dt.Unbounded() {
		bad(`Unbounded`, dt.Unbounded(), u)
	}
	for i := 0; i < 3; i++ {
		k := gen.GenKey(r, &gen.Cfg{NoType: true})
		known := false
		for _, e := range m.Entries {
			known = known || gen.Eq(e.Key, k)
		}
		if g := dt.Get(k.Build(r, false)) != nil; g != known {
			bad(`Get of other key`, g, known)
		}
	}
	if back := tf.StructMap(dt.Additional(), es...); !back.Equals(dt) || !dt.Equals(back) || back.HashCode() != dt.HashCode() {
		bad(`the type built from the entries differs`, back, dt)
	}
}

// c18Describe renders the description of the type
func c18Describe(r *rand.Rand, m *gen.T, lang bool) dgo.Map {
	dm := vf.MutableMap()
	for _, e := range m.Entries {
		tp := func() dgo.Value {
			if lang && !noSyntax(e.T) && r.Intn(2) == 0 {
				return vf.String((&gen.Syntax{R: r}).Render(e.T))
			}
			return e.T.Build(r)
		}
		k := e.Key.Build(r, false)
		switch {
		case e.Required && r.Intn(2) == 0:
			dm.Put(k, tp())
		case e.Required && r.Intn(2) == 0:
			dm.Put(k, vf.Map(`type`, tp()))
		default:
			x := vf.MutableMap()
			if r.Intn(2) == 0 {
				x.Put(`description`, `something`)
			}
			if r.Intn(2) == 0 {
				x.Put(`required`, e.Required)
				x.Put(`type`, tp())
			} else {
				x.Put(`type`, tp())
				x.Put(`required`, vf.Boolean(e.Required))
			}
			dm.Put(k, x)
		}
	}
	if r.Intn(2) == 0 {
		dm = dm.FrozenCopy().(dgo.Map)
	}
	return dm
}

func structOf(r *rand.Rand, cfg *gen.TCfg, strKeys bool) *gen.T {
	for {
		m := gen.GenType(r, cfg)
		if m.K != gen.TStruct {
			m = &gen.T{K: gen.TStruct, Additional: r.Intn(3) == 0}
			n := r.Intn(5)
			for i := 0; i < n; i++ {
				k := gen.GenKey(r, &gen.Cfg{NoType: true, NoSens: true, StrKeys: strKeys || r.Intn(2) == 0})
				dup := false
				for _, e := range m.Entries {
					dup = dup || gen.Eq(e.Key, k)
				}
				if dup || !dgo.IsExact(k.Build(r, false).Type()) {
					continue
				}
				m.Entries = append(m.Entries, gen.StructEntry{Key: k, T: gen.GenType(r, &gen.TCfg{Depth: cfg.Depth - 1, Lang: cfg.Lang}), Required: r.Intn(2) == 0})
			}
		}
		ok := true
		for _, e := range m.Entries {
			ok = ok && (!strKeys || e.Key.K == gen.KStr)
		}
		if ok {
			return m
		}
	}
}

// exactStruct returns the model of the type of a map
func exactStruct(v *gen.V) *gen.T {
	m := &gen.T{K: gen.TStruct}
	for i, k := range v.Keys {
		m.Entries = append(m.Entries, gen.StructEntry{Key: k, T: &gen.T{K: gen.TExact, V: v.E[i]}, Required: true})
	}
	return m
}

type c18Go struct {
	A int
	B string
	C []string
	D map[string]int
	E interface{}
}

func runC18(c *mon.Ctx) {
	c.Run(`struct`, c.N(20000, 700000), func(r *rand.Rand, i int) {
		m := structOf(r, &gen.TCfg{Depth: 1 + i%3}, false)
		dt := m.Build(r).(dgo.StructMapType)
		c.Count(`types`, 1)
		for k := 0; k < 8; k++ {
			v := m.GenFor(r)
			for r.Intn(4) == 0 {
				v = gen.Tweak(r, v)
			}
			c.Seen(m.String() + ` ? ` + v.Canon(false))
			c18Validate(c, `struct type`, m, dt, v, v.Build(r, r.Intn(2) == 0))
			if i < 3 && k == 0 {
				c.Sample(fmt.Sprintf("%s validates %s", dt, v.Canon(false)))
			}
		}
		c18Views(c, r, `struct type`, m, dt)
	})
	c.Run(`exact`, c.N(10000, 300000), func(r *rand.Rand, i int) {
		v := gen.GenMap(r, &gen.Cfg{Depth: 1 + i%3, MaxLen: 4})
		m := exactStruct(v)
		dt := v.Build(r, r.Intn(2) == 0).Type().(dgo.StructMapType)
		for k := 0; k < 6; k++ {
			x := v
			for r.Intn(3) > 0 {
				x = gen.Tweak(r, x)
			}
			c.Seen(`exact ` + v.Canon(false) + ` ? ` + x.Canon(false))
			c18Validate(c, `type of a map`, m, dt, x, x.Build(r, r.Intn(2) == 0))
		}
	})
	c.Run(`go values`, c.N(4000, 100000), func(r *rand.Rand, i int) {
		// Go maps, Go structs and maps backed by structs are validated as the maps they represent
		m := structOf(r, &gen.TCfg{Depth: 1 + r.Intn(2)}, true)
		dt := m.Build(r).(dgo.StructMapType)
		v := m.GenFor(r)
		if v.K != gen.KMap {
			return
		}
		gm := map[string]interface{}{}
		for i, k := range v.Keys {
			if k.K != gen.KStr {
				return
			}
			gm[k.S] = v.E[i].Build(r, r.Intn(2) == 0)
		}
		c18Validate(c, `Go map`, m, dt, v, gm)
		s := &c18Go{A: r.Intn(3), B: []string{``, `a`, `b`}[r.Intn(3)], C: [][]string{{}, {`a`}}[r.Intn(2)], D: []map[string]int{{}, {`a`: 1}}[r.Intn(2)]}
		sv := vf.Value(s)
		if _, ok := sv.(dgo.Map); !ok {
			sv = vf.Map(s)
		}
		sm := gen.Observe(sv)
		t := &gen.T{K: gen.TStruct, Additional: r.Intn(4) == 0}
		for i, k := range sm.Keys {
			if r.Intn(6) > 0 {
				t.Entries = append(t.Entries, gen.StructEntry{Key: k, T: gen.TypeOfValue(r, sm.E[i], &gen.TCfg{Depth: 1}), Required: r.Intn(2) == 0})
			}
		}
		if r.Intn(4) == 0 {
			t.Entries = append(t.Entries, gen.StructEntry{Key: gen.Str(`F`), T: &gen.T{K: gen.TAny}, Required: r.Intn(2) == 0})
		}
		if n := len(t.Entries); n > 0 && r.Intn(3) == 0 {
			t.Entries[r.Intn(n)].T = gen.GenType(r, &gen.TCfg{Depth: 1})
		}
		c.Seen(`struct value ` + t.String() + ` ? ` + sm.Canon(false))
		c18Validate(c, `map backed by a struct`, t, t.Build(r).(dgo.StructMapType), sm, sv)
	})
	c.Run(`description`, c.N(8000, 250000), func(r *rand.Rand, i int) {
		lang := r.Intn(2) == 0
		m := structOf(r, &gen.TCfg{Depth: 1 + r.Intn(3), Lang: lang}, true)
		dm := c18Describe(r, m, lang)
		before := canonOf(dm)
		c.Seen(`description ` + m.String())
		c.Count(`descriptions`, 1)
		var dt dgo.StructMapType
		if e := mon.Catch(func() { dt = tf.StructMapFromMap(m.Additional, dm) }); e != nil {
			c.Fail(`description is refused`, "%v\n%s\n%s", e, dm, m)
		}
		if canonOf(dm) != before {
			c.Fail(`description is modified`, "before %s\nafter  %s", before, canonOf(dm))
		}
		if e := m.Canonical(); !dt.Equals(e) || !e.Equals(dt) || dt.HashCode() != e.HashCode() {
			c.Fail(`description gives another type`, "got %s, expected %s\ndescription %s\n%s", dt, e, dm, m)
		}
		c18Views(c, r, `described type`, m, dt)
		for k := 0; k < 3; k++ {
			v := m.GenFor(r)
			c18Validate(c, `described type`, m, dt, v, v.Build(r, false))
		}
		// from the type to a description and back
		back := vf.MutableMap()
		dt.Each(func(e dgo.StructMapEntry) {
			back.Put(e.Key().(dgo.ExactType).ExactValue(), vf.Map(`type`, e.Value(), `required`, e.Required()))
		})
		if bt := tf.StructMapFromMap(dt.Additional(), back); !bt.Equals(dt) {
			c.Fail(`description obtained from the type gives another type`, "got %s, expected %s\ndescription %s", bt, dt, back)
		}
		// what is not a description is refused
		badEntry := []interface{}{3, true, nil, vf.Values(1), vf.Map(), vf.Map(`required`, true), vf.Map(`type`, 3), vf.Map(`type`, `int`, `required`, `yes`), vf.Map(`type`, `int`, `required`, nil), `[`, `int|`,
			vf.Map(`type`, nil), vf.Map(`Type`, `int`), vf.Map(`type`, `int]`)}
		bm := dm.Copy(false)
		switch k := r.Intn(len(badEntry) + 1); {
		case k == len(badEntry):
			bm.Put([]interface{}{3, true, nil, vf.Values(`a`), 1.5}[r.Intn(5)], typ.Integer)
		default:
			bm.Put([]string{`bad`, `a`, `b`, `c`}[r.Intn(4)], badEntry[k])
		}
		e := mon.Catch(func() { dt = tf.StructMapFromMap(m.Additional, bm) })
		if e == nil {
			c.Fail(`what is not a description is accepted`, "description %s, type %s", bm, dt)
		}
		if isRuntimeError(e) {
			c.Fail(`what is not a description causes a runtime error`, "description %s, %v", bm, e)
		}
		c.Count(`descriptions refused`, 1)
	})
}
