package checks

import (
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"sort"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/parser"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/util"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C22`, Race: true, Rule: `a frozen value or type that was read concurrently by several goroutines; distinct by its content and the operations`, Run: runC22})
}

// render describes an answer
func render(v reflect.Value, depth int) string {
	if !v.IsValid() {
		return `invalid`
	}
	if v.CanInterface() {
		switch x := v.Interface().(type) {
		case nil:
			return `nil`
		case dgo.Type:
			if x == nil {
				return `nil`
			}
			return fmt.Sprint(`type `, x.String(), ` `, x.HashCode())
		case dgo.Value:
			if x == nil || reflect.ValueOf(x).Kind() == reflect.Ptr && reflect.ValueOf(x).IsNil() {
				return `nil`
			}
			h := ``
			if e := mon.Catch(func() { h = fmt.Sprint(x.HashCode()) }); e != nil {
				h = mon.PanicClass(e)
			}
			return canonOf(x) + ` ` + h
		case error:
			return x.Error()
		case time.Time:
			return x.Format(time.RFC3339Nano)
		case []byte:
			return fmt.Sprintf("%x", x)
		case reflect.Type:
			return x.String()
		case reflect.Value:
			return `reflect ` + render(x, depth-1)
		}
	}
	switch v.Kind() {
	case reflect.Bool, reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Float32, reflect.Float64, reflect.String:
		return fmt.Sprint(v)
	case reflect.Slice, reflect.Array:
		if depth > 0 {
			sb := &strings.Builder{}
			for i := 0; i < v.Len(); i++ {
				sb.WriteString(render(v.Index(i), depth-1) + `,`)
			}
			return `[` + sb.String() + `]`
		}
	case reflect.Map:
		if depth > 0 {
			es := []string{}
			for _, k := range v.MapKeys() {
				es = append(es, render(k, depth-1)+`:`+render(v.MapIndex(k), depth-1))
			}
			sort.Strings(es)
			return strings.Join(es, `,`)
		}
	case reflect.Interface, reflect.Ptr:
		if depth > 0 && !v.IsNil() {
			return render(v.Elem(), depth-1)
		}
	}
	return v.Type().String()
}

var skipMethods = map[string]bool{
	`Resolve`: true, // part of the protocol for types that are not yet complete
	`Format`:  true, // called by the formatting functions
}

var (
	tValue    = reflect.TypeOf((*dgo.Value)(nil)).Elem()
	tAny      = reflect.TypeOf((*interface{})(nil)).Elem()
	tIndenter = reflect.TypeOf((*dgo.Indenter)(nil)).Elem()
	tReflect  = reflect.TypeOf(reflect.Value{})
)

type sharedOp struct {
	name string
	f    func(v dgo.Value) string
}

// the public interfaces. A type may export more methods than these, by the Go types that it embeds.
var dgoInterfaces = []reflect.Type{
	reflect.TypeOf((*dgo.Arguments)(nil)).Elem(),
	reflect.TypeOf((*dgo.Array)(nil)).Elem(),
	reflect.TypeOf((*dgo.ArrayType)(nil)).Elem(),
	reflect.TypeOf((*dgo.Binary)(nil)).Elem(),
	reflect.TypeOf((*dgo.BinaryType)(nil)).Elem(),
	reflect.TypeOf((*dgo.Boolean)(nil)).Elem(),
	reflect.TypeOf((*dgo.BooleanType)(nil)).Elem(),
	reflect.TypeOf((*dgo.Comparable)(nil)).Elem(),
	reflect.TypeOf((*dgo.DeepAssignable)(nil)).Elem(),
	reflect.TypeOf((*dgo.DeepInstance)(nil)).Elem(),
	reflect.TypeOf((*dgo.ErrorType)(nil)).Elem(),
	reflect.TypeOf((*dgo.ExactType)(nil)).Elem(),
	reflect.TypeOf((*dgo.Factory)(nil)).Elem(),
	reflect.TypeOf((*dgo.Float)(nil)).Elem(),
	reflect.TypeOf((*dgo.FloatType)(nil)).Elem(),
	reflect.TypeOf((*dgo.Freezable)(nil)).Elem(),
	reflect.TypeOf((*dgo.Function)(nil)).Elem(),
	reflect.TypeOf((*dgo.FunctionType)(nil)).Elem(),
	reflect.TypeOf((*dgo.GenericType)(nil)).Elem(),
	reflect.TypeOf((*dgo.GoFunction)(nil)).Elem(),
	reflect.TypeOf((*dgo.Indentable)(nil)).Elem(),
	reflect.TypeOf((*dgo.Integer)(nil)).Elem(),
	reflect.TypeOf((*dgo.IntegerType)(nil)).Elem(),
	reflect.TypeOf((*dgo.Iterable)(nil)).Elem(),
	reflect.TypeOf((*dgo.Keyed)(nil)).Elem(),
	reflect.TypeOf((*dgo.Loader)(nil)).Elem(),
	reflect.TypeOf((*dgo.Map)(nil)).Elem(),
	reflect.TypeOf((*dgo.MapEntry)(nil)).Elem(),
	reflect.TypeOf((*dgo.MapType)(nil)).Elem(),
	reflect.TypeOf((*dgo.Meta)(nil)).Elem(),
	reflect.TypeOf((*dgo.NamedType)(nil)).Elem(),
	reflect.TypeOf((*dgo.NamedTypeExtension)(nil)).Elem(),
	reflect.TypeOf((*dgo.Native)(nil)).Elem(),
	reflect.TypeOf((*dgo.NativeType)(nil)).Elem(),
	reflect.TypeOf((*dgo.Nil)(nil)).Elem(),
	reflect.TypeOf((*dgo.Number)(nil)).Elem(),
	reflect.TypeOf((*dgo.ReflectedValue)(nil)).Elem(),
	reflect.TypeOf((*dgo.Regexp)(nil)).Elem(),
	reflect.TypeOf((*dgo.RegexpType)(nil)).Elem(),
	reflect.TypeOf((*dgo.ReverseAssignable)(nil)).Elem(),
	reflect.TypeOf((*dgo.Sensitive)(nil)).Elem(),
	reflect.TypeOf((*dgo.SizedType)(nil)).Elem(),
	reflect.TypeOf((*dgo.String)(nil)).Elem(),
	reflect.TypeOf((*dgo.StringType)(nil)).Elem(),
	reflect.TypeOf((*dgo.Struct)(nil)).Elem(),
	reflect.TypeOf((*dgo.StructMapEntry)(nil)).Elem(),
	reflect.TypeOf((*dgo.StructMapType)(nil)).Elem(),
	reflect.TypeOf((*dgo.TernaryType)(nil)).Elem(),
	reflect.TypeOf((*dgo.Time)(nil)).Elem(),
	reflect.TypeOf((*dgo.TimeType)(nil)).Elem(),
	reflect.TypeOf((*dgo.TupleType)(nil)).Elem(),
	reflect.TypeOf((*dgo.Type)(nil)).Elem(),
	reflect.TypeOf((*dgo.UnaryType)(nil)).Elem(),
	reflect.TypeOf((*dgo.Value)(nil)).Elem(),
}

func publicMethod(rt reflect.Type, name string) bool {
	for _, it := range dgoInterfaces {
		if _, ok := it.MethodByName(name); ok && rt.Implements(it) {
			return true
		}
	}
	return false
}

// methodOps gives the operations that call the methods of a value, with arguments that are created from the seed
func methodOps(v dgo.Value, noReflect bool, seed int64, extra func(r *rand.Rand) dgo.Value) (ops []sharedOp) {
	rt := reflect.TypeOf(v)
	for i := 0; i < rt.NumMethod(); i++ {
		m := rt.Method(i)
		if skipMethods[m.Name] || m.Name == `ReflectType` && noReflect || !publicMethod(rt, m.Name) {
			continue
		}
		i := i
		seed := seed + int64(i)
		ops = append(ops, sharedOp{m.Name, func(v dgo.Value) string {
			log := &strings.Builder{}
			r := rand.New(rand.NewSource(seed))
			mt := reflect.ValueOf(v).Method(i)
			args := make([]reflect.Value, mt.Type().NumIn())
			var after []func()
			for k := range args {
				at := mt.Type().In(k)
				args[k] = arg(r, at, log, extra, &after)
				if !args[k].IsValid() {
					return `no argument of type ` + at.String()
				}
			}
			var res []reflect.Value
			if mt.Type().IsVariadic() {
				res = mt.CallSlice(args)
			} else {
				res = mt.Call(args)
			}
			for _, x := range res {
				log.WriteString(render(x, 3) + `;`)
			}
			for _, f := range after {
				f()
			}
			return log.String()
		}})
	}
	return
}

func arg(r *rand.Rand, t reflect.Type, log *strings.Builder, extra func(r *rand.Rand) dgo.Value, after *[]func()) reflect.Value {
	switch t {
	case tIndenter:
		in := util.NewIndenter([]string{``, `  `}[r.Intn(2)])
		*after = append(*after, func() { log.WriteString(in.String()) })
		return reflect.ValueOf(in)
	case tReflect:
		x := reflect.New(tAny).Elem()
		*after = append(*after, func() { log.WriteString(render(x, 3)) })
		return reflect.ValueOf(x)
	}
	switch t.Kind() {
	case reflect.Bool:
		return reflect.ValueOf(r.Intn(2) == 0).Convert(t)
	case reflect.Int, reflect.Int64:
		return reflect.ValueOf(r.Intn(3)).Convert(t)
	case reflect.Float64:
		return reflect.ValueOf(1.5).Convert(t)
	case reflect.String:
		return reflect.ValueOf(`a`).Convert(t)
	case reflect.Func:
		n := 0
		yes := r.Intn(2) == 0
		return reflect.MakeFunc(t, func(in []reflect.Value) []reflect.Value {
			n++
			for _, x := range in {
				log.WriteString(render(x, 2) + ` `)
			}
			out := make([]reflect.Value, t.NumOut())
			for k := range out {
				ot := t.Out(k)
				switch {
				case ot.Kind() == reflect.Bool:
					out[k] = reflect.ValueOf(yes != (n%3 == 0)).Convert(ot)
				case ot == tAny || ot == tValue:
					out[k] = reflect.Zero(ot)
					if len(in) > 0 && !yes && in[0].Type().Implements(tValue) && !in[0].IsNil() {
						x := reflect.New(ot).Elem()
						if me, ok := in[0].Interface().(dgo.MapEntry); ok {
							x.Set(reflect.ValueOf(me.Value()))
						} else {
							x.Set(reflect.ValueOf(in[0].Interface()))
						}
						out[k] = x
					}
				default:
					out[k] = reflect.Zero(ot)
				}
			}
			return out
		})
	case reflect.Slice:
		s := reflect.MakeSlice(t, 0, 2)
		for k := r.Intn(3); k > 0; k-- {
			e := arg(r, t.Elem(), log, extra, after)
			if !e.IsValid() {
				return e
			}
			s = reflect.Append(s, e)
		}
		return s
	case reflect.Interface:
		for k := 0; k < 12; k++ {
			x := extra(r)
			if x == nil {
				continue
			}
			if reflect.TypeOf(x).AssignableTo(t) {
				rv := reflect.New(t).Elem()
				rv.Set(reflect.ValueOf(x))
				return rv
			}
		}
		return reflect.Value{}
	}
	return reflect.Value{}
}

func extraOps(twin dgo.Value, samples []dgo.Value) []sharedOp {
	return []sharedOp{
		{`content`, func(v dgo.Value) string { return canonOf(v) }},
		{`fmt`, func(v dgo.Value) string { return fmt.Sprintf("%v %s", v, v) }},
		{`indented`, func(v dgo.Value) string {
			if ia, ok := v.(dgo.Indentable); ok {
				return util.ToIndentedString(ia) + util.ToStringERP(ia)
			}
			return ``
		}},
		{`equals twin`, func(v dgo.Value) string { return fmt.Sprint(v.Equals(twin), twin.Equals(v)) }},
		{`type`, func(v dgo.Value) string {
			t := v.Type()
			g := typ.Generic(t)
			return fmt.Sprint(t, g, t.Instance(v), g.Instance(v), t.Assignable(g), g.Assignable(t), t.Equals(twin.Type()), t.HashCode(), t.TypeIdentifier())
		}},
		{`key`, func(v dgo.Value) string {
			m := vf.MutableMap(v, 1, `x`, v)
			return fmt.Sprint(m.Get(v), m.Get(twin), m.ContainsKey(v), m.Len(), m.String())
		}},
		{`element`, func(v dgo.Value) string {
			a := vf.MutableValues(v, twin, v)
			return fmt.Sprint(a.IndexOf(v), a.Unique().Len(), vf.Values(v).ContainsAll(a), a.Flatten(), a.Copy(true), a.FrozenCopy(), a.Sort())
		}},
		{`JSON`, func(v dgo.Value) string { return string(streamer.MarshalJSON(v, nil)) }},
		{`stream`, func(v dgo.Value) string {
			dc := streamer.DataCollector()
			streamer.New(nil, &streamer.Options{DedupLevel: streamer.MaxDedup, Dialect: streamer.DgoDialect(), RichData: true}).Stream(v, dc)
			return canonOf(dc.Value())
		}},
		{`FromValue`, func(v dgo.Value) string {
			var x interface{}
			vf.FromValue(v, &x)
			return render(reflect.ValueOf(x), 4)
		}},
		{`instances`, func(v dgo.Value) string {
			t, ok := v.(dgo.Type)
			if !ok {
				return ``
			}
			sb := &strings.Builder{}
			for _, s := range samples {
				sb.WriteString(fmt.Sprint(t.Instance(s), t.Assignable(s.Type())))
			}
			return sb.String()
		}},
		{`New`, func(v dgo.Value) string {
			t, ok := v.(dgo.Type)
			if !ok {
				return ``
			}
			sb := &strings.Builder{}
			for _, s := range samples[:3] {
				s := s
				if e := mon.Catch(func() { sb.WriteString(canonOf(vf.New(t, s))) }); e != nil {
					sb.WriteString(mon.PanicClass(e))
				}
			}
			return sb.String()
		}},
		{`validate`, func(v dgo.Value) string {
			t, ok := v.(dgo.StructMapType)
			if !ok {
				return ``
			}
			sb := &strings.Builder{}
			for _, s := range samples {
				if m, ok := s.(dgo.Map); ok {
					in := util.NewIndenter(``)
					sb.WriteString(fmt.Sprint(t.Validate(nil, m), t.ValidateVerbose(m, in), in.String()))
				}
			}
			return sb.String()
		}},
	}
}

func answer(o sharedOp, v dgo.Value) (s string) {
	if e := mon.Catch(func() { s = o.f(v) }); e != nil {
		return `panic ` + mon.PanicClass(e)
	}
	return s
}

func runC22(c *mon.Ctx) {
	c.Run(`cold`, 8, func(r *rand.Rand, i int) { c22Cold(c, r) })
	c.Run(`values`, c.N(2500, 50000), func(r *rand.Rand, i int) {
		v := gen.Gen(r, &gen.Cfg{Depth: 1 + r.Intn(3)})
		if r.Intn(3) > 0 {
			v = gen.GenMap(r, &gen.Cfg{Depth: 2})
			if r.Intn(2) == 0 {
				v = gen.GenArr(r, &gen.Cfg{Depth: 2})
			}
		}
		seed := r.Int63()
		c22Share(c, r, `value`, func() dgo.Value { return v.Build(rand.New(rand.NewSource(seed)), false) })
	})
	c.Run(`frozen copies`, c.N(1200, 20000), func(r *rand.Rand, i int) {
		v := gen.GenMap(r, &gen.Cfg{Depth: 2})
		if r.Intn(2) == 0 {
			v = gen.GenArr(r, &gen.Cfg{Depth: 2})
		}
		seed, how := r.Int63(), r.Intn(3)
		c22Share(c, r, `frozen copy`, func() dgo.Value {
			x := v.Build(rand.New(rand.NewSource(seed)), true)
			switch f := x.(dgo.Freezable); how {
			case 0:
				f.Freeze()
				return f.(dgo.Value)
			case 1:
				return f.FrozenCopy()
			}
			return vf.Values(x).Get(0)
		})
	})
	c.Run(`types`, c.N(2500, 50000), func(r *rand.Rand, i int) {
		t := gen.GenType(r, &gen.TCfg{Depth: 1 + r.Intn(3)})
		seed := r.Int63()
		c22Share(c, r, `type`, func() dgo.Value { return t.Build(rand.New(rand.NewSource(seed))) })
	})
	c.Run(`value types`, c.N(1200, 20000), func(r *rand.Rand, i int) {
		v := gen.GenMap(r, &gen.Cfg{Depth: 2})
		if r.Intn(2) == 0 {
			v = gen.GenArr(r, &gen.Cfg{Depth: 2})
		}
		seed, g := r.Int63(), r.Intn(2) == 0
		c22Share(c, r, `type of a value`, func() dgo.Value {
			t := v.Build(rand.New(rand.NewSource(seed)), false).Type()
			if g {
				t = typ.Generic(t)
			}
			return t
		})
	})
	c.Run(`parsed`, c.N(1000, 20000), func(r *rand.Rand, i int) {
		xs := []string{`a=map[string](int|a)`, `a={"x"?:a,"y":int,...}`, `a=[](string|a)`, `{"a":1,"b":[]string}`, `func(int,...string) (bool,any)`, `a=!string&(int|[]a)`, `~"abc"|/a+b/`, `sensitive[map[string]int]`,
			`{int,...string}`, `[1,5]map[string[1,3]](0..5)`, `[]map[string[1,3],1,4]int`, `dgo`, `data`, `richdata`, `type[int]`, `{a:1,b?:[]{c:string}}`, `2.0..3.5|1...9`, `binary|string`}
		x := xs[r.Intn(len(xs))]
		c22Share(c, r, `parsed type`, func() dgo.Value { return parser.ParseFile(newAdder(), ``, x).(dgo.Value) })
	})
	c.Run(`others`, c.N(800, 10000), func(r *rand.Rand, i int) { c22Share(c, r, `other value`, c22Other(r.Intn(12))) })
	c.Run(`parallel parse`, c.N(400, 8000), func(r *rand.Rand, i int) { c22Parse(c, r) })
}

func newAdder() dgo.AliasAdder {
	var ad dgo.AliasAdder
	tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { ad = a })
	return ad
}

type c22Struct struct {
	A int
	B []string
	C map[string]interface{}
	D *int
	E dgo.Value
	F time.Time
}

func c22Other(k int) func() dgo.Value {
	return func() dgo.Value {
		switch k {
		case 0:
			return vf.Map(&c22Struct{1, []string{`b`}, map[string]interface{}{`c`: 1}, nil, vf.Values(1, 2), time.Unix(1e9, 0)}).FrozenCopy()
		case 1:
			d := 4
			m := vf.Map(&c22Struct{A: 3, B: []string{`x`, `y`}, D: &d})
			m.Freeze()
			return m
		case 2:
			return vf.Value(func(a int, b ...string) string { return fmt.Sprint(a, b) })
		case 3:
			return vf.Value(struct{ X, Y int }{1, 2})
		case 4:
			return vf.Arguments(1, `a`, vf.Map(`a`, 1))
		case 5:
			return vf.Map(`a`, 1, `b`, vf.Values(1, 2)).Find(func(e dgo.MapEntry) bool { return e.Key().Equals(`b`) })
		case 6:
			return sampleLoaders()[0]
		case 7:
			return sampleLoaders()[2].Type()
		case 8:
			return vf.Value([]interface{}{1, `two`, map[string]int{`a`: 1, `b`: 2}, []byte{1, 2}, time.Unix(1e9, 5).UTC()})
		case 9:
			return tf.StructMapFromMap(false, vf.Map(`a`, vf.Map(`type`, typ.Integer), `b`, vf.Map(`type`, tf.Array(typ.String), `required`, true)))
		case 10:
			return vf.Sensitive(vf.Map(`a`, vf.Values(`x`)))
		}
		return vf.Map(`k`, vf.Values(typ.String, tf.ParseType(`[]int`), vf.Regexp(regexp.MustCompile(`a+`)), fmt.Errorf(`e`), vf.Sensitive(1)))
	}
}

func c22Share(c *mon.Ctx, r *rand.Rand, what string, build func() dgo.Value) {
	a, b, shared := build(), build(), build()
	var samples []dgo.Value
	for i := 0; i < 8; i++ {
		samples = append(samples, gen.Gen(r, &gen.Cfg{Depth: 2}).Build(r, false))
	}
	samples = append(samples, vf.Map(`a`, 1, `b`, vf.Values(`x`)))
	extra := func(r *rand.Rand) dgo.Value {
		switch r.Intn(8) {
		case 0:
			return vf.Values(1, `a`)
		case 1:
			return vf.Map(`a`, 1)
		case 2:
			return []dgo.Type{typ.String, typ.Any, tf.Array(typ.Integer), tf.Map(typ.String, typ.Any)}[r.Intn(4)]
		case 3:
			return vf.String(`a`)
		case 4:
			return vf.Integer(int64(r.Intn(3)))
		case 5:
			return vf.Arguments(vf.Values(1, `a`))
		case 6:
			return samples[r.Intn(len(samples))]
		}
		return b
	}
	seed := r.Int63()
	all := append(methodOps(a, what == `parsed type`, seed, extra), extraOps(b, samples)...)
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if len(all) > 24 {
		all = all[:24]
	}
	// answers that differ between two values that are built alike are not expected from the shared value either
	var ops []sharedOp
	var want []string
	for _, o := range all {
		x := answer(o, a)
		if x == answer(o, a) && x == answer(o, build()) {
			ops, want = append(ops, o), append(want, x)
		} else {
			c.Count(`answers that depend on identity`, 1)
		}
	}
	ng := 2 + r.Intn(4)
	got := make([][]string, ng)
	fs := make([]func(), ng)
	for g := range fs {
		g := g
		perm := r.Perm(len(ops))
		if r.Intn(3) == 0 && g > 0 {
			sort.Ints(perm)
		}
		got[g] = make([]string, len(ops))
		fs[g] = func() {
			for _, k := range perm {
				got[g][k] = answer(ops[k], shared)
			}
		}
	}
	together(c, procs(r), what, fs...)
	sb := &strings.Builder{}
	for k, o := range ops {
		sb.WriteString(o.name + ` `)
		c.Count(`operations`, ng)
		for g := range fs {
			if got[g][k] != want[k] {
				c.Fail(what+`: another answer when shared: `+o.name, "%s\nalone  %s\nshared %s", render(reflect.ValueOf(a), 1), want[k], got[g][k])
			}
		}
	}
	c.Count(`shared: `+what, 1)
	c.Seen(fmt.Sprint(what, canonOf(a), sb))
	if ng > 3 {
		c.Sample(fmt.Sprintf("%s %s\n%d goroutines: %s", what, a, ng, sb))
	}
}

// c22Cold uses what may be initialized when it is used for the first time
func c22Cold(c *mon.Ctx, r *rand.Rand) {
	f := func() {
		_ = tf.StructMapFromMap(false, vf.Map(`a`, vf.Map(`type`, typ.Integer))).String()
		_ = tf.ParseType(`map[string](int|dgo)`).String()
		_ = pcore.Parse(`Hash[String,Integer]`).String()
		_ = streamer.MarshalJSON(vf.Values(1, typ.String, vf.Sensitive(1), vf.Binary([]byte{1}, true), time.Unix(1, 1)), nil)
		_ = streamer.UnmarshalJSON([]byte(`{"__type":"sensitive","__value":[1]}`), nil)
		_ = vf.Map(&c22Struct{}).String()
		_ = vf.Value(func(int) string { return `` }).Type().String()
		for _, l := range sampleLoaders() {
			_ = l.Type().String()
		}
		_ = tf.FromReflected(reflect.TypeOf(map[string][]int{})).String()
		_ = vf.New(typ.Integer, vf.String(`31`))
	}
	for _, e := range together(c, 8, `cold`, f, f, f, f) {
		if e != nil {
			c.Fail(`first use: unexpected panic: `+mon.PanicClass(e), "%v", e)
		}
	}
	c.Count(`first uses`, 1)
	c.Seen(`cold`)
}

// c22Parse parses, prints, and decodes the same texts in several goroutines
func c22Parse(c *mon.Ctx, r *rand.Rand) {
	var xs []string
	for i := 0; i < 6; i++ {
		t := gen.GenType(r, &gen.TCfg{Depth: 2, Lang: true})
		xs = append(xs, t.Build(r).String())
	}
	v := genStreamable(r, &gen.Cfg{Depth: 3}, true)
	js := streamer.MarshalJSON(v.Build(r, false), nil)
	parse := func(x string) (s string) {
		if e := mon.Catch(func() { s = tf.ParseType(x).String() }); e != nil {
			return fmt.Sprint(e)
		}
		return s
	}
	want := make([]string, len(xs))
	for i := range xs {
		want[i] = parse(xs[i])
	}
	fs := make([]func(), 3+r.Intn(3))
	for g := range fs {
		g := g
		fs[g] = func() {
			for k := range xs {
				i := (k + g) % len(xs)
				if s := parse(xs[i]); s != want[i] {
					panic(fmt.Errorf(`%s parsed as %s, alone %s`, xs[i], s, want[i]))
				}
				if y := gen.Observe(streamer.UnmarshalJSON(js, nil)).Canon(false); y != v.Canon(false) {
					panic(fmt.Errorf(`%s decoded as %s`, js, y))
				}
			}
		}
	}
	for _, e := range together(c, procs(r), `parse`, fs...) {
		if e != nil {
			c.Fail(`parallel parse: `+mon.PanicClass(e), "%v", e)
		}
	}
	c.Count(`parallel parses`, len(xs)*len(fs))
	c.Seen(strings.Join(xs, ` `))
}
