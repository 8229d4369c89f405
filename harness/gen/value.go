// Package gen contains the reference models (values and types), the generators, and the observers that compare what
// dgo presents through its public API with a reference model.
package gen

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"time"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

// Kind is the kind of a model value
type Kind int

// The kinds
const (
	KNil = Kind(iota)
	KBool
	KInt
	KFloat
	KStr
	KBin
	KTime
	KRegexp
	KErr
	KSens
	KType
	KArr
	KMap
	numKinds
)

// V is a model value. It is a plain immutable tree that shares nothing with dgo.
type V struct {
	K    Kind
	B    bool
	I    int64
	F    float64
	S    string // string, regexp, error message, type syntax
	Bin  []byte
	T    time.Time
	E    []*V // array elements, map values, or the wrapped value of a sensitive
	Keys []*V // map keys
}

// Constructors
func Nil() *V              { return &V{K: KNil} }
func Bool(b bool) *V       { return &V{K: KBool, B: b} }
func Int(i int64) *V       { return &V{K: KInt, I: i} }
func Float(f float64) *V   { return &V{K: KFloat, F: f} }
func Str(s string) *V      { return &V{K: KStr, S: s} }
func Bin(b []byte) *V      { return &V{K: KBin, Bin: b} }
func Time(t time.Time) *V  { return &V{K: KTime, T: t} }
func Regexp(s string) *V   { return &V{K: KRegexp, S: s} }
func Err(s string) *V      { return &V{K: KErr, S: s} }
func Sens(v *V) *V         { return &V{K: KSens, E: []*V{v}} }
func Type(s string) *V     { return &V{K: KType, S: s} }
func Arr(es ...*V) *V      { return &V{K: KArr, E: es} }
func Map(keys, vs []*V) *V { return &V{K: KMap, Keys: keys, E: vs} }
func MapKV(kvs ...*V) *V {
	m := &V{K: KMap}
	for i := 0; i < len(kvs); i += 2 {
		m.Keys = append(m.Keys, kvs[i])
		m.E = append(m.E, kvs[i+1])
	}
	return m
}

// Eq is the reference equality: same kind and same content, maps without regard to order, times as instants.
func Eq(a, b *V) bool {
	if a == b {
		return true
	}
	if a.K != b.K {
		return false
	}
	switch a.K {
	case KNil:
		return true
	case KBool:
		return a.B == b.B
	case KInt:
		return a.I == b.I
	case KFloat:
		return a.F == b.F
	case KStr, KRegexp, KErr, KType:
		return a.S == b.S
	case KBin:
		return bytes.Equal(a.Bin, b.Bin)
	case KTime:
		return a.T.Equal(b.T)
	case KSens:
		return Eq(a.E[0], b.E[0])
	case KArr:
		if len(a.E) != len(b.E) {
			return false
		}
		for i := range a.E {
			if !Eq(a.E[i], b.E[i]) {
				return false
			}
		}
		return true
	default:
		if len(a.E) != len(b.E) {
			return false
		}
		for i := range a.Keys {
			j := b.Find(a.Keys[i])
			if j < 0 || !Eq(a.E[i], b.E[j]) {
				return false
			}
		}
		return true
	}
}

// Find returns the index of the given key in a map or -1
func (v *V) Find(k *V) int {
	for i := range v.Keys {
		if Eq(v.Keys[i], k) {
			return i
		}
	}
	return -1
}

// Index returns the index of the given element in an array or -1
func (v *V) Index(e *V) int {
	for i := range v.E {
		if Eq(v.E[i], e) {
			return i
		}
	}
	return -1
}

// Canon returns a canonical text. Texts are equal if and only if the values are Eq and, for maps, in the same order
// unless sorted is true.
func (v *V) Canon(sorted bool) string {
	var sb strings.Builder
	v.canon(&sb, sorted)
	return sb.String()
}

func (v *V) canon(sb *strings.Builder, sorted bool) {
	switch v.K {
	case KNil:
		sb.WriteString(`nil`)
	case KBool:
		sb.WriteString(strconv.FormatBool(v.B))
	case KInt:
		sb.WriteString(strconv.FormatInt(v.I, 10))
	case KFloat:
		f := v.F
		if f == 0 {
			f = 0 // -0.0 equals 0.0
		}
		sb.WriteString(`f` + strconv.FormatFloat(f, 'g', -1, 64))
	case KStr:
		sb.WriteString(strconv.Quote(v.S))
	case KBin:
		fmt.Fprintf(sb, `b%x`, v.Bin)
	case KTime:
		fmt.Fprintf(sb, `t%d.%d`, v.T.Unix(), v.T.Nanosecond())
	case KRegexp:
		sb.WriteString(`r` + strconv.Quote(v.S))
	case KErr:
		sb.WriteString(`e` + strconv.Quote(v.S))
	case KType:
		sb.WriteString(`T` + strconv.Quote(v.S))
	case KSens:
		sb.WriteString(`s(`)
		v.E[0].canon(sb, sorted)
		sb.WriteString(`)`)
	case KArr:
		sb.WriteString(`[`)
		for i, e := range v.E {
			if i > 0 {
				sb.WriteString(`,`)
			}
			e.canon(sb, sorted)
		}
		sb.WriteString(`]`)
	case KMap:
		es := make([]string, len(v.E))
		for i := range v.E {
			es[i] = v.Keys[i].Canon(sorted) + `:` + v.E[i].Canon(sorted)
		}
		if sorted {
			sort.Strings(es)
		}
		sb.WriteString(`{` + strings.Join(es, `,`) + `}`)
	}
}

func (v *V) String() string { return v.Canon(false) }

// Size returns the number of nodes
func (v *V) Size() int {
	n := 1
	for _, e := range v.E {
		n += e.Size()
	}
	for _, e := range v.Keys {
		n += e.Size()
	}
	return n
}

// Observe reads a dgo value through its public accessors into a model value. It does not use Equals, HashCode or
// String of the value.
func Observe(dv dgo.Value) *V {
	return observe(dv, 0)
}

func observe(dv dgo.Value, depth int) *V {
	if depth > 200 {
		panic(errors.New(`value is nested too deep`))
	}
	switch d := dv.(type) {
	case nil:
		return &V{K: numKinds, S: `<nil interface>`}
	case dgo.Nil:
		return Nil()
	case dgo.Sensitive:
		return Sens(observe(d.Unwrap(), depth+1))
	case dgo.Type:
		return Type(d.String())
	case dgo.Boolean:
		return Bool(d.GoBool())
	case dgo.Integer:
		return Int(d.GoInt())
	case dgo.Float:
		return Float(d.GoFloat())
	case dgo.String:
		return Str(d.GoString())
	case dgo.Binary:
		return Bin(append([]byte(nil), d.GoBytes()...))
	case dgo.Time:
		return Time(d.GoTime())
	case dgo.Regexp:
		return Regexp(d.GoRegexp().String())
	case dgo.Array:
		n := d.Len()
		v := &V{K: KArr, E: make([]*V, 0, n)}
		for i := 0; i < n; i++ {
			v.E = append(v.E, observe(d.Get(i), depth+1))
		}
		return v
	case dgo.Map:
		v := &V{K: KMap}
		d.EachEntry(func(e dgo.MapEntry) {
			v.Keys = append(v.Keys, observe(e.Key(), depth+1))
			v.E = append(v.E, observe(e.Value(), depth+1))
		})
		return v
	case error:
		return Err(d.Error())
	default:
		return &V{K: numKinds, S: fmt.Sprintf("%T", dv)}
	}
}

// Same returns true if the observed value equals the model including the order of map entries
func Same(m *V, dv dgo.Value) bool {
	return Observe(dv).Canon(false) == m.Canon(false)
}

// Cfg controls value generation
type Cfg struct {
	Depth    int
	MaxLen   int
	NoFloat  bool
	NoErr    bool
	NoType   bool
	NoSens   bool
	NoRegexp bool
	NoBig    bool // only integers that float64 can represent
	Data     bool // only JSON data
	StrKeys  bool
	Scalars  bool
	NoNil    bool
	Hostile  bool // include colliding hash codes and boundary scalars with high probability
}

// Strings used by generators. They include pairs with equal 31-based hash codes, unicode, control characters and
// strings with a syntactic meaning somewhere.
var Strs = []string{``, `a`, `b`, `c`, `Aa`, `BB`, `AaAa`, `BBBB`, `AaBB`, `BBAa`, `key`, `name`, `value`, `type`, `1`, `-1`, `1.0`, `true`, `nil`,
	`__ref`, `__type`, `__value`, `int`, `string[1]`, `A`, `å`, `日本`, `x y`, `long string that exceeds the dedup threshold`, "tab\tnl\n", `"q"`, `back\slash`, `it's`,
	"\u00ff", "\x01\x02", `/slash/`, `${x}`, "`tick`", `zz`, `aa`, `ab`, `abc`, `ABC`, "e\u0301", "\U0001F600"}

// Ints used by generators
var Ints = []int64{0, 1, -1, 2, 3, 4, 5, 7, 10, 42, 100, 127, 128, 255, 256, -128, -129, 1 << 16, 1 << 28, 2 << 28, 3 << 28, 4 << 28, 5 << 28, 6 << 28, 7 << 28,
	1 << 31, -(1 << 31), 1 << 32, 1<<32 + 1, 1 << 53, 1<<53 - 1, math.MaxInt32, math.MinInt32}

// BigInts are integers that lose precision as float64
var BigInts = []int64{1<<53 + 1, -(1<<53 + 1), 1<<60 + 1, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1}

// Floats used by generators
var Floats = []float64{0, 1, -1, 0.5, 1.2, 1.5, 1.9, -1.5, 2, 3, 3.14, 1e10, 1e21, 1e100, -1e-7, 42, 100, 1 << 53, math.MaxFloat64, math.SmallestNonzeroFloat64, 1234567.125}

var baseTime = time.Date(2019, 11, 3, 12, 13, 14, 0, time.UTC)

// Times used by generators. Pairs denote the same instant in different zones.
var Times = []time.Time{baseTime, baseTime.In(time.FixedZone(``, 3600)), baseTime.Add(time.Nanosecond), baseTime.Add(123456789), time.Unix(0, 0).UTC(),
	time.Date(1900, 1, 1, 0, 0, 0, 0, time.UTC), time.Date(2200, 6, 5, 4, 3, 2, 1000, time.FixedZone(``, -7*3600)),
	time.Date(1930, 1, 2, 3, 4, 5, 6, time.FixedZone(`LMT`, 1172)), time.Date(1, 2, 3, 4, 5, 6, 0, time.UTC), time.Date(9998, 12, 31, 23, 59, 59, 999999999, time.UTC)}

// Regexps used by generators
var Regexps = []string{``, `a`, `^a.*b$`, `[a-z]+`, `/x/`, `\d+`, `\\`, `"`, "tab\t", `(?i)x`, `a|b`}

// Types used by generators as values, by their canonical text. They are pairwise different.
var Types []string

var typeOf = map[string]dgo.Type{}

func init() {
	for _, s := range []string{`any`, `int`, `string`, `float`, `bool`, `nil`, `[]int`, `[]string`, `map[string]int`, `1..5`, `string[1,5]`, `"a"`, `/a/`, `{"a":int}`,
		`{"a"?:int,...}`, `{int,string}`, `int|string`, `!int`, `type`, `type[int]`, `binary`, `sensitive`, `sensitive[int]`, `func(int) string`, `~"a"`, `3`, `true`} {
		addType(tf.ParseType(s))
	}
	for _, t := range []dgo.Type{typ.Time, typ.Regexp, typ.Error, typ.Native} {
		addType(t)
	}
}

func addType(t dgo.Type) {
	s := t.String()
	if _, ok := typeOf[s]; ok {
		panic(`duplicate type ` + s)
	}
	typeOf[s] = t
	Types = append(Types, s)
}

func pick(r *rand.Rand, n int) int { return r.Intn(n) }

// GenScalar generates a scalar model value
func GenScalar(r *rand.Rand, c *Cfg) *V {
	for {
		k := Kind(pick(r, int(KType)+1))
		if r.Intn(3) == 0 {
			k = []Kind{KInt, KStr, KStr}[r.Intn(3)]
		}
		if c.Data && k > KStr {
			continue
		}
		switch k {
		case KNil:
			if c.NoNil {
				continue
			}
			return Nil()
		case KBool:
			return Bool(r.Intn(2) == 0)
		case KInt:
			switch x := r.Intn(6); {
			case x == 0 && !c.NoBig:
				return Int(BigInts[r.Intn(len(BigInts))])
			case x == 1:
				return Int(int64(r.Intn(2000) - 1000))
			default:
				return Int(Ints[r.Intn(len(Ints))])
			}
		case KFloat:
			if c.NoFloat {
				continue
			}
			if r.Intn(5) == 0 {
				return Float(float64(r.Intn(100000))/64 - 500)
			}
			return Float(Floats[r.Intn(len(Floats))])
		case KStr:
			if r.Intn(5) == 0 {
				n := r.Intn(30)
				bs := make([]byte, n)
				for i := range bs {
					bs[i] = byte('a' + r.Intn(5))
				}
				return Str(string(bs))
			}
			if r.Intn(300) == 0 {
				// a long string
				sb := strings.Builder{}
				for n := wide(r); n > 0; n-- {
					sb.WriteString(Strs[r.Intn(len(Strs))])
				}
				return Str(sb.String())
			}
			return Str(Strs[r.Intn(len(Strs))])
		case KBin:
			n := r.Intn(6)
			if r.Intn(60) == 0 {
				n = 6 + r.Intn(4*wide(r))
			}
			bs := make([]byte, n)
			for i := range bs {
				bs[i] = byte([]int{0, 1, 2, 255, 128, 97}[r.Intn(6)])
			}
			return Bin(bs)
		case KTime:
			return Time(Times[r.Intn(len(Times))])
		case KRegexp:
			if c.NoRegexp {
				continue
			}
			return Regexp(Regexps[r.Intn(len(Regexps))])
		case KErr:
			if c.NoErr {
				continue
			}
			return Err(Strs[r.Intn(10)+1])
		case KSens:
			if c.NoSens {
				continue
			}
			return Sens(GenScalar(r, c))
		case KType:
			if c.NoType {
				continue
			}
			return Type(Types[r.Intn(len(Types))])
		}
	}
}

// Gen generates a model value
func Gen(r *rand.Rand, c *Cfg) *V {
	if c.Scalars || c.Depth <= 0 || r.Intn(3) == 0 {
		return GenScalar(r, c)
	}
	d := *c
	d.Depth--
	if c.Depth > 1 && (c.MaxLen == 0 || c.MaxLen > 2) && r.Intn(300) == 0 {
		// something that is nested deeply
		d.Depth = 1
		v := Gen(r, &d)
		d.Depth = 0
		for n := 4 + r.Intn(28); n > 0; n-- {
			switch k := r.Intn(9); {
			case k == 0 && !c.NoSens && !c.Data:
				v = Sens(v)
			case k < 4:
				m := &V{K: KMap, Keys: []*V{GenKey(r, &d)}, E: []*V{v}}
				if k := GenKey(r, &d); m.Find(k) < 0 {
					m.Keys, m.E = append(m.Keys, k), append(m.E, GenScalar(r, c))
				}
				v = m
			default:
				v = Arr(v)
				if r.Intn(3) == 0 {
					v.E = append(v.E, GenScalar(r, c))
				}
			}
		}
		return v
	}
	switch r.Intn(9) {
	case 0, 1, 2, 3:
		return GenArr(r, c)
	case 4:
		if c.NoSens || c.Data {
			return GenArr(r, c)
		}
		return Sens(Gen(r, &d))
	default:
		return GenMap(r, c)
	}
}

// wide is the size of a collection that has a lot of elements
func wide(r *rand.Rand) int {
	if r.Intn(6) == 0 {
		return 64 + r.Intn(140)
	}
	return 8 + r.Intn(56)
}

// GenArr generates a model array
func GenArr(r *rand.Rand, c *Cfg) *V {
	d := *c
	d.Depth--
	ml := c.MaxLen
	if ml == 0 {
		ml = 4
	}
	n := r.Intn(ml + 1)
	if ml > 2 && r.Intn(200) == 0 {
		n, d.Depth = wide(r), 0
	}
	a := &V{K: KArr, E: make([]*V, 0, n)}
	for i := 0; i < n; i++ {
		if i > 0 && r.Intn(5) == 0 {
			a.E = append(a.E, a.E[r.Intn(i)])
		} else {
			a.E = append(a.E, Gen(r, &d))
		}
	}
	return a
}

// GenKey generates a model map key
func GenKey(r *rand.Rand, c *Cfg) *V {
	if c.StrKeys || r.Intn(2) == 0 {
		return Str(Strs[r.Intn(len(Strs))])
	}
	d := *c
	d.Depth = 0
	if c.Depth > 0 && r.Intn(4) == 0 {
		d.Depth = 1
		d.MaxLen = 2
	}
	if r.Intn(3) == 0 {
		return Int(int64(r.Intn(9)) << 28)
	}
	return Gen(r, &d)
}

// GenMap generates a model map
func GenMap(r *rand.Rand, c *Cfg) *V {
	d := *c
	d.Depth--
	ml := c.MaxLen
	if ml == 0 {
		ml = 4
	}
	n := r.Intn(ml + 1)
	w := ml > 2 && r.Intn(200) == 0
	if w {
		n, d.Depth = wide(r), 0
	}
	m := &V{K: KMap}
	for i := 0; i < n; i++ {
		var k *V
		switch {
		case !w || r.Intn(3) == 0:
			k = GenKey(r, c)
		case c.StrKeys || r.Intn(2) == 0:
			k = Str("k" + strconv.Itoa(r.Intn(200)))
		default:
			k = Int(int64(r.Intn(200)-100) << uint(r.Intn(2)*16))
		}
		if m.Find(k) < 0 {
			m.Keys = append(m.Keys, k)
			m.E = append(m.E, Gen(r, &d))
		}
	}
	return m
}

// BuildScalar builds the dgo value of a scalar
func (v *V) BuildScalar() dgo.Value {
	switch v.K {
	case KNil:
		return vf.Nil
	case KBool:
		return vf.Boolean(v.B)
	case KInt:
		return vf.Integer(v.I)
	case KFloat:
		return vf.Float(v.F)
	case KStr:
		return vf.String(v.S)
	case KBin:
		return vf.Binary(v.Bin, true)
	case KTime:
		return vf.Time(v.T)
	case KRegexp:
		return vf.Regexp(regexp.MustCompile(v.S))
	case KErr:
		return vf.Value(errors.New(v.S))
	case KType:
		return typeOf[v.S]
	}
	panic(`not a scalar`)
}

// GoArg returns something that can be passed as an interface{} argument where a value is expected: either the dgo
// value or, for scalars, sometimes the Go value it represents.
func (v *V) GoArg(r *rand.Rand) interface{} {
	if r.Intn(2) == 0 {
		switch v.K {
		case KNil:
			return nil
		case KBool:
			return v.B
		case KInt:
			if v.I >= -128 && v.I < 128 && r.Intn(2) == 0 {
				return int8(v.I)
			}
			if r.Intn(2) == 0 {
				return int(v.I)
			}
			return v.I
		case KFloat:
			return v.F
		case KStr:
			return v.S
		case KBin:
			return append([]byte{}, v.Bin...)
		case KTime:
			return v.T
		case KRegexp:
			return regexp.MustCompile(v.S)
		case KErr:
			return errors.New(v.S)
		}
	}
	return v.Build(r, r.Intn(2) == 0)
}

// Build builds a dgo value using a randomly chosen construction. Collections, on all levels, are mutable or frozen as
// told by the mutable argument.
func (v *V) Build(r *rand.Rand, mutable bool) dgo.Value {
	switch v.K {
	case KSens:
		return vf.Sensitive(v.E[0].Build(r, mutable))
	case KArr:
		return v.buildArr(r, mutable)
	case KMap:
		return v.buildMap(r, mutable)
	case KBin:
		if mutable {
			return vf.Binary(append([]byte{}, v.Bin...), false)
		}
	}
	return v.BuildScalar()
}

func (v *V) buildArr(r *rand.Rand, mutable bool) dgo.Array {
	es := make([]interface{}, len(v.E))
	for i := range es {
		es[i] = v.E[i].Build(r, mutable)
	}
	if mutable {
		switch r.Intn(4) {
		case 0:
			return vf.MutableValues(es...)
		case 1:
			vs := make([]dgo.Value, len(es), len(es)+r.Intn(4))
			for i := range es {
				vs[i] = es[i].(dgo.Value)
			}
			return vf.WrapSlice(vs)
		case 2:
			a := vf.ArrayWithCapacity(r.Intn(8))
			for i := range es {
				a.Add(es[i])
			}
			return a
		default:
			a := vf.ArrayWithCapacity(0)
			a.AddValues(es...)
			return a
		}
	}
	switch r.Intn(4) {
	case 0:
		return vf.Values(es...)
	case 1:
		vs := make([]dgo.Value, len(es))
		for i := range es {
			vs[i] = es[i].(dgo.Value)
		}
		return vf.Array(vs)
	case 2:
		a := vf.ArrayWithCapacity(r.Intn(8))
		for i := range es {
			a.Add(es[i])
		}
		a.Freeze()
		return a
	default:
		return vf.MutableValues(es...).FrozenCopy().(dgo.Array)
	}
}

func (v *V) buildMap(r *rand.Rand, mutable bool) dgo.Map {
	es := make([]interface{}, 0, len(v.E)*2)
	for i := range v.E {
		es = append(es, v.Keys[i].Build(r, false), v.E[i].Build(r, mutable))
	}
	if mutable {
		switch r.Intn(3) {
		case 0:
			return vf.MutableMap(es...)
		case 1:
			m := vf.MapWithCapacity(r.Intn(20))
			for i := 0; i < len(es); i += 2 {
				m.Put(es[i], es[i+1])
			}
			return m
		default:
			m := vf.MutableMap()
			m.Put(`extra entry`, 1)
			for i := 0; i < len(es); i += 2 {
				m.Put(es[i], es[i+1])
			}
			m.Remove(`extra entry`)
			return m
		}
	}
	switch r.Intn(4) {
	case 0:
		return vf.Map(es...)
	case 1:
		m := vf.MapWithCapacity(r.Intn(20))
		for i := 0; i < len(es); i += 2 {
			m.Put(es[i], es[i+1])
		}
		m.Freeze()
		return m
	case 2:
		return vf.MutableMap(es...).FrozenCopy().(dgo.Map)
	default:
		return vf.Map(vf.Values(es...))
	}
}
