package gen

import (
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/typ"
	"github.com/lyraproj/dgo/vf"
)

// TK is the kind of a model type
type TK int

// The kinds
const (
	TAny = TK(iota)
	TNil
	TBool
	TInt
	TIntR
	TFloat
	TFloatR
	TStr
	TStrR
	TPat
	TCi
	TBin
	TBinR
	TTime
	TRegexp
	TErr
	TMetaAny
	TMeta
	TSensAny
	TSens
	TExact // scalars, arrays, and maps
	TArr
	TTuple
	TMap
	TStruct
	TAllOf
	TAnyOf
	TOneOf
	TNot
	TFunc
	numTK
)

// Inf is an unlimited size
const Inf = math.MaxInt64

// StructEntry is an entry of a struct map type
type StructEntry struct {
	Key      *V
	T        *T
	Required bool
}

// T is a model type. Its meaning is given by Accept which shares nothing with dgo.
type T struct {
	K          TK
	V          *V     // exact value
	S          string // pattern or case insensitive string
	Min, Max   int64  // sizes and integer ranges
	FMin, FMax float64
	Incl       bool
	Ts         []*T // element, key+value, tuple elements, operands, in+out of a function
	Variadic   bool
	Entries    []StructEntry
	Additional bool
}

var rxCache sync.Map

func rx(s string) *regexp.Regexp {
	if r, ok := rxCache.Load(s); ok {
		return r.(*regexp.Regexp)
	}
	r := regexp.MustCompile(s)
	rxCache.Store(s, r)
	return r
}

// Accept is the reference meaning of a type
func (t *T) Accept(v *V) bool {
	size := func(n int) bool { return t.Min <= int64(n) && int64(n) <= t.Max }
	switch t.K {
	case TAny:
		return true
	case TNil:
		return v.K == KNil
	case TBool:
		return v.K == KBool
	case TInt:
		return v.K == KInt
	case TIntR:
		return v.K == KInt && t.Min <= v.I && (v.I < t.Max || t.Incl && v.I == t.Max)
	case TFloat:
		return v.K == KFloat
	case TFloatR:
		return v.K == KFloat && t.FMin <= v.F && (v.F < t.FMax || t.Incl && v.F == t.FMax)
	case TStr:
		return v.K == KStr
	case TStrR:
		return v.K == KStr && size(len(v.S))
	case TPat:
		return v.K == KStr && rx(t.S).MatchString(v.S)
	case TCi:
		return v.K == KStr && strings.EqualFold(t.S, v.S)
	case TBin:
		return v.K == KBin
	case TBinR:
		return v.K == KBin && size(len(v.Bin))
	case TTime:
		return v.K == KTime
	case TRegexp:
		return v.K == KRegexp
	case TErr:
		return v.K == KErr
	case TMetaAny:
		return v.K == KType
	case TMeta:
		return v.K == KType && t.Ts[0].Canonical().Assignable(typeOf[v.S])
	case TSensAny:
		return v.K == KSens
	case TSens:
		return v.K == KSens && t.Ts[0].Accept(v.E[0])
	case TExact:
		return Eq(t.V, v)
	case TArr:
		if v.K != KArr || !size(len(v.E)) {
			return false
		}
		for _, e := range v.E {
			if !t.Ts[0].Accept(e) {
				return false
			}
		}
		return true
	case TTuple:
		if v.K != KArr {
			return false
		}
		n := len(t.Ts)
		if t.Variadic {
			if len(v.E) < n-1 {
				return false
			}
		} else if len(v.E) != n {
			return false
		}
		for i, e := range v.E {
			et := t.Ts[n-1]
			if i < n {
				et = t.Ts[i]
			}
			if !et.Accept(e) {
				return false
			}
		}
		return true
	case TMap:
		if v.K != KMap || !size(len(v.E)) {
			return false
		}
		for i := range v.E {
			if !t.Ts[0].Accept(v.Keys[i]) || !t.Ts[1].Accept(v.E[i]) {
				return false
			}
		}
		return true
	case TStruct:
		if v.K != KMap {
			return false
		}
		known := 0
		for _, e := range t.Entries {
			i := v.Find(e.Key)
			if i < 0 {
				if e.Required {
					return false
				}
				continue
			}
			known++
			if !e.T.Accept(v.E[i]) {
				return false
			}
		}
		return t.Additional || known == len(v.E)
	case TAllOf:
		for _, o := range t.Ts {
			if !o.Accept(v) {
				return false
			}
		}
		return true
	case TAnyOf:
		for _, o := range t.Ts {
			if o.Accept(v) {
				return true
			}
		}
		return false
	case TOneOf:
		n := 0
		for _, o := range t.Ts {
			if o.Accept(v) {
				n++
			}
		}
		return n == 1
	case TNot:
		return !t.Ts[0].Accept(v)
	case TFunc:
		return false // the value model has no functions
	}
	panic(`unknown kind`)
}

// String is an unambiguous notation of the model
func (t *T) String() string {
	sub := func() string {
		ss := make([]string, len(t.Ts))
		for i := range ss {
			ss[i] = t.Ts[i].String()
		}
		return `(` + strings.Join(ss, `, `) + `)`
	}
	size := func() string {
		if t.Max == Inf {
			return fmt.Sprintf(`[%d..]`, t.Min)
		}
		return fmt.Sprintf(`[%d..%d]`, t.Min, t.Max)
	}
	switch t.K {
	case TIntR:
		return fmt.Sprintf(`int[%d..%d incl=%v]`, t.Min, t.Max, t.Incl)
	case TFloatR:
		return fmt.Sprintf(`float[%g..%g incl=%v]`, t.FMin, t.FMax, t.Incl)
	case TStrR:
		return `string` + size()
	case TBinR:
		return `binary` + size()
	case TPat:
		return fmt.Sprintf(`pattern(%q)`, t.S)
	case TCi:
		return fmt.Sprintf(`ci(%q)`, t.S)
	case TExact:
		return `exact(` + t.V.Canon(false) + `)`
	case TMeta:
		return `meta` + sub()
	case TSens:
		return `sensitive` + sub()
	case TArr:
		return `array` + size() + sub()
	case TTuple:
		return fmt.Sprintf(`tuple[variadic=%v]`, t.Variadic) + sub()
	case TMap:
		return `map` + size() + sub()
	case TStruct:
		ss := make([]string, len(t.Entries))
		for i, e := range t.Entries {
			q := ``
			if !e.Required {
				q = `?`
			}
			ss[i] = e.Key.Canon(false) + q + `: ` + e.T.String()
		}
		return fmt.Sprintf(`struct[additional=%v]{%s}`, t.Additional, strings.Join(ss, `, `))
	case TAllOf:
		return `allOf` + sub()
	case TAnyOf:
		return `anyOf` + sub()
	case TOneOf:
		return `oneOf` + sub()
	case TNot:
		return `not` + sub()
	case TFunc:
		return `func` + sub()
	}
	return [...]string{`any`, `nil`, `bool`, `int`, ``, `float`, ``, `string`, ``, ``, ``, `binary`, ``, `time`, `regexp`, `error`, `meta`, ``, `sensitive`}[t.K]
}

// Depth returns the nesting depth
func (t *T) Depth() int {
	d := 0
	for _, s := range t.Ts {
		if x := s.Depth() + 1; x > d {
			d = x
		}
	}
	for _, e := range t.Entries {
		if x := e.T.Depth() + 1; x > d {
			d = x
		}
	}
	return d
}

// Has returns true if the predicate is true for the type or any part of it
func (t *T) Has(f func(t *T) bool) bool {
	if f(t) {
		return true
	}
	for _, s := range t.Ts {
		if s.Has(f) {
			return true
		}
	}
	for _, e := range t.Entries {
		if e.T.Has(f) {
			return true
		}
	}
	return false
}

// Canonical builds the type without variation
func (t *T) Canonical() dgo.Type { return t.Build(nil) }

func flip(r *rand.Rand) bool { return r != nil && r.Intn(2) == 0 }

// Build composes the type with the factory functions. The random source, unless nil, selects among equivalent
// ways to do so.
func (t *T) Build(r *rand.Rand) dgo.Type {
	ops := func() []interface{} {
		os := make([]interface{}, len(t.Ts))
		for i, o := range t.Ts {
			if o.K == TExact && flip(r) {
				os[i] = o.V.Build(rand.New(rand.NewSource(int64(i))), false) // operators accept values
				if _, ok := os[i].(dgo.Type); !ok {
					continue
				}
			}
			os[i] = o.Build(r)
		}
		return os
	}
	ts := func() []interface{} {
		os := make([]interface{}, len(t.Ts))
		for i, o := range t.Ts {
			os[i] = o.Build(r)
		}
		return os
	}
	switch t.K {
	case TAny:
		if flip(r) {
			return tf.AllOf()
		}
		return typ.Any
	case TNil:
		if flip(r) {
			return vf.Nil.Type()
		}
		return typ.Nil
	case TBool:
		return typ.Boolean
	case TInt:
		if flip(r) {
			return tf.Integer(math.MinInt64, math.MaxInt64, true)
		}
		return typ.Integer
	case TIntR:
		if flip(r) {
			return tf.Integer(t.Max, t.Min, t.Incl)
		}
		return tf.Integer(t.Min, t.Max, t.Incl)
	case TFloat:
		if flip(r) {
			return tf.Float(-math.MaxFloat64, math.MaxFloat64, true)
		}
		return typ.Float
	case TFloatR:
		if flip(r) {
			return tf.Float(t.FMax, t.FMin, t.Incl)
		}
		return tf.Float(t.FMin, t.FMax, t.Incl)
	case TStr:
		if flip(r) {
			return tf.String(0)
		}
		return typ.String
	case TStrR:
		if t.Max == Inf && flip(r) {
			return tf.String(int(t.Min))
		}
		if flip(r) {
			return tf.String(int(t.Max), int(t.Min))
		}
		return tf.String(int(t.Min), int(t.Max))
	case TPat:
		return tf.Pattern(regexp.MustCompile(t.S))
	case TCi:
		if flip(r) {
			return tf.CiString(vf.String(t.S))
		}
		if flip(r) {
			return tf.CiEnum(t.S)
		}
		return tf.CiString(t.S)
	case TBin:
		if flip(r) {
			return tf.Binary(0)
		}
		return typ.Binary
	case TBinR:
		if t.Max == Inf && flip(r) {
			return tf.Binary(int(t.Min))
		}
		return tf.Binary(int(t.Min), int(t.Max))
	case TTime:
		return typ.Time
	case TRegexp:
		return typ.Regexp
	case TErr:
		return typ.Error
	case TMetaAny:
		if flip(r) {
			return typ.Any.Type()
		}
		return tf.Meta(typ.Any)
	case TMeta:
		if flip(r) {
			if t.Ts[0].K != TMeta && t.Ts[0].K != TMetaAny {
				return t.Ts[0].Build(r).Type()
			}
		}
		return tf.Meta(t.Ts[0].Build(r))
	case TSensAny:
		if flip(r) {
			return tf.Sensitive(typ.Any)
		}
		return tf.Sensitive()
	case TSens:
		return tf.Sensitive(t.Ts[0].Build(r))
	case TExact:
		v := t.V.Build(rand.New(rand.NewSource(int64(t.V.Size()))), false)
		if flip(r) {
			switch t.V.K {
			case KStr:
				if flip(r) {
					return tf.Enum(t.V.S)
				}
				return tf.String(t.V.S)
			case KInt:
				if flip(r) {
					return tf.IntEnum(int(t.V.I))
				}
				return tf.Integer(t.V.I, t.V.I, true)
			case KFloat:
				return tf.Float(t.V.F, t.V.F, true)
			}
		}
		return v.Type()
	case TArr:
		e := t.Ts[0].Build(r)
		if t.Ts[0].K == TAny && flip(r) {
			if t.Max == Inf {
				if t.Min == 0 {
					return tf.Array()
				}
				return tf.Array(t.Min)
			}
			return tf.Array(t.Min, t.Max)
		}
		if t.Max == Inf && flip(r) {
			if t.Min == 0 && flip(r) {
				return tf.Array(e)
			}
			return tf.Array(e, t.Min)
		}
		if flip(r) {
			return tf.Array(e, t.Max, t.Min)
		}
		return tf.Array(e, t.Min, t.Max)
	case TTuple:
		if t.Variadic {
			return tf.VariadicTuple(ts()...)
		}
		return tf.Tuple(ts()...)
	case TMap:
		k, v := t.Ts[0].Build(r), t.Ts[1].Build(r)
		if t.Ts[0].K == TAny && t.Ts[1].K == TAny && flip(r) {
			if t.Max == Inf {
				if t.Min == 0 {
					return tf.Map()
				}
				return tf.Map(t.Min)
			}
			return tf.Map(t.Min, t.Max)
		}
		if t.Max == Inf && flip(r) {
			if t.Min == 0 && flip(r) {
				return tf.Map(k, v)
			}
			return tf.Map(k, v, t.Min)
		}
		if flip(r) {
			return tf.Map(k, v, t.Max, t.Min)
		}
		return tf.Map(k, v, t.Min, t.Max)
	case TStruct:
		es := make([]dgo.StructMapEntry, len(t.Entries))
		for i, e := range t.Entries {
			var k interface{} = e.Key.Build(rand.New(rand.NewSource(1)), false)
			if flip(r) {
				k = k.(dgo.Value).Type()
			}
			var v interface{}
			if e.T.K == TExact && e.T.V.K != KType && flip(r) {
				v = e.T.V.Build(rand.New(rand.NewSource(1)), false)
			} else {
				v = e.T.Build(r)
			}
			es[i] = tf.StructMapEntry(k, v, e.Required)
		}
		return tf.StructMap(t.Additional, es...)
	case TAllOf:
		return tf.AllOf(ops()...)
	case TAnyOf:
		return tf.AnyOf(ops()...)
	case TOneOf:
		return tf.OneOf(ops()...)
	case TNot:
		return tf.Not(t.Ts[0].Build(r))
	case TFunc:
		return tf.Function(t.Ts[0].Build(r).(dgo.TupleType), t.Ts[1].Build(r).(dgo.TupleType))
	}
	panic(`unknown kind`)
}

// TCfg controls type generation
type TCfg struct {
	Depth  int
	Lang   bool // only types which the type language can express
	NoNot  bool
	NoFunc bool
	NoMeta bool
	NoOne  bool
	NoSens bool
	Keys   bool // internal: map keys
}

// Patterns used by generators
var Patterns = []string{`a`, `^a`, `b$`, `^[a-z]+$`, `\d+`, `^$`, `/`, `\\`, `"`, `(?i)abc`, `a|b`, `\A[A-Z]+\z`, `.`, `^a.*b$`, "\t", `\t`, `å`}

// CiStrs used by generators
var CiStrs = []string{`a`, `abc`, `ABC`, `key`, ``, `Aa`, `å`, `x y`, `"q"`, `zz`, "\u212a", "s", "\u017f", "\u0130", "I\u0130ß", "\ufffd"}

var tScalar = []TK{TAny, TNil, TBool, TInt, TIntR, TIntR, TFloat, TFloatR, TStr, TStrR, TStrR, TPat, TCi, TBin, TBinR, TTime, TRegexp, TErr, TMetaAny, TSensAny, TExact, TExact, TExact}
var tLangScalar = []TK{TAny, TNil, TBool, TInt, TIntR, TIntR, TFloat, TFloatR, TStr, TStrR, TStrR, TPat, TCi, TBin, TMetaAny, TSensAny, TExact, TExact, TExact}
var tCompound = []TK{TArr, TArr, TTuple, TTuple, TMap, TMap, TStruct, TStruct, TAnyOf, TAnyOf, TAllOf, TOneOf, TNot, TSens, TMeta, TExact, TFunc}

func genSize(r *rand.Rand, t *T) {
	t.Min, t.Max = 0, Inf
	switch r.Intn(4) {
	case 0:
	case 1:
		t.Min = int64(r.Intn(3))
	default:
		t.Min = int64(r.Intn(3))
		t.Max = t.Min + int64(r.Intn(3))
	}
}

// GenType generates a type
func GenType(r *rand.Rand, c *TCfg) *T {
	t := genType(r, c)
	normalize(t)
	return t
}

// normalize removes the parts which the constructors are documented to remove so that the model of a type is unique
func normalize(t *T) {
	switch t.K {
	case TNot:
		if o := t.Ts[0]; o.K == TNot {
			*t = *o.Ts[0]
		}
	case TMeta:
		if t.Ts[0].K == TAny {
			*t = T{K: TMetaAny}
		}
	case TSens:
		if t.Ts[0].K == TAny {
			*t = T{K: TSensAny}
		}
	case TIntR:
		if t.Min == math.MinInt64 && t.Max == Inf {
			*t = T{K: TInt}
		} else if t.Min == t.Max {
			*t = T{K: TExact, V: Int(t.Min)}
		}
	case TFloatR:
		if t.FMin == t.FMax {
			*t = T{K: TExact, V: Float(t.FMin)}
		}
	case TStrR:
		if t.Min == 0 && t.Max == Inf {
			*t = T{K: TStr}
		}
	case TBinR:
		if t.Min == 0 && t.Max == Inf {
			*t = T{K: TBin}
		}
	}
}

// wideType decides if a type is going to have a lot of operands, elements, or entries
func wideType(r *rand.Rand) bool { return r.Intn(70) == 0 }

func genType(r *rand.Rand, c *TCfg) *T {
	var k TK
	if c.Depth <= 0 || r.Intn(3) == 0 {
		ks := tScalar
		if c.Lang {
			ks = tLangScalar
		}
		k = ks[r.Intn(len(ks))]
	} else {
		k = tCompound[r.Intn(len(tCompound))]
	}
	d := *c
	d.Depth--
	switch {
	case k == TNot && c.NoNot, k == TFunc && c.NoFunc, (k == TMeta || k == TMetaAny) && c.NoMeta, k == TOneOf && c.NoOne, (k == TSens || k == TSensAny) && c.NoSens:
		return genType(r, c)
	}
	t := &T{K: k}
	switch k {
	case TIntR:
		pool := append(append([]int64{}, Ints...), math.MinInt64, math.MaxInt64, 1<<53+1)
		if r.Intn(2) == 0 {
			t.Min = int64(r.Intn(8)) - 3
		} else {
			t.Min = pool[r.Intn(len(pool))]
		}
		t.Incl = r.Intn(3) > 0
		switch r.Intn(4) {
		case 0:
			t.Max = Inf
		case 1:
			t.Max = pool[r.Intn(len(pool))]
		default:
			t.Max = t.Min + int64(r.Intn(4))
		}
		if t.Max < t.Min {
			t.Max, t.Min = t.Min, t.Max
		}
		if t.Min == t.Max {
			t.Incl = true
		}
		if t.Min == math.MinInt64 && t.Max == Inf {
			t.Incl = true
		}
	case TFloatR:
		pool := append(append([]float64{}, Floats...), -math.MaxFloat64)
		t.FMin, t.FMax = pool[r.Intn(len(pool))], pool[r.Intn(len(pool))]
		if r.Intn(2) == 0 {
			t.FMax = t.FMin + []float64{0, 0.5, 1, 2}[r.Intn(4)]
		}
		if t.FMax < t.FMin {
			t.FMax, t.FMin = t.FMin, t.FMax
		}
		t.Incl = r.Intn(3) > 0 || t.FMin == t.FMax
		if t.FMin == -math.MaxFloat64 && t.FMax == math.MaxFloat64 {
			return &T{K: TFloat}
		}
	case TStrR, TBinR:
		genSize(r, t)
		if t.Max != Inf && r.Intn(4) == 0 {
			t.Max += 3
		}
	case TPat:
		t.S = Patterns[r.Intn(len(Patterns))]
	case TCi:
		t.S = CiStrs[r.Intn(len(CiStrs))]
	case TMeta, TSens, TNot:
		t.Ts = []*T{GenType(r, &d)}
	case TExact:
		vc := &Cfg{Depth: c.Depth, MaxLen: 3, NoType: true, NoRegexp: c.Lang, Data: c.Lang}
		if c.NoSens {
			vc.NoSens = true
		}
		if c.Depth <= 0 {
			vc.Scalars = true
		}
		v := Gen(r, vc)
		if v.K == KNil {
			return &T{K: TNil}
		}
		if v.K == KSens { // the type of a sensitive value is not exact
			return genType(r, c)
		}
		if c.Lang && v.hasEmpty() {
			return genType(r, c)
		}
		t.V = v
	case TArr:
		t.Ts = []*T{GenType(r, &d)}
		genSize(r, t)
	case TTuple:
		n := r.Intn(4)
		if wideType(r) {
			n, d.Depth = 4+r.Intn(20), 0
		}
		if n > 0 && r.Intn(3) == 0 {
			t.Variadic = true
		}
		if c.Lang && n == 0 {
			n = 1
		}
		for i := 0; i < n; i++ {
			t.Ts = append(t.Ts, GenType(r, &d))
		}
	case TMap:
		kc := d
		if r.Intn(2) == 0 {
			kc.Depth = 0
		}
		kt := GenType(r, &kc)
		if r.Intn(3) == 0 {
			kt = &T{K: []TK{TStr, TAny, TInt}[r.Intn(3)]}
		}
		t.Ts = []*T{kt, GenType(r, &d)}
		genSize(r, t)
	case TStruct:
		t.Additional = r.Intn(3) == 0
		n := r.Intn(4)
		w := wideType(r)
		if w {
			n, d.Depth = 4+r.Intn(24), 0
		}
		for i := 0; i < n; i++ {
			key := Str(Strs[r.Intn(len(Strs))])
			if r.Intn(2) == 0 {
				key = Str([]string{`a`, `b`, `c`}[r.Intn(3)])
			}
			if w && r.Intn(3) > 0 {
				key = Str("k" + strconv.Itoa(r.Intn(50)))
			}
			switch r.Intn(12) {
			case 0:
				key = Int(Ints[r.Intn(8)])
			case 1:
				key = Bool(r.Intn(2) == 0)
			case 2:
				key = Float(1.5)
			}
			dup := false
			for _, e := range t.Entries {
				dup = dup || Eq(e.Key, key)
			}
			if !dup {
				t.Entries = append(t.Entries, StructEntry{Key: key, T: GenType(r, &d), Required: r.Intn(2) == 0})
			}
		}
	case TAllOf, TAnyOf, TOneOf:
		n := 2 + r.Intn(2)
		if wideType(r) {
			n, d.Depth = 4+r.Intn(12), 0
		}
		for i := 0; i < n; i++ {
			switch {
			case i > 0 && r.Intn(3) == 0: // overlapping operands
				t.Ts = append(t.Ts, nearType(r, t.Ts[i-1], &d))
			default:
				t.Ts = append(t.Ts, GenType(r, &d))
			}
		}
	case TFunc:
		d.Depth = c.Depth - 1
		mk := func(variadic bool) *T {
			x := &T{K: TTuple}
			n := r.Intn(3)
			for i := 0; i < n; i++ {
				x.Ts = append(x.Ts, GenType(r, &d))
			}
			x.Variadic = variadic && n > 0 && r.Intn(3) == 0
			return x
		}
		t.Ts = []*T{mk(true), mk(false)}
	}
	return t
}

func (v *V) hasEmpty() bool {
	if v.K == KArr && len(v.E) == 0 {
		return true
	}
	for _, e := range v.E {
		if e.hasEmpty() {
			return true
		}
	}
	for _, e := range v.Keys {
		if e.hasEmpty() {
			return true
		}
	}
	return false
}

// NearType returns a type that is similar to the given type
func NearType(r *rand.Rand, t *T, c *TCfg) *T { return nearType(r, t, c) }

func nearType(r *rand.Rand, t *T, c *TCfg) *T {
	n := *t
	n.Ts = append([]*T{}, t.Ts...)
	n.Entries = append([]StructEntry{}, t.Entries...)
	d := *c
	d.Depth = 0
	x := r.Intn(10)
	switch {
	case x == 0:
		return &n
	case x == 1 && !c.NoNot && t.K != TNot:
		return &T{K: TNot, Ts: []*T{&n}}
	case x == 2:
		o := GenType(r, &d)
		ks := []TK{TAnyOf, TAllOf, TOneOf}
		if c.NoOne {
			ks = ks[:2]
		}
		ts := []*T{&n, o}
		if r.Intn(2) == 0 {
			ts = []*T{o, &n}
		}
		return &T{K: ks[r.Intn(len(ks))], Ts: ts}
	case x == 3 && len(t.Ts) > 0 && (t.K == TAnyOf || t.K == TAllOf || t.K == TOneOf):
		r.Shuffle(len(n.Ts), func(i, j int) { n.Ts[i], n.Ts[j] = n.Ts[j], n.Ts[i] })
		return &n
	case x == 4 && t.K == TExact: // generalize
		return generalize(r, t.V, c)
	}
	switch t.K {
	case TIntR, TStrR, TBinR, TArr, TMap:
		if t.K != TArr && t.K != TMap || r.Intn(3) == 0 {
			switch r.Intn(4) {
			case 0:
				if n.Min > math.MinInt64 && (t.K == TIntR || n.Min > 0) {
					n.Min--
				}
			case 1:
				if n.Min < n.Max-1 {
					n.Min++
				}
			case 2:
				if n.Max < Inf {
					n.Max++
				}
			default:
				if n.Max != Inf && n.Max > n.Min+1 {
					n.Max--
				}
			}
			if t.K == TIntR && r.Intn(3) == 0 && n.Min < n.Max && !(n.Min == math.MinInt64 && n.Max == Inf) {
				n.Incl = !n.Incl
			}
			normalize(&n)
			return &n
		}
	case TFloatR:
		if r.Intn(2) == 0 {
			n.FMax += 0.5
		} else {
			n.Incl = !n.Incl
		}
		if n.FMin >= n.FMax || n.FMax > math.MaxFloat64 {
			return t
		}
		return &n
	case TExact:
		if t.V.K == KNil {
			return t
		}
		return generalize(r, t.V, c)
	case TTuple:
		if r.Intn(4) == 0 && len(n.Ts) > 0 {
			n.Variadic = !n.Variadic
			return &n
		}
		if r.Intn(4) == 0 {
			n.Ts = append(n.Ts, GenType(r, &d))
			return &n
		}
	case TStruct:
		switch r.Intn(4) {
		case 0:
			n.Additional = !n.Additional
			return &n
		case 1:
			if len(n.Entries) > 0 {
				i := r.Intn(len(n.Entries))
				n.Entries[i].Required = !n.Entries[i].Required
				return &n
			}
		case 2:
			if len(n.Entries) > 0 {
				i := r.Intn(len(n.Entries))
				n.Entries = append(n.Entries[:i:i], n.Entries[i+1:]...)
				return &n
			}
		}
		if len(n.Entries) > 0 {
			i := r.Intn(len(n.Entries))
			n.Entries[i].T = nearType(r, n.Entries[i].T, c)
			return &n
		}
	}
	if len(n.Ts) > 0 && t.K != TFunc {
		i := r.Intn(len(n.Ts))
		n.Ts[i] = nearType(r, n.Ts[i], c)
		normalize(&n)
		return &n
	}
	if r.Intn(2) == 0 {
		return &n
	}
	return GenType(r, c)
}

// WideType returns a struct, a tuple, or an operator with up to 24 parts, and a variant of it with some edits
func WideType(r *rand.Rand) (*T, *T) {
	d := &TCfg{}
	n := r.Intn(24)
	a := &T{K: []TK{TStruct, TStruct, TTuple, TAnyOf, TAllOf, TOneOf}[r.Intn(6)]}
	part := func() *T {
		if r.Intn(3) == 0 {
			return GenType(r, d)
		}
		switch r.Intn(6) {
		case 0:
			return &T{K: TExact, V: Int(int64(r.Intn(40)))}
		case 1:
			return &T{K: TExact, V: Str("v" + strconv.Itoa(r.Intn(40)))}
		case 2:
			m := int64(r.Intn(40))
			return &T{K: TIntR, Min: m, Max: m + 1 + int64(r.Intn(5)), Incl: true}
		case 3:
			return &T{K: TInt}
		}
		return &T{K: TStr}
	}
	entry := func(i int) StructEntry {
		return StructEntry{Key: Str("k" + strconv.Itoa(i)), T: part(), Required: r.Intn(2) == 0}
	}
	if a.K == TStruct {
		for i := 0; i < n; i++ {
			a.Entries = append(a.Entries, entry(i))
		}
		a.Additional = r.Intn(2) == 0
	} else {
		if a.K != TTuple {
			n += 2
		}
		for i := 0; i < n; i++ {
			a.Ts = append(a.Ts, part())
		}
		a.Variadic = a.K == TTuple && n > 0 && r.Intn(3) == 0
	}
	b := *a
	b.Ts = append([]*T{}, a.Ts...)
	b.Entries = append([]StructEntry{}, a.Entries...)
	for k := r.Intn(4); k >= 0; k-- {
		switch {
		case a.K == TStruct && r.Intn(6) == 0:
			b.Additional = !b.Additional
		case a.K == TStruct && (len(b.Entries) == 0 || r.Intn(5) == 0):
			b.Entries = append(b.Entries, entry(30+k))
		case a.K == TStruct:
			i := r.Intn(len(b.Entries))
			switch r.Intn(4) {
			case 0:
				b.Entries = append(b.Entries[:i:i], b.Entries[i+1:]...)
			case 1:
				b.Entries[i].Required = !b.Entries[i].Required
			case 2:
				b.Entries[i].T = nearType(r, b.Entries[i].T, d)
			default:
				j := r.Intn(len(b.Entries))
				b.Entries[i], b.Entries[j] = b.Entries[j], b.Entries[i]
			}
		case len(b.Ts) < 3 || r.Intn(4) == 0:
			i := r.Intn(len(b.Ts) + 1)
			b.Ts = append(b.Ts[:i:i], append([]*T{part()}, b.Ts[i:]...)...)
		default:
			i := r.Intn(len(b.Ts))
			switch r.Intn(4) {
			case 0:
				b.Ts = append(b.Ts[:i:i], b.Ts[i+1:]...)
			case 1:
				b.Ts[i] = nearType(r, b.Ts[i], d)
			case 2:
				b.Ts[i] = part()
			default:
				j := r.Intn(len(b.Ts))
				b.Ts[i], b.Ts[j] = b.Ts[j], b.Ts[i]
			}
			if a.K == TTuple && r.Intn(6) == 0 {
				b.Variadic = !b.Variadic
			}
		}
	}
	return a, &b
}

// TypeOfValue returns a type, more or less general, that accepts the value
func TypeOfValue(r *rand.Rand, v *V, c *TCfg) *T { return generalize(r, v, c) }

func generalize(r *rand.Rand, v *V, c *TCfg) *T {
	if v.K == KNil {
		return &T{K: TNil}
	}
	exactOK := v.K != KSens && v.K != KType && !hasKind(v, KType, KSens) && !(c.Lang && (hasKind(v, KBin, KTime, KRegexp, KErr) || v.hasEmpty()))
	if exactOK && r.Intn(4) == 0 {
		return &T{K: TExact, V: v}
	}
	if r.Intn(12) == 0 {
		return &T{K: TAny}
	}
	size := func(n int) *T {
		t := &T{Min: int64(n - r.Intn(2)), Max: int64(n + r.Intn(2))}
		if t.Min < 0 {
			t.Min = 0
		}
		if r.Intn(3) == 0 {
			t.Max = Inf
		}
		return t
	}
	switch v.K {
	case KBool:
		return &T{K: TBool}
	case KInt:
		if r.Intn(2) == 0 || v.I < math.MinInt64+10 || v.I > math.MaxInt64-10 {
			return &T{K: TInt}
		}
		t := &T{K: TIntR, Min: v.I - int64(r.Intn(3)), Max: v.I + 1 + int64(r.Intn(3)), Incl: r.Intn(2) == 0}
		return t
	case KFloat:
		if r.Intn(2) == 0 || math.Abs(v.F) > 1e15 {
			return &T{K: TFloat}
		}
		return &T{K: TFloatR, FMin: v.F - float64(r.Intn(2)), FMax: v.F + 1, Incl: r.Intn(2) == 0}
	case KStr:
		switch r.Intn(4) {
		case 0:
			t := size(len(v.S))
			t.K = TStrR
			normalize(t)
			return t
		case 1:
			return &T{K: TCi, S: v.S}
		case 2:
			return &T{K: TPat, S: regexp.QuoteMeta(v.S)}
		}
		return &T{K: TStr}
	case KBin:
		if r.Intn(2) == 0 && !c.Lang {
			t := size(len(v.Bin))
			t.K = TBinR
			normalize(t)
			return t
		}
		return &T{K: TBin}
	case KTime:
		if !c.Lang {
			return &T{K: TTime}
		}
	case KRegexp:
		if !c.Lang {
			return &T{K: TRegexp}
		}
	case KErr:
		if !c.Lang {
			return &T{K: TErr}
		}
	case KSens:
		if !c.NoSens {
			t := &T{K: TSens, Ts: []*T{generalize(r, v.E[0], c)}}
			normalize(t)
			return t
		}
	case KType:
		return &T{K: TMetaAny}
	case KArr:
		if r.Intn(2) == 0 && len(v.E) > 0 {
			t := &T{K: TTuple}
			for _, e := range v.E {
				t.Ts = append(t.Ts, generalize(r, e, c))
			}
			if r.Intn(4) == 0 {
				t.Variadic = true
			}
			return t
		}
		t := size(len(v.E))
		t.K = TArr
		t.Ts = []*T{anyOfTypes(r, v.E, c)}
		return t
	case KMap:
		ok := true
		for _, k := range v.Keys {
			ok = ok && (k.K == KStr || k.K == KInt || k.K == KBool || k.K == KFloat)
		}
		if ok && r.Intn(2) == 0 {
			t := &T{K: TStruct, Additional: r.Intn(3) == 0}
			for i, k := range v.Keys {
				if t.Additional && r.Intn(3) == 0 {
					continue
				}
				t.Entries = append(t.Entries, StructEntry{Key: k, T: generalize(r, v.E[i], c), Required: r.Intn(2) == 0})
			}
			if r.Intn(3) == 0 {
				k := Str(`optional key`)
				if v.Find(k) < 0 {
					t.Entries = append(t.Entries, StructEntry{Key: k, T: &T{K: TInt}})
				}
			}
			return t
		}
		t := size(len(v.E))
		t.K = TMap
		t.Ts = []*T{anyOfTypes(r, v.Keys, c), anyOfTypes(r, v.E, c)}
		return t
	}
	return &T{K: TAny}
}

func anyOfTypes(r *rand.Rand, vs []*V, c *TCfg) *T {
	if len(vs) == 0 {
		d := *c
		d.Depth = 0
		return GenType(r, &d)
	}
	if len(vs) == 1 {
		return generalize(r, vs[0], c)
	}
	t := &T{K: TAnyOf}
	for _, v := range vs {
		t.Ts = append(t.Ts, generalize(r, v, c))
	}
	return t
}

func hasKind(v *V, ks ...Kind) bool {
	for _, k := range ks {
		if v.K == k {
			return true
		}
	}
	for _, e := range v.E {
		if hasKind(e, ks...) {
			return true
		}
	}
	for _, e := range v.Keys {
		if hasKind(e, ks...) {
			return true
		}
	}
	return false
}

// GenFor generates a value that is likely to be an instance of the type or just outside of it
func (t *T) GenFor(r *rand.Rand) *V {
	if r.Intn(25) == 0 {
		return Gen(r, &Cfg{Depth: 1, MaxLen: 2})
	}
	size := func() int {
		n := int(t.Min) + r.Intn(4) - 1
		if t.Max != Inf && r.Intn(2) == 0 {
			n = int(t.Max) + r.Intn(3) - 1
		}
		if n < 0 {
			n = 0
		}
		if n > 12 {
			n = 12
		}
		return n
	}
	str := func(n int) *V {
		s := ``
		for len(s) < n {
			if r.Intn(10) == 0 {
				s += `å`
			} else {
				s += string(rune('a' + r.Intn(3)))
			}
		}
		return Str(s)
	}
	switch t.K {
	case TNil:
		return Nil()
	case TBool:
		return Bool(r.Intn(2) == 0)
	case TInt:
		if r.Intn(3) == 0 {
			return Int(BigInts[r.Intn(len(BigInts))])
		}
		return Int(Ints[r.Intn(len(Ints))])
	case TIntR:
		switch r.Intn(4) {
		case 0:
			return Int(t.Min + int64(r.Intn(3)) - 1)
		case 1:
			return Int(t.Max + int64(r.Intn(3)) - 1)
		default:
			if d := t.Max - t.Min; d > 0 && d < 1<<40 {
				return Int(t.Min + r.Int63n(d+1))
			}
			return Int(t.Min)
		}
	case TFloat:
		return Float(Floats[r.Intn(len(Floats))])
	case TFloatR:
		switch r.Intn(5) {
		case 0:
			return Float(t.FMin)
		case 1:
			return Float(t.FMax)
		case 2:
			if x := math.Nextafter(t.FMin, math.Inf(-1)); !math.IsInf(x, 0) {
				return Float(x)
			}
			return Float(t.FMin)
		case 3:
			return Float(math.Nextafter(t.FMax, math.Inf([]int{-1, 1}[r.Intn(2)]))).finite()
		default:
			return Float(t.FMin/2 + t.FMax/2)
		}
	case TStr:
		return Str(Strs[r.Intn(len(Strs))])
	case TStrR:
		return str(size())
	case TPat, TCi:
		if t.K == TCi {
			switch r.Intn(4) {
			case 0:
				return Str(t.S)
			case 1:
				return Str(strings.ToUpper(t.S))
			case 2:
				return Str(strings.ToLower(t.S))
			}
			return Str(CiStrs[r.Intn(len(CiStrs))])
		}
		if r.Intn(2) == 0 {
			return Str([]string{`a`, `ab`, `b`, `abc`, `ABC`, `12`, ``, `/`, `\`, `"`, "\t", `å`, `t`}[r.Intn(13)])
		}
		return Str(Strs[r.Intn(len(Strs))])
	case TBin:
		return Bin([]byte{1, 2})
	case TBinR:
		return Bin(make([]byte, size()))
	case TTime:
		return Time(Times[r.Intn(len(Times))])
	case TRegexp:
		return Regexp(Regexps[r.Intn(len(Regexps))])
	case TErr:
		return Err(Strs[1+r.Intn(10)])
	case TMetaAny, TMeta:
		return Type(Types[r.Intn(len(Types))])
	case TSensAny:
		return Sens(GenScalar(r, &Cfg{}))
	case TSens:
		return Sens(t.Ts[0].GenFor(r))
	case TExact:
		if r.Intn(3) > 0 {
			return t.V
		}
		return Tweak(r, t.V)
	case TArr:
		v := &V{K: KArr}
		for n := size(); n > 0; n-- {
			v.E = append(v.E, t.Ts[0].GenFor(r))
		}
		return v
	case TTuple:
		v := &V{K: KArr}
		n := len(t.Ts)
		if r.Intn(5) == 0 {
			n += r.Intn(3) - 1
		}
		if t.Variadic {
			n += r.Intn(4) - 1
		}
		for i := 0; i < n; i++ {
			if i < len(t.Ts) {
				v.E = append(v.E, t.Ts[i].GenFor(r))
			} else if len(t.Ts) > 0 {
				v.E = append(v.E, t.Ts[len(t.Ts)-1].GenFor(r))
			} else {
				v.E = append(v.E, Int(1))
			}
		}
		return v
	case TMap:
		v := &V{K: KMap}
		for n := size(); n > 0; n-- {
			k := t.Ts[0].GenFor(r)
			if v.Find(k) < 0 {
				v.Keys = append(v.Keys, k)
				v.E = append(v.E, t.Ts[1].GenFor(r))
			}
		}
		return v
	case TStruct:
		v := &V{K: KMap}
		es := append([]StructEntry{}, t.Entries...)
		r.Shuffle(len(es), func(i, j int) { es[i], es[j] = es[j], es[i] })
		one := -1 // of many entries, at most one that is required is left out
		if len(es) > 4 {
			one = r.Intn(2 * len(es))
		}
		for i, e := range es {
			if len(es) > 4 && i == one || len(es) <= 4 && r.Intn(6) == 0 || !e.Required && r.Intn(3) == 0 {
				continue
			}
			v.Keys = append(v.Keys, e.Key)
			v.E = append(v.E, e.T.GenFor(r))
		}
		if r.Intn(5) == 0 || t.Additional && r.Intn(2) == 0 {
			k := GenKey(r, &Cfg{})
			if v.Find(k) < 0 {
				v.Keys = append(v.Keys, k)
				v.E = append(v.E, GenScalar(r, &Cfg{}))
			}
		}
		return v
	case TAllOf, TAnyOf, TOneOf:
		if len(t.Ts) > 0 {
			return t.Ts[r.Intn(len(t.Ts))].GenFor(r)
		}
	case TNot:
		return t.Ts[0].GenFor(r)
	}
	return Gen(r, &Cfg{Depth: 1, MaxLen: 3})
}

func (v *V) finite() *V {
	if math.IsInf(v.F, 0) {
		return Float(math.MaxFloat64)
	}
	return v
}

// Tweak returns a value that differs from the given value in one place
func Tweak(r *rand.Rand, v *V) *V {
	n := *v
	n.E = append([]*V{}, v.E...)
	n.Keys = append([]*V{}, v.Keys...)
	switch v.K {
	case KBool:
		n.B = !n.B
	case KInt:
		switch r.Intn(3) {
		case 0:
			n.I++
		case 1:
			n.I ^= 1 << uint(r.Intn(63))
		default:
			return Float(float64(v.I))
		}
	case KFloat:
		x := math.Nextafter(v.F, 1e300)
		if r.Intn(3) == 0 && v.F == math.Trunc(v.F) && math.Abs(v.F) < 1e15 {
			return Int(int64(v.F))
		}
		n.F = x
	case KStr:
		switch r.Intn(3) {
		case 0:
			n.S += `x`
		case 1:
			if len(n.S) > 0 {
				b := []byte(n.S)
				b[r.Intn(len(b))] ^= 1
				n.S = string(b)
			} else {
				n.S = `y`
			}
		default:
			return Regexp(regexp.QuoteMeta(strings.ToValidUTF8(v.S, `?`)))
		}
	case KBin:
		n.Bin = append(append([]byte{}, v.Bin...), 7)
		if len(v.Bin) > 0 && r.Intn(2) == 0 {
			n.Bin = n.Bin[:len(v.Bin)-1]
		}
	case KTime:
		n.T = v.T.Add(1)
	case KRegexp:
		n.S = v.S + `y`
	case KErr:
		n.S = v.S + `z`
	case KSens:
		if r.Intn(3) == 0 {
			return v.E[0]
		}
		n.E[0] = Tweak(r, v.E[0])
	case KArr:
		switch {
		case len(n.E) == 0 || r.Intn(4) == 0:
			n.E = append(n.E, Nil())
		case r.Intn(4) == 0:
			n.E = n.E[:len(n.E)-1]
		case len(n.E) > 1 && r.Intn(3) == 0 && !Eq(n.E[0], n.E[1]):
			n.E[0], n.E[1] = n.E[1], n.E[0]
		default:
			i := r.Intn(len(n.E))
			n.E[i] = Tweak(r, n.E[i])
		}
	case KMap:
		switch {
		case len(n.E) == 0 || r.Intn(4) == 0:
			k := Str(`tweaked`)
			if v.Find(k) < 0 {
				n.Keys = append(n.Keys, k)
				n.E = append(n.E, Nil())
			}
		case r.Intn(4) == 0:
			i := r.Intn(len(n.E))
			n.Keys = append(n.Keys[:i], n.Keys[i+1:]...)
			n.E = append(n.E[:i], n.E[i+1:]...)
		default:
			i := r.Intn(len(n.E))
			n.E[i] = Tweak(r, n.E[i])
		}
	default:
		return Bool(true)
	}
	return &n
}
