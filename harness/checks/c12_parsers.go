package checks

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"runtime"
	"strconv"
	"strings"
	"sync"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/streamer/pcore"
	"github.com/lyraproj/dgo/tf"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

func init() {
	mon.Register(&mon.Prop{ID: `C12`, Scale: 10, Rule: `a text that was parsed; distinct by language and text`, Run: runC12})
}

// language is a parser under test. The parse function is given the adder of a fresh alias map.
type language struct {
	name  string
	parse func(a dgo.AliasAdder, s string) dgo.Value
}

var languages = []*language{
	{`dgo`, func(a dgo.AliasAdder, s string) dgo.Value { return tf.ParseFile(a, ``, s) }},
	{`pcore`, func(a dgo.AliasAdder, s string) dgo.Value { return pcore.ParseFile(a, ``, s) }},
	{`json`, func(a dgo.AliasAdder, s string) dgo.Value {
		return streamer.UnmarshalJSON([]byte(s), streamer.DgoDialect())
	}},
	{`pcore json`, func(a dgo.AliasAdder, s string) dgo.Value { return streamer.UnmarshalJSON([]byte(s), pcore.Dialect()) }},
}

var internalErrors = []string{`runtime error`, `interface conversion`, `reflect:`, `reflect.`, `nil pointer`, `index out of range`, `slice bounds`, `goroutine`, `%!`}

type outcome struct {
	v   dgo.Value
	err string
}

func (o *outcome) String() string {
	if o.err != `` {
		return `error: ` + o.err
	}
	return fmt.Sprintf(`%T %s`, o.v, o.v)
}

// tryParse parses the text and checks that the outcome is a value or a proper error
func tryParse(c *mon.Ctx, what string, l *language, parse func() dgo.Value, s string) *outcome {
	o := &outcome{}
	e := mon.Catch(func() { o.v = parse() })
	if e == nil {
		if o.v == nil || reflect.ValueOf(o.v).Kind() == reflect.Ptr && reflect.ValueOf(o.v).IsNil() {
			c.Fail(what+`: `+l.name+`: nothing is returned`, "%q", s)
		}
		return o
	}
	if re, ok := e.(runtime.Error); ok {
		c.Fail(what+`: `+l.name+`: internal error: `+mon.PanicClass(re), "%q: %v", s, e)
	}
	err, ok := e.(error)
	if !ok {
		c.Fail(what+`: `+l.name+`: the failure is not an error`, "%q: %v (%T)", s, e, e)
	}
	o.err = err.Error()
	if strings.TrimSpace(o.err) == `` || strings.HasPrefix(o.err, `:`) {
		c.Fail(what+`: `+l.name+`: the error has no message`, "%q: %q", s, o.err)
	}
	for _, x := range internalErrors {
		if strings.Contains(o.err, x) && !strings.Contains(s, x) {
			c.Fail(what+`: `+l.name+`: internal error: `+x, "%q: %s", s, o.err)
		}
	}
	return o
}

// parseTotal parses the text twice with a fresh alias map, and once without one
func parseTotal(c *mon.Ctx, what string, l *language, s string) *outcome {
	before := tf.DefaultAliases()
	c.Count(`texts: `+l.name, 1)
	c.Seen(l.name + s)
	var os [2]*outcome
	var names [2]string
	for i := range os {
		am := tf.BuiltInAliases().Collect(func(a dgo.AliasAdder) { a.Add(tf.ParseType(`map[string]int`), vf.String(`counters`)) })
		am2 := am
		e := mon.Catch(func() {
			am2 = am.Collect(func(a dgo.AliasAdder) { os[i] = tryParse(c, what, l, func() dgo.Value { return l.parse(a, s) }, s) })
		})
		if e != nil { // in the update of the map
			err, ok := e.(error)
			if _, rt := e.(runtime.Error); rt || !ok {
				c.Fail(what+`: `+l.name+`: adding the declared aliases fails with an internal error: `+mon.PanicClass(e), "%q: %v", s, e)
			}
			names[i] = err.Error()
		}
		if t := am.GetType(vf.String(`counters`)); t == nil || t.String() != `map[string]int` || am.GetType(vf.String(`x`)) != nil {
			c.Fail(what+`: `+l.name+`: the original alias map is modified`, "%q", s)
		}
		_ = am2
	}
	if os[0].err != os[1].err || names[0] != names[1] {
		c.Fail(what+`: `+l.name+`: another outcome when parsed again`, "%q\n%s\n%s", s, os[0], os[1])
	}
	if os[0].v != nil {
		c.Count(`accepted: `+l.name, 1)
		if a, b := fmt.Sprintf(`%T`, os[0].v), fmt.Sprintf(`%T`, os[1].v); a != b {
			c.Fail(what+`: `+l.name+`: another outcome when parsed again`, "%q\n%s\n%s", s, a, b)
		}
	} else {
		c.Count(`refused: `+l.name, 1)
	}
	// without alias map
	if l == languages[0] || l == languages[1] {
		o := tryParse(c, what+` without alias map`, l, func() dgo.Value { return l.parse(nil, s) }, s)
		if (o.err == ``) != (os[0].err == ``) && !strings.Contains(s, `ounters`) && names[0] == `` {
			c.Fail(what+`: `+l.name+`: another outcome without alias map`, "%q\n%s\n%s", s, os[0], o)
		}
	}
	if tf.DefaultAliases() != before {
		c.Fail(what+`: `+l.name+`: the default aliases have been modified`, "%q", s)
	}
	return os[0]
}

var dgoToks = []string{`any`, `bool`, `int`, `float`, `dgo`, `binary`, `true`, `false`, `nil`, `map`, `map`, `type`, `string`, `sensitive`, `func`, `func`, `data`, `richdata`, `counters`, `foo`, `x`, `dgoverif.text`, `dgoverif`, `{`, `}`, `[`, `]`, `(`, `)`, `<`, `>`,
	`{`, `}`, `[`, `]`, `(`, `)`, `[]`, `{}`, `()`, `|`, `&`, `^`, `!`, `~`, `?`, `:`, `,`, `,`, `=`, `..`, `...`, `.`, `0`, `1`, `3`, `-1`, `+2`, `0x1f`, `0x`, `010`, `08`, `9223372036854775807`, `9223372036854775808`, `-9223372036854775808`, `1.5`, `1e10`, `1e999`, `-1.5e-3`,
	`1.`, `1e`, `"a"`, `"\n"`, `"\x41"`, `"`, "`", "`raw`", `/a/`, `/[/`, `/`, `/\//`, `'`, `#`, ` `, "\n", "\r", "\t", "\x00", "\x01", "\x02", "\x03", "\x04", "\x05", "\x06", "\x07", "\x08", "é", "\xff", "日", "\u2028", "=>", ";", "@", "-", "+", "\\"}

var pcoreToks = []string{`Any`, `Boolean`, `False`, `Timestamp`, `True`, `Undef`, `Array`, `Binary`, `Callable`, `Callable`, `Float`, `Enum`, `Hash`, `Integer`, `Number`, `NotUndef`, `Optional`, `Pattern`, `Regexp`, `Sensitive`, `String`, `Struct`, `Tuple`, `Tuple`, `Type`, `Variant`,
	`Foo`, `Foo::Bar`, `Dgoverif::Text`, `A::`, `::`, `a::b`, `x`, `type`, `type X =`, `true`, `false`, `undef`, `default`, `default`, `[`, `]`, `[`, `]`, `[]`, `{`, `}`, `(`, `)`, `=>`, `=>`, `=`, `,`, `,`, `0`, `1`, `3`, `-1`, `+2`, `0x1f`, `9223372036854775808`, `1.5`, `1e10`, `'a'`, `"b"`, `''`, `'`, `"`,
	`"\n"`, `/a/`, `/[/`, `/`, `#c`, "#c\n", ` `, "\n", "\r", "\x00", "\x01", "\x02", "\x03", "\x04", "\x05", "\x06", "\x07", "é", "\xff", "|", "&", "-", "\\", ":", "_", "."}

var jsonToks = []string{`{`, `}`, `[`, `]`, `{`, `}`, `[`, `]`, `,`, `,`, `:`, `:`, `"a"`, `"__type"`, `"__value"`, `"__ref"`, `"__ptype"`, `"__pvalue"`, `"__pref"`, `"map"`, `"sensitive"`, `"binary"`, `"time"`, `"alias"`, `"Hash"`, `"Sensitive"`, `"Binary"`, `"Timestamp"`, `0`, `1`, `2`, `-1`, `1.5`, `1e400`,
	`9223372036854775808`, `true`, `false`, `null`, `"\u00"`, `"\ud800"`, `"`, ` `, "\n", "\x00", "é", "\xff", `nul`, `{}`, `[]`, `""`, `{"__ref":0}`, `{"__ref":1}`, `{"__type":"map","__value":[`, `]}`, `}}`, `"dgoverif.text"`, `"[]string"`}

// oddRunes are runes at the borders of classes of runes, and bytes that are no runes
var oddRunes = []string{"\x7f", "\u0080", "\u0081", "\u00a0", "\u00aa", "\u00ff", "\u0100", "\u017f", "\u07ff", "\u0800", "\u212a", "\u2028", "\u2029", "\ud7ff", "\ue000", "\ufeff", "\ufffd", "\ufffe", "\uffff",
	"\U00010000", "\U0001d7d8", "\U0010ffff", "\x80", "\xc0", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xf4\x90\x80\x80", "\xf0\x9f", "\u0660", "\u0130", "\u0300", "\u200d"}

func soup(r *rand.Rand, toks []string, n int) string {
	var sb strings.Builder
	sep := []string{``, ` `}[r.Intn(2)]
	for ; n > 0; n-- {
		sb.WriteString(toks[r.Intn(len(toks))])
		sb.WriteString(sep)
	}
	return sb.String()
}

// corrupt makes small changes to a text
func corrupt(r *rand.Rand, s string, toks []string) string {
	for n := 1 + r.Intn(3); n > 0; n-- {
		if len(s) == 0 {
			return s
		}
		i := r.Intn(len(s))
		j := i + r.Intn(len(s)-i)
		if j > i+12 {
			j = i + r.Intn(12)
		}
		switch r.Intn(8) {
		case 0:
			s = s[:i]
		case 1:
			s = s[:i] + s[j:]
		case 2:
			s = s[:j] + s[i:]
		case 3, 4:
			s = s[:i] + toks[r.Intn(len(toks))] + s[i:]
		case 5:
			s = s[:i] + toks[r.Intn(len(toks))] + s[j:]
		case 6:
			s = s[:i] + string([]byte{byte(r.Intn(256))}) + s[i+1:]
		default:
			k := r.Intn(len(s))
			b := []byte(s)
			b[i], b[k] = b[k], b[i]
			s = string(b)
		}
	}
	return s
}

// markers generates a document in which the reserved keys are used in all kinds of ways
func markers(r *rand.Rand, depth int, p string) interface{} {
	if depth == 0 || r.Intn(4) == 0 {
		return []interface{}{nil, true, 0, 1, 2, -1, 1.5, `a`, `2020-01-01T00:00:00Z`, `AQI=`, `[]string`, `Array[String]`, `map`, `x`, ``, `long string that exceeds the dedup threshold`, map[string]interface{}{p + `ref`: r.Intn(6)}}[r.Intn(17)]
	}
	k := func() string {
		return []string{p + `type`, p + `type`, p + `value`, p + `value`, p + `ref`, `a`, `b`, ``}[r.Intn(8)]
	}
	switch r.Intn(4) {
	case 0:
		a := make([]interface{}, r.Intn(4))
		for i := range a {
			a[i] = markers(r, depth-1, p)
		}
		return a
	case 1:
		m := map[string]interface{}{}
		for n := r.Intn(4); n > 0; n-- {
			m[k()] = markers(r, depth-1, p)
		}
		return m
	default:
		tp := []interface{}{`map`, `sensitive`, `binary`, `time`, `alias`, `Hash`, `Sensitive`, `Binary`, `Timestamp`, `Alias`, `dgoverif.text`, `dgoverif.list`, `dgoverif.box`, `[]string`, `nosuch`, `x=[]x`, `{`, 1, nil}[r.Intn(19)]
		m := map[string]interface{}{p + `type`: tp}
		if r.Intn(6) > 0 {
			m[p+`value`] = markers(r, depth-1, p)
		}
		if r.Intn(4) == 0 {
			m[k()] = markers(r, depth-1, p)
		}
		return m
	}
}

var parserTypes sync.Once

// namedBox is a named value that can hold itself. Identity is all that it compares, hashes, and prints.
type namedBox struct{ v dgo.Value }

func (v *namedBox) String() string            { return `box` }
func (v *namedBox) Type() dgo.Type            { return tf.ExactNamed(tf.Named(`dgoverif.box`), v) }
func (v *namedBox) HashCode() int             { return 7 }
func (v *namedBox) Equals(o interface{}) bool { return o == dgo.Value(v) }

func runC12(c *mon.Ctx) {
	parserTypes.Do(func() {
		registerNamed()
		tf.NewNamed(`dgoverif.box`, func(a dgo.Value) dgo.Value { return &namedBox{a} },
			func(v dgo.Value) dgo.Value { return v.(*namedBox).v }, reflect.TypeOf(&namedBox{}), nil, nil)
	})
	toks := [][]string{dgoToks, pcoreToks, jsonToks, jsonToks}
	c.Run(`bytes`, c.N(8000, 300000), func(r *rand.Rand, i int) {
		k := r.Intn(len(languages))
		b := make([]byte, r.Intn(12))
		for j := range b {
			switch r.Intn(3) {
			case 0:
				b[j] = byte(r.Intn(256))
			case 1:
				b[j] = byte(r.Intn(128))
			default:
				t := toks[k][r.Intn(len(toks[k]))]
				b[j] = t[0]
			}
		}
		parseTotal(c, `bytes`, languages[k], string(b))
	})
	c.Run(`pairs`, c.N(2000, 40000), func(r *rand.Rand, i int) {
		// all texts of one and two tokens, then random triplets
		for k := 0; k < 2; k++ {
			t := toks[k]
			n := len(t)
			for m := 0; m < 8; m++ {
				x := i*8 + m
				s := t[x%n]
				if x >= n {
					s += t[x/n%n]
				}
				if x >= n*n {
					s += t[r.Intn(n)]
				}
				o := parseTotal(c, `pair`, languages[k], s)
				c.Count(`token pairs`, 1)
				if i < 2 && m == 0 {
					c.Sample(fmt.Sprintf("%s %q: %s", languages[k].name, s, o))
				}
			}
		}
	})
	c.Run(`runes`, c.N(700, 4000), func(r *rand.Rand, i int) {
		// every token followed by an unusual rune, and that by a token
		x := string(rune(i))
		if i >= 0x180 {
			x = oddRunes[r.Intn(len(oddRunes))]
		}
		for k := range languages {
			for _, t := range toks[k] {
				s := t + x
				if r.Intn(2) == 0 {
					s += toks[k][r.Intn(len(toks[k]))]
				}
				if r.Intn(4) == 0 {
					s = toks[k][r.Intn(len(toks[k]))] + s
				}
				parseTotal(c, `runes`, languages[k], s)
			}
		}
	})
	c.Run(`soup`, c.N(16000, 600000), func(r *rand.Rand, i int) {
		k := r.Intn(len(languages))
		parseTotal(c, `tokens`, languages[k], soup(r, toks[k], 1+r.Intn(12)))
	})
	c.Run(`mutate`, c.N(16000, 600000), func(r *rand.Rand, i int) {
		m := unlistedSyntax(r, &gen.TCfg{Depth: r.Intn(4), Lang: true, NoOne: i%2 == 1})
		k := 0
		s, ok := ``, false
		if i%2 == 1 {
			if s, ok = gen.Pcore(r, m); ok {
				k = 1
			}
		}
		if !ok {
			sx := &gen.Syntax{R: r}
			if as := share(r, m); len(as) > 0 {
				sx.Names = map[*gen.T]string{as[0]: `alpha`}
			}
			s = sx.Render(m)
		}
		parseTotal(c, `mutated expression`, languages[k], corrupt(r, s, toks[k]))
	})
	c.Run(`truncate`, c.N(400, 20000), func(r *rand.Rand, i int) {
		m := unlistedSyntax(r, &gen.TCfg{Depth: 1 + r.Intn(2), Lang: true, NoOne: true})
		s, ok := gen.Pcore(r, m)
		k := 1
		if !ok || i%2 == 0 {
			k = 0
			s = (&gen.Syntax{R: r}).Render(m)
		}
		for j := 0; j <= len(s) && j < 150; j++ {
			parseTotal(c, `truncated expression`, languages[k], s[:j])
		}
	})
	c.Run(`refused declarations`, c.N(2000, 40000), func(r *rand.Rand, i int) { parseFailed(c, r) })
	c.Run(`json`, c.N(8000, 300000), func(r *rand.Rand, i int) {
		k := 2 + r.Intn(2)
		v := genStreamable(r, &gen.Cfg{Depth: 1 + r.Intn(3), NoType: k == 3}, true)
		d := streamer.DgoDialect()
		if k == 3 {
			d = pcore.Dialect()
		}
		s := string(streamer.MarshalJSON(v.Build(r, false), d))
		parseTotal(c, `mutated JSON`, languages[k], corrupt(r, s, jsonToks))
	})
	c.Run(`markers`, c.N(16000, 500000), func(r *rand.Rand, i int) {
		k := 2 + r.Intn(2)
		p := `__`
		if k == 3 {
			p = `__p`
		}
		b, err := json.Marshal(markers(r, 1+r.Intn(4), p))
		if err != nil {
			panic(err)
		}
		s := string(b)
		if k == 3 {
			s = strings.Replace(s, `__pref`, []string{`__pref`, `__ref`}[r.Intn(2)], -1)
		}
		parseTotal(c, `reserved keys`, languages[k], s)
	})
	c.Run(`deep`, c.N(40, 400), func(r *rand.Rand, i int) {
		n := 200 + r.Intn(map[bool]int{false: 1500, true: 6000}[c.Thorough()])
		rep := strings.Repeat
		k := 0
		var s string
		switch i % 20 {
		case 0:
			s = rep(`(`, n) + `int` + rep(`)`, n)
		case 1:
			s = rep(`[]`, n) + `int`
		case 2:
			s = rep(`{`, n) + `int` + rep(`}`, n)
		case 3:
			s = rep(`{a:`, n) + `int` + rep(`}`, n)
		case 4:
			s = rep(`!`, n) + `int`
		case 5:
			s = rep(`map[string]`, n) + `int`
		case 6:
			s = rep(`type[`, n) + `int` + rep(`]`, n)
		case 7:
			s = rep(`int|`, n) + `string`
		case 8:
			s = rep(`(int&`, n) + `string` + rep(`)`, n)
		case 9:
			s = rep(`func(`, n) + rep(`)`, n)
		case 10:
			s = rep(`(`, n)
		case 11:
			s = rep(`{`, n)
		case 12:
			s = rep(`[`, n)
		case 13:
			s = `"` + rep(`a`, n*20) + `"`
		case 14:
			for j := 0; j < n/4; j++ {
				s += `a` + strconv.Itoa(j) + `=[]a` + strconv.Itoa(j+1) + `|`
			}
			s = `{` + strings.Replace(s, `|`, `,`, -1) + `a` + strconv.Itoa(n/4) + `=int}`
		case 15:
			k = 1
			s = rep(`Array[`, n) + `Integer` + rep(`]`, n)
		case 16:
			k = 1
			s = rep(`[`, n) + rep(`]`, n)
		case 17:
			k = 2
			s = rep(`[`, n) + rep(`]`, n)
		case 18:
			k = 2
			s = rep(`{"a":`, n) + `1` + rep(`}`, n)
		default:
			k = 2
			s = rep(`{"__type":"sensitive","__value":`, n/4) + `1` + rep(`}`, n/4)
		}
		parseTotal(c, `deep nesting`, languages[k], s)
	})
}

// parseFailed checks that a text that is refused leaves nothing behind, although it declares names ahead of what is wrong
func parseFailed(c *mon.Ctx, r *rand.Rand) {
	n := 1 + r.Intn(4)
	var names, decl []string
	k := r.Intn(2)
	for i := 0; i < n; i++ {
		nm := fmt.Sprintf(`left%d`, r.Intn(1000))
		if k == 1 {
			nm = `L` + nm[1:]
		}
		names = append(names, nm)
		body := []string{`int`, `[]string`, `{a:int}`, `[]` + nm, `string|[]` + nm, `map[string]` + names[0]}[r.Intn(6)]
		if k == 1 {
			body = []string{`Integer`, `Array[String]`, `Array[` + nm + `]`, `Variant[String,Array[` + nm + `]]`, `Hash[String,` + names[0] + `]`}[r.Intn(5)]
		}
		decl = append(decl, body)
	}
	bad := []string{`{`, `]`, `nosuchname`, `:`, `"`, `[`, "\x00", `1..x`, `[string]int`}[r.Intn(9)]
	var s string
	if k == 0 {
		s = `{`
		for i, nm := range names {
			s += nm + `=` + decl[i] + `,`
		}
		s += bad + `}`
	} else {
		for i, nm := range names {
			s += `type ` + nm + ` = ` + decl[i] + "\n"
		}
		s += []string{`[`, `]`, `'`, `=>`, `{`, `Integer[`}[r.Intn(6)]
	}
	c.Seen(`failed ` + s)
	l := languages[k]
	absent := func(what string, m dgo.AliasMap) {
		for _, nm := range names {
			if t := m.GetType(vf.String(nm)); t != nil {
				c.Fail(`refused text: `+l.name+`: a name remains in `+what, "%s in %q", nm, s)
			}
		}
	}
	refuse := func(what string, f func()) {
		if e := mon.Catch(f); e == nil {
			c.Fail(`refused text: `+l.name+`: accepted`, "%q", s)
		} else if _, ok := e.(error); !ok || isRuntimeError(e) {
			c.Fail(`refused text: `+l.name+`: internal error`, "%q: %s: %v", s, what, e)
		}
	}
	before := tf.DefaultAliases()
	// with the default aliases
	refuse(`default aliases`, func() { l.parse(nil, s) })
	absent(`the default aliases`, tf.DefaultAliases())
	if k == 0 {
		refuse(`ParseType`, func() { tf.ParseType(s) })
		refuse(`Parse`, func() { tf.Parse(s) })
	}
	if tf.DefaultAliases() != before {
		c.Fail(`refused text: `+l.name+`: the default aliases have been modified`, "%q", s)
	}
	absent(`the default aliases`, tf.DefaultAliases())
	// in the function that collects, so that the failure passes through
	am := tf.BuiltInAliases()
	refuse(`Collect`, func() { am.Collect(func(a dgo.AliasAdder) { l.parse(a, s) }) })
	absent(`the map that was to be extended`, am)
	refuse(`AddDefaultAliases`, func() { tf.AddDefaultAliases(func(a dgo.AliasAdder) { l.parse(a, s) }) })
	absent(`the default aliases`, tf.DefaultAliases())
	if tf.DefaultAliases() != before {
		c.Fail(`refused text: `+l.name+`: the default aliases have been modified`, "%q", s)
	}
	// the names can still be declared
	if good := tf.ParseFile(nil, ``, `[]string`); !good.Equals(tf.Array(tf.String())) {
		c.Fail(`refused text: a text that is parsed afterwards is another type`, "%q: %s", s, good)
	}
	c.Count(`refused with declarations: `+l.name, 1)
}
