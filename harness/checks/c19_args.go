package checks

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/vf"

	"dgoverif/gen"
	"dgoverif/mon"
)

// c19Args creates integers, binaries, and strings from two arguments, where the second one tells how the first one is
// to be understood, using types that limit what can be created.
func c19Args(c *mon.Ctx, r *rand.Rand) {
	var m *gen.T
	var k gen.Kind
	for want := []gen.Kind{gen.KInt, gen.KBin, gen.KStr}[r.Intn(3)]; ; {
		m = gen.GenType(r, &gen.TCfg{Depth: 0})
		var ok bool
		if k, ok = kindOf(m); ok && k == want {
			break
		}
	}
	dt := m.Build(r)
	if _, ok := dt.(dgo.Factory); !ok {
		return
	}
	v := m.GenFor(r)
	if v.K != k || r.Intn(8) == 0 {
		v = gen.GenScalar(r, &gen.Cfg{})
	}
	var second *gen.V
	var exp *gen.V
	switch k {
	case gen.KInt:
		radix := []int{2, 8, 10, 16, 10, 16, 0, 1, 3, 36, 37, -10}[r.Intn(12)]
		second = gen.Int(int64(radix))
		if r.Intn(20) == 0 {
			second = []*gen.V{gen.Str(`16`), gen.Float(16), gen.Nil(), gen.Bool(true)}[r.Intn(4)]
		}
		if v.K == gen.KInt && r.Intn(8) > 0 {
			base := radix
			if base < 2 || base > 36 || r.Intn(10) == 0 {
				base = 10
			}
			s := strconv.FormatInt(v.I, base)
			switch r.Intn(8) {
			case 0:
				s = strings.ToUpper(s)
			case 1:
				s = `+` + s
			case 2:
				s = `0` + s
			case 3:
				s = `0x` + s
			case 4:
				s = mutateText(r, s, `0123456789abcdefABCDEF-+_x `)
			}
			v = gen.Str(s)
		}
		if second.K == gen.KInt && (radix == 2 || radix == 8 || radix == 10 || radix == 16) {
			if v.K == gen.KStr {
				if n, err := strconv.ParseInt(v.S, radix, 64); err == nil {
					exp = gen.Int(n)
				}
			} else {
				exp, _ = convert(gen.KInt, v, ``)
			}
		}
	case gen.KBin:
		enc := []string{`%B`, `%b`, `%u`, `%s`, `%r`, `%B`, `%b`, `%u`, `%s`, `%r`, ``, `%x`, `B`}[r.Intn(13)]
		second = gen.Str(enc)
		if r.Intn(20) == 0 {
			second = []*gen.V{gen.Int(1), gen.Nil()}[r.Intn(2)]
		}
		if v.K == gen.KBin && r.Intn(8) > 0 {
			var s string
			switch enc {
			case `%u`:
				s = base64.URLEncoding.EncodeToString(v.Bin)
			case `%s`, `%r`:
				s = string(v.Bin)
			default:
				s = base64.StdEncoding.EncodeToString(v.Bin)
			}
			if r.Intn(5) == 0 {
				s = mutateText(r, s, "ABab+/-_=\n ")
			}
			v = gen.Str(s)
		}
		if v.K == gen.KStr && second.K == gen.KStr {
			var bs []byte
			err := fmt.Errorf(`unknown`)
			switch enc {
			case `%B`:
				bs, err = base64.StdEncoding.Strict().DecodeString(v.S)
			case `%b`:
				bs, err = base64.StdEncoding.DecodeString(v.S)
			case `%u`:
				bs, err = base64.URLEncoding.DecodeString(v.S)
			case `%r`:
				bs, err = []byte(v.S), nil
			case `%s`:
				if utf8.ValidString(v.S) {
					bs, err = []byte(v.S), nil
				}
			}
			if err == nil {
				exp = gen.Bin(bs)
			}
		}
	default:
		f := []string{`%s`, `%v`, `%3s`, `%.2s`, `%q`, `%x`}[r.Intn(6)]
		second = gen.Str(f)
		if v.K != gen.KStr {
			v = gen.Str(hostileString(r, true))
		}
		exp = gen.Str(fmt.Sprintf(f, v.S))
	}
	if exp != nil && !m.Accept(exp) {
		exp = nil
	}
	d := func() string {
		return fmt.Sprintf("type %s (%s)\narguments %s and %s", m, dt, v.Canon(false), second.Canon(false))
	}
	c.Seen(m.String() + ` < ` + v.Canon(false) + `,` + second.Canon(false))
	var got dgo.Value
	e := mon.Catch(func() { got = vf.New(dt, vf.Arguments(v.Build(r, false), second.BuildScalar())) })
	if e != nil {
		if _, ok := e.(error); !ok || isRuntimeError(e) {
			c.Fail(`New with two arguments panics with something else than an error`, "%T %v\n%s", e, e, d())
		}
		if exp != nil {
			c.Fail(`New with two arguments refuses what denotes an instance`, "%v\nexpected %s\n%s", e, exp.Canon(false), d())
		}
		c.Count(`two arguments refused`, 1)
		return
	}
	c.Count(`two arguments accepted`, 1)
	if exp == nil {
		c.Fail(`New with two arguments accepts what doesn't denote an instance`, "%s\n%s", got, d())
	}
	if got == nil || !gen.Eq(exp, gen.Observe(got)) {
		c.Fail(`New with two arguments returns another value than the one denoted`, "got %s, expected %s\n%s", got, exp.Canon(false), d())
	}
}
