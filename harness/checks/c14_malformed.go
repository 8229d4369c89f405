package checks

import (
	"encoding/json"
	"math/rand"
	"strings"

	"dgoverif/gen"
	"dgoverif/mon"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
)

// c14Malformed checks that text that isn't JSON is refused
func c14Malformed(c *mon.Ctx, r *rand.Rand) {
	v := genStreamable(r, &gen.Cfg{Depth: r.Intn(4), NoType: true, StrKeys: r.Intn(2) == 0}, true)
	dn := dialects[r.Intn(2)]
	var s string
	if e := mon.Catch(func() { s = string(streamer.MarshalJSON(buildShared(r, v, map[string]dgo.Value{}), dn.d)) }); e != nil {
		c.Fail(`malformed: a value is not encoded`, "%s: %v", v, e)
	}
	for n := 0; n < 6; n++ {
		t := s
		i := r.Intn(len(t) + 1)
		switch r.Intn(8) {
		case 0:
			t += []string{`]`, `}`, `1`, ` null`, `,`, `{}`, `"x"`, ` x`, `:`, "\x00"}[r.Intn(10)]
		case 1:
			t = t[:i]
		case 2:
			t = t[:i] + string(`[]{},:"0-.eEtfn\`[r.Intn(16)]) + t[i:]
		case 3:
			if i < len(t) {
				t = t[:i] + t[i+1:]
			}
		case 4:
			if i < len(t) {
				t = t[:i] + string(`[]{},:"0-.e`[r.Intn(11)]) + t[i+1:]
			}
		case 5:
			t = strings.Replace(t, `,`, `,,`, 1)
		case 6:
			t = []string{"\n", ` `, "\t", "\r\n"}[r.Intn(4)] + t + []string{"\n", ` `, "\t", "\r\n"}[r.Intn(4)]
		default:
			j := r.Intn(len(t) + 1)
			t = t[:i] + t[j:]
		}
		valid := json.Valid([]byte(t))
		var x dgo.Value
		e := mon.Catch(func() { x = streamer.UnmarshalJSON([]byte(t), dn.d) })
		c.Seen(t)
		if _, ok := e.(error); e != nil && (!ok || isRuntimeError(e)) {
			c.Fail(`malformed: refused with something else than an error`, "%q: %v", t, e)
		}
		if e == nil && x == nil {
			c.Fail(`malformed: nothing is decoded`, "%q", t)
		}
		if valid {
			c.Count(`valid texts`, 1)
			if t != s && strings.TrimSpace(t) == s {
				if e != nil {
					c.Fail(`malformed: white space around the value is not accepted`, "%q: %v", t, e)
				}
			}
			continue
		}
		c.Count(`malformed texts`, 1)
		if e == nil {
			c.Fail(`malformed: text that isn't JSON is accepted`, "%q: %v", t, x)
		}
	}
}
