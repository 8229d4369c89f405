package checks

import (
	"bytes"
	"errors"
	"fmt"
	"math"
	"math/rand"
	"strings"
	"sync"

	"dgoverif/gen"
	"dgoverif/mon"

	"github.com/lyraproj/dgo/dgo"
	"github.com/lyraproj/dgo/streamer"
	"github.com/lyraproj/dgo/vf"
)

var errWriter = errors.New(`the disk is full`)

// brokenWriter accepts a number of bytes and fails from there on. It counts the calls made after the failure.
type brokenWriter struct {
	room   int
	got    bytes.Buffer
	failed bool
	after  int
	onFail error
}

func (w *brokenWriter) Write(b []byte) (int, error) {
	if w.failed {
		w.after++
		return 0, w.onFail
	}
	if len(b) > w.room {
		n := w.room
		w.got.Write(b[:n])
		w.failed = true
		return n, w.onFail
	}
	w.room -= len(b)
	w.got.Write(b)
	return len(b), nil
}

// c15Writers checks the JSON consumer's contract with its writer and the streamer's contract with its options
func c15Writers(c *mon.Ctx, r *rand.Rand) {
	cfg := &gen.Cfg{Depth: 1 + r.Intn(3), NoType: true, StrKeys: r.Intn(3) == 0}
	v := genStreamable(r, cfg, true)
	x := buildShared(r, v, map[string]dgo.Value{})
	level := streamer.DedupLevel(r.Intn(3))
	opts := &streamer.Options{DedupLevel: level, Dialect: streamer.DgoDialect(), RichData: true}
	s := streamer.New(nil, opts)
	encode := func(s streamer.Streamer) []byte {
		b := bytes.Buffer{}
		s.Stream(x, streamer.JSON(&b))
		return b.Bytes()
	}
	var want []byte
	d := func() string { return fmt.Sprintf("level %d\nvalue %s\nJSON  %s", level, v, want) }
	guard(c, `writers`, d, func() { want = encode(s) })
	c.Count(`encodings`, 1)
	c.Seen(string(want))

	// the options are copied when the streamer is created
	opts.DedupLevel = (level + 1) % 3
	opts.RichData = false
	opts.Dialect = nil
	guard(c, `writers: options changed after New`, d, func() {
		if got := encode(s); !bytes.Equal(got, want) {
			c.Fail(`writers: the options are changed after New`, "now %s\n%s", got, d())
		}
	})
	if level == streamer.NoKeyDedup {
		guard(c, `writers: default options`, d, func() {
			o := streamer.DefaultOptions()
			o.RichData = false
			o.DedupLevel = streamer.NoDedup
			if got := encode(streamer.New(nil, nil)); !bytes.Equal(got, want) {
				c.Fail(`writers: New without options does not use the default options`, "got %s\n%s", got, d())
			}
			if got := encode(streamer.New(nil, streamer.DefaultOptions())); !bytes.Equal(got, want) {
				c.Fail(`writers: the default options are not a private copy`, "got %s\n%s", got, d())
			}
			for _, dia := range []streamer.Dialect{nil, streamer.DgoDialect()} {
				if got := streamer.MarshalJSON(x, dia); !bytes.Equal(got, want) {
					c.Fail(`writers: MarshalJSON does not use the default options`, "got %s\n%s", got, d())
				}
			}
		})
	}

	// a streamer is re-entrant
	if r.Intn(8) == 0 {
		wg := sync.WaitGroup{}
		res := make([][]byte, 4)
		es := make([]interface{}, 4)
		for i := range res {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				es[i] = mon.Catch(func() { res[i] = encode(s) })
			}(i)
		}
		wg.Wait()
		for i := range res {
			if es[i] != nil || !bytes.Equal(res[i], want) {
				c.Fail(`writers: concurrent use of a streamer differs`, "panic %v, got %s\n%s", es[i], res[i], d())
			}
		}
		c.Count(`concurrent encodings`, len(res))
	}

	// the first failure of the writer ends the encoding
	rooms := []int{0, len(want) - 1, len(want)}
	for i := 0; i < 6; i++ {
		rooms = append(rooms, r.Intn(len(want)+1))
	}
	for _, room := range rooms {
		w := &brokenWriter{room: room, onFail: errWriter}
		e := mon.Catch(func() { s.Stream(x, streamer.JSON(w)) })
		c.Count(`writer failures`, 1)
		if room >= len(want) {
			if e != nil || w.failed || !bytes.Equal(w.got.Bytes(), want) {
				c.Fail(`writers: a writer with room for everything fails`, "panic %v, wrote %s\n%s", e, w.got.String(), d())
			}
			continue
		}
		if err, ok := e.(error); !ok || !errors.Is(err, errWriter) {
			c.Fail(`writers: the failure of the writer is not reported`, "after %d bytes: panic %v\n%s", room, e, d())
		}
		if w.after != 0 {
			c.Fail(`writers: the writer is used after its failure`, "%d times after %d bytes\n%s", w.after, room, d())
		}
		if !bytes.HasPrefix(want, w.got.Bytes()) || w.got.Len() != room {
			c.Fail(`writers: a failing writer gets other bytes`, "after %d bytes: %s\n%s", room, w.got.String(), d())
		}
	}
	// a failure leaves no trace in the streamer
	guard(c, `writers: after a failure`, d, func() {
		if got := encode(s); !bytes.Equal(got, want) {
			c.Fail(`writers: a failed encoding affects the next one`, "now %s\n%s", got, d())
		}
	})

	// what JSON has no notation for is refused rather than written as something else
	bad := []float64{math.NaN(), math.Inf(1), math.Inf(-1)}[r.Intn(3)]
	var y dgo.Value
	switch r.Intn(3) {
	case 0:
		y = vf.Float(bad)
	case 1:
		y = vf.MutableValues(x, bad)
	default:
		y = vf.Map(`a`, x, `b`, vf.Sensitive(bad))
	}
	b := bytes.Buffer{}
	e := mon.Catch(func() { s.Stream(y, streamer.JSON(&b)) })
	if _, ok := e.(error); !ok || isRuntimeError(e) {
		c.Fail(`writers: a float that JSON cannot represent is not refused`, "%v: panic %v, wrote %s", bad, e, b.String())
	}
	if t := b.String(); strings.Contains(t, `NaN`) || strings.Contains(t, `Inf`) {
		c.Fail(`writers: a float that JSON cannot represent is written`, "%v: %s", bad, t)
	}
}
