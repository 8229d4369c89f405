package checks

import (
	"math/rand"
	"runtime"
	"sync"
	"time"

	"github.com/anishathalye/porcupine"

	"dgoverif/mon"
)

// Infrastructure for the checks of concurrent behaviour. Times are taken from the monotonic clock, and each goroutine
// records its own events, because synchronization in the monitor would hide unsynchronized accesses from the race detector.

var concEpoch = time.Now()

func nanos() int64 { return int64(time.Since(concEpoch)) }

// together runs the functions in goroutines that are released at the same time, and returns the panics that they ended
// with. It is a violation if they don't end.
func together(c *mon.Ctx, procs int, what string, fs ...func()) []interface{} {
	old := runtime.GOMAXPROCS(procs)
	defer runtime.GOMAXPROCS(old)
	es := make([]interface{}, len(fs))
	wg := sync.WaitGroup{}
	start := make(chan struct{})
	for i, f := range fs {
		wg.Add(1)
		go func(i int, f func()) {
			defer wg.Done()
			<-start
			es[i] = mon.Catch(f)
		}(i, f)
	}
	done := make(chan struct{})
	go func() {
		wg.Wait()
		close(done)
	}()
	close(start)
	t := time.NewTimer(120 * time.Second)
	defer t.Stop()
	select {
	case <-done:
	case <-t.C:
		buf := make([]byte, 1<<18)
		buf = buf[:runtime.Stack(buf, true)]
		c.Fail(what+`: the operations do not end`, "%d operations are still running after 120 s\n%s", len(fs), buf)
	}
	return es
}

// dither gives other goroutines a chance to run
func dither(n int) {
	switch n % 6 {
	case 0:
		runtime.Gosched()
	case 1:
		for i := 0; i < 50; i++ {
			runtime.Gosched()
		}
	case 2:
		time.Sleep(time.Duration(n%60) * time.Microsecond)
	}
}

func procs(r *rand.Rand) int { return []int{2, 3, 4, 8, 8}[r.Intn(5)] }

// linearizable checks a history. A history that cannot be checked within the time limit is counted but no violation.
func linearizable(c *mon.Ctx, m porcupine.Model, ops []porcupine.Operation) bool {
	if len(ops) == 0 {
		return true
	}
	switch porcupine.CheckOperationsTimeout(m, ops, 20*time.Second) {
	case porcupine.Illegal:
		return false
	case porcupine.Unknown:
		c.Count(`histories that could not be checked in time`, 1)
	default:
		c.Count(`histories checked`, 1)
	}
	return true
}
