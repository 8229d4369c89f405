// dgocheck runs the runtime monitors for the properties of lyraproj/dgo.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	_ "dgoverif/checks"
	"dgoverif/mon"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, `usage: dgocheck run|worker|list [flags]`)
		os.Exit(2)
	}
	switch os.Args[1] {
	case `run`:
		supervise(os.Args[2:])
	case `worker`:
		worker(os.Args[2:])
	case `list`:
		for _, id := range mon.IDs() {
			fmt.Println(id, mon.Get(id).Race)
		}
	default:
		os.Exit(2)
	}
}

type known struct{ sig, what string }

// readKnown reads the committed known-findings file. Lines are
//
//	known: property=<id> sig=<signature> :: <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// Only "known" lines have an effect.
func readKnown(path, id string) (ks []known) {
	bs, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	pfx := `known: property=` + id + ` sig=`
	for _, l := range strings.Split(string(bs), "\n") {
		if strings.HasPrefix(l, pfx) {
			l = l[len(pfx):]
			if p := strings.Index(l, ` :: `); p > 0 {
				ks = append(ks, known{l[:p], l[p+4:]})
			}
		}
	}
	return
}

func worker(args []string) {
	fs := flag.NewFlagSet(`worker`, flag.ExitOnError)
	id := fs.String(`prop`, ``, ``)
	tier := fs.String(`tier`, `quick`, ``)
	seed := fs.Int64(`seed`, 1, ``)
	shard := fs.Int(`shard`, 0, ``)
	shards := fs.Int(`shards`, 1, ``)
	journal := fs.String(`journal`, ``, ``)
	out := fs.String(`out`, ``, ``)
	skip := fs.String(`skip`, ``, ``)
	only := fs.String(`only`, ``, ``)
	kf := fs.String(`known`, ``, ``)
	_ = fs.Parse(args)
	p := mon.Get(*id)
	if p == nil {
		fmt.Fprintln(os.Stderr, `unknown property`, *id)
		os.Exit(2)
	}
	var sk []string
	if *skip != `` {
		sk = strings.Split(*skip, `,`)
	}
	var ks []string
	for _, k := range readKnown(*kf, *id) {
		ks = append(ks, k.sig)
	}
	if !p.Race {
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: 16 << 30, Max: 16 << 30})
		debug.SetGCPercent(200)
		if !p.Serial {
			runtime.GOMAXPROCS(2)
		}
	}
	c := mon.NewCtx(*id, *tier, *seed, *shard, *shards, *journal, sk, *only, ks)
	c.Watchdog(90*time.Second, 300*time.Second, 3<<30, *out)
	p.Run(c)
	c.Save(*out, true)
}

type shardResult struct {
	res   *mon.Result
	races []mon.Violation
	err   string
	dead  []mon.Violation
}

func supervise(args []string) {
	fs := flag.NewFlagSet(`run`, flag.ExitOnError)
	id := fs.String(`prop`, ``, ``)
	tier := fs.String(`tier`, `quick`, ``)
	seed := fs.Int64(`seed`, 1, ``)
	verif := fs.String(`verif`, `/verif`, ``)
	work := fs.String(`work`, ``, `scratch directory`)
	only := fs.String(`only`, ``, `phase:case to replay`)
	nsh := fs.Int(`shards`, runtime.NumCPU(), ``)
	_ = fs.Parse(args)
	p := mon.Get(*id)
	if p == nil {
		fmt.Fprintln(os.Stderr, `unknown property`, *id)
		os.Exit(2)
	}
	t0 := time.Now()
	n := *nsh
	if p.Serial || *only != `` {
		n = 1
	}
	kf := filepath.Join(*verif, `KNOWN_FINDINGS.txt`)
	srs := make([]*shardResult, n)
	wg := sync.WaitGroup{}
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			srs[i] = runShard(p, *tier, *seed, i, n, *work, *only, kf)
		}(i)
	}
	wg.Wait()

	total := mon.Result{Counters: map[string]int64{}, KnownHits: map[string]int{}}
	distinct := map[uint64]struct{}{}
	var vs []mon.Violation
	var errs []string
	for _, sr := range srs {
		if sr.err != `` {
			errs = append(errs, sr.err)
		}
		vs = append(vs, sr.dead...)
		vs = append(vs, sr.races...)
		if sr.res == nil {
			continue
		}
		r := sr.res
		for k, v := range r.Counters {
			if strings.HasPrefix(k, `max.`) {
				if v > total.Counters[k] {
					total.Counters[k] = v
				}
				continue
			}
			total.Counters[k] += v
		}
		for k, v := range r.KnownHits {
			total.KnownHits[k] += v
		}
		total.Evals += r.Evals
		for _, h := range r.Hashes {
			distinct[h] = struct{}{}
		}
		total.Samples = append(total.Samples, r.Samples...)
		vs = append(vs, r.Violations...)
	}
	if len(total.Samples) > 6 {
		total.Samples = total.Samples[:6]
	}
	knownSigs := map[string]string{}
	for _, k := range readKnown(kf, *id) {
		knownSigs[k.sig] = k.what
	}
	seen := map[string]bool{}
	var uniq []mon.Violation
	for _, v := range vs {
		if _, ok := knownSigs[v.Sig]; ok {
			total.KnownHits[v.Sig]++
			continue
		}
		if !seen[v.Sig] {
			seen[v.Sig] = true
			uniq = append(uniq, v)
		}
	}
	hits := make([]string, 0)
	for k := range total.KnownHits {
		hits = append(hits, k)
	}
	sort.Strings(hits)
	for _, k := range hits {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", *id, knownSigs[k])
	}

	if *only == `` {
		counters := map[string]interface{}{}
		for k, v := range total.Counters {
			counters[k] = v
		}
		samples := make([]interface{}, len(total.Samples))
		for i, s := range total.Samples {
			samples[i] = s
		}
		ev := map[string]interface{}{
			`property`: *id, `tier`: *tier, `seed`: *seed, `level`: `exploration`,
			`coverage`: map[string]interface{}{
				`evaluations`: total.Evals, `distinct_nontrivial`: len(distinct), `rule`: p.Rule, `samples`: samples,
				`observed`: counters, `workers`: n, `known_finding_hits`: total.KnownHits, `go`: runtime.Version(), `race_detector`: p.Race,
			},
			`wall_s`:     time.Since(t0).Seconds(),
			`violations`: len(uniq),
		}
		bs, _ := json.MarshalIndent(ev, ``, ` `)
		_ = os.MkdirAll(filepath.Join(*verif, `evidence`), 0o755)
		if err := os.WriteFile(filepath.Join(*verif, `evidence`, *id+`.json`), append(bs, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}

	rdir := filepath.Join(*verif, `evidence`, `replay`)
	_ = os.MkdirAll(rdir, 0o755)
	for i, v := range uniq {
		if i >= 12 && os.Getenv(`VERIF_ALL`) == `` {
			fmt.Printf("... and %d more distinct violations\n", len(uniq)-i)
			break
		}
		path := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", *id, i))
		bs, _ := json.MarshalIndent(map[string]interface{}{`property`: *id, `tier`: *tier, `seed`: *seed, `phase`: v.Phase, `case`: v.Case,
			`only`: fmt.Sprintf("%s:%d", v.Phase, v.Case), `sig`: v.Sig, `detail`: v.Detail,
			`how`: `/verif/run.sh ` + *id + ` replay ` + path}, ``, ` `)
		_ = os.WriteFile(path, append(bs, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *id, path)
		fmt.Printf("  sig: %s\n", v.Sig)
		for j, l := range strings.Split(v.Detail, "\n") {
			if j > 25 {
				break
			}
			fmt.Println(`    ` + l)
		}
	}
	if len(uniq) > 0 {
		os.Exit(1)
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, `error:`, e)
		}
		os.Exit(2)
	}
	if total.Evals == 0 || len(distinct) == 0 && *only == `` {
		fmt.Fprintln(os.Stderr, `error: nothing was observed`)
		os.Exit(2)
	}
	fmt.Printf("held: property=%s tier=%s seed=%d cases=%d distinct=%d wall=%.1fs\n", *id, *tier, *seed, total.Evals, len(distinct), time.Since(t0).Seconds())
}

func runShard(p *mon.Prop, tier string, seed int64, i, n int, work, only, kf string) *shardResult {
	sr := &shardResult{}
	var skip []string
	for attempt := 0; attempt < 4; attempt++ {
		base := filepath.Join(work, fmt.Sprintf("%s-%d-%d", p.ID, i, attempt))
		out, journal := base+`.json`, base+`.journal`
		cmd := exec.Command(os.Args[0], `worker`, `-prop`, p.ID, `-tier`, tier, `-seed`, strconv.FormatInt(seed, 10),
			`-shard`, strconv.Itoa(i), `-shards`, strconv.Itoa(n), `-journal`, journal, `-out`, out, `-skip`, strings.Join(skip, `,`), `-only`, only, `-known`, kf)
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		cmd.Stdout = &stderr
		cmd.Env = os.Environ()
		if p.Race {
			cmd.Env = append(cmd.Env, `GORACE=halt_on_error=0 exitcode=0 history_size=3 log_path=`+base+`.race`)
		}
		err := cmd.Run()
		sr.races = append(sr.races, readRaces(base+`.race`, journal)...)
		if bs, rerr := os.ReadFile(out); rerr == nil {
			r := &mon.Result{}
			if json.Unmarshal(bs, r) == nil {
				if sr.res == nil {
					sr.res = r
				} else {
					// keep violations of earlier attempts
					r.Violations = append(r.Violations, sr.res.Violations...)
					sr.res = r
				}
				if err == nil && r.Done {
					return sr
				}
			}
		}
		cs := lastCase(journal)
		if cs == `` {
			sr.err = fmt.Sprintf("worker %d failed: %v\n%s", i, err, tail(stderr.String(), 40))
			return sr
		}
		if !bytes.Contains(stderr.Bytes(), []byte("goroutine ")) && (sr.res == nil || len(sr.res.Violations) == 0) {
			// Not a Go level crash and no watchdog report: killed from the outside. That is no verdict.
			sr.err = fmt.Sprintf("worker %d ended by %v in case %s\n%s", i, err, cs, tail(stderr.String(), 40))
			return sr
		}
		if bytes.Contains(stderr.Bytes(), []byte("goroutine ")) {
			ph, ci := splitCase(cs)
			sr.dead = append(sr.dead, mon.Violation{Sig: `process crash: ` + crashClass(stderr.String()), Phase: ph, Case: ci,
				Detail: "the process died in case " + cs + "\n" + head(stderr.String(), 60)})
		}
		if only != `` {
			return sr
		}
		skip = append(skip, cs)
	}
	return sr
}

func splitCase(cs string) (string, int) {
	p := strings.LastIndexByte(cs, ':')
	if p < 0 {
		return cs, 0
	}
	n, _ := strconv.Atoi(cs[p+1:])
	return cs[:p], n
}

func lastCase(journal string) string {
	bs, err := os.ReadFile(journal)
	if err != nil {
		return ``
	}
	return strings.TrimSpace(string(bs))
}

func crashClass(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, `fatal error: `) || strings.HasPrefix(l, `runtime: goroutine stack exceeds`) || strings.HasPrefix(l, `panic: `) {
			if len(l) > 100 {
				l = l[:100]
			}
			return l
		}
	}
	return `unknown`
}

func head(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, "\n")
}

func tail(s string, n int) string {
	ls := strings.Split(s, "\n")
	if len(ls) > n {
		ls = ls[len(ls)-n:]
	}
	return strings.Join(ls, "\n")
}

var frameRx = regexp.MustCompile(`^  ([\w./*()\-]+)\(`)

// readRaces parses the reports of the race detector. A report counts when one of its two accesses has a frame of dgo
// on its stack; it is identified by the topmost dgo functions of both accesses.
func readRaces(prefix, journal string) (vs []mon.Violation) {
	files, _ := filepath.Glob(prefix + `.*`)
	for _, f := range files {
		fh, err := os.Open(f)
		if err != nil {
			continue
		}
		sc := bufio.NewScanner(fh)
		sc.Buffer(make([]byte, 1<<20), 1<<20)
		var cur []string
		flush := func() {
			if len(cur) > 0 {
				if v, ok := raceViolation(cur); ok {
					v.Phase, v.Case = splitCase(lastCase(journal))
					vs = append(vs, v)
				}
			}
			cur = nil
		}
		for sc.Scan() {
			l := sc.Text()
			if strings.HasPrefix(l, `==================`) {
				flush()
				continue
			}
			cur = append(cur, l)
		}
		flush()
		_ = fh.Close()
	}
	return
}

func raceViolation(ls []string) (mon.Violation, bool) {
	if len(ls) == 0 || !strings.Contains(ls[0], `DATA RACE`) {
		return mon.Violation{}, false
	}
	var tops []string
	top := ``
	inAccess := false
	flush := func() {
		if inAccess {
			tops = append(tops, top)
		}
		top = ``
	}
	for _, l := range ls {
		switch {
		case strings.HasPrefix(l, `Read at`), strings.HasPrefix(l, `Write at`), strings.HasPrefix(l, `Previous `), strings.HasPrefix(l, `Atomic`):
			flush()
			inAccess = true
		case strings.HasPrefix(l, `Goroutine `):
			flush()
			inAccess = false
		case inAccess && top == ``:
			if m := frameRx.FindStringSubmatch(l); m != nil && strings.HasPrefix(m[1], `github.com/lyraproj/dgo/`) {
				top = strings.TrimPrefix(m[1], `github.com/lyraproj/dgo/`)
			}
		}
	}
	flush()
	any := false
	for _, t := range tops {
		if t != `` {
			any = true
		}
	}
	if !any {
		return mon.Violation{}, false
	}
	sort.Strings(tops)
	return mon.Violation{Sig: `data race: ` + strings.Join(tops, ` / `), Detail: strings.Join(ls, "\n")}, true
}
