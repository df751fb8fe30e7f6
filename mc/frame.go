// Bounded exhaustive exploration: the driver that every check shares.
//
// A check is a deterministic enumeration of cases.  The parent process starts
// one worker per core; worker w runs the cases whose index is w modulo the
// number of workers, so the union of the workers is the whole space.  Each
// worker keeps the set of distinct states it visited; the parent joins them.
package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const maxStates = 3000000 // per worker; more are still explored but no longer counted as distinct
const maxFails = 400      // per worker
const maxFresh = 50       // violations per worker after which it stops

type Check struct {
	ID    string
	Rule  string                   // how the cases are made
	Assum []string                 // assumptions
	Run   func(c *Ctx)             // enumerates all cases
	Bound func(tier string) string // the bounds of this tier in words
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

type Failure struct {
	Idx    int64  `json:"idx"`
	Key    string `json:"key"`
	Msg    string `json:"msg"`
	Stable bool   `json:"stable"`
}

type workerResult struct {
	Cases    int64
	Trans    int64
	Traces   int64
	NonTriv  int64
	Done     bool // the enumeration was completed
	Capped   bool // the state set was full
	Fails    []Failure
	Outcomes map[string]int64
	Samples  []string
	Notes    map[string]int64
}

type Ctx struct {
	Tier     string
	Thorough bool
	Seed     int64

	workers, worker int64
	only            int64 // run just this case
	upto            int64 // stop after this case

	idx      int64
	res      workerResult
	states   map[uint64]struct{}
	deadline time.Time
	failKeys map[string]bool
	cur      []byte // shared memory: index of the current case
	started  int64  // time the current case started, unix nanos
	stop     bool
	fresh    int
	known    map[string]knownEntry
	verbose  bool
	muted    bool // repeating a case: do not count
}

func hashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// State records that a (canonical) state was visited.
func (c *Ctx) State(parts ...string) {
	if c.muted {
		return
	}
	h := fnv.New64a()
	for _, p := range parts {
		h.Write([]byte(p))
		h.Write([]byte{0xff, 0})
	}
	c.StateHash(h.Sum64())
}

func (c *Ctx) StateHash(h uint64) {
	if c.muted {
		return
	}
	if len(c.states) >= maxStates {
		c.res.Capped = true
		return
	}
	c.states[h] = struct{}{}
}

func (c *Ctx) Trans(n int) {
	if !c.muted {
		c.res.Trans += int64(n)
	}
}

func (c *Ctx) Trace() {
	if !c.muted {
		c.res.Traces++
	}
}

func (c *Ctx) Outcome(s string) {
	if !c.muted {
		c.res.Outcomes[s]++
	}
}

func (c *Ctx) Note(s string) {
	if !c.muted {
		c.res.Notes[s]++
	}
}

// NonTrivial marks the current case as one in which the property had something to decide.
func (c *Ctx) NonTrivial() {
	if !c.muted {
		c.res.NonTriv++
	}
}

type stopRun struct{}

// Mine advances to the next case and says whether this worker has to run it.
func (c *Ctx) Mine() bool {
	c.idx++
	if c.stop {
		panic(stopRun{})
	}
	if c.only > 0 {
		if c.idx > c.only {
			panic(stopRun{})
		}
		return c.idx == c.only
	}
	if c.upto > 0 && c.idx > c.upto {
		panic(stopRun{})
	}
	return c.idx%c.workers == c.worker
}

func (c *Ctx) attempt(fn func() string) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopRun); ok {
				panic(r)
			}
			st := string(debug.Stack())
			msg = fmt.Sprintf("panic: %v", r)
			// name the innermost function of the library
			for _, l := range strings.Split(st, "\n") {
				if strings.HasPrefix(l, "github.com/couchbaselabs/gojsonsm.") {
					if i := strings.LastIndex(l, "("); i > 0 {
						l = l[:i]
					}
					msg += " in " + strings.TrimPrefix(l, "github.com/couchbaselabs/")
					break
				}
			}
		}
	}()
	return fn()
}

// Do runs one case if it is this worker's.  fn returns "" if the property held,
// otherwise what went wrong.
func (c *Ctx) Do(key func() string, fn func() string) {
	if !c.Mine() {
		return
	}
	binary.LittleEndian.PutUint64(c.cur, uint64(c.idx))
	atomic.StoreInt64(&c.started, time.Now().UnixNano())
	c.res.Cases++
	if c.verbose {
		fmt.Printf("case %d: %s\n", c.idx, key())
	}
	n := c.res.Cases
	if n == 1 || n == 7 || n == 100 || n == 1000 || n == 10000+c.Seed {
		c.res.Samples = append(c.res.Samples, key())
	}
	msg := c.attempt(fn)
	if msg != "" {
		k := key()
		stable := true
		c.muted = true
		for i := 0; i < 4; i++ {
			if c.attempt(fn) == "" {
				stable = false
			}
		}
		c.muted = false
		if c.verbose {
			fmt.Printf("FAIL %s: %s (stable %v)\n", k, msg, stable)
		}
		if len(c.res.Fails) < maxFails && !c.failKeys[k] {
			c.failKeys[k] = true
			c.res.Fails = append(c.res.Fails, Failure{c.idx, k, msg, stable})
			if _, listed := c.known[k]; stable && !listed {
				// Enough for a verdict: the run ends, as it does when its time is up.
				if c.fresh++; c.fresh == maxFresh {
					c.stop = true
				}
			}
		}
	}
	atomic.StoreInt64(&c.started, 0)
	if n%64 == 0 && time.Now().After(c.deadline) {
		c.stop = true
	}
}

func runWorker(ch *Check, c *Ctx, out string) {
	debug.SetMaxStack(64 << 20)
	c.states = map[uint64]struct{}{}
	c.failKeys = map[string]bool{}
	c.res.Outcomes = map[string]int64{}
	c.res.Notes = map[string]int64{}
	c.cur = make([]byte, 8)
	if out != "" {
		f, err := os.OpenFile(out+".cur", os.O_RDWR|os.O_CREATE, 0600)
		if err == nil {
			f.Truncate(8)
			m, err := syscall.Mmap(int(f.Fd()), 0, 8, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if err == nil {
				c.cur = m
			}
		}
	}
	// The watchdog ends a worker whose case never ends or eats all memory.  Limits are
	// far above what any case needs (milliseconds, a few megabytes).
	go func() {
		for range time.Tick(500 * time.Millisecond) {
			st := atomic.LoadInt64(&c.started)
			if st != 0 && time.Since(time.Unix(0, st)) > 60*time.Second {
				os.Exit(93)
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 3<<29 {
				os.Exit(94)
			}
		}
	}()
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(stopRun); ok {
					return
				}
				panic(r)
			}
		}()
		ch.Run(c)
		c.res.Done = true
	}()
	if out == "" {
		return
	}
	f, err := os.Create(out + ".states")
	must(err)
	w := bufio.NewWriterSize(f, 1<<20)
	var b [8]byte
	for h := range c.states {
		binary.LittleEndian.PutUint64(b[:], h)
		w.Write(b[:])
	}
	must(w.Flush())
	must(f.Close())
	data, err := json.Marshal(&c.res)
	must(err)
	must(os.WriteFile(out+".json", data, 0600))
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "mc:", err)
		os.Exit(5)
	}
}

type knownEntry struct {
	Property string `json:"property"`
	Status   string `json:"status"` // "open" or "fixed"
	Key      string `json:"key"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(path, id string) map[string]knownEntry {
	out := map[string]knownEntry{}
	data, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	var entries []knownEntry
	must(json.Unmarshal(data, &entries))
	for _, e := range entries {
		if e.Property == id && e.Status == "open" {
			out[e.Key] = e
		}
	}
	return out
}

func main() {
	id := flag.String("id", "", "property")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	worker := flag.Int64("worker", -1, "internal: shard")
	workers := flag.Int64("workers", int64(runtime.NumCPU()), "number of shards")
	only := flag.Int64("only", 0, "run just this case")
	upto := flag.Int64("upto", 0, "stop after this case")
	out := flag.String("out", "", "internal: result file")
	scratch := flag.String("scratch", os.TempDir(), "scratch directory")
	evidence := flag.String("evidence", "", "evidence directory")
	known := flag.String("known", "", "known findings")
	budget := flag.Float64("budget", 0, "seconds")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()

	ch := checks[*id]
	if ch == nil {
		fmt.Fprintln(os.Stderr, "mc: no such check", *id)
		os.Exit(5)
	}
	sec := *budget
	if sec == 0 {
		sec = 200
		if *tier == "thorough" {
			sec = 700
		}
	}
	if *worker >= 0 {
		runtime.GOMAXPROCS(2)
		c := &Ctx{Tier: *tier, Thorough: *tier == "thorough", Seed: *seed, workers: *workers, worker: *worker,
			only: *only, upto: *upto, deadline: time.Now().Add(time.Duration(sec * float64(time.Second))), verbose: *verbose}
		c.known = loadKnown(*known, ch.ID)
		runWorker(ch, c, *out)
		return
	}
	os.Exit(parent(ch, *tier, *seed, *workers, sec, *scratch, *evidence, *known))
}

type shard struct {
	res    workerResult
	ok     bool
	exit   int
	cur    int64
	stderr string
}

func startShard(ch *Check, tier string, seed, workers, w int64, sec float64, base, known string, extra ...string) shard {
	out := filepath.Join(base, fmt.Sprintf("w%d-%d", w, time.Now().UnixNano()))
	args := append([]string{"-id", ch.ID, "-tier", tier, "-seed", fmt.Sprint(seed), "-worker", fmt.Sprint(w), "-workers", fmt.Sprint(workers),
		"-budget", fmt.Sprint(sec), "-known", known, "-out", out}, extra...)
	cmd := exec.Command(os.Args[0], args...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var stderr strings.Builder
	cmd.Stderr = &limitedWriter{w: &stderr, n: 4000}
	cmd.Stdout = os.Stdout
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	err := cmd.Run()
	var s shard
	s.stderr = stderr.String()
	if b, e := os.ReadFile(out + ".cur"); e == nil && len(b) == 8 {
		s.cur = int64(binary.LittleEndian.Uint64(b))
	}
	if err != nil {
		s.exit = cmd.ProcessState.ExitCode()
		return s
	}
	data, e := os.ReadFile(out + ".json")
	if e != nil {
		s.exit = 5
		return s
	}
	must(json.Unmarshal(data, &s.res))
	s.ok = true
	s.res.Notes["__states:"+out+".states"] = 1
	return s
}

type limitedWriter struct {
	w *strings.Builder
	n int
}

func (l *limitedWriter) Write(p []byte) (int, error) {
	if left := l.n - l.w.Len(); left > 0 {
		q := p
		if len(q) > left {
			q = q[:left]
		}
		l.w.Write(q)
	}
	return len(p), nil
}

func parent(ch *Check, tier string, seed, workers int64, sec float64, scratch, evDir, knownPath string) int {
	start := time.Now()
	known := loadKnown(knownPath, ch.ID)
	shards := make([]shard, workers)
	var wg sync.WaitGroup
	for w := int64(0); w < workers; w++ {
		wg.Add(1)
		go func(w int64) {
			defer wg.Done()
			shards[w] = startShard(ch, tier, seed, workers, w, sec, scratch, knownPath)
		}(w)
	}
	wg.Wait()

	total := workerResult{Outcomes: map[string]int64{}, Notes: map[string]int64{}}
	states := map[uint64]struct{}{}
	complete, capped := true, false
	var fails []Failure
	broken := ""
	died := 0
	confirmed := false
	for w := range shards {
		s := &shards[w]
		if !s.ok {
			complete = false
			// The worker died: see whether the case it was in does that by itself, or
			// after the same history.
			msg := fmt.Sprintf("the process died (exit %d)", s.exit)
			if s.exit == 93 {
				msg = "does not terminate"
			} else if s.exit == 94 {
				msg = "uses more and more memory"
			} else if i := strings.Index(s.stderr, "\n"); i > 0 {
				msg += ": " + s.stderr[:i]
			}
			if confirmed {
				// Another worker's death is confirmed already: that is a violation.
				total.Notes["more workers ended early"]++
				continue
			}
			again := 0
			var last shard
			tries := 2
			if s.exit == 93 {
				again, tries = 1, 1 // it had a minute already
			}
			for i := 0; i < tries; i++ {
				last = startShard(ch, tier, seed, workers, int64(w), sec, scratch, knownPath, "-only", fmt.Sprint(s.cur))
				if !last.ok && last.exit == s.exit {
					again++
				}
			}
			if again < 2 {
				last = startShard(ch, tier, seed, workers, int64(w), sec, scratch, knownPath, "-upto", fmt.Sprint(s.cur))
				if !last.ok && last.exit == s.exit && last.cur == s.cur {
					again = 2
				}
			}
			if again == 2 {
				confirmed = true
				fails = append(fails, Failure{s.cur, fmt.Sprintf("case %d", s.cur), msg, true})
			} else {
				// Not the code's doing as far as can be told: the cases of this shard are missing.
				died++
				total.Notes["a worker ended unexpectedly and could not be made to again"]++
				broken = fmt.Sprintf("worker %d: %s in case %d, not reproducible\n%s", w, msg, s.cur, s.stderr)
			}
			continue
		}
		r := &s.res
		total.Cases += r.Cases
		total.Trans += r.Trans
		total.Traces += r.Traces
		total.NonTriv += r.NonTriv
		complete = complete && r.Done
		capped = capped || r.Capped
		for k, v := range r.Outcomes {
			total.Outcomes[k] += v
		}
		for k, v := range r.Notes {
			if strings.HasPrefix(k, "__states:") {
				data, err := os.ReadFile(strings.TrimPrefix(k, "__states:"))
				must(err)
				for i := 0; i+8 <= len(data); i += 8 {
					states[binary.LittleEndian.Uint64(data[i:])] = struct{}{}
				}
				os.Remove(strings.TrimPrefix(k, "__states:"))
				continue
			}
			total.Notes[k] += v
		}
		if len(total.Samples) < 8 {
			total.Samples = append(total.Samples, r.Samples...)
		}
		for _, f := range r.Fails {
			if !f.Stable {
				if _, ok := known[f.Key]; ok {
					continue
				}
				// It depends on what ran before: run this shard's history again.
				last := startShard(ch, tier, seed, workers, int64(w), sec, scratch, knownPath, "-upto", fmt.Sprint(f.Idx))
				found := false
				for _, g := range last.res.Fails {
					if g.Idx == f.Idx {
						found = true
					}
				}
				if !found {
					total.Notes["unreproducible: "+f.Key+": "+f.Msg]++
					continue
				}
				f.Msg += fmt.Sprintf(" (needs the preceding cases of shard %d of %d)", w, workers)
			}
			fails = append(fails, f)
			if len(fails) > 2000 {
				break
			}
		}
	}
	sort.Slice(fails, func(i, j int) bool { return fails[i].Idx < fails[j].Idx })

	var fresh []Failure
	seenKnown := map[string]bool{}
	for _, f := range fails {
		if e, ok := known[f.Key]; ok {
			if !seenKnown[f.Key] {
				seenKnown[f.Key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", ch.ID, e.What, f.Key)
			}
			continue
		}
		fresh = append(fresh, f)
	}

	if len(total.Samples) > 8 {
		total.Samples = total.Samples[:8]
	}
	if len(total.Samples) == 0 {
		total.Samples = []string{"(none)"}
	}
	outs := make([]string, 0)
	for k := range total.Outcomes {
		outs = append(outs, k)
	}
	sort.Strings(outs)
	ev := map[string]interface{}{
		"property": ch.ID, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": len(states), "transitions": total.Trans, "traces_validated_against_impl": total.Traces,
			"samples": total.Samples, "evaluations": total.Cases, "distinct_nontrivial": total.NonTriv,
			"rule": ch.Rule, "bound": ch.Bound(tier), "exhaustive": complete,
			"distinct_outcomes": total.Outcomes, "notes": total.Notes, "state_set_capped": capped,
			"workers": workers,
		},
		"assumptions": ch.Assum, "wall_s": time.Since(start).Seconds(), "violations": len(fresh),
	}
	data, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(evDir, 0755))
	must(os.WriteFile(filepath.Join(evDir, ch.ID+".json"), append(data, '\n'), 0644))

	fmt.Printf("%s %s: %d cases, %d states, %d transitions, %d traces, exhaustive=%v, outcomes=%v, %.1fs\n",
		ch.ID, tier, total.Cases, len(states), total.Trans, total.Traces, complete && !capped, total.Outcomes, time.Since(start).Seconds())
	if len(fresh) > 0 {
		replay := filepath.Join(evDir, ch.ID+".replay.json")
		n := len(fresh)
		if n > 50 {
			n = 50
		}
		rd, _ := json.MarshalIndent(map[string]interface{}{
			"property": ch.ID, "tier": tier, "workers": workers, "violations": fresh[:n], "count": len(fresh),
			"how": fmt.Sprintf("python3 /verif/run.py %s %s --replay <idx>", ch.ID, tier),
		}, "", " ")
		must(os.WriteFile(replay, append(rd, '\n'), 0644))
		for i, f := range fresh {
			if i == 10 {
				fmt.Printf("... and %d more\n", len(fresh)-10)
				break
			}
			fmt.Printf("case %d: %s\n    %s\n", f.Idx, f.Key, f.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", ch.ID, replay)
		return 1
	}
	if broken != "" {
		fmt.Fprintln(os.Stderr, "mc:", broken)
	}
	if total.Cases == 0 || died > int(workers)/2 {
		fmt.Fprintln(os.Stderr, "mc:", broken)
		return 5
	}
	return 0
}
