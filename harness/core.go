package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Failure is a witnessed violation. Phase and Case identify the generated
// input; with the seed and tier they replay it.
type Failure struct {
	Phase   string `json:"phase"`
	Case    int    `json:"case"`
	Variant string `json:"variant"`
	Msg     string `json:"msg"`
}

// Result is what one worker process observed.
type Result struct {
	Cases    int64            `json:"cases"`
	Counters map[string]int64 `json:"counters"`
	Distinct []uint64         `json:"distinct"`
	Samples  []string         `json:"samples"`
	Fails    []Failure        `json:"fails"`
	Known    []string         `json:"known"`
	Done     bool             `json:"done"`
	// HarnessErr is a mistake of the harness itself.
	HarnessErr string `json:"harness_err"`
}

// Ctx is the state of one worker: which cases it runs, what it observed.
type Ctx struct {
	Prop, Tier, Variant string
	Seed                uint64
	shard, shards       int
	onlyPhase           string
	onlyCase            int
	verbose             bool

	mu       sync.Mutex
	res      Result
	distinct map[uint64]struct{}
	progress *os.File
	outPath  string

	curCase atomic.Int64
	curName atomic.Value
}

// Case is one generated case. All its random choices come from R.
type Case struct {
	*Ctx
	Phase string
	Idx   int
	R     *Rng
}

type failPanic struct{ msg string }

const maxFails = 3

// Failf reports that the property is violated in this case, and ends the case.
func (k *Case) Failf(format string, args ...any) {
	panic(failPanic{fmt.Sprintf(format, args...)})
}

// Count counts events the monitors observed.
func (c *Ctx) Count(name string, n int) {
	c.mu.Lock()
	c.res.Counters[name] += int64(n)
	c.mu.Unlock()
}

// Nontrivial records a case that exercised the property, by content.
func (c *Ctx) Nontrivial(key string) {
	h := fnv.New64a()
	h.Write([]byte(key))
	c.mu.Lock()
	c.distinct[h.Sum64()] = struct{}{}
	c.mu.Unlock()
}

// Sample keeps a few actual cases for the evidence file.
func (k *Case) Sample(format string, args ...any) {
	k.mu.Lock()
	defer k.mu.Unlock()
	n := 0
	pre := k.Phase + ": "
	for _, s := range k.res.Samples {
		if len(s) >= len(pre) && s[:len(pre)] == pre {
			n++
		}
	}
	if n < 2 {
		s := pre + fmt.Sprintf(format, args...)
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		k.res.Samples = append(k.res.Samples, s)
	}
}

// Known reports that a listed known finding was seen.
func (c *Ctx) Known(what string) {
	c.mu.Lock()
	c.res.Known = append(c.res.Known, what)
	c.mu.Unlock()
}

// N chooses the number of cases of a phase: those given, times the monitor's
// factors for the tier.
func (c *Ctx) N(quick, thorough int) int {
	def := checks[c.Prop]
	if c.Tier == "thorough" {
		n := thorough * max(1, def.Deep)
		if c.Variant == "386" {
			n = min(n, max(thorough, n/4)) // slower, for what is rarely different
		}
		return n
	}
	return max(quick, min(quick*max(1, def.Boost), thorough))
}

// Fixed is N for a phase that enumerates something.
func (c *Ctx) Fixed(quick, thorough int) int {
	if c.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Run runs cases 0..n-1 of a phase (this worker's share of them).
func (c *Ctx) Run(phase string, n int, f func(k *Case)) {
	if c.onlyPhase != "" && c.onlyPhase != phase {
		return
	}
	for i := 0; i < n; i++ {
		if i%c.shards != c.shard && c.onlyPhase == "" {
			continue
		}
		if c.onlyPhase != "" && c.onlyCase >= 0 && i != c.onlyCase {
			continue
		}
		if len(c.res.Fails) >= maxFails {
			return
		}
		k := &Case{Ctx: c, Phase: phase, Idx: i, R: newRng(c.Seed, c.Prop, phase, i)}
		c.curName.Store(phase)
		c.curCase.Store(int64(i) + 1)
		if c.progress != nil {
			b := []byte(fmt.Sprintf("%-30s %12d\n", phase, i))
			_, _ = c.progress.WriteAt(b, 0)
		}
		c.runCase(k, f)
		c.res.Cases++
	}
	c.curCase.Store(0)
}

func (c *Ctx) runCase(k *Case, f func(k *Case)) {
	defer func() {
		if p := recover(); p != nil {
			msg := ""
			if he, ok := p.(harnessErr); ok {
				c.mu.Lock()
				c.res.HarnessErr = fmt.Sprintf("%s case %d: %s", k.Phase, k.Idx, he.msg)
				c.mu.Unlock()
				return
			}
			if fp, ok := p.(failPanic); ok {
				msg = fp.msg
			} else {
				msg = fmt.Sprintf("unexpected panic: %v\n%s", p, debug.Stack())
			}
			c.mu.Lock()
			c.res.Fails = append(c.res.Fails, Failure{Phase: k.Phase, Case: k.Idx, Variant: c.Variant, Msg: msg})
			c.mu.Unlock()
		}
	}()
	f(k)
	if n, txt := raceReports(); n > 0 {
		k.Count("data_race_reports", n)
		k.Failf("%d data race reports, first:\n%s", n, txt)
	}
}

var raceLogSeen int

// raceReports reads what the race detector has reported since the last call.
func raceReports() (int, string) {
	log := os.Getenv("VH_RACELOG")
	if log == "" {
		return 0, ""
	}
	b, err := os.ReadFile(fmt.Sprintf("%s.%d", log, os.Getpid()))
	if err != nil || len(b) <= raceLogSeen {
		return 0, ""
	}
	txt := string(b[raceLogSeen:])
	raceLogSeen = len(b)
	n := strings.Count(txt, "WARNING: DATA RACE")
	if len(txt) > 5000 {
		txt = txt[:5000]
	}
	return n, txt
}

// panics runs f and returns whether it panicked, and with what. Failures
// reported by the harness itself pass through.
func panics(f func()) (bad bool, val any) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(failPanic); ok {
				panic(p)
			}
			if _, ok := p.(harnessErr); ok {
				panic(p)
			}
			bad, val = true, p
		}
	}()
	f()
	return false, nil
}

func (c *Ctx) finish(done bool) {
	c.mu.Lock()
	defer c.mu.Unlock()
	c.res.Done = done
	for h := range c.distinct {
		c.res.Distinct = append(c.res.Distinct, h)
	}
	b, err := json.Marshal(&c.res)
	if err != nil {
		panic(err)
	}
	if err := os.WriteFile(c.outPath, b, 0666); err != nil {
		panic(err)
	}
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

// watchdog ends the worker when one case, which normally takes milliseconds,
// uses up an enormous amount of CPU time or memory. CPU time, unlike wall-clock
// time, does not depend on how loaded the machine is.
func (c *Ctx) watchdog(cpuLimit float64, memLimit uint64) {
	var lastCase int64
	var lastName any
	var startCPU float64
	for {
		time.Sleep(500 * time.Millisecond)
		cur, name := c.curCase.Load(), c.curName.Load()
		if cur == 0 {
			lastCase = 0
			continue
		}
		if cur != lastCase || name != lastName {
			lastCase, lastName, startCPU = cur, name, cpuSeconds()
			continue
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		msg := ""
		if used := cpuSeconds() - startCPU; used > cpuLimit {
			msg = fmt.Sprintf("does not terminate: this case normally takes milliseconds but used %.0f s of CPU time", used)
		} else if ms.HeapAlloc > memLimit {
			msg = fmt.Sprintf("unbounded memory: this case normally needs little memory but uses %d MB", ms.HeapAlloc>>20)
		}
		if msg != "" && c.curCase.Load() == lastCase {
			c.mu.Lock()
			c.res.Fails = append(c.res.Fails, Failure{Phase: fmt.Sprint(name), Case: int(cur - 1), Variant: c.Variant, Msg: msg})
			c.mu.Unlock()
			c.finish(false)
			os.Exit(0)
		}
	}
}

// Rng is a deterministic source of random choices.
type Rng struct {
	*rand.Rand
	huge bool // something very large was made
}

func newRng(seed uint64, prop, phase string, i int) *Rng {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s/%d", prop, phase, i)
	return &Rng{Rand: rand.New(rand.NewPCG(seed, h.Sum64()))}
}

// Chance is true with probability pct/100.
func (r *Rng) Chance(pct int) bool { return r.IntN(100) < pct }

// Pick picks one of the given values.
func Pick[T any](r *Rng, vs []T) T { return vs[r.IntN(len(vs))] }

func OneOf[T any](r *Rng, vs ...T) T { return vs[r.IntN(len(vs))] }

func (r *Rng) Between(lo, hi int) int { return lo + r.IntN(hi-lo+1) }
