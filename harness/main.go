package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// CheckDef is the monitor for one property.
type CheckDef struct {
	Run      func(c *Ctx)
	Rule     string
	Variants []string // "default", "race", "purego", "386"
	Shards   int
	// Boost and Deep multiply the numbers of cases of the quick and the
	// thorough tier.
	Boost, Deep int
	// Needs lists minimum event counts: a run that observed less decided nothing.
	Needs       map[string]int64
	Assumptions []string
	// CPULimit is the CPU time one case may take, in seconds (default 100).
	CPULimit float64
	// Unpriv runs the workers as an unprivileged user, in a directory of their
	// own, so that a wrong path in the code under test reaches nothing real.
	Unpriv bool
}

// nobody is the user that unprivileged workers run as.
const nobody = 65534

var checks = map[string]*CheckDef{}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	seed := flag.Uint64("seed", 0, "seed")
	worker := flag.String("worker", "", "run as worker, writing results to this file")
	variant := flag.String("variant", "default", "worker: build variant")
	shard := flag.String("shard", "0/1", "worker: i/n")
	phase := flag.String("phase", "", "replay only this phase")
	kase := flag.Int("case", -1, "replay only this case")
	replay := flag.String("replay", "", "replay file")
	bins := flag.String("bins", "", "variant=path,... of worker binaries")
	verif := flag.String("verif", "/verif", "output root")
	covdir := flag.String("covdir", "", "collect coverage here")
	sub := flag.String("sub", "", "run an isolated demonstration (internal)")
	flag.Parse()

	if *sub == "dictbase" {
		if err := writeDictBase("dict_base.txt"); err != nil {
			fatal("%v", err)
		}
		return
	}
	if *sub != "" {
		runSub(*sub)
		return
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *seed == 0 {
		*seed, _ = strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
		if *seed == 0 {
			*seed = 1
		}
	}
	if *worker != "" {
		runWorker(*prop, *tier, *variant, *seed, *shard, *worker, *phase, *kase)
		return
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fatal("%v", err)
		}
		var r replayFile
		if err := json.Unmarshal(b, &r); err != nil {
			fatal("%v", err)
		}
		*prop, *tier, *seed, *phase, *kase = r.Property, r.Tier, r.Seed, r.Phase, r.Case
	}
	exportDict()
	os.Exit(supervise(*prop, *tier, *seed, *bins, *verif, *phase, *kase, *covdir))
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, "ERROR: "+format+"\n", args...)
	os.Exit(2)
}

type replayFile struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Seed     uint64 `json:"seed"`
	Variant  string `json:"variant"`
	Phase    string `json:"phase"`
	Case     int    `json:"case"`
	Message  string `json:"message"`
	How      string `json:"how_to_replay"`
}

func runWorker(prop, tier, variant string, seed uint64, shard, out, phase string, kase int) {
	def := checks[prop]
	c := &Ctx{Prop: prop, Tier: tier, Variant: variant, Seed: seed, outPath: out, onlyPhase: phase, onlyCase: kase,
		distinct: map[uint64]struct{}{}}
	c.res.Counters = map[string]int64{}
	fmt.Sscanf(shard, "%d/%d", &c.shard, &c.shards)
	c.curName.Store("")
	debug.SetMaxStack(256 << 20)
	if f, err := os.Create(out + ".progress"); err == nil {
		c.progress = f
	}
	limit := def.CPULimit
	if limit == 0 {
		limit = 100
	}
	go c.watchdog(limit, 5<<30)
	def.Run(c)
	c.finish(true)
}

func supervise(prop, tier string, seed uint64, bins, verif, phase string, kase int, covdir string) int {
	start := time.Now()
	def := checks[prop]
	if def == nil {
		fatal("unknown property %q", prop)
	}
	exes := map[string]string{}
	for _, b := range strings.Split(bins, ",") {
		if v, p, ok := strings.Cut(b, "="); ok {
			exes[v] = p
		}
	}
	variants := def.Variants
	if len(variants) == 0 {
		variants = []string{"default"}
	}
	if exes["386"] == "" {
		variants = slices.DeleteFunc(slices.Clone(variants), func(v string) bool { return v == "386" })
	}
	shards := def.Shards
	if shards == 0 {
		shards = 8
	}
	if phase != "" {
		shards = 1
	}
	tmp, err := os.MkdirTemp("", "vh")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)

	type run struct {
		variant string
		res     Result
		err     string // inconclusive
	}
	var mu sync.Mutex
	var runs []run
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	// Copies that another user can run are complete before the first process
	// starts: a file that is still open for writing, also in a process that is
	// just being forked, cannot be run.
	copies := map[string]string{}
	for _, v := range variants {
		exe := exes[v]
		if exe == "" {
			if self, err := os.Executable(); err == nil && v == "default" {
				exe = self
			} else {
				fatal("no binary for variant %s", v)
			}
		}
		exes[v] = exe
		if def.Unpriv && os.Geteuid() == 0 {
			own := filepath.Join(tmp, "worker-"+v)
			if err := os.Chmod(tmp, 0711); err != nil {
				fatal("%v", err)
			}
			if err := copyFile(exe, own); err != nil {
				fatal("%v", err)
			}
			copies[v] = own
		}
	}
	for _, v := range variants {
		exe, own := exes[v], copies[v]
		for s := 0; s < shards; s++ {
			wg.Add(1)
			go func(v, exe string, s int) {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				out := filepath.Join(tmp, fmt.Sprintf("%s-%d.json", v, s))
				args := []string{"-prop", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-worker", out, "-variant", v,
					"-shard", fmt.Sprintf("%d/%d", s, shards)}
				if phase != "" {
					args = append(args, "-phase", phase, "-case", fmt.Sprint(kase))
				}
				cmd := exec.Command(exe, args...)
				if own != "" {
					dir := filepath.Join(tmp, fmt.Sprintf("%s-%d", v, s))
					out = filepath.Join(dir, "result.json")
					err := os.Mkdir(dir, 0700)
					if err == nil {
						err = os.Chown(dir, nobody, nobody)
					}
					if err != nil {
						fatal("%v", err)
					}
					for i, a := range args {
						if a == "-worker" {
							args[i+1] = out
						}
					}
					cmd = exec.Command(own, args...)
					cmd.Dir = dir
					cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: nobody, Gid: nobody, Groups: []uint32{}}}
				}
				var stderr bytes.Buffer
				cmd.Stderr = &limitedWriter{buf: &stderr, max: 1 << 20}
				cmd.Stdout = os.Stderr
				raceLog := filepath.Join(tmp, fmt.Sprintf("race-%s-%d", v, s))
				if own != "" {
					raceLog = filepath.Join(filepath.Dir(out), "race")
				}
				cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+raceLog, "GOTRACEBACK=single")
				if v == "race" {
					cmd.Env = append(cmd.Env, "VH_RACELOG="+raceLog)
				}
				if def.Unpriv {
					cmd.Env = append(cmd.Env, "VH_SCRATCH="+filepath.Dir(out), "HOME="+filepath.Join(filepath.Dir(out), "home"), "TMPDIR="+filepath.Dir(out))
				}
				if covdir != "" && v == "default" {
					cmd.Env = append(cmd.Env, "GOCOVERDIR="+covdir)
				}
				err := cmd.Run()
				r := run{variant: v}
				b, rerr := os.ReadFile(out)
				if rerr == nil {
					if jerr := json.Unmarshal(b, &r.res); jerr != nil {
						r.err = "bad worker result: " + jerr.Error()
					}
				}
				if rerr != nil || err != nil {
					// The worker died. A fatal error of the Go runtime (stack
					// overflow, concurrent map access, checkptr, ...) cannot be
					// recovered, so it is attributed to the case under way.
					ph, cs := readProgress(out + ".progress")
					txt := stderr.String()
					killed := false
					if ee, ok := err.(*exec.ExitError); ok {
						if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL {
							killed = true
						}
					}
					if !killed && strings.Contains(txt, "fatal error:") || strings.HasPrefix(txt, "panic: ") && strings.Contains(txt, "jhump/gopoet") || strings.Contains(txt, "unexpected signal") || strings.Contains(txt, "SIGSEGV") {
						if len(txt) > 6000 {
							txt = txt[:6000]
						}
						r.res.Fails = append(r.res.Fails, Failure{Phase: ph, Case: cs, Variant: v, Msg: "process crashed: " + txt})
						r.res.Done = true
					} else {
						r.err = fmt.Sprintf("worker %s/%d ended with %v in %s case %d: %s", v, s, err, ph, cs, tail(txt, 2000))
					}
				}
				// Reports that no case accounts for, such as those of a worker
				// that died.
				if logs, _ := filepath.Glob(raceLog + ".*"); len(logs) > 0 && len(r.res.Fails) == 0 {
					for _, l := range logs {
						lb, _ := os.ReadFile(l)
						if n := strings.Count(string(lb), "WARNING: DATA RACE"); n > 0 {
							ph, cs := readProgress(out + ".progress")
							r.res.Fails = append(r.res.Fails, Failure{Phase: ph, Case: cs, Variant: v,
								Msg: fmt.Sprintf("%d data race reports (at the latest in this case), first:\n%s", n, tail(string(lb), 5000))})
						}
					}
				}
				mu.Lock()
				runs = append(runs, r)
				mu.Unlock()
			}(v, exe, s)
		}
	}
	wg.Wait()

	total := Result{Counters: map[string]int64{}}
	distinct := map[uint64]bool{}
	inconclusive := ""
	knownSeen := map[string]bool{}
	perVariant := map[string]int64{}
	for _, r := range runs {
		if r.err != "" {
			inconclusive = r.err
		}
		if r.res.HarnessErr != "" {
			inconclusive = "harness error: " + r.res.HarnessErr
		}
		total.Cases += r.res.Cases
		perVariant[r.variant] += r.res.Cases
		for k, n := range r.res.Counters {
			total.Counters[k] += n
		}
		for _, h := range r.res.Distinct {
			distinct[h] = true
		}
		for _, k := range r.res.Known {
			if !knownSeen[k] {
				knownSeen[k] = true
				total.Known = append(total.Known, k)
			}
		}
		total.Fails = append(total.Fails, r.res.Fails...)
		for _, s := range r.res.Samples {
			if len(total.Samples) < 12 {
				total.Samples = append(total.Samples, s)
			}
		}
	}
	sort.Strings(total.Known)
	listed := knownFindings(filepath.Join(verif, "known_findings.txt"))
	for _, k := range total.Known {
		line := fmt.Sprintf("KNOWN-FINDING: property=%s %s", prop, k)
		if !listed[line] {
			total.Fails = append(total.Fails, Failure{Phase: "known findings", Case: -1, Variant: "default", Msg: "not a listed finding: " + k})
			continue
		}
		fmt.Println(line)
	}
	sort.SliceStable(total.Fails, func(i, j int) bool {
		a, b := total.Fails[i], total.Fails[j]
		if a.Phase != b.Phase {
			return a.Phase < b.Phase
		}
		return a.Case < b.Case
	})

	exit := 0
	for i, f := range total.Fails {
		if i >= maxFails {
			break
		}
		dir := filepath.Join(verif, "evidence", "replays")
		_ = os.MkdirAll(dir, 0777)
		path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", prop, i))
		b, _ := json.MarshalIndent(replayFile{Property: prop, Tier: tier, Seed: seed, Variant: f.Variant, Phase: f.Phase, Case: f.Case,
			Message: f.Msg, How: "cd /verif && ./check.sh " + prop + " -replay " + path}, "", " ")
		_ = os.WriteFile(path, b, 0666)
		msg := f.Msg
		if len(msg) > 4000 {
			msg = msg[:4000] + "..."
		}
		fmt.Printf("--- %s: %s case %d (%s build)\n%s\n", prop, f.Phase, f.Case, f.Variant, msg)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		exit = 1
	}
	if exit == 0 && inconclusive != "" {
		fmt.Printf("INCONCLUSIVE property=%s %s\n", prop, inconclusive)
		exit = 2
	}
	if exit == 0 && phase == "" {
		for name, min := range def.Needs {
			if total.Counters[name] < min {
				fmt.Printf("INCONCLUSIVE property=%s observed only %d of %s, need %d\n", prop, total.Counters[name], name, min)
				exit = 2
			}
		}
	}

	if phase == "" {
		cov := map[string]any{
			"evaluations":         total.Cases,
			"distinct_nontrivial": len(distinct),
			"rule":                def.Rule,
			"samples":             total.Samples,
			"events_observed":     total.Counters,
			"cases_per_build":     perVariant,
			"known_findings_seen": total.Known,
		}
		if cp := os.Getenv("VH_COVERAGE_FILE"); cp != "" {
			cov["coverage_profile"] = cp
		}
		ev := map[string]any{
			"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
			"assumptions": append([]string{"says nothing about inputs outside the generated ones"}, def.Assumptions...),
			"wall_s":      time.Since(start).Seconds(), "violations": len(total.Fails),
		}
		b, _ := json.MarshalIndent(ev, "", " ")
		_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0777)
		if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), b, 0666); err != nil {
			fatal("%v", err)
		}
	}
	var names []string
	for k := range total.Counters {
		names = append(names, k)
	}
	sort.Strings(names)
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct nontrivial, %.1fs", prop, tier, seed, total.Cases, len(distinct), time.Since(start).Seconds())
	for _, k := range names {
		fmt.Printf(" %s=%d", k, total.Counters[k])
	}
	fmt.Println()
	if exit == 0 {
		fmt.Printf("OK property=%s held on everything explored\n", prop)
	}
	return exit
}

// knownFindings reads the findings that do not count as violations.
func knownFindings(path string) map[string]bool {
	ret := map[string]bool{}
	b, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "KNOWN-FINDING: ") {
			ret[strings.TrimSpace(l)] = true
		}
	}
	return ret
}

func copyFile(from, to string) error {
	b, err := os.ReadFile(from)
	if err != nil {
		return err
	}
	return os.WriteFile(to, b, 0755)
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func readProgress(path string) (string, int) {
	b, err := os.ReadFile(path)
	if err != nil {
		return "?", -1
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return "?", -1
	}
	n, _ := strconv.Atoi(f[len(f)-1])
	return strings.Join(f[:len(f)-1], " "), n
}

type limitedWriter struct {
	buf *bytes.Buffer
	max int
}

func (w *limitedWriter) Write(p []byte) (int, error) {
	if w.buf.Len() < w.max {
		w.buf.Write(p)
	}
	return len(p), nil
}
