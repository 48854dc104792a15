package core

import (
	"bufio"
	"bytes"
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Prop is one property check. Case i of the check is a pure function of (seed, property, i).
type Prop struct {
	ID string
	// Cases is how many random cases to run per tier.
	Quick, Thorough int
	// Rule describes how cases are made and when one is non-trivial (goes to the evidence file).
	Rule string
	// Assumptions go to the evidence file.
	Assumptions []string
	// Run generates, executes and judges case i.
	Run func(c *Ctx, i int)
	// Fixed are named deterministic executions, run before the random ones. A failing one whose name and
	// signature are listed in known_findings.jsonl is a KNOWN-FINDING, otherwise a violation.
	Fixed []FixedCase
	// CPUBudget is the CPU seconds a single case may burn before it counts as non-terminating.
	CPUBudget float64
	// MemMB is the address-space limit of a worker in MiB (0: default).
	MemMB int
	// Workers overrides the number of worker processes.
	Workers int
	// MinEvents: the check does not pass if an event class named here was never observed.
	MinEvents []string
	// Level is the manifest/evidence level (default "exploration").
	Level string
	// Custom replaces the case runner completely.
	Custom func(h *Host)
	// Race: workers are started from the race-instrumented binary.
	Race bool
}

type FixedCase struct {
	Name string
	Run  func(c *Ctx)
}

var registry = map[string]*Prop{}

func Register(p *Prop) { registry[p.ID] = p }

func Get(id string) *Prop { return registry[id] }

func IDs() []string {
	var ids []string
	for id := range registry {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

// Violation is one refuted execution.
type Violation struct {
	Property string `json:"property"`
	Case     string `json:"case"`
	Seed     uint64 `json:"seed"`
	Tier     string `json:"tier"`
	Sig      string `json:"signature"`
	Detail   string `json:"detail"`
}

// Ctx is handed to a case: it collects the verdict and what the monitors observed.
type Ctx struct {
	Prop     *Prop
	Seed     uint64
	Tier     string
	caseName string
	R        *Rand

	res     *result
	failed  bool
	nonTriv bool
	key     uint64
	input   string
}

type result struct {
	mu          sync.Mutex
	Evaluations int               `json:"evaluations"`
	Events      map[string]int64  `json:"events"`
	Distinct    map[uint64]bool   `json:"-"`
	DistinctL   []uint64          `json:"distinct"`
	Samples     []string          `json:"samples"`
	Violations  []Violation       `json:"violations"`
	Fixed       map[string]string `json:"fixed"`
	Done        bool              `json:"done"`
	Next        int               `json:"next"`
}

// Ev counts an observed event.
func (c *Ctx) Ev(name string) { c.EvN(name, 1) }

func (c *Ctx) EvN(name string, n int64) {
	c.res.mu.Lock()
	c.res.Events[name] += n
	c.res.mu.Unlock()
}

// Input records the concrete input of the case (shown on violation) and its identity.
func (c *Ctx) Input(s string) {
	c.input = s
	c.key = HashString(s)
}

// NonTrivial marks the case as non-trivial by the property's rule.
func (c *Ctx) NonTrivial() { c.nonTriv = true }

func (c *Ctx) Failed() bool { return c.failed }

// Fail records a violation. sig is a short stable classification, the rest is free text.
func (c *Ctx) Fail(sig, format string, args ...any) {
	c.failed = true
	d := fmt.Sprintf(format, args...)
	if c.input != "" {
		d += "\n--- input ---\n" + clip(c.input, 6000)
	}
	c.res.mu.Lock()
	c.res.Violations = append(c.res.Violations, Violation{c.Prop.ID, c.caseName, c.Seed, c.Tier, sig, clip(d, 12000)})
	c.res.mu.Unlock()
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…(clipped)"
	}
	return s
}

func caseRand(seed uint64, id string, i int) *Rand {
	return NewRand(seed, HashString(id), uint64(i))
}

// runOne executes one case with panic capture.
func (c *Ctx) runOne(f func()) {
	defer func() {
		if r := recover(); r != nil {
			c.Fail("panic", "panic: %v\n%s", r, clip(string(debug.Stack()), 4000))
		}
		c.res.mu.Lock()
		c.res.Evaluations++
		if c.nonTriv {
			if c.key == 0 {
				c.key = HashString(c.caseName)
			}
			c.res.Distinct[c.key] = true
		}
		if len(c.res.Samples) < 3 && c.input != "" && c.nonTriv && len(c.input) < 1500 {
			c.res.Samples = append(c.res.Samples, c.caseName+": "+c.input)
		}
		c.res.mu.Unlock()
	}()
	f()
}

func newResult() *result {
	return &result{Events: map[string]int64{}, Distinct: map[uint64]bool{}, Fixed: map[string]string{}}
}

// ---- worker side ----

func cpuSeconds() float64 {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

const exitCPU = 97

// Worker runs a shard of a property's cases. Progress goes to the status file so that the host can tell which
// case was running when the process died.
func Worker(p *Prop, seed uint64, tier string, shard, shards, start, total int, dir string) {
	debug.SetMaxStack(256 << 20)
	if !p.Race {
		mb := p.MemMB
		if mb == 0 {
			mb = 3584 // all workers together stay within the memory of the machine
		}
		lim := uint64(mb) << 20
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &syscall.Rlimit{Cur: lim, Max: lim})
	}
	st, err := os.OpenFile(filepath.Join(dir, fmt.Sprintf("status.%d", shard)), os.O_CREATE|os.O_RDWR, 0o644)
	if err != nil {
		panic(err)
	}
	var caseStart atomic.Uint64 // cpu milliseconds at start of the case
	budget := p.CPUBudget
	if budget == 0 {
		budget = 30
	}
	if p.Race {
		budget *= 10
	}
	go func() {
		for {
			time.Sleep(250 * time.Millisecond)
			if cs := caseStart.Load(); cs != 0 && cpuSeconds()*1000-float64(cs) > budget*1000 {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				os.Stderr.Write(buf[:n])
				os.Exit(exitCPU)
			}
		}
	}()
	res := newResult()
	mark := func(i int) {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(int64(i)))
		_, _ = st.WriteAt(b[:], 0)
		caseStart.Store(uint64(cpuSeconds()*1000) + 1)
	}
	lastFlush := time.Now()
	for i := start; i < total; i++ {
		if i >= 0 && i%shards != shard {
			continue
		}
		mark(i)
		runIndex(p, seed, tier, i, res)
		res.Next = i + 1
		if len(res.Violations) >= 20 {
			break
		}
		if time.Since(lastFlush) > 2*time.Second {
			flush(res, dir, shard, start)
			lastFlush = time.Now()
		}
	}
	caseStart.Store(0)
	res.Done = true
	flush(res, dir, shard, start)
}

func runIndex(p *Prop, seed uint64, tier string, i int, res *result) {
	c := &Ctx{Prop: p, Seed: seed, Tier: tier, res: res, R: caseRand(seed, p.ID, i)}
	if i < 0 { // fixed case
		fc := p.Fixed[-i-1]
		c.caseName = "fixed:" + fc.Name
		c.runOne(func() { fc.Run(c) })
		return
	}
	c.caseName = strconv.Itoa(i)
	c.runOne(func() { p.Run(c, i) })
}

func flush(res *result, dir string, shard, start int) {
	res.mu.Lock()
	defer res.mu.Unlock()
	res.DistinctL = res.DistinctL[:0]
	for k := range res.Distinct {
		res.DistinctL = append(res.DistinctL, k)
	}
	b, _ := json.Marshal(res)
	name := filepath.Join(dir, fmt.Sprintf("result.%d.%d", shard, start+1<<20))
	_ = os.WriteFile(name+".tmp", b, 0o644)
	_ = os.Rename(name+".tmp", name)
}

// ---- host side ----

// Host runs a check and reports.
type Host struct {
	P        *Prop
	Seed     uint64
	Tier     string
	VerifDir string
	Self     string
	Dir      string
	Res      *result
	Started  time.Time
	Extra    map[string]any

	inconclusive []string
}

func (h *Host) Ctx(name string) *Ctx {
	return &Ctx{Prop: h.P, Seed: h.Seed, Tier: h.Tier, res: h.Res, caseName: name,
		R: NewRand(h.Seed, HashString(h.P.ID), HashString(name))}
}

// Case runs f as a named case in the host process.
func (h *Host) Case(name string, f func(c *Ctx)) {
	c := h.Ctx(name)
	c.runOne(func() { f(c) })
}

func (h *Host) Inconclusive(format string, args ...any) {
	h.inconclusive = append(h.inconclusive, fmt.Sprintf(format, args...))
}

func (h *Host) total() int {
	if h.Tier == "thorough" {
		if h.P.Thorough > 0 {
			return h.P.Thorough
		}
		return h.P.Quick * 20
	}
	return h.P.Quick
}

// RunWorkers drives all shards to completion, restarting after crashes.
func (h *Host) RunWorkers() {
	shards := h.P.Workers
	if shards == 0 {
		shards = runtime.NumCPU()
		if shards > 8 {
			shards = 8
		}
	}
	total := h.total()
	var wg sync.WaitGroup
	var mu sync.Mutex
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			start := 0
			if s == 0 {
				start = -len(h.P.Fixed)
			}
			crashes := 0
			for start < total && crashes < 8 {
				out, err := h.spawn(s, shards, start, total)
				r := h.load(s, start)
				mu.Lock()
				h.merge(r)
				mu.Unlock()
				if err == nil && r != nil && r.Done {
					return
				}
				// the worker died: attribute to the running case
				idx, ok := h.status(s)
				if !ok || idx < start {
					mu.Lock()
					h.Inconclusive("worker %d died before its first case: %v\n%s", s, err, clip(out, 2000))
					mu.Unlock()
					return
				}
				sig := "crash"
				what := "the process died"
				var ee *exec.ExitError
				if errors.As(err, &ee) && ee.ExitCode() == exitCPU {
					sig, what = "no-termination", "the case did not terminate within its CPU budget"
				} else if strings.Contains(out, "stack overflow") || strings.Contains(out, "stack exceeds") {
					sig, what = "stack-overflow", "stack overflow"
				} else if strings.Contains(out, "out of memory") || strings.Contains(out, "cannot allocate memory") {
					sig, what = "out-of-memory", "unbounded memory growth"
				} else if strings.Contains(out, "DATA RACE") {
					sig, what = "data-race", "race detector report"
				}
				name := strconv.Itoa(idx)
				if idx < 0 {
					name = "fixed:" + h.P.Fixed[-idx-1].Name
				}
				mu.Lock()
				h.Res.Violations = append(h.Res.Violations, Violation{h.P.ID, name, h.Seed, h.Tier, sig,
					fmt.Sprintf("%s (%v)\n%s", what, err, clip(out, 6000))})
				h.Res.Events["worker-crash"]++
				mu.Unlock()
				crashes++
				start = idx + 1
			}
		}(s)
	}
	wg.Wait()
}

func (h *Host) spawn(s, shards, start, total int) (string, error) {
	args := []string{"worker", h.P.ID, strconv.FormatUint(h.Seed, 10), h.Tier, strconv.Itoa(s), strconv.Itoa(shards),
		strconv.Itoa(start), strconv.Itoa(total), h.Dir}
	cmd := exec.Command(h.Self, args...)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GOMAXPROCS=2")
	if h.P.Race {
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66")
	}
	err := cmd.Run()
	out := buf.String()
	if len(out) > 20000 {
		out = out[:10000] + "\n...\n" + out[len(out)-10000:]
	}
	return out, err
}

func (h *Host) status(s int) (int, bool) {
	b, err := os.ReadFile(filepath.Join(h.Dir, fmt.Sprintf("status.%d", s)))
	if err != nil || len(b) < 8 {
		return 0, false
	}
	return int(int64(binary.LittleEndian.Uint64(b))), true
}

func (h *Host) load(s, start int) *result {
	b, err := os.ReadFile(filepath.Join(h.Dir, fmt.Sprintf("result.%d.%d", s, start+1<<20)))
	if err != nil {
		return nil
	}
	r := newResult()
	if json.Unmarshal(b, r) != nil {
		return nil
	}
	return r
}

func (h *Host) merge(r *result) {
	if r == nil {
		return
	}
	h.Res.Evaluations += r.Evaluations
	for k, v := range r.Events {
		h.Res.Events[k] += v
	}
	for _, k := range r.DistinctL {
		h.Res.Distinct[k] = true
	}
	for _, s := range r.Samples {
		if len(h.Res.Samples) < 4 {
			h.Res.Samples = append(h.Res.Samples, s)
		}
	}
	h.Res.Violations = append(h.Res.Violations, r.Violations...)
}

type known struct {
	Property string `json:"property"`
	Status   string `json:"status"`
	Case     string `json:"case"`
	Sig      string `json:"signature"`
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func loadKnown(path string) []known {
	f, err := os.Open(path)
	if err != nil {
		return nil
	}
	defer f.Close()
	var out []known
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		var k known
		if json.Unmarshal(sc.Bytes(), &k) == nil && k.Property != "" {
			out = append(out, k)
		}
	}
	return out
}

// Report prints verdict lines, writes the evidence file and returns the exit code.
func (h *Host) Report() int {
	knowns := loadKnown(filepath.Join(h.VerifDir, "known_findings.jsonl"))
	var viols []Violation
	printed := map[string]bool{}
	for _, v := range h.Res.Violations {
		listed := false
		for _, k := range knowns {
			if k.Status == "known" && k.Property == v.Property && k.Case == v.Case && k.Sig == v.Sig {
				listed = true
				key := k.Case + "|" + k.Sig
				if !printed[key] {
					printed[key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s [%s]\n", k.Property, k.What, k.Case)
				}
			}
		}
		if !listed {
			viols = append(viols, v)
		}
	}
	level := h.P.Level
	if level == "" {
		level = "exploration"
	}
	var evs []string
	for k := range h.Res.Events {
		evs = append(evs, k)
	}
	sort.Strings(evs)
	events := map[string]int64{}
	for _, k := range evs {
		events[k] = h.Res.Events[k]
	}
	cov := map[string]any{
		"evaluations":         h.Res.Evaluations,
		"distinct_nontrivial": len(h.Res.Distinct),
		"rule":                h.P.Rule,
		"samples":             h.Res.Samples,
		"observed_events":     events,
		"known_findings_seen": len(printed),
	}
	for k, v := range h.Extra {
		cov[k] = v
	}
	if h.Res.Samples == nil {
		cov["samples"] = []string{}
	}
	ev := map[string]any{
		"property": h.P.ID, "tier": h.Tier, "seed": h.Seed, "level": level, "coverage": cov,
		"assumptions": append([]string{}, h.P.Assumptions...),
		"wall_s":      time.Since(h.Started).Seconds(), "violations": len(viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(h.VerifDir, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(h.VerifDir, "evidence", h.P.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 4
	}
	if len(viols) > 0 {
		dir := filepath.Join(h.VerifDir, "evidence", "replay")
		_ = os.MkdirAll(dir, 0o755)
		for i, v := range viols {
			if i >= 10 {
				break
			}
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", h.P.ID, sanitize(v.Case), i))
			vb, _ := json.MarshalIndent(v, "", " ")
			_ = os.WriteFile(path, append(vb, '\n'), 0o644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", h.P.ID, path)
			fmt.Printf("  case=%s signature=%s\n", v.Case, v.Sig)
			for _, l := range strings.Split(clip(v.Detail, 1500), "\n") {
				fmt.Println("    " + l)
			}
		}
		return 1
	}
	for _, m := range h.P.MinEvents {
		if h.Res.Events[m] == 0 {
			h.Inconclusive("event class %q was never observed", m)
		}
	}
	if len(h.inconclusive) > 0 {
		// the code never got to where the property can be observed: that is not a pass
		path := filepath.Join(h.VerifDir, "evidence", "replay", h.P.ID+"-inconclusive.json")
		_ = os.MkdirAll(filepath.Dir(path), 0o755)
		vb, _ := json.MarshalIndent(map[string]any{"property": h.P.ID, "signature": "not-observed", "detail": h.inconclusive}, "", " ")
		_ = os.WriteFile(path, append(vb, '\n'), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", h.P.ID, path)
		for _, s := range h.inconclusive {
			fmt.Println("  NOT-OBSERVED:", s)
		}
		return 1
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs\n", h.P.ID, h.Tier, h.Seed,
		h.Res.Evaluations, len(h.Res.Distinct), time.Since(h.Started).Seconds())
	for _, k := range evs {
		fmt.Printf("  event %-40s %d\n", k, events[k])
	}
	return 0
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' || r == '_' {
			return r
		}
		return '_'
	}, clipN(s, 60))
}

func clipN(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// RunProp is the entry point of `vh run`.
func RunProp(id, verifDir, self string, seed uint64, tier string) int {
	p := Get(id)
	if p == nil {
		fmt.Println("unknown property", id)
		return 5
	}
	dir, err := os.MkdirTemp("", "vh-"+id+"-")
	if err != nil {
		fmt.Println(err)
		return 5
	}
	if os.Getenv("VH_KEEP") == "" {
		defer os.RemoveAll(dir)
	}
	h := &Host{P: p, Seed: seed, Tier: tier, VerifDir: verifDir, Self: self, Dir: dir, Res: newResult(),
		Started: time.Now(), Extra: map[string]any{}}
	if p.Custom != nil {
		p.Custom(h)
	} else {
		h.RunWorkers()
	}
	return h.Report()
}

// Replay runs one case in this process and prints its violations.
func Replay(id, caseName string, seed uint64, tier string) int {
	p := Get(id)
	res := newResult()
	if strings.HasPrefix(caseName, "fixed:") {
		for j, fc := range p.Fixed {
			if "fixed:"+fc.Name == caseName {
				runIndex(p, seed, tier, -j-1, res)
			}
		}
	} else {
		i, err := strconv.Atoi(caseName)
		if err != nil {
			fmt.Println("cannot replay case", caseName)
			return 2
		}
		runIndex(p, seed, tier, i, res)
	}
	for _, v := range res.Violations {
		fmt.Println(v.Case, v.Sig)
		fmt.Println(v.Detail)
	}
	if len(res.Violations) > 0 {
		return 1
	}
	fmt.Println("case held; samples:", res.Samples)
	return 0
}
