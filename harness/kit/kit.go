// Package kit runs one check: a parent process that shards the enumeration of
// a bounded space over child processes, confirms violations by replay, and
// writes the evidence file; and, in the children, the bookkeeping of cases.
package kit

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"
)

// A Check decides one property.
type Check struct {
	Run     func(c *Ctx)
	Unpriv  bool   // run the children as an unprivileged user in a scratch directory
	Level   string // evidence level
	Rule    string // how cases are made, what makes one non-trivial
	Bounds  func(tier string) map[string]any
	Assume  []string
	Shards  int           // default: number of CPUs
	Quick   time.Duration // internal deadline; reaching it gives exhaustive=false
	Deep    time.Duration
	MemMB   int  // soft memory limit per child
	OwnFail bool // package testing saying that the test failed means nothing
}

// Ctx is what a child's enumeration uses.
type Ctx struct {
	T         *testing.T
	Tier      string
	Shard     int
	Of        int
	Scratch   string // private directory of this shard
	NoCases   bool   // only schedules are wanted
	only      string // replay: run only this case
	skip      map[string]bool
	cur       []byte // mmap of the current case
	counts    map[string]int64
	sets      map[string]map[uint64]struct{}
	samples   []string
	viol      []Violation
	known     map[string]bool
	knownHits map[string]int64
	start     time.Time
	budget    time.Duration
	capped    bool
	caseKey   string
	caseN     int64
}

// Violation is one failing case.
type Violation struct {
	Case   string `json:"case"`
	What   string `json:"what"`
	Detail string `json:"detail"`
}

type result struct {
	Counts  map[string]int64 `json:"counts"`
	Samples []string         `json:"samples"`
	Viol    []Violation      `json:"viol"`
	Known   map[string]int64 `json:"known"`
	Capped  bool             `json:"capped"`
}

// Thorough says whether this is the thorough tier.
func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Case begins a case. It returns false if the case is not to be run here:
// another shard's, or the run is over. idx decides the shard; key must identify the
// case for replay.
func (c *Ctx) Case(idx int, key string) bool {
	if c.Done() || c.NoCases {
		return false
	}
	if c.only != "" {
		if key != c.only {
			return false
		}
	} else if !c.Mine(idx) {
		return false
	}
	if c.skip[key] {
		c.capped = true
		return false
	}
	c.Set(key)
	c.caseN++
	c.counts["cases"]++
	if c.caseN <= 3 || c.caseN == 50 || c.caseN == 1000 {
		if len(c.samples) < 6 {
			c.samples = append(c.samples, clip(key, 400))
		}
	}
	return true
}

// Set records the current case without deciding anything.
func (c *Ctx) Set(key string) {
	c.caseKey = key
	n := copy(c.cur[8:], key)
	c.cur[4]++ // generation
	c.cur[5] += bool2b(c.cur[4] == 0)
	c.cur[0], c.cur[1], c.cur[2], c.cur[3] = byte(n), byte(n>>8), byte(n>>16), byte(n>>24)
}

func bool2b(b bool) byte {
	if b {
		return 1
	}
	return 0
}

// Mine says whether work item idx belongs to this shard.
func (c *Ctx) Mine(idx int) bool {
	return c.only != "" || c.Of <= 1 || int(uint32(idx)*2654435761>>16)%c.Of == c.Shard
}

// Tick is Done, looking at the clock every time.
func (c *Ctx) Tick() bool {
	if c.budget > 0 && time.Since(c.start) > c.budget && c.only == "" {
		c.capped = true
	}
	return c.Done()
}

// Only returns the replayed case key, if any.
func (c *Ctx) Only() string { return c.only }

// Done says whether to stop: a violation was found, or the budget is used up.
func (c *Ctx) Done() bool {
	if len(c.viol) > 0 {
		return true
	}
	if c.caseN&15 == 0 && c.budget > 0 && time.Since(c.start) > c.budget && c.only == "" {
		c.capped = true
	}
	return c.capped
}

// Capped says whether the time budget ended the enumeration.
func (c *Ctx) Cap() { c.capped = true }

// Violate records a violation of the current case.
func (c *Ctx) Violate(what, format string, args ...any) {
	c.viol = append(c.viol, Violation{c.caseKey, what, clip(fmt.Sprintf(format, args...), 6000)})
}

// Known records a violation that may be listed as a known finding under this id.
// If it is not listed it is a violation.
func (c *Ctx) Known(id, what, format string, args ...any) {
	if c.known[id] {
		c.knownHits[id]++
		return
	}
	c.Violate(what, format, args...)
}

// Violated says whether a violation was recorded.
func (c *Ctx) Violated() bool { return len(c.viol) > 0 }

// Count adds to a named counter.
func (c *Ctx) Count(name string, n int) { c.counts[name] += int64(n) }

// Max raises a named maximum.
func (c *Ctx) Max(name string, n int) {
	if k := "max_" + name; c.counts[k] < int64(n) {
		c.counts[k] = int64(n)
	}
}

// Eval counts n evaluations (default: the cases).
func (c *Ctx) Eval(n int) { c.counts["evaluations"] += int64(n) }

// Distinct adds a value to a named set, whose size is reported as
// distinct_<name>.
func (c *Ctx) Distinct(name string, v string) {
	s := c.sets[name]
	if s == nil {
		s = map[uint64]struct{}{}
		c.sets[name] = s
	}
	if len(s) < 2000000 {
		h := fnv.New64a()
		io.WriteString(h, v)
		s[h.Sum64()] = struct{}{}
	}
}

// Sample adds a sample case.
func (c *Ctx) Sample(s string) {
	if len(c.samples) < 8 {
		c.samples = append(c.samples, clip(s, 600))
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// Main is called from TestMain.
func Main(m *testing.M, checks map[string]*Check) {
	id := os.Getenv("VK_PROP")
	ck := checks[id]
	if ck == nil {
		fmt.Fprintf(os.Stderr, "no check %q here\n", id)
		os.Exit(2)
	}
	if os.Getenv("VK_CHILD") != "" {
		childCheck = ck
		code := m.Run()
		if ck.OwnFail && finished {
			code = 0
		}
		os.Exit(code)
	}
	os.Exit(parent(id, ck))
}

var (
	childCheck *Check
	finished   bool
)

const curSize = 1 << 16

// Child is called from TestChild.
func Child(t *testing.T) {
	log.SetOutput(io.Discard)
	ck := childCheck
	c := &Ctx{T: t, Tier: os.Getenv("VK_TIER"), counts: map[string]int64{}, sets: map[string]map[uint64]struct{}{},
		known: map[string]bool{}, knownHits: map[string]int64{}, start: time.Now()}
	fmt.Sscanf(os.Getenv("VK_CHILD"), "%d/%d", &c.Shard, &c.Of)
	c.only = os.Getenv("VK_ONLY")
	if f := os.Getenv("VK_ONLYFILE"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		c.only = string(b)
	}
	for _, k := range strings.Split(os.Getenv("VK_KNOWN"), "\n") {
		if k != "" {
			c.known[k] = true
		}
	}
	if f := os.Getenv("VK_SKIPFILE"); f != "" {
		b, err := os.ReadFile(f)
		if err != nil {
			t.Fatal(err)
		}
		c.skip = map[string]bool{}
		for _, k := range strings.Split(string(b), "\x00") {
			c.skip[k] = true
		}
	}
	if d, err := time.ParseDuration(os.Getenv("VK_BUDGET")); err == nil {
		c.budget = d
	}
	debug.SetGCPercent(800)
	if ck.MemMB == 0 {
		ck.MemMB = 2000
	}
	debug.SetMemoryLimit(int64(ck.MemMB) << 20)
	out := os.Getenv("VK_OUT")
	f, err := os.OpenFile(filepath.Join(out, "cur"), os.O_RDWR|os.O_CREATE, 0666)
	if err != nil {
		t.Fatal(err)
	}
	if err := f.Truncate(curSize); err != nil {
		t.Fatal(err)
	}
	c.cur, err = syscall.Mmap(int(f.Fd()), 0, curSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		t.Fatal(err)
	}
	f.Close()
	c.Scratch = filepath.Join(out, "scratch")
	if err := os.MkdirAll(c.Scratch, 0755); err != nil {
		t.Fatal(err)
	}
	ck.Run(c)
	r := result{Counts: c.counts, Samples: c.samples, Viol: c.viol, Known: c.knownHits, Capped: c.capped}
	for n, s := range c.sets {
		b := make([]byte, 0, 8*len(s))
		for h := range s {
			b = binary.LittleEndian.AppendUint64(b, h)
		}
		if err := os.WriteFile(filepath.Join(out, "set-"+n), b, 0666); err != nil {
			t.Fatal(err)
		}
	}
	b, err := json.Marshal(r)
	if err != nil {
		t.Fatal(err)
	}
	tmp := filepath.Join(out, "result.tmp")
	if err := os.WriteFile(tmp, b, 0666); err != nil {
		t.Fatal(err)
	}
	if err := os.Rename(tmp, filepath.Join(out, "result")); err != nil {
		t.Fatal(err)
	}
	finished = true
}

type childOut struct {
	res    *result
	cur    string
	stderr string
	hung   bool
	err    error
	oom    bool
	sets   map[string][]byte
}

func runChild(id string, ck *Check, base string, shard, of int, tier, only string, known []string, budget time.Duration, stall time.Duration, skip ...string) childOut {
	out, err := os.MkdirTemp(base, "s")
	if err != nil {
		return childOut{err: err}
	}
	defer os.RemoveAll(out)
	exe, err := os.Executable()
	if err != nil {
		return childOut{err: err}
	}
	cmd := exec.Command(exe, "-test.run=^TestChild$", "-test.timeout=0", "-test.count=1")
	cmd.Dir = out
	cmd.Env = append(os.Environ(), "VK_PROP="+id, "VK_TIER="+tier, fmt.Sprintf("VK_CHILD=%d/%d", shard, of), "VK_OUT="+out,
		"VK_KNOWN="+strings.Join(known, "\n"), "VK_BUDGET="+budget.String(), "TMPDIR="+out, "GOTRACEBACK=all", "HOME="+out,
		"GORACE=log_path="+out+"/race exitcode=0 history_size=3 suppress_equal_stacks=0 suppress_equal_addresses=0")
	if only != "" {
		of := filepath.Join(out, "only")
		if err := os.WriteFile(of, []byte(only), 0644); err != nil {
			return childOut{err: err}
		}
		cmd.Env = append(cmd.Env, "VK_ONLYFILE="+of)
	}
	if len(skip) > 0 {
		sf := filepath.Join(out, "skip")
		if err := os.WriteFile(sf, []byte(strings.Join(skip, "\x00")), 0644); err != nil {
			return childOut{err: err}
		}
		cmd.Env = append(cmd.Env, "VK_SKIPFILE="+sf)
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	if ck.Unpriv && os.Getuid() == 0 {
		const nobody = 65534
		if err := os.Chown(out, nobody, nobody); err != nil {
			return childOut{err: err}
		}
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: nobody, Gid: nobody, Groups: []uint32{}}
	}
	var stderr tail
	cmd.Stdout, cmd.Stderr = &stderr, &stderr
	if err := cmd.Start(); err != nil {
		return childOut{err: err}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var o childOut
	last, lastT := "", time.Now()
	tick := time.NewTicker(time.Second)
	defer tick.Stop()
loop:
	for {
		select {
		case err = <-done:
			break loop
		case <-tick.C:
			b, _ := os.ReadFile(filepath.Join(out, "cur"))
			if s := string(b); s != last {
				last, lastT = s, time.Now()
			} else if time.Since(lastT) > stall {
				o.hung = true
				syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
				select {
				case err = <-done:
				case <-time.After(5 * time.Second):
					syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
					err = <-done
				}
				break loop
			}
		}
	}
	o.stderr = stderr.String()
	if ee, ok := err.(*exec.ExitError); ok {
		if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL && !o.hung {
			o.oom = true
		}
	}
	if b, err := os.ReadFile(filepath.Join(out, "cur")); err == nil && len(b) >= 8 {
		n := int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24
		if n+8 <= len(b) {
			o.cur = string(b[8 : 8+n])
		}
	}
	if b, err := os.ReadFile(filepath.Join(out, "result")); err == nil && !o.hung {
		o.res = &result{}
		if err := json.Unmarshal(b, o.res); err != nil {
			o.res = nil
		}
	}
	o.sets = map[string][]byte{}
	l, _ := filepath.Glob(filepath.Join(out, "set-*"))
	for _, f := range l {
		o.sets[strings.TrimPrefix(filepath.Base(f), "set-")], _ = os.ReadFile(f)
	}
	chmodAll(out)
	return o
}

func chmodAll(d string) {
	filepath.Walk(d, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.IsDir() {
			os.Chmod(p, 0777)
		}
		return nil
	})
}

// tail keeps the beginning and the end of what is written to it.
type tail struct {
	mu   sync.Mutex
	head []byte
	end  []byte
}

func (t *tail) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(p)
	if k := 4096 - len(t.head); k > 0 {
		if k > len(p) {
			k = len(p)
		}
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.end = append(t.end, p...)
	if len(t.end) > 8192 {
		t.end = append([]byte{}, t.end[len(t.end)-4096:]...)
	}
	return n, nil
}

func (t *tail) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.end)
}

func scratchBase() (string, error) {
	for _, d := range []string{"/dev/shm", os.TempDir(), "/tmp"} {
		p, err := os.MkdirTemp(d, "ninepverif")
		if err != nil {
			continue
		}
		if err := os.Chmod(p, 0755); err != nil {
			continue
		}
		return p, nil
	}
	return "", fmt.Errorf("no scratch directory")
}

func loadKnown(id string) (map[string]string, error) {
	b, err := os.ReadFile(os.Getenv("VK_FINDINGS"))
	if err != nil {
		return nil, err
	}
	m := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		// known: property=<id> key=<key> <text>
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		f := strings.SplitN(l, " ", 4)
		if len(f) == 4 && f[1] == "property="+id && strings.HasPrefix(f[2], "key=") {
			m[strings.TrimPrefix(f[2], "key=")] = f[3]
		}
	}
	return m, nil
}

func parent(id string, ck *Check) int {
	start := time.Now()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	evdir := os.Getenv("VK_EVIDENCE")
	base, err := scratchBase()
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	defer func() { os.RemoveAll(base) }()
	knownText, err := loadKnown(id)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var known []string
	for k := range knownText {
		known = append(known, k)
	}
	sort.Strings(known)
	of := ck.Shards
	if of == 0 {
		of = runtime.NumCPU()
		if of > 8 {
			of = 8
		}
	}
	budget := ck.Quick
	if d, err := time.ParseDuration(os.Getenv("VK_BUDGET")); err == nil {
		ck.Quick = d // for trying things out
		budget = d
	}
	if tier == "thorough" {
		budget = ck.Deep
		if budget == 0 {
			budget = 2 * time.Hour
		}
	} else if budget == 0 {
		budget = 5 * time.Minute
	}
	const stall = 60 * time.Second
	if rp := os.Getenv("VERIF_REPLAY"); rp != "" {
		return replay(id, ck, base, tier, known, rp, stall)
	}
	outs := make([]childOut, of)
	var wg sync.WaitGroup
	for i := range outs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			o := runChild(id, ck, base, i, of, tier, "", known, budget, stall)
			if o.err == nil && o.res == nil && o.cur == "" {
				// died before the first case: try once more
				o = runChild(id, ck, base, i, of, tier, "", known, budget, stall)
			}
			outs[i] = o
		}()
	}
	wg.Wait()
	m := result{Counts: map[string]int64{}, Known: map[string]int64{}}
	sets := map[string]map[uint64]struct{}{}
	gather := func(o childOut) {
		for k, v := range o.res.Counts {
			if strings.HasPrefix(k, "max_") || strings.HasPrefix(k, "model_") {
				// every shard explores the whole model
				if m.Counts[k] < v {
					m.Counts[k] = v
				}
			} else {
				m.Counts[k] += v
			}
		}
		for k, v := range o.res.Known {
			m.Known[k] += v
		}
		for n, s := range o.sets {
			if sets[n] == nil {
				sets[n] = map[uint64]struct{}{}
			}
			for ; len(s) >= 8; s = s[8:] {
				sets[n][binary.LittleEndian.Uint64(s)] = struct{}{}
			}
		}
		m.Samples = append(m.Samples, o.res.Samples...)
		m.Capped = m.Capped || o.res.Capped
	}
	// A violation counts if it is confirmed by replay.
	var real []Violation
	unconfirmed := 0
	confirm := func(v Violation) {
		runs, hits := 5, 0
		if v.What == "no progress" {
			runs = 2
		}
		for k := 0; k < runs; k++ {
			o := runChild(id, ck, base, 0, 1, tier, v.Case, known, budget, stall)
			if o.err == nil && (o.res == nil && !o.oom || o.res != nil && len(o.res.Viol) > 0) {
				hits++
				if o.res != nil && len(o.res.Viol) > 0 && v.What != "process crashed" && v.What != "no progress" {
					v = o.res.Viol[0]
				}
			}
		}
		if hits*2 > runs {
			real = append(real, v)
		} else {
			unconfirmed++
			fmt.Printf("unconfirmed (%d of %d replays): %s: %s: %s\n", hits, runs, v.Case, v.What, clip(v.Detail, 1500))
			m.Capped = m.Capped || v.What != "killed"
		}
	}
	// What a shard that died had not got to is done afterwards, by one shard
	// at a time, without the case it died of.
	left := map[int]childOut{}
	for i, o := range outs {
		left[i] = o
	}
	skips := map[int][]string{}
	code := 0
	for round := 0; len(left) > 0; round++ {
		died := map[int]childOut{}
		var cand []Violation
		for i := 0; i < of; i++ {
			o, ok := left[i]
			if !ok {
				continue
			}
			if o.err != nil {
				fmt.Fprintf(os.Stderr, "shard %d: %v\n", i, o.err)
				return 3
			}
			if o.res != nil {
				gather(o)
				cand = append(cand, o.res.Viol...)
				continue
			}
			what := "process crashed"
			if o.hung {
				what = "no progress"
			} else if o.oom {
				what = "killed"
			}
			if o.cur == "" {
				fmt.Fprintf(os.Stderr, "shard %d died before its first case:\n%s\n", i, o.stderr)
				return 3
			}
			cand = append(cand, Violation{o.cur, what, o.stderr})
			died[i] = o
		}
		for _, v := range cand {
			if len(real) == 0 {
				confirm(v)
			}
		}
		left = map[int]childOut{}
		if len(real) > 0 {
			break
		}
		for i := 0; i < of; i++ {
			o, ok := died[i]
			if !ok {
				continue
			}
			if !o.oom || round > 0 {
				skips[i] = append(skips[i], o.cur)
			}
			rest := budget - time.Since(start)
			if tier != "thorough" {
				rest = 10*time.Minute - time.Since(start)
			}
			if round >= 8 || rest < 10*time.Second {
				m.Capped = true
				continue
			}
			left[i] = runChild(id, ck, base, i, of, tier, "", known, min(rest, budget), stall, skips[i]...)
		}
	}
	cov := map[string]any{}
	for k, v := range m.Counts {
		cov[strings.TrimPrefix(k, "model_")] = v
	}
	for k, s := range sets {
		cov["distinct_"+k] = len(s)
	}
	if _, ok := cov["evaluations"]; !ok {
		cov["evaluations"] = m.Counts["cases"]
	}
	delete(cov, "cases")
	if _, ok := cov["distinct_nontrivial"]; !ok && (ck.Level == "exploration" || ck.Level == "fault_enumeration") {
		cov["distinct_nontrivial"] = 0
	}
	sort.Strings(m.Samples)
	var smp []string
	for i, s := range m.Samples {
		if i == 0 || s != m.Samples[i-1] {
			smp = append(smp, s)
		}
	}
	if len(smp) > 12 {
		st := len(smp) / 12
		var t []string
		for i := 0; i < len(smp) && len(t) < 12; i += st {
			t = append(t, smp[i])
		}
		smp = t
	}
	if smp == nil {
		smp = []string{"(none: stopped at a violation)"}
	}
	cov["samples"] = smp
	cov["rule"] = ck.Rule
	cov["exhaustive"] = !m.Capped && len(real) == 0
	if m.Capped {
		cov["cap"] = "the time budget ended the enumeration before the stated bounds were covered, or something that went wrong was not reproducible"
	}
	if ck.Bounds != nil {
		cov["bounds"] = ck.Bounds(tier)
	}
	if len(m.Known) > 0 {
		cov["known_findings_hit"] = m.Known
	}
	ev := map[string]any{"property": id, "tier": tier, "seed": seed, "level": ck.Level, "coverage": cov,
		"wall_s": float64(int(time.Since(start).Seconds()*100)) / 100, "violations": len(real)}
	if len(ck.Assume) > 0 {
		ev["assumptions"] = ck.Assume
	}
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetEscapeHTML(false)
	enc.SetIndent("", " ")
	if err := enc.Encode(ev); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	os.MkdirAll(evdir, 0755)
	if err := os.WriteFile(filepath.Join(evdir, id+".json"), buf.Bytes(), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	for _, k := range known {
		if m.Known[k] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, knownText[k])
		}
	}
	for i, v := range real {
		p := filepath.Join(evdir, fmt.Sprintf("replay-%s-%d.json", id, i))
		b, _ := json.MarshalIndent(map[string]string{"property": id, "case": v.Case, "what": v.What, "detail": v.Detail,
			"rerun": "VERIF_REPLAY=" + p + " /verif/check " + id}, "", " ")
		os.WriteFile(p, b, 0644)
		fmt.Printf("%s\ncase: %s\n%s\n", v.What, v.Case, clip(v.Detail, 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		code = 1
	}
	if code == 0 {
		fmt.Printf("ok %s %s: %d cases, exhaustive=%v, %.1fs\n", id, tier, m.Counts["cases"], cov["exhaustive"], time.Since(start).Seconds())
	}
	return code
}

func replay(id string, ck *Check, base, tier string, known []string, file string, stall time.Duration) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	var v struct{ Case string }
	if err := json.Unmarshal(b, &v); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	o := runChild(id, ck, base, 0, 1, tier, v.Case, known, 0, stall)
	switch {
	case o.err != nil:
		fmt.Fprintln(os.Stderr, o.err)
		return 3
	case o.res == nil:
		fmt.Printf("process crashed or hung\n%s\nVIOLATION property=%s replay=%s\n", o.stderr, id, file)
		return 1
	case len(o.res.Viol) > 0:
		fmt.Printf("%s\n%s\nVIOLATION property=%s replay=%s\n", o.res.Viol[0].What, o.res.Viol[0].Detail, id, file)
		return 1
	}
	fmt.Println("the replayed case does not violate the property")
	return 0
}
