package main

import (
	"bufio"
	"bytes"
	crand "crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"io/fs"
	mrand "math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/logger"
)

// ---------------------------------------------------------------- randomness

// Rng is a deterministic generator derived from VERIF_SEED and a name.
type Rng struct {
	*mrand.Rand
	src *mrand.ChaCha8
}

func seedOf(parts ...any) [32]byte {
	return sha256.Sum256([]byte(fmt.Sprintln(parts...)))
}

func newRng(parts ...any) *Rng {
	src := mrand.NewChaCha8(seedOf(parts...))
	return &Rng{mrand.New(src), src}
}

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	r.src.Read(b)
	return b
}

// Fr returns a non-zero random scalar
func (r *Rng) Fr() fr.Element {
	var e fr.Element
	for e.IsZero() {
		e.SetBytes(r.Bytes(48))
	}
	return e
}

func (r *Rng) Bool() bool          { return r.IntN(2) == 0 }
func (r *Rng) P(num, den int) bool { return r.IntN(den) < num }

func pick[T any](r *Rng, l []T) T { return l[r.IntN(len(l))] }

// drbg replaces crypto/rand.Reader inside the workers, so that the executions
// of a case are a function of VERIF_SEED.
type drbg struct {
	mu  sync.Mutex
	src *mrand.ChaCha8
}

func (d *drbg) Read(b []byte) (int, error) {
	d.mu.Lock()
	defer d.mu.Unlock()
	return d.src.Read(b)
}

func installDRBG(parts ...any) {
	crand.Reader = &drbg{src: mrand.NewChaCha8(seedOf(parts...))}
}

// ---------------------------------------------------------------- checks

// Check decides one property.
type Check struct {
	ID          string
	Quick       int // number of cases
	Thorough    int
	Run         func(*Ctx)
	Rule        string
	Level       string
	Workers     int
	Assumptions []string
	MinEvals    int
	Driver      func(*drv) // replaces the generic scheduling
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.ID] = c }

// Ctx is what a case runs with; its current directory is a scratch directory
// of its own.
type Ctx struct {
	ID, Tier string
	Seed     uint64
	Case     int
	*Rng
	Dir string
	CLI string
	res Result
}

type Viol struct {
	Key string `json:"key"`
	Msg string `json:"msg"`
}

type Result struct {
	Case         int               `json:"case"`
	Evals        int               `json:"evals"`
	Sigs         []uint64          `json:"sigs"`
	Counters     map[string]int    `json:"counters"`
	Samples      []json.RawMessage `json:"samples"`
	Viols        []Viol            `json:"viols"`
	Inconclusive []string          `json:"inconclusive"`
	Uniques      []string          `json:"uniques"`
	States       []string          `json:"states"`
}

// giants: the case of that number, and every so many after it
var giants = map[string][2]int{"C02": {3, 3000}, "C03": {2, 1000}, "C05": {2, 80}, "C06": {2, 50}, "C07": {3, 1000}, "C09": {2, 90}, "C11": {2, 80}, "C12": {2, 75}, "C14": {2, 50}, "C18": {3, 1000}, "C20": {3, 1000}}

func giant(id string, idx int) bool {
	g, ok := giants[id]
	return ok && idx%g[1] == g[0]
}

// limit returns how many CPU seconds a case may use
func (d *drv) limit(idx int) float64 {
	if giant(d.chk.ID, idx) && d.cpuLimit < 700 {
		return 700
	}
	return d.cpuLimit
}

// Giant tells whether this case is one of those of its check that go beyond
// 2^16 elements. There is none where a driver varies the number of CPUs.
func (c *Ctx) Giant() bool {
	if !giant(c.ID, c.Case) || os.Getenv("VH_NCPU") != "" || strconv.IntSize == 32 {
		return false
	}
	c.Count("cases_beyond_65536_elements", 1)
	return true
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Eval records one decision of the oracle; sig identifies what was decided.
func (c *Ctx) Eval(sig string, nontrivial bool) {
	c.res.Evals++
	if nontrivial {
		h := sha256.Sum256([]byte(sig))
		c.res.Sigs = append(c.res.Sigs, binary.BigEndian.Uint64(h[:]))
	}
}

func (c *Ctx) Count(name string, n int) {
	if c.res.Counters == nil {
		c.res.Counters = map[string]int{}
	}
	c.res.Counters[name] += n
}

func (c *Ctx) Sample(v any) {
	if len(c.res.Samples) < 3 {
		if b, err := json.Marshal(v); err == nil {
			c.res.Samples = append(c.res.Samples, b)
		}
	}
}

// State records an observed state, counted distinct over the whole run.
func (c *Ctx) State(s string) { c.res.States = append(c.res.States, s) }

// Unique records a value that no other case of the run may produce.
func (c *Ctx) Unique(kind string, b []byte) {
	c.res.Uniques = append(c.res.Uniques, kind+":"+hex.EncodeToString(b))
}

func (c *Ctx) Violation(key, format string, a ...any) {
	c.res.Viols = append(c.res.Viols, Viol{key, fmt.Sprintf(format, a...)})
}

func (c *Ctx) Inconclusive(format string, a ...any) {
	c.res.Inconclusive = append(c.res.Inconclusive, fmt.Sprintf(format, a...))
}

// abort ends the case without a verdict
type abort struct{}

func (c *Ctx) Abort(format string, a ...any) {
	c.Inconclusive(format, a...)
	panic(abort{})
}

// Fail records a violation and ends the case
func (c *Ctx) Fail(key, format string, a ...any) {
	c.Violation(key, format, a...)
	panic(abort{})
}

// Refused ends the case: a command failed on valid files
func (c *Ctx) Refused(format string, a ...any) { c.Fail("valid-refused", format, a...) }

// End ends the case after a violation made the rest meaningless
func (c *Ctx) End() { panic(abort{}) }

// PanicError is a panic of the code under test turned into an error
type PanicError struct {
	V     any
	Stack string
}

func (p *PanicError) Error() string { return fmt.Sprintf("panic: %v", p.V) }

func isPanic(err error) bool {
	_, ok := err.(*PanicError)
	return ok
}

// try runs code under test, turning a panic into an error
func try(f func() error) (err error) {
	defer func() {
		if v := recover(); v != nil {
			if _, ok := v.(abort); ok {
				panic(v)
			}
			err = &PanicError{v, string(debug.Stack())}
		}
	}()
	return f()
}

// capture runs f with os.Stdout redirected, and returns what it printed
func capture(f func() error) (string, error) {
	name := filepath.Join(os.Getenv("VH_SCRATCH"), "stdout.txt")
	tmp, err := os.Create(name)
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = tmp
	err = try(f)
	os.Stdout = old
	tmp.Close()
	b, _ := os.ReadFile(name)
	return string(b), err
}

// ---------------------------------------------------------------- worker

func worker(id, tier string, seed uint64) {
	logger.Disable()
	chk := checks[id]
	if chk == nil {
		fmt.Fprintln(os.Stderr, "no such check", id)
		os.Exit(3)
	}
	out := os.NewFile(3, "results")
	noise()
	null, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	os.Stdout = null
	scratch := os.Getenv("VH_SCRATCH")
	in := bufio.NewScanner(os.Stdin)
	for in.Scan() {
		idx, err := strconv.Atoi(in.Text())
		if err != nil {
			os.Exit(3)
		}
		res := runCase(chk, tier, seed, idx, scratch)
		b, err := json.Marshal(res)
		if err != nil {
			panic(err)
		}
		out.Write(append(b, '\n'))
	}
}

func runCase(chk *Check, tier string, seed uint64, idx int, scratch string) Result {
	dir := filepath.Join(scratch, fmt.Sprintf("case%d", idx))
	if err := os.MkdirAll(dir, 0755); err != nil {
		panic(err)
	}
	if err := os.Chdir(dir); err != nil {
		panic(err)
	}
	c := &Ctx{ID: chk.ID, Tier: tier, Seed: seed, Case: idx, Dir: dir, CLI: os.Getenv("VH_CLI")}
	c.Rng = newRng("case", seed, chk.ID, idx)
	c.res.Case = idx
	installDRBG("drbg", seed, chk.ID, idx)
	setBatch1(1 << 20)
	setBatch2(1 << 20)
	func() {
		defer func() {
			if v := recover(); v != nil {
				if _, ok := v.(abort); ok {
					return
				}
				if e, ok := v.(error); ok && errors.Is(e, fs.ErrNotExist) {
					// a file that a command should have left
					c.Violation("missing-file", "%v\n%s", v, debug.Stack())
					return
				}
				c.Inconclusive("harness panic: %v\n%s", v, debug.Stack())
			}
		}()
		chk.Run(c)
	}()
	os.Chdir(scratch)
	os.RemoveAll(dir)
	return c.res
}

// ---------------------------------------------------------------- driver

type drv struct {
	chk     *Check
	tier    string
	seed    uint64
	root    string // /verif
	scratch string
	bin     string
	start   time.Time

	mu           sync.Mutex
	evals        int
	sigs         map[uint64]struct{}
	counters     map[string]int
	samples      []json.RawMessage
	states       map[string]struct{}
	uniques      map[string]int
	viols        []Viol
	violCases    []int
	inconclusive []string
	casesRun     int
	stop         atomic.Bool
	cpuLimit     float64
	cpuMax       float64 // of any case, and which
	cpuMaxCase   int
	wallLimit    time.Duration
	stallLimit   time.Duration
	env          []string
	only         int
	cpus         [2000]int // CPUs of the workers of a slot, 0: all
}

func (d *drv) merge(r Result) {
	d.mu.Lock()
	defer d.mu.Unlock()
	d.casesRun++
	d.evals += r.Evals
	for _, s := range r.Sigs {
		d.sigs[s] = struct{}{}
	}
	for k, v := range r.Counters {
		d.counters[k] += v
	}
	for _, s := range r.States {
		d.states[s] = struct{}{}
	}
	if len(d.samples) < 6 && len(r.Samples) > 0 {
		d.samples = append(d.samples, r.Samples[0])
	}
	for _, v := range r.Viols {
		d.addViol(r.Case, v)
	}
	for _, u := range r.Uniques {
		if prev, ok := d.uniques[u]; ok {
			d.addViol(r.Case, Viol{"repeated-" + strings.SplitN(u, ":", 2)[0],
				fmt.Sprintf("the value %s appeared in case %d and again in case %d", u, prev, r.Case)})
		}
		d.uniques[u] = r.Case
	}
	for _, s := range r.Inconclusive {
		d.inconclusive = append(d.inconclusive, fmt.Sprintf("case %d: %s", r.Case, s))
	}
}

func (d *drv) addViol(cs int, v Viol) {
	d.viols = append(d.viols, v)
	d.violCases = append(d.violCases, cs)
	if v.Key == "no-termination" {
		d.stop.Store(true) // the next ones would take as long
	}
	keys := map[string]bool{}
	for _, v := range d.viols {
		keys[v.Key] = true
	}
	if len(d.viols) >= 12 || len(keys) >= 4 || os.Getenv("VH_FAILFAST") != "" {
		d.stop.Store(true)
	}
}

func cpuSeconds(pid int) float64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0
	}
	i := bytes.LastIndexByte(b, ')')
	f := strings.Fields(string(b[i+1:]))
	if len(f) < 13 {
		return 0
	}
	u, _ := strconv.ParseFloat(f[11], 64)
	s, _ := strconv.ParseFloat(f[12], 64)
	return (u + s) / 100
}

// combined runs a command, which it ends after a while, for its output
var childLimit = 250 * time.Second

func combined(cmd *exec.Cmd) ([]byte, error) {
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	cmd.WaitDelay = 5 * time.Second
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	late := time.AfterFunc(childLimit, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	if !late.Stop() {
		err = fmt.Errorf("no end after %v (%v)", childLimit, err)
	}
	return b.Bytes(), err
}

// groupSeconds is the CPU time that the processes of this group, but its
// leader, have used, and how many they are
func groupSeconds(pgid int) (t float64, n int) {
	entries, _ := os.ReadDir("/proc")
	for _, e := range entries {
		pid := atoi(e.Name())
		if pid <= 0 || pid == pgid {
			continue
		}
		if g, err := syscall.Getpgid(pid); err == nil && g == pgid {
			t += cpuSeconds(pid)
			n++
		}
	}
	return
}

// memAvailable is how many bytes this machine has left
func memAvailable() int64 {
	b, _ := os.ReadFile("/proc/meminfo")
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) > 1 && f[0] == "MemAvailable:" {
			return int64(atoi(f[1])) << 10
		}
	}
	return 0
}

type proc struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	errPath string
}

func (d *drv) spawn(slot int, bin string, env []string) (*proc, error) {
	scratch := filepath.Join(d.scratch, fmt.Sprintf("w%d", slot))
	if err := os.MkdirAll(scratch, 0755); err != nil {
		return nil, err
	}
	argv := onCPUs(d.cpus[slot], bin, "worker", "-id", d.chk.ID, "-tier", d.tier, "-seed", fmt.Sprint(d.seed))
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.Env = append(os.Environ(), "VH_SCRATCH="+scratch)
	cmd.Env = append(cmd.Env, env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	r, w, err := os.Pipe()
	if err != nil {
		return nil, err
	}
	cmd.ExtraFiles = []*os.File{w}
	errPath := filepath.Join(scratch, "stderr.txt")
	ef, err := os.Create(errPath)
	if err != nil {
		return nil, err
	}
	cmd.Stderr = ef
	cmd.Stdout = ef
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	ef.Close()
	w.Close()
	return &proc{cmd, in, bufio.NewReaderSize(r, 1<<20), errPath}, nil
}

func (p *proc) kill() {
	syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
	p.cmd.Wait()
}

func tailOf(path string, n int) string {
	b, _ := os.ReadFile(path)
	// keep the head of a crash report: the reason is at the top
	for _, m := range []string{"WARNING: DATA RACE", "panic: ", "fatal error: "} {
		if i := bytes.Index(b, []byte(m)); i >= 0 {
			b = b[i:]
			break
		}
	}
	if len(b) > n {
		b = b[:n]
	}
	return string(b)
}

// runOn feeds case indices to one worker slot until the queue is empty.
func (d *drv) runOn(slot int, bin string, env []string, next func() (int, bool)) {
	var p *proc
	defer func() {
		if p != nil {
			p.in.Close()
			done := make(chan struct{})
			go func() { p.cmd.Wait(); close(done) }()
			select {
			case <-done:
			case <-time.After(5 * time.Second):
				syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
			}
		}
	}()
	again := -1 // a case that runs again, in a new process
	for !d.stop.Load() {
		idx, ok, retry := again, true, again >= 0
		if again = -1; !retry {
			if idx, ok = next(); !ok {
				return
			}
		}
		if p == nil {
			var err error
			if p, err = d.spawn(slot, bin, env); err != nil {
				d.mu.Lock()
				d.inconclusive = append(d.inconclusive, "can't start a worker: "+err.Error())
				d.mu.Unlock()
				return
			}
		}
		cpu0 := cpuSeconds(p.cmd.Process.Pid)
		fmt.Fprintf(p.in, "%d\n", idx)
		type line struct {
			b   []byte
			err error
		}
		ch := make(chan line, 1)
		pp := p
		go func() {
			b, err := pp.out.ReadBytes('\n')
			ch <- line{b, err}
		}()
		var l line
		verdict := ""
		last, lastGroup, lastCount, since := cpu0, 0.0, 0, time.Now()
	wait:
		for {
			select {
			case l = <-ch:
				break wait
			case <-time.After(500 * time.Millisecond):
				if now := cpuSeconds(p.cmd.Process.Pid); now-cpu0 > d.limit(idx) {
					verdict = "cpu"
				} else if now > last {
					last, since = now, time.Now()
				} else if t, n := groupSeconds(p.cmd.Process.Pid); t != lastGroup || n != lastCount {
					lastGroup, lastCount, since = t, n, time.Now()
				} else if time.Since(since) > d.stallLimit {
					verdict = "stall"
				}
				if verdict != "" {
				} else if time.Since(d.start) > d.wallLimit {
					verdict = "wall"
				}
				if verdict != "" {
					p.kill()
					p = nil
					break wait
				}
			}
		}
		switch {
		case verdict == "cpu":
			d.merge(Result{Case: idx, Viols: []Viol{{"no-termination",
				fmt.Sprintf("the case used more than %.0f CPU seconds, when cases of this check take a few", d.limit(idx))}}})
		case verdict == "stall":
			d.merge(Result{Case: idx, Viols: []Viol{{"no-termination",
				fmt.Sprintf("the case has been waiting for %v, with nothing that runs", d.stallLimit)}}})
		case verdict == "wall":
			d.mu.Lock()
			d.inconclusive = append(d.inconclusive, fmt.Sprintf("case %d: the time limit of the check was reached", idx))
			d.mu.Unlock()
			d.stop.Store(true)
		case l.err != nil:
			err := p.cmd.Wait()
			tail := tailOf(p.errPath, 3000)
			syscall.Kill(-p.cmd.Process.Pid, syscall.SIGKILL)
			p = nil
			r := Result{Case: idx}
			switch {
			case strings.Contains(tail, "DATA RACE"):
				r.Viols = []Viol{{"data-race", tail}}
			case strings.Contains(tail, "out of memory"), strings.Contains(tail, "cannot allocate"):
				// Not the sum of what earlier cases left, if it happens in
				// a new process as well
				switch {
				case !retry:
					again = idx
					continue
				case bin == os.Getenv("VH_386"):
					d.mu.Lock()
					d.counters["cases_beyond_32_bit_memory"]++
					d.mu.Unlock()
					continue
				case d.chk.ID == "C23" || memAvailable() < 8<<30:
					r.Inconclusive = []string{"out of memory: " + tail}
				default:
					r.Viols = []Viol{{"crash", "the process died: " + tail}}
				}
			case strings.HasPrefix(tail, "panic: "), strings.HasPrefix(tail, "fatal error: "):
				r.Viols = []Viol{{"crash", "the process died: " + tail}}
			default:
				r.Inconclusive = []string{fmt.Sprintf("worker ended (%v): %s", err, tail)}
			}
			d.merge(r)
		default:
			d.mu.Lock()
			if used := cpuSeconds(p.cmd.Process.Pid) - cpu0; used > d.cpuMax {
				d.cpuMax, d.cpuMaxCase = used, idx
			}
			d.mu.Unlock()
			var r Result
			if err := json.Unmarshal(l.b, &r); err != nil {
				d.mu.Lock()
				d.inconclusive = append(d.inconclusive, "bad worker output: "+err.Error())
				d.mu.Unlock()
				continue
			}
			d.merge(r)
		}
	}
}

func (d *drv) runAll(n int) {
	w := d.chk.Workers
	if w == 0 {
		w = 8
	}
	if c := runtime.NumCPU(); w > c {
		w = c
	}
	var idx int64 = -1
	next := func() (int, bool) {
		i := int(atomic.AddInt64(&idx, 1))
		return i, i < n
	}
	var wg sync.WaitGroup
	for i := 0; i < w; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			d.runOn(i, d.bin, d.env, next)
		}(i)
	}
	wg.Wait()
}

func newDrv(chk *Check, tier string, seed uint64) *drv {
	root := os.Getenv("VH_ROOT")
	if root == "" {
		root = "/verif"
	}
	bin, _ := os.Executable()
	scratch, err := os.MkdirTemp(os.Getenv("VH_TMP"), "vh-run-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	d := &drv{chk: chk, tier: tier, seed: seed, root: root, scratch: scratch, bin: bin, start: time.Now(),
		sigs: map[uint64]struct{}{}, counters: map[string]int{}, states: map[string]struct{}{}, uniques: map[string]int{},
		cpuLimit: 450, wallLimit: 780 * time.Second, stallLimit: 240 * time.Second}
	if tier == "thorough" {
		d.cpuLimit = 3000
		d.wallLimit = 5 * time.Hour
	}
	return d
}

// known findings: lines "known: property=<id> key=<key> <description>"
func (d *drv) known() map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(d.root, "known_findings.txt"))
	for _, l := range strings.Split(string(b), "\n") {
		f := strings.Fields(l)
		if len(f) >= 3 && f[0] == "known:" && f[1] == "property="+d.chk.ID && strings.HasPrefix(f[2], "key=") {
			m[strings.TrimPrefix(f[2], "key=")] = strings.Join(f[3:], " ")
		}
	}
	return m
}

func (d *drv) finish() int {
	os.RemoveAll(d.scratch)
	known := d.known()
	printedKnown := map[string]bool{}
	nviol := 0
	printed := map[string]bool{}
	evdir := filepath.Join(d.root, "evidence")
	os.MkdirAll(evdir, 0755)
	for i, v := range d.viols {
		if what, ok := known[v.Key]; ok {
			if !printedKnown[v.Key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", d.chk.ID, what)
				printedKnown[v.Key] = true
			}
			continue
		}
		nviol++
		if printed[v.Key] {
			continue
		}
		printed[v.Key] = true
		path := filepath.Join(evdir, fmt.Sprintf("replay-%s-%d-%s.json", d.chk.ID, d.violCases[i], sanitize(v.Key)))
		b, _ := json.MarshalIndent(map[string]any{"property": d.chk.ID, "tier": d.tier, "seed": d.seed,
			"case": d.violCases[i], "key": v.Key, "message": v.Msg,
			"how": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s ./check.sh %s --case %d", d.seed, d.tier, d.chk.ID, d.violCases[i])}, "", "  ")
		os.WriteFile(path, append(b, '\n'), 0644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", d.chk.ID, path)
		fmt.Printf("  case %d, %s: %s\n", d.violCases[i], v.Key, v.Msg)
	}
	sort.Strings(d.inconclusive)
	for i, s := range d.inconclusive {
		if i < 10 {
			fmt.Printf("INCONCLUSIVE: %s\n", s)
		}
	}
	if len(d.samples) == 0 {
		d.samples = []json.RawMessage{}
	}
	cov := map[string]any{
		"evaluations":         d.evals,
		"distinct_nontrivial": len(d.sigs),
		"rule":                d.chk.Rule,
		"samples":             d.samples,
		"cases_run":           d.casesRun,
		"batch_size_hook":     hooked,
	}
	for k, v := range d.counters {
		cov["n_"+k] = v
	}
	if len(d.states) > 0 {
		cov["distinct_states_observed"] = len(d.states)
	}
	if len(d.uniques) > 0 {
		cov["values_checked_for_repetition"] = len(d.uniques)
	}
	as := d.chk.Assumptions
	if as == nil {
		as = []string{}
	}
	level := d.chk.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]any{"property": d.chk.ID, "tier": d.tier, "seed": d.seed, "level": level, "coverage": cov,
		"assumptions": append(as, "gnark and gnark-crypto (field, curve, pairing, hash-to-curve and file readers) are correct"),
		"wall_s":      time.Since(d.start).Seconds(), "violations": nviol}
	b, _ := json.MarshalIndent(ev, "", "  ")
	if err := os.WriteFile(filepath.Join(evdir, d.chk.ID+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("can't write the evidence:", err)
		return 3
	}
	fmt.Printf("%s %s: %d cases, %d evaluations, %d distinct, %d violations, %d inconclusive, %.1f s (at most %.1f CPU s per case, case %d)\n",
		d.chk.ID, d.tier, d.casesRun, d.evals, len(d.sigs), nviol, len(d.inconclusive), time.Since(d.start).Seconds(), d.cpuMax, d.cpuMaxCase)
	if nviol > 0 {
		return 1
	}
	if len(d.inconclusive) > 0 {
		return 2
	}
	min := d.chk.MinEvals
	if min == 0 {
		min = 1
	}
	if d.evals < min || len(d.sigs) == 0 {
		fmt.Printf("INCONCLUSIVE: only %d evaluations were made\n", d.evals)
		return 2
	}
	return 0
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '-' {
			return r
		}
		return '_'
	}, s)
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vh run|worker -id ID -tier T -seed N")
		os.Exit(3)
	}
	if os.Args[1] == "affinity" && len(os.Args) > 3 {
		n, _ := strconv.Atoi(os.Args[2])
		affinityExec(n, os.Args[3:])
	}
	if os.Args[1] == "leak" && len(os.Args) == 6 {
		leakChild(os.Args[2:])
		return
	}
	if os.Args[1] == "p2init" && len(os.Args) > 4 {
		p2initMain(os.Args[2:])
		return
	}
	fs := flag.NewFlagSet("vh", flag.ExitOnError)
	id := fs.String("id", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Uint64("seed", 1, "")
	only := fs.Int("case", -1, "")
	fs.Parse(os.Args[2:])
	switch os.Args[1] {
	case "worker":
		worker(*id, *tier, *seed)
	case "list":
		for k := range checks {
			fmt.Println(k)
		}
	case "run":
		chk := checks[*id]
		if chk == nil {
			fmt.Fprintln(os.Stderr, "no such check", *id)
			os.Exit(3)
		}
		d := newDrv(chk, *tier, *seed)
		d.only = *only
		n := chk.Quick
		if *tier == "thorough" {
			n = chk.Thorough
		}
		switch {
		case *only >= 0 && chk.Driver == nil:
			chk.MinEvals = 1
			done := false
			d.runOn(0, d.bin, d.env, func() (int, bool) {
				if done {
					return 0, false
				}
				done = true
				return *only, true
			})
		case chk.Driver != nil:
			chk.Driver(d)
		default:
			d.runAll(n)
		}
		os.Exit(d.finish())
	default:
		os.Exit(3)
	}
}
