package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"syscall"
	"time"
	"unsafe"

	"github.com/bnb-chain/zkbnb-setup/phase1"
)

// ---------------------------------------------------------------- CPUs

// allowedCPUs lists the CPUs this process may use
func allowedCPUs() []int {
	var m [128]uint64
	n, _, e := syscall.RawSyscall(syscall.SYS_SCHED_GETAFFINITY, 0, uintptr(len(m)*8), uintptr(unsafe.Pointer(&m[0])))
	if e != 0 {
		return nil
	}
	var l []int
	b := (*[1024]byte)(unsafe.Pointer(&m[0]))
	for i := 0; i < int(n)*8; i++ {
		if b[i/8]>>(i%8)&1 == 1 {
			l = append(l, i)
		}
	}
	return l
}

// affinityExec runs a program with n of the allowed CPUs
func affinityExec(n int, argv []string) {
	runtime.LockOSThread()
	l := allowedCPUs()
	if n > len(l) {
		n = len(l)
	}
	var m [128]uint64
	b := (*[1024]byte)(unsafe.Pointer(&m[0]))
	for _, i := range l[:n] {
		b[i/8] |= 1 << (i % 8)
	}
	if _, _, e := syscall.RawSyscall(syscall.SYS_SCHED_SETAFFINITY, 0, uintptr(len(m)*8), uintptr(unsafe.Pointer(&m[0]))); e != 0 {
		fmt.Fprintln(os.Stderr, "affinity:", e)
		os.Exit(3)
	}
	fmt.Fprintln(os.Stderr, syscall.Exec(argv[0], argv, os.Environ()))
	os.Exit(3)
}

// onCPUs prefixes a command so that it has n CPUs, 0 for all
func onCPUs(n int, argv ...string) []string {
	if n == 0 {
		return argv
	}
	self, _ := os.Executable()
	return append([]string{self, "affinity", fmt.Sprint(n)}, argv...)
}

// ---------------------------------------------------------------- C18

func init() {
	register(&Check{ID: "C18", Quick: 240, Thorough: 4000, MinEvals: 900, Run: runC18,
		Rule: "vectors of 1 to 512 (G2: 128), some to 4096 (G2: 1024), points with known discrete logarithms (powers, random, constant, sparse, alternating signs, half-periodic, a single one, all identities) are converted by lagrange.ConvertG1/G2 in processes with 1 to 8 CPUs, and by p2n through forged phase 1 files with arbitrary points (power 1 to 5, some to 10, one of 17), in such processes as well; a direct call that differs counts if initialization differs on the same vector too; each output point is compared with the generator times the inverse DFT, computed with field operations, of the logarithms; distinct by (group, size, kind, CPUs, vector)"})
}

var lagKinds = []string{"powers", "random", "constant", "sparse", "signs", "halves", "single", "identity", "quarters", "edges"}

func lagVector(r *Rng, kind string, n int) []Fr {
	v := make([]Fr, n)
	x := r.Fr()
	for i := range v {
		switch kind {
		case "powers":
			v[i] = powF(x, i)
		case "random":
			v[i] = r.Fr()
		case "constant":
			v[i] = x
		case "sparse":
			if r.P(1, 3) {
				v[i] = r.Fr()
			}
		case "signs":
			v[i] = x
			if i%2 == 1 {
				v[i] = negF(x)
			}
		case "halves":
			if i < (n+1)/2 {
				v[i] = r.Fr()
			} else if v[i] = v[i-n/2]; r.P(1, 4) {
				v[i] = negF(v[i])
			}
		case "quarters":
			if i < (n+3)/4 {
				v[i] = r.Fr()
			} else {
				v[i] = v[i-(n+3)/4]
			}
		case "edges":
			v[i] = frInt(int64(r.IntN(5) - 2))
		}
	}
	if kind == "single" {
		v[r.IntN(n)] = x
	}
	return v
}

// inverseDFT is the definition: out[j] = 1/n sum_i v[i] w^(-ij), where the
// sums of the even and of the odd i are taken apart in long vectors
func inverseDFT(v []Fr) []Fr {
	n := len(v)
	if n > 256 {
		h := n / 2
		even, odd := make([]Fr, h), make([]Fr, h)
		for i := range even {
			even[i], odd[i] = v[2*i], v[2*i+1]
		}
		even, odd = inverseDFT(even), inverseDFT(odd)
		w, half, x := invF(domainGen(n)), invF(frInt(2)), frInt(1)
		out := make([]Fr, n)
		for j := range out {
			out[j] = mulF(half, addF(even[j%h], mulF(x, odd[j%h])))
			x = mulF(x, w)
		}
		return out
	}
	w := invF(domainGen(n))
	if n == 1 {
		return v
	}
	pw := make([]Fr, n)
	pw[0] = frInt(1)
	for i := 1; i < n; i++ {
		pw[i] = mulF(pw[i-1], w)
	}
	ninv := invF(frInt(int64(n)))
	out := make([]Fr, n)
	for j := 0; j < n; j++ {
		var s Fr
		for i := 0; i < n; i++ {
			if v[i].IsZero() {
				continue
			}
			var t Fr
			t.Mul(&v[i], &pw[i*j%n])
			s.Add(&s, &t)
		}
		out[j] = mulF(s, ninv)
	}
	return out
}

type lagJob struct {
	group, n int
	kind     string
	v        []Fr
}

func runC18(c *Ctx) {
	if os.Getenv("VH_LAG") == "" || c.Case%4 == 3 {
		c.lagFile()
		return
	}
	ncpu := len(allowedCPUs())
	cpus := c.Case % (ncpu + 1)
	bin := os.Getenv("VH_LAG")
	maxLog1, maxLog2 := 9, 7
	if c.Thorough() {
		maxLog1, maxLog2 = 12, 10
	}
	var jobs []lagJob
	var b []byte
	budget := 1200
	large := c.Case%16 == 1 || c.Case%16 == 10
	for i := 0; i < 14 && budget > 0; i++ {
		j := lagJob{group: 1 + c.IntN(2), kind: pick(c.Rng, lagKinds)}
		ml := maxLog1
		if j.group == 2 {
			ml = maxLog2
		}
		if c.P(1, 2) {
			ml = 6
		}
		j.n = 1 << c.IntN(ml+1)
		if large && i == 0 {
			j.n = 1 << (14 - 2*j.group - c.IntN(3))
			budget = 0
		}
		j.v = lagVector(c.Rng, j.kind, j.n)
		budget -= j.n * j.group
		b = binary.BigEndian.AppendUint32(b, uint32(j.group))
		b = binary.BigEndian.AppendUint32(b, uint32(j.n))
		if j.group == 1 {
			for _, p := range g1s(j.v...) {
				e := p.RawBytes()
				b = append(b, e[:]...)
			}
		} else {
			for _, p := range g2s(j.v...) {
				e := p.RawBytes()
				b = append(b, e[:]...)
			}
		}
		jobs = append(jobs, j)
	}
	mustWrite("jobs", b)
	argv := onCPUs(cpus, bin, "jobs", "results")
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if o, err := combined(cmd); err != nil {
		s := string(o)
		if len(s) > 1500 {
			s = s[:1500]
		}
		for _, j := range jobs {
			if w := c.lagConfirm(j, cpus); w != "" {
				c.Violation("crash", "conversion with %d CPUs: %v: %s; initialization: %s", cpus, err, s, w)
				return
			}
		}
		c.Sample(map[string]any{"a direct call fails, initialization doesn't": s})
		return
	}
	c.State(fmt.Sprint("cpus ", cpus))
	r := &rd{b: mustRead("results")}
	for i, j := range jobs {
		want := inverseDFT(j.v)
		where := fmt.Sprintf("G%d, %d points, %s, %d CPUs (0: all)", j.group, j.n, j.kind, cpus)
		sig := fmt.Sprint(c.Case, i, where)
		bad := -1
		if j.group == 1 {
			got := make([]G1, j.n)
			for k := range got {
				got[k] = r.g1raw()
			}
			bad = eqG1(got, g1s(want...))
		} else {
			got := make([]G2, j.n)
			for k := range got {
				got[k] = r.g2raw()
			}
			bad = eqG2(got, g2s(want...))
		}
		if r.err != nil {
			bad = 0
		}
		c.Eval(sig, j.n > 1 && j.kind != "identity")
		c.Count("points", j.n)
		c.State(where)
		if bad >= 0 {
			w := c.lagConfirm(j, cpus)
			if w == "" {
				c.Sample(map[string]any{"a direct call differs, initialization doesn't": where})
				continue
			}
			c.Violation(fmt.Sprintf("wrong-conversion-g%d", j.group), "%s: point %d isn't the inverse Fourier transform (%s)", where, bad, w)
		}
		if r.err != nil {
			return
		}
	}
	c.Sample(map[string]any{"cpus": cpus, "jobs": len(jobs), "first": map[string]any{"group": jobs[0].group, "size": jobs[0].n, "kind": jobs[0].kind}})
}

// lagConfirm converts the vector of a direct call through a phase 1 file, so
// that only what initialization writes decides; "" if that is right
func (c *Ctx) lagConfirm(j lagJob, cpus int) string {
	if j.n == 1 { // the smallest domain has two elements
		j.n, j.v = 2, []Fr{j.v[0], {}}
	}
	power := log2(j.n)
	n := 1 << power
	pad := func(k int) []Fr {
		v := make([]Fr, k)
		copy(v, j.v)
		return v
	}
	p := &P1{Power: power, BetaG2: g2s(c.Fr())[0]}
	zero := make([]Fr, n)
	if j.group == 1 {
		pts := g1s(pad(n)...)
		p.TauG1, p.Alpha, p.Beta, p.TauG2 = append(append([]G1{}, pts...), g1s(make([]Fr, n-1)...)...), pts, pts, g2s(zero...)
	} else {
		z := g1s(zero...)
		p.TauG1, p.Alpha, p.Beta, p.TauG2 = g1s(make([]Fr, 2*n-1)...), z, z, g2s(pad(n)...)
	}
	mustWrite("confirm.ph1", p.Bytes())
	cons := j.n
	if cons > 2 {
		cons = j.n/2 + 1
	}
	rawCirc(rawOpts{pub: 2, sec: 2, internal: 2, cons: cons, seed: c.Uint64()}).write("confirm.r1cs")
	want1, want2 := g1s(inverseDFT(j.v)...), []G2(nil)
	if j.group == 2 {
		want1, want2 = g1s(make([]Fr, j.n)...), g2s(inverseDFT(j.v)...)
	} else {
		want2 = g2s(make([]Fr, j.n)...)
	}
	for i := 0; i < 3; i++ {
		if err := p2InitOn(cpus, "confirm.ph1", "confirm.r1cs", "confirm.ph2"); err != nil {
			return fmt.Sprintf("initialization: %v", err)
		}
		l1, l2, l3, l4, err := parseLag(mustRead("srs.lag"))
		if err != nil {
			return fmt.Sprintf("srs.lag: %v", err)
		}
		for k, l := range [][]G1{l1, l2, l3} {
			if bad := eqG1(l, want1); bad >= 0 || len(l) != j.n {
				return fmt.Sprintf("G1 section %d of srs.lag: point %d of %d", k, bad, len(l))
			}
		}
		if bad := eqG2(l4, want2); bad >= 0 || len(l4) != j.n {
			return fmt.Sprintf("G2 section of srs.lag: point %d of %d", bad, len(l4))
		}
	}
	return ""
}

// p2InitOn initializes in a process that has so many CPUs (0: all of them);
// with more arguments, from a parted constraint system
func p2InitOn(cpus int, args ...string) error {
	self, _ := os.Executable()
	argv := onCPUs(cpus, append([]string{self, "p2init"}, args...)...)
	cmd := exec.Command(argv[0], argv[1:]...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if o, err := combined(cmd); err != nil {
		if len(o) > 1500 {
			o = o[len(o)-1500:]
		}
		return fmt.Errorf("%v: %s", err, o)
	}
	return nil
}

// p2initMain is the child of p2InitOn
func p2initMain(args []string) {
	var err error
	if len(args) == 6 {
		err = p2InitParted(args[0], args[1], args[2], atoi(args[3]), atoi(args[4]), atoi(args[5]))
	} else {
		err = p2Init(args[0], args[1], args[2])
	}
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
}

// lagFile converts the sections of a phase 1 file with arbitrary points
func (c *Ctx) lagFile() {
	power := 1 + c.IntN(5)
	dom := 1 << c.IntN(power+1)
	if c.Case%16 == 15 || c.Case%16 == 5 { // the latter: without direct calls
		power = 7 + c.IntN(4)
		dom = 1 << (power - c.IntN(2))
	}
	giant := c.Giant()
	if giant {
		power, dom = 17, 1<<17
	}
	n := 1 << power
	cpus := c.IntN(len(allowedCPUs()) + 1)
	// a vector of its own for each section
	kinds := []string{pick(c.Rng, lagKinds), pick(c.Rng, lagKinds), pick(c.Rng, lagKinds), pick(c.Rng, lagKinds)}
	if giant {
		cpus = 0
		childLimit = 600 * time.Second
		defer func() { childLimit = 250 * time.Second }()
		for i := range kinds {
			kinds[i] = "random"
		}
	}
	t1 := append(lagVector(c.Rng, kinds[0], n), lagVector(c.Rng, kinds[0], n-1+1)[:n-1]...)
	a, b := lagVector(c.Rng, kinds[1], n), lagVector(c.Rng, kinds[2], n)
	t2 := lagVector(c.Rng, kinds[3], n)
	p := &P1{Power: power, TauG1: g1s(t1...), Alpha: g1s(a...), Beta: g1s(b...), TauG2: g2s(t2...), BetaG2: g2s(c.Fr())[0]}
	mustWrite("a.ph1", p.Bytes())
	cons := dom
	if dom > 2 {
		cons = dom/2 + 1 + c.IntN(dom/2)
	}
	k := rawCirc(rawOpts{pub: 2, sec: 2, internal: 2, cons: cons, seed: c.Uint64(), style: c.IntN(4)})
	cs := k.write("r1cs")
	dom = nextPow2(cs.GetNbConstraints())
	var err error
	split := c.P(1, 4) && !giant
	if split {
		bs := 1 + c.IntN(cs.GetNbR1C())
		if e := k.Build().SplitDumpBinary("Part", bs); e != nil {
			c.Abort("%v", e)
		}
		err = p2InitOn(cpus, "a.ph1", "Part", "0.ph2", fmt.Sprint(cs.GetNbConstraints()), fmt.Sprint(cs.GetNbR1C()), fmt.Sprint(bs))
	} else {
		err = p2InitOn(cpus, "a.ph1", "r1cs", "0.ph2")
	}
	if err != nil {
		c.Fail("initialization", "power %d, %d constraints: %v", power, cs.GetNbConstraints(), err)
	}
	l1, l2, l3, l4, err := parseLag(mustRead("srs.lag"))
	if err != nil {
		c.Fail("srs.lag", "%v", err)
	}
	for i, s := range []struct {
		name string
		got  []G1
		v    []Fr
	}{{"tau", l1, t1}, {"alpha", l2, a}, {"beta", l3, b}} {
		where := fmt.Sprintf("srs.lag, power %d, domain %d, section %s (%s), %d CPUs", power, dom, s.name, kinds[i], cpus)
		c.Eval(fmt.Sprint(c.Case, where), dom > 1)
		c.State(where)
		if bad := eqG1(s.got, g1s(inverseDFT(s.v[:dom])...)); bad >= 0 || len(s.got) != dom {
			c.Violation("wrong-conversion-g1", "%s: point %d of %d", where, bad, len(s.got))
		}
	}
	where := fmt.Sprintf("srs.lag, power %d, domain %d, section tau2 (%s), %d CPUs", power, dom, kinds[3], cpus)
	c.Eval(fmt.Sprint(c.Case, where), dom > 1)
	if bad := eqG2(l4, g2s(inverseDFT(t2[:dom])...)); bad >= 0 || len(l4) != dom {
		c.Violation("wrong-conversion-g2", "%s: point %d of %d", where, bad, len(l4))
	}
	c.Sample(map[string]any{"power": power, "domain": dom, "kinds": kinds, "parted": split})
}

// ---------------------------------------------------------------- C17

type schedConf struct {
	name  string
	build string // "", race, 386
	cpus  int
	env   []string
}

// the checks whose cases run again in each configuration
var schedSubs = []struct {
	id         string
	quick, max int
}{
	{"C01", 8, 60}, {"C02", 10, 100}, {"C05", 6, 60}, {"C06", 3, 40}, {"C07", 20, 200}, {"C08", 5, 50}, {"C11", 3, 30},
	{"C12", 1, 20}, {"C18", 5, 60}, {"C20", 6, 60}, {"C22", 6, 40}, {"par", 6, 40}, {"conc", 4, 40}, {"C03", 0, 8}, {"C09", 1, 16}, {"C10", 1, 8}, {"C04", 0, 8},
	{"C14", 1, 10}, {"C13", 0, 10},
}

func machineCPUs() int {
	if n := atoi(os.Getenv("VH_NCPU")); n > 0 {
		return n // set by the driver; this process may have fewer
	}
	return len(allowedCPUs())
}

func schedConfs() []schedConf {
	race := func(s ...string) []string { return append([]string{"GORACE=halt_on_error=1 exitcode=66"}, s...) }
	l := []schedConf{
		{"race", "race", 0, race()},
		{"race, 2 CPUs, noise", "race", 2, race("VH_NOISE=4")},
		{"race, 1 P", "race", 0, race("GOMAXPROCS=1")},
		{"386", "386", 0, nil},
		{"64 Ps, noise", "", 0, []string{"GOMAXPROCS=64", "VH_NOISE=32"}},
		{"frequent collections", "", 3, []string{"GOGC=1", "GODEBUG=gcstoptheworld=1"}},
	}
	for n := 1; n < machineCPUs(); n++ {
		l = append(l, schedConf{fmt.Sprint(n, " CPUs"), "", n, nil})
	}
	return l
}

type schedCase struct {
	conf int
	sub  string
	n    int
}

func schedCases(tier string) []schedCase {
	var l []schedCase
	for i, k := range schedConfs() {
		for _, s := range schedSubs {
			m := s.quick
			if tier == "thorough" {
				m = s.max
			} else if k.build == "" && i > 5 {
				m = (m + 1) / 2
			}
			for j := 0; j < m; j++ {
				// other cases in each configuration
				l = append(l, schedCase{i, s.id, i*m + j})
			}
		}
	}
	return l
}

func init() {
	register(&Check{ID: "C17", Run: runC17, Driver: driveC17, MinEvals: 3000,
		Rule: "cases of the checks of the other properties, each with its own oracle, run again in other configurations: built with the race detector (with and without other goroutines that keep yielding, and on one processor), built for 32 bits, with each CPU count that the machine allows, 64 Ps, a collection at every allocation step; small batches throughout; and common.Parallelize is called directly with 0-300 iterations and 1-40 tasks and must visit every index once; distinct by (configuration, what the oracle compared)"})
}

func runC17(c *Ctx) {
	l := schedCases(c.Tier)
	if c.Case >= len(l) {
		c.Abort("no such case")
	}
	k := l[c.Case]
	conf := schedConfs()[k.conf]
	if k.sub == "par" {
		c.partition(conf.name)
		return
	}
	if k.sub == "conc" {
		c.concurrent(conf.name)
		return
	}
	t0 := time.Now()
	sub := checks[k.sub]
	c.ID, c.Rng = k.sub, newRng("case", c.Seed, k.sub, k.n, "C17")
	mine := c.Case
	c.Case = k.n
	installDRBG("drbg", c.Seed, k.sub, k.n)
	defer func() {
		c.Case, c.ID = mine, "C17"
		c.res.Case = mine
		n := c.res.Evals
		c.res.Counters = map[string]int{"evals_" + strings.NewReplacer(" ", "_", ",", "").Replace(conf.name): n}
		if os.Getenv("VH_TIMES") != "" {
			c.res.Counters["ms_"+conf.name+k.sub] = int(time.Since(t0).Milliseconds())
		}
		for i := range c.res.Sigs {
			c.res.Sigs[i] ^= uint64(k.conf+1) << 56
		}
		for i := range c.res.Viols {
			v := &c.res.Viols[i]
			v.Msg = fmt.Sprintf("[%s, case %d of %s] %s", conf.name, k.n, k.sub, v.Msg)
		}
		c.res.Uniques = nil
		c.res.Samples = nil
		c.Sample(map[string]any{"configuration": conf.name, "check": k.sub, "case": k.n, "cpus": runtime.NumCPU(), "gomaxprocs": runtime.GOMAXPROCS(0), "arch": runtime.GOARCH, "evaluations": n})
		c.State(fmt.Sprint(conf.name, k.sub, k.n))
	}()
	sub.Run(c)
}

// partition observes the work splitter
func (c *Ctx) partition(conf string) {
	bin := os.Getenv("VH_PAR")
	if bin == "" {
		return
	}
	var b []byte
	type job struct{ n, cpus int }
	var jobs []job
	for i := 0; i < 60; i++ {
		j := job{c.IntN(300), c.IntN(41)}
		if c.P(1, 3) {
			j.n = c.IntN(12)
		}
		if i == 30 {
			j.n = 1<<16 + c.IntN(1<<19)
		}
		jobs = append(jobs, j)
		b = binary.BigEndian.AppendUint32(b, uint32(j.n))
		b = binary.BigEndian.AppendUint32(b, uint32(j.cpus))
	}
	mustWrite("jobs", b)
	cmd := exec.Command(bin, "jobs", "results")
	o, err := combined(cmd)
	if err != nil {
		s := string(o)
		if strings.Contains(s, "DATA RACE") {
			c.Violation("data-race", "[%s] common.Parallelize: %s", conf, s)
		} else {
			c.Violation("parallelize", "[%s] common.Parallelize: %v: %s", conf, err, s)
		}
		return
	}
	r := &rd{b: mustRead("results")}
	for _, j := range jobs {
		segs := r.u32()
		order := ""
		for i := 0; i < segs; i++ {
			s := r.u32()
			e := r.u32()
			order += fmt.Sprint(s, "-", e, " ")
		}
		hits := r.take(j.n)
		if r.err != nil {
			c.Violation("parallelize", "[%s] %v", conf, r.err)
			return
		}
		c.Eval(fmt.Sprint(conf, j), j.n > 1)
		c.State("order " + order)
		for i, h := range hits {
			if h != 1 {
				c.Violation("parallelize", "[%s] %d iterations on %d tasks: index %d is processed %d times", conf, j.n, j.cpus, i, h)
				break
			}
		}
	}
}

// concurrent runs independent ceremonies at the same time in this process
func (c *Ctx) concurrent(conf string) {
	setBatch1(2 + c.IntN(12))
	setBatch2(1 + c.IntN(12))
	type job struct {
		name string
		run  func() error
		bad  bool
		err  error
	}
	var jobs []*job
	add := func(name string, bad bool, run func() error) {
		jobs = append(jobs, &job{name: name, bad: bad, run: run})
	}
	m := 4 + c.IntN(5)
	for i := 0; i < m; i++ {
		i := i
		in, out := fmt.Sprint("in", i), fmt.Sprint("out", i)
		switch c.IntN(7) {
		case 0, 1:
			power := 1 + c.IntN(4)
			var secs []P1Sec
			for j := c.IntN(3); j > 0; j-- {
				secs = append(secs, randP1Sec(c.Rng))
			}
			mustWrite(in, forgeP1(power, oneBase(), secs).Bytes())
			add(fmt.Sprintf("phase 1 contribution and verification, power %d, %d records", power, len(secs)), false, func() error {
				if err := p1Contribute(in, out); err != nil {
					return err
				}
				return p1Verify(out, "")
			})
		case 2, 3:
			s := randP2Scalars(c.Rng, "plain")
			o := s.file()
			mustWrite(fmt.Sprint("origin", i), o.Bytes())
			var secs []P2Sec
			for j := c.IntN(3); j > 0; j-- {
				secs = append(secs, randP2Sec(c.Rng))
			}
			mustWrite(in, applyP2(o, secs).Bytes())
			add(fmt.Sprintf("phase 2 contribution and verification, domain %d, witness %d, %d records", s.H.Domain, s.H.Witness, len(secs)), false, func() error {
				if err := p2Contribute(in, out); err != nil {
					return err
				}
				return p2Verify(out, fmt.Sprint("origin", i))
			})
		case 4:
			power := 1 + c.IntN(4)
			q := forgeP1(power, oneBase(), []P1Sec{randP1Sec(c.Rng), randP1Sec(c.Rng)})
			l := q.TauG1
			if c.Bool() {
				l = q.Beta
			}
			j := c.IntN(len(l))
			l[j] = addG1(l[j], gen1)
			mustWrite(in, q.Bytes())
			add(fmt.Sprintf("phase 1 verification of a wrong element, power %d", power), true, func() error { return p1Verify(in, "") })
		case 5:
			s := randP2Scalars(c.Rng, "plain")
			o := s.file()
			mustWrite(fmt.Sprint("origin", i), o.Bytes())
			q := applyP2(o, []P2Sec{randP2Sec(c.Rng)})
			j := c.IntN(len(q.Z))
			q.Z[j] = addG1(q.Z[j], gen1)
			mustWrite(in, q.Bytes())
			add(fmt.Sprintf("phase 2 verification of a wrong element, domain %d", s.H.Domain), true, func() error { return p2Verify(in, fmt.Sprint("origin", i)) })
		case 6:
			power := 1 + c.IntN(5)
			p := srs(power, Base{c.Fr(), c.Fr(), c.Fr()})
			mustWrite(in, ppotBytes(c.Rng, p))
			small := 1 + c.IntN(power)
			want := &P1{Power: small, TauG1: p.TauG1[:2<<small-1], Alpha: p.Alpha[:1<<small], Beta: p.Beta[:1<<small], TauG2: p.TauG2[:1<<small], BetaG2: p.BetaG2}
			add(fmt.Sprintf("transformation from power %d to %d", power, small), false, func() error {
				if err := try(func() error { return phase1.Transform(in, out, byte(power), byte(small)) }); err != nil {
					return err
				}
				if !bytes.Equal(mustRead(out), want.Bytes()) {
					return fmt.Errorf("the output is wrong")
				}
				return nil
			})
		}
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, j := range jobs {
		wg.Add(1)
		go func(j *job) {
			defer wg.Done()
			<-start
			j.err = j.run()
		}(j)
	}
	close(start)
	wg.Wait()
	what := ""
	for _, j := range jobs {
		what += j.name + "; "
	}
	for i, j := range jobs {
		c.Eval(fmt.Sprint(conf, c.Case, i, j.name), true)
		if j.bad && j.err == nil {
			c.Violation("concurrent", "[%s] accepted when %s", conf, what)
		} else if !j.bad && j.err != nil {
			c.Violation("concurrent", "[%s] %s: %v; at the same time: %s", conf, j.name, j.err, what)
		}
	}
	c.Count("concurrent_operations", len(jobs))
}

// noise keeps goroutines yielding, so that the others are moved around
func noise() {
	n := atoi(os.Getenv("VH_NOISE"))
	for i := 0; i < n; i++ {
		go func() {
			for {
				for k := 0; k < 200; k++ {
					runtime.Gosched()
				}
				time.Sleep(50 * time.Microsecond)
			}
		}()
	}
}

func driveC17(d *drv) {
	os.Setenv("VH_NCPU", fmt.Sprint(machineCPUs()))
	confs := schedConfs()
	all := schedCases(d.tier)
	only := d.only
	type group struct {
		cases []int
		next  int
	}
	groups := make([]group, len(confs))
	for i, k := range all {
		if only < 0 || only == i {
			groups[k.conf].cases = append(groups[k.conf].cases, i)
		}
	}
	if only >= 0 {
		d.chk.MinEvals = 1
	}
	// 8 slots take the next case of the configuration that is the least
	// advanced, so each slot keeps its worker as long as it has work
	var mu sync.Mutex
	slots := 8
	var wg sync.WaitGroup
	confQueue := make(chan int, 1000)
	for i, g := range groups {
		if len(g.cases) > 0 {
			w := 1
			if confs[i].build != "" {
				w = 2
			}
			for j := 0; j < w; j++ {
				confQueue <- i
			}
		}
	}
	close(confQueue)
	for s := 0; s < slots; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			round := 0
			for i := range confQueue {
				k := confs[i]
				bin := d.bin
				env := append([]string{}, k.env...)
				switch k.build {
				case "race":
					bin = os.Getenv("VH_RACE")
					if v := os.Getenv("VH_LAGRACE"); v != "" {
						env = append(env, "VH_LAG="+v)
					}
					if v := os.Getenv("VH_PARRACE"); v != "" {
						env = append(env, "VH_PAR="+v)
					}
				case "386":
					bin = os.Getenv("VH_386")
				}
				if bin == "" {
					d.mu.Lock()
					d.inconclusive = append(d.inconclusive, "no binary for "+k.name)
					d.mu.Unlock()
					continue
				}
				round++
				d.cpus[s*100+round] = k.cpus
				d.runOn(s*100+round, bin, env, func() (int, bool) {
					mu.Lock()
					defer mu.Unlock()
					g := &groups[i]
					if g.next >= len(g.cases) {
						return 0, false
					}
					g.next++
					return g.cases[g.next-1], true
				})
			}
		}(s)
	}
	wg.Wait()
}
