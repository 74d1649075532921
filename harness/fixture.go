package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/bnb-chain/zkbnb-setup/phase1"
)

// Fix is a complete ceremony as files of the current directory
type Fix struct {
	Power, K1, K2 int
	B             Base // the secrets of the base file
	NC, NR, BS    int
	Commit        bool
	Ph2           string // the last phase 2 file
	P2Need        int    // bytes of Ph2 before its records
	P1End         int    // bytes of a.ph1 before its records
	Circ          *Circ
}

// Cmd is a command on the files of a fixture
type Cmd struct {
	Name    string
	Args    []string
	Inputs  []string // every file it reads
	Outputs []string // every file it writes
	Main    int      // index in Args of the output path, or -1
	InArgs  []int    // indices in Args of input paths
	Run     func(args []string) error
	Slow    bool
	Verify  bool
}

func atoi(s string) int {
	n := 0
	fmt.Sscan(s, &n)
	return n
}

// fixture builds:
//
//	t.ph1     contribution-free base of unknown origin, as p1t makes
//	x.ph1     ceremony of K1 contributions on it
//	a.ph1     ceremony of K1 contributions from scratch
//	ppot      uncompressed challenge with the parameters of t.ph1
//	r1cs, Part.r1cs.*   circuit
//	0.ph2, K2.ph2, srs.lag, evals, pk, vk, S.*
func (c *Ctx) fixture(power, k1, k2 int, commit bool, wide bool) *Fix {
	f := &Fix{Power: power, K1: k1, K2: k2, Commit: commit}
	f.B = Base{c.Fr(), c.Fr(), c.Fr()}
	t := srs(power, f.B)
	mustWrite("t.ph1", t.Bytes())
	mustWrite("ppot", ppotBytes(c.Rng, t))
	var secs []P1Sec
	for i := 0; i < k1; i++ {
		secs = append(secs, randP1Sec(c.Rng))
	}
	mustWrite("x.ph1", forgeP1(power, f.B, secs).Bytes())
	mustWrite("a.ph1", forgeP1(power, oneBase(), secs).Bytes())
	_, _, _, _, f.P1End = p1Sizes(power)
	cons := 1<<power - c.IntN(maxInt(1, 1<<power/2))
	o := rawOpts{pub: 2 + c.IntN(2), sec: 1 + c.IntN(3), internal: 1 + c.IntN(4), cons: cons, seed: c.Uint64(), commit: commit, style: c.IntN(4)}
	if wide {
		o.sec += 12
	}
	k := rawCirc(o)
	f.Circ = k
	cs := k.write("r1cs")
	f.NC, f.NR = cs.GetNbConstraints(), cs.GetNbR1C()
	f.BS = 1 + c.IntN(f.NR)
	if err := k.Build().SplitDumpBinary("Part", f.BS); err != nil {
		c.Abort("SplitDumpBinary: %v", err)
	}
	ins := allFiles()
	if err := p2Init("a.ph1", "r1cs", "0.ph2"); err != nil {
		c.Refused("fixture: initialization: %v", err)
	}
	c.unchanged(ins, "initialization of phase 2")
	p, err := readP2("0.ph2")
	if err != nil {
		c.Refused("fixture: %v", err)
	}
	var s2 []P2Sec
	for i := 0; i < k2; i++ {
		s2 = append(s2, randP2Sec(c.Rng))
	}
	q := applyP2(p, s2)
	f.Ph2 = fmt.Sprint(k2, ".ph2")
	mustWrite(f.Ph2, q.Bytes())
	f.P2Need = len(q.Bytes()) - p2RecSize*k2
	ins = allFiles()
	if err := extractKeys(f.Ph2); err != nil {
		c.Refused("fixture: keys: %v", err)
	}
	c.unchanged(ins, "key extraction")
	ins = allFiles()
	if err := extractSplit(f.Ph2, "S"); err != nil {
		c.Refused("fixture: split keys: %v", err)
	}
	c.unchanged(ins, "split key extraction")
	ins = allFiles()
	if err := exportSol("S"); err != nil {
		c.Refused("fixture: contract: %v", err)
	}
	c.unchanged(ins, "contract export")
	return f
}

// allFiles is the regular files of the current directory
func allFiles() map[string][]byte {
	l, _ := filepath.Glob("*")
	return snap(l)
}

var splitParts = []string{"pk.E", "pk.A", "pk.B1", "pk.Z", "pk.K", "pk.B2", "pk.CommitmentKey", "vk"}

func partFiles() []string {
	l, _ := filepath.Glob("Part.r1cs.*")
	sort.Strings(l)
	return l
}

// commands that succeed on the fixture; outputs go to o.*
func (f *Fix) commands() []*Cmd {
	var splits []string
	for _, p := range splitParts {
		splits = append(splits, "O."+p+".save")
	}
	sp := func(a ...any) []string {
		var l []string
		for _, x := range a {
			l = append(l, fmt.Sprint(x))
		}
		return l
	}
	return []*Cmd{
		{Name: "p1n", Args: sp(f.Power, "o.ph1"), Outputs: []string{"o.ph1"}, Main: 1,
			Run: func(a []string) error { return phase1.Initialize(byte(atoi(a[0])), a[1]) }},
		{Name: "p1c", Args: sp("a.ph1", "o.ph1"), Inputs: []string{"a.ph1"}, Outputs: []string{"o.ph1"}, Main: 1, InArgs: []int{0},
			Run: func(a []string) error { return phase1.Contribute(a[0], a[1]) }},
		{Name: "p1v", Args: sp("a.ph1"), Inputs: []string{"a.ph1"}, Main: -1, InArgs: []int{0}, Verify: true,
			Run: func(a []string) error { return phase1.Verify(a[0], "") }},
		{Name: "p1t", Args: sp("ppot", "o.ph1", f.Power, f.Power), Inputs: []string{"ppot"}, Outputs: []string{"o.ph1"}, Main: 1, InArgs: []int{0},
			Run: func(a []string) error { return phase1.Transform(a[0], a[1], byte(atoi(a[2])), byte(atoi(a[3]))) }},
		{Name: "p1vt", Args: sp("x.ph1", "t.ph1"), Inputs: []string{"x.ph1", "t.ph1"}, Main: -1, InArgs: []int{0, 1}, Verify: true,
			Run: func(a []string) error { return phase1.Verify(a[0], a[1]) }},
		{Name: "p2n", Args: sp("a.ph1", "r1cs", "o.ph2"), Inputs: []string{"a.ph1", "r1cs"}, Outputs: []string{"o.ph2", "srs.lag", "evals"}, Main: 2, InArgs: []int{0, 1}, Slow: true,
			Run: func(a []string) error { return p2Init(a[0], a[1], a[2]) }},
		{Name: "p2np", Args: sp("a.ph1", "Part", "o.ph2", f.NC, f.NR, f.BS), Inputs: append([]string{"a.ph1"}, partFiles()...), Outputs: []string{"o.ph2", "srs.lag", "evals"}, Main: 2, InArgs: []int{0}, Slow: true,
			Run: func(a []string) error { return p2InitParted(a[0], a[1], a[2], atoi(a[3]), atoi(a[4]), atoi(a[5])) }},
		{Name: "p2c", Args: sp(f.Ph2, "o.ph2"), Inputs: []string{f.Ph2}, Outputs: []string{"o.ph2"}, Main: 1, InArgs: []int{0},
			Run: func(a []string) error { return p2Contribute(a[0], a[1]) }},
		{Name: "p2v", Args: sp(f.Ph2, "0.ph2"), Inputs: []string{f.Ph2, "0.ph2"}, Main: -1, InArgs: []int{0, 1}, Verify: true,
			Run: func(a []string) error { return p2Verify(a[0], a[1]) }},
		{Name: "key", Args: sp(f.Ph2), Inputs: []string{f.Ph2, "evals"}, Outputs: []string{"pk", "vk"}, Main: -1, InArgs: []int{0}, Slow: true,
			Run: func(a []string) error { return extractKeys(a[0]) }},
		{Name: "keys", Args: sp(f.Ph2, "O"), Inputs: []string{f.Ph2, "evals"}, Outputs: splits, Main: -1, InArgs: []int{0}, Slow: true,
			Run: func(a []string) error { return extractSplit(a[0], a[1]) }},
		{Name: "sol", Args: sp("S"), Inputs: []string{"S.vk.save"}, Outputs: []string{"S.sol"}, Main: -1,
			Run: func(a []string) error { return exportSol(a[0]) }},
	}
}

func (k *Cmd) api() error { return try(func() error { return k.Run(k.Args) }) }

// apiWith runs the command with other arguments at some positions
func (k *Cmd) with(args []string) error { return try(func() error { return k.Run(args) }) }

func (k *Cmd) swapArg(i int, v string) []string {
	a := append([]string{}, k.Args...)
	a[i] = v
	return a
}

// swapInput replaces a named input by another file; implicit inputs can't be
func (k *Cmd) swapInput(name, v string) ([]string, bool) {
	for _, i := range k.InArgs {
		if k.Args[i] == name {
			return k.swapArg(i, v), true
		}
	}
	return nil, false
}

// ---------------------------------------------------------------- CLI

type cliRes struct {
	Code     int
	Out, Err string
	TimedOut bool
}

func (c *Ctx) cli(args ...string) cliRes {
	return c.cliEnv(nil, args...)
}

func (c *Ctx) cliEnv(env []string, args ...string) cliRes {
	if c.CLI == "" {
		c.Abort("no command line binary")
	}
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, c.CLI, args...)
	cmd.Env = append(os.Environ(), env...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := cliRes{Out: o.String(), Err: e.String(), TimedOut: ctx.Err() != nil}
	if err != nil {
		r.Code = -1
		if x, ok := err.(*exec.ExitError); ok {
			r.Code = x.ExitCode()
		}
	}
	return r
}

func (r cliRes) last() string {
	l := strings.Split(strings.TrimSpace(r.Err), "\n")
	s := l[0]
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// snapshot of files
func snap(paths []string) map[string][]byte {
	m := map[string][]byte{}
	for _, p := range paths {
		if b, err := os.ReadFile(p); err == nil {
			m[p] = b
		}
	}
	return m
}

func (c *Ctx) unchanged(m map[string][]byte, what string) bool {
	ok := true
	for p, b := range m {
		x, err := os.ReadFile(p)
		if err != nil {
			c.Violation("input-destroyed", "%s: input %s: %v", what, p, err)
			ok = false
		} else if !bytes.Equal(x, b) {
			c.Violation("input-changed", "%s: input %s changed from %d to %d bytes", what, p, len(b), len(x))
			ok = false
		}
	}
	return ok
}

func restore(m map[string][]byte) {
	for p, b := range m {
		x, err := os.ReadFile(p)
		if err != nil || !bytes.Equal(x, b) {
			os.Remove(p)
			mustWrite(p, b)
		}
	}
}
