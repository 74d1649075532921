package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"
	"time"
)

// Faults of single system calls, injected by strace into the command line
// binary. The calls are chosen by the path of their file and a count, which is
// per thread, so whether a fault took place is read from strace's log.

// injector is the command line that works here, nil if none does
var injector []string
var injectorProbed bool

func (c *Ctx) canInject() bool {
	if !injectorProbed {
		injectorProbed = true
		if c.CLI == "" {
			return false
		}
		dir := filepath.Join(c.Dir, "probe")
		os.Mkdir(dir, 0755)
		defer os.RemoveAll(dir)
		for _, l := range [][]string{{"strace", "-f", "--seccomp-bpf", "-q"}, {"strace", "-f", "-q"}} {
			p, log := filepath.Join(dir, "p.ph1"), filepath.Join(dir, "log")
			os.Remove(p)
			injector = l
			r := c.straced([]string{"-o", log, "-P", p, "-e", "trace=write", "-e", "inject=write:error=ENOSPC"}, "p1n", "1", p)
			b, _ := os.ReadFile(log)
			if r.Code > 0 && bytes.Contains(b, []byte("(INJECTED)")) {
				return true
			}
		}
		injector = nil
	}
	return injector != nil
}

func (c *Ctx) straced(opts []string, args ...string) cliRes {
	a := append([]string{}, injector...)
	if strings.Contains(strings.Join(opts, " "), ":signal=") {
		a = []string{"strace", "-f", "-q"} // it delivers no signals with --seccomp-bpf
	}
	a = append(a, opts...)
	a = append(append(a, c.CLI), args...)
	ctx, cancel := context.WithTimeout(context.Background(), 200*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, a[0], a[1:]...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS="+pick(c.Rng, []string{"1", "2", "8"}))
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	err := cmd.Run()
	r := cliRes{Out: o.String(), Err: e.String(), TimedOut: ctx.Err() != nil}
	if err != nil {
		r.Code = -1
		if x, ok := err.(*exec.ExitError); ok {
			r.Code = x.ExitCode()
		}
	}
	return r
}

// injected runs a command with a fault at the n-th call on a file, and tells
// whether it took place, and where
func (c *Ctx) injected(k *Cmd, args []string, path, call, fault string, n int) (r cliRes, hit string) {
	abs := filepath.Join(c.Dir, path)
	os.Remove("strace.log")
	r = c.straced([]string{"-o", "strace.log", "-P", abs, "-e", "trace=" + call, "-e", fmt.Sprintf("inject=%s:%s:when=%d", call, fault, n)}, append([]string{k.Name}, args...)...)
	b, _ := os.ReadFile("strace.log")
	os.Remove("strace.log")
	if strings.HasPrefix(fault, "signal") {
		if r.Code == -1 && !r.TimedOut {
			hit = fmt.Sprintf("killed at write %d of %s", n, path)
		}
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "(INJECTED)") {
			return r, fmt.Sprintf("%s at call %d of %s on %s", fault, n, call, path)
		}
	}
	return
}

// few is a small number, mostly
func (c *Ctx) few(max int) int { return 1 + c.IntN(1+c.IntN(max)) }

// calls a section of this size takes, about
func calls(size int) int { return 2 + size/4096 }

// writeFaults makes single writes, or the opening, of outputs fail
func (c *Ctx) writeFaults(f *Fix, k *Cmd, ref map[string][]byte, prepare func()) {
	if !c.canInject() || len(k.Outputs) == 0 {
		return
	}
	o := pick(c.Rng, k.Outputs)
	n := c.few(calls(len(ref[o])) + 3)
	call, fault := "write", "error="+pick(c.Rng, []string{"ENOSPC", "EIO", "EDQUOT", "EFBIG"})
	if c.P(1, 6) {
		call, fault, n = "openat", "error="+pick(c.Rng, []string{"ENOSPC", "EMFILE", "EACCES", "EROFS"}), c.few(3)
	}
	prepare()
	k.removeOutputs()
	r, hit := c.injected(k, k.Args, o, call, fault, n)
	if hit == "" {
		c.Count("faults_that_missed", 1)
		return
	}
	c.Eval(fmt.Sprint(c.Case, k.Name, hit), true)
	c.Count("single_call_faults_"+k.Name, 1)
	if r.Code == 0 {
		if err := c.complete(f, k, ref); err != nil {
			c.Violation("transient-"+k.Name, "%s reports success with %s, but %v", k.Name, hit, err)
		}
	}
}

// crash kills a command at a write, shows what it left to every reader of such
// files, and runs it again over that
func (c *Ctx) crash(f *Fix, k *Cmd, ref map[string][]byte, prepare func()) {
	if !c.canInject() || len(k.Outputs) == 0 {
		return
	}
	o := pick(c.Rng, k.Outputs)
	n := c.few(calls(len(ref[o])) + 2)
	prepare()
	k.removeOutputs()
	ins := snap(k.Inputs)
	_, hit := c.injected(k, k.Args, o, "write", "signal=SIGKILL", n)
	if hit == "" {
		c.Count("faults_that_missed", 1)
		return
	}
	c.Eval(fmt.Sprint(c.Case, k.Name, hit), true)
	c.Count("crashes_"+k.Name, 1)
	c.unchanged(ins, k.Name+" "+hit)
	left := snap(k.Outputs)
	if c.complete(f, k, ref) != nil {
		c.refusedRemains(f, k, ref, left, hit)
	}
	// once more, over the remains
	for p := range left {
		os.Remove(p)
		mustWrite(p, left[p])
	}
	c.again(f, k, ref, "after it was "+hit)
}

func (c *Ctx) again(f *Fix, k *Cmd, ref map[string][]byte, when string) {
	err := k.api()
	c.Eval(fmt.Sprint(c.Case, k.Name, when, "again"), true)
	if err != nil {
		c.Violation("rerun-fails-"+k.Name, "%s %s fails: %v", k.Name, when, err)
		return
	}
	if err := c.complete(f, k, ref); err != nil {
		c.Violation("rerun-wrong-"+k.Name, "%s %s reports success, but %v", k.Name, when, err)
		return
	}
	switch k.Name {
	case "p1c":
		err = p1Verify("o.ph1", "")
	case "p2c":
		err = p2Verify("o.ph2", "0.ph2")
	}
	if err != nil {
		c.Violation("rerun-wrong-"+k.Name, "%s %s: the output isn't verified: %v", k.Name, when, err)
	}
}

// refusedRemains: incomplete outputs are refused by the commands that read them
func (c *Ctx) refusedRemains(f *Fix, k *Cmd, ref, left map[string][]byte, hit string) {
	try1 := func(by string, run func() error) {
		c.Eval(fmt.Sprint(c.Case, k.Name, hit, by), true)
		c.Count("remains_shown", 1)
		if run() == nil {
			c.Violation("remains-accepted-"+by, "what %s left when it was %s (%s) is accepted by %s", k.Name, hit, sizes(left, ref), by)
		}
	}
	whole := func(o string) bool { return bytes.Equal(left[o], ref[o]) }
	switch k.Name {
	case "p1n", "p1t", "p1c":
		if b, ok := left["o.ph1"]; ok && !(k.Name != "p1c" && whole("o.ph1")) {
			mustWrite("rest.ph1", b)
			try1("p1c", func() error { return p1Contribute("rest.ph1", "next") })
			try1("p1v", func() error { return p1Verify("rest.ph1", "") })
			try1("p1vt", func() error { return p1Verify("rest.ph1", "t.ph1") })
			if k.Name != "p1c" {
				try1("p1vt", func() error { return p1Verify("x.ph1", "rest.ph1") })
			}
			if _, _, _, _, end := p1Sizes(f.Power); len(b) < end {
				try1("p2n", func() error { return p2Init("rest.ph1", "r1cs", "next") })
			}
		}
	case "p2n", "p2np", "p2c":
		if b, ok := left["o.ph2"]; ok && !(k.Name != "p2c" && whole("o.ph2")) {
			mustWrite("rest.ph2", b)
			try1("p2c", func() error { return p2Contribute("rest.ph2", "next") })
			try1("p2v", func() error { return p2Verify("rest.ph2", "0.ph2") })
			if k.Name != "p2c" {
				try1("p2v as origin", func() error { return p2Verify(f.Ph2, "rest.ph2") })
			}
		}
		if k.Name != "p2c" && len(left["evals"]) < len(ref["evals"]) {
			// beside a complete file
			if _, ok := left["evals"]; !ok {
				os.Remove("evals")
			}
			try1("key", func() error { return extractKeys(f.Ph2) })
			try1("keys", func() error { return extractSplit(f.Ph2, "N") })
		}
	case "keys":
		if b, ok := left["O.vk.save"]; ok && len(b) < len(ref["O.vk.save"]) {
			try1("sol", func() error { return exportSol("O") })
		}
	}
}

func sizes(left, ref map[string][]byte) string {
	s := ""
	for o, b := range ref {
		s += fmt.Sprintf("%s: %d of %d bytes ", o, len(left[o]), len(b))
	}
	return strings.TrimSpace(s)
}

// stale runs a command over output files that already hold something
func (c *Ctx) stale(f *Fix, k *Cmd, ref map[string][]byte, prepare func()) {
	prepare()
	k.removeOutputs()
	what := ""
	for _, o := range k.Outputs {
		var b []byte
		switch c.IntN(6) {
		case 4:
			b = c.Bytes(len(ref[o]))
			what = "random bytes of the same length"
		case 0:
			b = append(append([]byte{}, ref[o]...), c.Bytes(1+c.IntN(5000))...)
			what = "a longer output of its own"
		case 1:
			b = c.Bytes(len(ref[o]) + c.IntN(9000))
			what = "longer random bytes"
		case 2:
			b = c.Bytes(1 + c.IntN(len(ref[o])))
			what = "shorter random bytes"
		case 3:
			b = ref[o]
			what = "an output of its own"
		default:
			continue
		}
		mustWrite(o, b)
		if c.P(1, 4) {
			os.Chmod(o, 0600)
		}
	}
	c.Count("stale_outputs", 1)
	c.again(f, k, ref, "over outputs that hold "+what)
}

// readFaults makes single reads of inputs fail
func (c *Ctx) readFaults(f *Fix, k *Cmd, ref map[string][]byte) {
	if !c.canInject() || len(k.Inputs) == 0 {
		return
	}
	in := pick(c.Rng, k.Inputs)
	b := mustRead(in)
	call, n := "read", c.few(calls(len(b))+1)
	switch c.IntN(6) {
	case 0:
		call, n = "lseek", c.few(4)
	case 1:
		call, n = "openat", c.few(3)
	}
	fault := "error=" + pick(c.Rng, []string{"EIO", "ESTALE", "ENOMEM", "EACCES"})
	k.removeOutputs()
	// a verification has to find out, so what comes last is wrong in its file
	saved := map[string][]byte{}
	if k.Verify {
		saved[in] = b
		m := append([]byte{}, b...)
		m[len(m)-1-c.IntN(32)] ^= 1 << c.IntN(8)
		mustWrite(in, m)
	}
	defer restore(saved)
	r, hit := c.injected(k, k.Args, in, call, fault, n)
	if hit == "" {
		c.Count("faults_that_missed", 1)
		return
	}
	c.Eval(fmt.Sprint(c.Case, k.Name, hit), true)
	c.Count("single_call_faults_"+k.Name, 1)
	if r.Code != 0 {
		return
	}
	if len(k.Outputs) > 0 {
		if err := c.complete(f, k, ref); err != nil {
			c.Violation("read-failure-ignored-"+k.Name, "%s reports success with %s, but %v", k.Name, hit, err)
		}
	} else {
		c.Violation("read-failure-ignored-"+k.Name, "%s reports success with %s and a wrong end of that file", k.Name, hit)
	}
}

var traceQuoted = regexp.MustCompile(`"((?:[^"\\]|\\.)*)"`)

// touched are the paths below the working directory that a command opens for
// writing, creates, renames, removes or truncates, from strace's log
func (c *Ctx) touched(log []byte) []string {
	seen := map[string]bool{}
	var out []string
	for _, l := range strings.Split(string(log), "\n") {
		if strings.Contains(l, "open") && !strings.Contains(l, "O_WRONLY") && !strings.Contains(l, "O_RDWR") && !strings.Contains(l, "O_CREAT") && !strings.Contains(l, "O_TRUNC") {
			continue
		}
		for _, m := range traceQuoted.FindAllStringSubmatch(l, -1) {
			p := m[1]
			if filepath.IsAbs(p) {
				r, err := filepath.Rel(c.Dir, p)
				if err != nil || strings.HasPrefix(r, "..") {
					continue
				}
				p = r
			}
			if p = filepath.Clean(p); p != "." && !strings.HasPrefix(p, "..") && !seen[p] {
				seen[p] = true
				out = append(out, p)
			}
		}
	}
	return out
}

// otherFiles finds the files a command touches that aren't its outputs, when
// it has run before too, and gives it inputs of these names
func (c *Ctx) otherFiles(k *Cmd, reset func()) {
	if !c.canInject() {
		return
	}
	reset()
	known := map[string]bool{"trace": true}
	for _, o := range k.Outputs {
		known[filepath.Clean(o)] = true
	}
	for _, in := range k.Inputs {
		known[filepath.Clean(in)] = true
	}
	var extra []string
	for i := 0; i < 2; i++ {
		os.Remove("trace")
		r := c.straced([]string{"-o", "trace", "-s", "4096", "-e", "trace=open,openat,creat,rename,renameat,renameat2,unlink,unlinkat,truncate,link,linkat,symlink,symlinkat"}, append([]string{k.Name}, k.Args...)...)
		c.Eval(fmt.Sprint(c.Case, k.Name, "files touched", i), true)
		if r.Code != 0 {
			c.Count("traced_runs_that_fail", 1)
			break
		}
		b, _ := os.ReadFile("trace")
		l := c.touched(b)
		c.Count("files_touched", len(l))
		for _, p := range l {
			if !known[p] {
				known[p] = true
				extra = append(extra, p)
			}
		}
	}
	reset()
	for _, e := range extra {
		c.Count("other_files_touched", 1)
		for _, i := range k.InArgs {
			for twice := 0; twice < 2; twice++ {
				args := append([]string{}, k.Args...)
				b := mustRead(args[i])
				args[i] = e
				os.MkdirAll(filepath.Dir(e), 0755)
				mustWrite(e, b)
				before := snap([]string{e})
				for n := 0; n <= twice; n++ {
					c.cli(append([]string{k.Name}, args...)...)
				}
				what := fmt.Sprintf("%s with its input being %s, which it writes or removes beside its outputs", k.Name, e)
				c.Eval(fmt.Sprint(c.Case, what, i, twice), true)
				c.unchanged(before, what)
				reset()
			}
		}
	}
}
