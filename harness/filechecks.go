package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"strings"
	"syscall"

	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
)

// ---------------------------------------------------------------- C15

const c15Shards = 64

func init() {
	register(&Check{ID: "C15", Quick: 2 * c15Shards, Thorough: 12 * c15Shards, MinEvals: 3000, Run: runC15, Level: "fault_enumeration",
		Rule: "complete ceremonies are cut short: for p1c, p1v, p1vt, p1t, p2c, p2v and sol every input file at every byte position, for p2n, p2np, key and keys a sample of positions that includes every section boundary; each run must fail, and the same run on the complete file must succeed; and single reads, seeks and openings of inputs are made to fail in the command line binary (by strace), which then has to fail unless its outputs are right; distinct by (ceremony, command, file, position)"})
}

// need is how many bytes of an input a command uses
func (f *Fix) need(cmd, file string, size int) int {
	switch {
	case (cmd == "p2n" || cmd == "p2np") && file == "a.ph1":
		return f.P1End
	case (cmd == "key" || cmd == "keys") && file == f.Ph2:
		return f.P2Need
	}
	return size
}

func runC15(c *Ctx) {
	fixNo, shard := c.Case/c15Shards, c.Case%c15Shards
	// the ceremony is that of the group of cases, all of its positions are
	// divided among them
	r := c.Rng
	c.Rng = newRng("C15", c.Seed, fixNo)
	f := c.fixture(1+fixNo%2+fixNo/8, 1+fixNo%3, 1+fixNo%2, fixNo%2 == 1, false)
	c.Rng = r
	evals, vks := mustRead("evals"), mustRead("S.vk.save")
	for _, k := range f.commands() {
		if len(k.Inputs) == 0 {
			continue
		}
		// side files that earlier commands wrote
		mustWrite("evals", evals)
		mustWrite("S.vk.save", vks)
		control := false
		for _, in := range k.Inputs {
			b := mustRead(in)
			n := f.need(k.Name, in, len(b))
			if n == 0 {
				continue
			}
			var pos []int
			if !k.Slow {
				for i := shard; i < n; i += c15Shards {
					pos = append(pos, i)
				}
			} else if c.P(1, 3) || c.Thorough() {
				switch c.IntN(4) {
				case 0:
					pos = append(pos, n-1)
				case 1:
					pos = append(pos, c.boundary(f, in, n))
				default:
					pos = append(pos, c.IntN(n))
				}
			}
			if strings.HasPrefix(in, "Part.") && c.CLI == "" && len(pos) > 1 {
				pos = pos[:1]
			}
			if len(pos) == 0 {
				continue
			}
			if !control {
				control = true
				if err := k.api(); err != nil {
					c.Refused("%s fails on complete files: %v", k.Name, err)
				}
			}
			saved := snap(k.Inputs)
			for _, p := range pos {
				var err error
				what := fmt.Sprintf("%s accepted %s cut at byte %d of %d (power %d, %d and %d contributions)", k.Name, in, p, len(b), f.Power, f.K1, f.K2)
				if strings.HasPrefix(in, "Part.") {
					// the reader of the parts crashes the process
					mustWrite(in, b[:p])
					res := c.cli(k.Args...)
					if res.Code != 0 {
						err = fmt.Errorf("exit %d", res.Code)
					}
					mustWrite(in, b)
				} else if args, ok := k.swapInput(in, "cut"); ok {
					mustWrite("cut", b[:p])
					err = k.with(args)
				} else {
					mustWrite(in, b[:p])
					err = k.api()
					mustWrite(in, b)
				}
				c.Eval(fmt.Sprint(fixNo, k.Name, in, p), true)
				c.Count("cuts_"+k.Name, 1)
				if err == nil {
					c.Violation(fmt.Sprintf("accepted-%s-%s", k.Name, fileKind(in)), "%s", what)
				}
			}
			restore(saved)
		}
	}
	mustWrite("evals", evals)
	mustWrite("S.vk.save", vks)
	cmds := f.commands()
	for i := 0; i < 6; i++ {
		k := pick(c.Rng, cmds)
		if k.Name == "p1n" {
			continue
		}
		if err := k.api(); err != nil {
			c.Refused("%s fails on complete files: %v", k.Name, err)
		}
		ref := snap(k.Outputs)
		for j := 0; j < 3; j++ {
			if strings.HasPrefix(k.Name, "key") {
				mustWrite("evals", evals)
			}
			c.readFaults(f, k, ref)
		}
		mustWrite("evals", evals)
	}
	c.Sample(map[string]any{"power": f.Power, "contributions": []int{f.K1, f.K2}, "circuit": f.Circ.Name, "shard": shard})
}

func fileKind(in string) string {
	switch {
	case strings.HasPrefix(in, "Part."):
		return "parts"
	case strings.HasSuffix(in, ".ph2") && in != "0.ph2":
		return "ph2"
	}
	return strings.TrimSuffix(in, ".save")
}

// boundary returns the end of a section of a file
func (c *Ctx) boundary(f *Fix, in string, n int) int {
	var l []int
	switch in {
	case "a.ph1":
		a, b, d, e, end := p1Sizes(f.Power)
		l = []int{1, 3, a, b, d, e, end - 64}
	case f.Ph2:
		hl := f.P2Need
		p, h, err := parseP2(mustRead(in))
		if err == nil {
			hl = h
			l = append(l, hl+32, hl+96, hl+96+32*len(p.Z))
		}
		l = append(l, hl)
	case "evals":
		b := mustRead(in)
		r := &rd{b: b}
		r.take(128)
		at := func() int { return len(b) - len(r.b) }
		l = append(l, 32, 64, at())
		r.g1slice(false)
		l = append(l, at(), at()+4)
		r.g1slice(false)
		l = append(l, at(), at()+4)
		r.g2slice(false)
		l = append(l, at(), at()+4)
		r.g1slice(false)
		l = append(l, at(), at()+4)
		r.g1slice(false)
		l = append(l, at())
	}
	l = append(l, 0)
	x := pick(c.Rng, l)
	if x < 0 || x >= n {
		x = n - 1
	}
	return x
}

// ---------------------------------------------------------------- C16

func init() {
	register(&Check{ID: "C16", Quick: 48, Thorough: 1200, MinEvals: 1500, Run: runC16, Level: "fault_enumeration",
		Rule: "commands run with files limited to L bytes (the write that crosses L is short, later ones fail with EFBIG), with one output after another on a full device, and with the limit set while the command runs, after its n-th line of output; if a command reports success every output must be complete and well-formed, and with outputs larger than L it must fail; single writes and openings are made to fail in the command line binary (by strace); it is killed at a write, what it left is shown to the commands that read such files, which must refuse it unless it is complete, and it runs again over that; and commands run over outputs that hold other bytes; distinct by (ceremony, command, fault)"})
}

var fsizeMax = func() uint64 {
	var r syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_FSIZE, &r)
	return r.Max
}()

func setFsize(n uint64) {
	signal.Ignore(syscall.SIGXFSZ)
	if err := syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: n, Max: fsizeMax}); err != nil {
		panic(err)
	}
}

// complete checks the outputs of a command that reported success
func (c *Ctx) complete(f *Fix, k *Cmd, ref map[string][]byte) error {
	for _, o := range k.Outputs {
		b, err := os.ReadFile(o)
		if err != nil {
			return err
		}
		if len(b) != len(ref[o]) {
			return fmt.Errorf("%s has %d bytes instead of %d", o, len(b), len(ref[o]))
		}
		switch {
		case k.Name == "p1n", k.Name == "p1t", k.Name == "p2n", k.Name == "p2np", k.Name == "sol":
			if !bytes.Equal(b, ref[o]) {
				return fmt.Errorf("%s has another content", o)
			}
		case k.Name == "p1c":
			_, err = parseP1(b)
		case k.Name == "p2c":
			_, _, err = parseP2(b)
		case o == "pk":
			if !bytes.Equal(b, ref[o]) {
				return fmt.Errorf("%s has another content", o)
			}
		case o == "vk":
			_, err = parseVK(b)
		case strings.HasSuffix(o, ".vk.save"):
			if _, err = parseVK(b); err == nil {
				_, _, err = parseSplitPK("O")
			}
		}
		if err != nil {
			return fmt.Errorf("%s: %v", o, err)
		}
	}
	return nil
}

func (k *Cmd) removeOutputs() {
	for _, o := range k.Outputs {
		os.Remove(o)
	}
}

func runC16(c *Ctx) {
	power := 1 + c.Case%3
	wide := c.Case%2 == 0
	f := c.fixture(power, c.IntN(3), c.IntN(3), c.Case%4 == 1, wide)
	if f.K1 == 0 {
		mustWrite("a.ph1", srs(power, oneBase()).Bytes())
	}
	evals := mustRead("evals")
	vks := mustRead("S.vk.save")
	for _, k := range f.commands() {
		if len(k.Outputs) == 0 {
			continue
		}
		if k.Slow && !c.P(1, 2) && !c.Thorough() {
			continue
		}
		k.removeOutputs()
		mustWrite("S.vk.save", vks)
		if strings.HasPrefix(k.Name, "key") {
			mustWrite("evals", evals)
		}
		if err := k.api(); err != nil {
			c.Refused("%s fails without faults: %v", k.Name, err)
		}
		ref := snap(k.Outputs)
		max := 0
		for _, b := range ref {
			max = maxInt(max, len(b))
		}
		var limits []int
		tries := 24
		if k.Slow {
			tries = 3
		}
		limits = append(limits, 0, max-1)
		for _, b := range ref {
			if !k.Slow || c.P(1, 3) {
				limits = append(limits, len(b)-1, len(b))
			}
		}
		for i := 0; i < tries; i++ {
			limits = append(limits, c.IntN(max))
		}
		fault := func(name string, run func() error, mustFail bool) {
			k.removeOutputs()
			err := run()
			c.Eval(fmt.Sprint(c.Case, k.Name, name), true)
			c.Count("faults_"+k.Name, 1)
			if err != nil {
				c.Count("reported", 1)
				return
			}
			if mustFail {
				c.Violation("success-"+k.Name, "%s reports success with %s (outputs of up to %d bytes)", k.Name, name, max)
			} else if err := c.complete(f, k, ref); err != nil {
				c.Violation("incomplete-"+k.Name, "%s reports success with %s, but %v", k.Name, name, err)
			} else {
				c.Count("complete", 1)
			}
		}
		for _, l := range limits {
			if strings.HasPrefix(k.Name, "key") {
				mustWrite("evals", evals)
			}
			fault(fmt.Sprintf("files limited to %d bytes", l), func() error {
				setFsize(uint64(l))
				defer setFsize(fsizeMax)
				return k.api()
			}, l < max)
		}
		// a full device, for each output
		for _, o := range k.Outputs {
			if strings.HasPrefix(k.Name, "key") {
				mustWrite("evals", evals)
			}
			if k.Slow && len(k.Outputs) > 3 && !c.P(1, 3) {
				continue
			}
			fault(o+" on a full device", func() error {
				if err := os.Symlink("/dev/full", o); err != nil {
					panic(err)
				}
				return k.api()
			}, true)
			os.Remove(o)
		}
		// outputs that can't be created
		for _, o := range k.Outputs {
			if k.Slow && !c.P(1, 3) {
				continue
			}
			if strings.HasPrefix(k.Name, "key") {
				mustWrite("evals", evals)
			}
			fault(o+" is a directory", func() error {
				os.Mkdir(o, 0755)
				defer os.Remove(o)
				return k.api()
			}, true)
			os.Remove(o)
		}
		// the device becomes full while the command runs
		lines := 14
		if k.Slow {
			lines = 4
		}
		for i := 0; i < lines; i++ {
			at := 1 + c.IntN(14)
			l := c.IntN(max)
			if c.Bool() {
				l = 0
			}
			if strings.HasPrefix(k.Name, "key") {
				mustWrite("evals", evals)
			}
			fault(fmt.Sprintf("files limited to %d bytes after %d lines of output", l, at), func() error {
				return limitAfter(at, uint64(l), k.api)
			}, false)
		}
		mustWrite("evals", evals)
		mustWrite("S.vk.save", vks)
		prepare := func() {
			mustWrite("evals", evals)
			mustWrite("S.vk.save", vks)
		}
		c.writeFaults(f, k, ref, prepare)
		c.crash(f, k, ref, prepare)
		c.stale(f, k, ref, prepare)
		k.removeOutputs()
		mustWrite("evals", evals)
		mustWrite("S.vk.save", vks)
		// the exit status of the command line
		if c.P(1, 6) {
			fault("files limited, command line", func() error {
				l := c.IntN(max)
				setFsize(uint64(l))
				res := c.cli(k.Args...)
				setFsize(fsizeMax)
				if res.Code != 0 {
					return fmt.Errorf("exit %d", res.Code)
				}
				return nil
			}, true)
		}
		mustWrite("evals", evals)
	}
	c.Sample(map[string]any{"power": power, "wide": wide, "circuit": f.Circ.Name})
}

// limitAfter sets the limit when the command has printed n lines
func limitAfter(n int, l uint64, f func() error) error {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	old := os.Stdout
	os.Stdout = w
	done := make(chan struct{})
	go func() {
		defer close(done)
		s := bufio.NewScanner(r)
		i := 0
		for s.Scan() {
			if i++; i == n {
				setFsize(l)
			}
		}
	}()
	err = try(f)
	os.Stdout = old
	w.Close()
	<-done
	r.Close()
	setFsize(fsizeMax)
	return err
}

// ---------------------------------------------------------------- C21

func init() {
	register(&Check{ID: "C21", Quick: 40, Thorough: 800, MinEvals: 600, Run: runC21,
		Rule: "every command runs on a ceremony whose input files are compared before and after: successful runs, runs that fail (missing arguments files, damaged inputs), and runs whose output path, or side file, is one of the inputs (same path, other spelling, symbolic link, hard link, through a linked directory), by API and command line; aliased runs must be refused; distinct by (ceremony, command, situation)"})
}

func runC21(c *Ctx) {
	f := c.fixture(1+c.IntN(2), 1+c.IntN(2), 1+c.IntN(2), c.P(1, 3), false)
	all, _ := filepath.Glob("*")
	whole := snap(all)
	reset := func() {
		l, _ := filepath.Glob("*")
		for _, p := range l {
			if _, ok := whole[p]; !ok {
				os.RemoveAll(p)
			}
		}
		for p := range whole {
			if fi, err := os.Lstat(p); err == nil && !fi.Mode().IsRegular() {
				os.Remove(p)
			}
		}
		restore(whole)
	}
	run := func(k *Cmd, args []string) error {
		if k.Name != "p2np" && c.P(1, 12) || k.Name == "p2np" && c.P(1, 3) {
			c.Count("command_line", 1)
			if r := c.cli(append([]string{k.Name}, args...)...); r.Code != 0 {
				return fmt.Errorf("exit %d: %s", r.Code, r.last())
			}
			return nil
		}
		return k.with(args)
	}
	for _, k := range f.commands() {
		ins := snap(k.Inputs)
		// success
		err := run(k, k.Args)
		c.Eval(fmt.Sprint(c.Case, k.Name, "success"), true)
		if err != nil {
			c.Refused("%s fails: %v", k.Name, err)
		}
		c.unchanged(ins, k.Name+", successful")
		reset()
		// failure, by a damaged input
		for _, in := range k.Inputs {
			if strings.HasPrefix(in, "Part.") || k.Slow && !c.P(1, 2) {
				continue
			}
			b := append([]byte{}, whole[in]...)
			switch c.IntN(3) {
			case 0:
				b = b[:c.IntN(len(b))]
			case 1:
				b[c.IntN(minInt(len(b), 4000))] ^= 1 << c.IntN(8)
				if in == "evals" || in == "S.vk.save" {
					continue // lengths in there are taken at face value
				}
			case 2:
				copy(b[len(b)/2:], c.Bytes(minInt(32, len(b)-len(b)/2)))
				if in == "evals" || in == "S.vk.save" || in == "r1cs" {
					continue
				}
			}
			os.Remove(in)
			mustWrite(in, b)
			bad := snap(k.Inputs)
			k.api()
			c.Eval(fmt.Sprint(c.Case, k.Name, "damaged", in), true)
			c.unchanged(bad, k.Name+" with damaged "+in)
			reset()
		}
		if !k.Slow || c.P(1, 4) {
			c.otherFiles(k, reset)
		}
		// every output against every input
		type target struct {
			out string
			arg int // index of the argument, -1 for a side file
		}
		var ts []target
		for _, o := range k.Outputs {
			arg := -1
			for i, a := range k.Args {
				if i == k.Main && a == o {
					arg = i
				}
			}
			ts = append(ts, target{o, arg})
		}
		for _, t := range ts {
			for _, in := range k.Inputs {
				if len(ts) > 2 && t.arg < 0 && !c.P(1, 3) {
					continue
				}
				if strings.HasPrefix(in, "Part.") && !c.P(1, 4) {
					continue
				}
				for m := 0; m < 6; m++ {
					if k.Slow && !c.P(1, 3) {
						continue
					}
					args := append([]string{}, k.Args...)
					how := ""
					if t.arg >= 0 {
						switch m {
						case 0:
							args[t.arg], how = in, "the same path"
						case 1:
							args[t.arg], how = "./"+in, "another spelling"
						case 2:
							os.Symlink(in, "alias")
							args[t.arg], how = "alias", "a symbolic link"
						case 3:
							if os.Link(in, "alias") != nil {
								continue
							}
							args[t.arg], how = "alias", "a hard link"
						case 4:
							args[t.arg], how = filepath.Join(c.Dir, in), "the absolute path"
						case 5:
							os.Symlink(".", "d")
							args[t.arg], how = "d/"+in, "a linked directory"
						}
					} else {
						// a side file that is the input
						switch m {
						case 0:
							if in == "evals" || in == "S.vk.save" || strings.HasPrefix(in, "Part.") {
								continue
							}
							os.Remove(t.out)
							os.Rename(in, t.out)
							for i := range args {
								if args[i] == in {
									args[i] = t.out
								}
							}
							how = "named like it"
						case 2:
							os.Remove(t.out)
							os.Symlink(in, t.out)
							how = "a symbolic link"
						case 3:
							os.Remove(t.out)
							if os.Link(in, t.out) != nil {
								continue
							}
							how = "a hard link"
						default:
							continue
						}
					}
					var watch []string
					for _, x := range k.Inputs {
						if x == in && t.arg < 0 && m == 0 {
							x = t.out
						}
						watch = append(watch, x)
					}
					before := snap(watch)
					err := run(k, args)
					what := fmt.Sprintf("%s with its output %s being its input %s by %s", k.Name, t.out, in, how)
					c.Eval(fmt.Sprint(c.Case, what), true)
					c.Count("aliased", 1)
					c.unchanged(before, what)
					if err == nil {
						c.Violation("alias-accepted-"+k.Name, "%s: it wasn't refused", what)
					}
					reset()
				}
			}
		}
	}
	c.Sample(map[string]any{"power": f.Power, "contributions": []int{f.K1, f.K2}, "circuit": f.Circ.Name})
}

// ---------------------------------------------------------------- C22

func init() {
	register(&Check{ID: "C22", Quick: 220, Thorough: 2500, MinEvals: 1000, Run: runC22,
		Rule: "a case makes 1-3 real contributions (phase 1 or 2) on a file with 0-4, or around 127, 255 and 256, earlier records, and checks after each that earlier records keep their bytes, the count, that exactly one record came, its SHA-256 over its encoded points, the hash that was printed, and those the verifier lists; the limit of phase 1 too; distinct by (phase, records, size, item)"})
}

var hexHash = regexp.MustCompile(`(?i)(?:[^0-9a-f]|^)([0-9a-f]{64})(?:[^0-9a-f]|$)`)

func hashesIn(s string) []string {
	var out []string
	for _, m := range hexHash.FindAllStringSubmatch(s, -1) {
		out = append(out, strings.ToLower(m[1]))
	}
	return out
}

func runC22(c *Ctx) {
	phase := 1 + c.Case%2
	k := c.IntN(5)
	if c.Case%30 == 5 || c.Case%30 == 6 {
		k = pick(c.Rng, []int{63, 64, 126, 127, 128, 254, 255, 256, 257})
	}
	if c.Case == 0 {
		c.limit1()
		return
	}
	var records func(b []byte) (n int, recs [][]byte, bodies [][]byte, hashes [][]byte, err error)
	var contribute func(in, out string) error
	var verify func(in string) error
	size := ""
	if phase == 1 {
		power := 1 + c.IntN(3)
		if k > 10 {
			power = 1
		}
		size = fmt.Sprint("power ", power)
		b := oneBase()
		based := c.P(1, 3)
		if based {
			b = Base{c.Fr(), c.Fr(), c.Fr()}
			mustWrite("base", srs(power, b).Bytes())
		}
		var secs []P1Sec
		for i := 0; i < k; i++ {
			secs = append(secs, randP1Sec(c.Rng))
		}
		mustWrite("f0", forgeP1(power, b, secs).Bytes())
		records = func(x []byte) (int, [][]byte, [][]byte, [][]byte, error) {
			p, err := parseP1(x)
			if err != nil {
				return 0, nil, nil, nil, err
			}
			var r, bo, h [][]byte
			for i := range p.Recs {
				r, bo, h = append(r, p.Recs[i].bytes()), append(bo, p.Recs[i].body()), append(h, p.Recs[i].Hash)
			}
			return p.NC, r, bo, h, nil
		}
		contribute = func(i, o string) error { return phase1.Contribute(i, o) }
		verify = func(i string) error {
			if based {
				return phase1.Verify(i, "base")
			}
			return phase1.Verify(i, "")
		}
	} else {
		s := randP2Scalars(c.Rng, "plain")
		if k > 10 && len(s.Z) > 3 {
			s.H.Domain, s.H.Constraints, s.Z = 4, 3, s.Z[:3]
			s.H.Witness, s.PKK = minInt(2, len(s.PKK)), s.PKK[:minInt(2, len(s.PKK))]
		}
		size = fmt.Sprint("domain ", s.H.Domain, ", witness ", s.H.Witness)
		o := s.file()
		mustWrite("origin", o.Bytes())
		var secs []P2Sec
		d := frInt(1)
		for i := 0; i < k; i++ {
			secs = append(secs, randP2Sec(c.Rng))
			d = mulF(d, secs[i].D)
		}
		q := s.scaled(d).file()
		q.Recs = chain2(s.D, secs)
		q.H.Contributions = k
		mustWrite("f0", q.Bytes())
		records = func(x []byte) (int, [][]byte, [][]byte, [][]byte, error) {
			p, _, err := parseP2(x)
			if err != nil {
				return 0, nil, nil, nil, err
			}
			var r, bo, h [][]byte
			for i := range p.Recs {
				r, bo, h = append(r, p.Recs[i].bytes()), append(bo, p.Recs[i].body()), append(h, p.Recs[i].Hash)
			}
			return p.H.Contributions, r, bo, h, nil
		}
		contribute = func(i, o string) error { return phase2.Contribute(i, o) }
		verify = func(i string) error { return phase2.Verify(i, "origin") }
	}
	n := 1 + c.IntN(3)
	if k > 10 {
		n = 2
	}
	where := fmt.Sprintf("phase %d, %s, %d earlier records", phase, size, k)
	ck := func(name string, ok bool, f string, a ...any) {
		c.Eval(where+name, true)
		if !ok {
			c.Violation(name, "%s: %s", where, fmt.Sprintf(f, a...))
		}
	}
	prevN, prevRecs, _, _, err := records(mustRead("f0"))
	if err != nil {
		c.Abort("%v", err)
	}
	for i := 0; i < n; i++ {
		in, out := fmt.Sprint("f", i), fmt.Sprint("f", i+1)
		text, err := capture(func() error { return contribute(in, out) })
		if err != nil {
			c.Violation("contribute-failed", "%s: %v", where, err)
			return
		}
		cnt, recs, bodies, hashes, err := records(mustRead(out))
		if err != nil {
			c.Violation("unreadable", "%s: %v", where, err)
			return
		}
		ck("count", cnt == prevN+1, "the count went from %d to %d", prevN, cnt)
		ck("one-record", len(recs) == len(prevRecs)+1, "the records went from %d to %d", len(prevRecs), len(recs))
		if len(recs) != len(prevRecs)+1 {
			return
		}
		same := true
		for j := range prevRecs {
			if !bytes.Equal(prevRecs[j], recs[j]) {
				same = false
				ck("old-record", false, "record %d of %d changed", j+1, len(prevRecs))
				break
			}
		}
		if same {
			ck("old-record", true, "")
		}
		last := len(recs) - 1
		want := sha(bodies[last])
		ck("record-hash", bytes.Equal(hashes[last], want), "the hash isn't that of the points")
		got := hashesIn(text)
		ck("printed-hash", len(got) == 1 && got[0] == hex.EncodeToString(hashes[last]), "printed %v, the record has %x", got, hashes[last])
		c.Unique("hash", hashes[last])
		text, err = capture(func() error { return verify(out) })
		if err != nil {
			c.Violation("verify-failed", "%s: %v", where, err)
			return
		}
		got = hashesIn(text)
		ok := len(got) == len(hashes)
		for j := range hashes {
			ok = ok && j < len(got) && got[j] == hex.EncodeToString(hashes[j])
		}
		ck("listed-hashes", ok, "the verifier lists %d hashes that aren't those of the %d records, in order", len(got), len(hashes))
		prevN, prevRecs = cnt, recs
	}
	c.Sample(map[string]any{"phase": phase, "size": size, "earlier": k, "contributions": n})
}

// limit1 checks the end of the 16-bit count of phase 1
func (c *Ctx) limit1() {
	p := srs(1, oneBase())
	sec := randP1Sec(c.Rng)
	rec := chain(oneBase(), []P1Sec{sec})[0].bytes()
	n := 65535
	p.NC = n
	b := append(p.headerBytes(), p.paramBytes()...)
	b = append(b, bytes.Repeat(rec, n)...)
	mustWrite("full", b)
	c.Eval("limit", true)
	if err := p1Contribute("full", "out"); err == nil {
		c.Violation("overflow", "a contribution was made on a file with %d contributions", n)
		if o := mustRead("out"); len(o) > 3 {
			c.Violation("overflow", "the header then says % x", o[:3])
		}
	}
	if c.Thorough() {
		p.NC = n - 1
		b = append(p.headerBytes(), p.paramBytes()...)
		b = append(b, bytes.Repeat(rec, n-1)...)
		mustWrite("nearly", b)
		c.Eval("limit-1", true)
		if err := p1Contribute("nearly", "out"); err != nil {
			c.Violation("contribute-failed", "on %d contributions: %v", n-1, err)
			return
		}
		o := mustRead("out")
		if o[1] != 0xff || o[2] != 0xff || len(o) != len(b)+640 || !bytes.Equal(o[len(p.headerBytes())+len(p.paramBytes()):len(b)], b[len(p.headerBytes())+len(p.paramBytes()):]) {
			c.Violation("count", "contribution number 65535 was recorded wrong")
		}
	}
}
