package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// ---------------------------------------------------------------- C23

func init() {
	register(&Check{ID: "C23", Quick: 64, Thorough: 2400, MinEvals: 4000, Run: runC23,
		Rule: "every command of a complete ceremony runs with each of its inputs empty, missing, a directory, random bytes, constant bytes or a file of another kind (must be an error), and with bit flips at sampled positions of every section, headers at their extremes, overwritten, inserted, deleted, moved and appended ranges: no panic, and the three verifications must fail whenever what they check, as decoded by the monitor, changed; by API, and by command line under a memory limit where lengths were changed; distinct by (command, input, corruption, position)"})
}

// the commands' inputs that are gnark's own formats: their content is read by
// gnark, which panics on some corruptions
func foreign(in string) bool { return in == "r1cs" || strings.HasPrefix(in, "Part.") }

// checked1 is what p1v and p1vt check of their first input
func checked1(b []byte) string {
	p, err := parseP1As(b, true)
	if err != nil {
		return "unreadable"
	}
	return string(p.Bytes()[:len(p.headerBytes())]) + string(p.paramBytes()) + recs1(p)
}

func recs1(p *P1) string {
	var b []byte
	for i := range p.Recs {
		b = append(b, p.Recs[i].bytes()...)
	}
	return string(b)
}

// checkedBase is what p1vt uses of the base: tau, alpha and beta
func checkedBase(b []byte) string {
	if len(b) < 3 || b[0] < 1 || b[0] > 28 {
		return "unreadable"
	}
	n := 1 << b[0]
	at := func(off, size int) string {
		if off < 0 || off+size > len(b) {
			return "missing"
		}
		r := &rd{b: b[off:], flex: true}
		if size == 32 {
			p := r.g1()
			if r.err != nil {
				return "invalid"
			}
			return string(put1(nil, p))
		}
		p := r.g2()
		if r.err != nil {
			return "invalid"
		}
		return string(put2(nil, p))
	}
	a := 3 + 32*(2*n-1)
	be := a + 32*n
	t2 := be + 32*n
	return at(3+32, 32) + at(a, 32) + at(be, 32) + at(t2+64, 64) + at(t2+64*n, 64)
}

// checkedOrigin is what p2v uses of the origin: all but the contributions
func checkedOrigin(b []byte) string {
	br := bytes.NewReader(b)
	var h Header
	if err := gob.NewDecoder(br).Decode(&h); err != nil {
		return "unreadable"
	}
	h.Contributions = 0
	if h.Domain < 1 || h.Domain > 1<<20 || h.Witness < 0 || h.Witness > 1<<20 {
		return "unreadable"
	}
	r := &rd{b: b[len(b)-br.Len():], flex: true}
	d1, d2 := r.g1(), r.g2()
	z, k := r.g1n(h.Domain-1), r.g1n(h.Witness)
	if r.err != nil {
		return "unreadable"
	}
	return fmt.Sprint(h) + string(put2(put1(nil, append(append([]G1{d1}, z...), k...)...), d2))
}

func checked2(b []byte) string {
	p, _, err := parseP2As(b, true)
	if err != nil {
		return "unreadable"
	}
	return string(p.Bytes())
}

func runC23(c *Ctx) {
	f := c.fixture(1+c.IntN(2), 1+c.IntN(2), 1+c.IntN(2), c.P(1, 3), false)
	all, _ := filepath.Glob("*")
	whole := snap(all)
	cmds := f.commands()
	reset := func(k *Cmd) {
		for _, o := range k.Outputs {
			if _, ok := whole[o]; !ok {
				os.RemoveAll(o)
			}
		}
		for _, p := range append(append([]string{}, k.Inputs...), k.Outputs...) {
			b, ok := whole[p]
			if !ok {
				continue
			}
			if x, err := os.ReadFile(p); err != nil || !bytes.Equal(x, b) {
				os.RemoveAll(p)
				mustWrite(p, b)
			}
		}
	}
	for _, k := range cmds {
		for _, in := range k.Inputs {
			slow := k.Slow
			b := whole[in]
			// with the input being something else
			for _, kind := range []string{"empty", "missing", "directory", "random", "zeros", "ones", "text", "another kind", "another kind"} {
				if slow && !c.P(1, 3) {
					continue
				}
				if foreign(in) && kind != "missing" && kind != "directory" && kind != "empty" {
					continue
				}
				byCLI := strings.HasPrefix(in, "Part.") || in == "evals" || k.Name == "key" || k.Name == "keys" || in == "S.vk.save" || c.P(1, 30)
				if strings.HasPrefix(in, "Part.") && (len(b) == 0 || strings.Contains(in, ".E1") && in != "Part.r1cs.E1.save" && in != "Part.r1cs.E11.save") {
					continue // some parts are optional
				}
				os.RemoveAll(in)
				what := kind
				switch kind {
				case "empty":
					mustWrite(in, nil)
				case "directory":
					os.Mkdir(in, 0755)
				case "random":
					mustWrite(in, c.Bytes(len(b)+c.IntN(200)))
				case "zeros":
					mustWrite(in, make([]byte, len(b)))
				case "ones":
					mustWrite(in, bytes.Repeat([]byte{0xff}, len(b)))
				case "text":
					mustWrite(in, []byte(strings.Repeat("not a file of this program\n", 1+len(b)/27)))
				case "another kind":
					o := pick(c.Rng, []string{"a.ph1", f.Ph2, "evals", "srs.lag", "S.vk.save", "pk", "vk", "ppot", "r1cs", "S.sol"})
					if sameKind(in, o) {
						reset(k)
						continue
					}
					mustWrite(in, whole[o])
					what = o
				}
				// zeros are the uncompressed encoding of identities
				c.verdict(f, k, in, what, byCLI, !(k.Name == "p1t" && kind == "zeros"))
				reset(k)
			}
			if foreign(in) {
				continue
			}
			// corruptions
			n := 22
			if slow {
				n = 4
			}
			if k.Verify {
				n = 60
			}
			ref := f.checked(k, in, b)
			for i := 0; i < n; i++ {
				m, what, lengths := c.corrupt(f, in, b)
				if m == nil || bytes.Equal(m, b) {
					continue
				}
				if k.Name == "key" || k.Name == "keys" || k.Name == "p2n" || k.Name == "p2np" {
					if in == f.Ph2 && hugeHeader(m) {
						continue
					}
				}
				// a header with other counts shifts the reading of the tables
				if k.Name == "key" || k.Name == "keys" {
					lengths = true
				}
				mustFail := k.Verify && f.checked(k, in, m) != ref
				os.RemoveAll(in)
				mustWrite(in, m)
				c.verdict(f, k, in, what, lengths || c.P(1, 60), mustFail)
				reset(k)
			}
			if k.Verify {
				if err := k.api(); err != nil {
					c.Violation("control", "%s fails on the intact ceremony: %v", k.Name, err)
					return
				}
			}
		}
	}
	c.mismatched(f, cmds, whole, reset)
	c.Sample(map[string]any{"power": f.Power, "contributions": []int{f.K1, f.K2}, "circuit": f.Circ.Name})
}

// mismatched: evaluations that aren't the ones of the phase 2 file, as their
// counts show. The side files have fixed names, so a second initialization in
// the same directory is all it takes.
func (c *Ctx) mismatched(f *Fix, cmds []*Cmd, whole map[string][]byte, reset func(*Cmd)) {
	p, h, err := parseP2(whole[f.Ph2])
	if err != nil {
		c.Abort("%v", err)
	}
	rest := whole[f.Ph2][h:]
	for _, k := range cmds {
		if k.Name != "key" && k.Name != "keys" {
			continue
		}
		for i := 0; i < 8; i++ {
			d := p.H
			var what string
			by := pick(c.Rng, []int{1, -1, 2, 1 + c.IntN(40)})
			switch i {
			case 0, 1, 2, 3:
				d.Wires += by
				what = "wires"
			case 4, 5:
				d.Public += by
				what = "public wires"
			default:
				d.PrivateCommitted += by
				what = "committed wires"
			}
			mustWrite(f.Ph2, append(d.bytes(), rest...))
			c.verdict(f, k, f.Ph2, fmt.Sprintf("count of %s changed by %d", what, by), i < 2 || c.P(1, 8), true)
			reset(k)
		}
		// the evaluations of another circuit
		o := c.anyCirc(16)
		cs := o.write("other.r1cs")
		if cs.NbInternalVariables+cs.GetNbPublicVariables()+cs.GetNbSecretVariables() == p.H.Wires {
			continue
		}
		c.p1ForCircuit("other.ph1", nextPow2(cs.GetNbConstraints()), false)
		if err := p2Init("other.ph1", "other.r1cs", "other.ph2"); err != nil {
			c.Violation("control", "initialization of %s: %v", o.Name, err)
			return
		}
		c.verdict(f, k, "evals", "count of another circuit", true, true)
		for _, o := range []string{"other.ph1", "other.r1cs", "other.ph2"} {
			os.Remove(o)
		}
		reset(k)
		for _, side := range []string{"evals", "srs.lag"} {
			mustWrite(side, whole[side])
		}
	}
}

// hugeHeader: sizes that the keys' tables would be allocated for
func hugeHeader(b []byte) bool {
	var h Header
	if gob.NewDecoder(bytes.NewReader(b)).Decode(&h) != nil {
		return false
	}
	return h.Domain > 1<<13 || h.Wires > 1<<16 || h.Witness > 1<<16 || h.Public > 1<<16 || h.PrivateCommitted > 1<<16
}

func sameKind(a, b string) bool {
	kind := func(s string) string {
		switch {
		case strings.HasSuffix(s, ".ph1"):
			return "ph1"
		case strings.HasSuffix(s, ".ph2"):
			return "ph2"
		case s == "vk" || s == "S.vk.save":
			return "vk"
		}
		return s
	}
	return kind(a) == kind(b)
}

// checked is what a verification checks of an input, "" for other commands
func (f *Fix) checked(k *Cmd, in string, b []byte) string {
	switch {
	case k.Name == "p1v", k.Name == "p1vt" && in == "x.ph1":
		return checked1(b)
	case k.Name == "p1vt":
		return checkedBase(b)
	case k.Name == "p2v" && in == f.Ph2:
		return checked2(b)
	case k.Name == "p2v":
		return checkedOrigin(b)
	}
	return ""
}

// verdict runs a command with a damaged input
func (c *Ctx) verdict(f *Fix, k *Cmd, in, what string, byCLI, mustFail bool) {
	desc := fmt.Sprintf("%s with %s: %s (power %d, %d and %d contributions)", k.Name, in, what, f.Power, f.K1, f.K2)
	c.Eval(fmt.Sprint(c.Case, k.Name, in, what), true)
	c.Count("runs_"+k.Name, 1)
	if byCLI && c.CLI != "" {
		c.Count("by_command_line", 1)
		r := c.cliLimited(append([]string{k.Name}, k.Args...)...)
		if strings.Contains(r.Err, "out of memory") || strings.Contains(r.Err, "cannot allocate memory") || strings.Contains(r.Err, "len out of range") {
			if strings.HasPrefix(what, "count of") {
				c.Violation("panic-"+k.Name, "%s: exit %d: %s", desc, r.Code, r.last())
			}
			c.Count("declared_more_than_the_memory", 1)
			return
		}
		crashed := strings.Contains(r.Err, "goroutine ") || r.Code < 0 || r.Code == 2
		switch {
		case r.TimedOut:
			c.Violation("no-end", "%s: no end after 200 s", desc)
		case crashed && strings.HasPrefix(in, "Part."):
			c.Count("crashed_in_gnark", 1)
		case crashed:
			c.Violation("panic-"+k.Name, "%s: exit %d: %s", desc, r.Code, r.last())
		case r.Code == 0 && mustFail:
			c.Violation("accepted-"+k.Name, "%s: success", desc)
		case r.Code != 0 && strings.TrimSpace(r.Err) == "":
			c.Violation("silent-"+k.Name, "%s: exit %d without a message", desc, r.Code)
		}
		return
	}
	err := k.api()
	switch {
	case isPanic(err):
		c.Violation("panic-"+k.Name, "%s: %v\n%s", desc, err, err.(*PanicError).Stack)
	case err == nil && mustFail:
		c.Violation("accepted-"+k.Name, "%s: success", desc)
	case err != nil:
		c.Count("errors", 1)
	}
}

func (c *Ctx) cliLimited(args ...string) cliRes {
	old := c.CLI
	defer func() { c.CLI = old }()
	c.CLI = "/bin/sh"
	return c.cli(append([]string{"-c", "ulimit -v 8000000; exec \"$0\" \"$@\"", old}, args...)...)
}

// corrupt changes a file; it tells whether it may have changed the length
// that a slice declares
func (c *Ctx) corrupt(f *Fix, in string, b []byte) (m []byte, what string, lengths bool) {
	m = append([]byte{}, b...)
	slices := in == "evals" || strings.HasSuffix(in, ".vk.save")
	at := c.IntN(len(b))
	head := 0
	switch {
	case strings.HasSuffix(in, ".ph1"):
		head = 3
	case strings.HasSuffix(in, ".ph2"):
		_, h, err := parseP2(b)
		if err != nil {
			c.Abort("%v", err)
		}
		head = h
	}
	if c.P(1, 3) {
		// a position in the last quarter: records, commitment information
		at = len(b) - 1 - c.IntN(len(b)/4)
	}
	switch op := c.IntN(12); op {
	case 0, 1, 2, 3:
		if head > 0 && op == 0 {
			at = c.IntN(head)
		}
		bit := c.IntN(8)
		m[at] ^= 1 << bit
		return m, fmt.Sprintf("bit %d of byte %d flipped", bit, at), slices
	case 4:
		v := pick(c.Rng, []byte{0, 0xff, 0x80, 0x40, 0xc0, byte(c.IntN(256))})
		m[at] = v
		return m, fmt.Sprintf("byte %d set to %d", at, v), slices
	case 5:
		n := minInt(1+c.IntN(80), len(b)-at)
		copy(m[at:], c.Bytes(n))
		return m, fmt.Sprintf("%d bytes at %d overwritten", n, at), slices
	case 6:
		n := 1 + c.IntN(70)
		x := c.Bytes(n)
		if c.Bool() {
			x = make([]byte, n)
		}
		return append(append(append([]byte{}, b[:at]...), x...), b[at:]...), fmt.Sprintf("%d bytes inserted at %d", n, at), slices
	case 7:
		n := pick(c.Rng, []int{1, 2, 31, 32, 33, 64, 192, 640, 1 + c.IntN(60)})
		if at+n > len(b) {
			at = maxInt(0, len(b)-n)
		}
		n = minInt(n, len(b)-at)
		return append(append([]byte{}, b[:at]...), b[at+n:]...), fmt.Sprintf("%d bytes at %d deleted", n, at), slices
	case 8:
		// two ranges exchanged
		n := pick(c.Rng, []int{1, 32, 64, 96})
		if len(b) < 2*n+head {
			return nil, "", false
		}
		x := head + c.IntN(len(b)-2*n-head+1)
		y := x + n + c.IntN(len(b)-x-2*n+1)
		copy(m[x:x+n], b[y:y+n])
		copy(m[y:y+n], b[x:x+n])
		return m, fmt.Sprintf("%d bytes at %d and %d exchanged", n, x, y), slices
	case 9:
		// a range repeated elsewhere
		n := pick(c.Rng, []int{32, 64, 192, 640})
		if len(b) < n+head {
			return nil, "", false
		}
		x, y := head+c.IntN(len(b)-n-head+1), head+c.IntN(len(b)-n-head+1)
		copy(m[y:y+n], b[x:x+n])
		return m, fmt.Sprintf("%d bytes at %d copied to %d", n, x, y), slices
	case 10:
		// special points over what is there, by 32 byte steps from the header
		if head == 0 {
			head = c.IntN(33)
		}
		if len(b) < head+64 {
			return nil, "", false
		}
		x := head + 32*c.IntN((len(b)-head-32)/32+1)
		e := make([]byte, 32)
		e[0] = pick(c.Rng, []byte{0x40, 0, 0x80, 0xc0, 0xff})
		if c.Bool() {
			e[31] = 1
		}
		copy(m[x:], e)
		return m, fmt.Sprintf("% x at %d", e[:1], x), slices
	}
	// headers at their extremes
	switch {
	case strings.HasSuffix(in, ".ph1"):
		if c.Bool() {
			m[0] = pick(c.Rng, []byte{0, 1, 2, 3, 4, 20, 27, 28, 29, 31, 32, 60, 63, 64, 128, 255})
		} else {
			n := pick(c.Rng, []int{0, 1, 2, 3, 4, 255, 256, 257, 32767, 32768, 65534, 65535})
			m[1], m[2] = byte(n>>8), byte(n)
		}
		return m, fmt.Sprintf("header % x", m[:3]), false
	case strings.HasSuffix(in, ".ph2"):
		p, h, err := parseP2(b)
		if err != nil {
			c.Abort("%v", err)
		}
		fl := []*int{&p.H.Wires, &p.H.Witness, &p.H.Public, &p.H.PrivateCommitted, &p.H.Constraints, &p.H.Domain, &p.H.Contributions}
		i := c.IntN(len(fl))
		old := *fl[i]
		o := int64(old)
		*fl[i] = int(pick(c.Rng, []int64{0, 1, -1, 2, 3, 4, 5, o + 1, o - 1, 2 * o, o / 2, -o, 1000, 1 << 16, 1 << 28, 1 << 31, 1 << 33, 1 << 40, 1<<63 - 1, -1 << 63}))
		v := *fl[i]
		if c.P(1, 4) {
			j := c.IntN(len(fl))
			*fl[j] = pick(c.Rng, []int{0, -1, 1, 7, *fl[j] + 1})
		}
		return append(p.H.bytes(), b[h:]...), fmt.Sprintf("header field %d set from %d to %d: %+v", i, old, v, p.H), false
	}
	return nil, "", false
}
