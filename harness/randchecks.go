package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/base32"
	"encoding/base64"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"

	"github.com/consensys/gnark-crypto/ecc/bn254"
)

// ---------------------------------------------------------------- sources

// source is an instrumented random source
type source struct {
	mu    sync.Mutex
	data  []byte          // served first
	then  io.Reader       // served after data
	log   []byte          // everything that was served
	reads [][2]int        // position and length of each read
	chunk int             // at most this many bytes per read, 0: no limit
	fail  func(k int) int // for the k-th read: -1 serves it, n serves n bytes and an error
	err   error
	n     int
	fails int
}

func (s *source) Read(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	k := s.n
	s.n++
	if s.chunk > 0 && len(b) > s.chunk {
		b = b[:s.chunk]
	}
	var err error
	if s.fail != nil {
		if n := s.fail(k); n >= 0 {
			s.fails++
			err = s.err
			b = b[:minInt(n, len(b))]
		}
	}
	n := copy(b, s.data)
	s.data = s.data[n:]
	if n < len(b) {
		m, _ := s.then.Read(b[n:])
		n += m
	}
	s.reads = append(s.reads, [2]int{len(s.log), n})
	s.log = append(s.log, b[:n]...)
	return n, err
}

// repeat serves the same block over and over, whatever the sizes of the reads
type repeat struct{ block []byte }

func (r repeat) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = r.block[i%len(r.block)]
	}
	return len(b), nil
}

func withSource(s *source, f func() error) error {
	old := crand.Reader
	crand.Reader = s
	defer func() { crand.Reader = old }()
	return f()
}

// ---------------------------------------------------------------- targets

// secret is a contribution to observe: the six (two) public values that
// depend on one sampled scalar each
type toxic struct {
	c       *Ctx
	phase   int
	in      string
	origin  string
	prev    []G1 // what the new values are multiples of
	names   []string
	earlier int
}

func (c *Ctx) toxic(phase int) *toxic {
	t := &toxic{c: c, phase: phase, in: "in", earlier: c.IntN(3)}
	if phase == 1 {
		power := 1 + c.IntN(2)
		b := oneBase()
		if c.P(1, 2) {
			b = Base{c.Fr(), c.Fr(), c.Fr()}
			mustWrite("base", srs(power, b).Bytes())
			t.origin = "base"
		}
		var secs []P1Sec
		for i := 0; i < t.earlier; i++ {
			secs = append(secs, randP1Sec(c.Rng))
		}
		mustWrite("in", forgeP1(power, b, secs).Bytes())
		x := b.after(secs)
		g := frInt(1)
		t.prev = g1s(x.T, x.A, x.B, g, g, g)
		t.names = []string{"tau", "alpha", "beta", "proof of tau", "proof of alpha", "proof of beta"}
		return t
	}
	s := randP2Scalars(c.Rng, "plain")
	s.H.Domain, s.H.Constraints, s.Z = 4, 3, s.Z[:1]
	s.Z = append(s.Z, c.Fr(), c.Fr())
	s.H.Witness = minInt(3, len(s.PKK))
	s.PKK = s.PKK[:s.H.Witness]
	mustWrite("origin", s.file().Bytes())
	t.origin = "origin"
	d := frInt(1)
	var secs []P2Sec
	for i := 0; i < t.earlier; i++ {
		secs = append(secs, randP2Sec(c.Rng))
		d = mulF(d, secs[i].D)
	}
	q := s.scaled(d).file()
	q.Recs = chain2(s.D, secs)
	q.H.Contributions = t.earlier
	mustWrite("in", q.Bytes())
	t.prev = g1s(d, frInt(1))
	t.names = []string{"delta", "proof of delta"}
	return t
}

func (t *toxic) run(s *source, out string) error {
	return withSource(s, func() error { return t.contribute(out) })
}

func (t *toxic) contribute(out string) error {
	if t.phase == 1 {
		return p1Contribute(t.in, out)
	}
	return p2Contribute(t.in, out)
}

func (t *toxic) verify(in string) error {
	if t.phase == 1 {
		return p1Verify(in, t.origin)
	}
	return p2Verify(in, t.origin)
}

// values are the public values of the last record of a file
func (t *toxic) values(path string) ([]G1, error) {
	if t.phase == 1 {
		p, err := readP1(path)
		if err != nil {
			return nil, err
		}
		if len(p.Recs) != t.earlier+1 {
			return nil, fmt.Errorf("%d records", len(p.Recs))
		}
		r := p.Recs[len(p.Recs)-1]
		return []G1{r.Tau1, r.Alpha1, r.Beta1, r.K[0].S, r.K[1].S, r.K[2].S}, nil
	}
	p, err := readP2(path)
	if err != nil {
		return nil, err
	}
	if len(p.Recs) != t.earlier+1 {
		return nil, fmt.Errorf("%d records", len(p.Recs))
	}
	r := p.Recs[len(p.Recs)-1]
	return []G1{r.Delta, r.K.S}, nil
}

// ---------------------------------------------------------------- C19

func init() {
	register(&Check{ID: "C19", Quick: 120, Thorough: 1600, MinEvals: 3000, Run: runC19,
		Rule: "contributions run on an instrumented random source: each byte that was served is flipped in turn to see which public value of the record depends on it (each of the 6 or 2 sampled scalars on at least 31 bytes, all together on at least 31 per scalar), constant and byte-by-byte sources give reproducible results, permanent and transient failures at the k-th read must be reported, the scalars are searched below 2^32, and the outputs, new files and standard streams are searched for every scalar that the source determined, its inverse, negation and products, in 12 encodings; repeated contributions (API and command line) must differ in every value; distinct by (phase, test, position)"})
}

func runC19(c *Ctx) {
	phase := 1 + c.Case%2
	if c.Case%60 == 8 {
		c.coefficients()
	}
	switch (c.Case / 2) % 6 {
	case 0:
		c.sensitivity(phase)
	case 1, 2:
		c.leaks(phase)
	case 3:
		c.failingContribute(phase)
	case 4:
		c.failingVerify(phase)
	case 5:
		c.repetition(phase)
	}
}

func (c *Ctx) sensitivity(phase int) {
	t := c.toxic(phase)
	where := fmt.Sprintf("phase %d, %d earlier records", phase, t.earlier)
	rec := &source{then: c.Rng.src}
	if err := t.run(rec, "ref"); err != nil {
		c.Fail("contribute-failed", "%s: %v", where, err)
	}
	ref, err := t.values("ref")
	if err != nil {
		c.Fail("unreadable", "%s: %v", where, err)
	}
	stream := rec.log
	c.Eval(where+" consumption", true)
	if len(stream) < 31*len(ref) {
		c.Fail("entropy", "%s: only %d bytes are drawn from the random source for %d scalars", where, len(stream), len(ref))
	}
	// the same bytes give the same output, if they are served in the same
	// order; a source that always says the same settles it for any order
	block := c.Bytes(32)
	block[31] &= 0x1f
	var fixed [2][]byte
	for i := range fixed {
		if err := t.run(&source{then: repeat{block}}, "fixed"); err != nil {
			c.Fail("contribute-failed", "%s, with a constant source: %v", where, err)
		}
		fixed[i] = mustRead("fixed")
	}
	c.Eval(where+" constant source", true)
	if !bytes.Equal(fixed[0], fixed[1]) {
		c.Violation("other-source", "%s: two contributions with the same constant random source differ: something else is drawn", where)
	}
	// small scalars
	for i, v := range ref {
		c.Eval(fmt.Sprint(where, " size ", i), true)
		if x, ok := smallLog(t.prev[i], v); ok {
			c.Violation("small-scalar", "%s: the scalar for %s is %d", where, t.names[i], x)
		}
	}
	// each byte
	if len(stream) > 2048 {
		c.Count("large_consumption", 1)
		stream = stream[:2048]
	}
	per := make([]int, len(ref))
	union := 0
	for i := range stream {
		mod := append([]byte{}, stream...)
		mod[i] ^= 1 << c.IntN(8)
		if err := t.run(&source{data: mod, then: newRng("tail", c.Seed, c.Case).src}, "flip"); err != nil {
			c.Fail("contribute-failed", "%s, byte %d flipped: %v", where, i, err)
		}
		got, err := t.values("flip")
		if err != nil {
			c.Fail("unreadable", "%s: %v", where, err)
		}
		any := false
		for k := range ref {
			if !got[k].Equal(&ref[k]) {
				per[k]++
				any = true
			}
		}
		if any {
			union++
		}
		c.Eval(fmt.Sprint(where, " byte ", i, " ", mod[i]), true)
		c.Count("bytes_flipped", 1)
	}
	for k, n := range per {
		if n < 31 {
			c.Violation("entropy", "%s: %s depends on %d bytes of the random source", where, t.names[k], n)
		}
	}
	if union < 31*len(ref) {
		c.Violation("entropy", "%s: the %d scalars depend on %d bytes of the random source together", where, len(ref), union)
	}
	c.Sample(map[string]any{"phase": phase, "bytes_drawn": len(stream), "reads": len(rec.reads), "sensitive_bytes": union, "per_scalar": per})
}

// smallLog finds x below 2^32 with v = x*p
func smallLog(p, v G1) (uint64, bool) {
	const m = 1 << 16
	table := make(map[[8]byte]uint32, m)
	key := func(q *G1) (k [8]byte) {
		b := q.Bytes()
		copy(k[:], b[24:])
		return
	}
	small := multiples(G1{}, p, m)
	for j := range small {
		table[key(&small[j])] = uint32(j)
	}
	// v - i*m*p = j*p
	large := multiples(v, negG1(mulG1(p, frInt(m))), m)
	for i := range large {
		if j, ok := table[key(&large[i])]; ok {
			x := uint64(i)*m + uint64(j)
			r := mulG1(p, frInt(int64(x)))
			if r.Equal(&v) {
				return x, true
			}
		}
	}
	return 0, false
}

// multiples returns start + i*step
func multiples(start, step G1, n int) []G1 {
	var acc, st bn254.G1Jac
	acc.FromAffine(&start)
	st.FromAffine(&step)
	l := make([]bn254.G1Jac, n)
	for i := range l {
		l[i] = acc
		acc.AddAssign(&st)
	}
	return bn254.BatchJacobianToAffineG1(l)
}

func (c *Ctx) failingContribute(phase int) {
	t := c.toxic(phase)
	where := fmt.Sprintf("phase %d, %d earlier records", phase, t.earlier)
	rec := &source{then: newRng("s", c.Seed, c.Case).src}
	if err := t.run(rec, "ref"); err != nil {
		c.Fail("contribute-failed", "%s: %v", where, err)
	}
	n := len(rec.reads)
	c.Count("reads", n)
	ref := mustRead("ref")
	// short reads
	for _, chunk := range []int{1, 5, 31} {
		if err := t.run(&source{then: newRng("s", c.Seed, c.Case).src, chunk: chunk}, "short"); err != nil {
			c.Violation("short-reads", "%s: with reads of %d bytes: %v", where, chunk, err)
			continue
		}
		c.Eval(fmt.Sprint(where, " chunk ", chunk), true)
		if !bytes.Equal(mustRead("short"), ref) {
			// the order of the draws may vary, what is drawn may not: fall
			// back to the constant source
			block := c.Bytes(32)
			block[31] &= 0x1f
			t.run(&source{then: repeat{block}}, "fixed1")
			t.run(&source{data: bytes.Repeat(block, 64), then: repeat{block}, chunk: chunk}, "fixed2")
			if !bytes.Equal(mustRead("fixed1"), mustRead("fixed2")) {
				c.Violation("short-reads", "%s: a source that serves %d bytes at a time gives another contribution", where, chunk)
			}
		}
	}
	// failures
	errs := []error{errors.New("no entropy"), io.EOF, io.ErrUnexpectedEOF, syscall.EINTR}
	for k := 0; k < n && k < 60; k++ {
		for mode := 0; mode < 4; mode++ {
			e := pick(c.Rng, errs)
			part := []int{0, 0, 16, 31}[mode]
			permanent := mode%2 == 0
			os.Remove("out")
			s := &source{then: newRng("s", c.Seed, c.Case).src, err: e, fail: func(i int) int {
				if i == k || permanent && i > k {
					return part
				}
				return -1
			}}
			err := t.run(s, "out")
			if s.fails == 0 {
				continue
			}
			what := fmt.Sprintf("%s: read %d of %d of the random source fails with %q after %d bytes (permanently: %v)", where, k+1, n, e, part, permanent)
			c.Eval(what, true)
			c.Count("failures", 1)
			if isPanic(err) {
				c.Violation("panic", "%s: %v", what, err)
			} else if err == nil && permanent {
				c.Violation("source-failure-ignored", "%s: the contribution reports success", what)
			} else if err == nil {
				// it may have drawn again: then what it drew is complete
				vals, e2 := t.values("out")
				if e2 != nil {
					c.Violation("source-failure-ignored", "%s: success with %v", what, e2)
					continue
				}
				for i := range vals {
					if vals[i].IsInfinity() || vals[i].Equal(&t.prev[i]) || sharesBytes(t, s, vals[i], t.prev[i]) {
						c.Violation("source-failure-ignored", "%s: success, and the scalar for %s is degenerate or from the failed read", what, t.names[i])
					}
				}
			}
		}
	}
	c.Sample(map[string]any{"phase": phase, "reads": n})
}

// sharesBytes tells whether the scalar is what a failed read left in a buffer
func sharesBytes(t *toxic, s *source, v, p G1) bool {
	for _, r := range s.reads {
		if r[1] < 32 && r[1] > 0 {
			b := make([]byte, 32)
			copy(b, s.log[r[0]:r[0]+r[1]])
			q := mulG1(p, sampled(b))
			if q.Equal(&v) {
				return true
			}
		}
	}
	return false
}

// sampled is the scalar that the field's sampler makes of 32 bytes
func sampled(b []byte) (x Fr) {
	for i := 0; i < 4; i++ {
		x[i] = binary.LittleEndian.Uint64(b[8*i:])
	}
	x[3] &= 1<<62 - 1
	return
}

func (c *Ctx) failingVerify(phase int) {
	t := c.toxic(phase)
	where := fmt.Sprintf("phase %d, %d earlier records", phase, t.earlier)
	if err := t.contribute("good"); err != nil {
		c.Fail("contribute-failed", "%s: %v", where, err)
	}
	rec := &source{then: newRng("v", c.Seed, c.Case).src}
	if err := withSource(rec, func() error { return t.verify("good") }); err != nil {
		c.Fail("verify-failed", "%s: %v", where, err)
	}
	n := len(rec.reads)
	c.Eval(where+" verification draws", true)
	if len(rec.log) < 16 {
		c.Fail("predictable-verifier", "%s: verification draws only %d bytes from the random source", where, len(rec.log))
	}
	// bad files: one element is wrong
	var bads []string
	for i := 0; i < 3; i++ {
		name := fmt.Sprint("bad", i)
		if t.phase == 1 {
			p, _ := readP1("good")
			switch i {
			case 0:
				l := [][]G1{p.TauG1, p.Alpha, p.Beta}[c.IntN(3)]
				l[len(l)-1] = g1s(c.Fr())[0]
			case 1:
				p.TauG2[p.N()-1] = g2s(c.Fr())[0]
				if p.N() == 2 {
					p.Alpha[1] = g1s(c.Fr())[0]
				}
			case 2:
				p.Beta[p.N()-1] = g1s(c.Fr())[0]
			}
			mustWrite(name, p.Bytes())
		} else {
			p, _ := readP2("good")
			if i == 1 && len(p.PKK) > 0 {
				p.PKK[c.IntN(len(p.PKK))] = g1s(c.Fr())[0]
			} else {
				p.Z[c.IntN(len(p.Z))] = g1s(c.Fr())[0]
			}
			mustWrite(name, p.Bytes())
		}
		bads = append(bads, name)
		if t.verify(name) == nil {
			c.Fail("accepted", "%s: a wrong element is accepted", where)
		}
	}
	errs := []error{errors.New("no entropy"), io.EOF, syscall.EINTR}
	for k := 0; k < n && k < 60; k++ {
		for mode := 0; mode < 3; mode++ {
			e := pick(c.Rng, errs)
			mk := func() *source {
				return &source{then: newRng("v", c.Seed, c.Case).src, err: e, fail: func(i int) int {
					if i == k || mode != 1 && i > k {
						return []int{0, 0, 20}[mode]
					}
					return -1
				}}
			}
			what := fmt.Sprintf("%s: read %d of %d of the verifier's random source fails with %q (permanently: %v)", where, k+1, n, e, mode != 1)
			s := mk()
			err := withSource(s, func() error { return t.verify("good") })
			if s.fails > 0 {
				c.Eval(what, true)
				c.Count("failures", 1)
				if isPanic(err) {
					c.Violation("panic", "%s: %v", what, err)
				}
				if err == nil && mode != 1 {
					c.Violation("source-failure-ignored", "%s: verification reports success", what)
				}
			}
			bad := pick(c.Rng, bads)
			err = withSource(mk(), func() error { return t.verify(bad) })
			c.Eval(what+bad, true)
			if err == nil {
				c.Violation("accepted", "%s: a wrong element is accepted", what)
			}
		}
	}
	c.Sample(map[string]any{"phase": phase, "verifier_reads": n, "verifier_bytes": len(rec.log)})
}

// coefficients judges the random coefficients of verification by themselves
func (c *Ctx) coefficients() {
	bin := os.Getenv("VH_COEF")
	if bin == "" {
		return
	}
	for _, n := range []int{1, 2, 1 + c.IntN(20), 1 << 16, 1<<17 + c.IntN(1<<17)} {
		if out, err := combined(exec.Command(bin, fmt.Sprint(n), "coef.out")); err != nil {
			c.Violation("coefficients", "drawing %d coefficients fails: %v %s", n, err, out)
			return
		}
		b := mustRead("coef.out")
		os.Remove("coef.out")
		seen := map[string]bool{}
		var and, or [32]byte
		for i := range and {
			and[i] = 0xff
		}
		for i := 0; i+32 <= len(b); i += 32 {
			e := b[i : i+32]
			seen[string(e)] = true
			for j := range e {
				and[j] &= e[j]
				or[j] |= e[j]
			}
			if n <= 1<<16 {
				c.Unique("coefficient", e)
			}
		}
		c.Eval(fmt.Sprint("coefficients ", n), true)
		c.Count("coefficients", n)
		if len(seen) != n {
			c.Violation("coefficients", "there are only %d different ones in %d random coefficients of verification", len(seen), n)
		}
		vary := 0
		for j := range and {
			vary += bits.OnesCount8(and[j] ^ or[j])
		}
		if n >= 1<<16 && vary < 100 {
			c.Violation("coefficients", "only %d bits vary among %d random coefficients of verification", vary, n)
		}
	}
}

// ---------------------------------------------------------------- leaks

// encodings of a scalar
func encodings(x Fr) map[string][]byte {
	m := map[string][]byte{}
	be := x.Bytes()
	le := make([]byte, 32)
	for i := range be {
		le[31-i] = be[i]
	}
	mont := sampleBytes(x)
	rmont := make([]byte, 32)
	for i := range mont {
		rmont[31-i] = mont[i]
	}
	for n, b := range map[string][]byte{"big endian": be[:], "little endian": le, "Montgomery": mont, "Montgomery big endian": rmont} {
		m[n] = b
		m["hexadecimal "+n] = []byte(hex.EncodeToString(b))
		m["base64 "+n] = []byte(base64.StdEncoding.EncodeToString(b)[:40])
		m["base64url "+n] = []byte(base64.RawURLEncoding.EncodeToString(b)[:40])
	}
	var bi big.Int
	x.BigInt(&bi)
	m["decimal"] = []byte(bi.String())
	m["hexadecimal number"] = []byte(bi.Text(16))
	// 64-bit words, of which any one is a leak
	for i, l := range [][4]uint64{x, x.Bits()} {
		for j, w := range l {
			if w>>44 != 0 {
				m[fmt.Sprint("decimal word ", i, " ", j)] = []byte(fmt.Sprint(w))
				m[fmt.Sprint("decimal signed word ", i, " ", j)] = []byte(fmt.Sprint(int64(w)))
				m[fmt.Sprint("hexadecimal word ", i, " ", j)] = []byte(fmt.Sprintf("%x", w))
				m[fmt.Sprint("octal word ", i, " ", j)] = []byte(fmt.Sprintf("%o", w))
			}
		}
	}
	for n, b := range map[string][]byte{"big endian": be[:], "little endian": le, "Montgomery": mont} {
		m["decimal list "+n] = []byte(strings.Trim(fmt.Sprint(b), "[]"))
		m["hexadecimal list "+n] = []byte(fmt.Sprintf("% x", b))
		m["base32 "+n] = []byte(base32.StdEncoding.EncodeToString(b)[:48])
	}
	m["octal"] = []byte(bi.Text(8))
	m["binary"] = []byte(bi.Text(2))
	m["base 36"] = []byte(bi.Text(36))
	m["base 62"] = []byte(bi.Text(62))
	return m
}

// pieces cuts an encoding in parts of which each gives the secret away
func pieces(name string, b []byte) [][]byte {
	w := 12
	switch {
	case strings.Contains(name, "word"):
		return [][]byte{b}
	case strings.Contains(name, "list"):
		w = 36
	case strings.Contains(name, "octal") || strings.Contains(name, "base"):
		w = 24
	case strings.Contains(name, "binary"):
		w = 80
	case strings.Contains(name, "decimal"):
		w = 24
	}
	if len(b) <= w {
		return [][]byte{b}
	}
	var l [][]byte
	for i := 0; i+w <= len(b); i += w {
		l = append(l, b[i:i+w])
	}
	return l
}

func (c *Ctx) leaks(phase int) {
	t := c.toxic(phase)
	commit := c.P(1, 8)
	where := fmt.Sprintf("phase %d, %d earlier records", phase, t.earlier)
	tmp := filepath.Join(c.Dir, "tmp")
	os.Mkdir(tmp, 0755)
	for _, v := range []string{"TMPDIR", "HOME", "XDG_CACHE_HOME", "XDG_CONFIG_HOME"} {
		old, had := os.LookupEnv(v)
		os.Setenv(v, tmp)
		if had {
			defer os.Setenv(v, old)
		} else {
			defer os.Unsetenv(v)
		}
	}
	streams := filepath.Join(os.Getenv("VH_SCRATCH"), "stderr.txt")
	at, _ := os.Stat(streams)
	errFile, _ := os.Create("stderr.out")
	oldErr := os.Stderr
	os.Stderr = errFile
	s := &source{then: c.Rng.src}
	var run func() error
	split, ph2 := false, ""
	ins := snap([]string{"in", "base", "origin"})
	secrets := map[string]Fr{}
	if commit {
		// the trapdoor of the commitment key
		os.Stderr = oldErr
		f := c.fixture(2, 1, 1, true, false)
		os.Stderr = errFile
		where = "key extraction of a circuit with a commitment"
		split, ph2 = c.Bool(), f.Ph2
		run = func() error {
			if split {
				return extractSplit(f.Ph2, "L")
			}
			return extractKeys(f.Ph2)
		}
		all, _ := filepath.Glob("*")
		for _, p := range all {
			if p != "pk" && p != "vk" && !strings.HasPrefix(p, "L.") && p != "tmp" && p != "stderr.out" {
				ins[p] = nil
			}
		}
	} else {
		run = func() error { return t.contribute("out") }
	}
	var text string
	var err error
	var writes map[string][]byte
	if c.Bool() {
		// in a process of its own, whose writes are recorded
		command, in := "p1c", t.in
		if phase == 2 {
			command = "p2c"
		}
		if commit {
			command = "key"
			if split {
				command = "keys"
			}
			in = ph2
		}
		out := "out"
		if commit {
			out = "L"
		}
		var r *served
		if writes, r = c.writtenBy(command, in, out); r != nil {
			s.log, s.reads = r.Log, r.Reads
			if r.Err != "" {
				err = errors.New(r.Err)
			}
		}
	}
	if writes == nil {
		err = withSource(s, func() (err error) {
			text, err = capture(run)
			return
		})
	}
	os.Stderr = oldErr
	errFile.Close()
	if err != nil {
		c.Fail("contribute-failed", "%s: %v", where, err)
	}
	// what was sampled
	var known []Fr
	var cand []Fr
	for _, r := range s.reads {
		if r[1] == 32 {
			cand = append(cand, sampled(s.log[r[0]:r[0]+32]))
		}
		for off := 0; off+32 <= r[1] && r[1] > 32; off += 16 {
			var e Fr
			e.SetBytes(s.log[r[0]+off : r[0]+off+32])
			cand = append(cand, e)
		}
	}
	if !commit {
		vals, err := t.values("out")
		if err != nil {
			c.Fail("unreadable", "%s: %v", where, err)
		}
		found := 0
		for i, v := range vals {
			for _, x := range cand {
				if q := mulG1(t.prev[i], x); q.Equal(&v) {
					secrets[t.names[i]] = x
					known = append(known, x)
					found++
					break
				}
			}
		}
		c.Count("scalars_recovered_from_the_source", found)
	} else {
		for i, x := range cand {
			secrets[fmt.Sprint("draw ", i)] = x
			known = append(known, x)
		}
	}
	n := len(known)
	names := make([]string, 0, len(secrets))
	for k := range secrets {
		names = append(names, k)
	}
	for i := 0; i < len(names); i++ {
		a := secrets[names[i]]
		secrets["inverse of "+names[i]] = invF(a)
		secrets["negated "+names[i]] = negF(a)
		if n <= 6 {
			for j := i; j < len(names); j++ {
				b := secrets[names[j]]
				secrets["product of "+names[i]+" and "+names[j]] = mulF(a, b)
			}
		}
	}
	// where to look
	places := map[string][]byte{"standard output": []byte(text), "standard error": mustRead("stderr.out")}
	if b, err := os.ReadFile(streams); err == nil && at != nil && int64(len(b)) > at.Size() {
		places["process output"] = b[at.Size():]
	}
	for p, b := range writes {
		places[p] = b
	}
	filepath.Walk(c.Dir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !fi.Mode().IsRegular() {
			return nil
		}
		rel, _ := filepath.Rel(c.Dir, p)
		if _, ok := ins[rel]; ok || rel == "stderr.out" {
			return nil
		}
		places[rel] = mustRead(p)
		return nil
	})
	bytesSeen := 0
	for _, b := range places {
		bytesSeen += len(b)
	}
	look := func(what string, b []byte) {
		low := strings.Contains(what, "hexadecimal")
		for place, data := range places {
			if low {
				data = bytes.ToLower(data)
			}
			if bytes.Contains(data, b) {
				c.Violation("leak", "%s: %s is in %s", where, what, place)
			}
		}
		c.Count("patterns_searched", 1)
	}
	for name, x := range secrets {
		c.Eval(fmt.Sprint(c.Case, name), true)
		for enc, b := range encodings(x) {
			for _, p := range pieces(enc, b) {
				look(name+" ("+enc+")", p)
			}
		}
	}
	// anything that was served, however it was used
	for i := 0; i+12 <= len(s.log); i += 4 {
		look(fmt.Sprint("the random bytes at ", i), s.log[i:i+12])
		look(fmt.Sprint("the random bytes at ", i, " (hexadecimal)"), []byte(hex.EncodeToString(s.log[i:i+12])))
	}
	c.Eval(where+" stream", true)
	c.Count("bytes_searched", bytesSeen)
	c.Sample(map[string]any{"what": where, "scalars": len(secrets), "places": len(places), "bytes": bytesSeen, "random_bytes": len(s.log)})
}

// ---------------------------------------------------------------- repetition

func (c *Ctx) repetition(phase int) {
	t := c.toxic(phase)
	where := fmt.Sprintf("phase %d, %d earlier records", phase, t.earlier)
	seen := map[string]string{}
	note := func(run string, path string) {
		vals, err := t.values(path)
		if err != nil {
			c.Fail("unreadable", "%s: %v", where, err)
		}
		// the scalars of one contribution, and those of others on the same
		// file, are unrelated
		for i, v := range vals {
			b := v.Bytes()
			k := hex.EncodeToString(b[:])
			c.Eval(fmt.Sprint(c.Case, run, i), true)
			who := run + ", " + t.names[i]
			if prev, ok := seen[k]; ok {
				c.Violation("repeated", "%s: %s is that of %s", where, who, prev)
			}
			seen[k] = who
			c.Unique("value", b[:])
			if v.Equal(&t.prev[i]) {
				c.Violation("trivial", "%s: the scalar for %s is one", where, who)
			}
			if v.IsInfinity() {
				c.Violation("trivial", "%s: the scalar for %s is zero", where, who)
			}
		}
		// relations between the scalars of one contribution
		if t.phase == 1 {
			for i := 0; i < 3; i++ {
				for j := 0; j < 3; j++ {
					if i != j {
						c.Eval(fmt.Sprint(c.Case, run, "relation", i, j), true)
						// x_i = s_j, seen through SX = s*x: G1 only, by
						// the second group of the proofs
						if c.sameScalar(path, i, j) {
							c.Violation("repeated", "%s: %s and %s are the same scalar", where, t.names[i], t.names[j])
						}
					}
				}
			}
		}
	}
	for i := 0; i < 3; i++ {
		// in one process, by the machine's source, which the code under test
		// then really reads
		old := crand.Reader
		if i > 0 {
			crand.Reader = realReader
		}
		err := t.contribute("out")
		crand.Reader = old
		if err != nil {
			c.Fail("contribute-failed", "%s: %v", where, err)
		}
		note(fmt.Sprint("contribution ", i+1), "out")
	}
	// in processes of their own
	name := []string{"", "p1c", "p2c"}[phase]
	for i := 0; i < 3; i++ {
		out := fmt.Sprint("cli", i)
		if i == 2 && c.traced(name, out) {
			c.Eval(where+" system calls", true)
		} else if r := c.cli(name, "in", out); r.Code != 0 {
			c.Fail("contribute-failed", "%s: exit %d: %s", where, r.Code, r.last())
		}
		c.Count("processes", 1)
		note(fmt.Sprint("process ", i+1), out)
	}
	c.Sample(map[string]any{"phase": phase, "contributions": 6})
}

// sameScalar tells whether two of the three secrets of the last record are
// the same: x_i*S_i and x_j*S_j against the exponents in the other group
func (c *Ctx) sameScalar(path string, i, j int) bool {
	p, err := readP1(path)
	if err != nil {
		return false
	}
	k := len(p.Recs) - 1
	r := p.Recs[k]
	var prev []byte
	if k > 0 {
		prev = p.Recs[k-1].Hash
	}
	// e(SX_i, SP_j) = e(S_i, SPX_j) iff x_i = x_j
	sp := hashToSP(r.K[j].S, r.K[j].SX, prev, byte(j+1))
	return sameRatio(r.K[i].S, r.K[i].SX, sp, r.K[j].SPX)
}

var realReader = crand.Reader

// traced runs a contribution under strace, where that works, and reports
// files opened for writing outside of the directory, and network use
func (c *Ctx) traced(name, out string) bool {
	path, err := exec.LookPath("strace")
	if err != nil {
		return false
	}
	cmd := exec.Command(path, "-f", "-qq", "-o", "trace.txt", "-e", "trace=open,openat,openat2,creat,rename,renameat,renameat2,link,linkat,socket,connect,sendto,sendmsg,shmget,memfd_create,execve", c.CLI, name, "in", out)
	cmd.Env = append(os.Environ(), "TMPDIR="+c.Dir)
	if err := cmd.Run(); err != nil {
		os.Remove(out)
		return false
	}
	b, err := os.ReadFile("trace.txt")
	if err != nil {
		return false
	}
	n := 0
	for _, l := range strings.Split(string(b), "\n") {
		i := strings.IndexByte(l, ' ')
		if i < 0 {
			continue
		}
		l = strings.TrimSpace(l[i:])
		j := strings.IndexByte(l, '(')
		if j < 0 {
			continue
		}
		call := l[:j]
		n++
		switch call {
		case "socket", "connect", "sendto", "sendmsg", "shmget":
			c.Violation("network", "%s makes the system call %s", name, l)
		case "open", "openat", "openat2", "creat":
			if !strings.Contains(l, "O_WRONLY") && !strings.Contains(l, "O_RDWR") && call != "creat" || strings.Contains(l, "ENOENT") {
				continue
			}
			q := strings.SplitN(l, "\"", 3)
			if len(q) < 3 {
				continue
			}
			p := q[1]
			if strings.HasPrefix(p, "/dev/") || strings.HasPrefix(p, "/proc/") {
				continue
			}
			if !filepath.IsAbs(p) {
				p = filepath.Join(c.Dir, p)
			}
			if !strings.HasPrefix(p, c.Dir+"/") {
				c.Violation("other-file", "%s writes to %s", name, p)
			}
		}
	}
	c.Count("traced_calls", n)
	return n > 0
}
