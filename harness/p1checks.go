package main

import (
	"bytes"
	crand "crypto/rand"
	"encoding/binary"
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/bnb-chain/zkbnb-setup/phase1"
)

// ---------------------------------------------------------------- shared

// batch sizes that make small files go through several batches
func (c *Ctx) batch(n int) int {
	switch c.IntN(6) {
	case 0:
		return 1 << 20
	case 1:
		return 2
	case 2:
		return maxInt(2, n) // exactly one batch
	case 3:
		return maxInt(2, n-1)
	case 4:
		return maxInt(2, n/2)
	}
	return 2 + c.IntN(maxInt(1, n))
}

func p1Contribute(in, out string) error {
	return try(func() error { return phase1.Contribute(in, out) })
}
func p1Verify(in, base string) error {
	return try(func() error { return phase1.Verify(in, base) })
}

// ppotBytes encodes an uncompressed Powers-of-Tau challenge
func ppotBytes(r *Rng, p *P1) []byte {
	b := r.Bytes(64)
	raw1 := func(l ...G1) {
		for i := range l {
			e := l[i].RawBytes()
			b = append(b, e[:]...)
		}
	}
	raw2 := func(l ...G2) {
		for i := range l {
			e := l[i].RawBytes()
			b = append(b, e[:]...)
		}
	}
	raw1(p.TauG1...)
	raw2(p.TauG2...)
	raw1(p.Alpha...)
	raw1(p.Beta...)
	raw2(p.BetaG2)
	return b
}

// firstReads gives fixed bytes to the first reads, then a DRBG
type firstReads struct {
	mu   sync.Mutex
	l    [][]byte
	next interface{ Read([]byte) (int, error) }
}

func (f *firstReads) Read(b []byte) (int, error) {
	f.mu.Lock()
	if len(f.l) > 0 && len(b) == len(f.l[0]) {
		copy(b, f.l[0])
		f.l = f.l[1:]
		f.mu.Unlock()
		return len(b), nil
	}
	f.mu.Unlock()
	return f.next.Read(b)
}

// sampleBytes are the bytes of the random source that make the field's
// sampler return x
func sampleBytes(x Fr) []byte {
	b := make([]byte, 32)
	for i := 0; i < 4; i++ {
		binary.LittleEndian.PutUint64(b[8*i:], x[i])
	}
	return b
}

// withSpecial makes the next samples of the code under test return x
func withSpecial(x []Fr, f func() error) error {
	old := crand.Reader
	fr := &firstReads{next: old}
	for _, e := range x {
		fr.l = append(fr.l, sampleBytes(e))
	}
	crand.Reader = fr
	defer func() { crand.Reader = old }()
	return f()
}

func specialScalars(r *Rng) Fr {
	switch r.IntN(5) {
	case 0:
		return frInt(1)
	case 1:
		return frInt(-1)
	case 2:
		return frInt(2)
	case 3: // a root of unity of small order
		n := 4 << r.IntN(3)
		return lagRoot(n)
	}
	return frInt(int64(1 + r.IntN(1000)))
}

func lagRoot(n int) Fr { return domainGen(n) }

// ---------------------------------------------------------------- C01

func init() {
	register(&Check{ID: "C01", Quick: 480, Thorough: 1200, MinEvals: 100, Run: runC01,
		Rule: "a case is one honest ceremony through the real Initialize or Transform, Contribute and Verify (power, number of contributions, base, batch sizes and some special secrets drawn from the seed); every verification of a prefix of the ceremony is one evaluation, distinct by (power, base kind, contribution number, batch sizes, secret kind)"})
}

func runC01(c *Ctx) {
	maxPow := 9
	if c.Thorough() {
		maxPow = 12
	}
	power := 1 + c.Case%7
	if c.Case%10 == 9 {
		power = 8 + c.IntN(maxPow-7)
	}
	n := 1 << power
	k := 1 + c.IntN(4)
	if power > 8 {
		k = 1 + c.IntN(2)
	}
	switch {
	case c.Case%200 == 5:
		power, n, k = 2, 4, 257+c.IntN(50) // the counter takes two bytes
	case c.Case%40 == 22:
		power, n, k = 2, 4, 5+c.IntN(20)
	}
	base := ""
	kind := "init"
	if c.P(2, 5) {
		kind = "transform"
		inPow := power + c.IntN(3)
		b := Base{c.Fr(), c.Fr(), c.Fr()}
		mustWrite("ppot", ppotBytes(c.Rng, srs(inPow, b)))
		if err := try(func() error { return phase1.Transform("ppot", "0.ph1", byte(inPow), byte(power)) }); err != nil {
			c.Violation("transform-failed", "Transform from power %d to %d: %v", inPow, power, err)
			return
		}
		base = "0.ph1"
	} else {
		if err := try(func() error { return phase1.Initialize(byte(power), "0.ph1") }); err != nil {
			c.Violation("init-failed", "Initialize(%d): %v", power, err)
			return
		}
		if !c.allOnes("0.ph1", power) {
			return
		}
		if c.Case%60 == 36 { // larger than it pays to contribute to
			power := 10 + c.IntN(9)
			if err := try(func() error { return phase1.Initialize(byte(power), "large.ph1") }); err != nil {
				c.Violation("init-failed", "Initialize(%d): %v", power, err)
				return
			}
			if !c.allOnes("large.ph1", power) {
				return
			}
			os.Remove("large.ph1")
		}
	}
	special := c.P(1, 4)
	for i := 1; i <= k; i++ {
		in, out := fmt.Sprintf("%d.ph1", i-1), fmt.Sprintf("%d.ph1", i)
		bc, bv := c.batch(n), c.batch(n)
		setBatch1(bc)
		var err error
		what := "random"
		if special && c.P(2, 3) {
			x := specialScalars(c.Rng)
			what = "special " + x.String()
			err = withSpecial([]Fr{x, x, x}, func() error { return p1Contribute(in, out) })
			if err != nil && !isPanic(err) {
				what = "random"
				err = p1Contribute(in, out) // weak secrets may be refused
			}
		} else {
			err = p1Contribute(in, out)
		}
		if err != nil {
			c.Violation("contribute-failed", "power %d, %s base, contribution %d, batch %d: %v", power, kind, i, bc, err)
			return
		}
		if k > 50 && i%64 != 0 && i != 255 && i != 257 && i != k {
			continue
		}
		setBatch1(bv)
		err = p1Verify(out, base)
		c.Eval(fmt.Sprint(power, kind, i, bc, bv, what), true)
		c.Sample(map[string]any{"power": power, "base": kind, "contribution": i, "contribute_batch": bc, "verify_batch": bv, "secrets": what, "verified": err == nil})
		if err != nil {
			c.Violation("honest-rejected", "power %d, %s base, contribution %d (secrets %s), contribute batch %d, verify batch %d: %v", power, kind, i, what, bc, bv, err)
			return
		}
	}
	c.Count("contributions", k)
}

// allOnes checks that a file is the all-ones SRS
func (c *Ctx) allOnes(path string, power int) bool {
	n := 1 << power
	want := []byte{byte(power), 0, 0}
	one, two := put1(nil, gen1), put2(nil, gen2)
	want = append(want, bytes.Repeat(one, 4*n-1)...)
	want = append(want, bytes.Repeat(two, n+1)...)
	got := mustRead(path)
	c.Eval(fmt.Sprintf("init %d", power), true)
	if !bytes.Equal(got, want) {
		c.Violation("init-content", "the initialization of power %d isn't the all-ones SRS (%d bytes, expected %d)", power, len(got), len(want))
		return false
	}
	return true
}

// ---------------------------------------------------------------- C02

func init() {
	register(&Check{ID: "C02", Quick: 900, Thorough: 3000, MinEvals: 200, Run: runC02,
		Rule: "a case is one real Contribute on an input file whose scalars the monitor knows (well-formed, arbitrary, or with identity elements; 0-3 earlier records); the monitor divides the known scalars out of the output and checks with pairings under 128-bit weights that what remains is one monomial family; one case has power 17; evaluations are the section and record checks, distinct by (input kind, power, batch, section)"})
}

type p1Scalars struct {
	power                int
	tau, alpha, beta, t2 []Fr
	b2                   Fr
}

func (s *p1Scalars) file() *P1 {
	all := append(append(append([]Fr{}, s.tau...), s.alpha...), s.beta...)
	pts := g1s(all...)
	q := g2s(append(append([]Fr{}, s.t2...), s.b2)...)
	a, b := len(s.tau), len(s.tau)+len(s.alpha)
	return &P1{Power: s.power, TauG1: pts[:a:a], Alpha: pts[a:b:b], Beta: pts[b:], TauG2: q[:len(s.t2):len(s.t2)], BetaG2: q[len(s.t2)]}
}

func runC02(c *Ctx) {
	power := 1 + c.Case%6
	if c.Case%25 == 24 {
		power = 8
	}
	if c.Case%225 == 224 {
		power = 11 + c.IntN(2)
	}
	huge := c.Case%900 == 449
	if huge {
		power = 13 + c.IntN(2)
	}
	giant := c.Giant()
	if giant {
		power = 17
	}
	n := 1 << power
	s := &p1Scalars{power: power}
	kind := []string{"well-formed", "arbitrary", "arbitrary with identities", "repeated", "neighbours up to sign"}[c.IntN(5)]
	if giant {
		kind = "well-formed"
	}
	rnd := func(m int) []Fr {
		out := make([]Fr, m)
		for i := range out {
			out[i] = c.Fr()
			if kind == "repeated" && i > 0 && c.Bool() {
				out[i] = out[i-1]
			}
			if kind == "neighbours up to sign" && i >= 2 {
				switch c.IntN(4) {
				case 0:
					out[i] = out[i-1]
				case 1:
					out[i] = mulF(frInt(-1), out[i-1])
				case 2:
					out[i] = mulF(unit(c.Bool()), out[i-2])
				}
			}
			if kind == "arbitrary with identities" && i >= 2 && !out[i-1].IsZero() && c.P(1, 4) {
				out[i] = Fr{}
			}
		}
		return out
	}
	k := c.IntN(4)
	var secs []P1Sec
	for i := 0; i < k; i++ {
		secs = append(secs, randP1Sec(c.Rng))
	}
	if kind == "well-formed" {
		b := oneBase().after(secs)
		s.tau, s.alpha, s.beta, s.t2, s.b2 = powers(b.T, frInt(1), 2*n-1), powers(b.T, b.A, n), powers(b.T, b.B, n), powers(b.T, frInt(1), n), b.B
	} else {
		s.tau, s.alpha, s.beta, s.t2, s.b2 = rnd(2*n-1), rnd(n), rnd(n), rnd(n), c.Fr()
	}
	in := s.file()
	in.Recs = chain(oneBase(), secs)
	in.NC = k
	mustWrite("in", in.Bytes())
	b := c.batch(n)
	if huge {
		b = 1 << 20
	}
	if giant {
		b = []int{1 << 20, 1 << 18, 100000, 70000}[c.IntN(4)]
	}
	setBatch1(b)
	if !giant {
		c.leave(6, func() error { return p1Contribute("in", "out") })
	}
	if err := p1Contribute("in", "out"); err != nil {
		c.Violation("contribute-failed", "%s input of power %d with %d records, batch %d: %v", kind, power, k, b, err)
		return
	}
	o, err := readP1("out")
	if err != nil {
		c.Violation("output-unreadable", "%v", err)
		return
	}
	where := fmt.Sprintf("%s input of power %d with %d records, batch %d", kind, power, k, b)
	sig := func(x string) string { return fmt.Sprint(kind, power, b, x) }
	if o.Power != power || o.NC != k+1 || len(o.Recs) != k+1 {
		c.Violation("header", "%s: the output has power %d and %d records", where, o.Power, o.NC)
		return
	}
	bad := false
	check := func(name string, ok bool, detail string) {
		c.Eval(sig(name), true)
		if !ok {
			bad = true
			c.Violation("not-"+name, "%s: %s %s", where, name, detail)
		}
	}
	// the new secrets in the exponent
	tG2 := mulG2(o.TauG2[1], invF(s.t2[1]))
	t := mulG1(o.TauG1[1], invF(s.tau[1]))
	a := mulG1(o.Alpha[0], invF(s.alpha[0]))
	be := mulG1(o.Beta[0], invF(s.beta[0]))
	beG2 := mulG2(o.BetaG2, invF(s.b2))
	for _, x := range []struct {
		n string
		p G1
	}{{"tau", t}, {"alpha", a}, {"beta", be}} {
		check("fresh-"+x.n, !x.p.IsInfinity() && !x.p.Equal(&gen1), "is trivial")
		c.Unique("secret", put1(nil, x.p))
	}
	check("tau-same-in-both-groups", sameRatio(t, gen1, tG2, gen2), "differs between G1 and G2")
	check("beta-same-in-both-groups", sameRatio(be, gen1, beG2, gen2), "differs between G1 and G2")
	first := func(name string, got, want G1) {
		check(name, got.Equal(&want), "the first element was changed")
	}
	first("tau0", o.TauG1[0], in.TauG1[0])
	check("tau0-G2", o.TauG2[0].Equal(&in.TauG2[0]), "the first element was changed")
	// consecutive elements, the known scalars divided out, are in ratio tau
	w := func() Fr { var e Fr; e.SetBytes(c.Bytes(16)); return e }
	var t2sq G2 // tau^2 in G2, where needed
	haveSq := n > 2 && !s.t2[2].IsZero()
	if haveSq {
		t2sq = mulG2(o.TauG2[2], invF(s.t2[2]))
		tt := mulG1(o.TauG1[1], invF(s.tau[1]))
		check("tau2-G2", sameRatioG2(t2sq, tG2, tt, gen1), "the second power in G2")
	}
	sec1 := func(name string, p []G1, sc []Fr) {
		var l1, l2 []G1
		var w1, w2 []Fr
		var g1, g2 []G1
		var v1, v2 []Fr
		okInf := true
		for i := range p {
			if sc[i].IsZero() {
				okInf = okInf && p[i].IsInfinity()
				if i+1 < len(p) && haveSq {
					r := w()
					g1, v1 = append(g1, p[i-1]), append(v1, mulF(r, invF(sc[i-1])))
					g2, v2 = append(g2, p[i+1]), append(v2, mulF(r, invF(sc[i+1])))
				}
				continue
			}
			if i > 0 && !sc[i-1].IsZero() {
				r := w()
				l1, w1 = append(l1, p[i-1]), append(w1, mulF(r, invF(sc[i-1])))
				l2, w2 = append(l2, p[i]), append(w2, mulF(r, invF(sc[i])))
			}
		}
		ok := sameRatio(msm1(l2, w2), msm1(l1, w1), tG2, gen2)
		if ok && len(g1) > 0 {
			ok = sameRatio(msm1(g2, v2), msm1(g1, v1), t2sq, gen2)
		}
		d := ""
		if !ok {
			for i := 1; i < len(p); i++ {
				if !sc[i].IsZero() && !sc[i-1].IsZero() && !sameRatio(mulG1(p[i], invF(sc[i])), mulG1(p[i-1], invF(sc[i-1])), tG2, gen2) {
					d = fmt.Sprintf("element %d isn't the next monomial", i)
					break
				}
			}
		}
		check(name, ok && okInf, d)
	}
	sec1("TauG1", o.TauG1, s.tau)
	sec1("AlphaTauG1", o.Alpha, s.alpha)
	sec1("BetaTauG1", o.Beta, s.beta)
	{
		var l1, l2 []G2
		var w1, w2 []Fr
		okInf := true
		for i := range o.TauG2 {
			if s.t2[i].IsZero() {
				okInf = okInf && o.TauG2[i].IsInfinity()
				if i+1 < n {
					// two steps at once, with tau^2 in G1
					if !s.tau[2].IsZero() {
						tt := mulG1(o.TauG1[2], invF(s.tau[2]))
						okInf = okInf && sameRatioG2(mulG2(o.TauG2[i+1], invF(s.t2[i+1])), mulG2(o.TauG2[i-1], invF(s.t2[i-1])), tt, gen1)
					}
				}
				continue
			}
			if i > 0 && !s.t2[i-1].IsZero() {
				r := w()
				l1, w1 = append(l1, o.TauG2[i-1]), append(w1, mulF(r, invF(s.t2[i-1])))
				l2, w2 = append(l2, o.TauG2[i]), append(w2, mulF(r, invF(s.t2[i])))
			}
		}
		check("TauG2", okInf && sameRatioG2(msm2(l2, w2), msm2(l1, w1), t, gen1), "")
	}
	// the appended record
	r := o.Recs[k]
	check("record-tau1", r.Tau1.Equal(&o.TauG1[1]), "isn't the parameter")
	check("record-alpha1", r.Alpha1.Equal(&o.Alpha[0]), "isn't the parameter")
	check("record-beta1", r.Beta1.Equal(&o.Beta[0]), "isn't the parameter")
	check("record-tau2", r.Tau2.Equal(&o.TauG2[1]), "isn't the parameter")
	check("record-beta2", r.Beta2.Equal(&o.BetaG2), "isn't the parameter")
	var prev []byte
	if k > 0 {
		prev = in.Recs[k-1].Hash
	}
	for i, x := range []G1{t, a, be} {
		nm := []string{"tau", "alpha", "beta"}[i]
		K := r.K[i]
		sp := hashToSP(K.S, K.SX, prev, byte(i+1))
		check("proof-"+nm, !K.S.IsInfinity() && sameRatio(x, gen1, K.SPX, sp) && sameRatio(K.SX, K.S, K.SPX, sp), "doesn't prove the secret that was applied")
		c.Unique("proof-randomness", put1(nil, K.S))
	}
	check("record-hash", bytes.Equal(r.Hash, sha(r.body())), "")
	for i := 0; i < k; i++ {
		check("old-record", bytes.Equal(o.Recs[i].bytes(), in.Recs[i].bytes()), fmt.Sprintf("%d was changed", i))
	}
	c.Sample(map[string]any{"power": power, "input": kind, "records": k, "batch": b, "elements_checked": 5*n + 4})
	c.Count("elements", 5*n)
	// when well-formed, the result must also verify
	if kind == "well-formed" && !bad && !giant {
		if err := p1Verify("out", ""); err != nil {
			c.Violation("not-verifying", "%s: the contribution doesn't verify: %v", where, err)
		}
	}
}

// sameRatioG2 tells whether a2/b2 = a1/b1
func sameRatioG2(a2, b2 G2, a1, b1 G1) bool { return sameRatio(a1, b1, a2, b2) }

// ---------------------------------------------------------------- C03, C04

// p1Case is a forged honest ceremony
type p1Case struct {
	c     *Ctx
	power int
	base  Base
	based bool
	secs  []P1Sec
	f     *P1
	cur   Base
	oneIn int  // attacks are sampled, if larger than 1
	skip  bool // the next one isn't made
}

// draw decides whether the next attack is made
func (p *p1Case) draw() { p.skip = p.oneIn > 1 && !p.c.P(1, p.oneIn) }

func newP1Case(c *Ctx, power, k int, based bool) *p1Case {
	p := &p1Case{c: c, power: power, base: oneBase(), based: based}
	if based {
		p.base = Base{c.Fr(), c.Fr(), c.Fr()}
		mustWrite("base", srs(power, p.base).Bytes())
	}
	for i := 0; i < k; i++ {
		p.secs = append(p.secs, randP1Sec(c.Rng))
	}
	if k > 0 && c.P(1, 4) { // secrets that move no x coordinate; not all of
		// them 1, as leaving such a contribution out changes no parameter
		s := &p.secs[c.IntN(k)]
		u := c.IntN(7)
		s.T, s.A, s.B = unit(u&1 == 0), unit(u&2 == 0), unit(u&4 == 0)
		c.Count("unit_secrets", 1)
	}
	p.f = forgeP1(power, p.base, p.secs)
	p.cur = p.base.after(p.secs)
	return p
}

func (p *p1Case) basePath() string {
	if p.based {
		return "base"
	}
	return ""
}

// reject expects the verification to fail
func (p *p1Case) reject(family, detail string, b []byte) {
	if bytes.Equal(b, p.f.Bytes()) {
		return
	}
	p.rejectAgainst(family, detail, b, p.basePath())
}

func (p *p1Case) rejectAgainst(family, detail string, b []byte, base string) {
	c := p.c
	skip := p.skip
	p.draw()
	if skip {
		return
	}
	mustWrite("bad", b)
	err := p1Verify("bad", base)
	c.Eval(fmt.Sprint(family, detail, p.power, len(p.secs), p.based), true)
	c.Count(family, 1)
	if err == nil {
		c.Violation("accepted-"+family, "verification accepted a file of power %d with %d contributions where %s: %s", p.power, len(p.secs), family, detail)
		return
	}
	if isPanic(err) {
		c.Count("panics", 1)
	}
	c.State(reason(err))
	c.Sample(map[string]any{"family": family, "detail": detail, "power": p.power, "contributions": len(p.secs), "rejected_with": reason(err)})
}

func reason(err error) string {
	s := err.Error()
	if len(s) > 80 {
		s = s[:80]
	}
	return s
}

func (p *p1Case) control() bool {
	c := p.c
	mustWrite("good", p.f.Bytes())
	err := p1Verify("good", p.basePath())
	if err != nil {
		c.Inconclusive("the unmodified file of power %d is rejected (%v), so rejections mean nothing", p.power, err)
		return false
	}
	c.Count("controls_accepted", 1)
	return true
}

func init() {
	register(&Check{ID: "C03", Quick: 32, Thorough: 4000, MinEvals: 2000, Run: runC03,
		Rule: "a case is a ceremony forged with known secrets (control: it verifies) and a set of files that differ from it only in parameters; one case has power 17; each real Verify of such a file is one evaluation, distinct by (family, position, power, contributions, base)"})
	register(&Check{ID: "C04", Quick: 56, Thorough: 3000, MinEvals: 2000, Run: runC04,
		Rule: "a case is a ceremony forged with known secrets (control: it verifies) and a set of chain attacks on it, with hashes recomputed where an adversary can; each real Verify of such a file is one evaluation, distinct by (attack, record, field, power, contributions, base)"})
}

func (p *p1Case) sec1(q *P1, i int) []G1 { return [][]G1{q.TauG1, q.Alpha, q.Beta}[i] }

var secNames = []string{"TauG1", "AlphaTauG1", "BetaTauG1", "TauG2", "BetaG2"}

// mutG1 returns changed versions of a point
// unit returns -1 or 1
func unit(minus bool) Fr {
	if minus {
		return frInt(-1)
	}
	return frInt(1)
}

func mutG1(r *Rng, p, prev, next G1) (string, G1) {
	switch r.IntN(7) {
	case 0:
		return "negated", negG1(p)
	case 1:
		return "identity", G1{}
	case 2:
		return "plus generator", addG1(p, gen1)
	case 3:
		return "replaced", mulG1(gen1, r.Fr())
	case 4:
		return "its predecessor", prev
	case 5:
		return "its successor", next
	}
	return "doubled", addG1(p, p)
}

func mutG2(r *Rng, p, prev, next G2) (string, G2) {
	switch r.IntN(7) {
	case 0:
		return "negated", negG2(p)
	case 1:
		return "identity", G2{}
	case 2:
		return "plus generator", addG2(p, gen2)
	case 3:
		return "replaced", mulG2(gen2, r.Fr())
	case 4:
		return "its predecessor", prev
	case 5:
		return "its successor", next
	}
	return "doubled", addG2(p, p)
}

// giantC03 changes single elements that are more than 65535 into a section
func giantC03(c *Ctx) {
	p := newP1Case(c, 17, 1, c.Bool())
	b := []int{1 << 20, 1 << 18, 100000, 70000}[c.IntN(4)]
	setBatch1(b)
	if !p.control() {
		return
	}
	n := 1 << 17
	for s := 0; s < 4; s++ {
		q := p.f.clone()
		var how string
		i := n/2 + c.IntN(n/2-1)
		if c.P(1, 4) {
			i = n - 1
		}
		if s == 0 {
			i += n - 1
		}
		if s < 3 {
			l := p.sec1(q, s)
			how, l[i] = mutG1(c.Rng, l[i], l[i-1], gen1)
		} else {
			how, q.TauG2[i] = mutG2(c.Rng, q.TauG2[i], q.TauG2[i-1], gen2)
		}
		p.reject("wrong-element", fmt.Sprintf("%s[%d] is %s (batch %d)", secNames[s], i, how, b), q.Bytes())
	}
	// opposite errors, which equal coefficients would let pass
	q := p.f.clone()
	s, i := c.IntN(3), 2+c.IntN(4000)
	l, e := p.sec1(q, s), mulG1(gen1, c.Fr())
	l[i], l[i+65536] = addG1(l[i], e), subG1(l[i+65536], e)
	p.reject("cancelling-errors", fmt.Sprintf("%s[%d] and [%d] have opposite errors (batch %d)", secNames[s], i, i+65536, b), q.Bytes())
}

func runC03(c *Ctx) {
	if c.Giant() {
		giantC03(c)
		return
	}
	power := []int{1, 2, 3, 4, 3, 5, 2, 4}[c.Case%8]
	large := c.Case%16 == 15
	if large {
		power = 10 + c.IntN(2)
	}
	k := 1 + c.IntN(3)
	p := newP1Case(c, power, k, c.P(1, 4))
	n := 1 << power
	b := c.batch(n)
	if b > n*2 && c.Bool() {
		b = maxInt(2, n/2)
	}
	setBatch1(b)
	if !p.control() {
		return
	}
	c.Count("batch_splits", maxInt(1, (2*n-1)/b))
	rounds := 10
	if c.Thorough() {
		rounds = 20
	}
	if large {
		rounds /= 10
		c.Count("large_files", 1)
	}
	f := p.f
	lens := []int{2*n - 1, n, n, n}
	// pos favours the ends and the neighbourhood of batch boundaries
	pos := func(s int) int {
		l := lens[s]
		switch c.IntN(4) {
		case 0:
			return c.IntN(l)
		case 1:
			return minInt(l-1, c.IntN(3))
		case 2:
			return maxInt(0, l-1-c.IntN(3))
		}
		m := 1 + c.IntN(1+l/b)
		x := m*b + c.IntN(5) - 2
		if c.Bool() {
			x = m*(b-1) + c.IntN(5) - 2
		}
		if x < 0 || x >= l {
			x = c.IntN(l)
		}
		return x
	}
	for round := 0; round < rounds; round++ {
		// 1. one wrong element, every section
		for s := 0; s < 4; s++ {
			i := pos(s)
			q := f.clone()
			var how string
			if s < 3 {
				l := p.sec1(q, s)
				how, l[i] = mutG1(c.Rng, l[i], l[maxInt(0, i-1)], l[minInt(len(l)-1, i+1)])
			} else {
				l := q.TauG2
				how, l[i] = mutG2(c.Rng, l[i], l[maxInt(0, i-1)], l[minInt(len(l)-1, i+1)])
			}
			p.reject("wrong-element", fmt.Sprintf("%s[%d] is %s (batch %d)", secNames[s], i, how, b), q.Bytes())
		}
		{
			q := f.clone()
			how, x := mutG2(c.Rng, q.BetaG2, q.TauG2[1], gen2)
			q.BetaG2 = x
			p.reject("wrong-element", fmt.Sprintf("BetaG2 is %s", how), q.Bytes())
		}
		// 2. a section or its tail multiplied by a constant
		for s := 0; s < 4; s++ {
			i := pos(s)
			if c.P(1, 4) {
				i = 0
			}
			x := c.Fr()
			if c.P(1, 3) {
				x = frInt(-1)
			}
			q := f.clone()
			if s < 3 {
				l := p.sec1(q, s)
				for j := i; j < len(l); j++ {
					l[j] = mulG1(l[j], x)
				}
			} else {
				for j := i; j < n; j++ {
					q.TauG2[j] = mulG2(q.TauG2[j], x)
				}
			}
			p.reject("scaled-tail", fmt.Sprintf("%s from %d on is multiplied by a constant (batch %d)", secNames[s], i, b), q.Bytes())
		}
		// 3. a section or its tail made of powers of another secret
		for s := 0; s < 4; s++ {
			i := pos(s)
			t := c.Fr()
			if c.P(1, 3) {
				t = p.secs[c.IntN(k)].T // e.g. the last contribution's own secret
			}
			q := f.clone()
			ok := false
			if s < 3 {
				l := p.sec1(q, s)
				for j := i + 1; j < len(l); j++ {
					l[j] = mulG1(l[i], powF(t, j-i))
					ok = true
				}
			} else {
				for j := i + 1; j < n; j++ {
					q.TauG2[j] = mulG2(q.TauG2[i], powF(t, j-i))
					ok = true
				}
			}
			if ok {
				p.reject("other-secret", fmt.Sprintf("%s after %d is made of powers of another secret (batch %d)", secNames[s], i, b), q.Bytes())
			}
		}
		// 4. errors that cancel without random weights
		for s := 0; s < 4; s++ {
			p.compensate(f, s, lens[s], b)
		}
		// 5. errors that cancel between sections
		{
			s, s2 := c.IntN(3), c.IntN(3)
			if s != s2 {
				i := pos(1)
				q := f.clone()
				e := mulG1(gen1, c.Fr())
				l, l2 := p.sec1(q, s), p.sec1(q, s2)
				l[i], l2[i] = addG1(l[i], e), subG1(l2[i], e)
				p.reject("cancelling-sections", fmt.Sprintf("%s[%d] and %s[%d] have opposite errors", secNames[s], i, secNames[s2], i), q.Bytes())
			}
		}
		// 6. swapped elements and sections
		for s := 0; s < 4; s++ {
			i, j := pos(s), pos(s)
			if c.Bool() {
				j = minInt(i+1, lens[s]-1)
			}
			if i == j {
				continue
			}
			q := f.clone()
			if s < 3 {
				l := p.sec1(q, s)
				l[i], l[j] = l[j], l[i]
			} else {
				q.TauG2[i], q.TauG2[j] = q.TauG2[j], q.TauG2[i]
			}
			p.reject("swapped", fmt.Sprintf("%s[%d] and [%d] are swapped (batch %d)", secNames[s], i, j, b), q.Bytes())
		}
	}
	// whole sections
	q := f.clone()
	q.Alpha, q.Beta = q.Beta, q.Alpha
	p.reject("swapped-sections", "AlphaTauG1 and BetaTauG1", q.Bytes())
	q = f.clone()
	copy(q.Alpha, q.TauG1)
	p.reject("swapped-sections", "AlphaTauG1 is TauG1", q.Bytes())
	q = f.clone()
	copy(q.TauG1, q.Alpha)
	p.reject("swapped-sections", "TauG1 starts with AlphaTauG1", q.Bytes())
	for s := 0; s < 4; s++ {
		q := f.clone()
		if s < 3 {
			for i := range p.sec1(q, s) {
				p.sec1(q, s)[i] = G1{}
			}
		} else {
			for i := range q.TauG2 {
				q.TauG2[i] = G2{}
			}
		}
		p.reject("identity-section", secNames[s], q.Bytes())
		// all but the first elements
		q = f.clone()
		if s < 3 {
			l := p.sec1(q, s)
			for i := 2; i < len(l); i++ {
				l[i] = G1{}
			}
			if s > 0 && len(l) > 1 {
				l[1] = G1{}
			}
		} else {
			for i := 2; i < n; i++ {
				q.TauG2[i] = G2{}
			}
		}
		p.reject("identity-tail", secNames[s], q.Bytes())
	}
	q = f.clone()
	for i := range q.TauG1 {
		q.TauG1[i] = G1{}
	}
	for i := range q.Alpha {
		q.Alpha[i], q.Beta[i], q.TauG2[i] = G1{}, G1{}, G2{}
	}
	p.reject("identity-section", "all sections", q.Bytes())
	// parameters of another state of the ceremony
	for j := 0; j < k; j++ {
		q = srs(power, p.base.after(p.secs[:j]))
		q.NC, q.Recs = k, f.clone().Recs
		p.reject("other-state", fmt.Sprintf("the parameters are those after %d of %d contributions", j, k), q.Bytes())
	}
	// parameters consistent with other secrets than the chain
	for j := 0; j < 5; j++ {
		x := p.cur
		d := []string{"tau", "alpha", "beta", "tau negated", "everything"}[j]
		switch j {
		case 0:
			x.T = c.Fr()
		case 1:
			x.A = c.Fr()
		case 2:
			x.B = c.Fr()
		case 3:
			x.T = negF(x.T)
		case 4:
			x = Base{c.Fr(), c.Fr(), c.Fr()}
		}
		q = srs(power, x)
		q.NC, q.Recs = k, f.clone().Recs
		p.reject("other-srs", "a well-formed SRS with another "+d, q.Bytes())
		// only part of it
		q2 := f.clone()
		switch c.IntN(4) {
		case 0:
			q2.TauG1 = q.TauG1
		case 1:
			q2.Alpha, q2.Beta = q.Alpha, q.Beta
		case 2:
			q2.TauG2 = q.TauG2
		case 3:
			q2.TauG1, q2.TauG2 = q.TauG1, q.TauG2
		}
		p.reject("other-srs", "a part of a well-formed SRS with another "+d, q2.Bytes())
	}
	// G1 and G2 disagree
	q = srs(power, Base{p.cur.T, p.cur.A, p.cur.B})
	q.NC, q.Recs = k, f.clone().Recs
	q.BetaG2 = mulG2(gen2, c.Fr())
	p.reject("other-srs", "another beta in G2", q.Bytes())
	// points outside the group
	for j := 0; j < 4; j++ {
		q = f.clone()
		i := c.IntN(n)
		o := offSubgroupG2(c.Rng)
		cof := offSubgroupG2(c.Rng)
		cof = mulG2order(cof) // a point of the cofactor part
		d := ""
		switch j {
		case 0:
			q.TauG2[i], d = o, fmt.Sprintf("TauG2[%d] replaced", i)
		case 1:
			q.TauG2[i], d = addG2(q.TauG2[i], cof), fmt.Sprintf("TauG2[%d] moved", i)
		case 2:
			q.BetaG2, d = addG2(q.BetaG2, cof), "BetaG2 moved"
		case 3:
			q.BetaG2 = addG2(q.BetaG2, cof)
			q.Recs[k-1].Beta2 = q.BetaG2
			q.Recs[k-1].rehash()
			d = "BetaG2 moved, with its record"
		}
		p.reject("outside-subgroup", d, q.Bytes())
	}
	// encodings that aren't points
	bs := f.Bytes()
	tau, alpha, beta, tau2, _ := p1Sizes(power)
	for j := 0; j < 4; j++ {
		at := []int{tau, alpha, beta}[c.IntN(3)] + 32*c.IntN(n)
		m := append([]byte{}, bs...)
		copy(m[at:], badG1Encodings(c.Rng)[0])
		p.reject("not-a-point", fmt.Sprintf("at byte %d", at), m)
		m = append([]byte{}, bs...)
		m[tau2+64*c.IntN(n)] &= 0x3f // uncompressed flag
		p.reject("not-a-point", "flag cleared in TauG2", m)
	}
	// the power
	for _, d := range []int{-1, 1} {
		if power+d >= 1 {
			m := append([]byte{}, bs...)
			m[0] = byte(power + d)
			p.reject("power", fmt.Sprintf("power %d in the header of a file of power %d", power+d, power), m)
		}
	}
}

// mulG2order kills the part of prime order r
func mulG2order(p G2) G2 {
	r := frModulus()
	var o G2
	o.ScalarMultiplication(&p, r)
	// plain double and add: ScalarMultiplication assumes the subgroup
	acc := G2{}
	for i := r.BitLen() - 1; i >= 0; i-- {
		acc = addG2(acc, acc)
		if r.Bit(i) == 1 {
			acc = addG2(acc, p)
		}
	}
	return acc
}

// compensate makes two errors in the ratios of consecutive elements that
// cancel each other if both are given the same weight
func (p *p1Case) compensate(f *P1, s, l, b int) {
	c := p.c
	if l < 4 {
		return
	}
	// errors in the pairs (x, x+1) and (y, y+1)
	x := 1 + c.IntN(l-2)
	y := x
	switch c.IntN(4) {
	case 0:
		y = x + 1
	case 1:
		y = x + b*(1+c.IntN(2))
	case 2:
		y = x + (b-1)*(1+c.IntN(2))
	case 3:
		y = 1 + c.IntN(l-2)
	}
	if y == x || y >= l-1 {
		y = l - 2
		if x == y {
			x = 1
		}
	}
	if x == y {
		return
	}
	if x > y {
		x, y = y, x
	}
	e := c.Fr()
	q := f.clone()
	// d_{i+1} = tau d_i + err_i
	d := Fr{}
	for i := x; i < l-1; i++ {
		d = mulF(d, p.cur.T)
		if i == x {
			d = addF(d, e)
		}
		if i == y {
			d = subF(d, e)
		}
		if s < 3 {
			p.sec1(q, s)[i+1] = addG1(p.sec1(q, s)[i+1], mulG1(gen1, d))
		} else {
			q.TauG2[i+1] = addG2(q.TauG2[i+1], mulG2(gen2, d))
		}
	}
	p.reject("cancelling-errors", fmt.Sprintf("%s has opposite errors in the ratios after %d and %d (batch %d)", secNames[s], x, y, b), q.Bytes())
	// and two elements with opposite errors
	q = f.clone()
	if s < 3 {
		E := mulG1(gen1, e)
		l := p.sec1(q, s)
		l[x+1], l[y+1] = addG1(l[x+1], E), subG1(l[y+1], E)
	} else {
		E := mulG2(gen2, e)
		q.TauG2[x+1], q.TauG2[y+1] = addG2(q.TauG2[x+1], E), subG2(q.TauG2[y+1], E)
	}
	p.reject("cancelling-errors", fmt.Sprintf("%s[%d] and [%d] have opposite errors (batch %d)", secNames[s], x+1, y+1, b), q.Bytes())
}

// recFields gives access to the points of a record
func recG1(r *P1Rec) []*G1 {
	return []*G1{&r.Tau1, &r.Alpha1, &r.Beta1, &r.K[0].S, &r.K[0].SX, &r.K[1].S, &r.K[1].SX, &r.K[2].S, &r.K[2].SX}
}

func recG2(r *P1Rec) []*G2 {
	return []*G2{&r.Tau2, &r.Beta2, &r.K[0].SPX, &r.K[1].SPX, &r.K[2].SPX}
}

var recG1Names = []string{"tau1", "alpha1", "beta1", "tau.S", "tau.SX", "alpha.S", "alpha.SX", "beta.S", "beta.SX"}
var recG2Names = []string{"tau2", "beta2", "tau.SPX", "alpha.SPX", "beta.SPX"}

// relink makes the records from j on honest continuations of record j-1 (with
// its current hash), keeping absolute secrets cur[j..]
func (p *p1Case) relink(q *P1, j int, abs []Base) {
	if p.skip {
		return
	}
	for i := j; i < len(q.Recs); i++ {
		var prev []byte
		if i > 0 {
			prev = q.Recs[i-1].Hash
		}
		q.Recs[i] = makeP1Rec(abs[i].T, abs[i].A, abs[i].B, p.secs[i], prev)
	}
}

func runC04(c *Ctx) {
	power := 1 + c.IntN(2)
	k := 1 + c.Case%4
	oneIn := 1
	js := upTo(k)
	switch {
	case c.Case%19 == 18: // chains longer than a byte counts
		power, k, oneIn = 1, 254+c.IntN(6), 20
		js = c.someRecords(k, 2)
	case c.Case%9 == 4:
		power, k, oneIn = 1, 5+c.IntN(40), 12
		js = c.someRecords(k, 3)
	}
	p := newP1Case(c, power, k, c.P(1, 3))
	p.oneIn = oneIn
	if !p.control() {
		return
	}
	f := p.f
	abs := make([]Base, k)
	for i := range abs {
		abs[i] = p.base.after(p.secs[:i+1])
	}
	prevHash := func(i int) []byte {
		if i == 0 {
			return nil
		}
		return f.Recs[i-1].Hash
	}
	// params follow whatever the last record says, where the adversary can
	follow := func(q *P1) {
		q.TauG1[1] = q.Recs[len(q.Recs)-1].Tau1
	}
	_ = follow
	for _, j := range js {
		// 1. each field altered, hash kept, recomputed, and the rest relinked
		for fi := range recG1Names {
			for mode := 0; mode < 3; mode++ {
				q := f.clone()
				pt := recG1(&q.Recs[j])[fi]
				how, x := mutG1(c.Rng, *pt, gen1, *recG1(&q.Recs[j])[(fi+1)%9])
				*pt = x
				p.finishRec(q, j, mode, abs, fmt.Sprintf("%s of record %d of %d is %s", recG1Names[fi], j+1, k, how))
			}
		}
		for fi := range recG2Names {
			for mode := 0; mode < 3; mode++ {
				q := f.clone()
				pt := recG2(&q.Recs[j])[fi]
				how, x := mutG2(c.Rng, *pt, gen2, *recG2(&q.Recs[j])[(fi+1)%5])
				*pt = x
				p.finishRec(q, j, mode, abs, fmt.Sprintf("%s of record %d of %d is %s", recG2Names[fi], j+1, k, how))
			}
		}
		// 2. the hash
		for m := 0; m < 5; m++ {
			q := f.clone()
			h := q.Recs[j].Hash
			d := ""
			switch m {
			case 0:
				i := c.IntN(32)
				h[i] ^= 1 << c.IntN(8)
				d = fmt.Sprintf("byte %d flipped", i)
			case 1:
				for i := range h {
					h[i] = 0
				}
				d = "zeroed"
			case 2:
				h[31] ^= 1
				d = "last bit"
			case 3:
				h[0] ^= 0x80
				d = "first bit"
			case 4:
				copy(h, c.Bytes(32))
				d = "random"
			}
			p.reject("hash", fmt.Sprintf("hash of record %d of %d %s", j+1, k, d), q.Bytes())
			if j+1 < k {
				p.relink(q, j+1, abs)
				p.reject("hash", fmt.Sprintf("hash of record %d of %d %s, the next ones built on it", j+1, k, d), q.Bytes())
			}
		}
		// 3. wrong challenges and domains
		for m := 0; m < 6; m++ {
			q := f.clone()
			ch := prevHash(j)
			dst := []byte{1, 2, 3}
			d := ""
			switch m {
			case 0:
				if j == 0 {
					ch, d = make([]byte, 32), "zeros instead of nothing"
				} else {
					ch, d = nil, "nothing"
				}
			case 1:
				ch, d = c.Bytes(32), "random"
			case 2:
				ch, d = f.Recs[j].Hash, "its own hash"
			case 3:
				if j < 2 {
					continue
				}
				ch, d = f.Recs[j-2].Hash, "the hash before the previous one"
			case 4:
				dst, d = []byte{2, 3, 1}, "rotated domains"
			case 5:
				if j == 0 {
					continue
				}
				ch, d = append([]byte{}, ch...), "previous hash with a bit flipped"
				ch[c.IntN(32)] ^= 1
			}
			only := c.IntN(4)
			r := &q.Recs[j]
			x := []Fr{p.secs[j].T, p.secs[j].A, p.secs[j].B}
			s := []Fr{p.secs[j].ST, p.secs[j].SA, p.secs[j].SB}
			for i := 0; i < 3; i++ {
				if only == 3 || only == i {
					r.K[i] = makePK(x[i], s[i], ch, dst[i])
				}
			}
			r.rehash()
			if j+1 < k {
				p.relink(q, j+1, abs)
			}
			p.reject("challenge", fmt.Sprintf("record %d of %d proves (%d) on challenge %s", j+1, k, only, d), q.Bytes())
		}
		// 4. an update not based on the previous record, per value; the
		// parameters and the following records are consistent with it
		for v := 0; v < 5; v++ {
			q := f.clone()
			y := c.Fr()
			if c.P(1, 4) {
				y = frInt(-1)
			}
			p.brokenUpdate(q, j, v, y, abs)
		}
		// 4b. all values consistently multiplied by a secret that isn't proven
		for v := 0; v < 3; v++ {
			y := c.Fr()
			abs2 := append([]Base{}, abs...)
			for i := j; i < k; i++ {
				switch v {
				case 0:
					abs2[i].T = mulF(abs2[i].T, y)
				case 1:
					abs2[i].A = mulF(abs2[i].A, y)
				case 2:
					abs2[i].B = mulF(abs2[i].B, y)
				}
			}
			q := srs(power, abs2[k-1])
			q.NC, q.Recs = k, f.clone().Recs
			p.relink(q, j, abs2)
			p.reject("unproven-secret", fmt.Sprintf("record %d of %d multiplies %s by a secret it doesn't prove, everything after follows", j+1, k, []string{"tau", "alpha", "beta"}[v]), q.Bytes())
		}
		// 4c. the proof shows another secret than the one applied
		for v := 0; v < 3; v++ {
			q := f.clone()
			r := &q.Recs[j]
			r.K[v] = makePK(c.Fr(), c.Fr(), prevHash(j), byte(v+1))
			r.rehash()
			if j+1 < k {
				p.relink(q, j+1, abs)
			}
			p.reject("other-proof", fmt.Sprintf("record %d of %d proves another %s", j+1, k, []string{"tau", "alpha", "beta"}[v]), q.Bytes())
		}
		// 4d. a secret of 1 or -1 is applied, and the proof is about it up to
		// signs
		for v := 0; v < 3; v++ {
			for m := 0; m < 8; m++ {
				minus, sx, spx := m&1 != 0, m&2 != 0, m&4 != 0
				if !sx && !spx {
					continue
				}
				if p.skip {
					p.draw()
					continue
				}
				secs2 := append([]P1Sec{}, p.secs...)
				x := [...]*Fr{&secs2[j].T, &secs2[j].A, &secs2[j].B}[v]
				*x = unit(minus)
				q := forgeP1(power, p.base, secs2)
				k0 := &q.Recs[j].K[v]
				if sx {
					k0.SX = negG1(k0.SX)
				}
				if spx {
					k0.SPX = negG2(k0.SPX)
				}
				q.Recs[j].rehash()
				if j+1 < k {
					abs2 := make([]Base, k)
					for i := range abs2 {
						abs2[i] = p.base.after(secs2[:i+1])
					}
					p.relink(q, j+1, abs2)
				}
				p.reject("signs", fmt.Sprintf("record %d of %d applies 1 or -1 (%v) to %s and proves the opposite (%v, %v)", j+1, k, minus, []string{"tau", "alpha", "beta"}[v], sx, spx), q.Bytes())
			}
		}
		// 5. proofs exchanged between secrets
		q := f.clone()
		a, b := c.IntN(3), c.IntN(3)
		if a != b {
			q.Recs[j].K[a], q.Recs[j].K[b] = q.Recs[j].K[b], q.Recs[j].K[a]
			q.Recs[j].rehash()
			if j+1 < k {
				p.relink(q, j+1, abs)
			}
			p.reject("exchanged-proofs", fmt.Sprintf("proofs %d and %d of record %d of %d", a, b, j+1, k), q.Bytes())
		}
		// 6. degenerate proofs: a secret nobody knows is applied with proofs
		// at infinity
		for v := 0; v < 8; v++ {
			y := c.Fr()
			abs2 := append([]Base{}, abs...)
			zero := v >= 4
			for i := j; i < k; i++ {
				if zero {
					y = Fr{}
				}
				switch v % 4 {
				case 0:
					abs2[i].T = mulF(abs2[i].T, y)
				case 1:
					abs2[i].A = mulF(abs2[i].A, y)
				case 2:
					abs2[i].B = mulF(abs2[i].B, y)
				case 3:
					abs2[i] = Base{mulF(abs2[i].T, y), mulF(abs2[i].A, y), mulF(abs2[i].B, y)}
				}
			}
			for m := 0; m < 4; m++ {
				if zero && m == 3 {
					continue
				}
				if p.skip {
					p.draw()
					continue
				}
				q := srs(power, abs2[k-1])
				q.NC, q.Recs = k, f.clone().Recs
				for i := j; i < k; i++ {
					var prev []byte
					if i > 0 {
						prev = q.Recs[i-1].Hash
					}
					q.Recs[i] = makeP1Rec(abs2[i].T, abs2[i].A, abs2[i].B, p.secs[i], prev)
					if i == j || zero && m == 2 {
						for t := 0; t < 3; t++ {
							if v%4 == 3 || v%4 == t {
								switch m {
								case 0:
									q.Recs[i].K[t] = PK{}
								case 1:
									q.Recs[i].K[t].SX, q.Recs[i].K[t].SPX = G1{}, G2{}
								case 2:
									q.Recs[i].K[t].S, q.Recs[i].K[t].SX = G1{}, G1{}
									if zero {
										q.Recs[i].K[t] = PK{S: mulG1(gen1, p.secs[i].ST)}
									}
								case 3:
									q.Recs[i].K[t].SPX = G2{}
								}
							}
						}
						q.Recs[i].rehash()
					}
				}
				p.reject("degenerate-proof", fmt.Sprintf("record %d of %d, secret %d, mode %d (zero secret: %v)", j+1, k, v%4, m, zero), q.Bytes())
			}
		}
		// 7. a record dropped
		if k > 1 {
			q := f.clone()
			q.Recs = append(q.Recs[:j:j], q.Recs[j+1:]...)
			q.NC = k - 1
			p.reject("dropped", fmt.Sprintf("record %d of %d", j+1, k), q.Bytes())
			// parameters following the remaining last record
			if j == k-1 {
				q2 := srs(power, abs[k-2])
				q2.Recs, q2.NC = q.Recs, k // header says one more
				p.reject("dropped", "the last record, but not counted", q2.Bytes())
			}
			// the chain without that contributor, relinked by hash only
			q = f.clone()
			q.Recs = append(q.Recs[:j:j], q.Recs[j+1:]...)
			q.NC = k - 1
			for i := range q.Recs {
				q.Recs[i].rehash()
			}
			p.reject("dropped", fmt.Sprintf("record %d of %d, hashes recomputed", j+1, k), q.Bytes())
		}
		// 8. a record duplicated
		q = f.clone()
		q.Recs = append(q.Recs[:j+1:j+1], append([]P1Rec{q.Recs[j]}, q.Recs[j+1:]...)...)
		q.NC = k + 1
		p.reject("duplicated", fmt.Sprintf("record %d of %d", j+1, k), q.Bytes())
		// 9. reordered
		if k > 1 {
			i := c.IntN(k)
			if i != j {
				q := f.clone()
				q.Recs[i], q.Recs[j] = q.Recs[j], q.Recs[i]
				p.reject("reordered", fmt.Sprintf("records %d and %d of %d", i+1, j+1, k), q.Bytes())
			}
		}
		// 10. spliced from another ceremony
		o := newP1CaseSameBase(p)
		q = f.clone()
		q.Recs[j] = o.f.Recs[j]
		p.reject("spliced", fmt.Sprintf("record %d of %d is another ceremony's", j+1, k), q.Bytes())
		q = o.f.clone()
		copy(q.Recs[:j], f.Recs[:j])
		if j > 0 {
			p.reject("spliced", fmt.Sprintf("the first %d records of %d are another ceremony's", j, k), q.Bytes())
		}
		q = f.clone()
		copy(q.Recs[j:], o.f.Recs[j:])
		p.reject("spliced", fmt.Sprintf("records from %d of %d are another ceremony's", j+1, k), q.Bytes())
		// proof replayed from the other ceremony's contributor with the same secrets
		q = f.clone()
		q.Recs[j].K = o.f.Recs[j].K
		q.Recs[j].rehash()
		if j+1 < k {
			p.relink(q, j+1, abs)
		}
		p.reject("replayed-proof", fmt.Sprintf("in record %d of %d", j+1, k), q.Bytes())
		// an earlier contributor's proofs reused, applying the same secrets again
		if j > 0 {
			abs2 := append([]Base{}, abs...)
			secs2 := append([]P1Sec{}, p.secs...)
			secs2[j] = secs2[j-1]
			for i := j; i < k; i++ {
				abs2[i] = p.base.after(secs2[:i+1])
			}
			q := srs(power, abs2[k-1])
			q.NC, q.Recs = k, f.clone().Recs
			save := p.secs
			p.secs = secs2
			p.relink(q, j, abs2)
			q.Recs[j].K = q.Recs[j-1].K
			q.Recs[j].rehash()
			if j+1 < k {
				p.relink(q, j+1, abs2)
			}
			p.secs = save
			p.reject("replayed-proof", fmt.Sprintf("record %d of %d repeats the contribution before it", j+1, k), q.Bytes())
		}
	}
	// a chain that doesn't start at the base
	b2 := Base{c.Fr(), c.Fr(), c.Fr()}
	for m := 0; m < 4; m++ {
		b := p.base
		d := []string{"tau", "alpha", "beta", "all"}[m]
		switch m {
		case 0:
			b.T = b2.T
		case 1:
			b.A = b2.A
		case 2:
			b.B = b2.B
		case 3:
			b = b2
		}
		p.reject("other-base", "the chain starts with another "+d, forgeP1(power, b, p.secs).Bytes())
	}
	// the right file against other bases
	if p.based {
		p.rejectAgainst("base-argument", "a file made on a base verified without it", f.Bytes(), "")
		for m := 0; m < 3; m++ {
			b := p.base
			switch m {
			case 0:
				b.T = c.Fr()
			case 1:
				b.A = c.Fr()
			case 2:
				b.B = c.Fr()
			}
			mustWrite("base2", srs(power, b).Bytes())
			p.rejectAgainst("base-argument", fmt.Sprintf("verified against another base (%d)", m), f.Bytes(), "base2")
		}
		// only G2 differs
		s := srs(power, p.base)
		s.BetaG2 = mulG2(gen2, c.Fr())
		mustWrite("base2", s.Bytes())
		p.rejectAgainst("base-argument", "verified against a base with another beta in G2", f.Bytes(), "base2")
		s = srs(power, p.base)
		s.TauG2[1] = mulG2(gen2, c.Fr())
		mustWrite("base2", s.Bytes())
		p.rejectAgainst("base-argument", "verified against a base with another tau in G2", f.Bytes(), "base2")
	} else {
		mustWrite("base2", srs(power, b2).Bytes())
		p.rejectAgainst("base-argument", "a file made from scratch verified against a base", f.Bytes(), "base2")
	}
	// no contribution
	q := srs(power, p.base)
	p.reject("no-contribution", "an initial file", q.Bytes())
	q = f.clone()
	q.NC = 0
	p.reject("no-contribution", "the header says none", q.Bytes())
	q.Recs = nil
	p.reject("no-contribution", "no record", q.Bytes())
	// miscounted
	q = f.clone()
	q.NC = k + 1
	p.reject("miscounted", "one more than there are", q.Bytes())
	if k > 1 {
		q = f.clone()
		q.NC = k - 1
		p.reject("miscounted", "one less than there are", q.Bytes())
	}
}

func upTo(k int) []int {
	var l []int
	for j := 0; j < k; j++ {
		l = append(l, j)
	}
	return l
}

// someRecords picks records of a long chain: the last ones, those beside
// multiples of small numbers and powers of two, and any
func (c *Ctx) someRecords(k, n int) []int {
	l := []int{k - 1 - c.IntN(2)}
	for len(l) < n {
		j := c.IntN(k)
		switch c.IntN(3) {
		case 0:
			j = 1<<c.IntN(9) + c.IntN(3) - 1
		case 1:
			j = pick(c.Rng, []int{3, 5, 8, 10, 16, 32, 50, 64, 100, 128})*(1+c.IntN(4)) + c.IntN(3) - 1
		}
		if j < k {
			l = append(l, j)
		}
	}
	return l
}

// finishRec completes a file with an altered record j: mode 0 leaves the hash,
// 1 recomputes it, 2 also rebuilds the following records on the new hash
func (p *p1Case) finishRec(q *P1, j, mode int, abs []Base, what string) {
	if mode >= 1 {
		q.Recs[j].rehash()
	}
	if mode == 2 {
		if j+1 == len(q.Recs) {
			// the parameters follow the record where they can
			r := q.Recs[j]
			q.TauG1[1], q.Alpha[0], q.Beta[0], q.TauG2[1], q.BetaG2 = r.Tau1, r.Alpha1, r.Beta1, r.Tau2, r.Beta2
		} else {
			p.relink(q, j+1, abs)
		}
	}
	p.reject("altered-record", fmt.Sprintf("%s (mode %d)", what, mode), q.Bytes())
}

// brokenUpdate multiplies one of the five values of record j by y, without
// proof; later records and the parameters follow that value
func (p *p1Case) brokenUpdate(q *P1, j, v int, y Fr, abs []Base) {
	if p.skip {
		p.draw()
		return
	}
	k := len(q.Recs)
	for i := j; i < k; i++ {
		r := &q.Recs[i]
		switch v {
		case 0:
			r.Tau1 = mulG1(r.Tau1, y)
		case 1:
			r.Alpha1 = mulG1(r.Alpha1, y)
		case 2:
			r.Beta1 = mulG1(r.Beta1, y)
		case 3:
			r.Tau2 = mulG2(r.Tau2, y)
		case 4:
			r.Beta2 = mulG2(r.Beta2, y)
		}
		if i > j { // honest proofs on the new hash
			prev := q.Recs[i-1].Hash
			s := p.secs[i]
			r.K[0], r.K[1], r.K[2] = makePK(s.T, s.ST, prev, 1), makePK(s.A, s.SA, prev, 2), makePK(s.B, s.SB, prev, 3)
		}
		r.rehash()
	}
	// parameters in the affected group follow
	cur := p.cur
	switch v {
	case 0:
		x := srs(p.power, Base{mulF(cur.T, y), cur.A, cur.B})
		q.TauG1, q.Alpha, q.Beta = x.TauG1, x.Alpha, x.Beta
	case 1:
		q.Alpha = srs(p.power, Base{cur.T, mulF(cur.A, y), cur.B}).Alpha
	case 2:
		q.Beta = srs(p.power, Base{cur.T, cur.A, mulF(cur.B, y)}).Beta
	case 3:
		q.TauG2 = srs(p.power, Base{mulF(cur.T, y), cur.A, cur.B}).TauG2
	case 4:
		q.BetaG2 = mulG2(q.BetaG2, y)
	}
	p.reject("broken-update", fmt.Sprintf("%s from record %d of %d on isn't the previous one times the proven secret", []string{"tau1", "alpha1", "beta1", "tau2", "beta2"}[v], j+1, k), q.Bytes())
}

// newP1CaseSameBase is another ceremony from the same base
func newP1CaseSameBase(p *p1Case) *p1Case {
	o := &p1Case{c: p.c, power: p.power, base: p.base, based: p.based}
	for range p.secs {
		o.secs = append(o.secs, randP1Sec(p.c.Rng))
	}
	o.f = forgeP1(p.power, p.base, o.secs)
	return o
}

// ---------------------------------------------------------------- C20

func init() {
	register(&Check{ID: "C20", Quick: 500, Thorough: 1500, MinEvals: 300, Run: runC20,
		Rule: "a case transforms a synthesized uncompressed challenge (structured or arbitrary points) of one power to another with the real Transform and compares every byte of the five sections; then contributes on it and verifies against it and against other bases; distinct by (input power, output power, kind, what was checked)"})
}

// hugeSource transforms a source of up to the largest power, with the points
// of src at the start of each section and holes elsewhere
func (c *Ctx) hugeSource(src *P1, have int) {
	inPow := 11 + c.IntN(18)
	outPow := 1 + c.IntN(have)
	n, m := 1<<have, int64(1)<<inPow
	f, err := os.Create("huge")
	if err != nil {
		c.Abort("%v", err)
	}
	defer os.Remove("huge")
	defer f.Close()
	size := 64 + (2*m-1)*64 + m*256 + 128
	if err := f.Truncate(size); err != nil {
		c.Count("holes_unsupported", 1)
		return
	}
	whole := ppotBytes(c.Rng, src)
	at := int64(0)
	sec := func(count, width int, total int64) {
		if _, err := f.WriteAt(whole[:count*width], at); err != nil {
			c.Abort("%v", err)
		}
		whole = whole[count*width:]
		at += total * int64(width)
	}
	sec(1, 64, 1)
	sec(2*n-1, 64, 2*m-1)
	sec(n, 128, m)
	sec(n, 64, m)
	sec(n, 64, m)
	sec(1, 128, 1)
	if at != size || len(whole) != 0 {
		panic("wrong layout")
	}
	if err := try(func() error { return phase1.Transform("huge", "huge.ph1", byte(inPow), byte(outPow)) }); err != nil {
		c.Violation("transform-failed", "challenge with holes, from power %d to %d: %v", inPow, outPow, err)
		return
	}
	k := 1 << outPow
	want := &P1{Power: outPow, TauG1: src.TauG1[:2*k-1], Alpha: src.Alpha[:k], Beta: src.Beta[:k], TauG2: src.TauG2[:k], BetaG2: src.BetaG2}
	c.Eval(fmt.Sprint("huge", inPow, outPow), true)
	c.Count("sources_with_holes", 1)
	if !bytes.Equal(mustRead("huge.ph1"), want.Bytes()) {
		c.Violation("section-huge", "transforming a challenge of power %d (%d bytes) to %d gives other parameters", inPow, size, outPow)
	}
}

func runC20(c *Ctx) {
	inPow := 1 + c.Case%7
	outPow := 1 + c.IntN(inPow)
	if c.Case%11 == 10 {
		inPow = 8 + c.IntN(3)
		outPow = inPow - c.IntN(3)
	}
	large := c.Case%60 == 33
	if large {
		inPow = 11 + c.IntN(4)
		outPow = inPow - c.IntN(3)
		c.Count("large_sources", 1)
	}
	if c.Giant() {
		large, inPow = true, 17
		outPow = 17 - c.IntN(2)
	}
	nIn, n := 1<<inPow, 1<<outPow
	structured := c.Bool() && !large
	var src *P1
	base := Base{c.Fr(), c.Fr(), c.Fr()}
	kind := "structured"
	if structured {
		src = srs(inPow, base)
	} else {
		kind = "arbitrary"
		rnd := func(m int) []Fr {
			out := make([]Fr, m)
			for i := range out {
				out[i] = c.Fr()
			}
			return out
		}
		if large { // a few points, in any order
			x, y := g1s(rnd(60)...), g2s(rnd(60)...)
			src = &P1{Power: inPow, BetaG2: y[0]}
			for i := 0; i < 2*nIn-1; i++ {
				src.TauG1 = append(src.TauG1, pick(c.Rng, x))
			}
			for i := 0; i < nIn; i++ {
				src.Alpha, src.Beta, src.TauG2 = append(src.Alpha, pick(c.Rng, x)), append(src.Beta, pick(c.Rng, x)), append(src.TauG2, pick(c.Rng, y))
			}
		} else {
			src = (&p1Scalars{power: inPow, tau: rnd(2*nIn - 1), alpha: rnd(nIn), beta: rnd(nIn), t2: rnd(nIn), b2: c.Fr()}).file()
		}
	}
	mustWrite("ppot", ppotBytes(c.Rng, src))
	if c.Case%5 == 3 && !large {
		c.hugeSource(src, inPow)
	}
	if err := try(func() error { return phase1.Transform("ppot", "t.ph1", byte(inPow), byte(outPow)) }); err != nil {
		c.Violation("transform-failed", "%s challenge from power %d to %d: %v", kind, inPow, outPow, err)
		return
	}
	want := &P1{Power: outPow, TauG1: src.TauG1[:2*n-1], Alpha: src.Alpha[:n], Beta: src.Beta[:n], TauG2: src.TauG2[:n], BetaG2: src.BetaG2}
	got := mustRead("t.ph1")
	w := want.Bytes()
	tau, alpha, beta, tau2, end := p1Sizes(outPow)
	bounds := []int{0, tau, alpha, beta, tau2, end - 64, end}
	names := append([]string{"header"}, secNames...)
	if len(got) != len(w) {
		c.Violation("length", "transforming %d to %d gives %d bytes, expected %d", inPow, outPow, len(got), len(w))
		return
	}
	for i, nm := range names {
		c.Eval(fmt.Sprint(inPow, outPow, kind, nm), true)
		if !bytes.Equal(got[bounds[i]:bounds[i+1]], w[bounds[i]:bounds[i+1]]) {
			c.Violation("section-"+nm, "transforming a %s challenge of power %d to %d gives another %s", kind, inPow, outPow, nm)
			return
		}
	}
	c.Sample(map[string]any{"from": inPow, "to": outPow, "kind": kind, "bytes_compared": len(w)})
	if !structured || outPow > 8 {
		return
	}
	// contributions on it verify against it and only against it
	k := 1 + c.IntN(2)
	for i := 1; i <= k; i++ {
		in := fmt.Sprintf("%d.ph1", i-1)
		if i == 1 {
			in = "t.ph1"
		}
		if err := p1Contribute(in, fmt.Sprintf("%d.ph1", i)); err != nil {
			c.Violation("contribute-failed", "on a transformed base: %v", err)
			return
		}
	}
	last := fmt.Sprintf("%d.ph1", k)
	c.Eval(fmt.Sprint("verify", inPow, outPow, k), true)
	if err := p1Verify(last, "t.ph1"); err != nil {
		c.Violation("own-base-rejected", "%d contributions on a base of power %d don't verify against it: %v", k, outPow, err)
		return
	}
	c.Eval(fmt.Sprint("verify without", inPow, outPow, k), true)
	if p1Verify(last, "") == nil {
		c.Violation("accepted-without-base", "%d contributions on a transformed base verify without it", k)
	}
	for m := 0; m < 4; m++ {
		b := base
		switch m {
		case 0:
			b.T = c.Fr()
		case 1:
			b.A = c.Fr()
		case 2:
			b.B = c.Fr()
		case 3:
			b = oneBase()
		}
		mustWrite("ppot2", ppotBytes(c.Rng, srs(inPow, b)))
		if err := try(func() error { return phase1.Transform("ppot2", "t2.ph1", byte(inPow), byte(outPow)) }); err != nil {
			c.Violation("transform-failed", "%v", err)
			return
		}
		c.Eval(fmt.Sprint("verify against other", m, inPow, outPow, k), true)
		if p1Verify(last, "t2.ph1") == nil {
			c.Violation("accepted-other-base", "%d contributions verify against a base they weren't made on (%d)", k, m)
		}
	}
	// a ceremony from scratch doesn't verify against the base
	if try(func() error { return phase1.Initialize(byte(outPow), "i.ph1") }) == nil && p1Contribute("i.ph1", "i1.ph1") == nil {
		c.Eval(fmt.Sprint("scratch against base", inPow, outPow), true)
		if p1Verify("i1.ph1", "t.ph1") == nil {
			c.Violation("accepted-other-base", "a contribution on the initialization verifies against a transformed base")
		}
	}
}

var _ = strings.Contains
var _ = os.Stat
