package main

import (
	"bytes"
	"fmt"
	"os"

	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
)

func p2Init(ph1, r1cs, out string) error {
	return try(func() error { return phase2.Initialize(ph1, r1cs, out) })
}
func p2InitParted(ph1, session, out string, nbCons, nbR1C, batch int) error {
	return try(func() error { return phase2.InitializeFromPartedR1CS(ph1, session, out, nbCons, nbR1C, batch) })
}
func p2Contribute(in, out string) error {
	return try(func() error { return phase2.Contribute(in, out) })
}
func p2Verify(in, origin string) error {
	return try(func() error { return phase2.Verify(in, origin) })
}

// p1ForCircuit writes a phase 1 file that supports n constraints, as the end
// of a ceremony, and returns its secrets
// leave runs a command whose outputs the next one goes over, now and then
func (c *Ctx) leave(oneIn int, f func() error) {
	if c.P(1, oneIn) && f() == nil {
		c.Count("earlier_outputs_left", 1)
	}
}

// leaveInit leaves the outputs of an initialization of the same circuit (r1cs)
// over another SRS
func (c *Ctx) leaveInit(domain int, out string) {
	if domain > 128 {
		return
	}
	c.leave(4, func() error {
		mustWrite("earlier.ph1", srs(maxInt(1, log2(domain)), Base{c.Fr(), c.Fr(), c.Fr()}).Bytes())
		defer os.Remove("earlier.ph1")
		return p2Init("earlier.ph1", "r1cs", out)
	})
}

func (c *Ctx) p1ForCircuit(path string, domain int, special bool) (Base, int, string) {
	pow := maxInt(1, log2(domain))
	if domain <= 256 {
		pow += c.IntN(3)
	}
	b := Base{c.Fr(), c.Fr(), c.Fr()}
	kind := "random secrets"
	if special {
		switch c.IntN(6) {
		case 0: // tau in the domain
			w := domainGen(domain)
			b.T, kind = powF(w, c.IntN(domain)), "tau in the domain"
		case 1:
			w := domainGen(2 * domain)
			b.T, kind = powF(w, 1+2*c.IntN(domain)), "tau of order 2n"
		case 2:
			b.T, kind = frInt(-1), "tau -1"
		case 3:
			b, kind = oneBase(), "no secrets"
		case 4:
			b.A, kind = b.B, "alpha = beta"
		case 5:
			b.A, b.B, kind = b.T, frInt(1), "alpha = tau"
		}
	}
	k := c.IntN(3)
	f := srs(pow, b)
	var secs []P1Sec
	for i := 0; i < k; i++ {
		secs = append(secs, randP1Sec(c.Rng))
	}
	f.Recs, f.NC = chain(oneBase(), secs), k
	mustWrite(path, f.Bytes())
	return b, pow, kind
}

// ---------------------------------------------------------------- C05

func init() {
	register(&Check{ID: "C05", Quick: 400, Thorough: 4000, MinEvals: 500, Run: runC05,
		Rule: "a case initializes phase 2 with the real Initialize for a random circuit (random R1CS or compiled program, with and without commitments, sizes around powers of two) over an SRS with known secrets (random or special, of the exact or a larger power), and compares header, Z, PKK and every element of evals and srs.lag with those computed in the exponent; distinct by (circuit, secrets kind, section)"})
	register(&Check{ID: "C06", Quick: 110, Thorough: 2500, MinEvals: 300, Run: runC06,
		Rule: "a case initializes phase 2 twice for the same circuit, from the whole R1CS file and from its parts (part sizes from one constraint to everything; lazified, committed and random circuits), compares the three outputs byte for byte and the parted one with the exponents; distinct by (circuit, part size, output)"})
}

// anyCirc returns a random circuit of at most about max constraints
func (c *Ctx) anyCirc(max int) *Circ {
	switch c.IntN(6) {
	case 0, 1:
		return randProg(c.Rng, c.P(1, 2), 0).circ()
	case 2:
		if max >= 700 {
			p := randProg(c.Rng, c.P(1, 4), 1+c.IntN(2))
			p.Lazy = c.P(3, 4)
			return p.circ()
		}
	}
	return rawCirc(randRawOpts(c.Rng, max))
}

func runC05(c *Ctx) {
	max := 70
	if c.Case%20 == 7 {
		max = 700
	}
	if c.Case%130 == 57 {
		max = 4000
	}
	k := c.anyCirc(max)
	if c.Giant() {
		k = c.wideCirc()
	}
	cs := k.write("r1cs")
	n := nextPow2(cs.GetNbConstraints())
	b, pow, kind := c.p1ForCircuit("ph1", n, c.P(1, 3))
	setBatch2(c.batch(n))
	where := fmt.Sprintf("%s; SRS of power %d, %s", k.Name, pow, kind)
	c.leaveInit(n, "0.ph2")
	if err := p2Init("ph1", "r1cs", "0.ph2"); err != nil {
		c.Violation("init-failed", "%s: %v", where, err)
		return
	}
	R := reference(cs, b)
	c.compareP2(where, R, b, mustRead("0.ph2"), mustRead("evals"), mustRead("srs.lag"))
	c.Sample(map[string]any{"circuit": k.Name, "srs": kind, "power": pow, "header": R.H})
	// an SRS that is too small is refused
	if n > 2 && c.P(1, 3) {
		s := srs(log2(n)-1, b)
		mustWrite("small", s.Bytes())
		c.Eval(fmt.Sprint("too small", n, cs.GetNbConstraints()), true)
		if cs.GetNbConstraints() > n/2 && p2Init("small", "r1cs", "x.ph2") == nil {
			c.Violation("small-srs-accepted", "%d constraints were accepted for an SRS of power %d", cs.GetNbConstraints(), log2(n)-1)
		}
	}
}

func runC06(c *Ctx) {
	max := 70
	var k *Circ
	switch c.Case % 4 {
	case 0:
		p := randProg(c.Rng, c.P(1, 4), 1+c.IntN(3))
		p.Lazy = c.P(4, 5)
		k = p.circ()
	case 1:
		k = randProg(c.Rng, true, 0).circ()
	default:
		if c.Case%40 == 23 {
			max = 2500
		}
		k = rawCirc(randRawOpts(c.Rng, max))
	}
	if c.Giant() {
		k = c.wideCirc()
	}
	cs := k.write("r1cs")
	nc, nr := cs.GetNbConstraints(), cs.GetNbR1C()
	n := nextPow2(nc)
	b, _, _ := c.p1ForCircuit("ph1", n, false)
	if err := p2Init("ph1", "r1cs", "a.ph2"); err != nil {
		c.Violation("init-failed", "%s: %v", k.Name, err)
		return
	}
	var a [3][]byte
	files := []string{"a.ph2", "evals", "srs.lag"}
	for i, f := range files {
		a[i] = mustRead(f)
		os.Remove(f)
	}
	bs := 1 + c.IntN(nr+2)
	switch c.IntN(5) {
	case 0:
		bs = 100000
	case 1:
		bs = nr
	case 2:
		bs = maxInt(1, nr-1)
	}
	if nr/bs > 200 {
		bs = nr/200 + 1
	}
	cs2 := k.Build()
	if err := cs2.SplitDumpBinary("Foo", bs); err != nil {
		c.Abort("SplitDumpBinary: %v", err)
	}
	where := fmt.Sprintf("%s in parts of %d", k.Name, bs)
	if err := p2InitParted("ph1", "Foo", "b.ph2", nc, nr, bs); err != nil {
		c.Violation("parted-init-failed", "%s: %v", where, err)
		return
	}
	files[0] = "b.ph2"
	same := true
	for i, f := range files {
		c.Eval(fmt.Sprint(where, f), true)
		if !bytes.Equal(a[i], mustRead(f)) {
			same = false
			c.Violation("differs-"+[]string{"ph2", "evals", "lag"}[i], "%s: %s differs from the one initialized from the whole file", where, f)
		}
	}
	R := reference(cs, b)
	if same {
		c.compareP2("parted "+where, R, b, mustRead("b.ph2"), mustRead("evals"), nil)
	}
	c.Sample(map[string]any{"circuit": k.Name, "part_size": bs, "parts": (nr + bs - 1) / bs, "lazy_constraints": nc - nr})
	c.Count("lazy_constraints", nc-nr)
	// a wrong number of constraints never gives a file for another circuit
	if c.P(1, 2) {
		for _, d := range []int{-1, 1} {
			if nc+d < 0 {
				continue
			}
			c.Eval(fmt.Sprint(where, "wrong count", d), true)
			if err := p2InitParted("ph1", "Foo", "c.ph2", nc+d, nr, bs); err == nil {
				c.Violation("wrong-count-accepted", "%s: initialization accepted %d constraints instead of %d", where, nc+d, nc)
			}
		}
	}
	// an SRS that is too small is refused
	if n > 2 && c.P(1, 3) {
		mustWrite("small", srs(log2(n)-1, b).Bytes())
		c.Eval(fmt.Sprint("too small", n, nc), true)
		if p2InitParted("small", "Foo", "x.ph2", nc, nr, bs) == nil {
			c.Violation("small-srs-accepted", "%d constraints were accepted for an SRS of power %d", nc, log2(n)-1)
		}
	}
}

// ---------------------------------------------------------------- C07

func init() {
	register(&Check{ID: "C07", Quick: 3000, Thorough: 9000, MinEvals: 1000, Run: runC07,
		Rule: "a case is one real phase 2 Contribute on an input whose scalars the monitor knows (all sizes of Z and PKK including none, identity elements, 0-3 earlier records); the monitor divides the known scalars out of the output and checks that what remains is the same 1/delta everywhere; distinct by (domain, witness, records, batch, section)"})
}

func randP2Scalars(r *Rng, kind string) *P2Scalars {
	n := 2 << r.IntN(6)
	w := r.IntN(60)
	if kind == "large" {
		n, w = 4096<<r.IntN(2), r.IntN(6000)
	}
	if kind == "giant" {
		n, w = 131072, 66000+r.IntN(20000)
		s := &P2Scalars{D: frInt(1)}
		s.H = Header{Wires: w + 3, Witness: w, Public: 2, Constraints: n - r.IntN(n/2), Domain: n}
		for i := 0; i < n-1; i++ {
			s.Z = append(s.Z, r.Fr())
		}
		for i := 0; i < w; i++ {
			s.PKK = append(s.PKK, r.Fr())
		}
		return s
	}
	switch r.IntN(6) {
	case 0:
		w = 0
	case 1:
		w = 1
	}
	s := &P2Scalars{D: frInt(1)}
	s.H = Header{Wires: w + 3 + r.IntN(5), Witness: w, Public: 1 + r.IntN(3), PrivateCommitted: 0, Constraints: n - r.IntN(maxInt(1, n/2)), Domain: n}
	if r.P(1, 3) {
		s.H.PrivateCommitted = 1 + r.IntN(2)
	}
	for i := 0; i < n-1; i++ {
		s.Z = append(s.Z, r.Fr())
	}
	for i := 0; i < w; i++ {
		x := r.Fr()
		if kind == "identities" && r.P(1, 4) {
			x = Fr{}
		}
		s.PKK = append(s.PKK, x)
	}
	if kind == "neighbours" { // equal or opposite to the one before
		for _, l := range [][]Fr{s.Z, s.PKK} {
			for i := 1; i < len(l); i++ {
				switch r.IntN(4) {
				case 0:
					l[i] = l[i-1]
				case 1:
					l[i] = mulF(frInt(-1), l[i-1])
				case 2:
					if i > 1 {
						l[i] = mulF(unit(r.Bool()), l[i-2])
					}
				}
			}
		}
	}
	return s
}

func runC07(c *Ctx) {
	kind := []string{"plain", "identities", "neighbours"}[c.IntN(3)]
	if c.Case%600 == 599 {
		kind = "large"
	}
	giant := c.Giant()
	if giant {
		kind = "giant"
	}
	s := randP2Scalars(c.Rng, kind)
	if c.P(1, 2) {
		s.D = c.Fr()
	}
	k := c.IntN(4)
	var secs []P2Sec
	for i := 0; i < k; i++ {
		secs = append(secs, randP2Sec(c.Rng))
	}
	s.H.Contributions = k
	in := s.file()
	in.Recs = chain2(frInt(1), secs)
	mustWrite("in", in.Bytes())
	b := c.batch(maxInt(s.H.Domain-1, s.H.Witness))
	if giant {
		b = []int{1 << 20, 100000, 70000, 131071}[c.IntN(4)]
	}
	setBatch2(b)
	where := fmt.Sprintf("input with Z of %d, PKK of %d (%s), %d records, batch %d", len(s.Z), len(s.PKK), kind, k, b)
	if !giant {
		c.leave(6, func() error { return p2Contribute("in", "out") })
	}
	if err := p2Contribute("in", "out"); err != nil {
		c.Violation("contribute-failed", "%s: %v", where, err)
		return
	}
	o, err := readP2("out")
	if err != nil {
		c.Violation("output-unreadable", "%s: %v", where, err)
		return
	}
	check := func(name string, ok bool, detail string) {
		c.Eval(fmt.Sprint(s.H.Domain, s.H.Witness, k, b, name), true)
		if !ok {
			c.Violation("not-"+name, "%s: %s %s", where, name, detail)
		}
	}
	h := s.H
	h.Contributions++
	check("header", o.H == h, fmt.Sprintf("%+v, expected %+v", o.H, h))
	d := mulG1(o.D1, invF(s.D))
	dG2 := mulG2(o.D2, invF(s.D))
	check("fresh-delta", !d.IsInfinity() && !d.Equal(&gen1), "is trivial")
	check("delta-same-in-both-groups", sameRatio(d, gen1, dG2, gen2), "")
	// 1/delta from the first element of Z
	inv := mulG1(o.Z[0], invF(s.Z[0]))
	check("Z[0]", sameRatio(gen1, inv, dG2, gen2), "isn't divided by delta")
	sec := func(name string, p []G1, sc []Fr) {
		var l []G1
		var w []Fr
		var sum Fr
		okInf := true
		for i := range p {
			if sc[i].IsZero() {
				okInf = okInf && p[i].IsInfinity()
				continue
			}
			var r Fr
			r.SetBytes(c.Bytes(16))
			l, w = append(l, p[i]), append(w, mulF(r, invF(sc[i])))
			sum = addF(sum, r)
		}
		got, want := msm1(l, w), mulG1(inv, sum)
		ok := got.Equal(&want)
		detail := ""
		if !ok {
			for i := range p {
				if !sc[i].IsZero() {
					x := mulG1(p[i], invF(sc[i]))
					if !x.Equal(&inv) {
						detail = fmt.Sprintf("element %d isn't divided by delta", i)
						break
					}
				}
			}
		}
		check(name, ok && okInf, detail)
	}
	sec("Z", o.Z, s.Z)
	sec("PKK", o.PKK, s.PKK)
	r := o.Recs[len(o.Recs)-1]
	var prev []byte
	if k > 0 {
		prev = in.Recs[k-1].Hash
	}
	check("record-delta", r.Delta.Equal(&o.D1), "isn't the parameter")
	sp := hashToSP(r.K.S, r.K.SX, prev, 1)
	check("proof", !r.K.S.IsInfinity() && sameRatio(d, gen1, r.K.SPX, sp) && sameRatio(r.K.SX, r.K.S, r.K.SPX, sp), "doesn't prove the delta that was applied")
	check("record-hash", bytes.Equal(r.Hash, sha(r.body())), "")
	for i := 0; i < k; i++ {
		check("old-record", bytes.Equal(o.Recs[i].bytes(), in.Recs[i].bytes()), fmt.Sprintf("%d was changed", i))
	}
	c.Unique("secret", put1(nil, d))
	c.Unique("proof-randomness", put1(nil, r.K.S))
	c.Count("elements", len(s.Z)+len(s.PKK))
	c.Sample(map[string]any{"z": len(s.Z), "pkk": len(s.PKK), "records": k, "batch": b})
}

// ---------------------------------------------------------------- C08

func init() {
	register(&Check{ID: "C08", Quick: 300, Thorough: 3000, MinEvals: 300, Run: runC08,
		Rule: "a case is an honest phase 2 ceremony through the real Initialize (whole or parted), Contribute and Verify for a random circuit, including ones without private wires and with commitments; every verification of a prefix is one evaluation, distinct by (circuit, contribution, batch sizes, secret kind)"})
}

func runC08(c *Ctx) {
	k := c.anyCirc(70)
	if c.Case%25 == 13 {
		k = c.anyCirc(700)
	}
	cs := k.write("r1cs")
	n := nextPow2(cs.GetNbConstraints())
	_, _, kind := c.p1ForCircuit("ph1", n, c.P(1, 5))
	var err error
	how := "whole"
	if c.P(1, 4) {
		how = "parted"
		nc, nr := cs.GetNbConstraints(), cs.GetNbR1C()
		bs := maxInt(1, nr/(1+c.IntN(4)))
		if err := k.Build().SplitDumpBinary("Foo", bs); err != nil {
			c.Abort("SplitDumpBinary: %v", err)
		}
		err = p2InitParted("ph1", "Foo", "0.ph2", nc, nr, bs)
	} else {
		err = p2Init("ph1", "r1cs", "0.ph2")
	}
	if err != nil {
		c.Violation("init-failed", "%s: %v", k.Name, err)
		return
	}
	m := 1 + c.IntN(4)
	switch {
	case c.Case%150 == 3:
		m = 257 + c.IntN(50) // the counter takes two bytes
	case c.Case%40 == 22:
		m = 5 + c.IntN(20)
	}
	for i := 1; i <= m; i++ {
		in, out := fmt.Sprintf("%d.ph2", i-1), fmt.Sprintf("%d.ph2", i)
		bc, bv := c.batch(n), c.batch(n)
		setBatch2(bc)
		what := "random"
		var err error
		if c.P(1, 8) {
			x := specialScalars(c.Rng)
			what = "special " + x.String()
			err = withSpecial([]Fr{x}, func() error { return p2Contribute(in, out) })
			if err != nil && !isPanic(err) {
				what = "random"
				err = p2Contribute(in, out)
			}
		} else {
			err = p2Contribute(in, out)
		}
		if err != nil {
			c.Violation("contribute-failed", "%s, contribution %d, batch %d: %v", k.Name, i, bc, err)
			return
		}
		if m > 50 && i%64 != 0 && i != 255 && i != 257 && i != m {
			continue
		}
		setBatch2(bv)
		err = p2Verify(out, "0.ph2")
		c.Eval(fmt.Sprint(k.Name, i, bc, bv, what), true)
		c.Sample(map[string]any{"circuit": k.Name, "init": how, "contribution": i, "contribute_batch": bc, "verify_batch": bv, "delta": what})
		if err != nil {
			c.Violation("honest-rejected", "%s (%s; %s), contribution %d (delta %s), contribute batch %d, verify batch %d: %v", k.Name, how, kind, i, what, bc, bv, err)
			return
		}
	}
	c.Count("contributions", m)
}

// ---------------------------------------------------------------- C09, C10

type p2Case struct {
	c     *Ctx
	o     *P2Scalars // origin
	secs  []P2Sec
	f     *P2
	org   *P2
	d     Fr
	oneIn int  // attacks are sampled, if larger than 1
	skip  bool // the next one isn't made
}

// draw decides whether the next attack is made
func (p *p2Case) draw() { p.skip = p.oneIn > 1 && !p.c.P(1, p.oneIn) }

func (p *p2Case) build() {
	p.d = frInt(1)
	for i := range p.secs {
		p.d = mulF(p.d, p.secs[i].D)
	}
	p.f = p.o.scaled(p.d).file()
	p.f.Recs = chain2(p.o.D, p.secs)
	p.f.H.Contributions = len(p.secs)
}

func newP2Case(c *Ctx, k int) *p2Case {
	return newP2CaseOf(c, k, []string{"plain", "identities", "neighbours"}[c.IntN(3)])
}

func newP2CaseOf(c *Ctx, k int, kind string) *p2Case {
	p := &p2Case{c: c, o: randP2Scalars(c.Rng, kind)}
	for i := 0; i < k; i++ {
		p.secs = append(p.secs, randP2Sec(c.Rng))
	}
	if k > 0 && c.P(1, 4) { // not 1: leaving that out changes no parameter
		p.secs[c.IntN(k)].D = frInt(-1)
		c.Count("unit_secrets", 1)
	}
	p.org = p.o.file()
	mustWrite("origin", p.org.Bytes())
	p.build()
	return p
}

func (p *p2Case) reject(family, detail string, q *P2) { p.rejectBytes(family, detail, q.Bytes()) }

func (p *p2Case) rejectBytes(family, detail string, b []byte) {
	if bytes.Equal(b, p.f.Bytes()) {
		return
	}
	p.rejectAgainst(family, detail, b, "origin")
}

func (p *p2Case) rejectAgainst(family, detail string, b []byte, origin string) {
	c := p.c
	skip := p.skip
	p.draw()
	if skip {
		return
	}
	mustWrite("bad", b)
	err := p2Verify("bad", origin)
	h := p.f.H
	c.Eval(fmt.Sprint(family, detail, h.Domain, h.Witness, len(p.secs)), true)
	c.Count(family, 1)
	if err == nil {
		c.Violation("accepted-"+family, "verification accepted a file with Z of %d, PKK of %d and %d contributions where %s: %s", h.Domain-1, h.Witness, len(p.secs), family, detail)
		return
	}
	if isPanic(err) {
		c.Count("panics", 1)
	}
	c.State(reason(err))
	c.Sample(map[string]any{"family": family, "detail": detail, "z": h.Domain - 1, "pkk": h.Witness, "contributions": len(p.secs), "rejected_with": reason(err)})
}

func (p *p2Case) control() bool {
	mustWrite("good", p.f.Bytes())
	if err := p2Verify("good", "origin"); err != nil {
		p.c.Inconclusive("the unmodified file is rejected (%v), so rejections mean nothing", err)
		return false
	}
	p.c.Count("controls_accepted", 1)
	return true
}

func init() {
	register(&Check{ID: "C09", Quick: 160, Thorough: 3000, MinEvals: 1500, Run: runC09,
		Rule: "a case is a phase 2 ceremony forged with known scalars (control: it verifies) and a set of files that differ from it only in parameters or counts, or other origins; each real Verify is one evaluation, distinct by (family, position, sizes, contributions)"})
	register(&Check{ID: "C10", Quick: 100, Thorough: 3000, MinEvals: 1500, Run: runC10,
		Rule: "a case is a phase 2 ceremony forged with known scalars (control: it verifies) and a set of chain attacks on it, with hashes recomputed where an adversary can; each real Verify is one evaluation, distinct by (attack, record, field, sizes, contributions)"})
}

// giantC09 changes single elements that are more than 65535 into a section
func giantC09(c *Ctx) {
	p := newP2CaseOf(c, 1, "giant")
	b := []int{1 << 20, 131071, 100000, 70000}[c.IntN(4)]
	setBatch2(b)
	if !p.control() {
		return
	}
	for j := 0; j < 6; j++ {
		q := p.f.clone()
		l, name := q.Z, "Z"
		if j%2 == 1 {
			l, name = q.PKK, "PKK"
		}
		if j >= 4 { // opposite errors, which equal coefficients would let pass
			i := c.IntN(400)
			e := mulG1(gen1, c.Fr())
			l[i], l[i+65536] = addG1(l[i], e), subG1(l[i+65536], e)
			p.reject("cancelling-errors", fmt.Sprintf("%s[%d] and [%d] have opposite errors (batch %d)", name, i, i+65536, b), q)
			continue
		}
		i := 65536 + c.IntN(len(l)-65537)
		if c.P(1, 4) {
			i = len(l) - 1
		}
		var how string
		how, l[i] = mutG1(c.Rng, l[i], l[i-1], gen1)
		p.reject("wrong-element", fmt.Sprintf("%s[%d] is %s (batch %d)", name, i, how, b), q)
	}
}

func runC09(c *Ctx) {
	if c.Giant() {
		giantC09(c)
		return
	}
	k := 1 + c.IntN(3)
	large := c.Case%40 == 39
	var p *p2Case
	if large {
		p = newP2CaseOf(c, k, "large")
		c.Count("large_files", 1)
	} else {
		p = newP2Case(c, k)
	}
	nz, nw := len(p.o.Z), len(p.o.PKK)
	b := c.batch(maxInt(nz, nw))
	if b > maxInt(nz, nw) && c.P(2, 3) {
		b = maxInt(2, nz/2)
	}
	if large && b < nz/2 { // the coefficients are drawn for all elements in every batch
		b = nz/2 + c.IntN(nz/2)
	}
	setBatch2(b)
	if !p.control() {
		return
	}
	f := p.f
	get := func(q *P2, s int) []G1 {
		if s == 0 {
			return q.Z
		}
		return q.PKK
	}
	names := []string{"Z", "PKK"}
	pos := func(l int) int {
		switch c.IntN(4) {
		case 0:
			return c.IntN(l)
		case 1:
			return minInt(l-1, c.IntN(3))
		case 2:
			return maxInt(0, l-1-c.IntN(3))
		}
		x := b*(1+c.IntN(1+l/b)) + c.IntN(5) - 2
		if x < 0 || x >= l {
			x = c.IntN(l)
		}
		return x
	}
	rounds := 10
	if c.Thorough() {
		rounds = 20
	}
	if large {
		rounds /= 5
	}
	for round := 0; round < rounds; round++ {
		for s := 0; s < 2; s++ {
			l := len(get(f, s))
			if l == 0 {
				continue
			}
			i := pos(l)
			q := f.clone()
			x := get(q, s)
			var how string
			how, x[i] = mutG1(c.Rng, x[i], x[maxInt(0, i-1)], x[minInt(l-1, i+1)])
			p.reject("wrong-element", fmt.Sprintf("%s[%d] is %s (batch %d)", names[s], i, how, b), q)

			i = pos(l)
			if c.P(1, 4) {
				i = 0
			}
			m := c.Fr()
			if c.P(1, 3) {
				m = frInt(-1)
			}
			q = f.clone()
			x = get(q, s)
			for j := i; j < l; j++ {
				x[j] = mulG1(x[j], m)
			}
			p.reject("scaled-tail", fmt.Sprintf("%s from %d on is multiplied by a constant (batch %d)", names[s], i, b), q)

			if l >= 2 {
				i := c.IntN(l)
				j := i
				switch c.IntN(4) {
				case 0:
					j = i + 1
				case 1, 2:
					j = i + b*(1+c.IntN(2))
				case 3:
					j = c.IntN(l)
				}
				if j == i || j >= l {
					i, j = 0, l-1
				}
				e := mulG1(gen1, c.Fr())
				q = f.clone()
				x = get(q, s)
				x[i], x[j] = addG1(x[i], e), subG1(x[j], e)
				p.reject("cancelling-errors", fmt.Sprintf("%s[%d] and [%d] have opposite errors (batch %d)", names[s], i, j, b), q)
				q = f.clone()
				x = get(q, s)
				x[i], x[j] = x[j], x[i]
				p.reject("swapped", fmt.Sprintf("%s[%d] and [%d] (batch %d)", names[s], i, j, b), q)
			}
			// one batch of another state
			q = f.clone()
			x = get(q, s)
			old := get(p.org, s)
			st := b * c.IntN(1+l/b)
			for j := st; j < minInt(l, st+b); j++ {
				x[j] = old[j]
			}
			p.reject("not-updated", fmt.Sprintf("%s from %d to %d is the origin's", names[s], st, st+b), q)
		}
		if nw > 0 {
			i, j := pos(nz), pos(nw)
			if c.Bool() {
				j = minInt(i, nw-1)
			}
			e := mulG1(gen1, c.Fr())
			q := f.clone()
			q.Z[i], q.PKK[j] = addG1(q.Z[i], e), subG1(q.PKK[j], e)
			p.reject("cancelling-sections", fmt.Sprintf("Z[%d] and PKK[%d] have opposite errors", i, j), q)
			q = f.clone()
			x := c.Fr()
			for j := range q.Z {
				q.Z[j] = mulG1(q.Z[j], x)
			}
			for j := range q.PKK {
				q.PKK[j] = mulG1(q.PKK[j], invF(x))
			}
			p.reject("cancelling-sections", "Z and PKK multiplied by inverse constants", q)
			q = f.clone()
			q.Z[i], q.PKK[j] = q.PKK[j], q.Z[i]
			p.reject("swapped", fmt.Sprintf("Z[%d] and PKK[%d]", i, j), q)
		}
	}
	if nw == nz && nw > 0 {
		q := f.clone()
		q.Z, q.PKK = q.PKK, q.Z
		p.reject("swapped", "Z and PKK", q)
	}
	// whole sections
	for s := 0; s < 2; s++ {
		l := len(get(f, s))
		if l == 0 {
			continue
		}
		q := f.clone()
		for i := range get(q, s) {
			get(q, s)[i] = G1{}
		}
		p.reject("identity-section", names[s], q)
		q = f.clone()
		for i := range get(q, s) {
			get(q, s)[i] = get(q, s)[0]
		}
		p.reject("repeated-section", names[s], q)
		for j := 0; j < k; j++ {
			d := frInt(1)
			for i := 0; i < j; i++ {
				d = mulF(d, p.secs[i].D)
			}
			q = f.clone()
			copy(get(q, s), get(p.o.scaled(d).file(), s))
			p.reject("other-state", fmt.Sprintf("%s is that after %d of %d contributions", names[s], j, k), q)
		}
		q = f.clone() // multiplied instead of divided
		copy(get(q, s), get(p.o.scaled(invF(p.d)).file(), s))
		p.reject("multiplied", names[s], q)
	}
	// delta
	y := c.Fr()
	for m := 0; m < 9; m++ {
		q := f.clone()
		d := ""
		switch m {
		case 0:
			q.D1, d = mulG1(q.D1, y), "delta1 is another"
		case 1:
			q.D2, d = mulG2(q.D2, y), "delta2 is another"
		case 2:
			q.D1, q.D2, d = mulG1(q.D1, y), mulG2(q.D2, y), "both deltas are another"
		case 3:
			q.D1, d = G1{}, "delta1 is the identity"
		case 4:
			q.D2, d = G2{}, "delta2 is the identity"
		case 5:
			q.D1, q.D2, d = G1{}, G2{}, "both deltas are the identity"
		case 6:
			q.D1, q.D2, d = gen1, gen2, "both deltas are one"
		case 7:
			q.D1, q.D2, d = negG1(q.D1), negG2(q.D2), "both deltas are negated"
		case 8:
			q.D1, q.D2, d = mulG1(q.D1, y), mulG2(q.D2, invF(y)), "the deltas are multiplied by inverses"
		}
		p.reject("delta", d, q)
		// the parameters follow what delta2 or delta1 says
		if m == 1 || m == 2 || m == 8 {
			yy := y
			if m == 8 {
				yy = invF(y)
			}
			for i := range q.Z {
				q.Z[i] = mulG1(q.Z[i], invF(yy))
			}
			for i := range q.PKK {
				q.PKK[i] = mulG1(q.PKK[i], invF(yy))
			}
			p.reject("delta", d+", parameters follow", q)
		}
		if m == 5 {
			for i := range q.Z {
				q.Z[i] = G1{}
			}
			for i := range q.PKK {
				q.PKK[i] = G1{}
			}
			p.reject("delta", d+", parameters are identities", q)
			q.Recs[k-1].Delta = G1{}
			q.Recs[k-1].rehash()
			p.reject("delta", d+", parameters and record are identities", q)
		}
		if m == 6 {
			q2 := p.org.clone()
			q2.H.Contributions, q2.Recs = k, q.Recs
			p.reject("delta", "everything but the records is the origin's", q2)
		}
		if m == 7 {
			for i := range q.Z {
				q.Z[i] = negG1(q.Z[i])
			}
			for i := range q.PKK {
				q.PKK[i] = negG1(q.PKK[i])
			}
			p.reject("delta", "everything is negated", q)
		}
	}
	// counts in the header
	for m := 0; m < 6; m++ {
		for _, d := range []int{-1, 1} {
			q := f.clone()
			h := &q.H
			nm := ""
			switch m {
			case 0:
				h.Wires += d
				nm = "wires"
			case 1:
				h.Witness += d
				nm = "witness"
			case 2:
				h.Public += d
				nm = "public"
			case 3:
				h.PrivateCommitted += d
				nm = "committed"
			case 4:
				h.Constraints += d
				nm = "constraints"
			case 5:
				if d < 0 {
					h.Domain /= 2
				} else {
					h.Domain *= 2
				}
				nm = "domain"
			}
			p.reject("count", fmt.Sprintf("%s %+d, same content", nm, d), q)
			// content to match
			switch {
			case m == 1 && d < 0 && nw > 0:
				q.PKK = q.PKK[:nw-1]
				p.reject("count", "witness -1, one element less", q)
			case m == 1 && d > 0:
				q.PKK = append(q.PKK, gen1)
				p.reject("count", "witness +1, one element more", q)
				q.PKK[nw] = G1{}
				p.reject("count", "witness +1, one identity more", q)
			case m == 5 && d < 0 && h.Domain >= 2:
				q.Z = q.Z[:h.Domain-1]
				p.reject("count", "domain halved, Z too", q)
			case m == 5 && d > 0:
				for len(q.Z) < h.Domain-1 {
					q.Z = append(q.Z, G1{})
				}
				p.reject("count", "domain doubled, Z padded", q)
			}
		}
	}
	// other origins
	for m := 0; m < 9; m++ {
		o2 := p.org.clone()
		d := ""
		switch m {
		case 0:
			i := pos(nz)
			o2.Z[i], d = addG1(o2.Z[i], gen1), fmt.Sprintf("Z[%d] differs", i)
		case 1:
			if nw == 0 {
				continue
			}
			i := pos(nw)
			o2.PKK[i], d = addG1(o2.PKK[i], gen1), fmt.Sprintf("PKK[%d] differs", i)
		case 2:
			o2, d = applyP2(p.org, p.secs[:1]), "the file after one contribution"
			if k == 1 {
				o2.H.Contributions = 1
			}
		case 3:
			o2.H.Public, d = o2.H.Public+1, "another number of public wires"
		case 4:
			o2.H.Constraints, d = o2.H.Constraints-1, "another number of constraints"
		case 5:
			o2.H.Wires, d = o2.H.Wires+1, "another number of wires"
		case 6:
			o2.H.PrivateCommitted, d = o2.H.PrivateCommitted+1, "another number of committed wires"
		case 7:
			o2.D1, o2.D2, d = mulG1(gen1, y), mulG2(gen2, y), "another delta"
		case 8:
			o3 := randP2Scalars(c.Rng, "plain")
			o3.H = p.o.H
			o3.Z, o3.PKK = nil, nil
			for range p.o.Z {
				o3.Z = append(o3.Z, c.Fr())
			}
			for range p.o.PKK {
				o3.PKK = append(o3.PKK, c.Fr())
			}
			o2, d = o3.file(), "another circuit of the same size"
		}
		mustWrite("origin2", o2.Bytes())
		p.rejectAgainst("other-origin", d, f.Bytes(), "origin2")
	}
	p.rejectAgainst("other-origin", "itself", f.Bytes(), "good")
	// points outside the group, and things that aren't points
	for m := 0; m < 3; m++ {
		q := f.clone()
		cof := mulG2order(offSubgroupG2(c.Rng))
		switch m {
		case 0:
			q.D2 = offSubgroupG2(c.Rng)
		case 1:
			q.D2 = addG2(q.D2, cof)
		case 2:
			q.D2 = addG2(q.D2, cof)
			q.Recs[k-1].K.SPX = addG2(q.Recs[k-1].K.SPX, cof)
			q.Recs[k-1].rehash()
		}
		p.reject("outside-subgroup", fmt.Sprint(m), q)
	}
	bs := f.Bytes()
	hl := len(f.H.bytes())
	for m := 0; m < 4; m++ {
		x := append([]byte{}, bs...)
		at := hl + 96 + 32*c.IntN(nz+nw)
		copy(x[at:], badG1Encodings(c.Rng)[0])
		p.rejectBytes("not-a-point", fmt.Sprintf("element %d", (at-hl-96)/32), x)
	}
}

// relink2 rebuilds the records from j on as honest continuations
func (p *p2Case) relink(q *P2, j int, abs []Fr) {
	if p.skip {
		return
	}
	for i := j; i < len(q.Recs); i++ {
		var prev []byte
		if i > 0 {
			prev = q.Recs[i-1].Hash
		}
		q.Recs[i] = P2Rec{Delta: mulG1(gen1, abs[i]), K: makePK(p.secs[i].D, p.secs[i].S, prev, 1)}
		q.Recs[i].rehash()
	}
}

// follow gives the parameters for another final delta
func (p *p2Case) follow(d Fr, recs []P2Rec) *P2 {
	if d.IsZero() {
		q := p.f.clone()
		q.D1, q.D2 = G1{}, G2{}
		for i := range q.Z {
			q.Z[i] = G1{}
		}
		for i := range q.PKK {
			q.PKK[i] = G1{}
		}
		q.Recs = append([]P2Rec{}, recs...)
		return q
	}
	q := p.o.scaled(d).file()
	q.H.Contributions = len(recs)
	q.Recs = append([]P2Rec{}, recs...)
	return q
}

func runC10(c *Ctx) {
	k := 1 + c.Case%4
	oneIn := 1
	js := upTo(k)
	switch {
	case c.Case%25 == 24: // chains longer than a byte counts
		k, oneIn = 254+c.IntN(6), 8
		js = c.someRecords(k, 3)
	case c.Case%7 == 3:
		k, oneIn = 5+c.IntN(60), 5
		js = c.someRecords(k, 4)
	}
	p := newP2Case(c, k)
	p.oneIn = oneIn
	if len(p.o.Z) > 7 || len(p.o.PKK) > 8 { // the chain is what matters
		if len(p.o.Z) > 3 {
			p.o.H.Domain, p.o.Z = 4, p.o.Z[:3:3]
			p.o.H.Constraints = 3
		}
		w := minInt(len(p.o.PKK), 4)
		p.o.H.Witness, p.o.PKK = w, p.o.PKK[:w:w]
		p.org = p.o.file()
		mustWrite("origin", p.org.Bytes())
		p.build()
	}
	if !p.control() {
		return
	}
	f := p.f
	abs := make([]Fr, k)
	cur := p.o.D
	for i := range abs {
		cur = mulF(cur, p.secs[i].D)
		abs[i] = cur
	}
	prevHash := func(i int) []byte {
		if i == 0 {
			return nil
		}
		return f.Recs[i-1].Hash
	}
	fields := []string{"delta", "S", "SX", "SPX"}
	for _, j := range js {
		for fi, nm := range fields {
			for rep := 0; rep < 3; rep++ {
				for mode := 0; mode < 3; mode++ {
					q := f.clone()
					r := &q.Recs[j]
					var how string
					switch fi {
					case 0:
						how, r.Delta = mutG1(c.Rng, r.Delta, gen1, r.K.S)
					case 1:
						how, r.K.S = mutG1(c.Rng, r.K.S, gen1, r.K.SX)
					case 2:
						how, r.K.SX = mutG1(c.Rng, r.K.SX, gen1, r.K.S)
					case 3:
						how, r.K.SPX = mutG2(c.Rng, r.K.SPX, gen2, f.D2)
					}
					if mode >= 1 {
						r.rehash()
					}
					if mode == 2 {
						if j+1 < k {
							p.relink(q, j+1, abs)
						} else {
							q.D1 = r.Delta
						}
					}
					p.reject("altered-record", fmt.Sprintf("%s of record %d of %d is %s (mode %d)", nm, j+1, k, how, mode), q)
				}
			}
		}
		// the hash
		for m := 0; m < 6; m++ {
			q := f.clone()
			h := q.Recs[j].Hash
			d := ""
			switch m {
			case 0, 5:
				i := c.IntN(32)
				h[i] ^= 1 << c.IntN(8)
				d = fmt.Sprintf("byte %d flipped", i)
			case 1:
				for i := range h {
					h[i] = 0
				}
				d = "zeroed"
			case 2:
				h[31] ^= 1
				d = "last bit"
			case 3:
				h[0] ^= 0x80
				d = "first bit"
			case 4:
				copy(h, c.Bytes(32))
				d = "random"
			}
			p.reject("hash", fmt.Sprintf("hash of record %d of %d %s", j+1, k, d), q)
			if j+1 < k {
				p.relink(q, j+1, abs)
				p.reject("hash", fmt.Sprintf("hash of record %d of %d %s, the next ones built on it", j+1, k, d), q)
			}
		}
		// challenges
		for m := 0; m < 7; m++ {
			ch := prevHash(j)
			dst := byte(1)
			d := ""
			switch m {
			case 0:
				if j == 0 {
					ch, d = make([]byte, 32), "zeros instead of nothing"
				} else {
					ch, d = nil, "nothing"
				}
			case 1:
				ch, d = c.Bytes(32), "random"
			case 2:
				ch, d = f.Recs[j].Hash, "its own hash"
			case 3:
				if j < 2 {
					continue
				}
				ch, d = f.Recs[j-2].Hash, "the hash before the previous one"
			case 4:
				dst, d = 2, "another domain"
			case 5:
				if j == 0 {
					continue
				}
				ch, d = append([]byte{}, ch...), "previous hash with a bit flipped"
				ch[c.IntN(32)] ^= 1
			case 6:
				if j == 0 {
					continue
				}
				ch, d = f.Recs[0].Hash, "the first hash"
				if j == 1 {
					continue
				}
			}
			q := f.clone()
			q.Recs[j].K = makePK(p.secs[j].D, p.secs[j].S, ch, dst)
			q.Recs[j].rehash()
			if j+1 < k {
				p.relink(q, j+1, abs)
			}
			p.reject("challenge", fmt.Sprintf("record %d of %d proves on challenge %s", j+1, k, d), q)
		}
		// an unproven secret, everything after follows
		for m := 0; m < 3; m++ {
			y := c.Fr()
			if m == 1 {
				y = frInt(-1)
			}
			if m == 2 { // the secret of the contribution itself, twice
				y = p.secs[j].D
			}
			a2 := append([]Fr{}, abs...)
			for i := j; i < k; i++ {
				a2[i] = mulF(a2[i], y)
			}
			q := p.follow(a2[k-1], f.clone().Recs)
			p.relink(q, j, a2)
			p.reject("unproven-secret", fmt.Sprintf("record %d of %d applies another secret than it proves (%d)", j+1, k, m), q)
		}
		// 1 or -1 is applied, and the proof is about it up to signs
		for m := 0; m < 8; m++ {
			sx, spx := m&2 != 0, m&4 != 0
			if !sx && !spx {
				continue
			}
			if p.skip {
				p.draw()
				continue
			}
			save := p.secs
			p.secs = append([]P2Sec{}, p.secs...)
			p.secs[j].D = unit(m&1 != 0)
			a2 := make([]Fr, k)
			cur := p.o.D
			for i := range a2 {
				cur = mulF(cur, p.secs[i].D)
				a2[i] = cur
			}
			q := p.follow(a2[k-1], f.clone().Recs)
			p.relink(q, j, a2)
			r := &q.Recs[j]
			if sx {
				r.K.SX = negG1(r.K.SX)
			}
			if spx {
				r.K.SPX = negG2(r.K.SPX)
			}
			r.rehash()
			if j+1 < k {
				p.relink(q, j+1, a2)
			}
			p.secs = save
			p.reject("signs", fmt.Sprintf("record %d of %d applies 1 or -1 and proves the opposite (%d)", j+1, k, m), q)
		}
		// degenerate proofs
		for m := 0; m < 7; m++ {
			if p.skip {
				p.draw()
				continue
			}
			y := c.Fr()
			if m >= 4 {
				y = Fr{}
			}
			a2 := append([]Fr{}, abs...)
			for i := j; i < k; i++ {
				a2[i] = mulF(a2[i], y)
			}
			q := p.follow(a2[k-1], f.clone().Recs)
			for i := j; i < k; i++ {
				var prev []byte
				if i > 0 {
					prev = q.Recs[i-1].Hash
				}
				r := P2Rec{Delta: mulG1(gen1, a2[i]), K: makePK(p.secs[i].D, p.secs[i].S, prev, 1)}
				if a2[i].IsZero() {
					r.Delta = G1{}
				}
				if i == j || m == 6 {
					switch m {
					case 0, 4:
						r.K = PK{}
					case 1, 5:
						r.K.SX, r.K.SPX = G1{}, G2{}
					case 2:
						r.K.S, r.K.SX = G1{}, G1{}
					case 3:
						r.K.SPX = G2{}
					case 6:
						r.K = PK{S: mulG1(gen1, p.secs[i].S)}
					}
				}
				r.rehash()
				q.Recs[i] = r
			}
			p.reject("degenerate-proof", fmt.Sprintf("record %d of %d, mode %d", j+1, k, m), q)
			// parameters as before
			q2 := f.clone()
			q2.Recs = q.Recs
			p.reject("degenerate-proof", fmt.Sprintf("record %d of %d, mode %d, honest parameters", j+1, k, m), q2)
		}
		// a proof for another secret
		{
			q := f.clone()
			q.Recs[j].K = makePK(c.Fr(), c.Fr(), prevHash(j), 1)
			q.Recs[j].rehash()
			if j+1 < k {
				p.relink(q, j+1, abs)
			}
			p.reject("other-proof", fmt.Sprintf("record %d of %d", j+1, k), q)
		}
		// dropped, duplicated, reordered
		if k > 1 {
			q := f.clone()
			q.Recs = append(q.Recs[:j:j], q.Recs[j+1:]...)
			q.H.Contributions = k - 1
			p.reject("dropped", fmt.Sprintf("record %d of %d", j+1, k), q)
			if j == k-1 {
				q2 := p.follow(abs[k-2], q.Recs)
				q2.H.Contributions = k
				p.reject("dropped", "the last record, but it is counted", q2)
			}
			i := c.IntN(k)
			if i != j {
				q := f.clone()
				q.Recs[i], q.Recs[j] = q.Recs[j], q.Recs[i]
				p.reject("reordered", fmt.Sprintf("records %d and %d of %d", i+1, j+1, k), q)
			}
		}
		q := f.clone()
		q.Recs = append(q.Recs[:j+1:j+1], append([]P2Rec{q.Recs[j]}, q.Recs[j+1:]...)...)
		q.H.Contributions = k + 1
		p.reject("duplicated", fmt.Sprintf("record %d of %d", j+1, k), q)
		// the same with the parameters and deltas following
		{
			a2 := append([]Fr{}, abs[:j+1]...)
			secs := append([]P2Sec{}, p.secs[:j+1]...)
			secs = append(secs, p.secs[j:]...)
			for i := j; i < k; i++ {
				a2 = append(a2, mulF(abs[i], p.secs[j].D))
			}
			q := p.follow(a2[k], append(f.clone().Recs[:j+1:j+1], make([]P2Rec, k-j)...))
			save := p.secs
			p.secs = secs
			p.relink(q, j+1, a2)
			q.Recs[j+1].K = q.Recs[j].K
			q.Recs[j+1].rehash()
			if j+2 < len(q.Recs) {
				p.relink(q, j+2, a2)
			}
			p.secs = save
			p.reject("replayed-proof", fmt.Sprintf("record %d of %d is repeated with its proof", j+1, k), q)
		}
		// spliced from another ceremony of the same origin
		var osecs []P2Sec
		od := frInt(1)
		for range p.secs {
			osecs = append(osecs, randP2Sec(c.Rng))
			od = mulF(od, osecs[len(osecs)-1].D)
		}
		orecs := chain2(p.o.D, osecs)
		q = f.clone()
		q.Recs[j] = orecs[j]
		p.reject("spliced", fmt.Sprintf("record %d of %d is another ceremony's", j+1, k), q)
		q = f.clone()
		copy(q.Recs[j:], orecs[j:])
		p.reject("spliced", fmt.Sprintf("records from %d of %d are another ceremony's", j+1, k), q)
		if j > 0 {
			q = p.follow(od, append(append([]P2Rec{}, f.Recs[:j]...), orecs[j:]...))
			p.reject("spliced", fmt.Sprintf("the first %d records of %d are another ceremony's", j, k), q)
		}
		q = f.clone()
		q.Recs[j].K = orecs[j].K
		q.Recs[j].rehash()
		if j+1 < k {
			p.relink(q, j+1, abs)
		}
		p.reject("replayed-proof", fmt.Sprintf("in record %d of %d", j+1, k), q)
		// a record whose delta jumps, the rest unchanged
		q = f.clone()
		q.Recs[j].Delta = mulG1(q.Recs[j].Delta, c.Fr())
		q.Recs[j].rehash()
		if j+1 < k {
			p.relink(q, j+1, abs)
		}
		p.reject("broken-update", fmt.Sprintf("delta of record %d of %d only", j+1, k), q)
	}
	// chains that don't start at the origin's delta
	y := c.Fr()
	q := p.follow(mulF(p.d, y), chain2(mulF(p.o.D, y), p.secs))
	p.reject("other-start", "parameters follow", q)
	q = f.clone()
	q.Recs = chain2(y, p.secs)
	p.reject("other-start", "honest parameters", q)
	// SPX outside the group
	q = f.clone()
	q.Recs[k-1].K.SPX = addG2(q.Recs[k-1].K.SPX, mulG2order(offSubgroupG2(c.Rng)))
	q.Recs[k-1].rehash()
	p.reject("outside-subgroup", "SPX of the last record", q)
	// counts
	q = p.org.clone()
	p.reject("no-contribution", "the origin itself", q)
	q = f.clone()
	q.H.Contributions = 0
	p.reject("no-contribution", "the header says none", q)
	q.Recs = nil
	p.reject("no-contribution", "no record", q)
	q = f.clone()
	q.H.Contributions = k + 1
	p.reject("miscounted", "one more than there are", q)
	q = f.clone()
	q.H.Contributions = -1
	p.reject("miscounted", "a negative number", q)
	if k > 1 {
		q = f.clone()
		q.H.Contributions = k - 1
		p.reject("miscounted", "one less than there are", q)
	}
}

var _ = phase1.Verify
