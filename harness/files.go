package main

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"os"
)

// ---------------------------------------------------------------- phase 1

type P1Rec struct {
	Tau1, Alpha1, Beta1 G1
	Tau2, Beta2         G2
	K                   [3]PK // tau, alpha, beta
	Hash                []byte
}

const p1RecSize = 640

func (c *P1Rec) body() []byte {
	b := put1(nil, c.Tau1, c.Alpha1, c.Beta1)
	b = put2(b, c.Tau2, c.Beta2)
	for i := range c.K {
		b = put1(b, c.K[i].S, c.K[i].SX)
		b = put2(b, c.K[i].SPX)
	}
	return b
}

func (c *P1Rec) rehash()       { c.Hash = sha(c.body()) }
func (c *P1Rec) bytes() []byte { return append(c.body(), c.Hash...) }

type P1 struct {
	Power  int
	NC     int
	TauG1  []G1
	Alpha  []G1
	Beta   []G1
	TauG2  []G2
	BetaG2 G2
	Recs   []P1Rec
}

func (p *P1) N() int { return 1 << p.Power }

func (p *P1) headerBytes() []byte { return []byte{byte(p.Power), byte(p.NC >> 8), byte(p.NC)} }

func (p *P1) paramBytes() []byte {
	b := put1(nil, p.TauG1...)
	b = put1(b, p.Alpha...)
	b = put1(b, p.Beta...)
	b = put2(b, p.TauG2...)
	return put2(b, p.BetaG2)
}

func (p *P1) Bytes() []byte {
	b := append(p.headerBytes(), p.paramBytes()...)
	for i := range p.Recs {
		b = append(b, p.Recs[i].bytes()...)
	}
	return b
}

func (p *P1) clone() *P1 {
	q := *p
	q.TauG1 = append([]G1{}, p.TauG1...)
	q.Alpha = append([]G1{}, p.Alpha...)
	q.Beta = append([]G1{}, p.Beta...)
	q.TauG2 = append([]G2{}, p.TauG2...)
	q.Recs = make([]P1Rec, len(p.Recs))
	for i := range p.Recs {
		q.Recs[i] = p.Recs[i]
		q.Recs[i].Hash = append([]byte{}, p.Recs[i].Hash...)
	}
	return &q
}

func p1Sizes(power int) (tau, alpha, beta, tau2, end int) {
	n := 1 << power
	tau = 3
	alpha = tau + 32*(2*n-1)
	beta = alpha + 32*n
	tau2 = beta + 32*n
	end = tau2 + 64*n + 64
	return
}

func parseP1Rec(r *rd) P1Rec {
	var c P1Rec
	c.Tau1, c.Alpha1, c.Beta1 = r.g1(), r.g1(), r.g1()
	c.Tau2, c.Beta2 = r.g2(), r.g2()
	for i := range c.K {
		c.K[i].S, c.K[i].SX = r.g1(), r.g1()
		c.K[i].SPX = r.g2()
	}
	c.Hash = append([]byte{}, r.take(32)...)
	return c
}

// parseP1 reads a complete phase 1 file
func parseP1(b []byte) (*P1, error) { return parseP1As(b, false) }

func parseP1As(b []byte, flex bool) (*P1, error) {
	r := &rd{b: b, flex: flex}
	h := r.take(3)
	if r.err != nil {
		return nil, r.err
	}
	p := &P1{Power: int(h[0]), NC: int(h[1])<<8 | int(h[2])}
	if p.Power < 1 || p.Power > 28 {
		return nil, fmt.Errorf("power %d", p.Power)
	}
	n := p.N()
	p.TauG1 = r.g1n(2*n - 1)
	p.Alpha = r.g1n(n)
	p.Beta = r.g1n(n)
	p.TauG2 = r.g2n(n)
	p.BetaG2 = r.g2()
	for i := 0; i < p.NC && r.err == nil; i++ {
		p.Recs = append(p.Recs, parseP1Rec(r))
	}
	if r.err != nil {
		return nil, r.err
	}
	if len(r.b) != 0 && !flex {
		return nil, fmt.Errorf("%d bytes after the end", len(r.b))
	}
	return p, nil
}

func readP1(path string) (*P1, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	return parseP1(b)
}

// P1Sec are the secrets of a contribution
type P1Sec struct{ T, A, B, ST, SA, SB Fr }

func randP1Sec(r *Rng) P1Sec {
	return P1Sec{r.Fr(), r.Fr(), r.Fr(), r.Fr(), r.Fr(), r.Fr()}
}

// makeP1Rec builds the honest record for absolute secrets t, a, b after a
// contribution of sec on challenge prev
func makeP1Rec(t, a, b Fr, sec P1Sec, prev []byte) P1Rec {
	var c P1Rec
	g := g1s(t, a, b)
	c.Tau1, c.Alpha1, c.Beta1 = g[0], g[1], g[2]
	h := g2s(t, b)
	c.Tau2, c.Beta2 = h[0], h[1]
	c.K[0] = makePK(sec.T, sec.ST, prev, 1)
	c.K[1] = makePK(sec.A, sec.SA, prev, 2)
	c.K[2] = makePK(sec.B, sec.SB, prev, 3)
	c.rehash()
	return c
}

// Base are the secrets of the file a ceremony starts from
type Base struct{ T, A, B Fr }

func oneBase() Base { return Base{frInt(1), frInt(1), frInt(1)} }

func (b Base) after(secs []P1Sec) Base {
	for i := range secs {
		b.T = mulF(b.T, secs[i].T)
		b.A = mulF(b.A, secs[i].A)
		b.B = mulF(b.B, secs[i].B)
	}
	return b
}

// srs builds well-formed parameters
func srs(power int, b Base) *P1 {
	n := 1 << power
	one := frInt(1)
	all := append(powers(b.T, one, 2*n-1), powers(b.T, b.A, n)...)
	all = append(all, powers(b.T, b.B, n)...)
	pts := g1s(all...)
	q := g2s(append(powers(b.T, one, n), b.B)...)
	return &P1{Power: power, TauG1: pts[: 2*n-1 : 2*n-1], Alpha: pts[2*n-1 : 3*n-1 : 3*n-1], Beta: pts[3*n-1:],
		TauG2: q[:n:n], BetaG2: q[n]}
}

// chain builds the records of honest contributions
func chain(b Base, secs []P1Sec) []P1Rec {
	var recs []P1Rec
	var prev []byte
	for i := range secs {
		b = b.after(secs[i : i+1])
		c := makeP1Rec(b.T, b.A, b.B, secs[i], prev)
		recs = append(recs, c)
		prev = c.Hash
	}
	return recs
}

// forgeP1 builds the file an honest ceremony with the given secrets gives
func forgeP1(power int, b Base, secs []P1Sec) *P1 {
	p := srs(power, b.after(secs))
	p.Recs = chain(b, secs)
	p.NC = len(secs)
	return p
}

// srsWithRoots is used for tau values such as roots of unity
func mustWrite(path string, b []byte) {
	if err := os.WriteFile(path, b, 0644); err != nil {
		panic(err)
	}
}

func mustRead(path string) []byte {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	return b
}

// ---------------------------------------------------------------- phase 2

// Header mirrors the gob-encoded header of phase 2 files
type Header struct {
	Wires            int
	Witness          int
	Public           int
	PrivateCommitted int
	Constraints      int
	Domain           int
	Contributions    int
}

type P2Rec struct {
	Delta G1
	K     PK
	Hash  []byte
}

const p2RecSize = 192

func (c *P2Rec) body() []byte {
	b := put1(nil, c.Delta, c.K.S, c.K.SX)
	return put2(b, c.K.SPX)
}
func (c *P2Rec) rehash()       { c.Hash = sha(c.body()) }
func (c *P2Rec) bytes() []byte { return append(c.body(), c.Hash...) }

type P2 struct {
	H      Header
	D1     G1
	D2     G2
	Z, PKK []G1
	Recs   []P2Rec
}

func (h Header) bytes() []byte {
	var buf bytes.Buffer
	if err := gob.NewEncoder(&buf).Encode(h); err != nil {
		panic(err)
	}
	return buf.Bytes()
}

func (p *P2) Bytes() []byte {
	b := p.H.bytes()
	b = put1(b, p.D1)
	b = put2(b, p.D2)
	b = put1(b, p.Z...)
	b = put1(b, p.PKK...)
	for i := range p.Recs {
		b = append(b, p.Recs[i].bytes()...)
	}
	return b
}

func (p *P2) clone() *P2 {
	q := *p
	q.Z = append([]G1{}, p.Z...)
	q.PKK = append([]G1{}, p.PKK...)
	q.Recs = make([]P2Rec, len(p.Recs))
	for i := range p.Recs {
		q.Recs[i] = p.Recs[i]
		q.Recs[i].Hash = append([]byte{}, p.Recs[i].Hash...)
	}
	return &q
}

func parseP2Rec(r *rd) P2Rec {
	var c P2Rec
	c.Delta, c.K.S, c.K.SX = r.g1(), r.g1(), r.g1()
	c.K.SPX = r.g2()
	c.Hash = append([]byte{}, r.take(32)...)
	return c
}

// parseP2 also returns the length of the header
func parseP2(b []byte) (*P2, int, error) { return parseP2As(b, false) }

func parseP2As(b []byte, flex bool) (*P2, int, error) {
	br := bytes.NewReader(b)
	p := &P2{}
	if err := gob.NewDecoder(br).Decode(&p.H); err != nil {
		return nil, 0, err
	}
	hl := len(b) - br.Len()
	r := &rd{b: b[hl:], flex: flex}
	p.D1, p.D2 = r.g1(), r.g2()
	if p.H.Domain < 1 || p.H.Witness < 0 {
		return nil, 0, fmt.Errorf("header %+v", p.H)
	}
	p.Z = r.g1n(p.H.Domain - 1)
	p.PKK = r.g1n(p.H.Witness)
	for i := 0; i < p.H.Contributions && r.err == nil; i++ {
		p.Recs = append(p.Recs, parseP2Rec(r))
	}
	if r.err != nil {
		return nil, 0, r.err
	}
	if len(r.b) != 0 && !flex {
		return nil, 0, fmt.Errorf("%d bytes after the end", len(r.b))
	}
	return p, hl, nil
}

func readP2(path string) (*P2, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	p, _, err := parseP2(b)
	return p, err
}

type P2Sec struct{ D, S Fr }

func randP2Sec(r *Rng) P2Sec { return P2Sec{r.Fr(), r.Fr()} }

// chain2 builds the records of honest contributions from delta d0
func chain2(d0 Fr, secs []P2Sec) []P2Rec {
	var recs []P2Rec
	var prev []byte
	d := d0
	for i := range secs {
		d = mulF(d, secs[i].D)
		c := P2Rec{Delta: mulG1(gen1, d), K: makePK(secs[i].D, secs[i].S, prev, 1)}
		c.rehash()
		recs = append(recs, c)
		prev = c.Hash
	}
	return recs
}

// P2Scalars is a phase 2 state in the exponent
type P2Scalars struct {
	H      Header
	D      Fr
	Z, PKK []Fr
}

func (s *P2Scalars) scaled(d Fr) *P2Scalars {
	inv := invF(d)
	o := &P2Scalars{H: s.H, D: mulF(s.D, d)}
	for _, z := range s.Z {
		o.Z = append(o.Z, mulF(z, inv))
	}
	for _, k := range s.PKK {
		o.PKK = append(o.PKK, mulF(k, inv))
	}
	return o
}

func (s *P2Scalars) file() *P2 {
	pts := g1s(append(append([]Fr{s.D}, s.Z...), s.PKK...)...)
	nz := len(s.Z)
	return &P2{H: s.H, D1: pts[0], D2: mulG2(gen2, s.D), Z: pts[1 : 1+nz : 1+nz], PKK: pts[1+nz:]}
}

// applyP2 builds the file honest contributions with the given secrets give
// from an initial file with unknown scalars
func applyP2(o *P2, secs []P2Sec) *P2 {
	d := frInt(1)
	for i := range secs {
		d = mulF(d, secs[i].D)
	}
	inv := invF(d)
	q := o.clone()
	q.D1 = mulG1(o.D1, d)
	q.D2 = mulG2(o.D2, d)
	for i := range q.Z {
		q.Z[i] = mulG1(o.Z[i], inv)
	}
	for i := range q.PKK {
		q.PKK[i] = mulG1(o.PKK[i], inv)
	}
	q.Recs = chain2(frInt(1), secs)
	q.H.Contributions = len(secs)
	return q
}

// ---------------------------------------------------------------- evals

type Commitment struct {
	Committed              []int
	NbPrivateCommitted     int
	HintID                 uint32
	CommitmentIndex        int
	CommittedAndCommitment []int
}

type Evals struct {
	Alpha, Beta1 G1
	Beta2        G2
	A, B1        []G1
	B2           []G2
	VKK, CKK     []G1
	Info         Commitment
}

func parseEvals(b []byte) (*Evals, error) {
	r := &rd{b: b}
	e := &Evals{}
	e.Alpha, e.Beta1, e.Beta2 = r.g1(), r.g1(), r.g2()
	e.A, e.B1, e.B2 = r.g1slice(false), r.g1slice(false), r.g2slice(false)
	e.VKK, e.CKK = r.g1slice(false), r.g1slice(false)
	if r.err != nil {
		return nil, r.err
	}
	br := bytes.NewReader(r.b)
	if err := gob.NewDecoder(br).Decode(&e.Info); err != nil {
		return nil, err
	}
	if br.Len() != 0 {
		return nil, fmt.Errorf("%d bytes after the end", br.Len())
	}
	return e, nil
}

func parseLag(b []byte) (t, a, be []G1, t2 []G2, err error) {
	r := &rd{b: b}
	t, a, be, t2 = r.g1slice(false), r.g1slice(false), r.g1slice(false), r.g2slice(false)
	if r.err == nil && len(r.b) != 0 {
		r.err = fmt.Errorf("%d bytes after the end", len(r.b))
	}
	return t, a, be, t2, r.err
}

// ---------------------------------------------------------------- keys

type PKey struct {
	Card                    uint64
	Dom                     [5]Fr // inverse, generator, its inverse, coset shift, its inverse
	Alpha, Beta, Delta      G1
	A, B, Z, K              []G1
	Beta2, Delta2           G2
	B2                      []G2
	NbWires, NbInfA, NbInfB uint64
	InfA, InfB              []bool
}

type PedKey struct {
	G, GRootSigmaNeg     G2
	BasisExpSigma, Basis []G1
}

type VKey struct {
	Ped                   PedKey
	Alpha, Beta, Delta    G1
	Beta2, Gamma2, Delta2 G2
	K                     []G1
	Info                  Commitment
}

func (r *rd) fr() (e Fr) {
	e.SetBytes(r.take(32))
	return
}

func parsePK(b []byte) (*PKey, error) {
	r := &rd{b: b}
	k := &PKey{}
	k.Card = r.u64()
	for i := range k.Dom {
		k.Dom[i] = r.fr()
	}
	k.Alpha, k.Beta, k.Delta = r.g1(), r.g1(), r.g1()
	k.A, k.B, k.Z, k.K = r.g1slice(false), r.g1slice(false), r.g1slice(false), r.g1slice(false)
	k.Beta2, k.Delta2 = r.g2(), r.g2()
	k.B2 = r.g2slice(false)
	k.NbWires, k.NbInfA, k.NbInfB = r.u64(), r.u64(), r.u64()
	if r.err == nil && k.NbWires*2 > uint64(len(r.b)) {
		r.fail(fmt.Errorf("%d wires don't fit", k.NbWires))
	}
	if r.err == nil {
		k.InfA, k.InfB = r.bools(int(k.NbWires)), r.bools(int(k.NbWires))
	}
	if r.err == nil && len(r.b) != 0 {
		r.err = fmt.Errorf("%d bytes after the end", len(r.b))
	}
	return k, r.err
}

func parsePed(r *rd) (p PedKey) {
	p.G, p.GRootSigmaNeg = r.g2raw(), r.g2raw()
	p.BasisExpSigma, p.Basis = r.g1slice(true), r.g1slice(true)
	return
}

func parseVK(b []byte) (*VKey, error) {
	r := &rd{b: b}
	k := &VKey{}
	k.Ped = parsePed(r)
	k.Alpha, k.Beta = r.g1raw(), r.g1raw()
	k.Beta2, k.Gamma2 = r.g2raw(), r.g2raw()
	k.Delta, k.Delta2 = r.g1raw(), r.g2raw()
	k.K = r.g1slice(true)
	if r.err != nil {
		return nil, r.err
	}
	br := bytes.NewReader(r.b)
	if err := gob.NewDecoder(br).Decode(&k.Info); err != nil {
		return nil, err
	}
	if br.Len() != 0 {
		return nil, fmt.Errorf("%d bytes after the end", br.Len())
	}
	return k, nil
}

// parseSplitPK reads the split proving key files of a session
func parseSplitPK(session string) (*PKey, *PedKey, error) {
	k := &PKey{}
	get := func(part string) (*rd, error) {
		b, err := os.ReadFile(session + ".pk." + part + ".save")
		return &rd{b: b}, err
	}
	done := func(r *rd, part string) error {
		if r.err == nil && len(r.b) != 0 {
			r.err = fmt.Errorf("%d bytes after the end", len(r.b))
		}
		if r.err != nil {
			return fmt.Errorf("part %s: %v", part, r.err)
		}
		return nil
	}
	r, err := get("E")
	if err != nil {
		return nil, nil, err
	}
	k.Card = r.u64()
	k.Alpha, k.Beta, k.Delta = r.g1raw(), r.g1raw(), r.g1raw()
	k.Beta2, k.Delta2 = r.g2raw(), r.g2raw()
	k.NbWires, k.NbInfA, k.NbInfB = r.u64(), r.u64(), r.u64()
	if r.err == nil && k.NbWires*2 <= uint64(len(r.b)) {
		k.InfA, k.InfB = r.bools(int(k.NbWires)), r.bools(int(k.NbWires))
	}
	if err := done(r, "E"); err != nil {
		return nil, nil, err
	}
	for _, x := range []struct {
		part string
		dst  *[]G1
	}{{"A", &k.A}, {"B1", &k.B}, {"Z", &k.Z}, {"K", &k.K}} {
		if r, err = get(x.part); err != nil {
			return nil, nil, err
		}
		*x.dst = r.g1slice(true)
		if err := done(r, x.part); err != nil {
			return nil, nil, err
		}
	}
	if r, err = get("B2"); err != nil {
		return nil, nil, err
	}
	k.B2 = r.g2slice(true)
	if err := done(r, "B2"); err != nil {
		return nil, nil, err
	}
	if r, err = get("CommitmentKey"); err != nil {
		return nil, nil, err
	}
	ped := parsePed(r)
	if err := done(r, "CommitmentKey"); err != nil {
		return nil, nil, err
	}
	return k, &ped, nil
}
