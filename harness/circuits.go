package main

import (
	"bytes"
	"fmt"
	"hash"
	"math/big"
	"os"
	"sort"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	nmimc "github.com/consensys/gnark-crypto/ecc/bn254/fr/mimc"
	"github.com/consensys/gnark/backend/hint"
	"github.com/consensys/gnark/constraint"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	gmimc "github.com/consensys/gnark/std/hash/mimc"
)

// Circ is a circuit that can be compiled again and again
type Circ struct {
	Name  string
	Build func() *cs_bn254.R1CS
}

func (k *Circ) write(path string) *cs_bn254.R1CS {
	cs := k.Build()
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	if _, err := cs.WriteTo(f); err != nil {
		panic(err)
	}
	f.Close()
	return cs
}

// ---------------------------------------------------------------- raw R1CS

// rawCirc makes a random R1CS: not one that anybody would want to prove, but
// all that initialization has to handle
type rawOpts struct {
	pub, sec, internal, cons int
	commit                   bool
	style                    int
	seed                     uint64
	commitAt                 int // 1: among the first internal wires, -1: the last
}

func randRawOpts(r *Rng, maxCons int) rawOpts {
	o := rawOpts{pub: 1 + r.IntN(5), sec: r.IntN(8), internal: r.IntN(12), style: r.IntN(4), seed: r.Uint64()}
	switch r.IntN(5) {
	case 0: // around a power of two
		k := 1 << (1 + r.IntN(log2(maxCons)))
		o.cons = minInt(maxInt(1, k+r.IntN(3)-1), maxCons)
	case 1:
		o.cons = 1 + r.IntN(3)
	default:
		o.cons = 1 + r.IntN(maxCons)
	}
	if r.P(1, 6) {
		o.sec, o.internal = 0, 0 // public-only: no private parameter at all
	}
	if r.P(1, 10) { // many wires
		o.pub, o.sec, o.internal = 1+r.IntN(1<<r.IntN(8)), r.IntN(1<<r.IntN(8)), r.IntN(1<<r.IntN(9))
	}
	if r.P(1, 10) {
		o.style = 4
	}
	if r.P(1, 3) && o.internal > 0 && o.pub-1+o.sec+o.internal-1 > 0 {
		o.commit = true
	}
	return o
}

// wideCirc has more than 65536 wires, few of them in any constraint
func (c *Ctx) wideCirc() *Circ {
	o := rawOpts{pub: 1 + c.IntN(5), sec: c.IntN(300), internal: 66000 + c.IntN(8000), cons: 130 + c.IntN(300), style: 1 + c.IntN(3), seed: c.Uint64(), commit: c.P(3, 4)}
	switch []int{1, 3, 0, 2}[c.Case/giants[c.ID][1]%4] {
	case 0:
		o.commitAt = -1
	case 1:
		o.sec, o.internal = o.internal, 1+c.IntN(300)
	case 2:
		o.pub, o.internal = o.internal, 1+c.IntN(300)
	case 3:
		o.commitAt = 1
	}
	return rawCirc(o)
}

func (o rawOpts) String() string {
	return fmt.Sprintf("%d public, %d secret, %d internal, %d constraints, commitment %v, style %d, seed %d", o.pub, o.sec, o.internal, o.cons, o.commit, o.style, o.seed)
}

func rawCirc(o rawOpts) *Circ {
	return &Circ{Name: "random R1CS: " + o.String(), Build: func() *cs_bn254.R1CS {
		r := newRng("raw", o.seed)
		cs := cs_bn254.NewR1CS(o.cons)
		for i := 0; i < o.pub; i++ {
			cs.AddPublicVariable(fmt.Sprint("p", i))
		}
		for i := 0; i < o.sec; i++ {
			cs.AddSecretVariable(fmt.Sprint("s", i))
		}
		for i := 0; i < o.internal; i++ {
			cs.AddInternalVariable()
		}
		nw := o.pub + o.sec + o.internal
		// some wires are used nowhere or only on one side
		var use [3][]int
		for i := 0; i < nw; i++ {
			for s := range use {
				if o.style == 0 || r.P(2, 3) {
					use[s] = append(use[s], i)
				}
			}
		}
		for s := range use {
			if len(use[s]) == 0 {
				use[s] = []int{r.IntN(nw)}
			}
		}
		coeff := func() constraint.Coeff {
			var e fr.Element
			switch r.IntN(9) {
			case 0:
				if o.style != 1 { // zero coefficients are unusual
					e = frInt(1)
				}
			case 1, 2:
				e = frInt(1)
			case 3:
				e = frInt(2)
			case 4:
				e = frInt(-1)
			case 5:
				e = frInt(-2)
			case 6:
				e = frInt(int64(r.IntN(100)))
			case 7:
				e = frInt(-int64(r.IntN(100)))
			default:
				e = specialFr(r)
			}
			var c constraint.Coeff
			copy(c[:], e[:])
			return c
		}
		lc := func(s int) constraint.LinearExpression {
			max := 4
			if o.style == 2 {
				max = 12
			}
			if o.style == 4 {
				max = 1 + nw
			}
			n := r.IntN(max)
			if n == 0 && !r.P(1, 4) {
				n = 1
			}
			var l constraint.LinearExpression
			for i := 0; i < n; i++ {
				c := coeff()
				l = append(l, cs.MakeTerm(&c, pick(r, use[s])))
			}
			if o.style == 3 && len(l) > 0 && r.P(1, 3) {
				l = append(l, l[0]) // the same wire twice
			}
			return l
		}
		for i := 0; i < o.cons; i++ {
			cs.AddConstraint(constraint.R1C{L: lc(0), R: lc(1), O: lc(2)})
		}
		if o.commit {
			idx := o.pub + o.sec + r.IntN(o.internal)
			switch near := minInt(400, o.internal); o.commitAt {
			case 1:
				idx = o.pub + o.sec + r.IntN(near)
			case -1:
				idx = o.pub + o.sec + o.internal - 1 - r.IntN(near)
			}
			var com []int
			np := 0
			for i := 1; i < idx; i++ {
				if r.Bool() {
					com = append(com, i)
					if i < o.pub {
						np++
					}
				}
			}
			if len(com) == 0 && idx > 1 {
				com = append(com, idx-1)
				if idx-1 < o.pub {
					np++
				}
			}
			if len(com) > 0 {
				c := constraint.NewCommitment(com, np)
				c.HintID = hint.ID(r.Uint32())
				c.CommitmentIndex = idx
				c.CommittedAndCommitment = append(append([]int{}, com...), idx)
				cs.CommitmentInfo = c
			}
		}
		return cs
	}}
}

// specialFr is a random element, often one of a remarkable representation
func specialFr(r *Rng) Fr {
	var e Fr
	switch r.IntN(8) {
	case 0, 1: // around a power of two
		b := new(big.Int).Lsh(big.NewInt(1), uint(r.IntN(254)))
		b.Add(b, big.NewInt(int64(r.IntN(3)-1)))
		e.SetBigInt(b)
	case 2: // of a random length
		b := new(big.Int).Rsh(new(big.Int).SetBytes(r.Bytes(32)), uint(2+r.IntN(252)))
		e.SetBigInt(b)
	case 3: // a fraction
		e = invF(frInt(2 + int64(r.IntN(40))))
	case 4: // of a short Montgomery form
		e[r.IntN(4)] = r.Uint64() >> (8 + r.IntN(50))
	default:
		e = r.Fr()
	}
	if r.Bool() {
		e = negF(e)
	}
	return e
}

// ---------------------------------------------------------------- programs

// Prog is a random arithmetic program over inputs
type Prog struct {
	NPub, NSec int
	Ops        []Op
	Outs       []int // values that are asserted equal to public outputs
	Commit     []int // values committed to
	UseCommit  bool
	Mimc       int // number of hashes over one secret input, lazified
	NOut       int
	Lazy       bool
}

type Op struct {
	Kind int // 0 add, 1 mul, 2 sub, 3 mul by constant, 4 hint inverse, 5 add constant
	A, B int
	C    int64
}

func inverseHint(_ *big.Int, in []*big.Int, out []*big.Int) error {
	var e fr.Element
	e.SetBigInt(in[0])
	e.Inverse(&e)
	e.BigInt(out[0])
	return nil
}

func init() { hint.Register(inverseHint) }

type progCircuit struct {
	Pub  []frontend.Variable `gnark:",public"`
	Sec  []frontend.Variable
	prog *Prog
}

func (p *progCircuit) Define(api frontend.API) error {
	pr := p.prog
	vals := append([]frontend.Variable{}, p.Pub[:pr.NPub]...)
	vals = append(vals, p.Sec...)
	for _, o := range pr.Ops {
		a, b := vals[o.A], vals[o.B]
		var v frontend.Variable
		switch o.Kind {
		case 0:
			v = api.Add(a, b)
		case 1:
			v = api.Mul(a, b)
		case 2:
			v = api.Sub(a, b)
		case 3:
			v = api.Mul(a, o.C)
		case 4:
			out, err := api.Compiler().NewHint(inverseHint, 1, a)
			if err != nil {
				return err
			}
			// a*out is 0 or 1, and out*(1-a*out) = 0
			v = out[0]
			t := api.Mul(a, v)
			api.AssertIsEqual(api.Mul(a, api.Sub(1, t)), 0)
		case 5:
			v = api.Add(a, o.C)
		}
		vals = append(vals, v)
	}
	for i, o := range pr.Outs {
		api.AssertIsEqual(p.Pub[pr.NPub+i], api.Mul(vals[o], 1))
	}
	if pr.UseCommit {
		var l []frontend.Variable
		for _, i := range pr.Commit {
			l = append(l, vals[i])
		}
		c, err := api.Compiler().Commit(l...)
		if err != nil {
			return err
		}
		// c*(c+x) = y keeps the commitment wire constrained
		api.AssertIsDifferent(api.Mul(c, api.Add(c, 1)), 0)
	}
	for i := 0; i < pr.Mimc; i++ {
		h, err := gmimc.NewMiMC(api)
		if err != nil {
			return err
		}
		h.Write(p.Sec[i%len(p.Sec)])
		s := h.Sum()
		api.AssertIsEqual(p.Pub[pr.NPub+len(pr.Outs)+i], s)
	}
	return nil
}

func randProg(r *Rng, commit bool, mimc int) *Prog {
	if mimc == 0 && r.P(1, 4) {
		return structuredProg(r, commit)
	}
	p := &Prog{NPub: r.IntN(4), NSec: 1 + r.IntN(4), Mimc: mimc}
	n := p.NPub + p.NSec
	k := r.IntN(25)
	if commit {
		k += 3
	}
	for i := 0; i < k; i++ {
		o := Op{Kind: r.IntN(6), A: r.IntN(n), B: r.IntN(n), C: int64(r.IntN(7)) - 3}
		if r.Bool() {
			o.Kind = 1
		}
		p.Ops = append(p.Ops, o)
		n++
	}
	// every input and result is tied to something
	nout := 1 + r.IntN(4)
	for i := 0; i < nout; i++ {
		p.Outs = append(p.Outs, r.IntN(n))
	}
	p.Outs = append(p.Outs, n-1)
	for i := 0; i < p.NSec+p.NPub; i++ { // no unconstrained input
		p.Ops = append(p.Ops, Op{Kind: 1, A: i, B: n - 1})
		n++
	}
	p.NOut = len(p.Outs)
	if commit {
		p.UseCommit = true
		m := 1 + r.IntN(6)
		for i := 0; i < m; i++ {
			p.Commit = append(p.Commit, r.IntN(n))
		}
		// not constants only
		p.Commit = append(p.Commit, r.IntN(p.NPub+p.NSec))
	}
	return p
}

// structuredProg returns a program with a regular shape: wires that are only
// ever on one side of a constraint, in blocks
func structuredProg(r *Rng, commit bool) *Prog {
	m := 1 + r.IntN(12)
	p := &Prog{}
	mul := func(a, b int) int {
		p.Ops = append(p.Ops, Op{Kind: 1, A: a, B: b})
		return p.NPub + p.NSec + len(p.Ops) - 1
	}
	add := func(a, b int) int {
		p.Ops = append(p.Ops, Op{Kind: 0, A: a, B: b})
		return p.NPub + p.NSec + len(p.Ops) - 1
	}
	inputs := func(n int) { // some of them public
		if r.Bool() {
			p.NPub = r.IntN(n)
		}
		p.NSec = n - p.NPub
	}
	switch r.IntN(6) {
	case 0: // one or two common factors, on either side
		f := 1 + r.IntN(2)
		inputs(m + f)
		side := r.IntN(3)
		for i := 0; i < m; i++ {
			a, b := i, m+i%f
			if side == 1 || side == 2 && i%2 == 1 {
				a, b = b, a
			}
			p.Outs = append(p.Outs, mul(a, b))
		}
	case 1: // disjoint products
		inputs(2 * m)
		for i := 0; i < m; i++ {
			p.Outs = append(p.Outs, mul(i, m+i))
		}
	case 2: // a chain
		inputs(m + 1)
		x := 0
		for i := 1; i <= m; i++ {
			if r.Bool() {
				x = mul(x, i)
			} else {
				x = mul(i, x)
			}
		}
		p.Outs = []int{x}
	case 3: // a scalar product
		inputs(2 * m)
		x := mul(0, m)
		for i := 1; i < m; i++ {
			x = add(x, mul(i, m+i))
		}
		p.Outs = []int{x}
	case 4: // squares
		inputs(m)
		for i := 0; i < m; i++ {
			p.Outs = append(p.Outs, mul(i, i))
		}
	case 5: // sums only
		inputs(m + 1)
		x := 0
		for i := 1; i <= m; i++ {
			x = add(x, i)
		}
		p.Outs = []int{x}
	}
	p.NOut = len(p.Outs)
	if commit {
		p.UseCommit = true
		n := p.NPub + p.NSec + len(p.Ops)
		for i := r.IntN(4); i > 0; i-- {
			p.Commit = append(p.Commit, r.IntN(n))
		}
		p.Commit = append(p.Commit, r.IntN(p.NPub+p.NSec))
	}
	return p
}

func (p *Prog) eval(pub, sec []Fr) []Fr {
	vals := append(append([]Fr{}, pub...), sec...)
	for _, o := range p.Ops {
		a, b := vals[o.A], vals[o.B]
		var v Fr
		switch o.Kind {
		case 0:
			v = addF(a, b)
		case 1:
			v = mulF(a, b)
		case 2:
			v = subF(a, b)
		case 3:
			v = mulF(a, frInt(o.C))
		case 4:
			v = invF(a)
		case 5:
			v = addF(a, frInt(o.C))
		}
		vals = append(vals, v)
	}
	return vals
}

func (p *Prog) shape() *progCircuit {
	return &progCircuit{Pub: make([]frontend.Variable, p.NPub+len(p.Outs)+p.Mimc), Sec: make([]frontend.Variable, p.NSec), prog: p}
}

func (p *Prog) compile() (*cs_bn254.R1CS, error) {
	ccs, err := frontend.Compile(bn254.ID.ScalarField(), r1cs.NewBuilder, p.shape(), frontend.IgnoreUnconstrainedInputs())
	if err != nil {
		return nil, err
	}
	if p.Lazy {
		ccs.Lazify()
	}
	return ccs.(*cs_bn254.R1CS), nil
}

func (p *Prog) circ() *Circ {
	return &Circ{Name: p.String(), Build: func() *cs_bn254.R1CS {
		cs, err := p.compile()
		if err != nil {
			panic(err)
		}
		return cs
	}}
}

func (p *Prog) String() string {
	return fmt.Sprintf("program with %d+%d public and %d secret inputs, %d operations, %d committed, %d hashes (lazified: %v)", p.NPub, len(p.Outs), p.NSec, len(p.Ops), len(p.Commit), p.Mimc, p.Lazy)
}

// assignment returns a satisfying assignment for random inputs
func (p *Prog) assignment(r *Rng) *progCircuit {
	var pub, sec []Fr
	for i := 0; i < p.NPub; i++ {
		pub = append(pub, r.Fr())
	}
	for i := 0; i < p.NSec; i++ {
		x := r.Fr()
		if r.P(1, 5) {
			x = frInt(int64(r.IntN(3)))
		}
		sec = append(sec, x)
	}
	vals := p.eval(pub, sec)
	a := p.shape()
	for i := range pub {
		a.Pub[i] = pub[i]
	}
	for i, o := range p.Outs {
		a.Pub[p.NPub+i] = vals[o]
	}
	for i := 0; i < p.Mimc; i++ {
		a.Pub[p.NPub+len(p.Outs)+i] = mimcOf(sec[i%len(sec)])
	}
	for i := range sec {
		a.Sec[i] = sec[i]
	}
	return a
}

// ---------------------------------------------------------------- oracle

// Ref are the exponents of the Groth16 parameters of a circuit
type Ref struct {
	H             Header
	A, B, C, K    []Fr
	PKK, VKK, CKK []Fr
	Z             []Fr
	Lag           []Fr
	Info          constraint.Commitment
}

func nextPow2(n int) int {
	k := 2
	for k < n {
		k *= 2
	}
	return k
}

// reference computes what a trusted setup with secrets b does with a circuit
func reference(cs *cs_bn254.R1CS, b Base) *Ref {
	nc := cs.GetNbConstraints()
	nPub, nSec, nInt := cs.GetNbPublicVariables(), cs.GetNbSecretVariables(), cs.GetNbInternalVariables()
	wires := nPub + nSec + nInt
	n := nextPow2(nc)
	R := &Ref{Info: cs.CommitmentInfo}
	R.Lag = lagrangeAt(n, b.T)
	R.A, R.B, R.C, R.K = make([]Fr, wires), make([]Fr, wires), make([]Fr, wires), make([]Fr, wires)
	for j := 0; j < nc; j++ {
		c := cs.GetConstraintToSolve(j)
		acc := func(dst []Fr, l constraint.LinearExpression) {
			for _, t := range l {
				dst[t.WireID()] = addF(dst[t.WireID()], mulF(cs.Coefficients[t.CoeffID()], R.Lag[j]))
			}
		}
		acc(R.A, c.L)
		acc(R.B, c.R)
		acc(R.C, c.O)
	}
	private := map[int]bool{}
	for i, w := range cs.CommitmentInfo.Committed {
		if i >= len(cs.CommitmentInfo.Committed)-cs.CommitmentInfo.NbPrivateCommitted {
			private[w] = true
		}
	}
	is := len(cs.CommitmentInfo.Committed) > 0
	for i := 0; i < wires; i++ {
		R.K[i] = addF(mulF(b.B, R.A[i]), mulF(b.A, R.B[i]), R.C[i])
		switch {
		case i < nPub || is && i == cs.CommitmentInfo.CommitmentIndex:
			R.VKK = append(R.VKK, R.K[i])
		case private[i]:
			R.CKK = append(R.CKK, R.K[i])
		default:
			R.PKK = append(R.PKK, R.K[i])
		}
	}
	tn := subF(powF(b.T, n), frInt(1))
	pw := powers(b.T, frInt(1), n)
	R.Z = make([]Fr, n)
	for i := 0; i < n; i++ {
		R.Z[bitrev(i, log2(n))] = mulF(pw[i], tn)
	}
	R.Z = R.Z[:n-1] // the last one, of degree 2n-1, isn't needed
	R.H = Header{Wires: wires, Witness: len(R.PKK), Public: len(R.VKK), PrivateCommitted: len(R.CKK), Constraints: nc, Domain: n}
	return R
}

func nonZero(l []Fr) []Fr {
	var out []Fr
	for i := range l {
		if !l[i].IsZero() {
			out = append(out, l[i])
		}
	}
	return out
}

// compareP2 checks a freshly initialized phase 2 file and its evaluations
func (c *Ctx) compareP2(where string, R *Ref, b Base, ph2, evals, lag []byte) bool {
	sig := func(s string) string { return fmt.Sprint(where, s) }
	ok := true
	bad := func(key, f string, a ...any) {
		ok = false
		c.Violation(key, "%s: %s", where, fmt.Sprintf(f, a...))
	}
	p, _, err := parseP2(ph2)
	if err != nil {
		bad("ph2-unreadable", "%v", err)
		return false
	}
	c.Eval(sig("header"), true)
	if p.H != R.H {
		bad("header", "%+v, expected %+v", p.H, R.H)
		return false
	}
	c.Eval(sig("delta"), true)
	if !p.D1.Equal(&gen1) || !p.D2.Equal(&gen2) {
		bad("delta", "delta doesn't start at one")
	}
	sec := func(name string, got []G1, want []Fr) {
		c.Eval(sig(name), true)
		c.Count("points_compared", len(want))
		if len(got) != len(want) {
			bad(name, "%d elements of %s, expected %d", len(got), name, len(want))
			return
		}
		if i := eqG1(g1s(want...), got); i >= 0 {
			bad(name, "%s[%d] of %d is wrong", name, i, len(want))
		}
	}
	sec("Z", p.Z, R.Z)
	sec("PKK", p.PKK, R.PKK)
	e, err := parseEvals(evals)
	if err != nil {
		bad("evals-unreadable", "%v", err)
		return false
	}
	sec("evals alpha, beta", []G1{e.Alpha, e.Beta1}, []Fr{b.A, b.B})
	b2 := mulG2(gen2, b.B)
	if !e.Beta2.Equal(&b2) {
		bad("evals beta2", "is wrong")
	}
	sec("evals A", e.A, R.A)
	sec("evals B1", e.B1, R.B)
	c.Eval(sig("evals B2"), true)
	if i := eqG2(g2s(R.B...), e.B2); i >= 0 {
		bad("evals B2", "B2[%d] of %d is wrong", i, len(R.B))
	}
	sec("evals VKK", e.VKK, R.VKK)
	sec("evals CKK", e.CKK, R.CKK)
	c.Eval(sig("commitment info"), true)
	if !sameInfo(e.Info, R.Info) {
		bad("commitment info", "%+v, expected %+v", e.Info, R.Info)
	}
	if lag != nil {
		t, a, be, t2, err := parseLag(lag)
		if err != nil {
			bad("lag-unreadable", "%v", err)
			return false
		}
		sec("lag tau", t, R.Lag)
		x := make([]Fr, len(R.Lag))
		y := make([]Fr, len(R.Lag))
		for i := range x {
			x[i], y[i] = mulF(R.Lag[i], b.A), mulF(R.Lag[i], b.B)
		}
		sec("lag alpha", a, x)
		sec("lag beta", be, y)
		c.Eval(sig("lag tau2"), true)
		if i := eqG2(g2s(R.Lag...), t2); i >= 0 {
			bad("lag tau2", "element %d is wrong", i)
		}
	}
	return ok
}

func sameInfo(a Commitment, b constraint.Commitment) bool {
	if len(a.Committed) != len(b.Committed) || a.NbPrivateCommitted != b.NbPrivateCommitted || uint32(b.HintID) != a.HintID || a.CommitmentIndex != b.CommitmentIndex || len(a.CommittedAndCommitment) != len(b.CommittedAndCommitment) {
		return false
	}
	for i := range a.Committed {
		if a.Committed[i] != b.Committed[i] {
			return false
		}
	}
	for i := range a.CommittedAndCommitment {
		if a.CommittedAndCommitment[i] != b.CommittedAndCommitment[i] {
			return false
		}
	}
	return true
}

var _ = bytes.Equal
var _ = sort.Ints

func mimcOf(x Fr) Fr {
	h := nativeMimc()
	b := x.Bytes()
	h.Write(b[:])
	var e Fr
	e.SetBytes(h.Sum(nil))
	return e
}
func nativeMimc() hash.Hash { return nmimc.NewMiMC() }
