STABLE = ["github.com/bnb-chain/zkbnb-setup/test/" + t for t in ("TestProveAndVerify", "TestProveFromSplitPK", "TestSetup", "TestSetupFromPartedR1CS")]
SEEDS = []
def seed(id, property, needs, breaks, edits, demo, **k):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))

VERIF = "-tags verif"

# ---- C02: the power for the next batch is taken after the multiplication by alpha or beta
seed("p1-next-batch-power", "C02", "a section multiplied by alpha or beta that spans more than one processing batch (more than 2^20 elements without the hook)",
 "from the second batch on, the alpha and beta sections carry the secret again, so the SRS stops being well-formed",
 [("phase1/utils.go", """		// Update startPower for next batch
		startPower.Mul(&scalars[readCount-1], tau)

		// If there is α or β, then mul it with powers of τ
		if multiplicand != nil {
			batchMul(scalars, multiplicand)
		}
""", """		// If there is α or β, then mul it with powers of τ
		if multiplicand != nil {
			batchMul(scalars, multiplicand)
		}

		// Update startPower for next batch
		startPower.Mul(&scalars[readCount-1], tau)
""")], '''package main

import "github.com/bnb-chain/zkbnb-setup/phase1"

func main() {
	phase1.SetBatchSize(4)
	must(phase1.Initialize(3, "0.ph1"))
	must(phase1.Contribute("0.ph1", "1.ph1"))
	p, err := readP1("1.ph1")
	must(err)
	// e(alpha tau^i, tau) = e(alpha tau^(i+1), 1)
	for i := 0; i+1 < len(p.Alpha); i++ {
		if !sameRatio(p.Alpha[i+1], p.Alpha[i], p.TauG2[1], gen2) {
			broken("alpha tau^%d isn't tau times the element before it", i+1)
		}
	}
}
''', flags=VERIF)

# ---- C09: the committed count isn't compared
seed("p2-header-equal", "C09", "a phase-2 file whose header differs from the origin only in the number of committed wires",
 "the headers compare equal, so a file for another circuit layout verifies",
 [("phase2/header.go", """		h.Public == h2.Public &&
		h.PrivateCommitted == h2.PrivateCommitted &&
""", """		h.Public == h2.Public &&
		h.Wires-h.Witness == h2.Wires-h2.Witness &&
""")], '''package main

import "github.com/bnb-chain/zkbnb-setup/phase2"

func main() {
	r := newRng("header")
	s := &P2Scalars{H: Header{Wires: 9, Witness: 4, Public: 3, PrivateCommitted: 2, Constraints: 4, Domain: 4}, D: frInt(1), Z: []Fr{r.Fr(), r.Fr(), r.Fr()}, PKK: []Fr{r.Fr(), r.Fr(), r.Fr(), r.Fr()}}
	o := s.file()
	mustWrite("0.ph2", o.Bytes())
	p := applyP2(o, []P2Sec{randP2Sec(r)})
	mustWrite("1.ph2", p.Bytes())
	must(phase2.Verify("1.ph2", "0.ph2"))
	p.H.PrivateCommitted = 1
	mustWrite("2.ph2", p.Bytes())
	if try(func() error { return phase2.Verify("2.ph2", "0.ph2") }) == nil {
		broken("a file with another number of committed wires verifies")
	}
}
''')

# ---- C09: the last element of a full batch isn't aggregated
seed("p2-aggregate-batch-end", "C09", "a parameter section of more elements than a processing batch, wrong at the end of a full batch",
 "the last element of every full batch but the last is left out of both aggregates, so it can be anything",
 [("phase2/utils.go", """		// Aggregate input
		if _, err := tmp.MultiExp(buff[:readCount], r[:readCount], ecc.MultiExpConfig{}); err != nil {""", """		// Aggregate input
		if remaining > readCount {
			r[readCount-1].SetZero()
		}
		if _, err := tmp.MultiExp(buff[:readCount], r[:readCount], ecc.MultiExpConfig{}); err != nil {"""),
  ("phase2/utils.go", """	var inG, orG, tmp bn254.G1Affine
""", """	var inG, tmp, orG bn254.G1Affine
""")], '''package main

import "github.com/bnb-chain/zkbnb-setup/phase2"

func main() {
	phase2.SetBatchSize(3)
	r := newRng("batch")
	var z, k []Fr
	for i := 0; i < 7; i++ {
		z = append(z, r.Fr())
	}
	for i := 0; i < 8; i++ {
		k = append(k, r.Fr())
	}
	s := &P2Scalars{H: Header{Wires: 10, Witness: 8, Public: 2, Constraints: 8, Domain: 8}, D: frInt(1), Z: z, PKK: k}
	o := s.file()
	mustWrite("0.ph2", o.Bytes())
	p := applyP2(o, []P2Sec{randP2Sec(r)})
	mustWrite("1.ph2", p.Bytes())
	must(phase2.Verify("1.ph2", "0.ph2"))
	for i := range p.PKK {
		q := p.clone()
		q.PKK[i] = addG1(q.PKK[i], gen1)
		mustWrite("2.ph2", q.Bytes())
		if try(func() error { return phase2.Verify("2.ph2", "0.ph2") }) == nil {
			broken("a file with a wrong parameter %d verifies", i)
		}
	}
}
''', flags=VERIF)

# ---- C05: the special case of the coefficient two
seed("coefficient-two", "C05", "a wire that appears with coefficient 2 in a constraint after it already appeared in another",
 "the accumulated evaluation is overwritten instead of added to",
 [("phase2/utils.go", """		res.Sub(res, value)
	case constraint.CoeffIdTwo:
		res.Add(res, value).Add(res, value)
	default:
		var tmp bn254.G2Affine""", """		res.Sub(res, value)
	case constraint.CoeffIdTwo:
		res.Add(value, value).Add(res, value).Sub(res, value)
	default:
		var tmp bn254.G2Affine""")], '''package main

import (
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/frontend"
)

type C struct {
	X, Y frontend.Variable
	Z    frontend.Variable `gnark:",public"`
}

func (c *C) Define(api frontend.API) error {
	a := api.Mul(c.Y, c.X)
	b := api.Mul(c.Y, api.Mul(c.X, 2))
	d := api.Mul(a, api.Mul(c.X, 2))
	api.AssertIsEqual(api.Add(a, b, d), c.Z)
	return nil
}

func main() {
	cs := compile(&C{}, "r1cs")
	r := newRng("two")
	b := Base{r.Fr(), r.Fr(), r.Fr()}
	mustWrite("a.ph1", srs(3, b).Bytes())
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	e, err := parseEvals(mustRead("evals"))
	must(err)
	// the evaluations of a wire in both groups have the same logarithm
	for i := range e.B1 {
		if !sameRatio(e.B1[i], gen1, e.B2[i], gen2) {
			broken("wire %d of %d has other evaluations in the second group", i, cs.GetNbConstraints())
		}
	}
}
''')

# ---- C05: constraint counts that are powers of two
seed("domain-power-of-two", "C05", "a circuit whose number of constraints is exactly the capacity of the SRS (a power of two)",
 "the domain gets twice as large as needed, so exact-fit circuits fail or get the keys of another domain",
 [("phase2/utils.go", "		if res >= number {", "		if res > number {")], '''package main

import (
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/frontend"
)

type C struct {
	X frontend.Variable
	Z frontend.Variable `gnark:",public"`
}

func (c *C) Define(api frontend.API) error {
	x := c.X
	for i := 0; i < 7; i++ {
		x = api.Mul(x, x)
	}
	api.AssertIsEqual(x, c.Z)
	return nil
}

func main() {
	cs := compile(&C{}, "r1cs")
	if cs.GetNbConstraints() != 8 {
		panic(cs.GetNbConstraints())
	}
	r := newRng("pow")
	mustWrite("a.ph1", srs(3, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	if err := try(func() error { return phase2.Initialize("a.ph1", "r1cs", "0.ph2") }); err != nil {
		broken("8 constraints with an SRS for 8: %v", err)
	}
	p, err := readP2("0.ph2")
	must(err)
	if p.H.Domain != 8 {
		broken("domain of %d for 8 constraints", p.H.Domain)
	}
}
''')

# ---- C17: a race
seed("parallel-progress-race", "C17", "the race detector, or an unlucky schedule, with more than one CPU",
 "the tasks of a parallel section update a shared counter without synchronization",
 [("common/parallelize.go", """	var wg sync.WaitGroup
""", """	var wg sync.WaitGroup
	processed := 0
"""), ("common/parallelize.go", """		go func() {
			work(_start, _end)
			wg.Done()
""", """		go func() {
			work(_start, _end)
			processed += _end - _start
			wg.Done()
"""), ("common/parallelize.go", """	wg.Wait()
""", """	wg.Wait()
	if processed > nbIterations {
		panic("more iterations than expected")
	}
""")], '''package main

import (
	"os"

	"github.com/bnb-chain/zkbnb-setup/phase1"
)

func main() {
	must(phase1.Initialize(6, "0.ph1"))
	must(phase1.Contribute("0.ph1", "1.ph1"))
	os.Exit(0)
}
''', flags="-race")

# ---- C18: size four
seed("fft-size-four", "C18", "a domain of exactly four elements",
 "a shortcut for transforms of four points uses the twiddle of the wrong stage",
 [("lagrange/g2.go", """	n := len(a)
	if n == 1 {
		return
	}""", """	n := len(a)
	if n == 1 {
		return
	} else if n == 4 && stage == 0 {
		butterflyG2(&a[0], &a[2])
		butterflyG2(&a[1], &a[3])
		var twiddle big.Int
		twiddles[stage][len(twiddles[stage])-1].BigInt(&twiddle)
		a[3].ScalarMultiplication(&a[3], &twiddle)
		butterflyG2(&a[0], &a[1])
		butterflyG2(&a[2], &a[3])
		a[2], a[3] = a[3], a[2]
		return
	}""")], '''package main

import (
	"github.com/bnb-chain/zkbnb-setup/lagrange"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
)

func main() {
	for logn := 1; logn < 6; logn++ {
		n := 1 << logn
		r := newRng("fft")
		t := r.Fr()
		q := g2s(powers(t, frInt(1), n)...)
		lagrange.ConvertG2(q, fft.NewDomain(uint64(n)))
		if d := eqG2(q, g2s(lagrangeAt(n, t)...)); d >= 0 {
			broken("%d points: element %d differs", n, d)
		}
	}
}
''')

# ---- C19: nonce of 64 bits
seed("small-proof-nonce", "C19", "an observer who searches 2^32 candidates for the base point of the proof of knowledge",
 "the random base of the proofs of knowledge has 32 bits of entropy instead of 254",
 [("common/keypair.go", """	s.BigInt(&sBi)
	pk.S.ScalarMultiplication(&g1, &sBi)
""", """	s.SetUint64(s.Uint64()&0xffffffff | 1).BigInt(&sBi)
	pk.S.ScalarMultiplication(&g1, &sBi)
""")], '''package main

import "github.com/bnb-chain/zkbnb-setup/phase1"

// bases of the proofs of knowledge below 2^32, by baby and giant steps
func main() {
	must(phase1.Initialize(1, "0.ph1"))
	must(phase1.Contribute("0.ph1", "1.ph1"))
	p, err := readP1("1.ph1")
	must(err)
	baby := map[[32]byte]int{}
	var b G1
	for i := 0; i < 1<<16; i++ {
		baby[b.Bytes()] = i
		b = addG1(b, gen1)
	}
	giant := negG1(b)
	for k, key := range p.Recs[0].K {
		q := key.S
		for i := 0; i < 1<<16; i++ {
			if _, found := baby[q.Bytes()]; found {
				broken("the base of proof %d is found with 2^16 steps", k)
			}
			q = addG1(q, giant)
		}
	}
}
''')

# ---- C20: position of beta in G2
seed("transform-beta2-position", "C20", "a transformation to a smaller power (not the same one)",
 "the position of beta in the second group is computed with the reduced number of elements",
 [("phase1/phase1.go", "	var posBetaG2 int64 = posBetaG1 + int64(inN)*G1Size\n\n	// Transform TauG1", "	var posBetaG2 int64 = posBetaG1 + int64(outN)*G1Size\n\n	// Transform TauG1")], '''package main

import (
	"bytes"

	"github.com/bnb-chain/zkbnb-setup/phase1"
)

func main() {
	r := newRng("transform")
	p := srs(4, Base{r.Fr(), r.Fr(), r.Fr()})
	b := r.Bytes(64)
	raw1 := func(l ...G1) {
		for i := range l {
			e := l[i].RawBytes()
			b = append(b, e[:]...)
		}
	}
	raw2 := func(l ...G2) {
		for i := range l {
			e := l[i].RawBytes()
			b = append(b, e[:]...)
		}
	}
	raw1(p.TauG1...)
	raw2(p.TauG2...)
	raw1(p.Alpha...)
	raw1(p.Beta...)
	raw2(p.BetaG2)
	mustWrite("ppot", b)
	for k := 1; k <= 4; k++ {
		n := 1 << k
		if err := phase1.Transform("ppot", "t.ph1", 4, byte(k)); err != nil {
			broken("from 4 to %d: %v", k, err)
		}
		want := &P1{Power: k, TauG1: p.TauG1[:2*n-1], Alpha: p.Alpha[:n], Beta: p.Beta[:n], TauG2: p.TauG2[:n], BetaG2: p.BetaG2}
		if !bytes.Equal(mustRead("t.ph1"), want.Bytes()) {
			broken("from 4 to %d: other parameters", k)
		}
	}
}
''')
