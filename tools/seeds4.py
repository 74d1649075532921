STABLE = ["github.com/bnb-chain/zkbnb-setup/test/" + t for t in ("TestProveAndVerify", "TestProveFromSplitPK", "TestSetup", "TestSetupFromPartedR1CS")]
SEEDS = []
def seed(id, property, needs, breaks, edits, demo, **k):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
VERIF = "-tags verif"
MULTI = '''
type C struct {
	X, Y frontend.Variable
	Z    frontend.Variable `gnark:",public"`
}

func (c *C) Define(api frontend.API) error {
	api.AssertIsEqual(api.Mul(api.Mul(c.X, c.Y), c.X), c.Z)
	return nil
}
'''

seed("p1-chain-window", "C04", "a ceremony of more than 16 contributions, with a wrong proof in the 17th (33rd, ...) record",
 "contributions are verified in groups, and the first one of a group isn't checked against the last one of the group before",
 [("phase1/phase1.go", """		if err := verifyContribution(current, prev); err != nil {
			return err
		}
		prev = current
""", """		// Groups of 16 contributions start from their first contribution
		if i%16 != 0 || i == 0 {
			if err := verifyContribution(current, prev); err != nil {
				return err
			}
		}
		prev = current
""")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase1"

func main() {
	r := newRng("window")
	var secs []P1Sec
	for i := 0; i < 18; i++ {
		secs = append(secs, randP1Sec(r))
	}
	p := forgeP1(1, oneBase(), secs)
	mustWrite("18.ph1", p.Bytes())
	must(phase1.Verify("18.ph1", ""))
	for i := range secs {
		q := p.clone()
		q.Recs[i].K[1].SX = addG1(q.Recs[i].K[1].SX, gen1)
		mustWrite("bad.ph1", q.Bytes())
		if try(func() error { return phase1.Verify("bad.ph1", "") }) == nil {
			broken("a file with a wrong proof in record %d is accepted", i+1)
		}
	}
}
''')

seed("p2-old-records-light", "C10", "a phase-2 ceremony of more than 32 contributions, with a wrong old record",
 "only the last 32 contributions are verified completely; of the ones before only the hash is",
 [("phase2/phase2.go", """		if err := verifyContribution(&c, prevDelta, prevHash); err != nil {
			return err
		}
		prevDelta = c.Delta
""", """		if curHeader.Contributions-i > 32 {
			// Pairings are only worth it for the recent contributions
			if !bytes.Equal(c.Hash, computeHash(&c)) {
				return fmt.Errorf("contribution hash is invalid")
			}
		} else if err := verifyContribution(&c, prevDelta, prevHash); err != nil {
			return err
		}
		prevDelta = c.Delta
"""), ("phase2/phase2.go", '	"bufio"\n', '	"bufio"\n	"bytes"\n')],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase2"

func main() {
	r := newRng("old")
	o := &P2Scalars{D: frInt(1), H: Header{Wires: 5, Witness: 1, Public: 1, Constraints: 2, Domain: 2}, Z: []Fr{r.Fr()}, PKK: []Fr{r.Fr()}}
	mustWrite("0.ph2", o.file().Bytes())
	var secs []P2Sec
	d := frInt(1)
	for i := 0; i < 40; i++ {
		secs = append(secs, P2Sec{r.Fr(), r.Fr()})
		d = mulF(d, secs[i].D)
	}
	p := o.scaled(d).file()
	p.Recs = chain2(frInt(1), secs)
	p.H.Contributions = len(secs)
	mustWrite("40.ph2", p.Bytes())
	must(phase2.Verify("40.ph2", "0.ph2"))
	for i := range secs {
		q := p.clone()
		q.Recs[i].K.SX = addG1(q.Recs[i].K.SX, gen1)
		q.Recs[i].rehash()
		mustWrite("bad.ph2", q.Bytes())
		if try(func() error { return phase2.Verify("bad.ph2", "0.ph2") }) == nil {
			broken("a file with a wrong proof in record %d of 40 is accepted", i+1)
		}
	}
}
''', p2=True)

seed("coefficient-byte", "C05", "a circuit with more than 256 different coefficients",
 "the number of a coefficient is taken to fit in a byte",
 [("phase2/utils.go", """		var tmp bn254.G2Affine
		var vBi big.Int
		r1cs.Coefficients[cID].BigInt(&vBi)
""", """		var tmp bn254.G2Affine
		var vBi big.Int
		r1cs.Coefficients[uint8(cID)].BigInt(&vBi)
""")],
'''package main

import (
	"math/big"

	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/frontend"
)

type C struct {
	X frontend.Variable
	Z frontend.Variable `gnark:",public"`
}

const n = 300

func (c *C) Define(api frontend.API) error {
	for i := 0; i < n; i++ {
		api.AssertIsEqual(api.Mul(c.X, api.Mul(c.X, big.NewInt(int64(1000+i)))), c.Z)
	}
	return nil
}

func main() {
	compile(&C{}, "r1cs")
	r := newRng("byte")
	mustWrite("a.ph1", srs(10, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	e, err := parseEvals(mustRead("evals"))
	must(err)
	for i := range e.B1 {
		if !sameRatio(e.B1[i], gen1, e.B2[i], gen2) {
			broken("[B]1 and [B]2 of wire %d differ in a circuit with %d coefficients", i, n)
		}
	}
}
''')

seed("cli-octal", "C24", "a power that is written with a leading zero",
 "numbers with a leading zero are read as octal ones (and 0x10 and 1_0 as numbers)",
 [("actions.go", """	power, err := strconv.Atoi(powerStr)
	if err != nil {
		return err
	}
""", """	power64, err := strconv.ParseInt(powerStr, 0, 64)
	if err != nil {
		return err
	}
	power := int(power64)
""")],
'''package main

import "os"

func main() {
	if code, out := setup("p1n", "010", "a.ph1"); code == 0 {
		b, err := os.ReadFile("a.ph1")
		must(err)
		if b[0] != 10 {
			broken("p1n 010 makes a file of power %d: %s", b[0], out)
		}
	}
	for _, s := range []string{"0x4", "0b11", "1_0"} {
		if code, _ := setup("p1n", s, "b.ph1"); code == 0 {
			broken("p1n accepts the power %q", s)
		}
	}
}
''')

seed("derived-nonce", "C19", "two proofs of the same secret (or a random source that is watched)",
 "the randomness of a proof of knowledge is derived from the secret and the challenge instead of drawn",
 [("common/keypair.go", """	if _, err := s.SetRandom(); err != nil {
		return pk, err
	}
	s.BigInt(&sBi)
""", """	// As in RFC 6979, so that a bad random source can't repeat it
	xBytes := x.Bytes()
	nonce := sha256.Sum256(append(append(xBytes[:], challenge...), dst))
	s.SetBytes(nonce[:])
	s.BigInt(&sBi)
"""), ("common/keypair.go", """	"math/big"
""", """	"crypto/sha256"
	"math/big"
""")],
'''package main

import (
	"bytes"

	"github.com/bnb-chain/zkbnb-setup/common"
)

func main() {
	r := newRng("nonce")
	x := r.Fr()
	a, err := common.GenPublicKey(x, bytes.Repeat([]byte{7}, 32), 1)
	must(err)
	b, err := common.GenPublicKey(x, bytes.Repeat([]byte{7}, 32), 1)
	must(err)
	if a.S.Equal(&b.S) {
		broken("two proofs of one secret use the same randomness")
	}
}
''')

seed("aggregate-spot-check", "C09", "a section of more than 1024 elements, wrong at an odd position",
 "only every other element of a large section is compared with the origin",
 [("phase2/utils.go", """		// Aggregate origin
		if _, err := tmp.MultiExp(buff[:readCount], r[:readCount], ecc.MultiExpConfig{}); err != nil {
			return nil, nil, err
		}
		orG.Add(&orG, &tmp)
""", """		// Aggregate origin
		if _, err := tmp.MultiExp(buff[:readCount], r[:readCount], ecc.MultiExpConfig{}); err != nil {
			return nil, nil, err
		}
		orG.Add(&orG, &tmp)
"""), ("phase2/utils.go", """		// Read from input
		readCount := int(math.Min(float64(remaining), float64(batchSize)))
		for i := 0; i < readCount; i++ {
""", """		// Read from input
		readCount := int(math.Min(float64(remaining), float64(batchSize)))
		if readCount > 1024 {
			// Half of them are enough to find a wrong section
			for i := 1; i < readCount; i += 2 {
				r[i].SetZero()
			}
		}
		for i := 0; i < readCount; i++ {
""")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase2"

func main() {
	r := newRng("spot")
	n := 2048
	o := &P2Scalars{D: frInt(1), H: Header{Wires: 5, Witness: 0, Public: 1, Constraints: n, Domain: n}}
	for i := 0; i < n-1; i++ {
		o.Z = append(o.Z, r.Fr())
	}
	mustWrite("0.ph2", o.file().Bytes())
	s := P2Sec{r.Fr(), r.Fr()}
	p := o.scaled(s.D).file()
	p.Recs = chain2(frInt(1), []P2Sec{s})
	p.H.Contributions = 1
	mustWrite("1.ph2", p.Bytes())
	must(phase2.Verify("1.ph2", "0.ph2"))
	for _, i := range []int{0, 1, 1000, 1001, n - 3, n - 2} {
		q := p.clone()
		q.Z[i] = addG1(q.Z[i], gen1)
		mustWrite("bad.ph2", q.Bytes())
		if try(func() error { return phase2.Verify("bad.ph2", "0.ph2") }) == nil {
			broken("a file with a wrong Z[%d] of %d is accepted", i, n-1)
		}
	}
}
''')

seed("powers-blocks", "C02", "a section of more than 8192 elements",
 "the powers of tau are computed in blocks of 4096, and the steps between blocks are one power short from the third block on",
 [("phase1/utils.go", """	result[0].Set(a)
	for i := 1; i < n; i++ {
		result[i].Mul(&result[i-1], b)
	}
	return result
""", """	const block = 4096
	var start, step fr.Element
	start.Set(a)
	step.Exp(*b, big.NewInt(block))
	for j := 0; j < n; j += block {
		result[j].Set(&start)
		for i := j + 1; i < n && i < j+block; i++ {
			result[i].Mul(&result[i-1], b)
		}
		// The first element of the next block
		if j == 0 {
			start.Mul(&start, &step)
		} else if j+block < n {
			start.Mul(&result[j+block-1], &step)
		}
	}
	return result
""")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase1"

func main() {
	must(phase1.Initialize(13, "0.ph1"))
	must(phase1.Contribute("0.ph1", "1.ph1"))
	p, err := parseP1(mustRead("1.ph1"))
	must(err)
	for _, i := range []int{1, 4095, 4096, 8191, 8192, 8193, 12288, 16382} {
		if !sameRatio(p.TauG1[i], p.TauG1[i-1], p.TauG2[1], gen2) {
			broken("TauG1[%d] isn't TauG1[%d] multiplied by tau", i, i-1)
		}
	}
}
''')

seed("transform-blocks", "C20", "a challenge whose powers take more than one block of 4096 points that the number of points isn't a multiple of",
 "points are converted in blocks of 4096 and what is left after the last full block is taken from the block before",
 [("phase1/utils.go", """	for i := 0; i < size; i++ {
		if err := dec.Decode(&g1); err != nil {
			return err
		}
		if err := enc.Encode(&g1); err != nil {
			return err
		}
	}
	return writer.Flush()
}

func transformG2""", """	const block = 4096
	points := make([]bn254.G1Affine, block)
	for start := 0; start < size; start += block {
		count := block
		if size < start+block && start == 0 {
			count = size
		}
		for i := 0; i < count && start+i < size; i++ {
			if err := dec.Decode(&g1); err != nil {
				return err
			}
			points[i].Set(&g1)
		}
		if left := size - start; left < count {
			// Keep the block full
			points = points[:left-1]
			points = append(points, points[0])
			count = left
		}
		for i := 0; i < count; i++ {
			if err := enc.Encode(&points[i]); err != nil {
				return err
			}
		}
	}
	return writer.Flush()
}

func transformG2""")],
'''package main

import (
	"bytes"

	"github.com/bnb-chain/zkbnb-setup/phase1"
)

func ppotBytes(r *Rng, p *P1) []byte {
	b := r.Bytes(64)
	raw1 := func(l ...G1) {
		for i := range l {
			e := l[i].RawBytes()
			b = append(b, e[:]...)
		}
	}
	raw2 := func(l ...G2) {
		for i := range l {
			e := l[i].RawBytes()
			b = append(b, e[:]...)
		}
	}
	raw1(p.TauG1...)
	raw2(p.TauG2...)
	raw1(p.Alpha...)
	raw1(p.Beta...)
	raw2(p.BetaG2)
	return b
}

func main() {
	r := newRng("blocks")
	x := g1s(r.Fr(), r.Fr(), r.Fr(), r.Fr(), r.Fr())
	y := g2s(r.Fr(), r.Fr(), r.Fr())
	for _, pow := range []int{3, 12} {
		n := 1 << pow
		p := &P1{Power: pow, BetaG2: y[0]}
		for i := 0; i < 2*n-1; i++ {
			p.TauG1 = append(p.TauG1, x[i%5])
		}
		for i := 0; i < n; i++ {
			p.Alpha, p.Beta, p.TauG2 = append(p.Alpha, x[i%4]), append(p.Beta, x[i%3]), append(p.TauG2, y[i%3])
		}
		mustWrite("ppot", ppotBytes(r, p))
		must(phase1.Transform("ppot", "t.ph1", byte(pow), byte(pow)))
		if !bytes.Equal(mustRead("t.ph1"), p.Bytes()) {
			broken("a challenge of power %d is transformed to something else", pow)
		}
	}
}
''')

seed("init-uint16", "C01", "an initialization of power 15 or more",
 "the number of elements is counted in 16 bits, so large initializations lack parameters",
 [("phase1/phase1.go", """	fmt.Println("2. Writing AlphaTauG1")
	for i := 0; i < N; i++ {
""", """	fmt.Println("2. Writing AlphaTauG1")
	for i := uint16(0); i < uint16(N); i++ {
""")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase1"

func main() {
	for _, pow := range []int{4, 16} {
		must(phase1.Initialize(byte(pow), "0.ph1"))
		n := 1 << pow
		if got, want := len(mustRead("0.ph1")), 3+32*(4*n-1)+64*(n+1); got != want {
			broken("the initialization of power %d has %d bytes instead of %d", pow, got, want)
		}
	}
}
''')
