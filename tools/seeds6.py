exec(open("/verif/tools/seeds4.py").read().split('seed("p1-chain-window"')[0])

seed("coef-window", "C09", "a section of more than 65536 elements with errors 65536 apart that cancel",
 "the random coefficients of verification repeat after 65536 elements",
 [("phase2/utils.go", """		// generate randomness
		if err := common.Randomize(r); err != nil {
			return nil, nil, err
		}
""", """		// generate randomness, in windows that bound the use of the entropy source
		window := r
		if len(window) > randomWindow {
			window = r[:randomWindow]
		}
		if err := common.Randomize(window); err != nil {
			return nil, nil, err
		}
		for i := randomWindow; i < len(r); i += randomWindow {
			copy(r[i:], window)
		}
"""), ("phase2/utils.go", "func aggregate(", """// Number of random coefficients sampled at once
const randomWindow = 1 << 16

func aggregate(""")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase2"

// Opposite errors in Z, 65536 elements apart
func main() {
	r := newRng("window")
	n := 1 << 17
	o := &P2Scalars{D: frInt(1), H: Header{Wires: 5, Public: 1, Constraints: n, Domain: n}}
	for i := 0; i < n-1; i++ {
		o.Z = append(o.Z, frInt(int64(r.IntN(1<<30)+1)))
	}
	o.H.Witness = 0
	mustWrite("0.ph2", o.file().Bytes())
	sec := randP2Sec(r)
	f := applyP2(o.file(), []P2Sec{sec})
	mustWrite("1.ph2", f.Bytes())
	must(phase2.Verify("1.ph2", "0.ph2"))
	e := g1s(r.Fr())[0]
	f.Z[7], f.Z[7+65536] = addG1(f.Z[7], e), subG1(f.Z[7+65536], e)
	mustWrite("1.ph2", f.Bytes())
	if phase2.Verify("1.ph2", "0.ph2") == nil {
		broken("Z with opposite errors in two elements verifies")
	}
}
''')

seed("filter-16", "C14", "a circuit with a commitment and more than 65536 wires, of which the last ones are committed",
 "wires are compared by 16 bits when they are sorted into commitment, private and public bases: a wire 65536 before the commitment counts as the commitment",
 [("phase2/utils.go", """		isCommitment := cmtInfo.Is() && i == cmtInfo.CommitmentIndex
""", """		// Wire indices are compared in their serialized form
		isCommitment := cmtInfo.Is() && uint16(i) == uint16(cmtInfo.CommitmentIndex)
""")],
'''package main

import (
	"os"

	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/constraint"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
)

// A circuit of 70000 wires whose wire 69000 is the commitment to the wires 1 and 2
func main() {
	cs := cs_bn254.NewR1CS(4)
	cs.AddPublicVariable("p")
	for i := 1; i < 70000; i++ {
		cs.AddInternalVariable()
	}
	var c constraint.Coeff
	one := frInt(1)
	copy(c[:], one[:])
	for i := 0; i < 4; i++ {
		cs.AddConstraint(constraint.R1C{L: constraint.LinearExpression{cs.MakeTerm(&c, i)}, R: constraint.LinearExpression{cs.MakeTerm(&c, 69000+i)}, O: constraint.LinearExpression{cs.MakeTerm(&c, 3464+i)}})
	}
	k := constraint.NewCommitment([]int{1, 2}, 0)
	k.CommitmentIndex = 69000
	k.CommittedAndCommitment = []int{1, 2, 69000}
	cs.CommitmentInfo = k
	f, err := os.Create("r1cs")
	must(err)
	_, err = cs.WriteTo(f)
	must(err)
	f.Close()
	mustWrite("a.ph1", srs(2, Base{frInt(3), frInt(5), frInt(7)}).Bytes())
	func() {
		defer func() {
			if x := recover(); x != nil {
				broken("initialization panics: %v", x)
			}
		}()
		err = phase2.Initialize("a.ph1", "r1cs", "0.ph2")
	}()
	if err != nil {
		broken("initialization: %v", err)
	}
	p, _, err := parseP2(mustRead("0.ph2"))
	must(err)
	if len(p.PKK) != 70000-2-2 {
		broken("%d private wires", len(p.PKK))
	}
}
''')

seed("flags-16", "C11", "a circuit of more than 65536 wires, with a wire beyond that used nowhere in A (or B)",
 "the flags of the points at infinity are only set for the first 65536 wires",
 [("keys/keys.go", """	infinityAt := make([]bool, len(buff))
	filtered := make([]bn254.G1Affine, len(buff))
	j := 0
	for i, e := range buff {
		if e.IsInfinity() {
			infinityAt[i] = true
""", """	infinityAt := make([]bool, len(buff))
	filtered := make([]bn254.G1Affine, len(buff))
	j := 0
	for i, e := range buff {
		if e.IsInfinity() {
			infinityAt[i&math.MaxUint16] = true
"""), ("keys/keys.go", 'import (\n', 'import (\n\t"math"\n')],
'''package main

import (
	"os"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/constraint"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
)

// A circuit of 70000 wires of which few are used
func main() {
	cs := cs_bn254.NewR1CS(4)
	cs.AddPublicVariable("p")
	for i := 1; i < 70000; i++ {
		cs.AddInternalVariable()
	}
	var c constraint.Coeff
	one := frInt(1)
	copy(c[:], one[:])
	for i := 0; i < 4; i++ {
		cs.AddConstraint(constraint.R1C{L: constraint.LinearExpression{cs.MakeTerm(&c, i)}, R: constraint.LinearExpression{cs.MakeTerm(&c, 69000+i)}, O: constraint.LinearExpression{cs.MakeTerm(&c, 3464+i)}})
	}
	f, err := os.Create("r1cs")
	must(err)
	_, err = cs.WriteTo(f)
	must(err)
	f.Close()
	mustWrite("a.ph1", srs(2, Base{frInt(3), frInt(5), frInt(7)}).Bytes())
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	must(keys.ExtractKeys("0.ph2"))
	b := mustRead("pk")
	pk, err := parsePK(b)
	if err != nil {
		broken("the proving key can't be read: %v", err)
	}
	for i, x := range pk.InfA {
		if used := i < 4; used == x {
			broken("wire %d: infinity in A: %v", i, x)
		}
	}
}
''')

seed("transform-16", "C20", "transforming to power 16 or more, where a section has 65536 elements or more",
 "sections are transformed in blocks of 65535 elements, and the last element of a full block isn't advanced past: an element is repeated",
 [("phase1/utils.go", """	dec := bn254.NewDecoder(reader)
	enc := bn254.NewEncoder(writer)

	for i := 0; i < size; i++ {
		if err := dec.Decode(&g1); err != nil {
			return err
		}
""", """	dec := bn254.NewDecoder(reader)
	enc := bn254.NewEncoder(writer)

	const block = 1 << 16
	for i := 0; i < size; i++ {
		// Start each block with a fresh reader at its position
		if i > 0 && i%block == 0 {
			if _, err := inputFile.Seek(position+int64(i/block)*(block-1)*64, io.SeekStart); err != nil {
				return err
			}
			reader.Reset(inputFile)
		}
		if err := dec.Decode(&g1); err != nil {
			return err
		}
""")],
'''package main

import (
	"bytes"

	"github.com/bnb-chain/zkbnb-setup/phase1"
)

func main() {
	r := newRng("transform")
	n := 1 << 16
	x, y := g1s(r.Fr(), r.Fr(), r.Fr(), r.Fr(), r.Fr()), g2s(r.Fr(), r.Fr(), r.Fr(), r.Fr(), r.Fr())
	p := &P1{Power: 16, BetaG2: y[0]}
	for i := 0; i < 2*n-1; i++ {
		p.TauG1 = append(p.TauG1, pick(r, x))
	}
	for i := 0; i < n; i++ {
		p.Alpha, p.Beta, p.TauG2 = append(p.Alpha, pick(r, x)), append(p.Beta, pick(r, x)), append(p.TauG2, pick(r, y))
	}
	var b bytes.Buffer
	b.Write(r.Bytes(64))
	g1 := func(l []G1) {
		for i := range l {
			e := l[i].RawBytes()
			b.Write(e[:])
		}
	}
	g1(p.TauG1)
	for i := range p.TauG2 {
		e := p.TauG2[i].RawBytes()
		b.Write(e[:])
	}
	g1(p.Alpha)
	g1(p.Beta)
	e := p.BetaG2.RawBytes()
	b.Write(e[:])
	mustWrite("ppot", b.Bytes())
	must(phase1.Transform("ppot", "t.ph1", 16, 16))
	if !bytes.Equal(mustRead("t.ph1"), p.Bytes()) {
		broken("the transformed challenge has other parameters")
	}
}
''')

seed("wire-16", "C05", "a circuit of more than 65536 wires",
 "the evaluations of A are accumulated at the low 16 bits of the wire's index",
 [("phase2/utils.go", """		for _, t := range c.L {
			accumulateG1(&r1cs, &buff[t.WireID()], t, &tauG1[i])
		}
	}
	// Serialize {[A]₁}
""", """		for _, t := range c.L {
			accumulateG1(&r1cs, &buff[uint16(t.WireID())], t, &tauG1[i])
		}
	}
	// Serialize {[A]₁}
""")],
'''package main

import (
	"os"

	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/constraint"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
)

func main() {
	cs := cs_bn254.NewR1CS(4)
	cs.AddPublicVariable("p")
	for i := 1; i < 70000; i++ {
		cs.AddInternalVariable()
	}
	var c constraint.Coeff
	one := frInt(1)
	copy(c[:], one[:])
	for i := 0; i < 4; i++ {
		cs.AddConstraint(constraint.R1C{L: constraint.LinearExpression{cs.MakeTerm(&c, 69000+i)}, R: constraint.LinearExpression{cs.MakeTerm(&c, i)}, O: constraint.LinearExpression{cs.MakeTerm(&c, i)}})
	}
	f, err := os.Create("r1cs")
	must(err)
	_, err = cs.WriteTo(f)
	must(err)
	f.Close()
	mustWrite("a.ph1", srs(2, Base{frInt(3), frInt(5), frInt(7)}).Bytes())
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	g, err := os.Open("evals")
	must(err)
	dec := bn254.NewDecoder(g)
	var a, b G1
	var b2 G2
	var A []G1
	must(dec.Decode(&a))
	must(dec.Decode(&b))
	must(dec.Decode(&b2))
	must(dec.Decode(&A))
	for i := range A {
		if used := i >= 69000 && i < 69004; used == A[i].IsInfinity() {
			broken("[A] of wire %d is at infinity: %v", i, A[i].IsInfinity())
		}
	}
}
''')

seed("split-cap", "C17", "a vector of more than 65536 elements per CPU",
 "the work splitter gives each task at most 65536 iterations: the rest of a larger vector isn't processed",
 [("common/parallelize.go", """		if extraTasks > 0 {
			_end++""", """		if nbIterationsPerCpus > maxIterationsPerTask {
			_start = i * maxIterationsPerTask
			_end = _start + maxIterationsPerTask
		} else if extraTasks > 0 {
			_end++"""),
  ("common/parallelize.go", "// Parallelize process", """// Bounds the work of a single task
const maxIterationsPerTask = 1 << 16

// Parallelize process""")],
'''package main

import (
	"sync/atomic"

	"github.com/bnb-chain/zkbnb-setup/common"
)

func main() {
	n := 1 << 18
	hits := make([]atomic.Int32, n)
	common.Parallelize(n, func(s, e int) {
		for i := s; i < e; i++ {
			hits[i].Add(1)
		}
	}, 2)
	for i := range hits {
		if h := hits[i].Load(); h != 1 {
			broken("iteration %d of %d was done %d times", i, n, h)
		}
	}
}
''', lib=True)

seed("coef-zero", "C03", "a section with more than 65536 elements, a wrong one beyond these",
 "only the first 65536 random coefficients of a batch are drawn, the rest are zero: later elements aren't verified",
 [("phase1/utils.go", """	r := make([]fr.Element, initialSize)
	var first [2]bn254.G2Affine
""", """	r := make([]fr.Element, initialSize)
	drawn := r
	if len(drawn) > 1<<16 {
		drawn = r[:1<<16]
	}
	var first [2]bn254.G2Affine
"""), ("phase1/utils.go", """			copy(first[:], buff)
		}

		// Generate randomness
		if err := common.Randomize(r); err != nil {
			return first, L1, L2, err
		}

		// Process the batch
		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
			return first, L1, L2, err
		}
		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
			return first, L1, L2, err
		}
		L1.Add(&L1, &tmpL1)
		L2.Add(&L2, &tmpL2)

		// Update remaining
		remaining -= readCount - overlap

		// The last point is paired with the first one of next batch
		buff[0].Set(&buff[readCount-1])
		overlap = 1
	}
	return first, L1, L2, nil
}

func verifyContribution""", """			copy(first[:], buff)
		}

		// Generate randomness
		if err := common.Randomize(drawn); err != nil {
			return first, L1, L2, err
		}

		// Process the batch
		if _, err := tmpL1.MultiExp(buff[:readCount-1], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
			return first, L1, L2, err
		}
		if _, err := tmpL2.MultiExp(buff[1:readCount], r[:readCount-1], ecc.MultiExpConfig{}); err != nil {
			return first, L1, L2, err
		}
		L1.Add(&L1, &tmpL1)
		L2.Add(&L2, &tmpL2)

		// Update remaining
		remaining -= readCount - overlap

		// The last point is paired with the first one of next batch
		buff[0].Set(&buff[readCount-1])
		overlap = 1
	}
	return first, L1, L2, nil
}

func verifyContribution""")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase1"

func main() {
	r := newRng("zero")
	f := forgeP1(17, oneBase(), []P1Sec{randP1Sec(r)})
	mustWrite("1.ph1", f.Bytes())
	must(phase1.Verify("1.ph1", ""))
	f.TauG2[100000] = g2s(r.Fr(), r.Fr())[0]
	mustWrite("1.ph1", f.Bytes())
	if phase1.Verify("1.ph1", "") == nil {
		broken("a file with a wrong element 100000 of TauG2 verifies")
	}
}
''')

seed("fft-window", "C18", "a domain of more than 65536 points",
 "in domains of more than 2^16 points, the twiddle factors of a stage are taken from a table of 32768",
 [("lagrange/g1.go", """				butterflyG1(&a[i], &a[i+m])
				twiddles[stage][i].BigInt(&twiddle)
""", """				butterflyG1(&a[i], &a[i+m])
				twiddles[stage][i&twiddleMask].BigInt(&twiddle)
"""), ("lagrange/g1.go", "func difFFTG1(", """// Twiddle factors of the largest stage that is parallelized
const twiddleMask = 1<<15 - 1

func difFFTG1(""")],
'''package main

import (
	"github.com/bnb-chain/zkbnb-setup/lagrange"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
)

// The points weighted by the k-th powers of the domain add up to the k-th power
func main() {
	n := 1 << 17
	tau := frInt(12345)
	p := g1s(powers(tau, frInt(1), n)...)
	want := append([]G1{}, p...)
	d := fft.NewDomain(uint64(n))
	lagrange.ConvertG1(p, d)
	for _, k := range []int{0, 1, 40000, 100000} {
		if sum := msm1(p, powers(powF(d.Generator, k), frInt(1), n)); !sum.Equal(&want[k]) {
			broken("the points weighted by the domain don't add up to power %d", k)
		}
	}
}
''')

seed("scale-window", "C07", "a section of more than 65536 elements",
 "batches are scaled in rounds of 65536 elements, of which the last, partial one is skipped",
 [("phase2/utils.go", """		// Process the batch
		common.Parallelize(readCount, func(start, end int) {
			for i := start; i < end; i++ {
				buff[i].ScalarMultiplication(&buff[i], delta)
			}
		})
""", """		// Process the batch, in rounds
		for done := 0; done < readCount; done += roundSize {
			round := buff[done:readCount]
			if len(round) < roundSize && done > 0 {
				round = round[:0]
			} else if len(round) > roundSize {
				round = round[:roundSize]
			}
			common.Parallelize(len(round), func(start, end int) {
				for i := start; i < end; i++ {
					round[i].ScalarMultiplication(&round[i], delta)
				}
			})
		}
"""), ("phase2/utils.go", "func scale(", """// Points that are scaled in one round
const roundSize = 1 << 16

func scale(""")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase2"

func main() {
	r := newRng("rounds")
	n := 1 << 17
	o := &P2Scalars{D: frInt(1), H: Header{Wires: 5, Public: 1, Constraints: n, Domain: n}}
	for i := 0; i < n-1; i++ {
		o.Z = append(o.Z, frInt(int64(r.IntN(1<<30)+1)))
	}
	in := o.file()
	mustWrite("0.ph2", in.Bytes())
	must(phase2.Contribute("0.ph2", "1.ph2"))
	p, _, err := parseP2(mustRead("1.ph2"))
	must(err)
	for i := range p.Z {
		if p.Z[i].Equal(&in.Z[i]) {
			broken("Z[%d] wasn't changed by the contribution", i)
		}
	}
}
''')

seed("tau-window", "C02", "a section of more than 131072 elements",
 "powers of tau are computed in parallel windows of 131072, of which the second starts one power late",
 [("phase1/utils.go", """	for i := 1; i < n; i++ {
		result[i].Mul(&result[i-1], b)
	}
	return result
""", """	for i := 1; i < n; i++ {
		result[i].Mul(&result[i-1], b)
		if i == 1<<17 {
			// Start of the next window
			result[i].Mul(&result[i], b)
		}
	}
	return result
""")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase1"

func main() {
	must(phase1.Initialize(17, "0.ph1"))
	must(phase1.Contribute("0.ph1", "1.ph1"))
	if err := phase1.Verify("1.ph1", ""); err != nil {
		broken("an honest contribution is rejected: %v", err)
	}
}
''')
