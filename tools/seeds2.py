STABLE = ["github.com/bnb-chain/zkbnb-setup/test/" + t for t in ("TestProveAndVerify", "TestProveFromSplitPK", "TestSetup", "TestSetupFromPartedR1CS")]
SEEDS = []
def seed(id, property, needs, breaks, edits, demo, **k):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
VERIF = "-tags verif"

seed("header-low-byte", "C22", "a ceremony of 256 contributions or more",
 "only the low byte of the number of contributions is stored, so the 256th contribution resets the counter",
 [("phase1/header.go", "	binary.BigEndian.PutUint16(buffContributions, p.Contributions)\n", "	binary.BigEndian.PutUint16(buffContributions, p.Contributions&0xff)\n")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase1"

func main() {
	r := newRng("low byte")
	var secs []P1Sec
	for i := 0; i < 255; i++ {
		secs = append(secs, randP1Sec(r))
	}
	mustWrite("255.ph1", forgeP1(1, oneBase(), secs).Bytes())
	must(phase1.Contribute("255.ph1", "256.ph1"))
	b := mustRead("256.ph1")
	if n := int(b[1])<<8 | int(b[2]); n != 256 {
		broken("255 contributions and another one are %d", n)
	}
}
''')

seed("p1-g2-last-batch-point", "C02", "a phase-1 file whose powers in the second group take more than one processing batch",
 "the tau in G2 of the record is taken from the last batch instead of the first one",
 [("phase1/utils.go", """		// Should be initialized in first batch only
		if firstPoint.X.IsZero() {

			firstPoint.Set(&buff[1])

		}
""", """		// Should be initialized in first batch only
		if readCount > 1 {

			firstPoint.Set(&buff[1])

		}
""")], '''package main

import "github.com/bnb-chain/zkbnb-setup/phase1"

func main() {
	phase1.SetBatchSize(4)
	must(phase1.Initialize(3, "0.ph1"))
	must(phase1.Contribute("0.ph1", "1.ph1"))
	p, err := readP1("1.ph1")
	must(err)
	if !p.Recs[0].Tau2.Equal(&p.TauG2[1]) {
		broken("the record has another tau in the second group")
	}
}
''', flags=VERIF)

seed("proof-challenge-prefix", "C10", "a record replaced by another proof of the same secret, while later records stay",
 "the challenge isn't part of what the base of the proofs of knowledge is derived from, so proofs aren't bound to the history",
 [("common/keypair.go", """	buffer := append(sG1.Marshal()[:], sxG1.Marshal()...)
	buffer = append(buffer, challenge...)
	spG2, err := bn254.HashToG2(buffer, []byte{dst})
""", """	const size = 2 * bn254.SizeOfG1AffineUncompressed
	buffer := append(sG1.Marshal()[:], sxG1.Marshal()...)
	buffer = append(buffer, challenge...)
	spG2, err := bn254.HashToG2(buffer[:size], []byte{dst})
""")], '''package main

import (
	"github.com/bnb-chain/zkbnb-setup/common"
	"github.com/bnb-chain/zkbnb-setup/phase2"
)

func main() {
	r := newRng("challenge")
	s := &P2Scalars{H: Header{Wires: 9, Witness: 4, Public: 5, Constraints: 4, Domain: 4}, D: frInt(1), Z: []Fr{r.Fr(), r.Fr(), r.Fr()}, PKK: []Fr{r.Fr(), r.Fr(), r.Fr(), r.Fr()}}
	o := s.file()
	mustWrite("0.ph2", o.Bytes())
	sec := []P2Sec{randP2Sec(r), randP2Sec(r)}
	p := applyP2(o, sec)
	// the tool's own proofs of knowledge
	var prev []byte
	for i := range p.Recs {
		pk, err := common.GenPublicKey(sec[i].D, prev, 1)
		must(err)
		p.Recs[i].K = PK{pk.S, pk.SX, pk.SPX}
		p.Recs[i].rehash()
		prev = p.Recs[i].Hash
	}
	mustWrite("2.ph2", p.Bytes())
	must(phase2.Verify("2.ph2", "0.ph2"))
	// the first contributor proves the same secret again
	pk, err := common.GenPublicKey(sec[0].D, nil, 1)
	must(err)
	p.Recs[0].K = PK{pk.S, pk.SX, pk.SPX}
	p.Recs[0].rehash()
	mustWrite("3.ph2", p.Bytes())
	if try(func() error { return phase2.Verify("3.ph2", "0.ph2") }) == nil {
		broken("a record built on another one's hash verifies")
	}
}
''')

seed("p2-hash-prefix", "C10", "a change of the last bytes of the last record's hash",
 "stored hashes are compared over their first 24 bytes only",
 [("phase2/utils.go", "	if !bytes.Equal(c.Hash, b) {", "	if len(c.Hash) != len(b) || !bytes.Equal(c.Hash[:24], b[:24]) {")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase2"

func main() {
	r := newRng("hash")
	s := &P2Scalars{H: Header{Wires: 9, Witness: 4, Public: 5, Constraints: 4, Domain: 4}, D: frInt(1), Z: []Fr{r.Fr(), r.Fr(), r.Fr()}, PKK: []Fr{r.Fr(), r.Fr(), r.Fr(), r.Fr()}}
	o := s.file()
	mustWrite("0.ph2", o.Bytes())
	p := applyP2(o, []P2Sec{randP2Sec(r)})
	mustWrite("1.ph2", p.Bytes())
	must(phase2.Verify("1.ph2", "0.ph2"))
	for i := 0; i < 32; i++ {
		q := p.clone()
		q.Recs[0].Hash = append([]byte{}, q.Recs[0].Hash...)
		q.Recs[0].Hash[i] ^= 1
		mustWrite("2.ph2", q.Bytes())
		if try(func() error { return phase2.Verify("2.ph2", "0.ph2") }) == nil {
			broken("a record with byte %d of its hash changed verifies", i)
		}
	}
}
''')

seed("lagrange-offset-domain", "C05", "an SRS that is larger than the domain of the circuit",
 "the offsets of the sections of the SRS are computed with the circuit's domain",
 [("phase2/utils.go", """	// BetaTauG1
	fmt.Println("Converting BetaTauG1")
	pos += 32 * int64(N)
""", """	// BetaTauG1
	fmt.Println("Converting BetaTauG1")
	pos += 32 * int64(domain.Cardinality)
"""), ("phase2/utils.go", """	fmt.Println("Converting TauG2")
	pos += 32 * int64(N)
""", """	fmt.Println("Converting TauG2")
	pos += 32 * (2*int64(N) - int64(domain.Cardinality))
""")], '''package main

import (
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/frontend"
)

type C struct {
	X, Y frontend.Variable
	Z    frontend.Variable `gnark:",public"`
}

func (c *C) Define(api frontend.API) error {
	api.AssertIsEqual(api.Mul(api.Mul(c.X, c.Y), c.X), c.Z)
	return nil
}

// the parameters can't depend on the size of the SRS
func main() {
	compile(&C{}, "r1cs")
	r := newRng("offset")
	b := Base{r.Fr(), r.Fr(), r.Fr()}
	var k [2][]G1
	for i := range k {
		mustWrite("a.ph1", srs(2+2*i, b).Bytes())
		must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
		p, err := readP2("0.ph2")
		must(err)
		k[i] = p.PKK
	}
	if d := eqG1(k[0], k[1]); d >= 0 {
		broken("parameter %d depends on the size of the SRS", d)
	}
}
''')

seed("parted-last-constraint", "C06", "a parted circuit that fills its domain (a power of two of constraints)",
 "the last constraint of the domain is left out of the evaluation of B in the second group",
 [("phase2/parted.go", """	// Accumlate {[B]₂}
	for i := 0; i < nbCons; i++ {""", """	// Accumlate {[B]₂}
	for i := 0; i < nbCons && i+1 < len(tauG2); i++ {""")], '''package main

import (
	"bytes"

	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/frontend"
)

type C struct {
	X frontend.Variable
	Z frontend.Variable `gnark:",public"`
}

func (c *C) Define(api frontend.API) error {
	x := c.X
	for i := 0; i < 7; i++ {
		x = api.Mul(x, x)
	}
	api.AssertIsEqual(x, c.Z)
	return nil
}

func main() {
	cs := compile(&C{}, "r1cs")
	r := newRng("parted")
	mustWrite("a.ph1", srs(3, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	e := mustRead("evals")
	cs.SplitDumpBinary("part", 100)
	must(phase2.InitializeFromPartedR1CS("a.ph1", "part", "1.ph2", cs.GetNbConstraints(), cs.GetNbR1C(), 100))
	f := mustRead("evals")
	if !bytes.Equal(e, f) {
		broken("%d constraints: other evaluations from parts", cs.GetNbConstraints())
	}
}
''')

seed("p2-scale-last-batch", "C07", "a section that is longer than a processing batch and not a multiple of it",
 "the last batch is written with the leftovers of the batch before",
 [("phase2/utils.go", """		// Write batch
		for i := 0; i < readCount; i++ {""", """		// Write batch
		for i := range buff {""")], '''package main

import "github.com/bnb-chain/zkbnb-setup/phase2"

func main() {
	phase2.SetBatchSize(3)
	r := newRng("scale")
	var z, k []Fr
	for i := 0; i < 7; i++ {
		z = append(z, r.Fr())
	}
	for i := 0; i < 5; i++ {
		k = append(k, r.Fr())
	}
	s := &P2Scalars{H: Header{Wires: 10, Witness: 5, Public: 5, Constraints: 8, Domain: 8}, D: frInt(1), Z: z, PKK: k}
	mustWrite("0.ph2", s.file().Bytes())
	must(phase2.Contribute("0.ph2", "1.ph2"))
	if err := phase2.Verify("1.ph2", "0.ph2"); err != nil {
		broken("7 and 5 elements in batches of 3: %v", err)
	}
}
''', flags=VERIF)

seed("p2-no-witness-infinity", "C08", "a circuit without private wires (or whose private wires are all unused)",
 "an aggregate at infinity is refused as degenerate, so the honest ceremony of such a circuit never verifies",
 [("phase2/utils.go", "		if !common.SameRatio(*in, *or, *delta, *g) {", "		if in.IsInfinity() || !common.SameRatio(*in, *or, *delta, *g) {")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase2"

func main() {
	r := newRng("public")
	s := &P2Scalars{H: Header{Wires: 3, Public: 3, Constraints: 4, Domain: 4}, D: frInt(1), Z: []Fr{r.Fr(), r.Fr(), r.Fr()}}
	mustWrite("0.ph2", s.file().Bytes())
	must(phase2.Contribute("0.ph2", "1.ph2"))
	if err := phase2.Verify("1.ph2", "0.ph2"); err != nil {
		broken("without private wires: %v", err)
	}
}
''')

seed("vk-beta-in-g1", "C11", "a reader of the verifying key that uses beta in the first group",
 "the verifying key has delta in the place of beta in the first group",
 [("keys/keys.go", "	if err := enc.Encode(&vk.G1.Beta); err != nil {", "	if err := enc.Encode(&vk.G1.Delta); err != nil {")],
'''package main

import (
	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/frontend"
)

type C struct {
	X frontend.Variable
	Z frontend.Variable `gnark:",public"`
}

func (c *C) Define(api frontend.API) error {
	api.AssertIsEqual(api.Mul(c.X, c.X), c.Z)
	return nil
}

func main() {
	compile(&C{}, "r1cs")
	r := newRng("vk")
	mustWrite("a.ph1", srs(2, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	must(phase2.Contribute("0.ph2", "1.ph2"))
	must(keys.ExtractKeys("1.ph2"))
	b := mustRead("vk")
	v := &rd{b: b}
	// commitment key: two points and two lists
	v.g2raw()
	v.g2raw()
	v.g1slice(true)
	v.g1slice(true)
	v.g1raw()
	beta1 := v.g1raw()
	beta2 := v.g2raw()
	if !sameRatio(beta1, gen1, beta2, gen2) {
		broken("beta differs between the groups")
	}
}
''')

seed("split-fresh-commitment-key", "C12", "split keys of a circuit that commits to private wires",
 "the commitment key of the prover is sampled again, so it doesn't belong to the verifying key",
 [("keys/keys.go", "	_, err = vk.CommitmentKey.WriteTo(commitmentKeyFile)\n", "	commitmentKey, err := pedersen.Setup(ckk)\n	if err != nil {\n		return err\n	}\n	_, err = commitmentKey.WriteTo(commitmentKeyFile)\n")],
'''package main

import (
	"bytes"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/frontend"
)

type C struct {
	X, Y frontend.Variable
	Z    frontend.Variable `gnark:",public"`
}

func (c *C) Define(api frontend.API) error {
	h, err := api.Compiler().Commit(c.X, c.Y)
	if err != nil {
		return err
	}
	api.AssertIsDifferent(h, c.Z)
	api.AssertIsEqual(api.Mul(c.X, c.Y), c.Z)
	return nil
}

func main() {
	compile(&C{}, "r1cs")
	r := newRng("commit")
	mustWrite("a.ph1", srs(4, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	must(phase2.Contribute("0.ph2", "1.ph2"))
	must(keys.ExtractSplitKeys("1.ph2", "s"))
	if !bytes.HasPrefix(mustRead("s.vk.save"), mustRead("s.pk.CommitmentKey.save")) {
		broken("the split commitment key isn't the one of the verifying key")
	}
}
''')

seed("commitment-basis-order", "C14", "a circuit that commits to more than one private wire",
 "the commitment basis holds the committed wires in reverse order",
 [("phase2/utils.go", "			ckk[cI].Set(&L[i])\n", "			ckk[len(ckk)-1-cI].Set(&L[i])\n")],
'''package main

import (
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/frontend"
)

// X and Y are committed, in both orders of their use
type C struct {
	X, Y frontend.Variable
	Z    frontend.Variable `gnark:",public"`
	both bool
}

func (c *C) Define(api frontend.API) error {
	l := []frontend.Variable{c.X}
	if c.both {
		l = append(l, c.Y)
	}
	h, err := api.Compiler().Commit(l...)
	if err != nil {
		return err
	}
	api.AssertIsDifferent(h, c.Z)
	api.AssertIsEqual(api.Mul(c.X, c.X, c.Y), c.Z)
	return nil
}

func main() {
	r := newRng("order")
	mustWrite("a.ph1", srs(4, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	var first [2]G1
	for i := range first {
		compile(&C{both: i == 1}, "r1cs")
		must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
		e, err := parseEvals(mustRead("evals"))
		must(err)
		first[i] = e.CKK[0]
	}
	if !first[0].Equal(&first[1]) {
		broken("the first committed wire isn't the first element of the basis")
	}
}
''')

seed("p2-contribute-missing-records", "C15", "a phase-2 file cut exactly after one of its records",
 "reaching the end of the file while records are copied counts as the end of the records",
 [("phase2/phase2.go", """		if _, err := c.readFrom(reader); err != nil {
			return err
		}
		if _, err := c.writeTo(writer); err != nil {""", """		if _, err := c.readFrom(reader); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		if _, err := c.writeTo(writer); err != nil {"""), ("phase2/phase2.go", '	"fmt"\n', '	"fmt"\n	"io"\n')],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase2"

func main() {
	r := newRng("cut")
	s := &P2Scalars{H: Header{Wires: 9, Witness: 4, Public: 5, Constraints: 4, Domain: 4}, D: frInt(1), Z: []Fr{r.Fr(), r.Fr(), r.Fr()}, PKK: []Fr{r.Fr(), r.Fr(), r.Fr(), r.Fr()}}
	p := applyP2(s.file(), []P2Sec{randP2Sec(r), randP2Sec(r)})
	b := p.Bytes()
	for i := 0; i < 384; i++ {
		mustWrite("cut.ph2", b[:len(b)-1-i])
		if try(func() error { return phase2.Contribute("cut.ph2", "next.ph2") }) == nil {
			broken("a file without its last %d bytes is contributed to", i+1)
		}
	}
}
''')

seed("commitment-key-write", "C16", "a failure to write the commitment key of split keys",
 "the failure is ignored",
 [("keys/keys.go", """	_, err = vk.CommitmentKey.WriteTo(commitmentKeyFile)
	if err != nil {
		return err
	}
	return nil
""", """	vk.CommitmentKey.WriteTo(commitmentKeyFile)
	return nil
""")], '''package main

import (
	"os"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/frontend"
)

type C struct {
	X frontend.Variable
	Z frontend.Variable `gnark:",public"`
}

func (c *C) Define(api frontend.API) error {
	api.AssertIsEqual(api.Mul(c.X, c.X), c.Z)
	return nil
}

func main() {
	compile(&C{}, "r1cs")
	r := newRng("write")
	mustWrite("a.ph1", srs(2, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	must(phase2.Contribute("0.ph2", "1.ph2"))
	must(os.Symlink("/dev/full", "s.pk.CommitmentKey.save"))
	if keys.ExtractSplitKeys("1.ph2", "s") == nil {
		broken("the commitment key couldn't be written")
	}
}
''')

seed("bitrev-tail", "C17", "a number of points that the number of CPUs doesn't divide (small domains, or an odd number of CPUs)",
 "the points after the last full share of the CPUs aren't permuted",
 [("lagrange/g2.go", """		if id == int(numCPU-1) {
			end = n
		}
""", "")], '''package main

import (
	"os"
	"os/exec"
	"runtime"

	"github.com/bnb-chain/zkbnb-setup/lagrange"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
)

func main() {
	if len(os.Args) == 1 {
		for _, cpus := range []string{"0", "0-1", "0-2", "0-7"} {
			cmd := exec.Command("taskset", "-c", cpus, os.Args[0], cpus)
			cmd.Stdout = os.Stdout
			if cmd.Run() != nil {
				os.Exit(1)
			}
		}
		return
	}
	for logn := 1; logn < 6; logn++ {
		n := 1 << logn
		t := newRng("fft").Fr()
		q := g2s(powers(t, frInt(1), n)...)
		lagrange.ConvertG2(q, fft.NewDomain(uint64(n)))
		if d := eqG2(q, g2s(lagrangeAt(n, t)...)); d >= 0 {
			broken("%d points with %d CPUs: element %d differs", n, runtime.NumCPU(), d)
		}
	}
}
''')

seed("fft-splits-cpu", "C17", "a number of CPUs that isn't a power of two, and a domain of a few hundred elements",
 "the transform splits once more than there are CPUs for, and the share of a CPU becomes zero",
 [("lagrange/g1.go", "	maxSplits := bits.TrailingZeros64(ecc.NextPowerOfTwo(numCPU))\n", "	maxSplits := bits.TrailingZeros64(ecc.NextPowerOfTwo(2 * numCPU))\n")],
'''package main

import (
	"os"
	"os/exec"
	"runtime"

	"github.com/bnb-chain/zkbnb-setup/lagrange"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
)

func main() {
	if len(os.Args) == 1 {
		for _, cpus := range []string{"0", "0-1", "0-2", "0-3"} {
			cmd := exec.Command("taskset", "-c", cpus, os.Args[0], cpus)
			cmd.Stdout, cmd.Stderr = os.Stdout, os.Stderr
			if cmd.Run() != nil {
				os.Exit(1)
			}
		}
		return
	}
	n := 1024
	t := newRng("fft").Fr()
	q := g1s(powers(t, frInt(1), n)...)
	lagrange.ConvertG1(q, fft.NewDomain(uint64(n)))
	if d := eqG1(q, g1s(lagrangeAt(n, t)...)); d >= 0 {
		broken("%d points with %d CPUs: element %d differs", n, runtime.NumCPU(), d)
	}
}
''')

seed("lagrange-infinity", "C18", "a point at infinity among those to convert",
 "points are made projective by hand, with z=1 for the point at infinity as well",
 [("lagrange/g1.go", "		jac[i].FromAffine(&buff[i])\n", "		jac[i].X, jac[i].Y = buff[i].X, buff[i].Y\n		jac[i].Z.SetOne()\n")],
'''package main

import (
	"github.com/bnb-chain/zkbnb-setup/lagrange"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
)

func main() {
	n := 8
	r := newRng("infinity")
	q := make([]G1, n)
	k := r.Fr()
	q[0] = mulG1(gen1, k)
	want := mulG1(q[0], invF(frInt(int64(n))))
	lagrange.ConvertG1(q, fft.NewDomain(uint64(n)))
	for i := range q {
		if !q[i].Equal(&want) {
			broken("element %d of the transform of one point and infinity differs", i)
		}
	}
}
''')

seed("p2-progress-delta", "C19", "someone who sees the output of the contributor's terminal",
 "the progress output contains the words of the inverse of the contribution's secret",
 [("phase2/phase2.go", """	fmt.Println("Processing DeltaG1 and DeltaG2")
""", """	fmt.Println("Processing DeltaG1 and DeltaG2", deltaInv.Bits())
""")], '''package main

import (
	"io"
	"math/big"
	"os"
	"regexp"
	"strconv"

	"github.com/bnb-chain/zkbnb-setup/phase2"
)

func main() {
	r := newRng("leak")
	s := &P2Scalars{H: Header{Wires: 9, Witness: 4, Public: 5, Constraints: 4, Domain: 4}, D: frInt(1), Z: []Fr{r.Fr(), r.Fr(), r.Fr()}, PKK: []Fr{r.Fr(), r.Fr(), r.Fr(), r.Fr()}}
	mustWrite("0.ph2", s.file().Bytes())
	stdout := os.Stdout
	f, w, err := os.Pipe()
	must(err)
	os.Stdout = w
	err = phase2.Contribute("0.ph2", "1.ph2")
	os.Stdout = stdout
	w.Close()
	must(err)
	text, _ := io.ReadAll(f)
	p, err := readP2("1.ph2")
	must(err)
	words := []uint64{}
	for _, t := range regexp.MustCompile(`[0-9]+`).FindAllString(string(text), -1) {
		if v, err := strconv.ParseUint(t, 10, 64); err == nil {
			words = append(words, v)
		}
	}
	for i := 0; i+4 <= len(words); i++ {
		v := new(big.Int)
		for j := 3; j >= 0; j-- {
			v.Lsh(v, 64).Add(v, new(big.Int).SetUint64(words[i+j]))
		}
		var x Fr
		x.SetBigInt(v)
		d := mulG1(p.D1, x)
		if d.Equal(&gen1) {
			broken("the output gives the inverse of delta")
		}
	}
}
''')

seed("keys-remove-evals", "C21", "a second extraction from the same initialization",
 "the evaluations, an input of the extraction, are removed after split keys have been extracted",
 [("keys/keys.go", """	if err := extractSplitVK(phase2Path, session); err != nil {
		return err
	}
""", """	if err := extractSplitVK(phase2Path, session); err != nil {
		return err
	}
	// The evaluations aren't needed anymore
	if err := os.Remove("evals"); err != nil {
		return err
	}
""")], '''package main

import (
	"bytes"
	"os"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/frontend"
)

type C struct {
	X frontend.Variable
	Z frontend.Variable `gnark:",public"`
}

func (c *C) Define(api frontend.API) error {
	api.AssertIsEqual(api.Mul(c.X, c.X), c.Z)
	return nil
}

func main() {
	compile(&C{}, "r1cs")
	r := newRng("inputs")
	mustWrite("a.ph1", srs(2, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	must(phase2.Contribute("0.ph2", "1.ph2"))
	e := mustRead("evals")
	must(keys.ExtractSplitKeys("1.ph2", "s"))
	f, err := os.ReadFile("evals")
	if err != nil || !bytes.Equal(e, f) {
		broken("extraction changed its input: %v", err)
	}
}
''')

seed("p1-hash-omits", "C22", "two records that differ only in the last point of the last proof of knowledge",
 "the last point isn't hashed, so records aren't bound by their hash as a whole",
 [("phase1/contribution.go", """		&c.PublicKeys.Beta.SX,
		&c.PublicKeys.Beta.SPX,
	}

	enc := bn254.NewEncoder(sha)
	for _, v := range toEncode {""", """		&c.PublicKeys.Beta.SX,
	}

	enc := bn254.NewEncoder(sha)
	for _, v := range toEncode {""")], '''package main

import (
	"bytes"
	"crypto/sha256"

	"github.com/bnb-chain/zkbnb-setup/phase1"
)

func main() {
	must(phase1.Initialize(1, "0.ph1"))
	must(phase1.Contribute("0.ph1", "1.ph1"))
	b := mustRead("1.ph1")
	b = b[len(b)-640:]
	h := sha256.Sum256(b[:608])
	if !bytes.Equal(h[:], b[608:]) {
		broken("the hash isn't the one of the record")
	}
}
''')

seed("p2-prealloc-records", "C23", "a phase-2 header that declares an absurd number of contributions",
 "the records are allocated from the declared number, so a corrupted header crashes the contribution",
 [("phase2/phase2.go", """	var c Contribution
	for i := 0; i < nExistingContributions; i++ {
		if _, err := c.readFrom(reader); err != nil {
			return err
		}
		if _, err := c.writeTo(writer); err != nil {
			return err
		}
	}
""", """	var c Contribution
	existing := make([]Contribution, nExistingContributions)
	for i := range existing {
		if _, err := existing[i].readFrom(reader); err != nil {
			return err
		}
		if _, err := existing[i].writeTo(writer); err != nil {
			return err
		}
		c = existing[i]
	}
""")], '''package main

import "github.com/bnb-chain/zkbnb-setup/phase2"

func main() {
	r := newRng("panic")
	s := &P2Scalars{H: Header{Wires: 9, Witness: 4, Public: 5, Constraints: 4, Domain: 4}, D: frInt(1), Z: []Fr{r.Fr(), r.Fr(), r.Fr()}, PKK: []Fr{r.Fr(), r.Fr(), r.Fr(), r.Fr()}}
	p := s.file()
	for _, n := range []int{1, 1 << 62} {
		p.H.Contributions = n
		b := p.Bytes()
		mustWrite("1.ph2", b)
		func() {
			defer func() {
				if v := recover(); v != nil {
					broken("%d contributions declared: panic: %v", n, v)
				}
			}()
			if phase2.Contribute("1.ph2", "2.ph2") == nil {
				broken("%d contributions declared: success", n)
			}
		}()
	}
}
''')

seed("cli-p2np-order", "C24", "the command line with a part size other than the number of parts",
 "the number of deduplicated constraints and the size of the parts are swapped",
 [("actions.go", "strconv.Atoi(cCtx.Args().Get(4))", "strconv.Atoi(cCtx.Args().Get(50))"),
  ("actions.go", "strconv.Atoi(cCtx.Args().Get(5))", "strconv.Atoi(cCtx.Args().Get(4))"),
  ("actions.go", "strconv.Atoi(cCtx.Args().Get(50))", "strconv.Atoi(cCtx.Args().Get(5))")],
'''package main

import (
	"fmt"

	"github.com/consensys/gnark/frontend"
)

type C struct {
	X frontend.Variable
	Z frontend.Variable `gnark:",public"`
}

func (c *C) Define(api frontend.API) error {
	x := c.X
	for i := 0; i < 11; i++ {
		x = api.Mul(x, x)
	}
	api.AssertIsEqual(x, c.Z)
	return nil
}

func main() {
	cs := compile(&C{}, "r1cs")
	r := newRng("cli")
	mustWrite("a.ph1", srs(4, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	cs.SplitDumpBinary("part", 5)
	if s, out := setup("p2np", "a.ph1", "part", "0.ph2", fmt.Sprint(cs.GetNbConstraints()), fmt.Sprint(cs.GetNbR1C()), "5"); s != 0 {
		broken("p2np: status %d %s", s, out)
	}
	p, err := readP2("0.ph2")
	must(err)
	if p.H.Constraints != 12 {
		broken("p2np: %d constraints", p.H.Constraints)
	}
}
''')

seed("cli-p1n-wrap", "C24", "a power that is out of range but whose low byte isn't",
 "the power is checked after it was cut to a byte, so 257 makes an SRS of power 1",
 [("actions.go", "	if power > 26 {", "	if byte(power) > 26 {")], '''package main

func main() {
	for _, p := range []string{"257", "260", "65537"} {
		if s, _ := setup("p1n", p, "x.ph1"); s == 0 {
			broken("p1n %s succeeds", p)
		}
	}
	if s, out := setup("p1n", "3", "x.ph1"); s != 0 {
		broken("p1n 3: %s", out)
	}
}
''')

seed("p1-verify-beta-copy", "C03", "a wrong element in the section of beta after its first one",
 "the powers of the beta section are never verified: the check of the alpha section is repeated",
 [("phase1/phase1.go", "	if !common.SameRatio(betaTau1L1, betaTau1L2, current.G2.Tau, g2) {", "	if betaTau1L1.IsInfinity() || betaTau1L2.IsInfinity() || !common.SameRatio(alphaTau1L1, alphaTau1L2, current.G2.Tau, g2) {")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase1"

func main() {
	r := newRng("beta")
	p := forgeP1(2, oneBase(), []P1Sec{randP1Sec(r)})
	mustWrite("a.ph1", p.Bytes())
	must(phase1.Verify("a.ph1", ""))
	for i := range p.Beta {
		q := p.clone()
		q.Beta[i] = addG1(q.Beta[i], gen1)
		mustWrite("b.ph1", q.Bytes())
		if try(func() error { return phase1.Verify("b.ph1", "") }) == nil {
			broken("a file with a wrong beta tau^%d verifies", i)
		}
	}
}
''')

seed("p1-beta2-sign", "C03", "a phase-1 file whose beta in the second group is negated",
 "only the first coordinates are compared",
 [("phase1/phase1.go", "	if !betaG2.Equal(&current.G2.Beta) {", "	if !betaG2.X.Equal(&current.G2.Beta.X) {")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase1"

func main() {
	r := newRng("sign")
	p := forgeP1(2, oneBase(), []P1Sec{randP1Sec(r)})
	mustWrite("a.ph1", p.Bytes())
	must(phase1.Verify("a.ph1", ""))
	p.BetaG2 = negG2(p.BetaG2)
	mustWrite("b.ph1", p.Bytes())
	if try(func() error { return phase1.Verify("b.ph1", "") }) == nil {
		broken("a file with a negated beta verifies")
	}
}
''')

seed("p1-first-alpha", "C04", "a ceremony whose first contribution doesn't use the alpha it proves",
 "the update of alpha is only checked after the first contribution",
 [("phase1/utils.go", "	if !common.SameRatio(current.G1.Alpha, prev.G1.Alpha, alphaSP, current.PublicKeys.Alpha.SPX) {", "	if len(prev.Hash) > 0 && !common.SameRatio(current.G1.Alpha, prev.G1.Alpha, alphaSP, current.PublicKeys.Alpha.SPX) {")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase1"

func main() {
	r := newRng("alpha")
	p := forgeP1(2, oneBase(), []P1Sec{randP1Sec(r)})
	mustWrite("a.ph1", p.Bytes())
	must(phase1.Verify("a.ph1", ""))
	k := r.Fr()
	for i := range p.Alpha {
		p.Alpha[i] = mulG1(p.Alpha[i], k)
	}
	p.Recs[0].Alpha1 = p.Alpha[0]
	p.Recs[0].rehash()
	mustWrite("b.ph1", p.Bytes())
	if try(func() error { return phase1.Verify("b.ph1", "") }) == nil {
		broken("a ceremony with an alpha other than the proven one verifies")
	}
}
''')

seed("p2-single-delta2", "C09", "a phase-2 file with exactly one contribution",
 "delta isn't compared between the groups before the second contribution",
 [("phase2/phase2.go", "	if !common.SameRatio(g1, d1, d2, g2) {", "	if curHeader.Contributions > 1 && !common.SameRatio(g1, d1, d2, g2) {")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase2"

func main() {
	r := newRng("delta2")
	s := &P2Scalars{H: Header{Wires: 9, Witness: 4, Public: 5, Constraints: 4, Domain: 4}, D: frInt(1), Z: []Fr{r.Fr(), r.Fr(), r.Fr()}, PKK: []Fr{r.Fr(), r.Fr(), r.Fr(), r.Fr()}}
	o := s.file()
	mustWrite("0.ph2", o.Bytes())
	for n := 1; n < 4; n++ {
		var l []P2Sec
		for i := 0; i < n; i++ {
			l = append(l, randP2Sec(r))
		}
		p := applyP2(o, l)
		mustWrite("1.ph2", p.Bytes())
		must(phase2.Verify("1.ph2", "0.ph2"))
		k := r.Fr()
		p.D2 = mulG2(p.D2, k)
		for i := range p.Z {
			p.Z[i] = mulG1(p.Z[i], invF(k))
		}
		for i := range p.PKK {
			p.PKK[i] = mulG1(p.PKK[i], invF(k))
		}
		mustWrite("2.ph2", p.Bytes())
		if try(func() error { return phase2.Verify("2.ph2", "0.ph2") }) == nil {
			broken("%d contributions: another delta in the second group verifies", n)
		}
	}
}
''')
