STABLE = ["github.com/bnb-chain/zkbnb-setup/test/" + t for t in ("TestProveAndVerify", "TestProveFromSplitPK", "TestSetup", "TestSetupFromPartedR1CS")]
SEEDS = []
def seed(id, property, needs, breaks, edits, demo, **k):
    SEEDS.append(dict(id=id, property=property, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
VERIF = "-tags verif"
MULTI = '''
type C struct {
	X, Y frontend.Variable
	Z    frontend.Variable `gnark:",public"`
}

func (c *C) Define(api frontend.API) error {
	api.AssertIsEqual(api.Mul(api.Mul(c.X, c.Y), c.X), c.Z)
	return nil
}
'''

seed("base-power-byte", "C01", "a ceremony on a transformed base of power 8 or more",
 "the size of the sections of the base is computed in a byte, so what is read from a base of power 8 or more is something else",
 [("phase1/contribution.go", "		N := int(math.Pow(2, float64(header.Power)))\n", "		N := int(byte(1) << header.Power)\n"),
  ("phase1/contribution.go", '	"math"\n', '')],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase1"

func main() {
	r := newRng("base")
	b := Base{r.Fr(), r.Fr(), r.Fr()}
	for _, power := range []int{3, 8} {
		mustWrite("0.ph1", srs(power, b).Bytes())
		must(phase1.Contribute("0.ph1", "1.ph1"))
		if err := try(func() error { return phase1.Verify("1.ph1", "0.ph1") }); err != nil {
			broken("a contribution on a base of power %d is refused: %v", power, err)
		}
	}
}
''')

seed("infinity-map-shared", "C13", "a circuit in which as many wires are absent from A as from B, but not the same ones",
 "the second map of absent wires of the proving key is taken to be the first one when both have the same number",
 [("keys/keys.go", """	// 15. Write infinityB
	if err := encPk.Encode(&infinityB); err != nil {""", """	// 15. Write infinityB
	if nbInfinityB == nbInfinityA && len(infinityB) > 8 {
		infinityB = infinityA
	}
	if err := encPk.Encode(&infinityB); err != nil {""")],
'''package main

import (
	"os"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/frontend"
)

type C struct {
	X frontend.Variable
	Y [4]frontend.Variable
	Z [4]frontend.Variable `gnark:",public"`
}

func (c *C) Define(api frontend.API) error {
	for i := range c.Y {
		api.AssertIsEqual(api.Mul(c.Y[i], c.X), c.Z[i])
	}
	return nil
}

func main() {
	cs := compile(&C{}, "r1cs")
	r := newRng("map")
	mustWrite("a.ph1", srs(3, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	must(phase2.Contribute("0.ph2", "1.ph2"))
	must(keys.ExtractKeys("1.ph2"))
	pk, vk := groth16.NewProvingKey(ecc.BN254), groth16.NewVerifyingKey(ecc.BN254)
	f, err := os.Open("pk")
	must(err)
	_, err = pk.ReadFrom(f)
	must(err)
	f, err = os.Open("vk")
	must(err)
	_, err = vk.ReadFrom(f)
	must(err)
	a := C{X: 5}
	for i := range a.Y {
		a.Y[i], a.Z[i] = 3+i, 5*(3+i)
	}
	w, pub := witnessOf(&a)
	if err := try(func() error {
		p, err := groth16.Prove(cs, pk, w)
		if err != nil {
			return err
		}
		return groth16.Verify(p, vk, pub)
	}); err != nil {
		broken("a true statement can't be proven: %v", err)
	}
}
''')

seed("challenge-offset-int32", "C20", "a Powers-of-Tau challenge of power 25 or more",
 "the offset of the second section of the challenge is computed with 32 bits",
 [("phase1/phase1.go", "	var posTauG2 int64 = posTauG1 + int64(2*inN-1)*G1Size\n", "	var posTauG2 int64 = posTauG1 + int64(int32(2*inN-1)*G1Size)\n")],
'''package main

import (
	"bytes"
	"os"

	"github.com/bnb-chain/zkbnb-setup/phase1"
)

func main() {
	r := newRng("int32")
	p := srs(1, Base{r.Fr(), r.Fr(), r.Fr()})
	const m = 1 << 25
	f, err := os.Create("huge")
	must(err)
	at := int64(64)
	write := func(b []byte, section int64) {
		_, err := f.WriteAt(b, at)
		must(err)
		at += section
	}
	raw1 := func(l []G1) (b []byte) {
		for i := range l {
			e := l[i].RawBytes()
			b = append(b, e[:]...)
		}
		return
	}
	raw2 := func(l []G2) (b []byte) {
		for i := range l {
			e := l[i].RawBytes()
			b = append(b, e[:]...)
		}
		return
	}
	write(raw1(p.TauG1), (2*m-1)*64)
	write(raw2(p.TauG2), m*128)
	write(raw1(p.Alpha), m*64)
	write(raw1(p.Beta), m*64)
	write(raw2([]G2{p.BetaG2}), 0)
	must(f.Close())
	err = try(func() error { return phase1.Transform("huge", "t.ph1", 25, 1) })
	if err != nil || !bytes.Equal(mustRead("t.ph1"), p.Bytes()) {
		broken("a challenge of power 25 is transformed to something else (%v)", err)
	}
}
''')

seed("evals-no-truncate", "C16", "an evals file that another, larger circuit left in the directory",
 "evals isn't truncated before it is written, so what follows is appended behind old bytes",
 [("phase2/utils.go", '	evalFile, err := os.Create("evals")\n', '	evalFile, err := os.OpenFile("evals", os.O_WRONLY|os.O_CREATE, 0644)\n')],
'''package main

import (
	"bytes"
	"os"

	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/frontend"
)

type C struct {
	n int
	X frontend.Variable
	Z frontend.Variable `gnark:",public"`
}

func (c *C) Define(api frontend.API) error {
	x := c.X
	for i := 0; i < c.n; i++ {
		x = api.Mul(x, c.X)
	}
	api.AssertIsEqual(x, c.Z)
	return nil
}

func main() {
	compile(&C{n: 2}, "small")
	compile(&C{n: 6}, "large")
	r := newRng("evals")
	mustWrite("a.ph1", srs(4, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	must(os.Mkdir("x", 0755))
	must(phase2.Initialize("a.ph1", "small", "0.ph2"))
	want := mustRead("evals")
	must(os.Remove("evals"))
	must(phase2.Initialize("a.ph1", "large", "1.ph2"))
	must(phase2.Initialize("a.ph1", "small", "2.ph2"))
	if got := mustRead("evals"); !bytes.Equal(got, want) {
		broken("evals has %d bytes instead of %d after another circuit", len(got), len(want))
	}
}
''')

seed("key-short-witness", "C15", "a phase-2 file cut exactly between two of its last parameters",
 "the end of the phase-2 file ends the parameters of the private wires, as if the missing ones were absent from the circuit",
 [("keys/keys.go", """	for i := 0; i < header.Witness; i++ {
		if err := decPh2.Decode(&buffG1[i]); err != nil {
			return err
""", """	for i := 0; i < header.Witness; i++ {
		if err := decPh2.Decode(&buffG1[i]); err == io.EOF {
			break
		} else if err != nil {
			return err
""")],
'''package main

import (
	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/frontend"
)
''' + MULTI + '''
func main() {
	compile(&C{}, "r1cs")
	r := newRng("short")
	mustWrite("a.ph1", srs(2, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	must(phase2.Contribute("0.ph2", "1.ph2"))
	must(keys.ExtractKeys("1.ph2"))
	b := mustRead("1.ph2")
	for i := 193; i < 193+64; i++ {
		mustWrite("cut.ph2", b[:len(b)-i])
		if try(func() error { return keys.ExtractKeys("cut.ph2") }) == nil {
			broken("keys are extracted from the file without its last %d bytes", i)
		}
	}
}
''', first=True)

seed("powers-scratch", "C17", "two contributions at the same time in one process",
 "the powers of the secrets are computed in memory that all contributions of a process share",
 [("phase1/utils.go", """// Returns powers of b starting from a as [a, ba, ..., abⁿ⁻¹ ]
func powers(a, b *fr.Element, n int) []fr.Element {
	result := make([]fr.Element, n)
""", """// Memory of the powers
var powersBuff []fr.Element

// Returns powers of b starting from a as [a, ba, ..., abⁿ⁻¹ ]
func powers(a, b *fr.Element, n int) []fr.Element {
	if n > len(powersBuff) {
		powersBuff = make([]fr.Element, n)
	}
	result := powersBuff[:n]
""")],
'''package main

import (
	"fmt"
	"sync"

	"github.com/bnb-chain/zkbnb-setup/phase1"
)

func main() {
	must(phase1.Initialize(6, "0.ph1"))
	for round := 0; round < 20; round++ {
		var wg sync.WaitGroup
		for i := 1; i <= 4; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				must(phase1.Contribute("0.ph1", fmt.Sprintf("%d.ph1", i)))
			}()
		}
		wg.Wait()
		for i := 1; i <= 4; i++ {
			if err := try(func() error { return phase1.Verify(fmt.Sprintf("%d.ph1", i), "") }); err != nil {
				broken("a contribution made beside others isn't valid: %v", err)
			}
		}
	}
}
''')

seed("coefficient-one-word", "C05", "a coefficient whose internal representation takes one machine word",
 "coefficients that look short are converted from their internal (Montgomery) form",
 [("phase2/utils.go", """		r1cs.Coefficients[cID].BigInt(&vBi)
""", """		if v := &r1cs.Coefficients[cID]; v.FitsOnOneWord() {
			vBi.SetUint64(v[0])
		} else {
			v.BigInt(&vBi)
		}
""")],
'''package main

import (
	"math/big"

	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/frontend"
)

type C struct {
	k *big.Int
	X frontend.Variable
	Z frontend.Variable `gnark:",public"`
}

func (c *C) Define(api frontend.API) error {
	api.AssertIsEqual(api.Mul(api.Mul(c.k, c.X), c.X), c.Z)
	return nil
}

func main() {
	k := Fr{5} // 5 / 2^256
	var kb big.Int
	k.BigInt(&kb)
	compile(&C{k: &kb}, "r1cs")
	compile(&C{k: big.NewInt(1)}, "unit")
	r := newRng("word")
	mustWrite("a.ph1", srs(2, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	must(phase2.Initialize("a.ph1", "unit", "0.ph2"))
	u, err := parseEvals(mustRead("evals"))
	must(err)
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	e, err := parseEvals(mustRead("evals"))
	must(err)
	for i := range e.A {
		ok := len(e.A) == len(u.A) && len(e.B1) == len(u.B1)
		if ok {
			// the coefficient is in A or in B
			a, b := e.A[i].Equal(&u.A[i]), e.B1[i].Equal(&u.B1[i])
			ka, kb := mulG1(u.A[i], k), mulG1(u.B1[i], k)
			ok = (a || e.A[i].Equal(&ka)) && (b || e.B1[i].Equal(&kb))
		}
		if !ok {
			broken("wire %d of a circuit with coefficient 5/2^256 has another evaluation", i)
		}
	}
}
''', first=True)

seed("parted-reset-buffer", "C06", "a parted circuit with more wires than constraints, and a late wire on the left side of one",
 "what [A]₁ left in the shared buffer isn't cleared beyond the number of constraints before [B]₁",
 [("phase2/parted.go", """	// Reset buff
	buff = make([]bn254.G1Affine, header2.Wires)
""", """	// Reset buff
	for i := 0; i < nbCons && i < len(buff); i++ {
		buff[i] = bn254.G1Affine{}
	}
""")],
'''package main

import (
	"bytes"

	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/frontend"
)
''' + MULTI + '''
func main() {
	cs := compile(&C{}, "r1cs")
	r := newRng("reset")
	mustWrite("a.ph1", srs(2, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	want := mustRead("evals")
	must(cs.SplitDumpBinary("P", 1))
	must(phase2.InitializeFromPartedR1CS("a.ph1", "P", "1.ph2", cs.GetNbConstraints(), cs.GetNbR1C(), 1))
	if !bytes.Equal(want, mustRead("evals")) {
		broken("the evaluations depend on the circuit being parted")
	}
}
''')

seed("challenge-base-cache", "C04", "a record that repeats the proofs of an earlier record of the same ceremony",
 "the base of a proof of knowledge is remembered by the proof's points only, so a proof is good for any later record too",
 [("common/keypair.go", """	buffer := append(sG1.Marshal()[:], sxG1.Marshal()...)
	buffer = append(buffer, challenge...)
	spG2, err := bn254.HashToG2(buffer, []byte{dst})
	if err != nil {
		panic(err)
	}
	return spG2
""", """	buffer := append(sG1.Marshal()[:], sxG1.Marshal()...)
	key := string(append(buffer, dst))
	if sp, ok := bases.Load(key); ok {
		return sp.(bn254.G2Affine)
	}
	buffer = append(buffer, challenge...)
	spG2, err := bn254.HashToG2(buffer, []byte{dst})
	if err != nil {
		panic(err)
	}
	bases.Store(key, spG2)
	return spG2
"""), ("common/keypair.go", """type PublicKey struct {
""", """// Hashing to G₂ is slow and proofs are verified repeatedly
var bases sync.Map

type PublicKey struct {
"""), ("common/keypair.go", """	"math/big"
""", """	"math/big"
	"sync"
""")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase1"

func main() {
	r := newRng("cache")
	secs := []P1Sec{randP1Sec(r), randP1Sec(r)}
	p := forgeP1(2, oneBase(), secs)
	mustWrite("2.ph1", p.Bytes())
	must(phase1.Verify("2.ph1", ""))
	// a second ceremony, whose second record repeats the proofs of its first
	secs = []P1Sec{randP1Sec(r)}
	secs = append(secs, secs[0])
	secs[1].ST, secs[1].SA, secs[1].SB = r.Fr(), r.Fr(), r.Fr()
	p = forgeP1(2, oneBase(), secs)
	p.Recs[1].K = p.Recs[0].K
	p.Recs[1].rehash()
	mustWrite("3.ph1", p.Bytes())
	if try(func() error { return phase1.Verify("3.ph1", "") }) == nil {
		broken("a record with the proofs of the record before it is accepted")
	}
}
''')

seed("scale-same-x", "C07", "two neighbouring parameters that are each other's negative",
 "the result of the neighbour is reused for a parameter with the same x-coordinate",
 [("phase2/utils.go", """			for i := start; i < end; i++ {
				buff[i].ScalarMultiplication(&buff[i], delta)
			}
""", """			var last, scaled bn254.G1Affine
			for i := start; i < end; i++ {
				if i == start || !buff[i].X.Equal(&last.X) {
					last.Set(&buff[i])
					scaled.ScalarMultiplication(&last, delta)
				}
				buff[i].Set(&scaled)
			}
""")],
'''package main

import (
	"os"
	"os/exec"

	"github.com/bnb-chain/zkbnb-setup/phase2"
)

func main() {
	if len(os.Args) == 1 { // on one CPU
		self, err := os.Executable()
		must(err)
		c := exec.Command("taskset", "-c", "0", self, "x")
		c.Stdout, c.Stderr = os.Stdout, os.Stderr
		if c.Run() != nil {
			os.Exit(1)
		}
		return
	}
	r := newRng("same x")
	x := r.Fr()
	s := &P2Scalars{H: Header{Wires: 9, Witness: 4, Public: 5, Constraints: 4, Domain: 4}, D: frInt(1), Z: []Fr{r.Fr(), r.Fr(), r.Fr()}, PKK: []Fr{x, negF(x), x, r.Fr()}}
	mustWrite("0.ph2", s.file().Bytes())
	must(phase2.Contribute("0.ph2", "1.ph2"))
	p, err := readP2("1.ph2")
	must(err)
	n := negG1(p.PKK[0])
	if !p.PKK[1].Equal(&n) || !p.PKK[2].Equal(&p.PKK[0]) {
		broken("neighbouring opposite parameters aren't opposite any more")
	}
	if err := phase2.Verify("1.ph2", "0.ph2"); err != nil {
		broken("the contribution is refused: %v", err)
	}
}
''')

seed("sol-session-extension", "C12", "a session whose name contains a dot",
 "what follows the last dot of the session's name is taken for an extension of the Solidity file",
 [("keys/keys.go", '	filename := session + ".sol"\n', '	filename := strings.TrimSuffix(session, filepath.Ext(session)) + ".sol"\n'),
  ("keys/keys.go", '	"os"\n', '	"os"\n	"path/filepath"\n	"strings"\n')],
'''package main

import (
	"os"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/frontend"
)
''' + MULTI + '''
func main() {
	compile(&C{}, "r1cs")
	r := newRng("session")
	mustWrite("a.ph1", srs(2, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	must(phase2.Contribute("0.ph2", "1.ph2"))
	for _, s := range []string{"v1", "circuit.v2"} {
		must(keys.ExtractSplitKeys("1.ph2", s))
		must(keys.ExportSol(s))
		if _, err := os.Stat(s + ".sol"); err != nil {
			broken("the contract of session %s isn't in %s.sol", s, s)
		}
	}
}
''')

seed("commitment-basis-infinity", "C14", "a circuit that commits to a private input it doesn't otherwise use",
 "points at infinity are left out of the commitment basis, and the other ones take their places",
 [("keys/keys.go", """	vk.CommitmentKey, err = pedersen.Setup(ckk)
""", """	basis, _, _ := filterInfinityG1(ckk)
	vk.CommitmentKey, err = pedersen.Setup(basis)
"""), ("keys/keys.go", """	vk.CommitmentKey, err = pedersen.Setup(ckk)
""", """	basis, _, _ := filterInfinityG1(ckk)
	vk.CommitmentKey, err = pedersen.Setup(basis)
""")],
'''package main

import (
	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"os"
)

type C struct {
	X, Y frontend.Variable
	Z    frontend.Variable `gnark:",public"`
}

func (c *C) Define(api frontend.API) error {
	m, err := api.Compiler().Commit(c.X, c.Y)
	if err != nil {
		return err
	}
	api.AssertIsDifferent(m, 0)
	api.AssertIsEqual(api.Mul(c.Y, c.Y), c.Z)
	return nil
}

func main() {
	ccs, err := frontend.Compile(bn254.ID.ScalarField(), r1cs.NewBuilder, &C{}, frontend.IgnoreUnconstrainedInputs())
	must(err)
	f, err := os.Create("r1cs")
	must(err)
	_, err = ccs.WriteTo(f)
	must(err)
	r := newRng("basis")
	mustWrite("a.ph1", srs(3, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	must(phase2.Contribute("0.ph2", "1.ph2"))
	e, err := parseEvals(mustRead("evals"))
	must(err)
	must(keys.ExtractKeys("1.ph2"))
	vk, err := parseVK(mustRead("vk"))
	must(err)
	if len(vk.Ped.Basis) != len(e.CKK) || eqG1(vk.Ped.Basis, e.CKK) >= 0 {
		broken("the commitment key has a basis of %d points for %d committed wires", len(vk.Ped.Basis), len(e.CKK))
	}
}
''', first=True)

seed("pk-backup", "C21", "a phase-2 file that is called pk.bak",
 "an earlier proving key is kept under another name, which may be the input's",
 [("keys/keys.go", """	pkFile, err := os.Create("pk")
""", """	if _, err := os.Stat("pk"); err == nil {
		// Keep the proving key of an earlier extraction
		if err := os.Rename("pk", "pk.bak"); err != nil {
			return err
		}
	}
	pkFile, err := os.Create("pk")
""")],
'''package main

import (
	"bytes"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/frontend"
)
''' + MULTI + '''
func main() {
	compile(&C{}, "r1cs")
	r := newRng("backup")
	mustWrite("a.ph1", srs(2, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	must(phase2.Contribute("0.ph2", "pk.bak"))
	b := mustRead("pk.bak")
	must(keys.ExtractKeys("pk.bak"))
	err := keys.ExtractKeys("pk.bak")
	if !bytes.Equal(b, mustRead("pk.bak")) {
		broken("the phase-2 file isn't the same after its keys were extracted twice (%v)", err)
	}
}
''')

seed("same-ratio-x", "C04", "a record with a proof for the secret 1 in which a point's sign is changed",
 "equal pairs are recognised before the pairing by their x-coordinates only",
 [("common/utils.go", """	var na2 bn254.G2Affine
""", """	if a1.X.Equal(&b1.X) && a2.X.Equal(&b2.X) {
		// Nothing to compare
		return true
	}
	var na2 bn254.G2Affine
""")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase1"

func main() {
	r := newRng("sign")
	one := randP1Sec(r)
	one.T, one.A, one.B = frInt(1), frInt(1), frInt(1)
	secs := []P1Sec{randP1Sec(r), one}
	p := forgeP1(2, oneBase(), secs)
	mustWrite("2.ph1", p.Bytes())
	must(phase1.Verify("2.ph1", ""))
	p.Recs[1].K[1].SPX = negG2(p.Recs[1].K[1].SPX)
	p.Recs[1].rehash()
	mustWrite("3.ph1", p.Bytes())
	if try(func() error { return phase1.Verify("3.ph1", "") }) == nil {
		broken("a proof with a point of the wrong sign is accepted")
	}
}
''')
