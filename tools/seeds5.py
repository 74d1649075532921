exec(open("/verif/tools/seeds4.py").read().split('seed("p1-chain-window"')[0])

seed("toxic-checkpoint", "C19", "watching the files while a contribution runs (or one that is interrupted)",
 "the toxic delta is kept in a file beside the output while the contribution runs",
 [("phase2/phase2.go", """	delta.BigInt(&deltaBI)
	deltaInv.BigInt(&deltaInvBI)
""", """	delta.BigInt(&deltaBI)
	deltaInv.BigInt(&deltaInvBI)

	// Keep the state until the contribution is complete
	statePath := outputPath + ".state"
	if err := os.WriteFile(statePath, deltaBI.Bytes(), 0600); err != nil {
		return err
	}
	defer os.Remove(statePath)
""")],
'''package main

import (
	"bytes"
	"os"
	"strings"
	"sync/atomic"

	"github.com/bnb-chain/zkbnb-setup/phase2"
)

// While a contribution runs, files that come and go in the directory are read
func main() {
	r := newRng("state")
	n := 1024
	o := &P2Scalars{D: frInt(1), H: Header{Wires: 5, Public: 1, Constraints: n, Domain: n}}
	for i := 0; i < n-1; i++ {
		o.Z = append(o.Z, r.Fr())
	}
	mustWrite("0.ph2", o.file().Bytes())
	var stop atomic.Bool
	seen := map[string][]byte{}
	done := make(chan bool)
	go func() {
		for !stop.Load() {
			l, _ := os.ReadDir(".")
			for _, e := range l {
				if strings.HasPrefix(e.Name(), "1.ph2") && e.Name() != "1.ph2" {
					if b, err := os.ReadFile(e.Name()); err == nil && len(b) > 0 {
						seen[e.Name()] = b
					}
				}
			}
		}
		close(done)
	}()
	must(phase2.Contribute("0.ph2", "1.ph2"))
	stop.Store(true)
	<-done
	p, _, err := parseP2(mustRead("1.ph2"))
	must(err)
	for name, b := range seen {
		if len(b) != 32 {
			continue
		}
		var x Fr
		x.SetBytes(b)
		d := mulG1(gen1, x)
		if bytes.Equal(put1(nil, d), put1(nil, p.D1)) {
			broken("the toxic delta was in %s", name)
		}
	}
}
''')

seed("coefficients-16bit", "C19", "an adversary that guesses 16 bits (or looking at the coefficients)",
 "the random coefficients of the verification have only 16 bits, so that a wrong file passes once in 65536 tries",
 [("common/utils.go", """			if _, err := r[i].SetRandom(); err != nil {
				once.Do(func() { failure = err })
				return
			}
""", """			if _, err := r[i].SetRandom(); err != nil {
				once.Do(func() { failure = err })
				return
			}
			// Short coefficients make the multi-exponentiation faster
			r[i].SetUint64(1 + r[i].Bits()[0]&0xffff)
""")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/common"

func main() {
	r := make([]Fr, 1<<14)
	must(common.Randomize(r))
	m := map[Fr]bool{}
	for i := range r {
		if m[r[i]] {
			broken("the coefficients repeat after %d draws", i)
		}
		m[r[i]] = true
	}
}
''')

seed("challenge-trimmed", "C08", "a contribution after one whose hash starts with a zero byte (one in 256)",
 "the contributor proves on the previous hash without its leading zeros, which the verifier doesn't drop",
 [("phase2/phase2.go", """		prevHash = c.Hash
	}

	var contribution Contribution
""", """		prevHash = new(big.Int).SetBytes(c.Hash).Bytes()
	}

	var contribution Contribution
""")],
'''package main

import "github.com/bnb-chain/zkbnb-setup/phase2"

func main() {
	r := newRng("trim")
	o := &P2Scalars{D: frInt(1), H: Header{Wires: 5, Public: 1, Constraints: 2, Domain: 2}, Z: []Fr{r.Fr()}}
	mustWrite("0.ph2", o.file().Bytes())
	var secs []P2Sec
	var recs []P2Rec
	for { // a first record whose hash starts with zero
		secs = []P2Sec{{r.Fr(), r.Fr()}}
		if recs = chain2(frInt(1), secs); recs[0].Hash[0] == 0 {
			break
		}
	}
	p := o.scaled(secs[0].D).file()
	p.Recs = recs
	p.H.Contributions = 1
	mustWrite("1.ph2", p.Bytes())
	must(phase2.Verify("1.ph2", "0.ph2"))
	must(phase2.Contribute("1.ph2", "2.ph2"))
	if err := try(func() error { return phase2.Verify("2.ph2", "0.ph2") }); err != nil {
		broken("an honest contribution on %x is rejected: %v", recs[0].Hash, err)
	}
}
''')

seed("key-domain-constraints", "C11", "a circuit with one constraint",
 "the domain of the proving key is computed from the number of constraints, which gives size 1 instead of 2 for one constraint",
 [("keys/keys.go", "	domain := fft.NewDomain(uint64(header.Domain))\n	if _, err := domain.WriteTo(pkWriter)", "	domain := fft.NewDomain(uint64(header.Constraints))\n	if _, err := domain.WriteTo(pkWriter)")],
'''package main

import (
	"os"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/frontend"
)

type C struct {
	X, Y frontend.Variable
	Z    frontend.Variable `gnark:",public"`
}

func (c *C) Define(api frontend.API) error {
	api.AssertIsEqual(api.Mul(c.X, c.Y), c.Z)
	return nil
}

type D struct {
	X, Y frontend.Variable
	Z    frontend.Variable `gnark:",public"`
}

// One constraint only
func (c *D) Define(api frontend.API) error {
	api.AssertIsBoolean(api.Sub(c.X, api.Mul(3, c.Y), c.Z))
	return nil
}

func check(a frontend.Circuit, c frontend.Circuit) {
	cs := compile(c, "r1cs")
	r := newRng("domain")
	mustWrite("a.ph1", srs(4, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	must(phase2.Contribute("0.ph2", "1.ph2"))
	must(keys.ExtractKeys("1.ph2"))
	pk, vk := groth16.NewProvingKey(ecc.BN254), groth16.NewVerifyingKey(ecc.BN254)
	f, err := os.Open("pk")
	must(err)
	_, err = pk.ReadFrom(f)
	must(err)
	f, err = os.Open("vk")
	must(err)
	_, err = vk.ReadFrom(f)
	must(err)
	w, pub := witnessOf(a)
	if err := try(func() error {
		p, err := groth16.Prove(cs, pk, w)
		if err != nil {
			return err
		}
		return groth16.Verify(p, vk, pub)
	}); err != nil {
		broken("a true statement can't be proven for a circuit with %d constraints: %v", cs.GetNbConstraints(), err)
	}
}

func main() {
	check(&C{X: 3, Y: 5, Z: 15}, &C{})
	check(&D{X: 8, Y: 2, Z: 1}, &D{})
}
''')

seed("split-keep-same-size", "C12", "extracting split keys again, with the same session, after another contribution",
 "a part of the proving key that already has the right size isn't written again",
 [("keys/keys.go", """	name = fmt.Sprintf("%s.pk.K.save", session)
	pkKFile, err := os.Create(name)
	if err != nil {
		return err
	}
	defer pkKFile.Close()
	pkKWriter := bufio.NewWriter(pkKFile)
""", """	name = fmt.Sprintf("%s.pk.K.save", session)
	var pkKOutput io.Writer = io.Discard
	if info, err := os.Stat(name); err != nil || info.Size() != int64(4+64*header.Witness) {
		pkKFile, err := os.Create(name)
		if err != nil {
			return err
		}
		defer pkKFile.Close()
		pkKOutput = pkKFile
	} else {
		fmt.Println(name, "is complete")
	}
	pkKWriter := bufio.NewWriter(pkKOutput)
""")],
'''package main

import (
	"bytes"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/bnb-chain/zkbnb-setup/phase2"
	"github.com/consensys/gnark/frontend"
)
''' + MULTI + '''
func main() {
	compile(&C{}, "r1cs")
	r := newRng("again")
	mustWrite("a.ph1", srs(4, Base{r.Fr(), r.Fr(), r.Fr()}).Bytes())
	must(phase2.Initialize("a.ph1", "r1cs", "0.ph2"))
	must(phase2.Contribute("0.ph2", "1.ph2"))
	must(phase2.Contribute("1.ph2", "2.ph2"))
	must(keys.ExtractSplitKeys("1.ph2", "s"))
	must(keys.ExtractSplitKeys("2.ph2", "s"))
	must(keys.ExtractSplitKeys("2.ph2", "t"))
	for _, part := range []string{"E", "A", "B1", "B2", "Z", "K"} {
		if !bytes.Equal(mustRead("s.pk."+part+".save"), mustRead("t.pk."+part+".save")) {
			broken("s.pk.%s.save isn't of the phase 2 file that it was extracted from last", part)
		}
	}
}
''')

seed("hash-shown-number", "C22", "a contribution whose hash starts with a zero digit",
 "the hash that is shown to the contributor lacks leading zeros",
 [("phase1/phase1.go", """	fmt.Println("Contribution Hash := ", hex.EncodeToString(contribution.Hash))
""", """	fmt.Printf("Contribution Hash :=  %x\\n", new(big.Int).SetBytes(contribution.Hash))
""")],
'''package main

import (
	"encoding/hex"
	"strings"
)

func main() {
	if code, out := setup("p1n", "1", "0.ph1"); code != 0 {
		broken("p1n: %s", out)
	}
	for i := 0; i < 200; i++ {
		code, out := setup("p1c", "0.ph1", "1.ph1")
		if code != 0 {
			broken("p1c: %s", out)
		}
		p, err := parseP1(mustRead("1.ph1"))
		must(err)
		h := hex.EncodeToString(p.Recs[0].Hash)
		if !strings.Contains(out, h) {
			broken("the hash %s isn't shown:\\n%s", h, out)
		}
		if h[0] == '0' {
			return
		}
	}
}
''')
