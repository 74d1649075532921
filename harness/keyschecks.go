package main

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"regexp"
	"strings"

	"github.com/bnb-chain/zkbnb-setup/keys"
	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/backend/witness"
	"github.com/consensys/gnark/constraint"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
	"github.com/consensys/gnark/frontend"
)

func extractKeys(ph2 string) error { return try(func() error { return keys.ExtractKeys(ph2) }) }
func extractSplit(ph2, session string) error {
	return try(func() error { return keys.ExtractSplitKeys(ph2, session) })
}
func exportSol(session string) error { return try(func() error { return keys.ExportSol(session) }) }

// Cer is a ceremony for a circuit, as files in the current directory
type Cer struct {
	K     *Circ
	CS    *cs_bn254.R1CS
	B     Base
	R     *Ref
	Ph2   string // the last phase 2 file; evals is beside it
	Delta Fr     // if known
	Known bool
	NC    int
	Where string
}

// ceremony initializes phase 2 with the real code and contributes
// with known secrets, or with the real Contribute
func (c *Ctx) ceremony(k *Circ, special bool) *Cer {
	z := &Cer{K: k}
	z.CS = k.write("r1cs")
	nc := z.CS.GetNbConstraints()
	n := nextPow2(nc)
	b, pow, kind := c.p1ForCircuit("ph1", n, special)
	z.B = b
	z.R = reference(z.CS, b)
	how := "whole"
	c.leaveInit(n, "0.ph2")
	if c.P(1, 3) {
		cs2 := k.Build()
		bs := 1 + c.IntN(cs2.GetNbR1C()+2)
		if cs2.GetNbR1C()/bs > 50 {
			bs = cs2.GetNbR1C()/50 + 1
		}
		nr := cs2.GetNbR1C()
		if err := cs2.SplitDumpBinary("Part", bs); err != nil {
			c.Abort("SplitDumpBinary: %v", err)
		}
		how = fmt.Sprintf("parts of %d", bs)
		if err := p2InitParted("ph1", "Part", "0.ph2", nc, nr, bs); err != nil {
			c.Fail("ceremony-failed", "%s: initialization from %s: %v", k.Name, how, err)
		}
	} else if err := p2Init("ph1", "r1cs", "0.ph2"); err != nil {
		c.Fail("ceremony-failed", "%s: initialization: %v", k.Name, err)
	}
	z.NC = c.IntN(4)
	z.Delta, z.Known = frInt(1), true
	if z.NC == 3 {
		// real contributions, of unknown secrets
		z.NC = 1 + c.IntN(2)
		z.Known = false
		for i := 0; i < z.NC; i++ {
			if err := p2Contribute(fmt.Sprint(i, ".ph2"), fmt.Sprint(i+1, ".ph2")); err != nil {
				c.Fail("ceremony-failed", "%s: contribution: %v", k.Name, err)
			}
		}
	} else if z.NC > 0 {
		o, err := readP2("0.ph2")
		if err != nil {
			c.Fail("ceremony-failed", "%s: %v", k.Name, err)
		}
		var secs []P2Sec
		for i := 0; i < z.NC; i++ {
			secs = append(secs, randP2Sec(c.Rng))
			z.Delta = mulF(z.Delta, secs[i].D)
		}
		mustWrite(fmt.Sprint(z.NC, ".ph2"), applyP2(o, secs).Bytes())
	}
	z.Ph2 = fmt.Sprint(z.NC, ".ph2")
	z.Where = fmt.Sprintf("%s (%s); SRS of power %d, %s; %d contributions (known: %v)", k.Name, how, pow, kind, z.NC, z.Known)
	return z
}

// ---------------------------------------------------------------- comparing

type cmp struct {
	c     *Ctx
	where string
	ok    bool
}

func (m *cmp) bad(key, f string, a ...any) {
	m.ok = false
	m.c.Violation(key, "%s: %s", m.where, fmt.Sprintf(f, a...))
}

func (m *cmp) eval(name string) { m.c.Eval(m.where+name, true) }

func (m *cmp) g1(name string, got G1, want G1) {
	m.eval(name)
	if !got.Equal(&want) {
		m.bad(name, "%s is wrong", name)
	}
}

func (m *cmp) g2(name string, got G2, want G2) {
	m.eval(name)
	if !got.Equal(&want) {
		m.bad(name, "%s is wrong", name)
	}
}

func (m *cmp) g1l(name string, got, want []G1) {
	m.eval(name)
	m.c.Count("points_compared", len(want))
	if len(got) != len(want) {
		m.bad(name, "%d elements of %s, expected %d", len(got), name, len(want))
	} else if i := eqG1(want, got); i >= 0 {
		m.bad(name, "%s[%d] of %d is wrong", name, i, len(want))
	}
}

func (m *cmp) g2l(name string, got, want []G2) {
	m.eval(name)
	m.c.Count("points_compared", len(want))
	if len(got) != len(want) {
		m.bad(name, "%d elements of %s, expected %d", len(got), name, len(want))
	} else if i := eqG2(want, got); i >= 0 {
		m.bad(name, "%s[%d] of %d is wrong", name, i, len(want))
	}
}

func (m *cmp) num(name string, got, want uint64) {
	m.eval(name)
	if got != want {
		m.bad(name, "%s is %d, expected %d", name, got, want)
	}
}

func (m *cmp) bools(name string, got []bool, s []Fr) {
	m.eval(name)
	if len(got) != len(s) {
		m.bad(name, "%d entries of %s, expected %d", len(got), name, len(s))
		return
	}
	for i := range s {
		if got[i] != s[i].IsZero() {
			m.bad(name, "%s[%d] is %v", name, i, got[i])
			return
		}
	}
}

func scaleAll(s []Fr, x Fr) []Fr {
	out := make([]Fr, len(s))
	for i := range s {
		out[i] = mulF(s[i], x)
	}
	return out
}

// expected parameters that depend on delta
func (z *Cer) deltas(c *Ctx) (d1 G1, d2 G2, Z, K []G1) {
	if z.Known {
		inv := invF(z.Delta)
		return mulG1(gen1, z.Delta), mulG2(gen2, z.Delta), g1s(scaleAll(z.R.Z, inv)...), g1s(scaleAll(z.R.PKK, inv)...)
	}
	p, err := readP2(z.Ph2)
	if err != nil {
		c.Fail("ceremony-failed", "%v", err)
	}
	return p.D1, p.D2, p.Z, p.PKK
}

func (m *cmp) pk(z *Cer, k *PKey, dom bool) {
	R, b := z.R, z.B
	n := R.H.Domain
	m.num("cardinality", k.Card, uint64(n))
	if dom {
		d := fft.NewDomain(uint64(n))
		for i, w := range []Fr{d.CardinalityInv, d.Generator, d.GeneratorInv, d.FrMultiplicativeGen, d.FrMultiplicativeGenInv} {
			m.eval(fmt.Sprint("domain", i))
			if !k.Dom[i].Equal(&w) {
				m.bad("domain", "field %d of the domain is wrong", i)
			}
		}
	}
	d1, d2, Z, K := z.deltas(m.c)
	m.g1("pk alpha", k.Alpha, mulG1(gen1, b.A))
	m.g1("pk beta1", k.Beta, mulG1(gen1, b.B))
	m.g1("pk delta1", k.Delta, d1)
	m.g2("pk beta2", k.Beta2, mulG2(gen2, b.B))
	m.g2("pk delta2", k.Delta2, d2)
	m.g1l("pk A", k.A, g1s(nonZero(R.A)...))
	m.g1l("pk B1", k.B, g1s(nonZero(R.B)...))
	m.g2l("pk B2", k.B2, g2s(nonZero(R.B)...))
	m.g1l("pk Z", k.Z, Z)
	m.g1l("pk K", k.K, K)
	m.num("wires", k.NbWires, uint64(R.H.Wires))
	m.num("number of infinities in A", k.NbInfA, uint64(len(R.A)-len(nonZero(R.A))))
	m.num("number of infinities in B", k.NbInfB, uint64(len(R.B)-len(nonZero(R.B))))
	m.bools("infinities of A", k.InfA, R.A)
	m.bools("infinities of B", k.InfB, R.B)
}

func (m *cmp) ped(R *Ref, p *PedKey) {
	m.g1l("commitment basis", p.Basis, g1s(R.CKK...))
	m.eval("commitment key")
	if p.G.IsInfinity() || p.GRootSigmaNeg.IsInfinity() || !p.G.IsInSubGroup() {
		m.bad("commitment key", "degenerate")
		return
	}
	var one G2
	one.Neg(&p.G)
	if p.GRootSigmaNeg.Equal(&one) || p.GRootSigmaNeg.Equal(&p.G) {
		m.bad("commitment key", "sigma is trivial")
	}
	if p.G.Equal(&gen2) || p.G.Equal(&p.GRootSigmaNeg) {
		m.bad("commitment key", "g is not random")
	}
	if len(p.BasisExpSigma) != len(p.Basis) {
		m.bad("commitment key", "%d elements of basisExpSigma, %d of basis", len(p.BasisExpSigma), len(p.Basis))
		return
	}
	m.eval("sigma")
	m.c.Count("sigma_pairs", len(p.Basis))
	sigma, basis := p.BasisExpSigma, p.Basis
	if len(basis) > 300 { // together, with random weights
		w := make([]Fr, len(basis))
		for i := range w {
			w[i].SetBytes(m.c.Bytes(16))
		}
		sigma, basis = []G1{msm1(sigma, w)}, []G1{msm1(basis, w)}
	}
	for i := range basis {
		ok, err := bn254.PairingCheck([]G1{sigma[i], basis[i]}, []G2{p.GRootSigmaNeg, p.G})
		if err != nil || !ok {
			m.bad("commitment key", "basisExpSigma[%d] of %d doesn't match sigma", i, len(p.Basis))
			return
		}
	}
}

func (m *cmp) vk(z *Cer, v *VKey) {
	R, b := z.R, z.B
	d1, d2, _, _ := z.deltas(m.c)
	m.g1("vk alpha", v.Alpha, mulG1(gen1, b.A))
	m.g1("vk beta1", v.Beta, mulG1(gen1, b.B))
	m.g2("vk beta2", v.Beta2, mulG2(gen2, b.B))
	m.g2("vk gamma2", v.Gamma2, gen2)
	m.g1("vk delta1", v.Delta, d1)
	m.g2("vk delta2", v.Delta2, d2)
	m.g1l("vk K", v.K, g1s(R.VKK...))
	m.ped(R, &v.Ped)
	m.eval("commitment info")
	if !sameInfo(v.Info, R.Info) {
		m.bad("commitment info", "%+v, expected %+v", v.Info, R.Info)
	}
}

// sameKeys compares two proving keys
func (m *cmp) samePK(a, b *PKey) {
	m.num("cardinality", a.Card, b.Card)
	m.g1l("pk singles", []G1{a.Alpha, a.Beta, a.Delta}, []G1{b.Alpha, b.Beta, b.Delta})
	m.g2l("pk singles G2", []G2{a.Beta2, a.Delta2}, []G2{b.Beta2, b.Delta2})
	m.g1l("pk A", a.A, b.A)
	m.g1l("pk B1", a.B, b.B)
	m.g1l("pk Z", a.Z, b.Z)
	m.g1l("pk K", a.K, b.K)
	m.g2l("pk B2", a.B2, b.B2)
	m.num("wires", a.NbWires, b.NbWires)
	m.num("nbInfinityA", a.NbInfA, b.NbInfA)
	m.num("nbInfinityB", a.NbInfB, b.NbInfB)
	if !reflect.DeepEqual(a.InfA, b.InfA) || !reflect.DeepEqual(a.InfB, b.InfB) {
		m.bad("infinities", "differ")
	}
}

func (m *cmp) sameVK(a, b *VKey) {
	m.g1l("vk singles", []G1{a.Alpha, a.Beta, a.Delta}, []G1{b.Alpha, b.Beta, b.Delta})
	m.g2l("vk singles G2", []G2{a.Beta2, a.Gamma2, a.Delta2}, []G2{b.Beta2, b.Gamma2, b.Delta2})
	m.g1l("vk K", a.K, b.K)
	m.g1l("commitment basis", a.Ped.Basis, b.Ped.Basis)
	if !reflect.DeepEqual(a.Info, b.Info) {
		m.bad("commitment info", "%+v and %+v", a.Info, b.Info)
	}
}

// ---------------------------------------------------------------- C11

func init() {
	register(&Check{ID: "C11", Quick: 260, Thorough: 4000, MinEvals: 2000, Run: runC11,
		Rule: "a case runs initialization (whole or parted), 0-2 contributions of known secrets (or real ones) and the real ExtractKeys for a random circuit, parses pk and vk and compares every field with the key a trusted setup with the same secrets has, computed in the exponent; distinct by (circuit, ceremony, field)"})
	register(&Check{ID: "C12", Quick: 160, Thorough: 3000, MinEvals: 2000, Run: runC12,
		Rule: "a case extracts monolithic and split keys (several session names) of one ceremony, compares each field of the seven split files with the monolithic keys and with the exponents, the commitment key file with the one in vk, and parses every constant of the exported Solidity contract; distinct by (circuit, ceremony, session, field)"})
}

func runC11(c *Ctx) {
	max := 70
	if c.Case%25 == 3 {
		max = 700
	}
	k := c.anyCirc(max)
	if c.Giant() {
		k = c.wideCirc()
	}
	z := c.ceremony(k, c.P(1, 4))
	before := mustRead(z.Ph2)
	c.leave(3, func() error { return extractKeys("0.ph2") })
	if err := extractKeys(z.Ph2); err != nil {
		c.Violation("extract-failed", "%s: %v", z.Where, err)
		return
	}
	m := &cmp{c: c, where: z.Where, ok: true}
	pk, err := parsePK(mustRead("pk"))
	if err != nil {
		c.Violation("pk-unreadable", "%s: %v", z.Where, err)
		return
	}
	vk, err := parseVK(mustRead("vk"))
	if err != nil {
		c.Violation("vk-unreadable", "%s: %v", z.Where, err)
		return
	}
	m.pk(z, pk, true)
	m.vk(z, vk)
	if !bytes.Equal(before, mustRead(z.Ph2)) {
		c.Violation("input-changed", "%s: extraction changed its input", z.Where)
	}
	// what gnark reads is what was written
	if err := m.gnarkReads("pk", "vk"); err != nil {
		c.Violation("gnark-cant-read", "%s: %v", z.Where, err)
	}
	// extracting an earlier file of the same ceremony gives its keys
	if z.NC > 0 && c.P(1, 3) {
		if err := extractKeys("0.ph2"); err != nil {
			c.Violation("extract-failed", "initial file of %s: %v", z.Where, err)
			return
		}
		y := *z
		y.Delta, y.Known, y.NC, y.Ph2 = frInt(1), true, 0, "0.ph2"
		m := &cmp{c: c, where: "initial file of " + z.Where, ok: true}
		if pk, err = parsePK(mustRead("pk")); err != nil {
			c.Violation("pk-unreadable", "%s: %v", m.where, err)
			return
		}
		if vk, err = parseVK(mustRead("vk")); err != nil {
			c.Violation("vk-unreadable", "%s: %v", m.where, err)
			return
		}
		m.pk(&y, pk, true)
		m.vk(&y, vk)
	}
	c.Sample(map[string]any{"circuit": k.Name, "contributions": z.NC, "known": z.Known, "wires": z.R.H.Wires, "domain": z.R.H.Domain, "commitment_basis": len(z.R.CKK), "infinities_A": pk.NbInfA})
	c.Count("infinities", int(pk.NbInfA+pk.NbInfB))
}

func (m *cmp) gnarkReads(pkPath, vkPath string) error {
	pb, vb := mustRead(pkPath), mustRead(vkPath)
	pk := groth16.NewProvingKey(ecc.BN254)
	r := bytes.NewReader(pb)
	n, err := pk.ReadFrom(r)
	if err != nil {
		return fmt.Errorf("proving key: %v", err)
	}
	if int(n) != len(pb) {
		return fmt.Errorf("gnark reads %d of the %d bytes of the proving key", n, len(pb))
	}
	vk := groth16.NewVerifyingKey(ecc.BN254)
	r = bytes.NewReader(vb)
	if _, err = vk.ReadFrom(r); err != nil {
		return fmt.Errorf("verifying key: %v", err)
	}
	if r.Len() != 0 {
		return fmt.Errorf("gnark leaves %d bytes of the verifying key", r.Len())
	}
	m.eval("gnark reads")
	return nil
}

// ---------------------------------------------------------------- C12

func (c *Ctx) sessionName() string {
	switch c.IntN(8) {
	case 0:
		return "Foo.Bar"
	case 1:
		os.MkdirAll("dir/sub", 0755)
		return "dir/sub/keys"
	case 2:
		return filepath.Join(c.Dir, "abs")
	case 3:
		return "with space %d %s"
	case 4:
		return "Foo.vk.save"
	case 5:
		os.MkdirAll("d.e", 0755)
		return "./d.e/é"
	}
	return "Foo"
}

func runC12(c *Ctx) {
	max := 60
	if c.Case%25 == 3 {
		max = 700
	}
	k := c.anyCirc(max)
	if c.Giant() {
		k = c.wideCirc()
	}
	z := c.ceremony(k, c.P(1, 5))
	if err := extractKeys(z.Ph2); err != nil {
		c.Fail("ceremony-failed", "%s: ExtractKeys: %v", z.Where, err)
	}
	pk, err1 := parsePK(mustRead("pk"))
	vk, err2 := parseVK(mustRead("vk"))
	if err1 != nil || err2 != nil {
		c.Fail("ceremony-failed", "%s: monolithic keys: %v %v", z.Where, err1, err2)
	}
	s := c.sessionName()
	where := z.Where + "; session " + s
	c.leave(3, func() error {
		if err := extractSplit("0.ph2", s); err != nil || c.Bool() {
			return err
		}
		return exportSol(s)
	})
	if err := extractSplit(z.Ph2, s); err != nil {
		c.Violation("split-failed", "%s: %v", where, err)
		return
	}
	m := &cmp{c: c, where: where, ok: true}
	sp, ped, err := parseSplitPK(s)
	if err != nil {
		c.Violation("split-unreadable", "%s: %v", where, err)
		return
	}
	svk, err := parseVK(mustRead(s + ".vk.save"))
	if err != nil {
		c.Violation("split-vk-unreadable", "%s: %v", where, err)
		return
	}
	m.pk(z, sp, false)
	m.vk(z, svk)
	m.samePK(sp, pk)
	m.sameVK(svk, vk)
	m.eval("commitment key file")
	if !ped.G.Equal(&svk.Ped.G) || !ped.GRootSigmaNeg.Equal(&svk.Ped.GRootSigmaNeg) || eqG1(ped.Basis, svk.Ped.Basis) >= 0 || eqG1(ped.BasisExpSigma, svk.Ped.BasisExpSigma) >= 0 {
		m.bad("commitment-key-file", "the commitment key of the prover isn't that of the verifying key")
	}
	// gnark reads them
	if _, err := groth16.ReadSegmentProveKey(ecc.BN254, s); err != nil {
		m.bad("gnark-cant-read", "%v", err)
	}
	// the contract
	if err := exportSol(s); err != nil {
		c.Violation("sol-failed", "%s: %v", where, err)
		return
	}
	m.sol(string(mustRead(s+".sol")), svk)
	// the split files come out the same again, except for the commitment key
	if c.P(1, 3) {
		s2 := "Again"
		if err := extractSplit(z.Ph2, s2); err != nil {
			c.Violation("split-failed", "%s again: %v", where, err)
			return
		}
		for _, part := range []string{"E", "A", "B1", "Z", "K", "B2"} {
			m.eval("again " + part)
			if !bytes.Equal(mustRead(s+".pk."+part+".save"), mustRead(s2+".pk."+part+".save")) {
				m.bad("not-reproducible", "part %s came out differently", part)
			}
		}
	}
	c.Sample(map[string]any{"circuit": k.Name, "session": s, "contributions": z.NC, "public": len(svk.K)})
}

var solUint = regexp.MustCompile(`uint256\((-?\d+)\)`)

func (m *cmp) sol(text string, vk *VKey) {
	nums := func(line string) []string {
		var out []string
		for _, x := range solUint.FindAllStringSubmatch(line, -1) {
			// gnark's template prints p-2 as -2, which only occurs without secrets
			if strings.HasPrefix(x[1], "-") {
				b, _ := new(big.Int).SetString(x[1], 10)
				x[1] = b.Mod(b, fp.Modulus()).String()
			}
			out = append(out, x[1])
		}
		return out
	}
	es := func(e fp.Element) string {
		var b big.Int
		e.BigInt(&b)
		return b.String()
	}
	p1 := func(p G1) []string { return []string{es(p.X), es(p.Y)} }
	p2 := func(p G2) []string { return []string{es(p.X.A1), es(p.X.A0), es(p.Y.A1), es(p.Y.A0)} }
	want := map[string][]string{
		"vk.alfa1":  p1(vk.Alpha),
		"vk.beta2":  p2(vk.Beta2),
		"vk.gamma2": p2(vk.Gamma2),
		"vk.delta2": p2(vk.Delta2),
	}
	lines := strings.Split(text, "\n")
	for name, w := range want {
		m.eval("sol " + name)
		n := 0
		for _, l := range lines {
			l = strings.TrimSpace(l)
			if strings.HasPrefix(l, name+" ") && strings.Contains(l, "=") {
				n++
				if fmt.Sprint(nums(l)) != fmt.Sprint(w) {
					m.bad("sol-constant", "%s is %v, expected %v", name, nums(l), w)
				}
			}
		}
		if n != 1 {
			m.bad("sol-constant", "%d definitions of %s", n, name)
		}
	}
	// K
	var got []string
	for _, l := range lines {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "vk_x.X =") || strings.HasPrefix(l, "vk_x.Y =") || strings.HasPrefix(l, "mul_input[0] =") || strings.HasPrefix(l, "mul_input[1] =") {
			got = append(got, nums(l)...)
		}
	}
	var w []string
	for i := range vk.K {
		w = append(w, p1(vk.K[i])...)
	}
	m.eval("sol K")
	if len(got) != len(w) {
		m.bad("sol-constant", "%d coordinates of K, expected %d", len(got), len(w))
	} else {
		for i := range w {
			if got[i] != w[i] {
				m.bad("sol-constant", "coordinate %d of K[%d] is %s", i%2, i/2, got[i])
				break
			}
		}
	}
	m.eval("sol inputs")
	if !strings.Contains(text, fmt.Sprintf("uint256[%d] calldata input", len(vk.K)-1)) && !strings.Contains(text, fmt.Sprintf("uint256[%d] memory input", len(vk.K)-1)) {
		m.bad("sol-inputs", "the contract doesn't take %d inputs", len(vk.K)-1)
	}
	used := map[string]int{}
	for _, x := range strings.Split(text, "mul_input[2] = input[")[1:] {
		if i := strings.Index(x, "];"); i >= 0 {
			used[x[:i]]++
		}
	}
	for i := 1; i < len(vk.K); i++ {
		if used[fmt.Sprint(i-1)] != 1 {
			m.bad("sol-inputs", "input %d isn't multiplied once", i-1)
			break
		}
	}
}

// ---------------------------------------------------------------- C13

func init() {
	register(&Check{ID: "C13", Quick: 190, Thorough: 3000, MinEvals: 500, Run: runC13,
		Rule: "a case runs a ceremony with the real commands for a compiled program (hints, lazified hashes, commitments, public-only), extracts monolithic and split keys, proves random satisfying assignments with both, verifies, and checks that other public inputs, another ceremony's key, proofs of the other ceremony, a proof with another program's key and proofs with altered points are rejected; distinct by (program, ceremony, input, check)"})
	register(&Check{ID: "C14", Quick: 150, Thorough: 2500, MinEvals: 1000, Run: runC14,
		Rule: "a case takes a circuit with a commitment (compiled or random, whole and in parts), compares the partition of the wires and the bases with the exponents, the commitment keys of several extractions (over exactly that basis, correct sigma relation, never repeated), and proves and verifies with them, including that a wrong commitment or proof of knowledge is rejected; distinct by (circuit, extraction, field)"})
}

// setCommitmentKey gives gnark's proving key the commitment key of vk: gnark
// doesn't serialize it with the monolithic proving key
func setCommitmentKey(pk groth16.ProvingKey, vk groth16.VerifyingKey) {
	src := reflect.ValueOf(vk).Elem().FieldByName("CommitmentKey")
	dst := reflect.ValueOf(pk).Elem().FieldByName("CommitmentKey")
	if src.IsValid() && dst.IsValid() {
		dst.Set(src)
	}
}

func loadVK(path string) (groth16.VerifyingKey, error) {
	vk := groth16.NewVerifyingKey(ecc.BN254)
	_, err := vk.ReadFrom(bytes.NewReader(mustRead(path)))
	return vk, err
}

func loadPK(path string) (groth16.ProvingKey, error) {
	pk := groth16.NewProvingKey(ecc.BN254)
	_, err := pk.ReadFrom(bytes.NewReader(mustRead(path)))
	return pk, err
}

func verifyProof(p groth16.Proof, vk groth16.VerifyingKey, w witness.Witness) error {
	return try(func() error { return groth16.Verify(p, vk, w) })
}

func prove(cs constraint.ConstraintSystem, pk groth16.ProvingKey, w witness.Witness) (p groth16.Proof, err error) {
	err = try(func() (e error) { p, e = groth16.Prove(cs, pk, w); return e })
	return
}

func proveRoll(cs constraint.ConstraintSystem, session string, w witness.Witness) (p groth16.Proof, err error) {
	err = try(func() error {
		pks, e := groth16.ReadSegmentProveKey(ecc.BN254, session)
		if e != nil {
			return e
		}
		p, e = groth16.ProveRoll(cs, pks[0], pks[1], w, session)
		return e
	})
	return
}

// gnarkAlone tells whether gnark proves and verifies the circuit with a setup
// of its own
func gnarkAlone(cs constraint.ConstraintSystem, w, pub witness.Witness) error {
	return try(func() error {
		pk, vk, err := groth16.Setup(cs)
		if err != nil {
			return err
		}
		p, err := groth16.Prove(cs, pk, w)
		if err != nil {
			return err
		}
		return groth16.Verify(p, vk, pub)
	})
}

// realCeremony is made of commands only
func (c *Ctx) realCeremony(k *Circ, dir string) error {
	os.MkdirAll(dir, 0755)
	cwd, _ := os.Getwd()
	if err := os.Chdir(dir); err != nil {
		return err
	}
	defer os.Chdir(cwd)
	cs := k.write("r1cs")
	nc := cs.GetNbConstraints()
	c.p1ForCircuit("ph1", nextPow2(nc), false)
	if c.P(1, 3) {
		cs2 := k.Build()
		nr := cs2.GetNbR1C()
		bs := maxInt(1+c.IntN(nr+1), nr/50+1)
		if err := cs2.SplitDumpBinary("Part", bs); err != nil {
			return err
		}
		if err := p2InitParted("ph1", "Part", "0.ph2", nc, nr, bs); err != nil {
			return err
		}
	} else if err := p2Init("ph1", "r1cs", "0.ph2"); err != nil {
		return err
	}
	n := 1 + c.IntN(2)
	for i := 0; i < n; i++ {
		if err := p2Contribute(fmt.Sprint(i, ".ph2"), fmt.Sprint(i+1, ".ph2")); err != nil {
			return err
		}
	}
	last := fmt.Sprint(n, ".ph2")
	if err := p2Verify(last, "0.ph2"); err != nil {
		return err
	}
	c.leave(3, func() error {
		if err := extractKeys("0.ph2"); err != nil {
			return err
		}
		return extractSplit("0.ph2", "Split")
	})
	if err := extractKeys(last); err != nil {
		return err
	}
	return extractSplit(last, "Split")
}

func publicFrom(w witness.Witness, change func(v fr.Vector)) witness.Witness {
	pub, err := w.Public()
	if err != nil {
		panic(err)
	}
	v := append(fr.Vector{}, pub.Vector().(fr.Vector)...)
	change(v)
	q, err := witness.New(bn254.ID.ScalarField())
	if err != nil {
		panic(err)
	}
	ch := make(chan any, len(v))
	for i := range v {
		ch <- v[i]
	}
	close(ch)
	if err := q.Fill(len(v), 0, ch); err != nil {
		panic(err)
	}
	return q
}

func (c *Ctx) randomProgram() *Prog {
	var p *Prog
	switch c.Case % 8 {
	case 0:
		p = randProg(c.Rng, false, 1+c.IntN(3))
		p.Lazy = true
	case 1, 2, 3:
		p = randProg(c.Rng, true, 0)
	default:
		p = randProg(c.Rng, false, 0)
	}
	return p
}

// proofFields alters the exported points of a proof
func alteredProofs(c *Ctx, p groth16.Proof, committed bool) map[string]groth16.Proof {
	out := map[string]groth16.Proof{}
	v := reflect.ValueOf(p).Elem()
	clone := func() (groth16.Proof, reflect.Value) {
		q := reflect.New(v.Type())
		q.Elem().Set(v)
		return q.Interface().(groth16.Proof), q.Elem()
	}
	y := c.Fr()
	names := []string{"Ar", "Krs", "Bs"}
	if committed {
		names = append(names, "Commitment", "CommitmentPok")
	}
	for _, n := range names {
		f := v.FieldByName(n)
		if !f.IsValid() {
			continue
		}
		for m := 0; m < 4; m++ {
			q, e := clone()
			switch x := f.Interface().(type) {
			case G1:
				switch m {
				case 0:
					x = mulG1(x, y)
				case 1:
					x = negG1(x)
				case 2:
					x = G1{}
				case 3:
					x = addG1(x, gen1)
				}
				old := f.Interface().(G1)
				if x.Equal(&old) {
					continue
				}
				e.FieldByName(n).Set(reflect.ValueOf(x))
			case G2:
				switch m {
				case 0:
					x = mulG2(x, y)
				case 1:
					x = negG2(x)
				case 2:
					x = G2{}
				case 3:
					x = addG2(x, gen2)
				}
				old := f.Interface().(G2)
				if x.Equal(&old) {
					continue
				}
				e.FieldByName(n).Set(reflect.ValueOf(x))
			}
			out[fmt.Sprintf("%s altered (%d)", n, m)] = q
		}
	}
	return out
}

func runC13(c *Ctx) {
	pr := c.randomProgram()
	k := pr.circ()
	cs, err := pr.compile()
	if err != nil {
		c.Abort("%s: %v", k.Name, err)
	}
	if err := c.realCeremony(k, "a"); err != nil {
		c.Fail("ceremony-failed", "%s: ceremony: %v", k.Name, err)
	}
	vk, err := loadVK("a/vk")
	if err != nil {
		c.Violation("vk-unreadable", "%s: %v", k.Name, err)
		return
	}
	svk, err := loadVK("a/Split.vk.save")
	if err != nil {
		c.Violation("vk-unreadable", "%s: split: %v", k.Name, err)
		return
	}
	pk, err := loadPK("a/pk")
	if err != nil {
		c.Violation("pk-unreadable", "%s: %v", k.Name, err)
		return
	}
	setCommitmentKey(pk, vk)
	keyK, err := parseVK(mustRead("a/vk"))
	if err != nil {
		c.Violation("vk-unreadable", "%s: %v", k.Name, err)
		return
	}
	full, err := frontend.NewWitness(pr.assignment(c.Rng), bn254.ID.ScalarField())
	if err != nil {
		c.Abort("%s: witness: %v", k.Name, err)
	}
	pub, _ := full.Public()
	if err := gnarkAlone(k.Build(), full, pub); err != nil {
		// not a statement gnark can prove: nothing to do with the ceremony
		c.Count("gnark_cannot_prove", 1)
		c.Eval(k.Name+"gnark", false)
		return
	}
	p, err := prove(k.Build(), pk, full)
	c.Eval(k.Name+"prove", true)
	if err != nil {
		c.Violation("prove-failed", "%s: %v", k.Name, err)
		return
	}
	c.Eval(k.Name+"verify", true)
	if err := verifyProof(p, vk, pub); err != nil {
		c.Violation("proof-rejected", "%s: %v", k.Name, err)
		return
	}
	p2, err := proveRoll(k.Build(), "a/Split", full)
	c.Eval(k.Name+"prove split", true)
	if err != nil {
		c.Violation("split-prove-failed", "%s: %v", k.Name, err)
		return
	}
	c.Eval(k.Name+"verify split", true)
	if err := verifyProof(p2, svk, pub); err != nil {
		c.Violation("split-proof-rejected", "%s: %v", k.Name, err)
		return
	}
	c.Count("proofs", 2)
	committed := pr.UseCommit
	if !committed {
		// the keys are the same, so each verifies the other's proofs
		c.Eval(k.Name+"crossed", true)
		if verifyProof(p, svk, pub) != nil || verifyProof(p2, vk, pub) != nil {
			c.Violation("crossed-rejected", "%s: split and monolithic keys differ", k.Name)
		}
	}
	reject := func(what string, p groth16.Proof, vk groth16.VerifyingKey, w witness.Witness) {
		c.Eval(k.Name+what, true)
		c.Count("negatives", 1)
		if verifyProof(p, vk, w) == nil {
			c.Violation("accepted", "%s: verification succeeds with %s", k.Name, what)
		}
	}
	nPub := len(pub.Vector().(fr.Vector))
	for i := 0; i < nPub; i++ {
		if i+1 < len(keyK.K) && keyK.K[i+1].IsInfinity() {
			continue // an input that the circuit doesn't use
		}
		d := c.Fr()
		if c.P(1, 3) {
			d = frInt(1)
		}
		w := publicFrom(full, func(v fr.Vector) { v[i] = addF(v[i], d) })
		pp, vv, nm := p, vk, ""
		if c.Bool() {
			pp, vv, nm = p2, svk, " (split)"
		}
		reject(fmt.Sprintf("another public input %d%s", i, nm), pp, vv, w)
	}
	if nPub >= 2 {
		v := pub.Vector().(fr.Vector)
		if !v[0].Equal(&v[1]) && !keyK.K[1].Equal(&keyK.K[2]) {
			reject("public inputs swapped", p, vk, publicFrom(full, func(v fr.Vector) { v[0], v[1] = v[1], v[0] }))
		}
	}
	for what, q := range alteredProofs(c, p, committed) {
		reject(what, q, vk, pub)
	}
	// a second ceremony of the same circuit
	if c.P(1, 2) {
		if err := c.realCeremony(k, "b"); err != nil {
			c.Fail("ceremony-failed", "%s: second ceremony: %v", k.Name, err)
		}
		vk2, err := loadVK("b/vk")
		if err != nil {
			c.Violation("vk-unreadable", "%s: second: %v", k.Name, err)
			return
		}
		pk2, err := loadPK("b/pk")
		if err != nil {
			c.Violation("pk-unreadable", "%s: second: %v", k.Name, err)
			return
		}
		setCommitmentKey(pk2, vk2)
		reject("another ceremony's verifying key", p, vk2, pub)
		q, err := prove(k.Build(), pk2, full)
		if err != nil {
			c.Violation("prove-failed", "%s: second: %v", k.Name, err)
			return
		}
		if err := verifyProof(q, vk2, pub); err != nil {
			c.Violation("proof-rejected", "%s: second: %v", k.Name, err)
		}
		reject("another ceremony's proof", q, vk, pub)
		for _, f := range []string{"Ar", "Krs", "Bs"} {
			m := reflect.New(reflect.ValueOf(p).Elem().Type())
			m.Elem().Set(reflect.ValueOf(p).Elem())
			x := reflect.ValueOf(q).Elem().FieldByName(f)
			if x.IsValid() {
				m.Elem().FieldByName(f).Set(x)
				reject("another ceremony's "+f, m.Interface().(groth16.Proof), vk, pub)
			}
		}
	}
	// more assignments with the same keys
	for i := 0; i < 2; i++ {
		w, err := frontend.NewWitness(pr.assignment(c.Rng), bn254.ID.ScalarField())
		if err != nil {
			c.Abort("witness: %v", err)
		}
		wp, _ := w.Public()
		q, err := prove(k.Build(), pk, w)
		c.Eval(fmt.Sprint(k.Name, "more", i), true)
		if err != nil {
			c.Violation("prove-failed", "%s: %v", k.Name, err)
			break
		}
		if err := verifyProof(q, vk, wp); err != nil {
			c.Violation("proof-rejected", "%s: %v", k.Name, err)
			break
		}
		a, b := pub.Vector().(fr.Vector), wp.Vector().(fr.Vector)
		differ := false
		for i := range a {
			if !a[i].Equal(&b[i]) && (i+1 >= len(keyK.K) || !keyK.K[i+1].IsInfinity()) {
				differ = true
			}
		}
		if differ {
			reject(fmt.Sprint("the proof of other inputs ", i), q, vk, pub)
		}
		c.Count("proofs", 1)
	}
	_ = cs
	c.Sample(map[string]any{"program": k.Name, "public": nPub, "committed": committed})
}

// ---------------------------------------------------------------- C14

func runC14(c *Ctx) {
	var k *Circ
	var pr *Prog
	if c.Giant() {
		k = c.wideCirc()
		for !k.Build().CommitmentInfo.Is() {
			k = c.wideCirc()
		}
	} else if c.Case%3 != 0 {
		pr = randProg(c.Rng, true, 0)
		if c.P(1, 12) {
			pr = randProg(c.Rng, true, 1)
			pr.Lazy = true
		}
		k = pr.circ()
	} else {
		for {
			o := randRawOpts(c.Rng, 60)
			o.commit = true
			if o.internal == 0 {
				o.internal = 1 + c.IntN(5)
				o.sec += 1
			}
			k = rawCirc(o)
			if k.Build().CommitmentInfo.Is() {
				break
			}
		}
	}
	z := c.initCommit(k)
	R := z.R
	if !z.CS.CommitmentInfo.Is() {
		c.Count("constant_commitment", 1)
		return
	}
	c.compareP2(z.Where, R, z.B, mustRead("0.ph2"), mustRead("evals"), nil)
	c.Count("committed_private_wires", len(R.CKK))
	o, err := readP2("0.ph2")
	if err != nil {
		return
	}
	secs := []P2Sec{randP2Sec(c.Rng)}
	z.Delta, z.Known, z.NC, z.Ph2 = secs[0].D, true, 1, "1.ph2"
	mustWrite(z.Ph2, applyP2(o, secs).Bytes())
	// extractions
	type ex struct {
		name, pk, vk string
		split        bool
	}
	for i, e := range []ex{{"monolithic", "pk", "vk", false}, {"split", "S", "S.vk.save", true}, {"monolithic again", "pk", "vk", false}, {"split again", "T", "T.vk.save", true}} {
		var err error
		if e.split {
			err = extractSplit(z.Ph2, e.pk)
		} else {
			err = extractKeys(z.Ph2)
		}
		if err != nil {
			c.Violation("extract-failed", "%s, %s: %v", z.Where, e.name, err)
			return
		}
		m := &cmp{c: c, where: z.Where + ", " + e.name, ok: true}
		vk, err := parseVK(mustRead(e.vk))
		if err != nil {
			c.Violation("vk-unreadable", "%s: %v", m.where, err)
			return
		}
		m.vk(z, vk)
		c.Unique("commitment-key-g", put2(nil, vk.Ped.G))
		c.Unique("commitment-key-sigma", put2(nil, vk.Ped.GRootSigmaNeg))
		var pkk []G1
		if e.split {
			sp, ped, err := parseSplitPK(e.pk)
			if err != nil {
				c.Violation("split-unreadable", "%s: %v", m.where, err)
				return
			}
			m.ped(R, ped)
			m.eval("commitment key file")
			if !ped.G.Equal(&vk.Ped.G) || !ped.GRootSigmaNeg.Equal(&vk.Ped.GRootSigmaNeg) || eqG1(ped.BasisExpSigma, vk.Ped.BasisExpSigma) >= 0 {
				m.bad("commitment-key-file", "the commitment key of the prover isn't that of the verifying key")
			}
			pkk = sp.K
		} else {
			pk, err := parsePK(mustRead(e.pk))
			if err != nil {
				c.Violation("pk-unreadable", "%s: %v", m.where, err)
				return
			}
			pkk = pk.K
		}
		m.g1l("pk K", pkk, g1s(scaleAll(R.PKK, invF(z.Delta))...))
		if pr != nil && m.ok && i < 2 {
			c.proveCommitted(pr, k, e.split, e.pk, e.vk, m)
		}
	}
	c.Sample(map[string]any{"circuit": k.Name, "committed": R.Info.Committed[:minInt(20, len(R.Info.Committed))], "private": R.Info.NbPrivateCommitted, "commitment_wire": R.Info.CommitmentIndex, "header": R.H})
}

func (c *Ctx) initCommit(k *Circ) *Cer {
	z := &Cer{K: k}
	z.CS = k.write("r1cs")
	nc := z.CS.GetNbConstraints()
	b, _, _ := c.p1ForCircuit("ph1", nextPow2(nc), false)
	z.B = b
	z.R = reference(z.CS, b)
	z.Where = k.Name
	if c.P(1, 2) {
		cs2 := k.Build()
		nr := cs2.GetNbR1C()
		bs := maxInt(1+c.IntN(nr+2), nr/50+1)
		if err := cs2.SplitDumpBinary("Part", bs); err != nil {
			c.Abort("SplitDumpBinary: %v", err)
		}
		z.Where += fmt.Sprintf(" in parts of %d", bs)
		if err := p2InitParted("ph1", "Part", "0.ph2", nc, nr, bs); err != nil {
			c.Violation("parted-init-failed", "%s: %v", z.Where, err)
			c.End()
		}
	} else if err := p2Init("ph1", "r1cs", "0.ph2"); err != nil {
		c.Violation("init-failed", "%s: %v", z.Where, err)
		c.End()
	}
	return z
}

func (c *Ctx) proveCommitted(pr *Prog, k *Circ, split bool, pkPath, vkPath string, m *cmp) {
	full, err := frontend.NewWitness(pr.assignment(c.Rng), bn254.ID.ScalarField())
	if err != nil {
		c.Abort("witness: %v", err)
	}
	pub, _ := full.Public()
	if err := gnarkAlone(k.Build(), full, pub); err != nil {
		c.Count("gnark_cannot_prove", 1)
		return
	}
	vk, err := loadVK(vkPath)
	if err != nil {
		m.bad("vk-unreadable", "%v", err)
		return
	}
	var p groth16.Proof
	if split {
		p, err = proveRoll(k.Build(), pkPath, full)
	} else {
		var pk groth16.ProvingKey
		if pk, err = loadPK(pkPath); err == nil {
			setCommitmentKey(pk, vk)
			p, err = prove(k.Build(), pk, full)
		}
	}
	m.eval("prove")
	if err != nil {
		m.bad("prove-failed", "%v", err)
		return
	}
	m.eval("verify")
	if err := verifyProof(p, vk, pub); err != nil {
		m.bad("proof-rejected", "%v", err)
		return
	}
	c.Count("proofs", 1)
	for what, q := range alteredProofs(c, p, true) {
		if !strings.HasPrefix(what, "Commitment") {
			continue
		}
		m.eval(what)
		c.Count("negatives", 1)
		if verifyProof(q, vk, pub) == nil {
			m.bad("accepted", "verification succeeds with %s", what)
		}
	}
}
