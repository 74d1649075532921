package main

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
)

type G1 = bn254.G1Affine
type G2 = bn254.G2Affine
type Fr = fr.Element

var gen1, gen2 = func() (G1, G2) {
	_, _, a, b := bn254.Generators()
	return a, b
}()

func frInt(x int64) Fr {
	var e Fr
	e.SetInt64(x)
	return e
}

func mulF(l ...Fr) Fr {
	r := frInt(1)
	for i := range l {
		r.Mul(&r, &l[i])
	}
	return r
}

func addF(l ...Fr) Fr {
	var r Fr
	for i := range l {
		r.Add(&r, &l[i])
	}
	return r
}

func subF(a, b Fr) Fr { var r Fr; r.Sub(&a, &b); return r }
func negF(a Fr) Fr    { var r Fr; r.Neg(&a); return r }
func invF(a Fr) Fr    { var r Fr; r.Inverse(&a); return r }

func powF(a Fr, n int) Fr {
	var r Fr
	r.Exp(a, big.NewInt(int64(n)))
	return r
}

func powers(t, mul Fr, n int) []Fr {
	out := make([]Fr, n)
	cur := mul
	for i := range out {
		out[i] = cur
		cur.Mul(&cur, &t)
	}
	return out
}

func mulG1(p G1, s Fr) G1 {
	var b big.Int
	s.BigInt(&b)
	var r G1
	r.ScalarMultiplication(&p, &b)
	return r
}

func mulG2(p G2, s Fr) G2 {
	var b big.Int
	s.BigInt(&b)
	var r G2
	r.ScalarMultiplication(&p, &b)
	return r
}

func g1s(s ...Fr) []G1 {
	if len(s) == 0 {
		return nil
	}
	if len(s) == 1 { // the batch multiplication is slow for a single scalar
		return []G1{mulG1(gen1, s[0])}
	}
	return fixInf1(s, bn254.BatchScalarMultiplicationG1(&gen1, s))
}

func g2s(s ...Fr) []G2 {
	if len(s) == 0 {
		return nil
	}
	if len(s) < 4 {
		out := make([]G2, len(s))
		for i := range s {
			out[i] = mulG2(gen2, s[i])
		}
		return out
	}
	return fixInf2(s, bn254.BatchScalarMultiplicationG2(&gen2, s))
}

// the identity is (0,0) in affine coordinates
func fixInf1(s []Fr, p []G1) []G1 {
	for i := range s {
		if s[i].IsZero() {
			p[i] = G1{}
		}
	}
	return p
}

func fixInf2(s []Fr, p []G2) []G2 {
	for i := range s {
		if s[i].IsZero() {
			p[i] = G2{}
		}
	}
	return p
}

func addG1(a, b G1) G1 { var r G1; r.Add(&a, &b); return r }
func subG1(a, b G1) G1 { var r G1; r.Sub(&a, &b); return r }
func negG1(a G1) G1    { var r G1; r.Neg(&a); return r }
func addG2(a, b G2) G2 { var r G2; r.Add(&a, &b); return r }
func subG2(a, b G2) G2 { var r G2; r.Sub(&a, &b); return r }
func negG2(a G2) G2    { var r G2; r.Neg(&a); return r }

// sameRatio tells whether e(a1,b2) = e(b1,a2), i.e. a1/b1 = a2/b2
func sameRatio(a1, b1 G1, a2, b2 G2) bool {
	var n G1
	n.Neg(&b1)
	ok, err := bn254.PairingCheck([]G1{a1, n}, []G2{b2, a2})
	return err == nil && ok
}

func msm1(p []G1, s []Fr) G1 {
	var r G1
	if len(p) == 0 {
		return r
	}
	if _, err := r.MultiExp(p, s, ecc.MultiExpConfig{}); err != nil {
		panic(err)
	}
	return r
}

func msm2(p []G2, s []Fr) G2 {
	var r G2
	if len(p) == 0 {
		return r
	}
	if _, err := r.MultiExp(p, s, ecc.MultiExpConfig{}); err != nil {
		panic(err)
	}
	return r
}

func hashToSP(S, SX G1, challenge []byte, dst byte) G2 {
	buf := append([]byte{}, S.Marshal()...)
	buf = append(buf, SX.Marshal()...)
	buf = append(buf, challenge...)
	p, err := bn254.HashToG2(buf, []byte{dst})
	if err != nil {
		panic(err)
	}
	return p
}

// PK is a proof of knowledge
type PK struct {
	S, SX G1
	SPX   G2
}

func makePK(x, s Fr, challenge []byte, dst byte) PK {
	var k PK
	k.S = mulG1(gen1, s)
	k.SX = mulG1(k.S, x)
	k.SPX = mulG2(hashToSP(k.S, k.SX, challenge, dst), x)
	return k
}

func sha(b []byte) []byte {
	h := sha256.Sum256(b)
	return h[:]
}

// ---------------------------------------------------------------- odd points

// offSubgroupG2 returns a point of the twist outside the prime-order group
func offSubgroupG2(r *Rng) G2 {
	for {
		var p G2
		p.X.A0.SetBytes(r.Bytes(48))
		p.X.A1.SetBytes(r.Bytes(48))
		y := p.X
		y.Square(&y)
		y.Mul(&y, &p.X)
		// b' = y² - x³ of the generator
		b, x3 := gen2.Y, gen2.X
		b.Square(&gen2.Y)
		x3.Square(&gen2.X)
		x3.Mul(&x3, &gen2.X)
		b.Sub(&b, &x3)
		y.Add(&y, &b)
		if y.Legendre() != 1 {
			continue
		}
		p.Y.Sqrt(&y)
		if p.IsOnCurve() && !p.IsInSubGroup() {
			return p
		}
	}
}

// badG1Encodings returns compressed encodings that aren't valid G1 points
func badG1Encodings(r *Rng) [][]byte {
	var out [][]byte
	// x with no y
	for {
		var x, y fp.Element
		x.SetBytes(r.Bytes(48))
		y.Square(&x)
		y.Mul(&y, &x)
		three := fp.Element{}
		three.SetUint64(3)
		y.Add(&y, &three)
		if y.Legendre() == -1 {
			b := x.Bytes()
			b[0] |= 0x80
			out = append(out, b[:])
			break
		}
	}
	return out
}

// ---------------------------------------------------------------- decoding

type rd struct {
	b    []byte
	err  error
	flex bool // points may be uncompressed, and anything may follow
}

func (r *rd) take(n int) []byte {
	if r.err != nil || n < 0 || len(r.b) < n {
		if r.err == nil {
			r.err = fmt.Errorf("file too short: %d bytes left, %d needed", len(r.b), n)
		}
		return make([]byte, max0(n))
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return x
}

func max0(n int) int {
	if n < 0 || n > 1<<20 {
		return 0
	}
	return n
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func (r *rd) fail(e error) {
	if r.err == nil {
		r.err = e
	}
}

func (r *rd) g1() (p G1) {
	n := 32
	if r.flex && len(r.b) > 0 && r.b[0]&0xc0 == 0 {
		n = 64
	}
	b := r.take(n)
	if r.err == nil {
		if _, err := p.SetBytes(b); err != nil {
			r.fail(err)
		}
	}
	return
}

func (r *rd) g1raw() (p G1) {
	b := r.take(64)
	if r.err == nil {
		if b[0]&0xc0 != 0 && b[0]&0xc0 != 0x40 {
			r.fail(errors.New("expected an uncompressed point"))
			return
		}
		if _, err := p.SetBytes(b); err != nil {
			r.fail(err)
		}
	}
	return
}

func (r *rd) g2() (p G2) {
	n := 64
	if r.flex && len(r.b) > 0 && r.b[0]&0xc0 == 0 {
		n = 128
	}
	b := r.take(n)
	if r.err == nil {
		if _, err := p.SetBytes(b); err != nil {
			r.fail(err)
		}
	}
	return
}

func (r *rd) g2raw() (p G2) {
	b := r.take(128)
	if r.err == nil {
		if b[0]&0xc0 != 0 && b[0]&0xc0 != 0x40 {
			r.fail(errors.New("expected an uncompressed point"))
			return
		}
		if _, err := p.SetBytes(b); err != nil {
			r.fail(err)
		}
	}
	return
}

func (r *rd) g1n(n int) []G1 {
	if n < 0 || n > len(r.b)/32 {
		r.fail(fmt.Errorf("section of %d points doesn't fit", n))
		return nil
	}
	out := make([]G1, n)
	for i := range out {
		out[i] = r.g1()
	}
	return out
}

func (r *rd) g2n(n int) []G2 {
	if n < 0 || n > len(r.b)/64 {
		r.fail(fmt.Errorf("section of %d points doesn't fit", n))
		return nil
	}
	out := make([]G2, n)
	for i := range out {
		out[i] = r.g2()
	}
	return out
}

func (r *rd) u32() int {
	b := r.take(4)
	if len(b) < 4 {
		return 0
	}
	return int(b[0])<<24 | int(b[1])<<16 | int(b[2])<<8 | int(b[3])
}

func (r *rd) u64() uint64 {
	b := r.take(8)
	var x uint64
	for _, c := range b {
		x = x<<8 | uint64(c)
	}
	return x
}

func (r *rd) g1slice(raw bool) []G1 {
	n := r.u32()
	sz := 32
	if raw {
		sz = 64
	}
	if r.err != nil || n*sz > len(r.b) {
		r.fail(fmt.Errorf("slice of %d points doesn't fit", n))
		return nil
	}
	out := make([]G1, n)
	for i := range out {
		if raw {
			out[i] = r.g1raw()
		} else {
			out[i] = r.g1()
		}
	}
	return out
}

func (r *rd) g2slice(raw bool) []G2 {
	n := r.u32()
	sz := 64
	if raw {
		sz = 128
	}
	if r.err != nil || n*sz > len(r.b) {
		r.fail(fmt.Errorf("slice of %d points doesn't fit", n))
		return nil
	}
	out := make([]G2, n)
	for i := range out {
		if raw {
			out[i] = r.g2raw()
		} else {
			out[i] = r.g2()
		}
	}
	return out
}

func (r *rd) bools(n int) []bool {
	b := r.take(n)
	out := make([]bool, n)
	for i := range b {
		if i < n {
			out[i] = b[i] != 0
		}
	}
	return out
}

func put1(b []byte, l ...G1) []byte {
	for i := range l {
		e := l[i].Bytes()
		b = append(b, e[:]...)
	}
	return b
}

func put2(b []byte, l ...G2) []byte {
	for i := range l {
		e := l[i].Bytes()
		b = append(b, e[:]...)
	}
	return b
}

func eqG1(a, b []G1) int { // index of the first difference, -1 if none
	for i := range a {
		if i >= len(b) || !a[i].Equal(&b[i]) {
			return i
		}
	}
	if len(b) > len(a) {
		return len(a)
	}
	return -1
}

func eqG2(a, b []G2) int {
	for i := range a {
		if i >= len(b) || !a[i].Equal(&b[i]) {
			return i
		}
	}
	if len(b) > len(a) {
		return len(a)
	}
	return -1
}

// lagrangeAt returns the Lagrange polynomials of the domain of size n at t
func lagrangeAt(n int, t Fr) []Fr {
	dom := fft.NewDomain(uint64(n))
	w := dom.Generator
	out := make([]Fr, n)
	one := frInt(1)
	tn := powF(t, n)
	if tn.Equal(&one) {
		// t is in the domain
		cur := one
		for i := 0; i < n; i++ {
			if cur.Equal(&t) {
				out[i] = one
			}
			cur.Mul(&cur, &w)
		}
		return out
	}
	z := subF(tn, one)
	z = mulF(z, invF(frInt(int64(n))))
	cur := one
	den := make([]Fr, n)
	for i := 0; i < n; i++ {
		den[i] = subF(t, cur)
		cur.Mul(&cur, &w)
	}
	den = fr.BatchInvert(den)
	cur = one
	for i := 0; i < n; i++ {
		out[i] = mulF(z, cur, den[i])
		cur.Mul(&cur, &w)
	}
	return out
}

func bitrev(i, logn int) int {
	r := 0
	for k := 0; k < logn; k++ {
		if i>>k&1 == 1 {
			r |= 1 << (logn - 1 - k)
		}
	}
	return r
}

func log2(n int) int {
	k := 0
	for 1<<k < n {
		k++
	}
	return k
}

func frModulus() *big.Int { return fr.Modulus() }

func domainGen(n int) Fr { return fft.NewDomain(uint64(n)).Generator }
