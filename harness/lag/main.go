// Command lag calls the Lagrange conversion directly:
// lag <jobs> <results>. It is a program of its own so that a change of these
// internal functions' signatures doesn't stop the other checks.
package main

import (
	"encoding/binary"
	"os"

	"github.com/bnb-chain/zkbnb-setup/lagrange"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
)

func main() {
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	var out []byte
	u32 := func() int {
		v := binary.BigEndian.Uint32(b)
		b = b[4:]
		return int(v)
	}
	for len(b) > 0 {
		switch kind := u32(); kind {
		case 1:
			p := make([]bn254.G1Affine, u32())
			for i := range p {
				k, err := p[i].SetBytes(b[:64])
				if err != nil || k != 64 {
					panic("bad point")
				}
				b = b[64:]
			}
			lagrange.ConvertG1(p, fft.NewDomain(uint64(len(p))))
			for i := range p {
				e := p[i].RawBytes()
				out = append(out, e[:]...)
			}
		case 2:
			p := make([]bn254.G2Affine, u32())
			for i := range p {
				k, err := p[i].SetBytes(b[:128])
				if err != nil || k != 128 {
					panic("bad point")
				}
				b = b[128:]
			}
			lagrange.ConvertG2(p, fft.NewDomain(uint64(len(p))))
			for i := range p {
				e := p[i].RawBytes()
				out = append(out, e[:]...)
			}
		}
	}
	if err := os.WriteFile(os.Args[2], out, 0644); err != nil {
		panic(err)
	}
}
