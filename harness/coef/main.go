// Command coef prints random coefficients as verification draws them:
// coef <count> <output>. It is a program of its own so that another shape of this
// internal function doesn't stop the other checks.
package main

import (
	"os"
	"strconv"

	"github.com/bnb-chain/zkbnb-setup/common"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

func main() {
	n, err := strconv.Atoi(os.Args[1])
	if err != nil {
		panic(err)
	}
	r := make([]fr.Element, n)
	if err := common.Randomize(r); err != nil {
		panic(err)
	}
	var out []byte
	for i := range r {
		b := r[i].Bytes()
		out = append(out, b[:]...)
	}
	if err := os.WriteFile(os.Args[2], out, 0644); err != nil {
		panic(err)
	}
}
