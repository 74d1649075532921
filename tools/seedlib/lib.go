package main

import (
	"crypto/sha256"
	"fmt"
	mrand "math/rand/v2"
	"os"
	"os/exec"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/backend/witness"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/logger"
)

type Rng struct {
	*mrand.Rand
	src *mrand.ChaCha8
}

func newRng(seed string) *Rng {
	src := mrand.NewChaCha8(sha256.Sum256([]byte(seed)))
	return &Rng{mrand.New(src), src}
}

func (r *Rng) Bytes(n int) []byte {
	b := make([]byte, n)
	r.src.Read(b)
	return b
}

func (r *Rng) Fr() fr.Element {
	var e fr.Element
	for e.IsZero() {
		e.SetBytes(r.Bytes(48))
	}
	return e
}

func pick[T any](r *Rng, l []T) T { return l[r.IntN(len(l))] }

func init() { logger.Disable() }

// broken ends the demonstration: the guarantee doesn't hold
func broken(format string, a ...any) {
	fmt.Printf("BROKEN: "+format+"\n", a...)
	os.Exit(1)
}

// must: something that isn't what is being demonstrated failed
func must(err error) {
	if err != nil {
		fmt.Println("can't demonstrate:", err)
		os.Exit(1)
	}
}

func try(f func() error) (err error) {
	defer func() {
		if v := recover(); v != nil {
			err = fmt.Errorf("panic: %v", v)
		}
	}()
	return f()
}

func setup(args ...string) (int, string) {
	out, err := exec.Command(os.Getenv("SETUP"), args...).CombinedOutput()
	if err == nil {
		return 0, string(out)
	}
	if x, ok := err.(*exec.ExitError); ok {
		return x.ExitCode(), string(out)
	}
	return -1, err.Error()
}

func compile(c frontend.Circuit, path string) *cs_bn254.R1CS {
	ccs, err := frontend.Compile(bn254.ID.ScalarField(), r1cs.NewBuilder, c)
	must(err)
	f, err := os.Create(path)
	must(err)
	_, err = ccs.WriteTo(f)
	must(err)
	must(f.Close())
	return ccs.(*cs_bn254.R1CS)
}

func witnessOf(c frontend.Circuit) (witness.Witness, witness.Witness) {
	w, err := frontend.NewWitness(c, bn254.ID.ScalarField())
	must(err)
	p, err := w.Public()
	must(err)
	return w, p
}
