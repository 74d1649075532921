//go:build verif

package main

import (
	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
)

const hooked = true

func setBatch1(n int) { phase1.SetBatchSize(n) }
func setBatch2(n int) { phase2.SetBatchSize(n) }
