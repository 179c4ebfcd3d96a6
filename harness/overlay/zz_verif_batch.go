//go:build verif

package main

import (
	"os"
	"strconv"

	"github.com/bnb-chain/zkbnb-setup/phase1"
	"github.com/bnb-chain/zkbnb-setup/phase2"
)

// ZKV_BATCH sets the number of points processed at once
func init() {
	if n, err := strconv.Atoi(os.Getenv("ZKV_BATCH")); err == nil {
		phase1.SetBatchSize(n)
		phase2.SetBatchSize(n)
	}
}
