package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"os"

	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	mimcbn "github.com/consensys/gnark-crypto/ecc/bn254/fr/mimc"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/frontend"
)

func mimcSum(e fr.Element) *big.Int {
	h := mimcbn.NewMiMC()
	b := e.Bytes()
	h.Write(b[:])
	return new(big.Int).SetBytes(h.Sum(nil))
}

func read(v io.ReaderFrom, path string) {
	f, err := os.Open(path)
	must(err)
	defer f.Close()
	_, err = v.ReadFrom(f)
	must(err)
}

type outcome struct {
	Proved   bool   `json:"proved"`
	Verified bool   `json:"verified"`
	Wrong    []bool `json:"wrong"` // verdicts for wrong public inputs
	Error    string `json:"error"`
}

// finish proves the circuit's statement, and verifies it for the right and for wrong public inputs
func finish(sp *spec, vk groth16.VerifyingKey, prove func(*circuit) (groth16.Proof, error)) {
	var o outcome
	o.Wrong = []bool{}
	func() {
		defer func() {
			if r := recover(); r != nil {
				o.Error = fmt.Sprint("panic: ", r)
			}
		}()
		c := sp.assignment(false)
		proof, err := prove(c)
		if err != nil {
			o.Error = err.Error()
			return
		}
		o.Proved = true
		check := func(c *circuit) bool {
			w, err := frontend.NewWitness(c, field, frontend.PublicOnly())
			must(err)
			return groth16.Verify(proof, vk, w) == nil
		}
		o.Verified = check(c)
		for i := range c.Pub {
			d := sp.assignment(false)
			d.Pub[i] = new(big.Int).Mod(new(big.Int).Add(bi(d.Pub[i]), big.NewInt(1)), field)
			o.Wrong = append(o.Wrong, check(d))
		}
	}()
	b, _ := json.Marshal(o)
	fmt.Println("\nOUTCOME " + string(b))
}
