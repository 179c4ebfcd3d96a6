// Drives packages of the repository directly; built inside its module through an overlay.
//
//	ltool ranges  < lines "n cpus"        the index ranges Parallelize gives its workers
//	ltool convert < lines "g1|g2 hex"     the Lagrange conversion of compressed points
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/bnb-chain/zkbnb-setup/common"
	"github.com/bnb-chain/zkbnb-setup/lagrange"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr/fft"
)

type ranges struct {
	N        int      `json:"n"`
	Cpus     int      `json:"cpus"`
	Calls    [][2]int `json:"calls"`
	Finished bool     `json:"finished"`
}

func main() {
	in := bufio.NewScanner(os.Stdin)
	in.Buffer(nil, 1<<28)
	out := bufio.NewWriter(os.Stdout)
	defer out.Flush()
	enc := json.NewEncoder(out)
	for in.Scan() {
		f := strings.Fields(in.Text())
		switch os.Args[1] {
		case "ranges":
			var r ranges
			fmt.Sscan(f[0], &r.N)
			fmt.Sscan(f[1], &r.Cpus)
			r.Calls = [][2]int{}
			var mu sync.Mutex
			var running atomic.Int64
			work := func(start, end int) {
				running.Add(1)
				for i := 0; i < 20*(1+(start*7)%5); i++ {
					runtime.Gosched()
				}
				mu.Lock()
				r.Calls = append(r.Calls, [2]int{start, end})
				mu.Unlock()
				running.Add(-1)
			}
			if r.Cpus == 0 {
				r.Cpus = runtime.NumCPU()
				common.Parallelize(r.N, work)
			} else {
				common.Parallelize(r.N, work, r.Cpus)
			}
			mu.Lock()
			covered := 0
			for _, c := range r.Calls {
				covered += c[1] - c[0]
			}
			r.Finished = running.Load() == 0 && covered >= r.N
			r.Calls = append([][2]int{}, r.Calls...)
			enc.Encode(r)
			mu.Unlock()
		case "convert":
			b, err := hex.DecodeString(f[1])
			if err != nil {
				panic(err)
			}
			var res []byte
			if f[0] == "g1" {
				p := make([]bn254.G1Affine, len(b)/32)
				for i := range p {
					if _, err := p[i].SetBytes(b[32*i:]); err != nil {
						panic(err)
					}
				}
				lagrange.ConvertG1(p, fft.NewDomain(uint64(len(p))))
				for i := range p {
					c := p[i].Bytes()
					res = append(res, c[:]...)
				}
			} else {
				p := make([]bn254.G2Affine, len(b)/64)
				for i := range p {
					if _, err := p[i].SetBytes(b[64*i:]); err != nil {
						panic(err)
					}
				}
				lagrange.ConvertG2(p, fft.NewDomain(uint64(len(p))))
				for i := range p {
					c := p[i].Bytes()
					res = append(res, c[:]...)
				}
			}
			fmt.Fprintln(out, hex.EncodeToString(res))
		}
	}
}
