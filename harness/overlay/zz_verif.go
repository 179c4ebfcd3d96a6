package main

import (
	"crypto/rand"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"errors"
	"os"
	"strconv"
	"strings"
	"sync"
)

// Laid over /repo's package main by the checks: with ZKV_RAND set, the system's random generator
// is replaced by a deterministic one, which records every read in the file ZKV_LOG. The first reads
// give what ZKV_DRAWS holds; with ZKV_RANDFAIL=k:once or k:sticky the k-th one, or it and all later ones, fail;
// with ZKV_SAME=lo:hi these bytes are the same in all reads.

type recorder struct {
	sync.Mutex
	seed    string
	counter uint64
	log     *os.File
	draws   []string
	fail    int
	sticky  bool
	n       int
	lo, hi  int
}

func (r *recorder) Read(p []byte) (int, error) {
	r.Lock()
	defer r.Unlock()
	r.n++
	if r.n == r.fail || r.sticky && r.n > r.fail {
		return 0, errors.New("the random generator fails")
	}
	for n := 0; n < len(p); {
		h := sha256.New()
		h.Write([]byte(r.seed))
		binary.Write(h, binary.BigEndian, r.counter)
		r.counter++
		n += copy(p[n:], h.Sum(nil))
	}
	for i := r.lo; i < r.hi && i < len(p); i++ {
		p[i] = byte(i)
	}
	if len(r.draws) > 0 {
		if b, err := hex.DecodeString(r.draws[0]); err == nil && len(b) == len(p) {
			copy(p, b)
		}
		r.draws = r.draws[1:]
	}
	if r.log != nil {
		r.log.WriteString(hex.EncodeToString(p) + "\n")
	}
	return len(p), nil
}

func init() {
	if seed := os.Getenv("ZKV_RAND"); seed != "" {
		r := &recorder{seed: seed}
		if name := os.Getenv("ZKV_LOG"); name != "" {
			f, err := os.OpenFile(name, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0600)
			if err != nil {
				panic(err)
			}
			r.log = f
		}
		if s := os.Getenv("ZKV_DRAWS"); s != "" {
			r.draws = strings.Split(s, ",")
		}
		if s := os.Getenv("ZKV_RANDFAIL"); s != "" {
			k, mode, _ := strings.Cut(s, ":")
			r.fail, _ = strconv.Atoi(k)
			r.sticky = mode == "sticky"
		}
		if s := os.Getenv("ZKV_SAME"); s != "" {
			lo, hi, _ := strings.Cut(s, ":")
			r.lo, _ = strconv.Atoi(lo)
			r.hi, _ = strconv.Atoi(hi)
		}
		rand.Reader = r
	}
}
