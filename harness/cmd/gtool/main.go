// gtool compiles circuits with gnark, describes them and proves with extracted keys. It uses
// gnark only, nothing of /repo.
//
//	gtool gen SPEC DIR [PART...]   DIR/c.r1cs, DIR/c.json and the parts DIR/s<PART>.r1cs.* for each part size
//	gtool prove SPEC DIR           proves with DIR/pk and verifies with DIR/vk
//	gtool proveparts SPEC DIR SESSION PART   the same with the split keys DIR/SESSION.*
package main

import (
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strconv"
	"strings"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/backend/groth16"
	"github.com/consensys/gnark/constraint"
	cs_bn254 "github.com/consensys/gnark/constraint/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/logger"
	"github.com/consensys/gnark/std/hash/mimc"
)

var field = ecc.BN254.ScalarField()

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
}

// ops lets a circuit be defined and be evaluated by the same code
type ops interface {
	konst(k int64) interface{}
	add(a, b interface{}) interface{}
	sub(a, b interface{}) interface{}
	mul(a, b interface{}) interface{}
	scale(k *big.Int, a interface{}) interface{}
	commit(vs []interface{})
	hash(a interface{}) interface{}
}

type apiOps struct{ api frontend.API }

func (o apiOps) konst(k int64) interface{}                   { return k }
func (o apiOps) add(a, b interface{}) interface{}            { return o.api.Add(a, b) }
func (o apiOps) sub(a, b interface{}) interface{}            { return o.api.Sub(a, b) }
func (o apiOps) mul(a, b interface{}) interface{}            { return o.api.Mul(a, b) }
func (o apiOps) scale(k *big.Int, a interface{}) interface{} { return o.api.Mul(k, a) }
func (o apiOps) commit(vs []interface{}) {
	in := make([]frontend.Variable, len(vs))
	for i := range vs {
		in[i] = vs[i]
	}
	c, err := o.api.Compiler().Commit(in...)
	must(err)
	// use the commitment like a challenge: (c + in0) * c is constrained to be itself
	t := o.api.Mul(o.api.Add(c, in[0]), c)
	o.api.AssertIsEqual(o.api.Mul(t, 1), t)
	o.api.AssertIsDifferent(c, 0)
}
func (o apiOps) hash(a interface{}) interface{} {
	h, err := mimc.NewMiMC(o.api)
	must(err)
	h.Write(a)
	return h.Sum()
}

type evalOps struct{}

func bi(a interface{}) *big.Int {
	switch v := a.(type) {
	case int64:
		return big.NewInt(v)
	case *big.Int:
		return v
	}
	panic("value")
}
func red(a *big.Int) *big.Int                                 { return a.Mod(a, field) }
func (o evalOps) konst(k int64) interface{}                   { return k }
func (o evalOps) add(a, b interface{}) interface{}            { return red(new(big.Int).Add(bi(a), bi(b))) }
func (o evalOps) sub(a, b interface{}) interface{}            { return red(new(big.Int).Sub(bi(a), bi(b))) }
func (o evalOps) mul(a, b interface{}) interface{}            { return red(new(big.Int).Mul(bi(a), bi(b))) }
func (o evalOps) scale(k *big.Int, a interface{}) interface{} { return red(new(big.Int).Mul(k, bi(a))) }
func (o evalOps) commit(vs []interface{})                     {}
func (o evalOps) hash(a interface{}) interface{} {
	var e fr.Element
	e.SetBigInt(bi(a))
	return mimcSum(e)
}

type spec struct {
	name       string
	pub, sec   int
	cons       int  // multiplications
	commit     int  // committed private variables
	commitPub  int  // committed public variables
	commitInt  int  // committed internal variables; the commitment is then made half-way
	commitPick bool // the committed secret variables are any, not the last ones
	seed       int64
	lazy       bool
	hashes     int
	zeros      bool // add terms with coefficient zero
	constrains bool
}

// key=value pairs separated by commas: pub, sec, mul, commit, commitpub, commitint, commitpick, seed, lazy, hash, zeros
func parse(s string) *spec {
	sp := &spec{name: s, pub: 1, sec: 1, cons: 1}
	for _, kv := range strings.Split(s, ",") {
		p := strings.SplitN(kv, "=", 2)
		n, err := strconv.Atoi(p[1])
		must(err)
		switch p[0] {
		case "pub":
			sp.pub = n
		case "sec":
			sp.sec = n
		case "mul":
			sp.cons = n
		case "commit":
			sp.commit = n
		case "commitint":
			sp.commitInt = n
		case "commitpick":
			sp.commitPick = n != 0
		case "commitpub":
			sp.commitPub = n
		case "seed":
			sp.seed = int64(n)
		case "lazy":
			sp.lazy = n == 1
		case "hash":
			sp.hashes = n
		case "zeros":
			sp.zeros = n == 1
		default:
			must(fmt.Errorf("unknown key %s", p[0]))
		}
	}
	return sp
}

func randField(r *rand.Rand) *big.Int {
	b := make([]byte, 40)
	r.Read(b)
	return red(new(big.Int).SetBytes(b))
}

func coeff(r *rand.Rand) *big.Int {
	switch r.Intn(9) {
	case 0, 1:
		return big.NewInt(1)
	case 2:
		return red(big.NewInt(-1))
	case 3:
		return big.NewInt(2)
	case 4:
		return red(big.NewInt(-2))
	case 5:
		return big.NewInt(int64(3 + r.Intn(1000)))
	case 6:
		return red(big.NewInt(-int64(3 + r.Intn(1000))))
	default:
		return randField(r)
	}
}

// define runs the circuit; the results are the values the public variables from 1 on must have
// (the first public variable is free, so is every one if there are no secret variables)
func (sp *spec) define(o ops, pub, sec []interface{}) []interface{} {
	r := rand.New(rand.NewSource(sp.seed + 1000))
	wires := append([]interface{}{}, sec...)
	if len(pub) > 0 {
		wires = append(wires, pub[0])
	}
	lin := func() interface{} {
		k := 1 + r.Intn(3)
		var acc interface{}
		for j := 0; j < k; j++ {
			t := o.scale(coeff(r), wires[r.Intn(len(wires))])
			if acc == nil {
				acc = t
			} else {
				acc = o.add(acc, t)
			}
		}
		if r.Intn(4) == 0 {
			acc = o.add(acc, o.konst(int64(1+r.Intn(5))))
		}
		return acc
	}
	for i := 0; i < sp.hashes; i++ {
		wires = append(wires, o.hash(wires[i%len(wires)]))
	}
	commit := func(internal []interface{}) {
		vs := append([]interface{}{}, sec[len(sec)-sp.commit:]...)
		if sp.commitPick {
			for i, j := range rand.New(rand.NewSource(sp.seed + 2000)).Perm(len(sec))[:sp.commit] {
				vs[i] = sec[j]
			}
		}
		vs = append(vs, internal...)
		vs = append(vs, pub[:sp.commitPub]...)
		o.commit(vs)
	}
	if sp.commit+sp.commitPub > 0 && sp.commitInt == 0 {
		commit(nil)
	}
	inputs := len(wires)
	for i := 0; i < sp.cons; i++ {
		if sp.commitInt > 0 && i == sp.commitInt+(sp.cons-sp.commitInt)/2 {
			commit(wires[inputs+i-sp.commitInt : inputs+i])
		}
		wires = append(wires, o.mul(lin(), lin()))
	}
	if sp.commitInt > 0 && sp.cons <= sp.commitInt {
		panic("commitint")
	}
	var res []interface{}
	for i := 1; i < len(pub); i++ {
		res = append(res, wires[len(wires)-1-(i-1)%len(wires)])
	}
	return res
}

type circuit struct {
	Pub []frontend.Variable `gnark:",public"`
	Sec []frontend.Variable
	sp  *spec
}

func (c *circuit) Define(api frontend.API) error {
	pub := make([]interface{}, len(c.Pub))
	for i := range pub {
		pub[i] = c.Pub[i]
	}
	sec := make([]interface{}, len(c.Sec))
	for i := range sec {
		sec[i] = c.Sec[i]
	}
	res := c.sp.define(apiOps{api}, pub, sec)
	for i, v := range res {
		api.AssertIsEqual(c.Pub[i+1], v)
	}
	return nil
}

func (sp *spec) compile() *cs_bn254.R1CS {
	c := &circuit{Pub: make([]frontend.Variable, sp.pub), Sec: make([]frontend.Variable, sp.sec), sp: sp}
	ccs, err := frontend.Compile(field, r1cs.NewBuilder, c, frontend.IgnoreUnconstrainedInputs())
	must(err)
	cs := ccs.(*cs_bn254.R1CS)
	if sp.zeros {
		r := rand.New(rand.NewSource(sp.seed))
		n := cs.GetNbPublicVariables() + cs.GetNbSecretVariables() // the solver wants the others solved one by one
		for i := range cs.Constraints {
			z := constraint.Term{CID: constraint.CoeffIdZero, VID: uint32(r.Intn(n))}
			switch r.Intn(4) {
			case 0:
				cs.Constraints[i].L = append(append(constraint.LinearExpression{}, cs.Constraints[i].L...), z)
			case 1:
				cs.Constraints[i].R = append(append(constraint.LinearExpression{}, cs.Constraints[i].R...), z)
			}
		}
	}
	if sp.lazy {
		cs.Lazify()
	}
	return cs
}

func (sp *spec) assignment(wrong bool) *circuit {
	r := rand.New(rand.NewSource(sp.seed + 2000))
	pub := make([]interface{}, sp.pub)
	sec := make([]interface{}, sp.sec)
	for i := range pub {
		pub[i] = randField(r)
	}
	for i := range sec {
		sec[i] = randField(r)
	}
	res := sp.define(evalOps{}, pub, sec)
	for i, v := range res {
		pub[i+1] = bi(v)
	}
	c := &circuit{Pub: make([]frontend.Variable, sp.pub), Sec: make([]frontend.Variable, sp.sec), sp: sp}
	for i := range pub {
		c.Pub[i] = bi(pub[i])
	}
	for i := range sec {
		c.Sec[i] = bi(sec[i])
	}
	return c
}

func hexOf(e *fr.Element) string {
	var b big.Int
	e.BigInt(&b)
	return b.Text(16)
}

type description struct {
	Spec        string   `json:"spec"`
	Public      int      `json:"public"` // including the constant one
	Secret      int      `json:"secret"`
	Internal    int      `json:"internal"`
	Wires       int      `json:"wires"`
	Constraints int      `json:"constraints"`
	Stored      int      `json:"stored"` // constraints not in lazy form
	NbR1C       int      `json:"nbR1C"`
	Committed   []int    `json:"committed"` // private committed wires
	CommittedP  int      `json:"committedPublic"`
	Commitment  int      `json:"commitment"` // wire, -1 without commitment
	Info        []string `json:"info"`       // of the commitment: committed, private ones, hint, wire, committed and commitment
	// by wire: <<constraint (from 0), coefficient>>
	A [][][2]interface{} `json:"A"`
	B [][][2]interface{} `json:"B"`
	C [][][2]interface{} `json:"C"`
}

func describe(cs *cs_bn254.R1CS, name string) *description {
	d := &description{Spec: name, Public: cs.GetNbPublicVariables(), Secret: cs.GetNbSecretVariables(), Internal: cs.NbInternalVariables,
		Constraints: cs.GetNbConstraints(), Stored: len(cs.Constraints), NbR1C: cs.GetNbR1C(), Commitment: -1, Committed: []int{}}
	d.Wires = d.Public + d.Secret + d.Internal
	if cs.CommitmentInfo.Is() {
		d.Commitment = cs.CommitmentInfo.CommitmentIndex
		d.Committed = append(d.Committed, cs.CommitmentInfo.PrivateCommitted()...)
		d.CommittedP = cs.CommitmentInfo.NbPublicCommitted()
	}
	ints := func(v []int) string {
		t := []string{}
		for _, x := range v {
			t = append(t, strconv.Itoa(x))
		}
		return "[" + strings.Join(t, ",") + "]"
	}
	ci := &cs.CommitmentInfo
	d.Info = []string{ints(ci.Committed), strconv.Itoa(ci.NbPrivateCommitted), strconv.FormatUint(uint64(ci.HintID), 10),
		strconv.Itoa(ci.CommitmentIndex), ints(ci.CommittedAndCommitment)}
	mk := func() [][][2]interface{} {
		m := make([][][2]interface{}, d.Wires)
		for i := range m {
			m[i] = [][2]interface{}{}
		}
		return m
	}
	d.A, d.B, d.C = mk(), mk(), mk()
	put := func(m [][][2]interface{}, i int, l constraint.LinearExpression) {
		for _, t := range l {
			w := t.WireID()
			m[w] = append(m[w], [2]interface{}{i, hexOf(&cs.Coefficients[t.CoeffID()])})
		}
	}
	for i := 0; i < d.Constraints; i++ {
		c := cs.GetConstraintToSolve(i)
		put(d.A, i, c.L)
		put(d.B, i, c.R)
		put(d.C, i, c.O)
	}
	return d
}

func writeJSON(path string, v interface{}) {
	b, err := json.Marshal(v)
	must(err)
	must(os.WriteFile(path, b, 0644))
}

func main() {
	logger.Disable()
	sp := parse(os.Args[2])
	dir := os.Args[3]
	switch os.Args[1] {
	case "gen":
		must(os.MkdirAll(dir, 0755))
		cs := sp.compile()
		f, err := os.Create(filepath.Join(dir, "c.r1cs"))
		must(err)
		_, err = cs.WriteTo(f)
		must(err)
		must(f.Close())
		writeJSON(filepath.Join(dir, "c.json"), describe(cs, sp.name))
		for _, part := range os.Args[4:] {
			n, err := strconv.Atoi(part)
			must(err)
			cs := sp.compile()
			// writes lots of progress
			out := os.Stdout
			os.Stdout, _ = os.Open(os.DevNull)
			must(cs.SplitDumpBinary(filepath.Join(dir, "s"+part), n))
			os.Stdout = out
		}
	case "prove":
		cs := sp.compile()
		pk := groth16.NewProvingKey(ecc.BN254)
		vk := groth16.NewVerifyingKey(ecc.BN254)
		read(pk, filepath.Join(dir, "pk"))
		read(vk, filepath.Join(dir, "vk"))
		if cs.CommitmentInfo.Is() { // the commitment key is at the start of the verifying key
			f, err := os.Open(filepath.Join(dir, "vk"))
			must(err)
			_, err = pk.(interface {
				UnsafeReadCommitmentKeyFrom(io.Reader) (int64, error)
			}).UnsafeReadCommitmentKeyFrom(f)
			must(err)
		}
		finish(sp, vk, func(c *circuit) (groth16.Proof, error) {
			w, err := frontend.NewWitness(c, field)
			if err != nil {
				return nil, err
			}
			return groth16.Prove(cs, pk, w)
		})
	case "proveparts":
		session := os.Args[4]
		part, err := strconv.Atoi(os.Args[5])
		must(err)
		plain := sp.compile()
		must(os.Chdir(dir))
		vk := groth16.NewVerifyingKey(ecc.BN254)
		read(vk, session+".vk.save")
		finish(sp, vk, func(c *circuit) (groth16.Proof, error) {
			cs := groth16.NewCS(ecc.BN254)
			cs.LoadFromSplitBinaryConcurrent(session, plain.GetNbR1C(), part, runtime.NumCPU())
			pks, err := groth16.ReadSegmentProveKey(ecc.BN254, session)
			if err != nil {
				return nil, err
			}
			w, err := frontend.NewWitness(c, field)
			if err != nil {
				return nil, err
			}
			return groth16.ProveRoll(cs, pks[0], pks[1], w, session)
		})
	}
}
