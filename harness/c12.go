package main

import (
	"fmt"
	"math/big"

	"pol/bp"
	"pol/common"

	math "github.com/IBM/mathlib"
)

func init() {
	register(&Property{
		ID:          "C12",
		Rule:        "Vectors of amounts in [0, 2^63), edges included, must be accepted by the verifier; for commitments with an entry out of that range (each position; -2^k, 2^63+-, 2^64, near the group order) proofs of the code's own prover and of a forging prover (calibrated on honest statements; false digits, or each element fitted to the challenges that do not depend on it) must be rejected, as must other commitments and each altered element. distinct = (length, vector) and (attack, position, value).",
		Cases:       c12Cases,
		Assumptions: []string{"the forger's replica of the proof assembles honest proofs which the verifier accepts; otherwise its cases are inconclusive and reported as skips"},
	})
}

var two63 = new(big.Int).Lsh(big.NewInt(1), 63)

func rangeVec(c *Ctx, n int) common.Vec {
	v := make(common.Vec, n)
	kind := c.R.Intn(5)
	for i := range v {
		var a int64
		switch kind {
		case 0:
			a = 0
		case 1:
			a = max63
		case 2:
			a = int64(1) << uint(c.R.Intn(63))
		case 3:
			a = c.R.Int63()
		default:
			a = []int64{0, 1, max63, max63 - 1, 1 << 62, 1<<62 - 1, 2, c.R.Int63()}[c.R.Intn(8)]
		}
		v[i] = zr(a)
	}
	return v
}

func outOfRange(c *Ctx) []*big.Int {
	big1 := big.NewInt(1)
	return []*big.Int{
		big.NewInt(-1), new(big.Int).Set(two63), new(big.Int).Add(two63, big1), new(big.Int).Lsh(big1, 64),
		new(big.Int).Sub(new(big.Int).Lsh(big1, 64), big1), new(big.Int).Neg(two63), new(big.Int).Rsh(q, 1),
		new(big.Int).Neg(big.NewInt(c.R.Int63())), new(big.Int).Lsh(big1, uint(64+c.R.Intn(180))), randBig(c.R),
		new(big.Int).Sub(q, two63), big.NewInt(-2), new(big.Int).Neg(big.NewInt(max63)),
	}
}

func rangeCommit(P *bp.RangeProofPublicParams, v common.Vec, r *math.Zr) *math.G1 {
	return plusG(mulG(P.F, r), msm(P.Gs, v))
}

var rangePPs = map[int]*bp.RangeProofPublicParams{}

func rangePP(n int) *bp.RangeProofPublicParams {
	pubMu.Lock()
	defer pubMu.Unlock()
	if rangePPs[n] == nil {
		rangePPs[n] = bp.NewRangeProofPublicParams(n)
	}
	return rangePPs[n]
}

func c12Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, serial bool, f func(*Ctx)) {
		cases = append(cases, Case{Name: name, Run: f, Serial: serial})
	}
	// long vectors: an entry out of range far from the first ones
	for _, n := range []int{64, 32} {
		n := n
		add(fmt.Sprintf("long/%d", n), false, func(c *Ctx) {
			P := rangePP(n)
			v, r := rangeVec(c, n), randZr(c.R)
			V := rangeCommit(P, v, r)
			proof := bp.ProveRange(P, V, v, r)
			c.Check(bp.VerifyRange(P, proof, V) == nil, "n=%d: amounts rejected", n)
			for _, i := range []int{0, 1, n / 2, n - 1, c.R.Intn(n)} {
				c.Check(bp.VerifyRange(P, proof, plusG(V, mulG(P.Gs[i], zrBig(two63)))) != nil, "n=%d: accepted for a commitment with entry %d more by 2^63", n, i)
			}
			c.Distinct("long %d %s", n, strs(v))
			at := []int{n - 1, n / 2, 1 + c.R.Intn(n-1)}
			if n == 32 || p.Thorough {
				at = append(at, n-2, 3*n/4, 0)
			}
			xs := outOfRange(c)
			c.R.Shuffle(len(xs), func(a, b int) { xs[a], xs[b] = xs[b], xs[a] })
			for k, i := range at {
				x := xs[k%len(xs)]
				bad, low := copyVec(v), copyVec(v)
				bad[i], low[i] = zrBig(x), zrBig(new(big.Int).Mod(x, two63))
				V := rangeCommit(P, bad, r)
				for _, w := range []common.Vec{low, bad} {
					var proof *bp.RangeProof
					if catch(func() { proof = bp.ProveRange(P, V, w, r) }) != nil {
						c.Saw("proofs of false statements refused by the prover", 1)
						continue
					}
					var err error
					pn := catch(func() { err = bp.VerifyRange(P, proof, V) })
					c.Saw("proofs of false statements judged", 1)
					c.Check(pn != nil || err != nil, "n=%d: a commitment with %v at %d is accepted", n, x, i)
				}
				c.Distinct("long %d %d %v", n, i, x)
			}
		})
	}
	for _, n := range []int{2, 4, 8, 16} {
		n := n
		for round := 0; round < p.Pick(16/n, 64/n); round++ {
			add(fmt.Sprintf("honest/%d/%d", n, round), false, func(c *Ctx) {
				P := rangePP(n)
				for k := 0; k < 3; k++ {
					v, r := rangeVec(c, n), zrBig(edgeScalars(c.R))
					before := strs(v)
					V := rangeCommit(P, v, r)
					proof := bp.ProveRange(P, V, v, r)
					err := bp.VerifyRange(P, proof, V)
					c.Check(err == nil, "n=%d: honest range proof for %s rejected: %v", n, before, err)
					c.Check(bp.VerifyRange(P, proof, V) == nil, "n=%d: honest range proof rejected the second time", n)
					c.Check(strs(v) == before && V.Equals(rangeCommit(P, v, r)), "n=%d: proving changed the vector or commitment", n)
					c.Distinct("honest %d %s", n, before)
					c.Sample("n=%d: %s", n, clip(before, 150))
					// the proof with other commitments
					d := zr(1 + c.R.Int63n(1000))
					for i := 0; i < n; i += 1 + i {
						c.Check(bp.VerifyRange(P, proof, plusG(V, mulG(P.Gs[i], d))) != nil, "n=%d: accepted for a commitment with entry %d shifted", n, i)
					}
					for name, X := range map[string]*math.G1{
						"rerandomised": plusG(V, mulG(P.F, d)), "identity": inf(), "negated": minusG(inf(), V),
						"another": rangeCommit(P, rangeVec(c, n), r), "mixed": plusG(V, P.Hs[0], P.Fs[0]),
					} {
						if !X.Equals(V) {
							c.Check(bp.VerifyRange(P, proof, X) != nil, "n=%d: accepted for the %s commitment", n, name)
						}
					}
				}
			})
		}
	}
	for _, n := range []int{2, 4, 8} {
		n := n
		for round := 0; round < p.Pick((7-n/2)/3, 8); round++ {
			add(fmt.Sprintf("own prover/%d/%d", n, round), false, func(c *Ctx) { ownProver(c, n) })
		}
	}
	for _, n := range []int{2, 4} {
		n := n
		for round := 0; round < p.Pick(8/n, 32/n); round++ {
			add(fmt.Sprintf("altered/%d/%d", n, round), false, func(c *Ctx) {
				P := rangePP(n)
				v, r := rangeVec(c, n), randZr(c.R)
				V := rangeCommit(P, v, r)
				proof := bp.ProveRange(P, V, v, r)
				v2 := rangeVec(c, n)
				other := bp.ProveRange(P, rangeCommit(P, v2, r), v2, r)
				again := bp.ProveRange(P, V, v, r)
				verify := func() error { return bp.VerifyRange(P, proof, V) }
				skip := func(s Slot) bool { return redundant(s, -1) }
				tamper(c, fmt.Sprintf("range n=%d round %d", n, round), proof, other, skip, p.Pick(70, 0), verify)
				tamper(c, fmt.Sprintf("range n=%d round %d again", n, round), proof, again, skip, p.Pick(30, 0), verify)
				c.Check(verify() == nil, "n=%d: rejected after all", n)
			})
		}
	}
	for _, n := range []int{2, 4} {
		for k := 0; k < 13; k++ {
			n, k := n, k
			if n == 4 && !p.Thorough && k%3 > 0 {
				continue
			}
			add(fmt.Sprintf("forgeries/%d/%d", n, k), false, func(c *Ctx) {
				for i := 0; i < p.Pick(1, 4) && !c.failed(); i++ {
					rangeForgeries(c, n, k, p)
				}
			})
		}
	}
	add("transcript", false, rangeTranscript)
	return cases
}

// ownProver lets the prover of the code under test make proofs about
// commitments it should not be able to make them about.
func ownProver(c *Ctx, n int) {
	P := rangePP(n)
	for k, x := range outOfRange(c) {
		v, r := rangeVec(c, n), randZr(c.R)
		i := (k + c.R.Intn(n)) % n
		bad := copyVec(v)
		bad[i] = zrBig(x)
		low := copyVec(v)
		low[i] = zrBig(new(big.Int).Mod(x, two63))
		neg := copyVec(v)
		neg[i] = zrBig(new(big.Int).Neg(x))
		V := rangeCommit(P, bad, r)
		c.Distinct("own %d %d %v", n, i, x)
		try := func(what string, v common.Vec, W *math.G1) {
			var proof *bp.RangeProof
			pn := catch(func() { proof = bp.ProveRange(P, W, v, r) })
			if pn != nil {
				c.Saw("proofs of false statements refused by the prover", 1)
				return
			}
			c.Saw("proofs of false statements judged", 1)
			var err error
			pn = catch(func() { err = bp.VerifyRange(P, proof, V) })
			c.Check(pn != nil || err != nil, "n=%d: a commitment with %v at %d is accepted (%s)", n, x, i, what)
		}
		try("proof about itself", bad, V)
		try("proof of the lower 63 bits", low, V)
		try("proof of the lower 63 bits made for their commitment", low, rangeCommit(P, low, r))
		try("proof of zeros", rangeZeros(n), V)
		if new(big.Int).Neg(x).Cmp(two63) < 0 && x.Sign() < 0 {
			try("proof of the absolute value", neg, V)
		}
		// the excess elsewhere: carried to the neighbour
		carry := copyVec(low)
		j := (i + 1) % n
		s := new(big.Int).Add(zint(carry[j]), new(big.Int).Rsh(new(big.Int).Mod(x, q), 63))
		if s.Cmp(two63) < 0 {
			carry[j] = zrBig(s)
			try("the excess carried to the next entry", carry, V)
		}
	}
}

func rangeZeros(n int) common.Vec {
	v := make(common.Vec, n)
	for i := range v {
		v[i] = zr(0)
	}
	return v
}

// ---- a forging prover

type rangeForger struct {
	P           *bp.RangeProofPublicParams
	n, m        int
	ix          [4]int // which of the digests become x, y0, y1, z
	rdx         *bp.PP
	template    *bp.RangeProof
	V, W, Q, R  *math.G1
	C1, C2      *math.G1
	v, w, wq    common.Vec // committed, blinding in W, blinding in Q
	digits      common.Vec
	r, r2, ν, η *math.Zr
	s, t        common.Vec
	τ1, τ2      *math.Zr
	c1, c2      *math.Zr
	x, y0, y1   *math.Zr
	z           *math.Zr
	f, d        common.Vec
	Δ           [][3]*math.G1
	u, γ        *math.Zr
	c0, c0true  *math.Zr // what the verifier expects and what it is
	a1, b1      common.Vec
}

func newRangeForger(c *Ctx, n int) *rangeForger {
	P := rangePP(n)
	F := &rangeForger{P: P, n: n, m: 63}
	F.rdx = &bp.PP{G: P.Gs, U: common.RandGenVec(1, "U range proof")[0]}
	F.rdx.RecomputeDigest()
	v, r := rangeVec(c, n), randZr(c.R)
	F.template = bp.ProveRange(P, rangeCommit(P, v, r), v, r)
	return F
}

func (F *rangeForger) draw(c *Ctx) {
	n, m := F.n, F.m
	F.w, F.r, F.r2, F.ν, F.η = randVec(c.R, n), randZr(c.R), randZr(c.R), randZr(c.R), randZr(c.R)
	F.wq = F.w
	F.s, F.t = randVec(c.R, n*m+n), randVec(c.R, n*m)
	F.τ1, F.τ2 = randZr(c.R), randZr(c.R)
	F.R, F.C1, F.C2 = randG1(c.R), randG1(c.R), randG1(c.R)
	F.z, F.y0, F.y1, F.x = nil, nil, nil, nil
	F.Δ, F.u, F.γ = nil, zr(1), zr(1)
}

func bitsOf(v common.Vec, m int) common.Vec {
	var res common.Vec
	for _, x := range v {
		n := zint(x)
		for j := 0; j < m; j++ {
			res = append(res, zr(int64(n.Bit(j))))
		}
	}
	return res
}

func (F *rangeForger) commitV() { F.V = rangeCommit(F.P, F.v, F.r) }
func (F *rangeForger) commitW() { F.W = rangeCommit(F.P, F.w, F.r2) }
func (F *rangeForger) commitQ() {
	F.Q = plusG(mulG(F.P.F, F.ν), msm(F.P.Hs, append(append(common.Vec{}, F.digits...), F.wq...)))
	neg := make(common.Vec, len(F.digits))
	for i := range neg {
		neg[i] = subZ(zr(1), F.digits[i])
	}
	F.Q.Add(msm(F.P.Fs, neg))
}
func (F *rangeForger) commitR() {
	F.R = plusG(mulG(F.P.F, F.η), msm(F.P.Hs, F.s), msm(F.P.Fs, F.t))
}

func (F *rangeForger) proof() *bp.RangeProof {
	proof := clone(F.template)
	setG1(proof, ".W", F.W)
	setG1(proof, ".Q", F.Q)
	setG1(proof, ".R", F.R)
	setG1(proof, ".C1", F.C1)
	setG1(proof, ".C2", F.C2)
	setZr(proof, ".γ", F.γ)
	setZr(proof, ".u", F.u)
	if F.Δ != nil {
		s := find(proof, ".Δ")
		if s == nil {
			panic(skipCase("no reduction steps"))
		}
		s.V.Set(reflectOf(F.Δ))
	}
	return proof
}

// observe is the list of digests computed for the proof as far as it has got.
func (F *rangeForger) observe() []string {
	proof := F.proof()
	return digestsOf(func() { bp.VerifyRange(F.P, proof, F.V) })
}

func (F *rangeForger) challenge(i int) *math.Zr {
	l := F.observe()
	if F.ix[i] >= len(l) {
		return zr(1)
	}
	return common.FieldElementFromBytes([]byte(l[F.ix[i]]))
}

func (F *rangeForger) reduce() {
	F.γ = negZ(addZ(F.r, mulZ(F.x, F.r2)))
	U := plusG(mulG(F.P.F, F.γ), F.V, mulG(F.W, F.x))
	v := make(common.Vec, F.n)
	for i := range v {
		v[i] = addZ(F.v[i], mulZ(F.w[i], F.x))
	}
	var xs common.Vec
	F.Δ, xs, F.u = bp.IterativeReduce(F.rdx, v, U)
	F.f = make(common.Vec, F.n)
	k := len(xs)
	for i := range F.f {
		F.f[i] = zr(1)
		for r := 0; r < k; r++ {
			if i>>uint(k-1-r)&1 == 1 {
				F.f[i] = mulZ(F.f[i], xs[r])
			}
		}
	}
	F.d = nil
	for i := 0; i < F.n; i++ {
		for j := 0; j < F.m; j++ {
			F.d = append(F.d, mulZ(F.f[i], zrBig(new(big.Int).Lsh(big.NewInt(1), uint(j)))))
		}
	}
	for i := 0; i < F.n; i++ {
		F.d = append(F.d, mulZ(F.f[i], F.x))
	}
}

func (F *rangeForger) vectors() {
	nm := F.n * F.m
	F.a1, F.b1 = nil, nil
	y12 := mulZ(F.y1, F.y1)
	pw := zr(1)
	c0 := new(big.Int)
	β1, β3 := new(big.Int), new(big.Int)
	for k := 0; k < nm; k++ {
		F.a1 = append(F.a1, addZ(F.digits[k], F.y1))
		F.b1 = append(F.b1, addZ(mulZ(F.d[k], y12), mulZ(pw, F.y1), mulZ(subZ(zr(1), F.digits[k]), pw)))
		β1.Add(β1, zint(pw))
		β3.Add(β3, zint(F.d[k]))
		pw = mulZ(pw, F.y0)
	}
	for i := 0; i < F.n; i++ {
		F.a1 = append(F.a1, F.wq[i])
		F.b1 = append(F.b1, mulZ(F.d[nm+i], y12))
	}
	F.c0true = zrBig(inner(F.a1, F.b1))
	c0.Mul(β3, zint(mulZ(y12, F.y1)))
	c0.Add(c0, new(big.Int).Mul(zint(y12), new(big.Int).Add(zint(F.u), β1)))
	c0.Add(c0, new(big.Int).Mul(β1, zint(F.y1)))
	F.c0 = zrBig(c0)
}

// yt is y0^k t_k, and zeros in the end.
func (F *rangeForger) yt() common.Vec {
	res := make(common.Vec, F.n*F.m+F.n)
	pw := zr(1)
	for k := range res {
		if k < F.n*F.m {
			res[k] = mulZ(pw, F.t[k])
			pw = mulZ(pw, F.y0)
		} else {
			res[k] = zr(0)
		}
	}
	return res
}

func (F *rangeForger) coefficients() {
	yt := F.yt()
	F.c1 = zrBig(new(big.Int).Add(inner(F.a1, yt), inner(F.s, F.b1)))
	F.c2 = zrBig(inner(F.s, yt))
}

func (F *rangeForger) commitC() {
	F.C1 = plusG(mulG(F.P.G, F.c1), mulG(F.P.H, F.τ1))
	F.C2 = plusG(mulG(F.P.G, F.c2), mulG(F.P.H, F.τ2))
}

func (F *rangeForger) finish() *bp.RangeProof {
	n := F.n*F.m + F.n
	yt := F.yt()
	a, b := make(common.Vec, n), make(common.Vec, n)
	for k := range a {
		a[k] = addZ(F.a1[k], mulZ(F.s[k], F.z))
		b[k] = addZ(F.b1[k], mulZ(yt[k], F.z))
	}
	H := make(common.G1v, len(F.P.Fs))
	pw, inv := zr(1), invZ(F.y0)
	for k := range H {
		H[k] = mulG(F.P.Fs[k], pw)
		pw = mulZ(pw, inv)
	}
	pp := &bp.PP{U: common.RandGenVec(1, "u")[0], G: F.P.Hs, H: H}
	pp.RecomputeDigest()
	arg := bp.NewInnerProdArgument(pp, a, b)
	proof := F.proof()
	s := find(proof, ".Π")
	if s == nil {
		panic(skipCase("no inner product proof"))
	}
	s.V.Set(reflectOf(arg.Prove()))
	setZr(proof, ".c", zrBig(inner(a, b)))
	setZr(proof, ".ρ", negZ(addZ(F.ν, mulZ(F.η, F.z))))
	setZr(proof, ".τ", addZ(mulZ(F.τ1, F.z), mulZ(F.τ2, mulZ(F.z, F.z))))
	return proof
}

// run makes a proof for F.v, with what hook changes at its stage.
func (F *rangeForger) run(hook func(stage string)) *bp.RangeProof {
	if hook == nil {
		hook = func(string) {}
	}
	F.commitV()
	F.commitW()
	F.commitQ()
	hook("before x")
	F.x = F.challenge(0)
	hook("after x")
	F.reduce()
	F.commitR()
	hook("before y")
	F.y0, F.y1 = F.challenge(1), F.challenge(2)
	hook("after y")
	F.vectors()
	F.coefficients()
	F.commitC()
	hook("before z")
	F.z = F.challenge(3)
	hook("after z")
	return F.finish()
}

// calibrate finds out which digests become which challenge, by honest proofs.
func (F *rangeForger) calibrate(c *Ctx) bool {
	F.draw(c)
	F.v = rangeVec(c, F.n)
	F.digits = bitsOf(F.v, F.m)
	F.commitV()
	F.commitW()
	F.commitQ()
	// x: the one with which verification gets furthest
	best := -1
	l := F.observe()
	for i, d := range l {
		F.x = common.FieldElementFromBytes([]byte(d))
		F.reduce()
		if n := len(F.observe()); n > best {
			best, F.ix[0] = n, i
		}
		F.Δ, F.u, F.γ = nil, zr(1), zr(1)
	}
	F.x = common.FieldElementFromBytes([]byte(l[F.ix[0]]))
	F.reduce()
	F.commitR()
	r0 := F.observe()
	F.R = plusG(F.R, curve.GenG1)
	r1 := F.observe()
	F.R = minusG(F.R, curve.GenG1)
	// what depends on R, in order: y0, y1, perhaps more, z, perhaps more, the inner product
	first := len(r0)
	for i, d := range r0 {
		if !setOf(r1)[d] {
			first = i
			break
		}
	}
	window := 6
	for i := first; i < first+window && i < len(r0); i++ {
		for j := first; j < first+window && j < len(r0); j++ {
			for k := first; k < first+window+1 && k < len(r0); k++ {
				if i == j || k <= i || k <= j {
					continue
				}
				F.ix[1], F.ix[2], F.ix[3] = i, j, k
				if bp.VerifyRange(F.P, F.run(nil), F.V) == nil {
					return true
				}
			}
		}
	}
	return false
}

func rangeForgeries(c *Ctx, n, which int, p Plan) {
	F := newRangeForger(c, n)
	if !F.calibrate(c) {
		c.Skip("the forger cannot even make honest proofs")
		return
	}
	honest := func() {
		F.draw(c)
		F.v = rangeVec(c, n)
		F.digits = bitsOf(F.v, F.m)
		c.Check(bp.VerifyRange(F.P, F.run(nil), F.V) == nil, "n=%d: an honest proof is rejected", n)
	}
	honest()
	honest()
	c.Sample("n=%d: digests %v of each verification are x, y0, y1, z", n, F.ix)
	try := func(what string, hook func(string)) {
		var proof *bp.RangeProof
		if pn := catch(func() { proof = F.run(hook) }); pn != nil {
			panic(pn)
		}
		c.Saw("forgeries attempted", 1)
		c.Distinct("forged %d %s %s %s", n, what, strs(F.v), strs(F.digits[:64]))
		c.Check(bp.VerifyRange(F.P, proof, F.V) != nil, "n=%d: a range proof for %s is accepted: %s", n, strs(F.v), what)
	}
	positions := []int{which * (n - 1) % n}
	if p.Thorough {
		positions = c.R.Perm(n)
	}
	for _, i := range positions {
		for _, x := range outOfRange(c)[which : which+1] {
			// digits which add up to the value without being bits
			for _, kind := range []string{"top", "bottom", "spread"} {
				F.draw(c)
				F.v = rangeVec(c, n)
				F.v[i] = zrBig(x)
				F.digits = fitDigits(c, F.v, i, F.m, kind)
				try("digits that are not bits ("+kind+")", nil)
			}
			// bits that do not add up to the value
			F.draw(c)
			F.v = rangeVec(c, n)
			good := copyVec(F.v)
			F.v[i] = zrBig(x)
			F.digits = bitsOf(good, F.m)
			try("bits of another value", nil)
			// C1, C2 after z
			for e, name := range []string{"C1", "C2"} {
				for _, bits := range []bool{true, false} {
					F.draw(c)
					F.v = rangeVec(c, n)
					F.digits = bitsOf(F.v, F.m)
					F.v[i] = zrBig(x)
					if !bits {
						F.digits = fitDigits(c, F.v, i, F.m, "top")
					}
					e := e
					try(name+" chosen after the challenge", func(stage string) {
						switch stage {
						case "before z":
							if e == 0 {
								F.C1 = randG1(c.R)
							} else {
								F.C2 = randG1(c.R)
							}
						case "after z":
							D := mulZ(subZ(F.c0true, F.c0), invZ(F.z))
							if e == 0 {
								F.c1 = addZ(F.c1, D)
							} else {
								F.c2 = addZ(F.c2, mulZ(D, invZ(F.z)))
							}
							F.commitC()
						}
					})
				}
			}
			// R after z
			for _, late := range []bool{true, false} {
				F.draw(c)
				F.v = rangeVec(c, n)
				F.digits = bitsOf(F.v, F.m)
				F.v[i] = zrBig(x)
				for k := range F.t {
					F.t[k] = zr(0)
				}
				var c1, c2 *math.Zr
				late := late
				try("R chosen after the challenge", func(stage string) {
					switch stage {
					case "before y":
						if late {
							F.R = randG1(c.R)
						}
					case "before z":
						c1, c2 = F.c1, F.c2
						if late {
							c1 = randZr(c.R)
							F.c1 = c1
							F.commitC()
						} else {
							F.R = randG1(c.R)
						}
					case "after z":
						lack := addZ(mulZ(c1, F.z), mulZ(c2, mulZ(F.z, F.z)), F.c0)
						want := mulZ(subZ(lack, F.c0true), invZ(F.z)) // <s, b'>
						have := zrBig(inner(F.s, F.b1))
						F.s[0] = addZ(F.s[0], mulZ(subZ(want, have), invZ(F.b1[0])))
						F.commitR()
						F.c1, F.c2 = c1, c2
					}
				})
			}
			// V, W, Q after x
			for e, name := range []string{"V", "W", "Q"} {
				F.draw(c)
				good := rangeVec(c, n)
				F.v = copyVec(good)
				F.digits = bitsOf(good, F.m)
				e := e
				if e > 0 {
					F.v[i] = zrBig(x)
				} else {
					F.wq = randVec(c.R, n)
				}
				try(name+" chosen after the challenge", func(stage string) {
					switch stage {
					case "before x":
						switch e {
						case 0:
							F.V = randG1(c.R)
						case 1:
							F.W = randG1(c.R)
						case 2:
							F.Q = randG1(c.R)
						}
					case "after x":
						switch e {
						case 0: // v = good + (wq - w) x
							for k := range F.v {
								F.v[k] = addZ(good[k], mulZ(subZ(F.wq[k], F.w[k]), F.x))
							}
							F.commitV()
						case 1: // w = wq - (v - good)/x
							w := copyVec(F.wq)
							w[i] = subZ(w[i], mulZ(subZ(F.v[i], good[i]), invZ(F.x)))
							F.w = w
							F.commitW()
						case 2:
							w := copyVec(F.w)
							w[i] = addZ(w[i], mulZ(subZ(F.v[i], good[i]), invZ(F.x)))
							F.wq = w
							F.commitQ()
						}
					}
				})
			}
		}
	}
	honest()
}

// fitDigits gives digits of which the i'th 63 add up to v[i] but are no bits.
func fitDigits(c *Ctx, v common.Vec, i, m int, kind string) common.Vec {
	low := copyVec(v)
	low[i] = zrBig(new(big.Int).Mod(zint(v[i]), two63))
	digits := bitsOf(low, m)
	rest := subZ(v[i], low[i])
	j := m - 1
	switch kind {
	case "bottom":
		j = 0
	case "spread":
		j = c.R.Intn(m)
	}
	w := zrBig(new(big.Int).Lsh(big.NewInt(1), uint(j)))
	digits[i*m+j] = addZ(digits[i*m+j], mulZ(rest, invZ(w)))
	return digits
}

// rangeTranscript looks for proof elements that reach no challenge, or not the next one.
func rangeTranscript(c *Ctx) {
	P := rangePP(2)
	mk := func() (*bp.RangeProof, *math.G1) {
		v, r := rangeVec(c, 2), randZr(c.R)
		V := rangeCommit(P, v, r)
		return bp.ProveRange(P, V, v, r), V
	}
	proof, V := mk()
	proof2, V2 := mk()
	honest := digestsOf(func() { bp.VerifyRange(P, proof, V) })
	constant := both(honest, digestsOf(func() { bp.VerifyRange(P, proof2, V2) }))
	if len(without(honest, constant)) == 0 {
		c.Skip("no digests observed")
		return
	}
	type pair struct {
		V *math.G1
		p *bp.RangeProof
	}
	x := &pair{V, proof}
	for _, s := range elements(x) {
		switch s.Path {
		case ".V", ".p.W", ".p.Q", ".p.R", ".p.C1", ".p.C2", ".p.c":
		default:
			continue
		}
		al := alter(s, nil)[0]
		al.set()
		altered := digestsOf(func() { bp.VerifyRange(P, x.p, x.V) })
		al.undo()
		c.Check(len(without(honest, constant, altered)) > 0, "no challenge depends on %s of the range proof", s.Path)
		c.Saw("digests compared", len(honest))
		c.Distinct("transcript %s", s.Path)
	}
	c.Check(bp.VerifyRange(P, proof, V) == nil, "rejected after all")
}
