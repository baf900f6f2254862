package main

import (
	"fmt"
	"math/big"
	mrand "math/rand"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pp"

	math "github.com/IBM/mathlib"
)

func init() {
	register(&Property{
		ID:    "C10",
		Rule:  "Statements over vectors of length 3 to 40 with edge entries, single and in batches of 1 to 256: true ones must be accepted; statements false in one position, or in several that compensate, proven with every mix of the differing values, altered commitments, indices, orders and proofs, and forgeries made with every challenge that does not depend on the element solved for must be rejected. Challenges must change with every element they have to bind. distinct = (length, batch, statement, deviation).",
		Cases: c10Cases,
	})
}

// eqBatch is a batch of statements with its witnesses.
type eqBatch struct {
	E      *poe.PP
	es     *poe.Equalities
	vs, ws []common.Vec
}

func poePP(P *pp.PP, m int) *poe.PP {
	E := &poe.PP{G: common.RandGenVec(m, "POE G"), H: common.RandGenVec(m, "POE H"), F: common.RandGenVec(1, "POE F")[0], PP: P}
	E.SetupDigest()
	return E
}

func eqVec(r *mrand.Rand, n int) common.Vec {
	v := c09Vec(r, n)
	v[n-1] = randZr(r) // the blinding factor
	return v
}

// newBatch gives m true statements about vectors of length n.
func newBatch(r *mrand.Rand, P *pp.PP, m int) *eqBatch {
	n := P.N
	b := &eqBatch{E: poePP(P, m)}
	b.es = &poe.Equalities{RO: poe.RO, PP: b.E}
	for k := 0; k < m; k++ {
		v, w := eqVec(r, n), eqVec(r, n)
		i, j := r.Intn(n-1), r.Intn(n-1)
		switch r.Intn(5) {
		case 0:
			i, j = 0, n-2
		case 1:
			j = i
		}
		w[j] = v[i].Copy()
		if k > 0 && r.Intn(6) == 0 { // another statement about the same vectors
			v, w, i, j = b.vs[k-1], b.ws[k-1], b.es.I[k-1], b.es.J[k-1]
			v, w, i, j = w, v, j, i
		}
		b.vs, b.ws = append(b.vs, v), append(b.ws, w)
		b.es.I, b.es.J = append(b.es.I, i), append(b.es.J, j)
		b.es.V, b.es.W = append(b.es.V, msm(P.G1s, v)), append(b.es.W, msm(P.G1s, w))
	}
	return b
}

func (b *eqBatch) with(f func(es *poe.Equalities)) *poe.Equalities {
	e := *b.es
	e.V, e.W = append(common.G1v{}, e.V...), append(common.G1v{}, e.W...)
	e.I, e.J = append([]int{}, e.I...), append([]int{}, e.J...)
	f(&e)
	return &e
}

func c10Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, serial bool, f func(*Ctx)) {
		cases = append(cases, Case{Name: name, Run: f, Serial: serial})
	}
	for _, n := range []int{3, 4, 5, 8, 9, 17, 40} {
		for round := 0; round < p.Pick(3, 20); round++ {
			n, round := n, round
			add(fmt.Sprintf("single/%d/%d", n, round), false, func(c *Ctx) { singleEquality(c, n) })
		}
	}
	// fan-outs beyond a byte
	add("single/513/0", false, func(c *Ctx) { singleEquality(c, 513) })
	add("aggregated/4/513", false, func(c *Ctx) { aggregatedEqualities(c, 513, 4) })
	for h, m := range []int{1, 2, 2, 4, 4, 8, 16, 32, 64, 256} {
		m, h := m, h
		n := []int{3, 5, 9, 4}[h%4]
		if m == 256 {
			n = 3
		}
		add(fmt.Sprintf("aggregated/%d/%d", m, h), false, func(c *Ctx) {
			rounds := p.Pick(2, 10)
			if m >= 32 {
				rounds = p.Pick(1, 3)
			}
			for i := 0; i < rounds && !c.failed(); i++ {
				aggregatedEqualities(c, n, m)
			}
		})
	}
	for round := 0; round < p.Pick(2, 10); round++ {
		add(fmt.Sprintf("forgeries/%d", round), false, equalityForgeries)
	}
	add("transcript", true, equalityTranscript)
	return cases
}

func singleEquality(c *Ctx, n int) {
	P := pp.NewPublicParams(n)
	E := poePP(P, 2)
	v, w := eqVec(c.R, n), eqVec(c.R, n)
	i, j := c.R.Intn(n-1), c.R.Intn(n-1)
	w[j] = v[i].Copy()
	if c.R.Intn(5) == 0 { // the same vector
		w, j = v, i
	}
	what := fmt.Sprintf("n=%d v[%d]=w[%d] of %s, %s", n, i, j, strs(v), strs(w))
	V, W := msm(P.G1s, v), msm(P.G1s, w)
	e := &poe.Equality{RO: poe.RO, PP: E, V: V, W: W, I: i, J: j}
	before := strs(v) + strs(w)
	pr := e.Prove(v, w)
	err := e.Verify(pr)
	c.Check(err == nil, "an honest equality proof is rejected: %v: %s", err, what)
	c.Check(e.Verify(pr) == nil, "an honest equality proof is rejected the second time: %s", what)
	c.Check(strs(v)+strs(w) == before, "proving changed the vectors: %s", what)
	c.Distinct("single %s", what)
	c.Sample("%s", clip(what, 200))
	// other statements with this proof
	reject := func(name string, V, W *math.G1, i, j int) {
		f := &poe.Equality{RO: poe.RO, PP: E, V: V, W: W, I: i, J: j}
		var err error
		pn := catch(func() { err = f.Verify(pr) })
		c.Saw("false statements judged", 1)
		c.Check(pn != nil || err != nil, "an equality proof is accepted for %s: %s", name, what)
	}
	i2, j2 := (i+1+c.R.Intn(n-2))%(n-1), (j+1+c.R.Intn(n-2))%(n-1)
	reject("another first index", V, W, i2, j)
	reject("another second index", V, W, i, j2)
	reject("other indices", V, W, i2, j2)
	if i != j {
		reject("exchanged indices", V, W, j, i)
	}
	if !V.Equals(W) {
		reject("exchanged commitments", W, V, i, j)
		reject("the first commitment twice", V, V, i, j)
		reject("the second commitment twice", W, W, i, j)
		if i != j {
			reject("an exchanged statement", W, V, j, i)
		}
	}
	for k := 0; k < n; k++ {
		reject(fmt.Sprintf("the first vector shifted at %d", k), plusG(V, P.G1s[k]), W, i, j)
		reject(fmt.Sprintf("the second vector shifted at %d", k), V, plusG(W, P.G1s[k]), i, j)
	}
	reject("both vectors shifted", plusG(V, P.G1s[i]), plusG(W, P.G1s[j]), i, j)
	reject("both vectors rerandomised", plusG(V, P.G1s[n-1]), plusG(W, P.G1s[n-1]), i, j)
	// false statements, with every mix of the two values
	for t := 0; t < 3; t++ {
		x := v[i]
		y := wrongValues(c.R, x, v)
		u := copyVec(w)
		u[j] = y[c.R.Intn(len(y))]
		if zint(u[j]).Cmp(zint(x)) == 0 {
			continue
		}
		f := &poe.Equality{RO: poe.RO, PP: E, V: V, W: msm(P.G1s, u), I: i, J: j}
		c.Check(catch(func() { f.Prove(v, u) }) != nil, "proving a false statement is not refused: %s with w[%d]=%s", what, j, u[j].String())
		half := invZ(zr(2))
		for _, mix := range []*math.Zr{x, u[j], mulZ(addZ(x, u[j]), half), addZ(x, u[j]), zr(0), randZr(c.R)} {
			a, b := copyVec(v), copyVec(u)
			a[i], b[j] = mix, mix
			g := f.Prove(a, b)
			c.Saw("false statements judged", 1)
			c.Distinct("false %s %s %s", what, u[j].String(), mix.String())
			c.Check(f.Verify(g) != nil, "a proof that v[%d]=w[%d] is accepted although they are %s and %s (proven with %s): %s", i, j, x.String(), u[j].String(), mix.String(), what)
		}
		c.Check(f.Verify(pr) != nil, "an equality proof is accepted for another second vector: %s", what)
	}
	v2, w2 := eqVec(c.R, n), eqVec(c.R, n)
	w2[j] = v2[i]
	e2 := &poe.Equality{RO: poe.RO, PP: E, V: msm(P.G1s, v2), W: msm(P.G1s, w2), I: i, J: j}
	tamper(c, "equality proof", pr, e2.Prove(v2, w2), nil, 0, func() error { return e.Verify(pr) })
}

func aggregatedEqualities(c *Ctx, n, m int) {
	P := pp.NewPublicParams(n)
	b := newBatch(c.R, P, m)
	E := b.E
	what := fmt.Sprintf("n=%d m=%d I=%v J=%v", n, m, b.es.I[:min(m, 8)], b.es.J[:min(m, 8)])
	pr := b.es.Prove(b.vs, b.ws)
	err := b.es.Verify(pr)
	c.Check(err == nil, "an honest aggregated equality proof is rejected: %v: %s", err, what)
	c.Check(b.es.Verify(pr) == nil, "an honest aggregated equality proof is rejected the second time: %s", what)
	c.Distinct("agg %s %x", what, b.es.V.Bytes()[:24])
	c.Sample("%s", clip(what, 200))
	reject := func(name string, f func(es *poe.Equalities)) {
		if c.failed() {
			return
		}
		es := b.with(f)
		var err error
		pn := catch(func() { err = es.Verify(pr) })
		c.Saw("false statements judged", 1)
		c.Distinct("%s %s", what, name)
		c.Check(pn != nil || err != nil, "an aggregated equality proof is accepted for %s: %s", name, what)
	}
	pos := []int{0, m - 1, c.R.Intn(m)}
	if m <= 4 {
		pos = c.R.Perm(m)
	}
	if m > 64 {
		pos = pos[1:2]
	}
	for _, k := range pos {
		k := k
		reject(fmt.Sprintf("another first index in %d", k), func(e *poe.Equalities) { e.I[k] = (e.I[k] + 1 + c.R.Intn(n-2)) % (n - 1) })
		reject(fmt.Sprintf("another second index in %d", k), func(e *poe.Equalities) { e.J[k] = (e.J[k] + 1 + c.R.Intn(n-2)) % (n - 1) })
		reject(fmt.Sprintf("a first commitment shifted in %d", k), func(e *poe.Equalities) { e.V[k] = plusG(e.V[k], P.G1s[c.R.Intn(n)]) })
		reject(fmt.Sprintf("a second commitment shifted in %d", k), func(e *poe.Equalities) { e.W[k] = plusG(e.W[k], P.G1s[c.R.Intn(n)]) })
		reject(fmt.Sprintf("both commitments shifted in %d", k), func(e *poe.Equalities) {
			e.V[k], e.W[k] = plusG(e.V[k], P.G1s[e.I[k]]), plusG(e.W[k], P.G1s[e.J[k]])
		})
		reject(fmt.Sprintf("a zero commitment in %d", k), func(e *poe.Equalities) { e.V[k] = inf() })
		if !b.es.V[k].Equals(b.es.W[k]) {
			reject(fmt.Sprintf("exchanged commitments in %d", k), func(e *poe.Equalities) { e.V[k], e.W[k] = e.W[k], e.V[k] })
		}
		l := (k + 1) % m
		if !b.es.V[k].Equals(b.es.V[l]) {
			reject(fmt.Sprintf("exchanged first commitments %d, %d", k, l), func(e *poe.Equalities) { e.V[k], e.V[l] = e.V[l], e.V[k] })
			reject(fmt.Sprintf("exchanged statements %d, %d", k, l), func(e *poe.Equalities) {
				e.V[k], e.V[l], e.W[k], e.W[l] = e.V[l], e.V[k], e.W[l], e.W[k]
				e.I[k], e.I[l], e.J[k], e.J[l] = e.I[l], e.I[k], e.J[l], e.J[k]
			})
			reject(fmt.Sprintf("compensating shifts %d, %d", k, l), func(e *poe.Equalities) {
				e.V[k], e.V[l] = plusG(e.V[k], P.G1s[e.I[k]]), minusG(e.V[l], P.G1s[e.I[l]])
			})
		}
	}
	if m > 1 {
		reject("the first statements only", func(e *poe.Equalities) { e.V, e.W, e.I, e.J = e.V[:m/2], e.W[:m/2], e.I[:m/2], e.J[:m/2] })
	}
	reject("one more statement", func(e *poe.Equalities) {
		e.V, e.W, e.I, e.J = append(e.V, inf()), append(e.W, inf()), append(e.I, 0), append(e.J, 0)
	})
	// false batches, proven by a prover that knows everything
	deviate := func(name string, at []int, by []int64, mix int) {
		if c.failed() {
			return
		}
		vs, ws := append([]common.Vec{}, b.vs...), append([]common.Vec{}, b.ws...)
		es := b.with(func(e *poe.Equalities) {
			for t, k := range at {
				// the second vector deviates
				w := copyVec(ws[k])
				w[e.J[k]] = zrBig(new(big.Int).Add(zint(w[e.J[k]]), big.NewInt(by[t])))
				ws[k] = w
				e.W[k] = msm(P.G1s, w)
				// the prover commits to some mix of the two values
				v := copyVec(vs[k])
				x, y := v[e.I[k]], w[e.J[k]]
				switch mix {
				case 1:
					v[e.I[k]] = y
				case 2:
					v[e.I[k]] = mulZ(addZ(x, y), invZ(zr(2)))
				case 3:
					v[e.I[k]] = addZ(x, y)
				}
				vs[k] = v
			}
		})
		f := es.Prove(vs, ws)
		c.Saw("false batches judged", 1)
		c.Distinct("dev %s %v %v %d", what, at, by, mix)
		c.Check(es.Verify(f) != nil, "an aggregated equality proof is accepted although %s (mix %d): %s", name, mix, what)
		c.Check(es.Verify(pr) != nil, "the honest aggregated proof is accepted for other commitments (%s): %s", name, what)
	}
	mixes := []int{0, 1, 2, 3}
	for _, k := range pos {
		for _, mix := range mixes {
			if m > 16 && mix != k%4 {
				continue
			}
			deviate(fmt.Sprintf("pair %d differs by one", k), []int{k}, []int64{1}, mix)
			deviate(fmt.Sprintf("pair %d differs", k), []int{k}, []int64{1 + c.R.Int63()}, mix)
		}
	}
	if m > 1 {
		for t := 0; t < 4; t++ {
			k, l := c.R.Intn(m), c.R.Intn(m)
			if t < 2 {
				k, l = 0, []int{1, m - 1}[t]
			}
			if k == l || m > 64 && t > 1 {
				continue
			}
			mix := c.R.Intn(4)
			deviate(fmt.Sprintf("pairs %d, %d differ by +1, -1", k, l), []int{k, l}, []int64{1, -1}, mix)
			deviate(fmt.Sprintf("pairs %d, %d differ in proportion to the other's position", k, l), []int{k, l}, []int64{int64(l + 1), -int64(k + 1)}, mix)
			deviate(fmt.Sprintf("pairs %d, %d differ in proportion to the other's position from 0", k, l), []int{k, l}, []int64{int64(2*l + 1), -int64(2*k + 1)}, 0)
		}
		for _, period := range []int{2, 8, 16, 32, 64, 127, 128} {
			if m > period {
				k := c.R.Intn(m - period)
				deviate(fmt.Sprintf("pairs %d, %d differ by +1, -1", k, k+period), []int{k, k + period}, []int64{1, -1}, 0)
			}
		}
	}
	if m > 2 {
		deviate("three pairs compensate", []int{0, 1, 2}, []int64{1, -2, 1}, 0)
		deviate("three pairs compensate", []int{0, 1, 2}, []int64{1, 1, -2}, 1)
	}
	if m <= 16 {
		b2 := newBatch(c.R, P, m)
		b2.es.PP = E
		tamper(c, fmt.Sprintf("aggregated equality m=%d", m), pr, b2.es.Prove(b2.vs, b2.ws), func(s Slot) bool { return redundant(s, -1) }, c.plan.Pick(70, 0), func() error { return b.es.Verify(pr) })
	}
	c.Check(catch(func() { b.es.Prove(b.vs[:m-1], b.ws) }) != nil && catch(func() { b.es.Prove(b.vs, b.ws[:m-1]) }) != nil, "proving with too few vectors is not refused: %s", what)
}

// equalityForgeries proves false statements by solving for one element after
// the challenges, which must depend on it.
func equalityForgeries(c *Ctx) {
	n := 3 + c.R.Intn(3)
	P := pp.NewPublicParams(n)
	E := poePP(P, 1)
	i, j := c.R.Intn(n-1), c.R.Intn(n-1)
	open := func(i int, v common.Vec) *math.G1 { _, π := openRef(P.G1s, n, i, v); return π }
	base := func(i int) *math.G1 { return P.G1s[i] }
	omega := func(i int) *math.G1 { return P.G1s[len(P.G1s)-1-i] }

	// ---- the single argument
	type single struct {
		v, w         common.Vec
		uV, uW, ν, η *math.Zr
	}
	build := func(s single, x, t0, t1, cc *math.Zr) (*poe.Equality, *poe.Proof) {
		e := &poe.Equality{RO: poe.RO, PP: E, V: msm(P.G1s, s.v), W: msm(P.G1s, s.w), I: i, J: j}
		Ω := plusG(mulG(plusG(open(i, s.v), mulG(omega(i), mulZ(s.ν, x))), t0), mulG(plusG(open(j, s.w), mulG(omega(j), mulZ(s.η, x))), t1))
		return e, &poe.Proof{C: cc, V: plusG(mulG(base(i), s.uV), mulG(P.G1s[n-1], s.ν)), W: plusG(mulG(base(j), s.uW), mulG(P.G1s[n-1], s.η)), Ω: Ω}
	}
	u := randZr(c.R)
	v, w := eqVec(c.R, n), eqVec(c.R, n)
	w[j] = v[i].Copy()
	honest := single{v, w, u, u, randZr(c.R), randZr(c.R)}
	calibrated := false
	e, pr := build(honest, zr(1), zr(1), zr(1), zr(1))
	for _, x := range challenges(func() { e.Verify(pr) }) {
		cc := addZ(v[i], mulZ(u, x))
		e1, p1 := build(honest, x, zr(1), zr(1), cc)
		ts := challenges(func() { e1.Verify(p1) })
		for _, t0 := range ts {
			for _, t1 := range ts {
				if calibrated {
					break
				}
				e2, p2 := build(honest, x, t0, t1, cc)
				calibrated = e2.Verify(p2) == nil
			}
		}
	}
	if !calibrated {
		c.Skip("the forger cannot even make honest single equality proofs")
	}
	δ := zr(1 + c.R.Int63())
	bad := copyVec(w)
	bad[j] = addZ(bad[j], δ)
	judge := func(what string, e *poe.Equality, p *poe.Proof) {
		c.Saw("forgeries attempted", 1)
		c.Check(e.Verify(p) != nil, "n=%d: an equality proof for different values is accepted: %s solved for after the challenge", n, what)
	}
	// C last: c(t0+t1) = t0 a + t1 b
	s := single{v, bad, u, u, honest.ν, honest.η}
	e, pr = build(s, zr(1), zr(1), zr(1), randZr(c.R))
	xs := challenges(func() { e.Verify(pr) })
	for _, x := range xs {
		a, b := addZ(v[i], mulZ(u, x)), addZ(bad[j], mulZ(u, x))
		for _, t0 := range xs {
			for _, t1 := range xs {
				if t0 == t1 || c.failed() {
					continue
				}
				cc := mulZ(addZ(mulZ(t0, a), mulZ(t1, b)), invZ(addZ(t0, t1)))
				e2, p2 := build(s, x, t0, t1, cc)
				judge("C", e2, p2)
			}
		}
	}
	// the masks, or the vectors, after x; then honest t
	for _, kind := range []string{"the first mask", "the second mask", "the first commitment", "the second commitment"} {
		s := single{copyVec(v), copyVec(bad), u, u, honest.ν, honest.η}
		if kind == "the first commitment" || kind == "the second commitment" {
			s.uW = addZ(u, δ)
		}
		e, pr := build(s, zr(1), zr(1), zr(1), randZr(c.R))
		for _, x := range challenges(func() { e.Verify(pr) }) {
			if zint(x).Sign() == 0 || c.failed() {
				continue
			}
			r := single{copyVec(s.v), copyVec(s.w), s.uV, s.uW, s.ν, s.η}
			switch kind {
			case "the first mask":
				r.uV = addZ(r.uW, mulZ(subZ(r.w[j], r.v[i]), invZ(x)))
			case "the second mask":
				r.uW = addZ(r.uV, mulZ(subZ(r.v[i], r.w[j]), invZ(x)))
			case "the first commitment":
				r.v[i] = addZ(r.w[j], mulZ(x, subZ(r.uW, r.uV)))
			case "the second commitment":
				r.w[j] = addZ(r.v[i], mulZ(x, subZ(r.uV, r.uW)))
			}
			if eqZ(r.v[i], r.w[j]) {
				continue
			}
			cc := addZ(r.v[i], mulZ(r.uV, x))
			e1, p1 := build(r, x, zr(1), zr(1), cc)
			ts := challenges(func() { e1.Verify(p1) })
			if len(ts) > 9 {
				ts = ts[len(ts)-9:]
			}
			for _, t0 := range ts {
				for _, t1 := range ts {
					if t0 != t1 {
						e2, p2 := build(r, x, t0, t1, cc)
						judge(kind, e2, p2)
					}
				}
			}
		}
	}

	// ---- the aggregated argument, with a batch of one
	type agg struct {
		single
		u, vc, r1, r2 *math.Zr
	}
	mk := func(s agg, x, t0, t1 *math.Zr) (*poe.Equalities, *poe.AggregatedProof) {
		es := &poe.Equalities{RO: poe.RO, PP: E, V: common.G1v{msm(P.G1s, s.v)}, W: common.G1v{msm(P.G1s, s.w)}, I: []int{i}, J: []int{j}}
		_, sp := build(s.single, x, t0, t1, zr(0))
		U, V := plusG(mulG(E.F, s.r1), mulG(E.G[0], s.u)), plusG(mulG(E.F, s.r2), mulG(E.G[0], s.vc))
		ρ := negZ(addZ(mulZ(s.r1, x), s.r2))
		a, b := addZ(mulZ(s.u, x), s.vc), addZ(t0, t1)
		bpp := &bp.PP{U: common.RandGenVec(1, "u")[0], G: E.G, H: E.H}
		bpp.RecomputeDigest()
		ipp := bp.NewInnerProdArgument(bpp, common.Vec{a}, common.Vec{b}).Prove()
		p := &poe.AggregatedProof{IPP: ipp, U: U, V: V, Ω: sp.Ω, Vaggr: common.G1v{sp.V}, Waggr: common.G1v{sp.W}}
		setZr(p, ".c", mulZ(a, b))
		setZr(p, ".ρ", ρ)
		return es, p
	}
	// what the pairing equation demands of the product
	target := func(s agg, x, t0, t1 *math.Zr) *math.Zr {
		return addZ(mulZ(t0, addZ(s.v[i], mulZ(s.uV, x))), mulZ(t1, addZ(s.w[j], mulZ(s.uW, x))))
	}
	calibrated = false
	h := agg{honest, u, v[i], randZr(c.R), randZr(c.R)}
	es, ap := mk(h, zr(1), zr(1), zr(1))
	cs := challenges(func() { es.Verify(ap) })
	for _, x := range cs {
		for _, t0 := range cs {
			for _, t1 := range cs {
				if calibrated || t0 == t1 || x == t0 || x == t1 {
					continue
				}
				es, ap := mk(h, x, t0, t1)
				calibrated = es.Verify(ap) == nil
			}
		}
	}
	if !calibrated {
		c.Skip("the forger cannot even make honest aggregated equality proofs")
	}
	for _, kind := range []string{"V", "U", "the first mask", "the second mask", "the first commitment", "the second commitment"} {
		s := h
		s.single = single{copyVec(v), copyVec(bad), u, u, honest.ν, honest.η}
		if kind == "the first commitment" || kind == "the second commitment" {
			s.uW = addZ(u, δ)
		}
		es, ap := mk(s, zr(1), zr(1), zr(1))
		cs := challenges(func() { es.Verify(ap) })
		// the challenge x is among those that do not depend on what is solved for later
		for _, x := range cs {
			if zint(x).Sign() == 0 {
				continue
			}
			r := s
			r.single = single{copyVec(s.v), copyVec(s.w), s.uV, s.uW, s.ν, s.η}
			ts := cs
			switch kind {
			case "the first mask":
				r.uV = addZ(r.uW, mulZ(subZ(r.w[j], r.v[i]), invZ(x)))
				r.u, r.vc = r.uW, r.w[j]
			case "the second mask":
				r.uW = addZ(r.uV, mulZ(subZ(r.v[i], r.w[j]), invZ(x)))
				r.u, r.vc = r.uV, r.v[i]
			case "the first commitment":
				r.v[i] = addZ(r.w[j], mulZ(x, subZ(r.uW, r.uV)))
				r.u, r.vc = r.uW, r.w[j]
			case "the second commitment":
				r.w[j] = addZ(r.v[i], mulZ(x, subZ(r.uV, r.uW)))
				r.u, r.vc = r.uV, r.v[i]
			}
			if eqZ(r.v[i], r.w[j]) {
				continue
			}
			if kind != "V" && kind != "U" {
				e1, p1 := mk(r, x, zr(1), zr(1))
				ts = challenges(func() { e1.Verify(p1) })
			}
			for _, t0 := range ts {
				for _, t1 := range ts {
					if t0 == t1 || c.failed() {
						continue
					}
					f := r
					need := mulZ(target(f, x, t0, t1), invZ(addZ(t0, t1))) // u x + vc
					switch kind {
					case "V":
						f.vc = subZ(need, mulZ(f.u, x))
					case "U":
						f.u = mulZ(subZ(need, f.vc), invZ(x))
					}
					es, ap := mk(f, x, t0, t1)
					c.Saw("forgeries attempted", 1)
					c.Check(es.Verify(ap) != nil, "n=%d: an aggregated equality proof for different values is accepted: %s solved for after the challenges", n, kind)
				}
			}
		}
		c.Distinct("forgery %s %s", kind, δ.String())
	}
	c.Sample("n=%d i=%d j=%d, values differing by %s", n, i, j, δ.String())
}

// equalityTranscript compares the challenges of proofs that differ in one element.
func equalityTranscript(c *Ctx) {
	n, m := 4, 16
	P := pp.NewPublicParams(n)
	b, b2 := newBatch(c.R, P, m), newBatch(c.R, P, m)
	b2.es.PP = b.E
	pr, pr2 := b.es.Prove(b.vs, b.ws), b2.es.Prove(b2.vs, b2.ws)
	verify := func() { b.es.Verify(pr) }
	honest := digestsOf(verify)
	varying := without(honest, digestsOf(func() { b2.es.Verify(pr2) }))
	if len(varying) < 2*m {
		c.Skip("only %d challenges observed", len(varying))
		return
	}
	judge := func(what string, allowed int, set, undo func()) {
		set()
		left := both(varying, digestsOf(verify))
		undo()
		c.Saw("digests compared", len(varying))
		c.Distinct("transcript %s", what)
		c.Check(len(left) <= allowed, "%d of %d challenges (or their inputs) of the aggregated equality argument do not depend on %s", len(left), len(varying), what)
	}
	one := func(l common.G1v, name string) {
		for _, k := range []int{0, 1, m / 2, m - 1} {
			old := l[k]
			judge(fmt.Sprintf("%s[%d]", name, k), 0, func() { l[k] = plusG(old, curve.GenG1) }, func() { l[k] = old })
		}
	}
	one(pr.Vaggr, "Vaggr")
	one(pr.Waggr, "Waggr")
	one(b.es.V, "the first commitments")
	one(b.es.W, "the second commitments")
	U, V := pr.U, pr.V
	judge("U", 8, func() { pr.U = plusG(U, curve.GenG1) }, func() { pr.U = U })
	judge("V", 8, func() { pr.V = plusG(V, curve.GenG1) }, func() { pr.V = V })
	// the single argument
	E := b.E
	v, w := eqVec(c.R, n), eqVec(c.R, n)
	w[1] = v[0].Copy()
	e := &poe.Equality{RO: poe.RO, PP: E, V: msm(P.G1s, v), W: msm(P.G1s, w), I: 0, J: 1}
	sp := e.Prove(v, w)
	single := func() { e.Verify(sp) }
	honest = digestsOf(single)
	varying = without(honest, digestsOf(func() {
		e2 := &poe.Equality{RO: poe.RO, PP: E, V: msm(P.G1s, w), W: msm(P.G1s, v), I: 1, J: 0}
		e2.Verify(e2.Prove(w, v))
	}))
	for name, g := range map[string]**math.G1{"V": &e.V, "W": &e.W, "the mask of V": &sp.V, "the mask of W": &sp.W} {
		old := *g
		*g = plusG(old, curve.GenG1)
		left := both(varying, digestsOf(single))
		*g = old
		c.Distinct("transcript single %s", name)
		c.Check(len(varying) > 3 && len(left) == 0, "%d of %d challenges of the equality argument do not depend on %s", len(left), len(varying), name)
	}
	// later challenges bind the response and the indices
	later := func(name string, set, undo func()) {
		set()
		left := both(varying, digestsOf(single))
		undo()
		c.Distinct("transcript single %s", name)
		c.Check(len(left) <= 3, "%d of %d challenges of the equality argument do not depend on %s", len(left), len(varying), name)
	}
	C := sp.C
	later("C", func() { sp.C = addZ(C, zr(1)) }, func() { sp.C = C })
	later("I", func() { e.I = 2 }, func() { e.I = 0 })
	later("J", func() { e.J = 2 }, func() { e.J = 1 })
}
