package main

import (
	"fmt"
	"math/big"
	mrand "math/rand"

	"pol/bp"
	"pol/common"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

func init() {
	register(&Property{
		ID:    "C11",
		Rule:  "Vectors that end in their sum (zeros, wrapping sums, edges; lengths 2 to 64, up to 40 aggregated, 300 in one case) must be accepted; vectors off by a value at each position, batches with one offending or several compensating members, other commitments, altered proofs, and forgeries made with every challenge that does not depend on the element solved for must be rejected. distinct = (length, batch, deviation, positions).",
		Cases: c11Cases,
	})
}

// sumVec gives a vector ending in its sum plus delta.
func sumVec(r *mrand.Rand, n int, delta *big.Int) common.Vec {
	v := make(common.Vec, n)
	s := new(big.Int)
	kind := r.Intn(4)
	for i := 0; i < n-1; i++ {
		switch kind {
		case 0:
			v[i] = zr(0)
		case 1:
			v[i] = zrBig(edgeScalars(r))
		case 2:
			v[i] = zr(r.Int63())
		default:
			v[i] = randZr(r)
		}
		s.Add(s, zint(v[i]))
	}
	v[n-1] = zrBig(s.Add(s, delta))
	return v
}

func sumCommit(P *sum.PP, v common.Vec, r *math.Zr) *math.G1 {
	return plusG(mulG(P.F, r), msm(P.Gs, v))
}

func c11Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, serial bool, f func(*Ctx)) {
		cases = append(cases, Case{Name: name, Run: f, Serial: serial})
	}
	zero := big.NewInt(0)
	for _, n := range []int{512, 256} {
		n := n
		add(fmt.Sprintf("long/%d", n), false, func(c *Ctx) {
			P := sum.NewPublicParams(n)
			v, r := sumVec(c.R, n, zero), randZr(c.R)
			V := sumCommit(P, v, r)
			arg, proof := sum.NewArgument(P, V, v, r)
			c.Check(proof.Verify(P, arg) == nil, "n=%d: honest argument rejected", n)
			c.Distinct("long %d %s", n, strs(v))
			for _, i := range []int{0, n / 2, n - 2, n - 1, 255, 256 % n, c.R.Intn(n)} {
				w := copyVec(v)
				w[i] = zrBig(new(big.Int).Add(zint(w[i]), big.NewInt(1)))
				W := sumCommit(P, w, r)
				_, f := sum.NewArgument(P, W, w, r)
				c.Check(f.Verify(P, &sum.Argument{V: W}) != nil, "n=%d: accepted although entry %d is off by 1", n, i)
				c.Check(proof.Verify(P, &sum.Argument{V: W}) != nil, "n=%d: accepted for a commitment with entry %d off by 1", n, i)
				c.Distinct("long %d off %d", n, i)
			}
			// compensating deviations of two
			i, j := c.R.Intn(n-1), c.R.Intn(n-1)
			if i != j {
				w := copyVec(v)
				w[i] = zrBig(new(big.Int).Add(zint(w[i]), big.NewInt(5)))
				w[j] = zrBig(new(big.Int).Sub(zint(w[j]), big.NewInt(5)))
				W := sumCommit(P, w, r)
				_, f := sum.NewArgument(P, W, w, r)
				c.Check(f.Verify(P, &sum.Argument{V: W}) == nil, "n=%d: rejected with 5 moved from entry %d to %d", n, j, i)
				c.Check(proof.Verify(P, &sum.Argument{V: W}) != nil, "n=%d: accepted for a commitment with 5 moved from entry %d to %d", n, j, i)
			}
		})
	}
	for _, n := range []int{2, 4, 8, 16, 32, 64} {
		n := n
		for round := 0; round < p.Pick(2, 12); round++ {
			add(fmt.Sprintf("single/%d/%d", n, round), false, func(c *Ctx) {
				P := sum.NewPublicParams(n)
				v := sumVec(c.R, n, zero)
				r := zrBig(edgeScalars(c.R))
				before := strs(v)
				V := sum.NewCommitment(P, v, r).V
				c.Check(V.Equals(sumCommit(P, v, r)), "n=%d: NewCommitment(%s) is not the commitment", n, before)
				arg, proof := sum.NewArgument(P, V, v, r)
				c.Check(arg.V.Equals(V) && strs(v) == before, "n=%d: the argument is for another commitment, or the vector changed", n)
				err := proof.Verify(P, arg)
				c.Check(err == nil, "n=%d: honest argument for %s rejected: %v", n, before, err)
				c.Check(proof.Verify(P, &sum.Argument{V: V}) == nil, "n=%d: honest argument rejected the second time", n)
				c.Distinct("%d %s", n, before)
				c.Sample("n=%d: %s", n, clip(before, 120))
				// other commitments
				v2 := sumVec(c.R, n, zero)
				for name, X := range map[string]*math.G1{"another": sumCommit(P, v2, r), "rerandomised": plusG(V, P.F), "shifted": plusG(V, P.Gs[0]), "identity": inf(), "negated": minusG(inf(), V)} {
					if !X.Equals(V) {
						c.Check(proof.Verify(P, &sum.Argument{V: X}) != nil, "n=%d: accepted for %s commitment", n, name)
					}
				}
				// false statements: each entry off by something
				pos := c.R.Perm(n)
				if n > 8 {
					pos = append([]int{0, n - 1, n - 2, n / 2}, pos[:4]...)
				}
				for _, i := range pos {
					for _, d := range []*big.Int{big.NewInt(1), big.NewInt(-1), new(big.Int).Lsh(big.NewInt(1), 63), randBig(c.R)} {
						w := copyVec(v)
						w[i] = zrBig(new(big.Int).Add(zint(w[i]), d))
						W := sumCommit(P, w, r)
						_, f := sum.NewArgument(P, W, w, r)
						c.Check(f.Verify(P, &sum.Argument{V: W}) != nil, "n=%d: accepted although entry %d is off by %v", n, i, d)
						// an honest proof of the right vector, for the wrong commitment
						c.Check(proof.Verify(P, &sum.Argument{V: W}) != nil, "n=%d: the proof of %s is accepted with entry %d off by %v", n, before, i, d)
						c.Distinct("%d off %d %v", n, i, d)
						c.Check(catch(func() { sum.NewCommitment(P, w, r) }) != nil, "n=%d: NewCommitment does not refuse entry %d off by %v", n, i, d)
					}
				}
				// the sum at another place, sums of fewer entries
				w := copyVec(v)
				w[0], w[n-1] = w[n-1], w[0]
				if new(big.Int).Mod(inner(w, signs(n)), q).Sign() != 0 {
					W := sumCommit(P, w, r)
					_, f := sum.NewArgument(P, W, w, r)
					c.Check(f.Verify(P, &sum.Argument{V: W}) != nil, "n=%d: accepted with the sum in the first entry", n)
				}
				w = copyVec(v)
				w[n-1] = negZ(w[n-1])
				if zint(w[n-1]).Sign() != 0 {
					W := sumCommit(P, w, r)
					_, f := sum.NewArgument(P, W, w, r)
					c.Check(f.Verify(P, &sum.Argument{V: W}) != nil, "n=%d: accepted with the negated sum", n)
				}
				// altered proofs
				_, other := sum.NewArgument(P, sumCommit(P, v2, r), v2, r)
				tamper(c, fmt.Sprintf("sum argument n=%d", n), proof, other, func(s Slot) bool { return redundant(s, -1) }, p.Pick(60, 0), func() error { return proof.Verify(P, arg) })
			})
		}
	}
	add("wrapping", false, func(c *Ctx) {
		P := sum.NewPublicParams(4)
		for _, v := range []common.Vec{
			{zrBig(new(big.Int).Sub(q, big.NewInt(1))), zr(1), zr(0), zr(0)},
			{zrBig(new(big.Int).Sub(q, big.NewInt(1))), zrBig(new(big.Int).Sub(q, big.NewInt(1))), zr(5), zr(3)},
			{zr(max63), zr(max63), zr(max63), zrBig(new(big.Int).Mul(big.NewInt(max63), big.NewInt(3)))},
			{zr(-5), zr(3), zr(2), zr(0)}, {curve.NewZrFromInt(-5), zr(7), zr(0), zr(2)}, {curve.NewZrFromInt(-5), zr(3), zr(0), curve.NewZrFromInt(-2)},
			{zr(1).Plus(zrBig(new(big.Int).Sub(q, big.NewInt(1)))), zr(0), zr(0), zr(0)},
		} {
			r := randZr(c.R)
			arg := sum.NewCommitment(P, v, r)
			_, proof := sum.NewArgument(P, arg.V, v, r)
			err := proof.Verify(P, arg)
			c.Check(err == nil, "honest argument for %s rejected: %v", strs(v), err)
			pr := sum.NewAggregatedArgument(P, common.G1v{arg.V, arg.V}, []common.Vec{v, v}, common.Vec{r, r})
			c.Check(pr.VerifyAggregated(P, common.G1v{arg.V, arg.V}) == nil, "honest aggregated argument for %s twice rejected", strs(v))
			c.Distinct("wrap %s", strs(v))
		}
	})
	for h, m := range []int{1, 2, 3, 4, 5, 7, 8, 16, 17, 40, 130, 300} {
		m, h := m, h
		n := []int{4, 8, 2, 16}[h%4]
		add(fmt.Sprintf("aggregated/%d", m), false, func(c *Ctx) {
			P := sum.NewPublicParams(n)
			for round := 0; round < p.Pick(1, 5) && !c.failed(); round++ {
				aggregatedSums(c, P, n, m)
			}
		})
	}
	for _, n := range []int{2, 4, 8} {
		n := n
		add(fmt.Sprintf("forgeries/%d", n), false, func(c *Ctx) { sumForgeries(c, n) })
	}
	add("transcript", true, func(c *Ctx) {
		P := sum.NewPublicParams(4)
		mk := func() (*sum.Argument, *sum.Proof) {
			v, r := sumVec(c.R, 4, zero), randZr(c.R)
			return sum.NewArgument(P, sumCommit(P, v, r), v, r)
		}
		arg, proof := mk()
		arg2, proof2 := mk()
		honest := digestsOf(func() { proof.Verify(P, arg) })
		constant := both(honest, digestsOf(func() { proof2.Verify(P, arg2) }))
		if len(without(honest, constant)) == 0 {
			c.Skip("no digests observed")
			return
		}
		for _, s := range append(elements(proof), elements(arg)...) {
			switch s.Path {
			case ".c", ".W", ".V":
			default:
				continue
			}
			a := alter(s, nil)[0]
			a.set()
			altered := digestsOf(func() { proof.Verify(P, arg) })
			a.undo()
			left := both(without(honest, constant), altered)
			c.Check(len(left) == 0, "%d challenges or their inputs do not depend on %s of the sum argument", len(left), s.Path)
			c.Saw("digests compared", len(honest))
			c.Distinct("transcript %s", s.Path)
		}
	})
	return cases
}

func signs(n int) common.Vec {
	b := make(common.Vec, n)
	for i := range b {
		b[i] = zr(1)
	}
	b[n-1] = zr(-1)
	return b
}

func aggregatedSums(c *Ctx, P *sum.PP, n, m int) {
	vs, Vs, rs := make([]common.Vec, m), make(common.G1v, m), make(common.Vec, m)
	for i := range vs {
		vs[i], rs[i] = sumVec(c.R, n, new(big.Int)), zrBig(edgeScalars(c.R))
		Vs[i] = sumCommit(P, vs[i], rs[i])
	}
	proof := sum.NewAggregatedArgument(P, Vs, vs, rs)
	err := proof.VerifyAggregated(P, Vs)
	c.Check(err == nil, "n=%d: honest aggregated argument of %d vectors rejected: %v", n, m, err)
	c.Check(proof.VerifyAggregated(P, Vs) == nil, "n=%d: honest aggregated argument of %d vectors rejected the second time", n, m)
	c.Distinct("agg %d %d %x", n, m, Vs.Bytes()[:32])
	c.Sample("%d vectors of length %d", m, n)
	// deviations: positions and amounts
	deviate := func(what string, pos []int, by []int64) {
		ws, Ws := append([]common.Vec{}, vs...), append(common.G1v{}, Vs...)
		for k, i := range pos {
			w := copyVec(ws[i])
			j := c.R.Intn(n)
			d := by[k]
			if j == n-1 {
				d = -d
			}
			w[j] = zrBig(new(big.Int).Add(zint(w[j]), big.NewInt(d)))
			ws[i], Ws[i] = w, sumCommit(P, w, rs[i])
		}
		f := sum.NewAggregatedArgument(P, Ws, ws, rs)
		c.Saw("false batches judged", 1)
		c.Distinct("dev %d %d %v %v", n, m, pos, by)
		c.Check(f.VerifyAggregated(P, Ws) != nil, "n=%d: an aggregated argument of %d vectors is accepted although %s", n, m, what)
		c.Check(proof.VerifyAggregated(P, Ws) != nil, "n=%d: the honest argument is accepted for other commitments (%s)", n, what)
	}
	positions := []int{0, m - 1, m / 2, c.R.Intn(m)}
	if m <= 8 {
		positions = c.R.Perm(m)
	}
	for _, i := range positions {
		deviate(fmt.Sprintf("vector %d is off by one", i), []int{i}, []int64{1})
		deviate(fmt.Sprintf("vector %d is off", i), []int{i}, []int64{c.R.Int63()})
	}
	if m > 1 {
		for t := 0; t < 5; t++ {
			i, j := c.R.Intn(m), c.R.Intn(m)
			if t == 0 {
				i, j = 0, 1
			}
			if t == 1 {
				i, j = 0, m-1
			}
			if i == j {
				continue
			}
			deviate(fmt.Sprintf("vectors %d, %d are off by +1, -1", i, j), []int{i, j}, []int64{1, -1})
			deviate(fmt.Sprintf("vectors %d, %d are off in proportion to the other's position", i, j), []int{i, j}, []int64{int64(j + 1), -int64(i + 1)})
			deviate(fmt.Sprintf("vectors %d, %d are off in proportion to the other's position from 0", i, j), []int{i, j}, []int64{int64(j), -int64(i)})
			if i < 40 && j < 40 {
				deviate(fmt.Sprintf("vectors %d, %d are off by powers of two", i, j), []int{i, j}, []int64{1 << uint(j), -(1 << uint(i))})
			}
		}
		for _, period := range []int{2, 16, 64, 128, 256} {
			if m > period {
				i := c.R.Intn(m - period)
				deviate(fmt.Sprintf("vectors %d, %d are off by +1, -1", i, i+period), []int{i, i + period}, []int64{1, -1})
			}
		}
		if m > 2 {
			deviate("three vectors compensate", []int{0, 1, 2}, []int64{1, -2, 1})
			deviate("three vectors compensate", []int{0, 1, 2}, []int64{1, 1, -2})
		}
		// other lists of commitments
		reject := func(what string, Ws common.G1v) {
			var err error
			pn := catch(func() { err = proof.VerifyAggregated(P, Ws) })
			c.Check(pn != nil || err != nil, "n=%d: the argument of %d vectors is accepted for %s", n, m, what)
		}
		i := c.R.Intn(m)
		j := (i + 1) % m
		if !Vs[i].Equals(Vs[j]) {
			Ws := append(common.G1v{}, Vs...)
			Ws[i], Ws[j] = Ws[j], Ws[i]
			reject("exchanged commitments", Ws)
		}
		reject("the first commitments only", Vs[:m-1])
		reject("the last commitments only", Vs[1:])
		reject("one more commitment", append(append(common.G1v{}, Vs...), Vs[0]))
		Ws := append(common.G1v{}, Vs...)
		Ws[i] = plusG(Ws[i], P.Gs[0])
		reject("a shifted commitment", Ws)
		Ws = append(common.G1v{}, Vs...)
		Ws[i] = plusG(Ws[i], P.F)
		reject("a rerandomised commitment", Ws)
		// compensating changes of the commitments
		Ws = append(common.G1v{}, Vs...)
		Ws[i], Ws[j] = plusG(Ws[i], P.Gs[0]), minusG(Ws[j], P.Gs[0])
		reject("compensating shifts of commitments", Ws)
	}
}

// sumForgeries solves the verifier's equation for each element in turn, with
// every challenge that does not depend on it.
func sumForgeries(c *Ctx, n int) {
	P := sum.NewPublicParams(n)
	b := signs(n)
	ipaPP := &bp.PP{G: P.Gs, H: P.H, U: P.U}
	ipaPP.RecomputeDigest()
	// attempt assembles a proof for commitment V of v from w, c and x
	build := func(v, w common.Vec, r, r2, cc, x *math.Zr) (*sum.Argument, *sum.Proof) {
		V, W := sumCommit(P, v, r), sumCommit(P, w, r2)
		a := make(common.Vec, n)
		for i := range a {
			a[i] = addZ(v[i], mulZ(w[i], x))
		}
		_, proof := sum.NewArgument(P, V, v, r)
		π := bp.NewInnerProdArgument(ipaPP, a, b).Prove()
		setZr(proof, ".c", cc)
		setZr(proof, ".ρ", negZ(addZ(r, mulZ(r2, x))))
		setG1(proof, ".W", W)
		s := find(proof, ".π")
		if s == nil {
			panic(skipCase("no inner product proof"))
		}
		s.V.Set(reflectOf(π))
		return &sum.Argument{V: V}, proof
	}
	calibrated := false
	for round := 0; round < 4; round++ {
		v, w := sumVec(c.R, n, new(big.Int)), randVec(c.R, n)
		r, r2 := randZr(c.R), randZr(c.R)
		d := zrBig(inner(w, b))
		// honest: the challenge is known once everything is fixed
		arg, proof := build(v, w, r, r2, d, zr(1))
		for _, x := range challenges(func() { proof.Verify(P, arg) }) {
			a, pr := build(v, w, r, r2, d, x)
			if pr.Verify(P, a) == nil {
				calibrated = true
			}
		}
		δ := zrBig(big.NewInt(1 + c.R.Int63()))
		try := func(what string, f func(x *math.Zr) (*sum.Argument, *sum.Proof), dummy *sum.Argument, dp *sum.Proof) {
			for _, x := range challenges(func() { dp.Verify(P, dummy) }) {
				if zint(x).Sign() == 0 {
					continue
				}
				a, pr := f(x)
				c.Saw("forgeries attempted", 1)
				c.Distinct("%s %d %s", what, n, x.String())
				c.Check(pr.Verify(P, a) != nil, "n=%d: an argument for a vector that does not end in its sum is accepted: %s chosen after the challenge", n, what)
			}
		}
		bad := copyVec(v)
		bad[0] = addZ(bad[0], δ) // <bad, b> = δ
		if n == 1 {
			continue
		}
		da, dp := build(bad, w, r, r2, zr(7), zr(1))
		try("c", func(x *math.Zr) (*sum.Argument, *sum.Proof) {
			return build(bad, w, r, r2, addZ(d, mulZ(δ, invZ(x))), x)
		}, da, dp)
		cc := randZr(c.R)
		da, dp = build(bad, w, r, r2, cc, zr(1))
		try("V", func(x *math.Zr) (*sum.Argument, *sum.Proof) {
			u := copyVec(v)
			u[0] = addZ(u[0], mulZ(x, subZ(cc, d)))
			return build(u, w, r, r2, cc, x)
		}, da, dp)
		try("W", func(x *math.Zr) (*sum.Argument, *sum.Proof) {
			u := copyVec(w)
			u[0] = addZ(u[0], subZ(subZ(cc, mulZ(δ, invZ(x))), d))
			return build(bad, u, r, r2, cc, x)
		}, da, dp)
		// aggregation: deviations fitted to the weights
		for m := 2; m <= 4; m++ {
			vs, Vs, rs := make([]common.Vec, m), make(common.G1v, m), make(common.Vec, m)
			for i := range vs {
				vs[i], rs[i] = sumVec(c.R, n, new(big.Int)), randZr(c.R)
			}
			for i := 0; i < m; i++ { // the one chosen last
				for j := 0; j < m; j++ {
					if i == j {
						continue
					}
					vs2 := append([]common.Vec{}, vs...)
					w := copyVec(vs[j])
					w[0] = addZ(w[0], δ)
					vs2[j] = w
					commitAll := func() {
						for k := range vs2 {
							Vs[k] = sumCommit(P, vs2[k], rs[k])
						}
					}
					commitAll()
					dp := sum.NewAggregatedArgument(P, Vs, vs2, rs)
					for _, τ := range challenges(func() { dp.VerifyAggregated(P, Vs) }) {
						// δ τ^j + ε τ^i = 0
						ε := negZ(mulZ(δ, mulZ(powZ(τ, j), invZ(powZ(τ, i)))))
						u := copyVec(vs[i])
						u[0] = addZ(u[0], ε)
						vs2[i] = u
						commitAll()
						f := sum.NewAggregatedArgument(P, Vs, vs2, rs)
						c.Saw("forgeries attempted", 1)
						c.Check(f.VerifyAggregated(P, Vs) != nil, "n=%d: an aggregated argument of %d vectors is accepted: deviations of vectors %d and %d fitted to the weights", n, m, j, i)
						vs2[i] = vs[i]
						commitAll()
					}
				}
			}
		}
	}
	if !calibrated {
		c.Skip("the forger cannot even make honest proofs")
	}
	c.Sample("n=%d: calibrated=%v", n, calibrated)
}

func powZ(x *math.Zr, n int) *math.Zr {
	return zrBig(new(big.Int).Exp(zint(x), big.NewInt(int64(n)), q))
}
