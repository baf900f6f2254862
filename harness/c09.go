package main

import (
	realsha "crypto/sha256"
	"fmt"
	"math/big"
	mrand "math/rand"

	"pol/common"
	"pol/pp"

	math "github.com/IBM/mathlib"
)

func init() {
	register(&Property{
		ID:    "C09",
		Rule:  "Vectors of every length from 2 to 40 (and 130, 258) with edge entries are committed, opened at every (or sampled) index, updated and aggregated (up to 300 openings, repeated indices and commitments included); the committed vector is the oracle for every claim, true or false. distinct = (length, vector, index, claim) claims judged.",
		Cases: c09Cases,
	})
}

func ppCommitRef(P *pp.PP, m common.Vec) *math.G1 { return msm(P.G1s, m) }

func c09Vec(r *mrand.Rand, n int) common.Vec {
	m := make(common.Vec, n)
	kind := r.Intn(4)
	for i := range m {
		switch kind {
		case 0:
			m[i] = zrBig(edgeScalars(r))
		case 1: // mostly zeros
			m[i] = zr(0)
			if r.Intn(3) == 0 {
				m[i] = zr(r.Int63())
			}
		case 2: // repeated entries
			m[i] = zr(int64(r.Intn(3)))
		default:
			m[i] = randZr(r)
		}
	}
	return m
}

func isZeroVec(m common.Vec) bool {
	for i := range m {
		if zint(m[i]).Sign() != 0 {
			return false
		}
	}
	return true
}

// wrongValues are values other than x.
func wrongValues(r *mrand.Rand, x *math.Zr, others common.Vec) []*math.Zr {
	n := zint(x)
	cand := []*big.Int{new(big.Int).Add(n, big.NewInt(1)), new(big.Int).Sub(n, big.NewInt(1)), new(big.Int).Neg(n), big.NewInt(0), new(big.Int).Lsh(n, 1), randBig(r),
		new(big.Int).Add(n, new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(253)))), new(big.Int).Add(n, new(big.Int).Lsh(big.NewInt(1), 64))}
	for k := 0; k < 2 && len(others) > 0; k++ {
		cand = append(cand, zint(others[r.Intn(len(others))]))
	}
	var res []*math.Zr
	for _, w := range cand {
		if new(big.Int).Mod(w, q).Cmp(n) != 0 {
			res = append(res, zrBig(w))
		}
	}
	// a negative number as the library represents it
	if k := new(big.Int).Neg(n); n.Sign() > 0 && n.IsInt64() && k.IsInt64() {
		res = append(res, curve.NewZrFromInt(k.Int64()))
	}
	return res
}

func c09Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, f func(*Ctx)) { cases = append(cases, Case{Name: name, Run: f}) }
	var lengths []int
	for n := 2; n <= 12; n++ {
		lengths = append(lengths, n)
	}
	lengths = append(lengths, 16, 17, 31, 33, 40, 130)
	if p.Thorough {
		lengths = append(lengths, 5, 9, 65, 258, 513)
	} else {
		lengths = append(lengths, 258)
	}
	for k, n := range lengths {
		n := n
		add(fmt.Sprintf("openings/%d/%d", n, k), func(c *Ctx) {
			P := pp.NewPublicParams(n)
			rounds := p.Pick(3, 12)
			if n > 50 {
				rounds = p.Pick(1, 2)
			}
			for round := 0; round < rounds && !c.failed(); round++ {
				m := c09Vec(c.R, n)
				if round == 0 {
					m = randVec(c.R, n)
				}
				before := strs(m)
				C := pp.Commit(P, m)
				c.Check(C.Equals(ppCommitRef(P, m)), "n=%d: Commit(%s) is not the product of the powers", n, before)
				m2 := c09Vec(c.R, n)
				C2 := pp.Commit(P, m2)
				idx := c.R.Perm(n)
				if n > 12 {
					idx = append([]int{0, n - 1, n - 2}, idx[:5]...)
				}
				for _, i := range idx {
					mi, π := pp.Open(P, i, m)
					c.Distinct("%d %s %d", n, before, i)
					c.Check(eqZ(mi, m[i]), "n=%d: opening at %d gives %s instead of %s", n, i, mi, m[i])
					c.Check(pp.Verify(P, mi, π, C, i) == nil, "n=%d: the opening of %s at %d is rejected", n, before, i)
					// the same value, represented differently
					c.Check(pp.Verify(P, zrBig(zint(m[i])), π, C, i) == nil, "n=%d: the opening at %d is rejected for the reduced value", n, i)
					for _, w := range wrongValues(c.R, m[i], m) {
						c.Saw("wrong values judged", 1)
						c.Check(pp.Verify(P, w, π, C, i) != nil, "n=%d: the opening of %s at %d is accepted for %s", n, before, i, w.String())
					}
					if isZeroVec(m) {
						continue
					}
					for _, j := range []int{(i + 1) % n, c.R.Intn(n), n - 1 - i, (i + n - 1) % n} {
						if j != i {
							c.Check(pp.Verify(P, mi, π, C, j) != nil, "n=%d: the opening of %s at %d is accepted at %d", n, before, i, j)
							c.Check(pp.Verify(P, m[j], π, C, j) != nil, "n=%d: the opening of %s at %d is accepted at %d for the value there", n, before, i, j)
						}
					}
					for name, X := range map[string]*math.G1{"another": C2, "shifted": plusG(C, curve.GenG1), "zero": inf(), "negated": minusG(inf(), C), "doubled": plusG(C, C)} {
						if X.Equals(C) {
							continue
						}
						c.Check(pp.Verify(P, mi, π, X, i) != nil, "n=%d: the opening at %d is accepted for %s commitment", n, i, name)
					}
					for name, X := range map[string]*math.G1{"zero": inf(), "shifted": plusG(π, curve.GenG1), "negated": minusG(inf(), π), "commitment": C} {
						if X.Equals(π) {
							continue
						}
						c.Check(pp.Verify(P, mi, X, C, i) != nil, "n=%d: an altered opening (%s) at %d is accepted", n, name, i)
					}
				}
				forge(c, P, m, C, n)
				c.Check(strs(m) == before, "n=%d: operations changed the vector", n)
				if round == 0 {
					c.Sample("n=%d: %s", n, clip(before, 120))
				}
				// updates
				cur := copyVec(m)
				for u := 0; u < 8; u++ {
					i := c.R.Intn(n)
					if u == 0 {
						i = n - 1
					}
					nv := zrBig(edgeScalars(c.R))
					if u == 3 {
						nv = cur[i].Copy()
					}
					b := strs(cur)
					pp.Update(P, C, cur, nv, i)
					c.Check(strs(cur) == b, "n=%d: Update changed the vector", n)
					cur[i] = nv
					c.Check(C.Equals(ppCommitRef(P, cur)) && C.Equals(pp.Commit(P, cur)), "n=%d: update %d (index %d) does not lead to the commitment of the updated vector", n, u, i)
				}
				// to and from vectors of nothing, and of one entry
				few := make0(n)
				X := pp.Commit(P, few)
				for u := 0; u < 12; u++ {
					i := c.R.Intn(n)
					nv := []*math.Zr{zr(0), zr(1), zr(c.R.Int63()), zr(7), zr(0)}[c.R.Intn(5)]
					if u%3 == 1 { // the only entry is exchanged for another
						for k := range few {
							if zint(few[k]).Sign() != 0 {
								i, nv = k, zr(1+c.R.Int63())
							}
						}
					}
					if u == 8 { // back to nothing
						for k := range few {
							pp.Update(P, X, few, zr(0), k)
							few[k] = zr(0)
						}
					}
					pp.Update(P, X, few, nv, i)
					few[i] = nv
					if !c.Check(X.Equals(ppCommitRef(P, few)), "n=%d: after update %d (index %d) of a vector of few entries the commitment is not that of %s", n, u, i, clip(strs(few), 200)) {
						break
					}
				}
				i := c.R.Intn(n)
				mi, π := pp.Open(P, i, cur)
				c.Check(pp.Verify(P, mi, π, C, i) == nil, "n=%d: the updated commitment does not open", n)
				if !eqZ(m[i], cur[i]) {
					c.Check(pp.Verify(P, m[i], π, C, i) != nil, "n=%d: the updated commitment opens to the old value", n)
				}
			}
			c.Check(catch(func() { pp.Commit(P, make0(n+1)) }) != nil && catch(func() { pp.Commit(P, make0(n-1)) }) != nil && catch(func() { pp.Open(P, n, make0(n)) }) != nil,
				"n=%d: vectors of another length or an index beyond the vector are not refused", n)
		})
	}
	add("secret", func(c *Ctx) {
		// whoever knows the exponent opens commitments to anything
		for _, n := range []int{2, 3, 5, 8, 17} {
			var drawn []string
			for k := 0; k < p.Pick(4, 12); k++ {
				P := pp.NewPublicParams(n)
				g := P.G1s[0]
				s := string(g.Bytes())
				for _, o := range drawn {
					if !c.Check(o != s, "n=%d: two set-ups drew the same secret", n) {
						return
					}
				}
				drawn = append(drawn, s)
				acc := inf()
				for e := 0; e < p.Pick(600, 50000); e++ {
					if acc.Equals(g) || minusG(inf(), acc).Equals(g) {
						c.Fail("n=%d: the secret exponent is +-%d", n, e)
						return
					}
					acc.Add(curve.GenG1)
				}
				pw := curve.GenG1.Copy()
				for e := 0; e < 254; e++ {
					if !c.Check(!pw.Equals(g), "n=%d: the secret exponent is 2^%d", n, e) {
						return
					}
					pw = plusG(pw, pw)
				}
				for _, x := range []int64{int64(n), int64(n + 1)} {
					d := realsha.Sum256([]byte(fmt.Sprint(x)))
					h := zrBig(new(big.Int).SetBytes(d[:]))
					c.Check(!curve.GenG1.Mul(h).Equals(g), "n=%d: the secret exponent is a hash of the length", n)
				}
				c.Distinct("secret %x", s)
			}
		}
	})
	for h, K := range []int{1, 2, 2, 3, 4, 5, 8, 16, 33, 64, 260, 300} {
		h, K := h, K
		n := []int{2, 3, 5, 8, 5, 17}[h%6]
		add(fmt.Sprintf("aggregation/%d/%d", K, h), func(c *Ctx) {
			P := pp.NewPublicParams(n)
			for round := 0; round < p.Pick(1, 5) && !c.failed(); round++ {
				aggregation(c, P, n, K)
			}
		})
	}
	add("signs", func(c *Ctx) {
		// small weights of the caller's choice, and aggregated values below zero
		P := pp.NewPublicParams(5)
		ro := func(_ *pp.PP, _ []*math.G1, i int) *math.Zr { return zr(int64(i + 1)) }
		for round := 0; round < p.Pick(20, 200); round++ {
			k := 1 + c.R.Intn(4)
			cs, πs, idx := make(common.G1v, k), make([]*math.G1, k), make([]int, k)
			s := int64(0)
			for j := range cs {
				m := make(common.Vec, 5)
				for i := range m {
					m[i] = zr(c.R.Int63n(1 << 40))
				}
				idx[j] = c.R.Intn(5)
				cs[j] = pp.Commit(P, m)
				var mi *math.Zr
				mi, πs[j] = pp.Open(P, idx[j], m)
				s += zint(mi).Int64() * int64(j+1)
			}
			π := pp.Aggregate(P, cs, πs, ro)
			c.Check(pp.VerifyAggregation(P, idx, cs, π, curve.NewZrFromInt(s), ro) == nil, "an honest aggregation with small weights is rejected")
			if s != 0 {
				c.Check(pp.VerifyAggregation(P, idx, cs, π, curve.NewZrFromInt(-s), ro) != nil, "the aggregated value -%d is accepted instead of %d", s, s)
			}
			c.Distinct("signs %d", s)
		}
	})
	add("weights", func(c *Ctx) {
		P := pp.NewPublicParams(4)
		seen := map[string]int{}
		cs, _ := gvec(c.R, 3)
		n := p.Pick(3000, 70000)
		for i := 0; i < n; i++ {
			w := pp.RO(P, cs, i).String()
			if j, ok := seen[w]; ok {
				c.Fail("the weights of positions %d and %d are the same", j, i)
				return
			}
			seen[w] = i
		}
		c.EvalN(n)
		for _, k := range []int{1, 2, 3, 4, 5, 9, 17, 33, 65, 130, 260} {
			cs, _ := gvec(c.R, k)
			for _, i := range c.R.Perm(k)[:min(k, 5)] {
				w := pp.RO(P, cs, i)
				c.Check(w.Equals(pp.RO(P, cs, i)), "weight %d is not deterministic", i)
				for j := 0; j < k; j++ {
					d := append(common.G1v{}, cs...)
					d[j] = plusG(cs[j], curve.GenG1)
					c.Check(!w.Equals(pp.RO(P, d, i)), "weight %d of %d does not depend on commitment %d", i, k, j)
				}
				if k > 1 {
					d := append(common.G1v{}, cs...)
					d[0], d[1] = d[1], d[0]
					if !d[0].Equals(d[1]) {
						c.Check(!w.Equals(pp.RO(P, d, i)), "weight %d of %d does not depend on the order of commitments", i, k)
					}
				}
			}
		}
		c.Distinct("weights %d", n)
	})
	return cases
}

func aggregation(c *Ctx, P *pp.PP, n, K int) {
	ms := make([]common.Vec, K)
	cs := make(common.G1v, K)
	idx := make([]int, K)
	vals := make(common.Vec, K)
	πs := make([]*math.G1, K)
	for k := 0; k < K; k++ {
		idx[k] = c.R.Intn(n)
		if k > 0 && c.R.Intn(4) == 0 { // another opening of the same commitment
			ms[k], cs[k] = ms[k-1], cs[k-1]
			idx[k] = (idx[k-1] + 1) % n
		} else {
			ms[k] = c09Vec(c.R, n)
			cs[k] = pp.Commit(P, ms[k])
		}
		vals[k], πs[k] = pp.Open(P, idx[k], ms[k])
	}
	before := string(cs.Bytes()) + fmt.Sprint(idx) + strs(vals)
	sigma := func(vals common.Vec, cs common.G1v) *math.Zr {
		s := new(big.Int)
		for k := range vals {
			s.Add(s, new(big.Int).Mul(zint(vals[k]), zint(pp.RO(P, cs, k))))
		}
		return zrBig(s)
	}
	π := pp.Aggregate(P, cs, πs, pp.RO)
	Σ := sigma(vals, cs)
	c.Check(pp.VerifyAggregation(P, idx, cs, π, Σ, pp.RO) == nil, "an honest aggregation of %d openings is rejected", K)
	c.Distinct("agg %d %d %s", n, K, before)
	// values as claimed by someone else
	claim := func(what string, v common.Vec) {
		c.Saw("false aggregated claims judged", 1)
		c.Check(pp.VerifyAggregation(P, idx, cs, π, sigma(v, cs), pp.RO) != nil, "an aggregation of %d openings is accepted for other values: %s", K, what)
	}
	shift := func(ks []int, by []int64) common.Vec {
		v := append(common.Vec{}, vals...)
		for i, k := range ks {
			v[k] = zrBig(new(big.Int).Add(zint(v[k]), big.NewInt(by[i])))
		}
		return v
	}
	for t := 0; t < 8 && t < 2*K; t++ {
		k := c.R.Intn(K)
		if t < 2 {
			k = []int{0, K - 1}[t]
		}
		claim(fmt.Sprintf("one more at %d", k), shift([]int{k}, []int64{1}))
		claim(fmt.Sprintf("shifted by 2^40 at %d", k), shift([]int{k}, []int64{1 << 40}))
	}
	if K > 1 {
		for t := 0; t < 6; t++ {
			i, j := c.R.Intn(K), c.R.Intn(K)
			if t < 2 {
				i, j = 0, []int{1, K - 1}[t]
			}
			if i == j {
				continue
			}
			claim(fmt.Sprintf("+1 at %d, -1 at %d", i, j), shift([]int{i, j}, []int64{1, -1}))
			// weights proportional to the position, or to powers
			claim(fmt.Sprintf("linear shift at %d, %d", i, j), shift([]int{i, j}, []int64{int64(j + 1), -int64(i + 1)}))
			claim(fmt.Sprintf("linear shift from 0 at %d, %d", i, j), shift([]int{i, j}, []int64{int64(j), -int64(i)}))
			if i != j && !eqZ(vals[i], vals[j]) {
				v := append(common.Vec{}, vals...)
				v[i], v[j] = v[j], v[i]
				claim(fmt.Sprintf("exchanged values %d and %d", i, j), v)
			}
		}
		for _, period := range []int{2, 16, 64, 127, 128, 255, 256} {
			if K > period {
				i := c.R.Intn(K - period)
				claim(fmt.Sprintf("+1 at %d, -1 at %d", i, i+period), shift([]int{i, i + period}, []int64{1, -1}))
			}
		}
		// three positions
		if K > 2 {
			claim("+1 -2 +1", shift([]int{0, 1, 2}, []int64{1, -2, 1}))
		}
		// other commitments, indices, orders
		for t := 0; t < 4; t++ {
			k := c.R.Intn(K)
			cs2 := append(common.G1v{}, cs...)
			cs2[k] = plusG(cs[k], P.G1s[c.R.Intn(n)])
			c.Check(pp.VerifyAggregation(P, idx, cs2, π, sigma(vals, cs2), pp.RO) != nil && pp.VerifyAggregation(P, idx, cs2, π, Σ, pp.RO) != nil, "an aggregation is accepted for another commitment %d", k)
			if !isZeroVec(ms[k]) {
				idx2 := append([]int{}, idx...)
				idx2[k] = (idx[k] + 1 + c.R.Intn(n-1)) % n
				c.Check(pp.VerifyAggregation(P, idx2, cs, π, Σ, pp.RO) != nil, "an aggregation is accepted for another index %d", k)
			}
			j := (k + 1) % K
			if !cs[k].Equals(cs[j]) {
				cs3 := append(common.G1v{}, cs...)
				cs3[k], cs3[j] = cs3[j], cs3[k]
				c.Check(pp.VerifyAggregation(P, idx, cs3, π, Σ, pp.RO) != nil, "an aggregation is accepted with commitments %d and %d exchanged", k, j)
			}
		}
		// two commitments made to fit the weights
		for t := 0; t < 5; t++ {
			i, j := c.R.Intn(K), c.R.Intn(K)
			if t < 3 {
				i, j = []int{0, K - 2, 0}[t], []int{1, K - 1, K - 1}[t]
			}
			for k := 0; k < 200 && idx[i] != idx[j] && t > 0; k++ { // both among the last, or anywhere
				i, j = K-1-c.R.Intn((K+1)/2), K-1-c.R.Intn(K)
			}
			if i == j {
				continue
			}
			ti, tj := pp.RO(P, cs, i), pp.RO(P, cs, j)
			D := P.G1s[c.R.Intn(n)]
			cs2 := append(common.G1v{}, cs...)
			cs2[i], cs2[j] = plusG(cs[i], mulG(D, tj)), minusG(cs[j], mulG(D, ti))
			if idx[i] != idx[j] { // then the shifts do not cancel out
				continue
			}
			c.Check(pp.VerifyAggregation(P, idx, cs2, π, Σ, pp.RO) != nil && pp.VerifyAggregation(P, idx, cs2, π, sigma(vals, cs2), pp.RO) != nil, "an aggregation of %d is accepted for commitments %d and %d shifted by their weights", K, i, j)
			c.Saw("commitments shifted by their weights", 1)
		}
		// dropped openings whose value is not zero
		k := K - 1
		c.Check(catch(func() {
			if isZeroVec(ms[k]) {
				panic("trivial")
			}
			if pp.VerifyAggregation(P, idx[:k], cs[:k], π, sigma(vals[:k], cs[:k]), pp.RO) == nil {
				c.Fail("an aggregation of %d openings is accepted for the first %d", K, k)
			}
		}) == nil || isZeroVec(ms[k]), "verification of a shortened aggregation panics")
		// shifts made to fit the weights (known: weights do not bind claimed values)
		t0, t1 := zint(pp.RO(P, cs, 0)), zint(pp.RO(P, cs, 1))
		v := append(common.Vec{}, vals...)
		v[0] = zrBig(new(big.Int).Add(zint(v[0]), t1))
		v[1] = zrBig(new(big.Int).Sub(zint(v[1]), t0))
		c.Eval()
		if pp.VerifyAggregation(P, idx, cs, π, sigma(v, cs), pp.RO) == nil {
			c.KnownOrFail("pp-aggregation-linear-shift", "an aggregation of %d openings is accepted for values shifted by (t1, -t0), t being the weights", K)
		}
	}
	for j, g := range P.G1s {
		for _, s := range []int64{1, -1} {
			v := zrBig(new(big.Int).Add(zint(Σ), big.NewInt(s)))
			c.Check(pp.VerifyAggregation(P, idx, cs, plusG(π, g), v, pp.RO) != nil && pp.VerifyAggregation(P, idx, cs, minusG(π, g), v, pp.RO) != nil, "an aggregation adapted by parameter %d is accepted for the value changed by %d", j, s)
		}
	}
	for name, X := range map[string]*math.G1{"zero": inf(), "shifted": plusG(π, curve.GenG1), "negated": minusG(inf(), π)} {
		if !X.Equals(π) {
			c.Check(pp.VerifyAggregation(P, idx, cs, X, Σ, pp.RO) != nil, "an altered aggregated opening (%s) is accepted", name)
		}
	}
	for _, w := range wrongValues(c.R, Σ, nil) {
		c.Check(pp.VerifyAggregation(P, idx, cs, π, w, pp.RO) != nil, "an aggregation is accepted with the aggregated value %s instead of %s", w.String(), Σ.String())
	}
	c.Check(string(cs.Bytes())+fmt.Sprint(idx)+strs(vals) == before, "aggregation changed its inputs")
	if K > 1 {
		c.Check(catch(func() { pp.Aggregate(P, cs, πs[:K-1], pp.RO) }) != nil, "aggregating %d openings of %d commitments is not refused", K-1, K)
	}
	c.Sample("%d openings of vectors of length %d at %v", K, n, idx[:min(K, 6)])
}

// forge adapts an honest opening to other values with what the parameters publish. An
// opening of x at i for x+δ is the honest one less δ times g^(α^(n+1)), which must not be
// among the parameters, nor the generator or anything sums of the parameters give.
func forge(c *Ctx, P *pp.PP, m common.Vec, C *math.G1, n int) {
	js := c.R.Perm(len(P.G1s))
	if n > 12 {
		js = append([]int{n - 1, n, n + 1, 0, len(P.G1s) - 1}, js[:8]...)
	}
	for _, j := range js {
		if j >= len(P.G1s) {
			continue
		}
		i := c.R.Intn(n)
		mi, π := pp.Open(P, i, m)
		δ := zr(1)
		if c.R.Intn(2) == 0 {
			δ = zr(1 + c.R.Int63())
		}
		g := P.G1s[j].Mul(δ)
		for _, s := range []int{1, -1} {
			for what, X := range map[string]*math.G1{"less": minusG(π, g), "plus": plusG(π, g)} {
				v := zrBig(new(big.Int).Add(zint(mi), new(big.Int).Mul(big.NewInt(int64(s)), zint(δ))))
				c.Saw("forged openings judged", 1)
				if !c.Check(pp.Verify(P, v, X, C, i) != nil, "n=%d: the opening at %d %s %s times parameter %d is accepted for the value changed by it", n, i, what, δ, j) {
					return
				}
			}
		}
	}
}
