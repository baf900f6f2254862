package main

import (
	"fmt"
	"math/big"

	"pol/bp"
	"pol/common"

	math "github.com/IBM/mathlib"
)

func init() {
	register(&Property{
		ID:    "C13",
		Rule:  "Inner products and reductions of random, zero, sparse and edge vectors (lengths 1 to 64, reductions up to 128) must verify with the value big-integer arithmetic gives; wrong products, commitments, finals, altered elements, and forgeries fitted to every challenge that does not depend on what was fitted must be rejected. distinct = (kind, length, vectors or deviation).",
		Cases: c13Cases,
	})
}

func edgeVec(c *Ctx, n int) common.Vec {
	v := make(common.Vec, n)
	kind := c.R.Intn(5)
	for i := range v {
		switch kind {
		case 0:
			v[i] = zr(0)
		case 1:
			v[i] = zrBig(edgeScalars(c.R))
		case 2:
			v[i] = zr(int64(c.R.Intn(2)))
		case 3:
			v[i] = zr(0)
			if i == c.R.Intn(n) {
				v[i] = randZr(c.R)
			}
		default:
			v[i] = randZr(c.R)
		}
	}
	return v
}

func c13Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, serial bool, f func(*Ctx)) {
		cases = append(cases, Case{Name: name, Run: f, Serial: serial})
	}
	// as long as those in range proofs
	for _, n := range []int{4096, 1024, 256} {
		n := n
		add(fmt.Sprintf("long product/%d", n), false, func(c *Ctx) {
			P := bp.NewPublicParams(n)
			a, b := edgeVec(c, n), edgeVec(c, n)
			want := inner(a, b)
			proof := bp.NewInnerProdArgument(P, a, b).Prove()
			c.Check(zint(proof.C).Cmp(want) == 0, "n=%d: wrong product", n)
			c.Check(proof.Verify(P) == nil, "n=%d: honest product rejected", n)
			c.Distinct("long product %d %s", n, clip(strs(a)+strs(b), 500))
			x := *proof
			x.C = zrBig(new(big.Int).Add(want, big.NewInt(1)))
			c.Check(x.Verify(P) != nil, "n=%d: the product is accepted off by 1", n)
			for _, i := range []int{0, n / 2, n - 1, 255, c.R.Intn(n)} {
				x := *proof
				x.P = plusG(proof.P, P.G[i])
				c.Check(x.Verify(P) != nil, "n=%d: accepted for the commitment with entry %d of the first vector off by 1", n, i)
				x.P = plusG(proof.P, P.H[i])
				c.Check(x.Verify(P) != nil, "n=%d: accepted for the commitment with entry %d of the second vector off by 1", n, i)
				c.Distinct("long product %d off %d", n, i)
			}
			arg := bp.NewInnerProdArgument(P, a, b)
			arg.C = x.C
			c.Check(zint(x.C).Cmp(want) != 0 && arg.Prove().Verify(P) != nil, "n=%d: a proof made for a product off by 1 is accepted", n)
		})
	}
	for _, n := range []int{1, 2, 4, 8, 16, 32, 64, 128} {
		n := n
		for round := 0; round < p.Pick(3, 20); round++ {
			if n > 64 && (round > 0 && !p.Thorough || round > 2) {
				continue
			}
			add(fmt.Sprintf("product/%d/%d", n, round), false, func(c *Ctx) { oneProduct(c, n) })
			if n > 1 {
				add(fmt.Sprintf("reduction/%d/%d", n, round), false, func(c *Ctx) { oneReduction(c, n) })
			}
		}
	}
	for i := 0; i < p.Pick(3, 20); i++ {
		add(fmt.Sprintf("equal rounds/%d", i), false, equalRounds)
	}
	for _, n := range []int{1, 2, 4, 8} {
		n := n
		add(fmt.Sprintf("product forgeries/%d", n), false, func(c *Ctx) {
			for i := 0; i < p.Pick(2, 10) && !c.failed(); i++ {
				productForgeries(c, n)
			}
		})
		if n > 1 {
			add(fmt.Sprintf("reduction forgeries/%d", n), false, func(c *Ctx) {
				for i := 0; i < p.Pick(2, 10) && !c.failed(); i++ {
					reductionForgeries(c, n)
				}
			})
		}
	}
	return cases
}

func oneProduct(c *Ctx, n int) {
	P := bp.NewPublicParams(n)
	for round := 0; round < 2; round++ {
		a, b := edgeVec(c, n), edgeVec(c, n)
		before := strs(a) + strs(b)
		want := inner(a, b)
		arg := bp.NewInnerProdArgument(P, a, b)
		if !c.Check(zint(arg.C).Cmp(want) == 0, "n=%d: claimed product %s of %s, not %v", n, arg.C, before, want) {
			return
		}
		com := plusG(msm(P.G, a), msm(P.H, b))
		c.Check(arg.P.Equals(com), "n=%d: the commitment is not the one to %s", n, before)
		proof := arg.Prove()
		err := proof.Verify(P)
		c.Check(err == nil, "n=%d: honest product of %s rejected: %v", n, before, err)
		c.Check(proof.Verify(P) == nil, "n=%d: honest product rejected the second time", n)
		c.Check(zint(proof.C).Cmp(want) == 0 && proof.P.Equals(com), "n=%d: the proof is about another product or commitment", n)
		c.Check(strs(a)+strs(b) == before, "n=%d: the vectors changed", n)
		c.Distinct("product %d %s", n, before)
		c.Sample("n=%d: %s", n, clip(before, 120))
		// wrong claims, in the statement and by the prover
		for _, d := range []*big.Int{big.NewInt(1), big.NewInt(-1), new(big.Int).Lsh(big.NewInt(1), 64), randBig(c.R)} {
			wrong := zrBig(new(big.Int).Add(want, d))
			x := *proof
			x.C = wrong
			c.Check(x.Verify(P) != nil, "n=%d: the product is accepted off by %v", n, d)
			arg := bp.NewInnerProdArgument(P, a, b)
			arg.C = wrong
			c.Check(arg.Prove().Verify(P) != nil, "n=%d: a proof made for a product off by %v is accepted", n, d)
			for what, g := range map[string]*math.G1{"G0": P.G[0], "H0": P.H[0], "U": P.U, "G last": P.G[n-1]} {
				x := *proof
				x.P = plusG(com, mulG(g, zrBig(d)))
				c.Check(x.Verify(P) != nil, "n=%d: accepted for the commitment plus %v times %s", n, d, what)
				arg := bp.NewInnerProdArgument(P, a, b)
				arg.P = plusG(com, mulG(g, zrBig(d)))
				c.Check(arg.Prove().Verify(P) != nil, "n=%d: a proof made for the commitment plus %v times %s is accepted", n, d, what)
			}
			c.Distinct("product off %d %v", n, d)
		}
		a2, b2 := randVec(c.R, n), randVec(c.R, n)
		other := bp.NewInnerProdArgument(P, a2, b2).Prove()
		x := *proof
		x.P, x.C = other.P, other.C
		if !other.P.Equals(com) {
			c.Check(x.Verify(P) != nil, "n=%d: accepted for another commitment and product", n)
		}
		// a and b exchanged
		if !plusG(msm(P.G, b), msm(P.H, a)).Equals(com) {
			x = *proof
			x.P = plusG(msm(P.G, b), msm(P.H, a))
			c.Check(x.Verify(P) != nil, "n=%d: accepted with the vectors exchanged", n)
		}
		tamper(c, fmt.Sprintf("product n=%d", n), proof, other, nil, 40, func() error { return proof.Verify(P) })
		c.Check(proof.Verify(P) == nil, "n=%d: rejected after all", n)
	}
}

func reductionPP(n int) *bp.PP {
	pp := &bp.PP{G: common.RandGenVec(n, "reduction"), U: common.RandGenVec(1, "reduction U")[0]}
	pp.RecomputeDigest()
	return pp
}

// weighted is the combination of v the reduction with challenges xs stands for.
func weighted(v common.Vec, xs common.Vec) *big.Int {
	k := len(xs)
	s := new(big.Int)
	for i := range v {
		w := zint(v[i])
		for r := 0; r < k; r++ {
			if i>>uint(k-1-r)&1 == 1 {
				w.Mul(w, zint(xs[r])).Mod(w, q)
			}
		}
		s.Add(s, w)
	}
	return s.Mod(s, q)
}

type reduction struct {
	Δ [][3]*math.G1
	U *math.Zr
	V *math.G1
}

func oneReduction(c *Ctx, n int) {
	P := reductionPP(n)
	for round := 0; round < 2; round++ {
		v := edgeVec(c, n)
		before := strs(v)
		V := msm(P.G, v)
		Δ, xs, u := bp.IterativeReduce(P, v, V)
		c.Check(strs(v) == before && V.Equals(msm(P.G, v)), "n=%d: the vector or its commitment changed", n)
		c.Check(zint(u).Cmp(weighted(v, xs)) == 0, "n=%d: the reduction of %s is not the weighted combination", n, before)
		got, fin, err := bp.IterativeVerify(P, V, Δ, u)
		if !c.Check(err == nil, "n=%d: honest reduction of %s rejected: %v", n, before, err) {
			return
		}
		c.Check(eqZ(fin, u) && len(got) == len(xs), "n=%d: the verifier is left with another value", n)
		c.Check(zint(u).Cmp(weighted(v, got)) == 0, "n=%d: the verifier's weights of %s are not those of the reduction", n, before)
		_, _, err = bp.IterativeVerify(P, V, Δ, u)
		c.Check(err == nil, "n=%d: honest reduction rejected the second time", n)
		c.Distinct("reduction %d %s", n, before)
		verify := func(V *math.G1, Δ [][3]*math.G1, u *math.Zr) error {
			_, _, err := bp.IterativeVerify(P, V, Δ, u)
			return err
		}
		for _, d := range []*big.Int{big.NewInt(1), big.NewInt(-1), randBig(c.R), new(big.Int).Neg(zint(u)), new(big.Int).Lsh(big.NewInt(1), 128)} {
			if new(big.Int).Mod(d, q).Sign() == 0 {
				continue
			}
			c.Check(verify(V, Δ, zrBig(new(big.Int).Add(zint(u), d))) != nil, "n=%d: accepted with the final value off by %v", n, d)
			for i := 0; i < n; i += 1 + i {
				c.Check(verify(plusG(V, mulG(P.G[i], zrBig(d))), Δ, u) != nil, "n=%d: accepted for a commitment with entry %d off by %v", n, i, d)
				// a prover with the right vector and another commitment
				W := plusG(V, mulG(P.G[i], zrBig(d)))
				Δ2, _, u2 := bp.IterativeReduce(P, v, W)
				c.Check(verify(W, Δ2, u2) != nil, "n=%d: a reduction of another vector is accepted (entry %d off by %v)", n, i, d)
			}
			c.Distinct("reduction off %d %v", n, d)
		}
		c.Check(verify(inf(), Δ, u) != nil || V.IsInfinity(), "n=%d: accepted for the identity", n)
		c.Check(verify(V, Δ[:len(Δ)-1], u) != nil, "n=%d: accepted with the last step missing", n)
		c.Check(verify(V, append(append([][3]*math.G1{}, Δ...), Δ[0]), u) != nil, "n=%d: accepted with a surplus step", n)
		v2 := randVec(c.R, n)
		V2 := msm(P.G, v2)
		Δ2, _, u2 := bp.IterativeReduce(P, v2, V2)
		red, other := &reduction{Δ, u, V}, &reduction{Δ2, u2, V2}
		tamper(c, fmt.Sprintf("reduction n=%d", n), red, other, nil, 60, func() error { return verify(red.V, red.Δ, red.U) })
		for k := range Δ {
			Δ3 := append([][3]*math.G1{}, Δ...)
			Δ3[k] = Δ2[k]
			c.Check(verify(V, Δ3, u) != nil, "n=%d: accepted with step %d of another reduction", n, k)
		}
		c.Check(verify(V, Δ2, u2) != nil, "n=%d: another reduction is accepted", n)
		c.Check(verify(V, Δ, u) == nil, "n=%d: rejected after all", n)
	}
}

func nonZero(xs []*math.Zr) []*math.Zr {
	var res []*math.Zr
	seen := map[string]bool{}
	for _, x := range xs {
		if zint(x).Sign() != 0 && !seen[x.String()] {
			seen[x.String()] = true
			res = append(res, x)
		}
	}
	return res
}

// productForgeries lets the prover fit the commitment, the product and every
// round element to the challenges a proof with something else in that place leads to.
func productForgeries(c *Ctx, n int) {
	P := bp.NewPublicParams(n)
	a, b := randVec(c.R, n), randVec(c.R, n)
	com, prod := plusG(msm(P.G, a), msm(P.H, b)), zrBig(inner(a, b))
	δ := zr(1 + c.R.Int63())
	make1 := func(X *math.G1, claim *math.Zr) *bp.InnerProductProof {
		arg := bp.NewInnerProdArgument(P, a, b)
		arg.P, arg.C = X, claim
		return arg.Prove()
	}
	try := func(what string, proof *bp.InnerProductProof) {
		c.Saw("forgeries attempted", 1)
		c.Distinct("forged product %d %s %x", n, what, proof.P.Bytes()[:8])
		c.Check(proof.Verify(P) != nil, "n=%d: a wrong product is accepted: %s chosen after the challenge", n, what)
	}
	claim := addZ(prod, δ)
	dummy := make1(plusG(com, P.U), claim)
	xs := nonZero(challenges(func() { dummy.Verify(P) }))
	c.Saw("challenges tried", len(xs))
	for _, x := range xs {
		try("the commitment", make1(minusG(com, mulG(P.U, mulZ(x, δ))), claim))
	}
	X := minusG(com, mulG(P.U, δ))
	dummy = make1(X, randZr(c.R))
	for _, x := range nonZero(challenges(func() { dummy.Verify(P) })) {
		try("the product", make1(X, addZ(prod, mulZ(δ, invZ(x)))))
		// the claim multiplied by the challenge rather than divided by it
		try("the product", make1(X, addZ(prod, mulZ(δ, x))))
	}
	// round elements
	base := make1(com, claim)
	ch := nonZero(challenges(func() { base.Verify(P) }))
	for k := range base.LRs {
		old := base.LRs[k]
		base.LRs[k] = plusG(old, curve.GenG1)
		ch2 := nonZero(challenges(func() { base.Verify(P) }))
		base.LRs[k] = old
		for _, x := range ch {
			D := mulG(P.U, mulZ(x, δ)) // what the left side lacks
			for _, y := range ch2 {
				s := mulZ(y, y)
				if k%2 == 0 {
					s = invZ(s)
				}
				base.LRs[k] = minusG(old, mulG(D, s))
				try(fmt.Sprintf("element %d", k), base)
				base.LRs[k] = old
			}
		}
	}
	// what each element has to reach: some challenge
	honest := make1(com, prod)
	if honest.Verify(P) != nil {
		c.Skip("honest product rejected")
		return
	}
	a2, b2 := randVec(c.R, n), randVec(c.R, n)
	second := bp.NewInnerProdArgument(P, a2, b2).Prove()
	all := without(digestsOf(func() { honest.Verify(P) }), digestsOf(func() { second.Verify(P) }))
	if len(all) == 0 {
		c.Skip("no digests observed")
		return
	}
	for _, s := range elements(honest) {
		if s.V.Type() == tZr && s.Path != ".C" {
			continue // nothing follows the final values
		}
		al := alter(s, nil)[0]
		al.set()
		altered := digestsOf(func() { honest.Verify(P) })
		al.undo()
		c.Check(len(without(all, altered)) > 0, "n=%d: no challenge depends on %s", n, s.Path)
		c.Distinct("product transcript %d %s", n, s.Path)
		if s.Path == ".P" || s.Path == ".C" {
			// and so does everything after
			c.Check(len(both(all, altered)) == 0, "n=%d: %d challenges do not depend on %s", n, len(both(all, altered)), s.Path)
		}
	}
	c.Saw("digests compared", len(all))
}

// equalRounds proves a false product with rounds that are alike: if their challenges are
// too, the product of (0,s,s,0) and (0,t,t,0) passes for st, and other than that these
// vectors leave no trace in the rounds.
func equalRounds(c *Ctx) {
	P := bp.NewPublicParams(4)
	s, t := zr(1+c.R.Int63n(1<<40)), zr(1+c.R.Int63n(1<<40))
	if c.R.Intn(2) == 0 {
		s, t = randZr(c.R), randZr(c.R)
	}
	o := zr(0)
	proof := bp.NewInnerProdArgument(P, common.Vec{o, s, s, o}, common.Vec{o, t, t, o}).Prove()
	if !c.Check(proof.Verify(P) == nil, "honest product rejected") {
		return
	}
	if find(proof, ".LRs[3]") == nil || find(proof, ".LRs[4]") != nil {
		c.Skip("the proof is of another form")
		return
	}
	half := invZ(zr(2))
	s2, t2 := mulZ(s, half), mulZ(t, half)
	proof.C = mulZ(s, t)
	for _, g := range []struct{ l, r int }{{3, 0}, {0, 3}} {
		for _, h := range []struct{ l, r int }{{3, 0}, {0, 3}} {
			L, R := plusG(mulG(P.G[g.l], s2), mulG(P.H[h.r], t2)), plusG(mulG(P.G[g.r], s2), mulG(P.H[h.l], t2))
			for _, order := range [][4]*math.G1{{L, R, L, R}, {R, L, R, L}, {L, R, R, L}, {R, L, L, R}} {
				for i, X := range order {
					setG1(proof, fmt.Sprintf(".LRs[%d]", i), X)
				}
				for _, ab := range [][2]*math.Zr{{s, t}, {t, s}} {
					setZr(proof, ".a", ab[0])
					setZr(proof, ".b", ab[1])
					c.Saw("forgeries attempted", 1)
					c.Check(proof.Verify(P) != nil, "the product of (0,%s,%s,0) and (0,%s,%s,0) is accepted to be %s, with rounds that are alike", s, s, t, t, proof.C)
				}
			}
		}
	}
	c.Distinct("equal rounds %s %s", s, t)
}

func reductionForgeries(c *Ctx, n int) {
	P := reductionPP(n)
	v := randVec(c.R, n)
	V := msm(P.G, v)
	Δ, xs, u := bp.IterativeReduce(P, v, V)
	δ := zr(1 + c.R.Int63())
	run := func(V *math.G1, Δ [][3]*math.G1, u *math.Zr) error {
		_, _, err := bp.IterativeVerify(P, V, Δ, u)
		return err
	}
	fold := func(xs []*math.Zr) *math.G1 {
		G := append([]*math.G1{}, P.G...)
		for _, x := range xs {
			h := len(G) / 2
			N := make([]*math.G1, h)
			for i := range N {
				N[i] = plusG(G[i], mulG(G[h+i], invZ(x)))
			}
			G = N
		}
		return G[0]
	}
	k := len(Δ)
	if !mulG(fold(xs), u).Equals(Δ[k-1][2]) {
		c.Skip("the reduction works otherwise")
		return
	}
	try := func(what string, V *math.G1, Δ [][3]*math.G1, u *math.Zr) {
		c.Saw("forgeries attempted", 1)
		c.Distinct("forged reduction %d %s %x", n, what, Δ[k-1][2].Bytes()[:8])
		c.Check(run(V, Δ, u) != nil, "n=%d: a wrong final value is accepted: %s chosen after the challenge", n, what)
	}
	with := func(A, B, W *math.G1) [][3]*math.G1 {
		res := append([][3]*math.G1{}, Δ...)
		res[k-1] = [3]*math.G1{A, B, W}
		return res
	}
	A, B, W := Δ[k-1][0], Δ[k-1][1], Δ[k-1][2]
	for i := 0; i < 3; i++ {
		dummy := with(A, B, W)
		DV := V
		switch i {
		case 0:
			dummy = with(plusG(A, curve.GenG1), B, W)
		case 1:
			dummy = with(A, plusG(B, curve.GenG1), W)
		case 2:
			if k > 1 {
				continue
			}
			DV = plusG(V, curve.GenG1)
		}
		for _, x := range nonZero(challenges(func() { run(DV, dummy, u) })) {
			ys := append(append([]*math.Zr{}, xs[:k-1]...), x)
			G := fold(ys)
			if k > 1 && i < 2 {
				// continue with what the code's own earlier rounds gave
				G = fold(ys)
			}
			// the final value the deviating challenge leads to
			W2 := plusG(mulG(A, x), mulG(B, invZ(x)))
			prev := V
			if k > 1 {
				prev = Δ[k-2][2]
			}
			W2.Add(prev)
			fin := zrBig(weighted(v, ys))
			if !mulG(G, fin).Equals(W2) {
				c.Skip("the reduction works otherwise")
				return
			}
			D := mulG(G, δ)
			switch i {
			case 0:
				try("A", V, with(plusG(A, mulG(D, invZ(x))), B, plusG(W2, D)), addZ(fin, δ))
			case 1:
				try("B", V, with(A, plusG(B, mulG(D, x)), plusG(W2, D)), addZ(fin, δ))
			case 2:
				try("the commitment", plusG(V, D), with(A, B, plusG(W2, D)), addZ(fin, δ))
			}
		}
	}
	all := digestsOf(func() { run(V, Δ, u) })
	if len(all) == 0 {
		c.Skip("no digests observed")
		return
	}
	red := &reduction{Δ, u, V}
	for _, s := range elements(red) {
		if s.Path == ".U" || s.Path == fmt.Sprintf(".Δ[%d][2]", k-1) {
			continue
		}
		al := alter(s, nil)[0]
		al.set()
		altered := digestsOf(func() { run(red.V, red.Δ, red.U) })
		al.undo()
		// (an altered step may end the verification before a later round)
		ch := without(all, altered)
		c.Check(len(ch) > 0, "n=%d: no challenge depends on %s", n, s.Path)
		c.Distinct("reduction transcript %d %s", n, s.Path)
	}
	c.Saw("digests compared", len(all))
}
