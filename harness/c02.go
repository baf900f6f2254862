package main

import (
	"fmt"
	mrand "math/rand"

	"pol/pol"

	math "github.com/IBM/mathlib"
)

func init() {
	register(&Property{
		ID:    "C02",
		Rule:  "Histories (overwrites, decreases, zeroes, interleaved with reads, root reads and proofs) over many tree shapes; after every operation the total proof must carry the model's total and be accepted against the current root; false totals (off by one, negated, shifted, doubled, other partial sums), other roots (earlier, foreign, W, a subtree's, shifted, identity), other proofs and proofs adapted with public parameters must be rejected. distinct = (parameters, operation number, total, claim).",
		Cases: c02Cases,
	})
}

// falseTotals are totals other than n, as far as an int holds them.
func falseTotals(r *mrand.Rand, s *Set) map[string]int {
	n := int(s.Total())
	cand := map[string]int{
		"one more": n + 1, "one less": n - 1, "zero": 0, "negated": -n, "complement": ^n, "doubled": 2 * n, "half": n / 2, "min": -1 << 63, "max": 1<<63 - 1,
		"random": int(r.Int63()), "small random": r.Intn(1000), "negated successor": -n - 1, "sum of total and minimum": n + (-1 << 63),
	}
	for i := 0; i < 5; i++ {
		k := uint(r.Intn(64))
		cand[fmt.Sprintf("plus 2^%d", k)] = n + 1<<k
		cand[fmt.Sprintf("bit %d", k)] = n ^ 1<<k
	}
	cand["plus 2^32"] = n + 1<<32
	cand["low 32 bits"] = n & (1<<32 - 1)
	for id, a := range s.Model {
		cand["without "+id] = n - int(a)
		cand["only "+id] = int(a)
	}
	for k, v := range cand {
		if v == n {
			delete(cand, k)
		}
	}
	return cand
}

// totalMonitor judges the total proof of a set.
func totalMonitor(c *Ctx, s *Set, what string) (pol.TotalProof, *math.G1, bool) {
	tp := s.ProveTot()
	V, W := s.Root()
	ok := c.Check(int64(tp.Sum) == s.Total(), "%s: %s: the total proof is for %d, recorded are %d (%s)", s.Pub.Kind, what, tp.Sum, s.Total(), brief(s))
	if ok {
		err := tp.Verify(s.Pub.PP, V)
		ok = c.Check(err == nil, "%s: %s: the total proof for %d is rejected: %v (%s)", s.Pub.Kind, what, tp.Sum, err, brief(s))
	}
	_ = W
	c.Distinct("%s %s %d %d", s.Pub.Kind, what, len(s.Order), tp.Sum)
	return tp, V, ok
}

type rootOf struct {
	what string
	V    *math.G1
	tp   pol.TotalProof
}

func falseClaims(c *Ctx, s *Set, tp pol.TotalProof, V *math.G1, others []rootOf) {
	P := s.Pub.PP
	try := func(what string, f pol.TotalProof, V *math.G1) {
		if c.failed() {
			return
		}
		var err error
		p := catch(func() { err = f.Verify(P, V) })
		c.Saw("false total claims judged", 1)
		c.Check(p == nil, "%s: verifying a total proof with %s panics: %v", s.Pub.Kind, what, p)
		c.Check(p != nil || err != nil, "%s: total %d: accepted with %s (%s)", s.Pub.Kind, tp.Sum, what, brief(s))
	}
	for what, n := range falseTotals(c.R, s) {
		f := tp
		f.Sum = n
		try(fmt.Sprintf("total %s: %d", what, n), f, V)
		c.Distinct("%s %d %s", s.Pub.Kind, tp.Sum, what)
	}
	_, W := s.Root()
	roots := map[string]*math.G1{"W as root": W, "shifted root": plusG(V, curve.GenG1), "negated root": minusG(inf(), V), "doubled root": plusG(V, V), "the proof as root": tp.LiabilityProof, "identity as root": inf(),
		"root plus the sum slot": plusG(V, P.PPPP.G1s[P.Fanout])}
	_, vs, ok := treeOf(s.LiabilitySet).Get(s.IDs()[0])
	if ok {
		for i := 1; i < len(vs); i++ {
			roots[fmt.Sprintf("vertex %d below the root", i)] = vs[i].V
		}
	}
	for what, X := range roots {
		if X != nil && !X.Equals(V) {
			try(what, tp, X)
		}
	}
	for _, o := range others {
		if !o.V.Equals(V) {
			try(o.what+" as root", tp, o.V)
			try("the proof of "+o.what, o.tp, V)
			f := tp
			f.LiabilityProof = o.tp.LiabilityProof
			try("the opening of "+o.what, f, V)
			f = tp
			f.Sum = o.tp.Sum
			if f.Sum != tp.Sum {
				try("the total of "+o.what, f, V)
			}
		}
	}
	// the opening adapted to a false total with what the parameters offer
	δ := int64(1 + c.R.Intn(1000))
	for j, g := range P.PPPP.G1s {
		if len(P.PPPP.G1s) > 40 && j%7 != 0 && j != len(P.PPPP.G1s)/2 {
			continue
		}
		f := tp
		f.Sum = tp.Sum + int(δ)
		if f.Sum < 0 {
			f.Sum = tp.Sum - int(δ)
			f.LiabilityProof = plusG(tp.LiabilityProof, g.Mul(zr(δ)))
		} else {
			f.LiabilityProof = minusG(tp.LiabilityProof, g.Mul(zr(δ)))
		}
		try(fmt.Sprintf("a total shifted by %d and the opening by parameter %d", δ, j), f, V)
	}
	for what, X := range map[string]*math.G1{"identity": inf(), "shifted": plusG(tp.LiabilityProof, curve.GenG1), "negated": minusG(inf(), tp.LiabilityProof), "root": V} {
		f := tp
		f.LiabilityProof = X
		if !X.Equals(tp.LiabilityProof) {
			try(what+" as opening", f, V)
		}
	}
	// openings of other slots of the root
	if ok {
		for j := 0; j < 3 && j < P.Fanout; j++ {
			m := append(vs[0].Values(P.PPPP.N-1), vs[0].BlindingFactor)
			v := zint(m[j])
			_, π := openRef(P.PPPP.G1s, P.PPPP.N, j, m)
			if v.IsInt64() {
				try(fmt.Sprintf("the opening of slot %d", j), pol.TotalProof{Sum: int(v.Int64()), LiabilityProof: π}, V)
			}
		}
	}
	f := tp
	f.LiabilityProof = nil
	try("no opening", f, V)
	try("no root", tp, nil)
}

// openRef is an independent opening of position i.
func openRef(g1s []*math.G1, n, i int, m []*math.Zr) (*math.Zr, *math.G1) {
	acc := inf()
	for j := range m {
		if j != i {
			acc.Add(mulG(g1s[n-i+j], m[j]))
		}
	}
	return m[i], acc
}

func c02Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, f func(*Ctx)) { cases = append(cases, Case{Name: name, Run: f}) }
	type shape struct{ f, d, histories, ops int }
	for _, sh := range []shape{{3, 2, p.Pick(10, 80), 14}, {3, 3, p.Pick(8, 60), 14}, {3, 5, p.Pick(4, 30), 10}, {7, 2, p.Pick(6, 40), 12}, {7, 3, p.Pick(4, 30), 10}, {15, 2, p.Pick(4, 20), 10}, {15, 3, p.Pick(2, 15), 8}, {31, 2, p.Pick(2, 10), 8}, {127, 2, p.Pick(1, 4), 5}, {255, 2, p.Pick(0, 3), 5}} {
		for h := 0; h < sh.histories; h++ {
			sh, h := sh, h
			add(fmt.Sprintf("history/f%d-d%d/%d", sh.f, sh.d, h), func(c *Ctx) {
				pub := custom(sh.f, sh.d)
				s, o := newSet(pub), newSet(pub)
				randomHistory(c.R, o, 3)
				otp, oV, _ := totalMonitor(c, o, "other set")
				roots := []rootOf{{"another set", oV, otp}}
				var ids []string
				for i := 0; i < sh.ops && !c.failed(); i++ {
					id := pickID(c.R, pub, ids, sh.f, sh.d)
					a := amount(c.R, s.Total()-s.Model[id])
					switch c.R.Intn(6) {
					case 0:
						a = 0
					case 1:
						a = s.Model[id] / 2
					case 2:
						a = s.Model[id]
					}
					// whether something has been read or proven just before
					switch c.R.Intn(4) {
					case 0:
						if len(ids) > 0 {
							s.ProveTot()
						}
					case 1:
						s.Root()
						s.Get(id)
					}
					s.Put(id, a)
					ids = append(ids, id)
					if c.R.Intn(4) == 0 && i+1 < sh.ops {
						continue // several updates between two looks
					}
					var tp pol.TotalProof
					var V *math.G1
					var ok bool
					if c.R.Intn(2) == 0 {
						V, _ = s.Root()
						tp, _, ok = totalMonitor(c, s, fmt.Sprintf("operation %d", i))
						if V2, _ := s.Root(); !V2.Equals(V) {
							c.Fail("%s: the root changes without an update", pub.Kind)
						}
					} else {
						tp, V, ok = totalMonitor(c, s, fmt.Sprintf("operation %d", i))
					}
					if !ok {
						return
					}
					if len(roots) > 4 {
						roots = append(roots[:1], roots[2:]...)
					}
					if i%3 == 0 || i == sh.ops-1 {
						falseClaims(c, s, tp, V, roots)
					} else {
						for _, o := range roots {
							if !o.V.Equals(V) {
								c.Check(tp.Verify(pub.PP, o.V) != nil, "%s: the total %d is accepted against the root of %s", pub.Kind, tp.Sum, o.what)
								c.Check(o.tp.Verify(pub.PP, V) != nil, "%s: the total proof of %s is accepted against the current root", pub.Kind, o.what)
							}
						}
					}
					roots = append(roots, rootOf{fmt.Sprintf("the set before operation %d", i+1), V, tp})
				}
				c.Sample("%s: %s, total %d", pub.Kind, brief(s), s.Total())
			})
		}
	}
	add("edges", func(c *Ctx) {
		pub := custom(3, 2)
		for _, hist := range [][]histOp{
			{{"0.0", 0}}, {{"0.0", max63}}, {{"0.0", max63}, {"0.0", 0}}, {{"0.0", max63 - 1}, {"2.2", 1}}, {{"1.1", max63}, {"1.1", 0}, {"2.1", max63}},
			{{"1.1", 1 << 62}, {"1.2", 1<<62 - 1}}, {{"1.1", 1}, {"1.1", 1}, {"1.1", 1}}, {{"0.0", 0}, {"0.1", 0}, {"1.0", 0}}, {{"2.2", 1 << 32}, {"2.1", 1 << 31}}, {{"2.2", 1 << 32}, {"2.1", 1 << 31}, {"2.2", 0}, {"2.1", 0}},
		} {
			s := newSet(pub)
			for i, o := range hist {
				s.Put(o.id, o.amount)
				if _, _, ok := totalMonitor(c, s, fmt.Sprintf("operation %d of %v", i, hist)); !ok {
					return
				}
			}
			tp, V, _ := totalMonitor(c, s, "end")
			falseClaims(c, s, tp, V, nil)
		}
	})
	// a root that commits to a number an int does not hold: nothing may be accepted
	add("huge-sums", func(c *Ctx) {
		pub := custom(3, 2)
		P := pub.PP.PPPP
		for i := 0; i < p.Pick(12, 60); i++ {
			m := make([]*math.Zr, P.N)
			for j := range m {
				m[j] = zr(c.R.Int63())
			}
			n := 1 + c.R.Int63()
			if i%3 == 0 {
				n = 1 + c.R.Int63n(1000)
			}
			m[pub.F] = negZ(zr(n))
			m[P.N-1] = randZr(c.R)
			V := msm(P.G1s, m)
			_, π := openRef(P.G1s, P.N, pub.F, m)
			for _, claim := range []int{int(-n), int(n), 0, int(-n + 1)} {
				tp := pol.TotalProof{Sum: claim, LiabilityProof: π}
				c.Saw("false total claims judged", 1)
				c.Check(tp.Verify(pub.PP, V) != nil, "the total %d is accepted for a root whose sum is -%d modulo the group order", claim, n)
				c.Distinct("neg %d %d", n, claim)
			}
			// calibration: the same root with a total in range
			m[pub.F] = zr(n)
			V = msm(P.G1s, m)
			tp := pol.TotalProof{Sum: int(n), LiabilityProof: π}
			c.Check(tp.Verify(pub.PP, V) == nil, "the opening of the sum %d of a root is rejected", n)
		}
	})
	heavy := []struct {
		name string
		get  func() *Pub
		n    int
	}{{"dense7", func() *Pub { return dense(7) }, p.Pick(6, 20)}, {"sparse7", func() *Pub { return sparseTree(7) }, p.Pick(3, 10)}, {"dense31", func() *Pub { return dense(31) }, p.Pick(3, 20)}, {"sparse31", func() *Pub { return sparseTree(31) }, p.Pick(0, 10)}}
	for _, h := range heavy {
		h := h
		if h.n == 0 {
			continue
		}
		add("real/"+h.name, func(c *Ctx) {
			pub := h.get()
			s := newSet(pub)
			var last []rootOf
			for i := 0; i < h.n && !c.failed(); i++ {
				randomHistory(c.R, s, 2)
				tp, V, ok := totalMonitor(c, s, fmt.Sprintf("step %d", i))
				if !ok {
					return
				}
				if i == h.n-1 {
					falseClaims(c, s, tp, V, last)
				}
				last = []rootOf{{fmt.Sprintf("step %d", i), V, tp}}
			}
		})
	}
	return cases
}
