package main

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sum"
	"pol/verkle"

	math "github.com/IBM/mathlib"
)

func init() {
	register(&Property{
		ID:    "C14",
		Rule:  "Around every read, proof and verification (accepted or rejected, of whole proofs and of every argument on its own) all reachable state is compared with a snapshot taken before: public parameters, statements, witnesses, proofs, stored records, recorded amounts, shared constants; verifications are repeated in random order and must repeat their verdict. distinct = (operation, input, verdict).",
		Cases: c14Cases,
	})
}

// frozen is state that must not change.
type frozen struct {
	name string
	ptr  interface{}
	was  Snapshot
}

type freezer struct {
	c   *Ctx
	fs  []frozen
	txt map[string]func() string
	was map[string]string
}

func freeze(c *Ctx) *freezer {
	z := &freezer{c: c, txt: map[string]func() string{}, was: map[string]string{}}
	z.text("generators", func() string {
		return string(curve.GenG1.Bytes()) + string(curve.GenG2.Bytes()) + string(curve.GenGt.Bytes()) + curve.GroupOrder.String() + common.GroupOrder.String() + poe.GroupOrder.String() + pp.GroupOrder.String() + sum.GroupOrder.String()
	})
	return z
}

func (z *freezer) add(name string, ptr interface{}) {
	z.fs = append(z.fs, frozen{name, ptr, snapshot(ptr)})
}
func (z *freezer) text(name string, f func() string) {
	z.txt[name] = f
	z.was[name] = f()
}

func (z *freezer) check(what string) bool {
	z.c.Eval()
	for _, f := range z.fs {
		z.c.Saw("snapshots compared", 1)
		z.c.Saw("slots compared", len(f.was))
		if d := f.was.diff(snapshot(f.ptr)); d != "" {
			z.c.Fail("%s changes %s: %s", what, f.name, d)
			return false
		}
	}
	for n, f := range z.txt {
		if f() != z.was[n] {
			z.c.Fail("%s changes %s", what, n)
			return false
		}
	}
	return true
}

func c14Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, f func(*Ctx)) { cases = append(cases, Case{Name: name, Run: f}) }
	for k, sh := range [][2]int{{3, 2}, {3, 3}, {7, 2}, {3, 4}, {7, 3}} {
		for h := 0; h < p.Pick([]int{3, 2, 2, 1, 1}[k], 8); h++ {
			f, d, h := sh[0], sh[1], h
			add(fmt.Sprintf("sets/f%d-d%d/%d", f, d, h), func(c *Ctx) { frozenSet(c, freshCustom(f, d)) })
		}
	}
	for h := 0; h < p.Pick(4, 30); h++ {
		add(fmt.Sprintf("arguments/%d", h), func(c *Ctx) { frozenArguments(c) })
	}
	cases = append(cases, Case{Name: "sequential", Serial: true, Run: func(c *Ctx) {
		pol.ParallelismEnabled = false
		defer func() { pol.ParallelismEnabled = true }()
		frozenSet(c, freshCustom(3, 2))
	}})
	return cases
}

func storeText(s *Set) func() string {
	return func() string { return fmt.Sprint(s.Store.snapshot()) }
}

// serialText is what a tree serializes to, whatever the order.
func serialText(t *verkle.Tree) func() string {
	return func() string {
		var out bytes.Buffer
		if p := catch(func() { t.Serialize(&out) }); p != nil {
			return fmt.Sprint("panic: ", p)
		}
		var count [256]int
		for _, b := range out.Bytes() {
			count[b]++
		}
		return fmt.Sprint(out.Len(), count)
	}
}

func amountsText(s *Set) func() string {
	return func() string {
		t := ""
		for _, id := range s.IDs() {
			a, ok := s.Get(id)
			t += fmt.Sprintf("%s=%d,%v ", id, a, ok)
		}
		return t
	}
}

// frozenSet interleaves reads, proofs and verifications over one set.
func frozenSet(c *Ctx, pub *Pub) {
	s, o := newSet(pub), newSet(pub)
	randomHistory(c.R, s, 6)
	randomHistory(c.R, o, 3)
	V, W := s.Root()
	oV, oW := o.Root()
	z := freeze(c)
	z.add("the public parameters", pub.PP)
	z.text("the store", storeText(s))
	z.text("the other store", storeText(o))
	z.text("recorded amounts", amountsText(s))
	z.text("the roots", func() string {
		a, b := s.Root()
		d, e := o.Root()
		return string(a.Bytes()) + string(b.Bytes()) + string(d.Bytes()) + string(e.Bytes()) + string(V.Bytes()) + string(W.Bytes()) + string(oV.Bytes()) + string(oW.Bytes())
	})
	tree := treeOf(s.LiabilitySet)
	for k, set := range []*Set{s, o} {
		t := treeOf(set.LiabilitySet)
		z.text(fmt.Sprintf("what tree %d serializes to", k), serialText(t))
	}
	// reading what was never recorded, near and far from what was
	for k := 0; k < 12; k++ {
		id := pub.RandID(c.R)
		if all := s.IDs(); k%3 > 0 {
			id = pub.NearID(c.R, all[c.R.Intn(len(all))])
		}
		_, recorded := s.Model[id]
		if recorded {
			continue
		}
		c.Saw("absent identifiers read", 1)
		_, ok := s.Get(id)
		c.Check(!ok, "%s: Get(%s) finds what was never recorded", pub.Kind, id)
		if k%2 == 0 {
			_, _, _, ok = s.ProveLiability(id)
			c.Check(!ok, "%s: ProveLiability(%s) proves what was never recorded", pub.Kind, id)
		}
		if !z.check("reading " + id + ", which is not recorded,") {
			return
		}
	}
	type claim struct {
		what  string
		id    string
		proof *pol.LiabilityProof
		tp    *pol.TotalProof
		V, W  *math.G1
		want  *bool
	}
	var claims []*claim
	yes, no := true, false
	ids := s.IDs()
	c.R.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
	for i := 0; i < 2 && i < len(ids); i++ {
		_, vs, _ := tree.Get(ids[i])
		before := []Snapshot{}
		for _, v := range vs {
			before = append(before, snapshot(v))
		}
		_, pr, _, ok := s.ProveLiability(ids[i])
		if !ok {
			c.Fail("no proof for %s", ids[i])
			return
		}
		if !z.check("ProveLiability") {
			return
		}
		for k, v := range vs {
			c.Check(before[k].diff(snapshot(v)) == "", "ProveLiability changes a vertex read before")
		}
		lp := &pr
		z.add("the proof of "+ids[i], lp)
		claims = append(claims, &claim{"honest", ids[i], lp, nil, V, W, &yes}, &claim{"foreign root", ids[i], lp, nil, oV, oW, &no}, &claim{"V as W", ids[i], lp, nil, V, V, &no},
			&claim{"other id", pub.NearID(c.R, ids[i]), lp, nil, V, W, nil})
		// altered proofs: one element each
		els := elements(lp)
		for n := 0; n < c.plan.Pick(7, 60); n++ {
			bad := clone(lp)
			bels := elements(bad)
			k := c.R.Intn(len(els))
			as := alter(bels[k], nil)
			if len(as) == 0 {
				continue
			}
			a := as[c.R.Intn(len(as))]
			a.set()
			want := &no
			if redundant(bels[k], len(lp.V)) {
				want = nil
			}
			z.add("an altered proof of "+ids[i]+" ("+a.name+")", bad)
			claims = append(claims, &claim{a.name, ids[i], bad, nil, V, W, want})
		}
		// malformed ones
		for n := 0; n < c.plan.Pick(4, 30); n++ {
			bad := clone(lp)
			ms := structural(bad, len(lp.V))
			m := ms[c.R.Intn(len(ms))]
			m.set()
			if catch(func() { snapshot(bad) }) != nil {
				continue
			}
			z.add("a malformed proof of "+ids[i]+" ("+m.name+")", bad)
			claims = append(claims, &claim{m.name, ids[i], bad, nil, V, W, nil})
		}
	}
	tp, tp2, otp := s.ProveTot(), s.ProveTot(), o.ProveTot()
	if !z.check("ProveTot") {
		return
	}
	tp2.Sum++
	z.add("the total proof", &tp)
	z.add("a false total proof", &tp2)
	claims = append(claims, &claim{"total", "", nil, &tp, V, W, &yes}, &claim{"false total", "", nil, &tp2, V, W, &no}, &claim{"foreign total", "", nil, &otp, V, W, &no}, &claim{"foreign total on its root", "", nil, &otp, oV, oW, &yes})
	verdicts := map[*claim]string{}
	rounds := 2
	for round := 0; round < rounds; round++ {
		for _, i := range c.R.Perm(len(claims)) {
			if c.failed() {
				return
			}
			cl := claims[i]
			var err error
			p := catch(func() {
				if cl.tp != nil {
					err = cl.tp.Verify(pub.PP, cl.V)
				} else {
					err = verifyLP(pub, cl.id, *cl.proof, cl.V, cl.W)
				}
			})
			verdict := fmt.Sprint(p == nil && err == nil)
			c.Distinct("%s %s %s", cl.what, cl.id, verdict)
			c.Saw("verdicts "+verdict, 1)
			if !z.check(fmt.Sprintf("verification (%s, verdict %s)", cl.what, verdict)) {
				return
			}
			if old, ok := verdicts[cl]; ok {
				c.Check(old == verdict, "%s: repeating the verification (%s) gives %s instead of %s", pub.Kind, cl.what, verdict, old)
			}
			verdicts[cl] = verdict
			if cl.want != nil {
				c.Check(verdict == fmt.Sprint(*cl.want), "%s: verdict %s on %s: %v %v", pub.Kind, verdict, cl.what, err, p)
			}
			if c.R.Intn(6) == 0 {
				switch c.R.Intn(5) {
				case 0:
					s.Get(ids[0])
					s.Get(pub.RandID(c.R))
				case 1:
					s.Root()
				case 2:
					s.ProveTot()
				case 3:
					s.ProveLiability(ids[c.R.Intn(len(ids))])
				case 4:
					s.ProveLiability(pub.RandID(c.R))
				}
				if !z.check("a read or proof in between") {
					return
				}
			}
		}
	}
	// writing to what was handed out must not reach the set
	_, vs, _ := tree.Get(ids[0])
	vs[0].V.Add(curve.GenG1)
	vs[0].BlindingFactor = zr(0)
	for k := range vs[0].Digests {
		vs[0].Digests[k] = zr(0)
	}
	RV, RW := s.Root()
	RV.Add(curve.GenG1)
	RW.Add(curve.GenG1)
	z.check("writing to a root that was read")
	c.Sample("%s: %d claims verified %d times each, %d pieces of state", pub.Kind, len(claims), rounds, len(z.fs)+len(z.txt))
}

// frozenArguments runs every argument on its own.
func frozenArguments(c *Ctx) {
	z := freeze(c)
	step := func(what string, f func()) {
		if c.failed() {
			return
		}
		p := catch(f)
		if p != nil {
			c.Saw("operations that panic", 1)
		}
		z.check(what)
		c.Distinct("%s %d", what, c.R.Int63())
	}
	// twice repeats a verification and compares the verdicts
	twice := func(what string, want int, f func() error) {
		var first string
		for i := 0; i < 2; i++ {
			step(what, func() {
				err := f()
				if i == 1 && fmt.Sprint(err == nil) != first {
					c.Fail("%s: the second verdict is %v", what, err)
				}
				first = fmt.Sprint(err == nil)
				if want >= 0 {
					c.Check((err == nil) == (want == 1), "%s: verdict %v", what, err)
				}
			})
		}
	}
	n := []int{4, 8}[c.R.Intn(2)]
	P := pp.NewPublicParams(n)
	z.add("the vector commitment parameters", P)
	m1, m2 := c09Vec(c.R, n), c09Vec(c.R, n)
	i, j := c.R.Intn(n-1), c.R.Intn(n-1) // the last entry is for blinding
	m2[j] = m1[i].Copy()
	z.add("a vector", &m1)
	z.add("another vector", &m2)
	var C1, C2 *math.G1
	step("Commit", func() { C1, C2 = pp.Commit(P, m1), pp.Commit(P, m2) })
	z.add("a commitment", &C1)
	z.add("another commitment", &C2)
	var v1, v2 *math.Zr
	var π1, π2 *math.G1
	step("Open", func() { v1, π1 = pp.Open(P, i, m1); v2, π2 = pp.Open(P, j, m2) })
	z.add("an opened value", &v1)
	z.add("an opening", &π1)
	z.add("another opening", &π2)
	twice("pp.Verify", 1, func() error { return pp.Verify(P, v1, π1, C1, i) })
	twice("pp.Verify, negative", -1, func() error { return pp.Verify(P, curve.NewZrFromInt(-5), π1, C1, i) })
	cs, πs, idx := common.G1v{C1, C2}, []*math.G1{π1, π2}, []int{i, j}
	z.add("commitments", &cs)
	z.add("openings", &πs)
	z.add("indices", &idx)
	var π *math.G1
	step("Aggregate", func() { π = pp.Aggregate(P, cs, πs, pp.RO) })
	Σ := addZ(mulZ(v1, pp.RO(P, cs, 0)), mulZ(v2, pp.RO(P, cs, 1)))
	z.add("the aggregation", &π)
	z.add("the aggregated value", &Σ)
	twice("VerifyAggregation", 1, func() error { return pp.VerifyAggregation(P, idx, cs, π, Σ, pp.RO) })
	twice("VerifyAggregation, exchanged", -1, func() error { return pp.VerifyAggregation(P, []int{j, i}, cs, π, Σ, pp.RO) })
	step("Update", func() { X := C1.Copy(); pp.Update(P, X, m1, zr(7), i) })

	// what a computation gives belongs to who asked for it: writing to it changes neither what
	// the computation was given nor what it gives the next time
	zeros, one, last := make(common.Vec, n), make(common.Vec, n), make(common.Vec, n)
	for k := range zeros {
		zeros[k], one[k], last[k] = zr(0), zr(0), zr(0)
	}
	one[i], last[n-1] = zr(1), zr(1)
	sums := map[string]common.G1v{
		"one point": {C1}, "infinities and a point": {inf(), inf(), C1}, "a point and infinities": {C1, inf()},
		"infinities": {inf(), inf()}, "a point between infinities": {inf(), C2, inf()}, "points": {C1, C2, π1},
	}
	for _, k := range []string{"one point", "infinities and a point", "a point and infinities", "infinities", "a point between infinities", "points"} {
		v := sums[k]
		z.add("a vector of "+k, &v)
	}
	fresh := func() string {
		t := ""
		for _, m := range []common.Vec{zeros, one, last, m1} {
			t += string(pp.Commit(P, m).Bytes())
		}
		for _, k := range []string{"one point", "infinities and a point", "infinities"} {
			t += string(sums[k].Sum().Bytes())
		}
		return t + string(common.G1v{C1}.MulV(common.Vec{zr(0)})[0].Bytes())
	}
	z.text("what is computed next", fresh)
	for k, m := range map[string]common.Vec{"zeros": zeros, "one entry": one, "the last entry": last, "a vector": m1} {
		m := m
		step("updating a commitment to "+k, func() { pp.Update(P, pp.Commit(P, m), m, zr(7), i) })
		step("writing to a commitment to "+k, func() { pp.Commit(P, m).Add(curve.GenG1) })
		step("writing to an opening of "+k, func() { _, π := pp.Open(P, i, m); π.Add(curve.GenG1) })
	}
	for k, v := range sums {
		v := v
		step("writing to a sum of "+k, func() { v.Sum().Add(curve.GenG1) })
	}
	step("writing to an aggregation", func() { pp.Aggregate(P, common.G1v{C1}, []*math.G1{π1}, pp.RO).Add(curve.GenG1) })
	step("writing to an aggregation of nothing", func() { pp.Aggregate(P, cs, []*math.G1{inf(), inf()}, pp.RO).Add(curve.GenG1) })

	// equality
	E := &poe.PP{PP: P, G: common.RandGenVec(2, "POE G"), H: common.RandGenVec(2, "POE H"), F: common.RandGenVec(1, "POE F")[0]}
	E.SetupDigest()
	z.add("the equality parameters", E)
	e := &poe.Equality{RO: poe.RO, PP: E, V: C1, W: C2, I: i, J: j}
	z.add("the equality", e)
	var ep *poe.Proof
	step("Equality.Prove", func() { ep = e.Prove(m1, m2) })
	if ep == nil {
		c.Fail("Equality.Prove gives no proof")
		return
	}
	z.add("the equality proof", ep)
	twice("Equality.Verify", 1, func() error { return e.Verify(ep) })
	bad := *ep
	bad.C = addZ(ep.C, zr(1))
	z.add("a bad equality proof", &bad)
	twice("Equality.Verify, bad", 0, func() error { return e.Verify(&bad) })
	es := &poe.Equalities{RO: poe.RO, PP: E, V: common.G1v{C1, C2}, W: common.G1v{C2, C1}, I: []int{i, j}, J: []int{j, i}}
	z.add("the equalities", es)
	ms1, ms2 := []common.Vec{m1, m2}, []common.Vec{m2, m1}
	z.add("the vectors of the equalities", &ms1)
	z.add("the other vectors of the equalities", &ms2)
	var ap *poe.AggregatedProof
	step("Equalities.Prove", func() { ap = es.Prove(ms1, ms2) })
	if ap == nil {
		c.Fail("Equalities.Prove gives no proof")
		return
	}
	z.add("the aggregated equality proof", ap)
	twice("Equalities.Verify", 1, func() error { return es.Verify(ap) })
	badEqs(c, z, twice, es, ap)

	// sum
	S := sum.NewPublicParams(n)
	z.add("the sum parameters", S)
	sv1, sv2 := sumVec(c.R, n, new(big.Int)), sumVec(c.R, n, new(big.Int))
	r := randVec(c.R, 2)
	svs := []common.Vec{sv1, sv2}
	z.add("the sum vectors", &svs)
	z.add("the blinding", &r)
	var arg *sum.Argument
	step("sum.NewCommitment", func() { arg = sum.NewCommitment(S, sv1, r[0]) })
	var sp *sum.Proof
	step("sum.NewArgument", func() { _, sp = sum.NewArgument(S, arg.V, sv1, r[0]) })
	if sp == nil {
		c.Fail("sum.NewArgument gives no proof")
		return
	}
	z.add("the sum statement", arg)
	z.add("the sum proof", sp)
	twice("sum.Verify", 1, func() error { return sp.Verify(S, arg) })
	twice("sum.Verify, other commitment", 0, func() error { return sp.Verify(S, &sum.Argument{V: C1}) })
	Vs := common.G1v{sumCommit(S, sv1, r[0]), sumCommit(S, sv2, r[1])}
	z.add("the sum commitments", &Vs)
	var sap *sum.Proof
	step("sum.NewAggregatedArgument", func() { sap = sum.NewAggregatedArgument(S, Vs, svs, r) })
	if sap == nil {
		c.Fail("sum.NewAggregatedArgument gives no proof")
		return
	}
	z.add("the aggregated sum proof", sap)
	twice("VerifyAggregated", 1, func() error { return sap.VerifyAggregated(S, Vs) })
	twice("VerifyAggregated, exchanged", 0, func() error { return sap.VerifyAggregated(S, common.G1v{Vs[1], Vs[0]}) })

	// inner product and reduction
	B := bp.NewPublicParams(n)
	z.add("the inner product parameters", B)
	a, b := c09Vec(c.R, n), c09Vec(c.R, n)
	z.add("a", &a)
	z.add("b", &b)
	var ipa *bp.InnerProdArgument
	step("NewInnerProdArgument", func() { ipa = bp.NewInnerProdArgument(B, a, b) })
	z.add("the inner product argument", ipa)
	var ipp *bp.InnerProductProof
	step("InnerProdArgument.Prove", func() { ipp = ipa.Prove() })
	if ipp == nil {
		c.Fail("InnerProdArgument.Prove gives no proof")
		return
	}
	z.add("the inner product proof", ipp)
	twice("InnerProductProof.Verify", 1, func() error { return ipp.Verify(B) })
	ibad := clone(ipp)
	ibad.C = addZ(ibad.C, zr(1))
	z.add("a bad inner product proof", ibad)
	twice("InnerProductProof.Verify, bad", 0, func() error { return ibad.Verify(B) })
	rv := c09Vec(c.R, n)
	RV := msm(B.G, rv)
	z.add("the reduced vector", &rv)
	z.add("its commitment", &RV)
	var Δ [][3]*math.G1
	var u *math.Zr
	step("IterativeReduce", func() { Δ, _, u = bp.IterativeReduce(B, rv, RV) })
	z.add("the reduction", &Δ)
	z.add("its end", &u)
	twice("IterativeVerify", 1, func() error { _, _, err := bp.IterativeVerify(B, RV, Δ, u); return err })
	un := addZ(u, zr(1))
	twice("IterativeVerify, bad", 0, func() error { _, _, err := bp.IterativeVerify(B, RV, Δ, un); return err })

	// range
	R := bp.NewRangeProofPublicParams(4)
	z.add("the range parameters", R)
	v := common.Vec{zr(0), zr(max63), zr(c.R.Int63()), zr(1)}
	br := randZr(c.R)
	VR := plusG(mulG(R.F, br), msm(R.Gs, v))
	z.add("the range vector", &v)
	z.add("its blinding", &br)
	z.add("the range commitment", &VR)
	var rp *bp.RangeProof
	step("ProveRange", func() { rp = bp.ProveRange(R, VR, v, br) })
	if rp == nil {
		c.Fail("ProveRange gives no proof")
		return
	}
	z.add("the range proof", rp)
	twice("VerifyRange", 1, func() error { return bp.VerifyRange(R, rp, VR) })
	twice("VerifyRange, other commitment", 0, func() error { return bp.VerifyRange(R, rp, RV) })
	rbad := clone(rp)
	els := elements(rbad)
	for k := 0; k < 3; k++ {
		el := els[c.R.Intn(len(els))]
		as := alter(el, nil)
		if len(as) > 0 {
			as[0].set()
		}
	}
	z.add("a bad range proof", rbad)
	twice("VerifyRange, bad", -1, func() error { return bp.VerifyRange(R, rbad, VR) })
	c.Sample("arguments over vectors of length %d, %d pieces of state", n, len(z.fs))
}

func badEqs(c *Ctx, z *freezer, twice func(string, int, func() error), es *poe.Equalities, ap *poe.AggregatedProof) {
	swapped := *es
	swapped.V, swapped.W = es.W, es.V
	if !reflect.DeepEqual(snapshot(es), snapshot(&swapped)) {
		twice("Equalities.Verify, exchanged", -1, func() error { return swapped.Verify(ap) })
	}
	for k := 0; k < 3; k++ {
		bad := clone(ap)
		els := elements(bad)
		as := alter(els[c.R.Intn(len(els))], nil)
		if len(as) == 0 {
			continue
		}
		as[c.R.Intn(len(as))].set()
		z.add("a bad aggregated equality proof", bad)
		twice("Equalities.Verify, altered", -1, func() error { return es.Verify(bad) })
	}
}
