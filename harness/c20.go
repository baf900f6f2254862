package main

import (
	"bytes"
	"fmt"
	"reflect"
	"strings"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sum"

	math "github.com/IBM/mathlib"
)

func init() {
	register(&Property{
		ID:    "C20",
		Rule:  "Parameter objects are altered in one place (shifted, replaced by the element of another set-up, exchanged with or copied from a neighbour), with and without recomputing digests, and honest proofs of every argument system and full liability proofs are verified under them: all must be rejected if the element is used. Digests must change with every element they stand for, and challenges with the digest. Set-ups must carry the digests of what they contain. distinct = (system, altered element, kind of alteration).",
		Cases: c20Cases,
	})
}

// replacements of a parameter element.
func replacements(ptr, other interface{}) []alteration {
	var res []alteration
	els := elements(ptr)
	donor := map[string]reflect.Value{}
	if other != nil {
		for _, s := range elements(other) {
			donor[s.Path] = s.V
		}
	}
	for i, s := range els {
		s := s
		old := s.V.Interface()
		undo := func() { s.V.Set(reflect.ValueOf(old)) }
		put := func(name string, x interface{}) {
			n := reflect.ValueOf(x)
			tmp := reflect.New(s.V.Type()).Elem()
			tmp.Set(n)
			if (Slot{V: tmp}).repr() == s.repr() {
				return
			}
			res = append(res, alteration{s.Path + " " + name, func() { s.V.Set(n) }, undo})
		}
		switch s.V.Type() {
		case tG1:
			if s.G1() == nil {
				continue
			}
			put("shifted", plusG(s.G1(), curve.GenG1))
		case tG2:
			g := s.V.Interface().(*math.G2).Copy()
			g.Add(curve.GenG2)
			put("shifted", g)
		case tGt:
			put("squared", s.V.Interface().(*math.Gt).Exp(zr(2)))
		default:
			continue
		}
		if d, ok := donor[s.Path]; ok && d.Type() == s.V.Type() && !d.IsNil() {
			put("of another set-up", d.Interface())
		}
		for _, j := range []int{i + 1, i - 1} {
			if j < 0 || j >= len(els) || els[j].V.Type() != s.V.Type() || els[j].repr() == s.repr() {
				continue
			}
			t := els[j]
			put("copied from "+t.Path, t.V.Interface())
			if j > i {
				a, b := s.V.Interface(), t.V.Interface()
				res = append(res, alteration{s.Path + " exchanged with " + t.Path, func() { s.V.Set(reflect.ValueOf(b)); t.V.Set(reflect.ValueOf(a)) }, func() { s.V.Set(reflect.ValueOf(a)); t.V.Set(reflect.ValueOf(b)) }})
			}
		}
	}
	return res
}

func redigest(P *pol.PublicParams) {
	P.PPPP.SetupDigest()
	P.POEPP.SetupDigest()
	P.RPPP.RecomputeDigest()
}

// digestMonitor alters every element and watches the digest.
func digestMonitor(c *Ctx, what string, ptr, other interface{}, skip func(string) bool, digest func() []byte) {
	base := append([]byte{}, digest()...)
	seen := map[string]string{string(base): "unaltered"}
	c.Check(bytes.Equal(digest(), base) && len(base) == 32, "%s: the digest is not reproducible", what)
	for _, a := range replacements(ptr, other) {
		if skip != nil && skip(a.name) {
			continue
		}
		a.set()
		d := string(digest())
		a.undo()
		if old, ok := seen[d]; ok {
			c.Check(false, "%s: with %s the digest is that of the parameters %s", what, a.name, old)
			return
		}
		if !strings.Contains(a.name, "copied") && !strings.Contains(a.name, "exchanged") { // the others may coincide with each other
			seen[d] = a.name
		}
		c.Eval()
		c.Saw("digests compared", 1)
		c.Distinct("digest %s %s", what, a.name)
	}
	c.Check(bytes.Equal(digest(), base), "%s: the digest is not that of before after the parameters were restored", what)
}

// used says whether the verification of liability proofs reads the element at
// the path, and whether it does so directly (not only through a digest).
func usedParam(path string, n int, opened map[int]bool) (used, directly bool) {
	var i int
	switch {
	case strings.HasPrefix(path, ".PPPP.G1s["):
		return true, strings.HasPrefix(path, ".PPPP.G1s[0]")
	case strings.HasPrefix(path, ".PPPP.G2s["):
		fmt.Sscanf(path, ".PPPP.G2s[%d]", &i)
		return true, opened[i]
	case path == ".PPPP.Gt":
		return true, true
	case path == ".SAPP.G":
		return false, false
	case strings.HasPrefix(path, ".SAPP."), strings.HasPrefix(path, ".RPPP."):
		return true, true
	case strings.HasPrefix(path, ".POEPP.G["), strings.HasPrefix(path, ".POEPP.H["), path == ".POEPP.F":
		return true, true
	}
	return false, false
}

func c20Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, f func(*Ctx)) { cases = append(cases, Case{Name: name, Run: f}) }

	add("digests", func(c *Ctx) {
		for _, n := range []int{2, 5, 17, p.Pick(33, 130)} {
			P, Q := pp.NewPublicParams(n), pp.NewPublicParams(n)
			c.Check(!bytes.Equal(P.Digest, Q.Digest), "independent set-ups have the same digest")
			for i := range P.G1s {
				if i != n {
					c.Check(!P.G1s[i].Equals(Q.G1s[i]), "independent set-ups share G1s[%d]", i)
				}
			}
			was := append([]byte{}, P.Digest...)
			digestMonitor(c, fmt.Sprintf("pp n=%d", n), P, Q, nil, func() []byte { P.SetupDigest(); return P.Digest })
			c.Check(bytes.Equal(was, P.Digest), "the digest of a fresh set-up is not the one of its content")
			E, F := poe.NewPublicParams(n, 4), poe.NewPublicParams(n, 8)
			was = append([]byte{}, E.Digest...)
			digestMonitor(c, fmt.Sprintf("poe n=%d", n), E, F, nil, func() []byte { E.PP.SetupDigest(); E.SetupDigest(); return E.Digest })
			c.Check(bytes.Equal(was, E.Digest), "the digest of a fresh equality set-up is not the one of its content")
			c.Check(!bytes.Equal(E.Digest, F.Digest), "set-ups for batches of different sizes have the same digest")
			B := bp.NewPublicParams(n)
			was = append([]byte{}, B.Digest...)
			digestMonitor(c, fmt.Sprintf("bp n=%d", n), B, bp.NewPublicParams(n), nil, func() []byte { B.RecomputeDigest(); return B.Digest })
			c.Check(bytes.Equal(was, B.Digest), "the digest of fresh inner product parameters is not the one of their content")
			noH := *B
			noH.H = nil
			digestMonitor(c, fmt.Sprintf("bp without H n=%d", n), &noH, nil, nil, func() []byte { noH.RecomputeDigest(); return noH.Digest })
			c.Check(!bytes.Equal(noH.Digest, B.Digest), "inner product parameters without H have the digest of those with H")
		}
		for _, n := range []int{1, 4, p.Pick(8, 16)} {
			R := bp.NewRangeProofPublicParams(n)
			was := append([]byte{}, R.Digest()...)
			digestMonitor(c, fmt.Sprintf("range n=%d", n), R, nil, nil, func() []byte { R.RecomputeDigest(); return R.Digest() })
			c.Check(bytes.Equal(was, R.Digest()), "the digest of fresh range proof parameters is not the one of their content")
		}
		c.Sample("all elements of parameters for vectors of length 2 to 33")
	})

	// what the constructors give
	for _, f := range []uint16{3, 7, 15, 31} {
		for _, kind := range []pol.TreeType{pol.Dense, pol.Sparse} {
			f, kind := f, kind
			if f == 31 && !p.Thorough {
				continue
			}
			add(fmt.Sprintf("set-up/%d-%v", f, kind), func(c *Ctx) {
				_, P := pol.GeneratePublicParams(f, kind)
				_, Q := pol.GeneratePublicParams(f, kind)
				setup := func(P *pol.PublicParams) {
					X := clone(P)
					redigest(X)
					c.Check(bytes.Equal(X.PPPP.Digest, P.PPPP.Digest) && bytes.Equal(X.POEPP.Digest, P.POEPP.Digest) && bytes.Equal(X.RPPP.Digest(), P.RPPP.Digest()), "fan-out %d: a digest of the set-up is not the one of its content", f)
					c.Check(reflect.DeepEqual(snapshot(P.POEPP.PP), snapshot(P.PPPP)), "fan-out %d: the parameters of the equality argument are not those of the vector commitment", f)
					n := int(f) + 1
					ok := len(P.SAPP.Gs) == n && len(P.RPPP.Gs) == n && P.SAPP.F.Equals(P.PPPP.G1s[n]) && P.RPPP.F.Equals(P.PPPP.G1s[n])
					for i := 0; ok && i < n; i++ {
						ok = P.SAPP.Gs[i].Equals(P.PPPP.G1s[i]) && P.RPPP.Gs[i].Equals(P.PPPP.G1s[i])
					}
					c.Check(ok, "fan-out %d: sum and range parameters are not the bases of the vector commitment", f)
					b := P.SAPP.H[:n-1].Sum()
					b.Sub(P.SAPP.H[n-1])
					c.Check(P.SAPP.B.Equals(b), "fan-out %d: B is not the commitment to (1,...,1,-1)", f)
					// all bases of one list, and of lists used together, are different
					for name, gs := range map[string]common.G1v{
						"commitment": P.PPPP.G1s,
						"sum":        append(append(append(common.G1v{}, P.SAPP.Gs...), P.SAPP.H...), P.SAPP.U, P.SAPP.F),
						"range":      append(append(append(common.G1v{}, P.RPPP.Gs...), append(append(common.G1v{}, P.RPPP.Hs...), P.RPPP.Fs...)...), P.RPPP.G, P.RPPP.H, P.RPPP.F),
						"equality":   append(append(common.G1v{}, P.POEPP.G...), append(P.POEPP.H, P.POEPP.F)...),
					} {
						seen := map[string]int{}
						for i, g := range gs {
							k := string(g.Bytes())
							if j, dup := seen[k]; dup {
								c.Check(false, "fan-out %d: bases %d and %d of %s are the same", f, j, i, name)
							}
							seen[k] = i
							c.Check(!g.IsInfinity(), "fan-out %d: base %d of %s is the identity", f, i, name)
						}
					}
				}
				setup(P)
				setup(Q)
				c.Check(!bytes.Equal(P.PPPP.Digest, Q.PPPP.Digest) && !bytes.Equal(P.POEPP.Digest, Q.POEPP.Digest) && !bytes.Equal(P.RPPP.Digest(), Q.RPPP.Digest()), "fan-out %d: independent set-ups have a digest in common", f)
				c.Distinct("set-up %d %v", f, kind)
			})
		}
	}

	for h := 0; h < p.Pick(3, 15); h++ {
		add(fmt.Sprintf("arguments/%d", h), func(c *Ctx) { alteredArguments(c) })
	}
	for h := 0; h < p.Pick(6, 60); h++ {
		h := h
		add(fmt.Sprintf("liability/%d", h), func(c *Ctx) {
			sh := [][2]int{{3, 2}, {3, 3}, {7, 2}, {3, 4}}[h%4]
			pub := freshCustom(sh[0], sh[1])
			alteredLiability(c, pub, h)
		})
	}
	return cases
}

// rejects verifies under altered parameters.
func rejects(c *Ctx, what string, verify func() error) {
	if c.failed() {
		return
	}
	var err error
	p := catch(func() { err = verify() })
	c.Eval()
	c.Saw("proofs judged under other parameters", 1)
	c.Distinct("%s", what)
	if p == nil && err == nil {
		c.Fail("accepted under other parameters: %s", what)
	}
}

func alteredArguments(c *Ctx) {
	n := []int{4, 8}[c.R.Intn(2)]
	each := func(what string, ptr, other interface{}, every int, skip func(string) bool, re func(), verify func() error) {
		if err := verify(); err != nil {
			c.Fail("%s: honest proof rejected: %v", what, err)
			return
		}
		for i, a := range replacements(ptr, other) {
			if skip != nil && skip(a.name) || (i+c.R.Intn(every))%every != 0 {
				continue
			}
			a.set()
			rejects(c, what+" "+a.name, verify)
			if re != nil {
				re()
				rejects(c, what+" "+a.name+", digest recomputed", verify)
			}
			a.undo()
			if re != nil {
				re()
			}
		}
		if err := verify(); err != nil {
			c.Fail("%s: honest proof rejected under the restored parameters: %v", what, err)
		}
	}
	flip := func(what string, d []byte, verify func() error) {
		for _, i := range []int{0, 15, 31} {
			d[i] ^= 0x10
			rejects(c, fmt.Sprintf("%s with byte %d of the parameter digest changed", what, i), verify)
			d[i] ^= 0x10
		}
	}
	// inner product
	B := bp.NewPublicParams(n)
	ipp := bp.NewInnerProdArgument(B, randVec(c.R, n), randVec(c.R, n)).Prove()
	each("inner product", B, nil, 1, nil, B.RecomputeDigest, func() error { return ipp.Verify(B) })
	flip("inner product", B.Digest, func() error { return ipp.Verify(B) })
	// reduction
	D := &bp.PP{G: common.RandGenVec(n, "g"), U: common.RandGenVec(1, "u")[0]}
	D.RecomputeDigest()
	v := randVec(c.R, n)
	V := msm(D.G, v)
	Δ, _, u := bp.IterativeReduce(D, v, V)
	verify := func() error { _, _, err := bp.IterativeVerify(D, V, Δ, u); return err }
	each("reduction", D, nil, 1, func(s string) bool { return strings.HasPrefix(s, ".U") }, D.RecomputeDigest, verify)
	flip("reduction", D.Digest, verify)
	D.U = plusG(D.U, curve.GenG1)
	D.RecomputeDigest()
	rejects(c, "reduction with U shifted, digest recomputed", verify)
	// sum
	S := sum.NewPublicParams(n)
	sv, r := sumVec(c.R, n, bigZero()), randZr(c.R)
	for zint(sv[0]).Sign() == 0 {
		sv = sumVec(c.R, n, bigZero())
	}
	SV := sumCommit(S, sv, r)
	arg, sp := sum.NewArgument(S, SV, sv, r)
	notG := func(s string) bool {
		return strings.HasPrefix(s, ".G ") || strings.Contains(s, "with .G") && !strings.Contains(s, ".Gs") || strings.HasPrefix(s, ".b")
	}
	each("sum", S, nil, 1, notG, nil, func() error { return sp.Verify(S, arg) })
	// openings, equality
	P, Q := pp.NewPublicParams(n), pp.NewPublicParams(n)
	m1, m2 := randVec(c.R, n), randVec(c.R, n)
	i, j := c.R.Intn(n-1), c.R.Intn(n-1) // the last entry is for blinding
	m2[j] = m1[i]
	C1, C2 := pp.Commit(P, m1), pp.Commit(P, m2)
	x1, π1 := pp.Open(P, i, m1)
	x2, π2 := pp.Open(P, j, m2)
	rejects(c, "opening under an independent set-up", func() error { return pp.Verify(Q, x1, π1, C1, i) })
	cs := common.G1v{C1, C2}
	π := pp.Aggregate(P, cs, []*math.G1{π1, π2}, pp.RO)
	Σ := addZ(mulZ(x1, pp.RO(P, cs, 0)), mulZ(x2, pp.RO(P, cs, 1)))
	agg := func() error { return pp.VerifyAggregation(P, []int{i, j}, cs, π, Σ, pp.RO) }
	for k, a := range replacements(P, Q) {
		a.set()
		if strings.HasPrefix(a.name, fmt.Sprintf(".G2s[%d]", n-1-i)) || strings.HasPrefix(a.name, ".Gt") {
			rejects(c, "opening "+a.name, func() error { return pp.Verify(P, x1, π1, C1, i) })
			rejects(c, "aggregation "+a.name, agg)
		}
		P.SetupDigest()
		if k%2 == 0 {
			rejects(c, "aggregation "+a.name+", digest recomputed", agg)
		}
		a.undo()
		P.SetupDigest()
	}
	flip("aggregation", P.Digest, agg)
	E, F := poe.NewPublicParams(n, 2), poe.NewPublicParams(n, 2)
	E.PP, F.PP = P, Q
	E.SetupDigest()
	F.SetupDigest()
	e := &poe.Equality{RO: poe.RO, PP: E, V: C1, W: C2, I: i, J: j}
	ep := e.Prove(m1, m2)
	es := &poe.Equalities{RO: poe.RO, PP: E, V: common.G1v{C1, C2}, W: common.G1v{C2, C1}, I: []int{i, j}, J: []int{j, i}}
	ap := es.Prove([]common.Vec{m1, m2}, []common.Vec{m2, m1})
	re := func() { P.SetupDigest(); E.SetupDigest() }
	single, many := func() error { return e.Verify(ep) }, func() error { return es.Verify(ap) }
	if single() != nil || many() != nil {
		c.Fail("an honest equality proof is rejected: %v %v i=%d j=%d n=%d", single(), many(), i, j, n)
		return
	}
	for k, a := range replacements(E, F) {
		a.set()
		if strings.HasPrefix(a.name, ".G[") || strings.HasPrefix(a.name, ".H[") || strings.HasPrefix(a.name, ".F ") || strings.HasPrefix(a.name, ".PP.G1s[0]") ||
			strings.HasPrefix(a.name, fmt.Sprintf(".PP.G2s[%d]", n-1-i)) || strings.HasPrefix(a.name, fmt.Sprintf(".PP.G2s[%d]", n-1)) {
			rejects(c, "equalities "+a.name, many)
		}
		re()
		if k%3 != 2 || strings.HasPrefix(a.name, ".G[") || strings.HasPrefix(a.name, ".H[") {
			rejects(c, "equalities "+a.name+", digest recomputed", many)
			rejects(c, "equality "+a.name+", digest recomputed", single)
		}
		a.undo()
		re()
	}
	flip("equalities", E.Digest, many)
	flip("equality", E.Digest, single)
	if single() != nil || many() != nil {
		c.Fail("an honest equality proof is rejected under the restored parameters")
	}
	e.PP, es.PP = F, F
	rejects(c, "equality under an independent set-up", single)
	rejects(c, "equalities under an independent set-up", many)
	// range
	rn := 4
	R := bp.NewRangeProofPublicParams(rn)
	rv := common.Vec{zr(c.R.Int63()), zr(max63), zr(1), zr(c.R.Int63())}
	br := randZr(c.R)
	RV := plusG(mulG(R.F, br), msm(R.Gs, rv))
	rp := bp.ProveRange(R, RV, rv, br)
	vr := func() error { return bp.VerifyRange(R, rp, RV) }
	each("range", R, nil, c.plan.Pick(20, 2), nil, R.RecomputeDigest, vr)
	if s := find(R, ".digest"); s != nil && s.V.Type() == tByt && s.V.Len() == 32 {
		flip("range", s.V.Interface().([]byte), vr)
	}
	c.Sample("arguments over vectors of length %d", n)
}

func alteredLiability(c *Ctx, pub *Pub, h int) {
	s := newSet(pub)
	randomHistory(c.R, s, 5)
	ids := s.IDs()
	id := ids[c.R.Intn(len(ids))]
	pr := proveAndVerify(c, s, id, "honest")
	if pr == nil {
		return
	}
	V, W := s.Root()
	tp := s.ProveTot()
	// other set-ups
	o := freshCustom(pub.F, pub.D)
	under := func(what string, P *pol.PublicParams) {
		rejects(c, pub.Kind+" "+what, func() error { _, err := pr.Verify(P, id, V, W, pub.Path); return err })
	}
	under("an independent set-up", o.PP)
	rejects(c, pub.Kind+" total under an independent set-up", func() error { return tp.Verify(o.PP, V) })
	for _, f := range []int{3, 7, 15} {
		if f != pub.F {
			under(fmt.Sprintf("a set-up of fan-out %d", f), custom(f, pub.D).PP)
		}
	}
	// parts of another set-up
	for k := 0; k < 4; k++ {
		X := *pub.PP
		switch k {
		case 0:
			X.PPPP = o.PP.PPPP
		case 1:
			X.SAPP = o.PP.SAPP
		case 2:
			X.RPPP = o.PP.RPPP
		case 3:
			X.POEPP = o.PP.POEPP
		}
		under(fmt.Sprintf("part %d of an independent set-up", k), &X)
	}
	X := clone(pub.PP)
	n := X.PPPP.N
	opened := map[int]bool{n - 1 - pub.F: true}
	for _, i := range pub.Path(id) {
		opened[n-1-int(i)] = true
	}
	Y := clone(o.PP)
	as := replacements(X, Y)
	c.R.Shuffle(len(as), func(i, j int) { as[i], as[j] = as[j], as[i] })
	// an even share of every list
	count := map[string]int{}
	for _, a := range as {
		path := strings.SplitN(a.name, " ", 2)[0]
		used, directly := usedParam(path, n, opened)
		if !used {
			continue
		}
		list := strings.SplitN(path, "[", 2)[0]
		if count[list]++; count[list] > c.plan.Pick(3, 30) {
			continue
		}
		a.set()
		if directly {
			under(a.name, X)
		}
		redigest(X)
		under(a.name+", digests recomputed", X)
		if list == ".PPPP.Gt" {
			rejects(c, pub.Kind+" total "+a.name, func() error { return tp.Verify(X, V) })
		}
		a.undo()
		redigest(X)
	}
	if _, err := pr.Verify(X, id, V, W, pub.Path); err != nil {
		c.Fail("%s: the proof is rejected under a copy of the parameters: %v", pub.Kind, err)
	}
	c.Sample("%s: %d possible alterations, %v tried per list", pub.Kind, len(as), len(count))
}
