package main

import (
	"crypto/sha256"
	"encoding/asn1"
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"sync"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sparse"
	"pol/sum"
	"pol/verkle"

	math "github.com/IBM/mathlib"
)

func init() {
	register(&Property{
		ID:    "C04",
		Rule:  "Malicious provers who know all openings build trees that violate one relation at one level (or several which compensate): substituted vertices and subtrees, forged sums, unequal parents and children, entries and sums out of range, digests and amounts opened elsewhere. They let the real prover work on the forged vertices and replace its sub-proofs by those of every way to avoid the violated relation. Calibrated on trees that violate nothing, whose proofs must be accepted. All forgeries must be rejected; and for forged stores the amounts accepted for distinct identifiers under one root must add up to no more than the total accepted under it. distinct = (dimensions, level, attack, variant).",
		Cases: c04Cases,
	})
}

// level is a vertex of which the prover knows everything.
type level struct {
	vals common.Vec // the entries and their sum
	r    *math.Zr
	digs common.Vec // with an unused and the blinding entry
	V, W *math.G1
}

// evilTree is a path of vertices, with which a prover works.
type evilTree struct {
	pub  *Pub
	path []uint16
	id   string
	lv   []*level
}

func (t *evilTree) f() int { return t.pub.F }

// fill gives a level its honest content, given the one below (or nil).
func (t *evilTree) fill(c *Ctx, i int, below *level) *level {
	f := t.f()
	l := &level{vals: make(common.Vec, f+1), r: randZr(c.R), digs: make(common.Vec, f+2)}
	sum := new(big.Int)
	for j := 0; j < f; j++ {
		x := big.NewInt(c.R.Int63n(1 << 50))
		if c.R.Intn(4) == 0 {
			x = new(big.Int)
		}
		if i == len(t.path)-1 && j == int(t.path[i]) {
			x = big.NewInt(1<<40 + c.R.Int63n(1<<50)) // the client's
		}
		if below != nil && j == int(t.path[i]) {
			x = zint(below.vals[f])
		}
		l.vals[j] = zrBig(x)
		sum.Add(sum, x)
		l.digs[j] = randZr(c.R)
	}
	l.vals[f] = zrBig(sum)
	l.digs[f], l.digs[f+1] = zr(0), randZr(c.R)
	if below != nil {
		l.digs[t.path[i]] = digestOf(below.V, below.W)
	}
	return l
}

// resum makes the sum slot the sum of the entries.
func (l *level) resum() {
	f := len(l.vals) - 1
	l.vals[f] = zrBig(inner(l.vals[:f], ones(f)))
}

func ones(n int) common.Vec {
	v := make(common.Vec, n)
	for i := range v {
		v[i] = zr(1)
	}
	return v
}

func (t *evilTree) commit(i int, l *level) {
	l.V = commitBlind(t.pub.PP.PPPP, l.vals, l.r)
	l.W = nil
	if i < len(t.path)-1 {
		l.W = msm(t.pub.PP.PPPP.G1s, l.digs)
	}
}

// build makes the levels from the bottom up; mod may change each before it is committed to.
func (t *evilTree) build(c *Ctx, mod func(i int, l *level)) {
	t.lv = make([]*level, len(t.path))
	t.rebuild(c, len(t.path)-1, mod)
}

// rebuild makes the levels from the given one up.
func (t *evilTree) rebuild(c *Ctx, from int, mod func(i int, l *level)) {
	for i := from; i >= 0; i-- {
		var below *level
		if i+1 < len(t.path) {
			below = t.lv[i+1]
		}
		l := t.fill(c, i, below)
		if mod != nil {
			mod(i, l)
		}
		t.commit(i, l)
		t.lv[i] = l
	}
}

func newEvilTree(c *Ctx, f, d int) *evilTree {
	pub := custom(f, d)
	id := pub.RandID(c.R)
	return &evilTree{pub: pub, id: id, path: pub.Path(id)}
}

func kv(v common.Vec) []verkle.KV {
	var res []verkle.KV
	for i, x := range v {
		k := make([]byte, 2)
		binary.BigEndian.PutUint16(k, uint16(i))
		res = append(res, verkle.KV{K: k, V: x.Bytes()})
	}
	return res
}

// prove lets the real prover work on vertices of the prover's own.
func (t *evilTree) prove() *pol.LiabilityProof {
	s := newSet(t.pub)
	s.Put(t.id, 1)
	_, path, ok := treeOf(s.LiabilitySet).Tree.Get(t.id)
	if !ok || len(path) != len(t.lv) {
		panic(skipCase("the path of an identifier cannot be read"))
	}
	f := t.f()
	for i, l := range t.lv {
		raw := verkle.RawVertex{V: l.V.Bytes(), BlindingFactor: l.r.Bytes(), Sum: l.vals[f].Bytes(), Values: kv(l.vals[:f])}
		if l.W != nil {
			raw.W = l.W.Bytes()
			raw.Digests = kv(l.digs)
		}
		b, err := asn1.Marshal(raw)
		if err != nil {
			panic(skipCase(err.Error()))
		}
		s.LiabilitySet.DB.Put([]byte(path[i].(*sparse.Vertex).Data.(string)), b)
	}
	var proof pol.LiabilityProof
	if p := catch(func() {
		_, pr, _, found := s.ProveLiability(t.id)
		proof, ok = pr, found
	}); p != nil || !ok {
		return nil
	}
	return &proof
}

func (t *evilTree) verify(proof *pol.LiabilityProof, V, W *math.G1) error {
	var err error
	if p := catch(func() { err = verifyLP(t.pub, t.id, *proof, V, W) }); p != nil {
		return fmt.Errorf("panic: %v", p)
	}
	return err
}

// openAt is the opening of entry j of level i as a proof of an amount.
func (t *evilTree) openAt(l *level, j int) (*big.Int, *math.G1) {
	m := append(append([]*math.Zr{}, l.vals...), l.r)
	x, π := openRef(t.pub.PP.PPPP.G1s, len(m), j, m)
	return zint(x), π
}

// own replaces what the real prover made by what is made from the levels.
func (t *evilTree) own(proof *pol.LiabilityProof) {
	n := len(t.lv)
	for i, l := range t.lv {
		i, l := i, l
		catch(func() { proof.RangeProofs[i] = bp.ProveRange(t.pub.PP.RPPP, l.V, l.vals, l.r) })
	}
	proof.SumArgumentProof = t.sums(nil, proof.SumArgumentProof)
	proof.EqualityProof = t.equalities(nil, proof.EqualityProof)
	x, π := t.openAt(t.lv[n-1], int(t.path[n-1]))
	proof.LiabilityProof = pol.TotalProof{Sum: int(x.Int64()), LiabilityProof: π}
}

// sums is a sum argument about the levels but those left out (or with other vectors).
func (t *evilTree) sums(skip map[int]bool, or *sum.Proof) *sum.Proof {
	var V common.G1v
	var v []common.Vec
	var r common.Vec
	for i, l := range t.lv {
		if !skip[i] {
			V, v, r = append(V, l.V), append(v, l.vals), append(r, l.r)
		}
	}
	res := or
	catch(func() { res = sum.NewAggregatedArgument(t.pub.PP.SAPP, V, v, r) })
	return res
}

func (t *evilTree) equalities(mod func(es *poe.Equalities, vs, ws []common.Vec), or *poe.AggregatedProof) *poe.AggregatedProof {
	P := t.pub.PP
	f := t.f()
	es := &poe.Equalities{PP: P.POEPP, RO: poe.RO}
	var vs, ws []common.Vec
	for i := 0; i+1 < len(t.lv); i++ {
		a, b := t.lv[i], t.lv[i+1]
		es.V, es.W = append(es.V, a.V), append(es.W, b.V)
		es.I, es.J = append(es.I, int(t.path[i])), append(es.J, f)
		vs, ws = append(vs, append(copyVec(a.vals), a.r)), append(ws, append(copyVec(b.vals), b.r))
	}
	zero := make(common.Vec, f+2)
	zero.Zero()
	for !common.IsPowerOfTwo(uint16(len(vs))) {
		es.V, es.W, es.I, es.J = append(es.V, inf()), append(es.W, inf()), append(es.I, 0), append(es.J, 0)
		vs, ws = append(vs, zero), append(ws, zero)
	}
	if mod != nil {
		mod(es, vs, ws)
	}
	res := or
	catch(func() { res = es.Prove(vs, ws) })
	return res
}

// attempt judges a forgery.
func (t *evilTree) attempt(c *Ctx, what, variant string, proof *pol.LiabilityProof, V, W *math.G1) bool {
	if proof == nil {
		c.Saw("forgeries the prover could not complete", 1)
		return true
	}
	err := t.verify(proof, V, W)
	c.Eval()
	c.Saw("forged proofs judged", 1)
	c.Distinct("%s %s %s", t.pub.Kind, what, variant)
	if err == nil {
		c.Fail("%s: a proof for %s of %d is accepted although %s (%s)", t.pub.Kind, t.id, proof.LiabilityProof.Sum, what, variant)
		return false
	}
	return true
}

// forge makes proofs about the levels as they are, avoiding the relations at bad levels.
func (t *evilTree) forge(c *Ctx, what string, bad map[int]bool, rel string) bool {
	n := len(t.lv)
	V, W := t.lv[0].V, t.lv[0].W
	base := t.prove()
	if base == nil {
		// the prover refuses such values: let it make what depends on the
		// digests, which are as they are, with other values
		real := t.lv
		t.lv = nil
		for _, l := range real {
			d := *l
			d.vals = common.Vec{}
			for j := 0; j < t.f(); j++ {
				d.vals = append(d.vals, zr(int64(j)))
			}
			d.vals = append(d.vals, zr(0))
			d.resum()
			t.lv = append(t.lv, &d)
		}
		base = t.prove()
		t.lv = real
		if base == nil {
			c.Saw("forgeries the prover could not complete", 1)
			return true
		}
		t.own(base)
	}
	if !t.attempt(c, what, "by the real prover", base, V, W) {
		return false
	}
	var l int
	for i := range bad {
		l = i
	}
	full := c.plan.Thorough || c.R.Intn(3) == 0
	var alts []struct {
		name string
		f    func(p *pol.LiabilityProof)
	}
	alt := func(name string, f func(p *pol.LiabilityProof)) {
		alts = append(alts, struct {
			name string
			f    func(p *pol.LiabilityProof)
		}{name, f})
	}
	good := &evilTree{pub: t.pub, path: t.path, id: t.id}
	good.build(c, nil)
	switch rel {
	case "sum":
		alt("sum argument about the other levels", func(p *pol.LiabilityProof) { p.SumArgumentProof = t.sums(bad, p.SumArgumentProof) })
		alt("sum argument about the upper levels", func(p *pol.LiabilityProof) {
			skip := map[int]bool{}
			for i := l; i < n; i++ {
				skip[i] = true
			}
			if l == 0 {
				skip = map[int]bool{0: true}
			}
			p.SumArgumentProof = t.sums(skip, p.SumArgumentProof)
		})
		alt("sum argument with corrected sums", func(p *pol.LiabilityProof) {
			x := &evilTree{pub: t.pub, path: t.path, id: t.id}
			for i, lv := range t.lv {
				d := *lv
				if bad[i] {
					d.vals = copyVec(lv.vals)
					d.resum()
				}
				x.lv = append(x.lv, &d)
			}
			p.SumArgumentProof = x.sums(nil, p.SumArgumentProof)
		})
		alt("sum argument of another tree", func(p *pol.LiabilityProof) { p.SumArgumentProof = good.sums(nil, p.SumArgumentProof) })
	case "equality":
		alt("equality argument without the level", func(p *pol.LiabilityProof) {
			p.EqualityProof = t.equalities(func(es *poe.Equalities, vs, ws []common.Vec) {
				for i := range vs {
					if bad[i] {
						z := make(common.Vec, len(vs[i]))
						z.Zero()
						vs[i], ws[i], es.V[i], es.W[i], es.I[i], es.J[i] = z, z, inf(), inf(), 0, 0
					}
				}
			}, p.EqualityProof)
		})
		alt("equality argument with the child's sum in the parent's vector", func(p *pol.LiabilityProof) {
			p.EqualityProof = t.equalities(func(es *poe.Equalities, vs, ws []common.Vec) {
				for i := range vs {
					if bad[i] {
						vs[i][es.I[i]] = ws[i][es.J[i]]
					}
				}
			}, p.EqualityProof)
		})
		alt("equality argument with the parent's entry in the child's vector", func(p *pol.LiabilityProof) {
			p.EqualityProof = t.equalities(func(es *poe.Equalities, vs, ws []common.Vec) {
				for i := range vs {
					if bad[i] {
						ws[i][es.J[i]] = vs[i][es.I[i]]
					}
				}
			}, p.EqualityProof)
		})
		alt("equality argument at other indices", func(p *pol.LiabilityProof) {
			p.EqualityProof = t.equalities(func(es *poe.Equalities, vs, ws []common.Vec) {
				for i := range vs {
					if bad[i] {
						for j := range vs[i][:t.f()] {
							if eqZ(vs[i][j], ws[i][es.J[i]]) {
								es.I[i] = j
							}
							if eqZ(ws[i][j], vs[i][es.I[i]]) {
								es.J[i] = j
							}
						}
					}
				}
			}, p.EqualityProof)
		})
		alt("equality argument of another tree", func(p *pol.LiabilityProof) { p.EqualityProof = good.equalities(nil, p.EqualityProof) })
	case "range":
		each := func(f func(i int, lv *level) *bp.RangeProof) func(p *pol.LiabilityProof) {
			return func(p *pol.LiabilityProof) {
				p.RangeProofs = append([]*bp.RangeProof{}, p.RangeProofs...)
				for i, lv := range t.lv {
					if bad[i] {
						i, lv := i, lv
						catch(func() { p.RangeProofs[i] = f(i, lv) })
					}
				}
			}
		}
		low := func(lv *level, f func(*big.Int) *big.Int) common.Vec {
			v := copyVec(lv.vals)
			for j := range v {
				v[j] = zrBig(f(zint(v[j])))
			}
			return v
		}
		mod63 := func(x *big.Int) *big.Int { return new(big.Int).Mod(x, two63) }
		abs := func(x *big.Int) *big.Int {
			if x.Cmp(two63) >= 0 {
				x = new(big.Int).Sub(q, x)
			}
			return mod63(x)
		}
		alt("range proof of the lower bits", each(func(i int, lv *level) *bp.RangeProof {
			return bp.ProveRange(t.pub.PP.RPPP, lv.V, low(lv, mod63), lv.r)
		}))
		alt("range proof of absolute values", each(func(i int, lv *level) *bp.RangeProof {
			return bp.ProveRange(t.pub.PP.RPPP, lv.V, low(lv, abs), lv.r)
		}))
		alt("range proof of another vertex", each(func(i int, lv *level) *bp.RangeProof {
			return bp.ProveRange(t.pub.PP.RPPP, good.lv[i].V, good.lv[i].vals, good.lv[i].r)
		}))
		alt("range proof of another level", func(p *pol.LiabilityProof) {
			p.RangeProofs = append([]*bp.RangeProof{}, p.RangeProofs...)
			for i := range t.lv {
				for j := range t.lv {
					if bad[i] && !bad[j] {
						p.RangeProofs[i] = p.RangeProofs[j]
					}
				}
			}
		})
	}
	only := c.one(len(alts))
	if only >= 0 && c.R.Intn(3) > 0 {
		return true
	}
	for k, a := range alts {
		if only >= 0 && k != only || only < 0 && !full && c.R.Intn(2) == 0 {
			continue
		}
		x := *base
		a.f(&x)
		if !t.attempt(c, what, a.name, &x, V, W) {
			return false
		}
	}
	return true
}

func levelsOf(is ...int) map[int]bool {
	m := map[int]bool{}
	for _, i := range is {
		m[i] = true
	}
	return m
}

type calibration struct {
	sync.Once
	failed interface{}
}

var calibrated sync.Map

// calibrate says whether trees of this kind that violate nothing are accepted.
func (t *evilTree) calibrate(c *Ctx) {
	if c.lite {
		// once for all of a kind
		o, _ := calibrated.LoadOrStore([2]int{t.f(), len(t.path)}, &calibration{})
		cal := o.(*calibration)
		cal.Do(func() {
			x := *c
			x.R, x.lite = rand.New(rand.NewSource(c.plan.Seed)), false
			cal.failed = catch(func() { newEvilTree(&x, t.f(), len(t.path)).calibrate(&x) })
		})
		if cal.failed != nil {
			panic(cal.failed)
		}
		return
	}
	t.build(c, nil)
	p := t.prove()
	if p == nil {
		panic(skipCase("the prover does not work on vertices of its own"))
	}
	if err := t.verify(p, t.lv[0].V, t.lv[0].W); err != nil {
		panic(skipCase("proofs about trees of its own are rejected: " + err.Error()))
	}
	t.own(p)
	if err := t.verify(p, t.lv[0].V, t.lv[0].W); err != nil {
		// those of the real prover remain
		c.Saw("trees for which arguments of its own are rejected", 1)
		return
	}
	c.Saw("honest trees accepted for calibration", 1)
}

// one returns which of n variants to try, or -1 for any.
func (c *Ctx) one(n int) int {
	if c.lite && n > 0 {
		return c.R.Intn(n)
	}
	return -1
}

// other returns an index other than j.
func otherIndex(c *Ctx, f, j int) int { return (j + 1 + c.R.Intn(f-1)) % f }

func forgedSums(c *Ctx, f, d, i int) {
	t := newEvilTree(c, f, d)
	t.calibrate(c)
	deltas := []*big.Int{big.NewInt(1), big.NewInt(-1), nil, big.NewInt(-1 << 39), big.NewInt(1 << 40)}
	only := c.one(len(deltas))
	for k, δ := range deltas {
		if only >= 0 && k != only {
			continue
		}
		if only < 0 && !c.plan.Thorough && k > 2 && c.R.Intn(3) > 0 || c.failed() {
			continue
		}
		what := fmt.Sprintf("the sum of level %d is not that of its entries: %v more", i, δ)
		t.build(c, func(j int, l *level) {
			if i == j {
				if δ == nil { // without the client
					l.vals[f] = subZ(l.vals[f], l.vals[t.path[i]])
				} else {
					l.vals[f] = addZ(l.vals[f], zrBig(δ))
				}
			}
		})
		t.forge(c, what, levelsOf(i), "sum")
	}
	if c.lite && c.R.Intn(2) == 0 {
		return
	}
	// two levels which compensate
	j := (i + 1) % d
	δ := c.R.Int63n(1<<38) + 1
	t.build(c, func(k int, l *level) {
		if k == i {
			l.vals[f] = addZ(l.vals[f], zr(δ))
		}
		if k == j {
			l.vals[f] = subZ(l.vals[f], zr(δ))
		}
	})
	if !c.failed() {
		t.forge(c, fmt.Sprintf("the sums of levels %d and %d are off by %d and %d", i, j, δ, -δ), levelsOf(i, j), "sum")
	}
}

func unequalLevels(c *Ctx, f, d, i int) {
	t := newEvilTree(c, f, d)
	t.calibrate(c)
	only := c.one(6)
	for k, kind := range []string{"one less", "zero", "elsewhere", "random", "one more", "an other entry of the child"} {
		if only >= 0 && k != only {
			continue
		}
		if only < 0 && !c.plan.Thorough && k > 2 && c.R.Intn(3) > 0 || c.failed() {
			continue
		}
		t.build(c, func(j int, l *level) {
			if i != j {
				return
			}
			p := int(t.path[i])
			switch kind {
			case "one less":
				l.vals[p] = subZ(l.vals[p], zr(1))
			case "one more":
				l.vals[p] = addZ(l.vals[p], zr(1))
			case "zero":
				l.vals[p] = zr(0)
			case "elsewhere":
				o := otherIndex(c, f, p)
				l.vals[o], l.vals[p] = l.vals[p], zr(int64(c.R.Intn(3)))
			case "random":
				l.vals[p] = zr(c.R.Int63n(1 << 50))
			case "an other entry of the child":
				l.vals[p] = t.lv[i+1].vals[c.R.Intn(f)].Copy()
				if eqZ(l.vals[p], t.lv[i+1].vals[f]) {
					l.vals[p] = addZ(l.vals[p], zr(1))
				}
			}
			l.resum()
		})
		t.forge(c, fmt.Sprintf("the entry of level %d for the subtree is not its sum: %s", i, kind), levelsOf(i), "equality")
	}
	if d > 2 && !c.failed() && (!c.lite || c.R.Intn(2) == 0) {
		j := (i + 1) % (d - 1)
		δ := c.R.Int63n(1<<38) + 1
		t.build(c, func(k int, l *level) {
			switch k {
			case i:
				l.vals[t.path[k]] = addZ(l.vals[t.path[k]], zr(δ))
			case j:
				l.vals[t.path[k]] = subZ(l.vals[t.path[k]], zr(δ))
			}
			if k == i || k == j {
				l.resum()
			}
		})
		t.forge(c, fmt.Sprintf("the entries of levels %d and %d are off by %d and %d", i, j, δ, -δ), levelsOf(i, j), "equality")
	}
}

func outOfRangeLevels(c *Ctx, f, d, i int) {
	t := newEvilTree(c, f, d)
	t.calibrate(c)
	xs := outOfRange(c)
	only := c.one(len(xs))
	for k, x := range xs {
		if only >= 0 && k != only {
			continue
		}
		if c.failed() || only < 0 && !c.plan.Thorough && k != 0 && k != 1 && c.R.Intn(5) > 0 {
			continue
		}
		// negative liabilities hide those of the clients
		o := otherIndex(c, f, int(t.path[i]))
		bad := levelsOf(i)
		t.build(c, func(j int, l *level) {
			if i == j {
				l.vals[o] = zrBig(x)
				l.resum()
			}
			for _, v := range l.vals {
				if zint(v).Cmp(two63) >= 0 {
					bad[j] = true
				}
			}
		})
		t.forge(c, fmt.Sprintf("an entry of level %d is %v", i, x), bad, "range")
	}
	if c.lite {
		return
	}
	// a chain of sums, the root's included, that is negative or too large
	for _, x := range []*big.Int{new(big.Int).Neg(big.NewInt(1 << 61)), new(big.Int).Neg(big.NewInt(c.R.Int63n(1<<30) + 1)), two63} {
		if c.failed() || !c.plan.Thorough && c.R.Intn(2) == 0 {
			continue
		}
		bad := map[int]bool{}
		t.build(c, func(j int, l *level) {
			if i == j {
				for k := range l.vals[:f] {
					if k != int(t.path[i]) {
						l.vals[k] = zr(0)
					}
				}
				o := otherIndex(c, f, int(t.path[i]))
				l.vals[o] = subZ(zrBig(x), l.vals[t.path[i]])
				l.resum()
			}
			for _, v := range l.vals {
				if zint(v).Cmp(two63) >= 0 {
					bad[j] = true
				}
			}
		})
		t.forge(c, fmt.Sprintf("the sum of level %d is %v", i, x), bad, "range")
	}
	// the client's own amount
	if !c.failed() && i == d-1 {
		for _, x := range []*big.Int{big.NewInt(-1), big.NewInt(-1000), two63} {
			bad := map[int]bool{}
			t.build(c, func(j int, l *level) {
				if j == d-1 {
					l.vals[t.path[j]] = zrBig(x)
					l.resum()
				}
				for _, v := range l.vals {
					if zint(v).Cmp(two63) >= 0 {
						bad[j] = true
					}
				}
			})
			if !t.forge(c, fmt.Sprintf("the amount is %v", x), bad, "range") {
				return
			}
		}
	}
}

// substituted replaces level i (or the levels from it on) behind the back of its parent.
func substituted(c *Ctx, f, d, i int) {
	t := newEvilTree(c, f, d)
	t.calibrate(c)
	only := c.one(5)
	if i == d-1 && only != 0 && only >= 0 {
		only = 2 * c.R.Intn(2)
	}
	for k, kind := range []string{"V", "W", "vertex", "V and below", "below"} {
		if only >= 0 && k != only {
			continue
		}
		if c.failed() || !c.plan.Thorough && k > 3 && c.R.Intn(2) == 0 {
			continue
		}
		if i == d-1 && (kind == "W" || kind == "V and below" || kind == "below") {
			continue
		}
		t.build(c, nil)
		orig := t.lv
		V, W := orig[0].V, orig[0].W
		x := &evilTree{pub: t.pub, path: t.path, id: t.id, lv: append([]*level{}, orig...)}
		p := int(t.path[i])
		// other content with the same sum, and the same sum of the subtree on the path
		nl := *orig[i]
		nl.vals = copyVec(nl.vals)
		nl.digs = copyVec(nl.digs)
		redistribute := func() {
			a, b := otherIndex(c, f, p), p
			if i < d-1 {
				for b == p || b == a {
					if f == 2 {
						break
					}
					b = c.R.Intn(f)
				}
			}
			δ := zr(c.R.Int63n(1<<30) + 1)
			if zint(nl.vals[b]).Cmp(zint(δ)) < 0 {
				a, b = b, a
			}
			if zint(nl.vals[b]).Cmp(zint(δ)) < 0 { // both are small
				nl.r = randZr(c.R)
				return
			}
			nl.vals[a], nl.vals[b] = addZ(nl.vals[a], δ), subZ(nl.vals[b], δ)
			nl.r = randZr(c.R)
		}
		changed := i
		switch kind {
		case "V":
			redistribute()
		case "W":
			nl.digs[otherIndex(c, f, p)] = randZr(c.R)
		case "vertex":
			redistribute()
			nl.digs[otherIndex(c, f, p)] = randZr(c.R)
		case "V and below", "below":
			// another subtree with the same sum
			if kind == "V and below" {
				redistribute()
			}
			want := orig[i].vals[p]
			for j := d - 1; j > i; j-- {
				var below *level
				if j+1 < d {
					below = x.lv[j+1]
				}
				l := t.fill(c, j, below)
				if j == i+1 {
					// to the sum by an entry off the path, or the client's
					o := otherIndex(c, f, int(t.path[j]))
					for k := range l.vals[:f] {
						if k != o && k != int(t.path[j]) {
							l.vals[k] = zr(0)
						}
					}
					if zint(l.vals[t.path[j]]).Cmp(zint(want)) > 0 {
						if j < d-1 {
							// start over with a small subtree
							for m := d - 1; m > j; m-- {
								var b *level
								if m+1 < d {
									b = x.lv[m+1]
								}
								s := t.fill(c, m, b)
								for k := range s.vals[:f] {
									if m == d-1 || k != int(t.path[m]) {
										s.vals[k] = zr(0)
									}
								}
								s.resum()
								t.commit(m, s)
								x.lv[m] = s
							}
							l.vals[t.path[j]] = x.lv[j+1].vals[f]
							l.digs[t.path[j]] = digestOf(x.lv[j+1].V, x.lv[j+1].W)
						} else {
							l.vals[t.path[j]] = zr(0)
						}
					}
					l.vals[o] = zr(0)
					l.resum()
					l.vals[o] = subZ(want, l.vals[f])
					l.resum()
				}
				t.commit(j, l)
				x.lv[j] = l
			}
			nl.digs[p] = digestOf(x.lv[i+1].V, x.lv[i+1].W)
		}
		x.lv[i] = &nl
		x.commit(i, &nl)
		if kind == "below" {
			// the vertex is committed to as it was, the subtree below it is another
			x.lv[i] = orig[i]
			nl = *orig[i]
			x.lv[i] = &nl
			changed = i + 1
		}
		what := fmt.Sprintf("level %d is not the one its parent commits to (%s substituted)", changed, kind)
		if changed == 0 {
			what = fmt.Sprintf("the root is not the published one (%s substituted)", kind)
		}
		// what the parent's digest is said to be: the one committed to, or the one of what is shown
		for _, shown := range []bool{false, true} {
			y := &evilTree{pub: x.pub, path: x.path, id: x.id, lv: append([]*level{}, x.lv...)}
			if changed > 0 {
				par := *y.lv[changed-1] // W stays
				par.digs = copyVec(orig[changed-1].digs)
				if shown {
					par.digs[x.path[changed-1]] = digestOf(y.lv[changed].V, y.lv[changed].W)
				}
				y.lv[changed-1] = &par
			} else if shown {
				continue
			}
			variant := "with the digest committed to"
			if shown {
				variant = "with the digest of what is shown"
			}
			base := y.prove()
			if base == nil {
				c.Saw("forgeries the prover could not complete", 1)
				continue
			}
			if !x.attempt(c, what, variant, base, V, W) {
				return
			}
			if changed == 0 {
				// with the published root in front of what belongs to the other
				z := *base
				z.V, z.W = append(common.G1v{}, base.V...), append(common.G1v{}, base.W...)
				z.V[0], z.W[0] = V, W
				if !x.attempt(c, what, "with the published root in front", &z, V, W) {
					return
				}
				continue
			}
			// the openings of the honest chain, and the digests shown
			y.lv[changed-1].digs = copyVec(orig[changed-1].digs)
			h := y.prove()
			if h == nil || !shown {
				continue
			}
			z := *base
			z.PointProofπ, z.PointProofΣ = h.PointProofπ, h.PointProofΣ
			if !x.attempt(c, what, "with the digest of what is shown and openings of those committed to", &z, V, W) {
				return
			}
			z.PointProofΣ = base.PointProofΣ
			if !x.attempt(c, what, "with the digest of what is shown, their sum, and openings of those committed to", &z, V, W) {
				return
			}
			z = *base
			z.PointProofΣ = h.PointProofΣ
			if !x.attempt(c, what, "with the digest of what is shown and the sum of those committed to", &z, V, W) {
				return
			}
			// the aggregation that fits what is committed to, next to digests it is not of
			if w := weightsOf(t.pub, t.path, base); w == nil {
				c.Saw("weights of digests unknown", 1)
			} else {
				k := changed - 1
				z = *base
				z.PointProofΣ = subZ(base.PointProofΣ, mulZ(w[k], subZ(base.Digests[k], orig[k].digs[x.path[k]])))
				if !x.attempt(c, what, "with the digest of what is shown and the opening of the one committed to", &z, V, W) {
					return
				}
			}
		}
	}
}

// weightsOf returns the weights of the digests in the aggregation of a proof, as far as they
// can be told: there is but one, or they are those of a way that yields the proof's own sum.
func weightsOf(pub *Pub, path []uint16, lp *pol.LiabilityProof) common.Vec {
	n := len(lp.W)
	if n == 0 || len(lp.Digests) < n {
		return nil
	}
	if n == 1 {
		return common.Vec{mulZ(lp.PointProofΣ, invZ(lp.Digests[0]))}
	}

	for _, plain := range []bool{false, true} {
		w := make(common.Vec, n)
		for i := range w {
			w[i] = pp.RO(pub.PP.PPPP, lp.W, i)
			if !plain {
				h := sha256.New()
				h.Write(w[i].Bytes())
				for j := 0; j < n; j++ {
					h.Write([]byte{byte(path[j] >> 8), byte(path[j])})
					h.Write(lp.Digests[j].Bytes())
				}
				w[i] = common.FieldElementFromBytes(h.Sum(nil))
			}
		}
		if lp.Digests[:n].InnerProd(w).Equals(lp.PointProofΣ) {
			return w
		}
	}
	return nil
}

// elsewhere: what is opened is not at the path.
func elsewhere(c *Ctx, f, d, i int) {
	t := newEvilTree(c, f, d)
	t.calibrate(c)
	n := len(t.path)
	if i < d-1 {
		// the subtree is committed to at another index
		o := otherIndex(c, f, int(t.path[i]))
		t.build(c, func(j int, l *level) {
			if i == j {
				p := t.path[i]
				l.vals[o] = l.vals[p].Copy()
				l.digs[o], l.digs[p] = l.digs[p], randZr(c.R)
				l.resum()
			}
		})
		other := append([]uint16{}, t.path...)
		other[i] = uint16(o)
		pub := *t.pub
		pub.Path = func(id string) []uint16 {
			if id == t.id {
				return append([]uint16{}, other...)
			}
			return t.pub.Path(id)
		}
		x := &evilTree{pub: &pub, path: other, id: t.id, lv: t.lv}
		base := x.prove()
		if base != nil {
			if err := x.verify(base, t.lv[0].V, t.lv[0].W); err != nil {
				c.Saw("calibration of indices failed", 1)
			}
			what := fmt.Sprintf("the subtree below level %d is committed to at %d, not at %d", i, o, t.path[i])
			if !t.attempt(c, what, "as proven for the other index", base, t.lv[0].V, t.lv[0].W) {
				return
			}
			z := *base
			z.EqualityProof = t.equalities(nil, z.EqualityProof)
			if !t.attempt(c, what, "with the equality argument for the index", &z, t.lv[0].V, t.lv[0].W) {
				return
			}
			if q := t.prove(); q != nil { // opens what is at the index
				q.Digests = append(common.Vec{}, q.Digests...)
				if !t.attempt(c, what, "with the opening at the index", q, t.lv[0].V, t.lv[0].W) {
					return
				}
				q.Digests[i] = base.Digests[i]
				if !t.attempt(c, what, "with the opening at the index of another digest", q, t.lv[0].V, t.lv[0].W) {
					return
				}
				q.PointProofΣ = base.PointProofΣ
				if !t.attempt(c, what, "with the opening at the index and the sum of others", q, t.lv[0].V, t.lv[0].W) {
					return
				}
			}
		}
	}
	// the amount is opened elsewhere
	t.build(c, nil)
	base := t.prove()
	if base == nil {
		return
	}
	V, W := t.lv[0].V, t.lv[0].W
	open := func(what string, l *level, j int) bool {
		x, π := t.openAt(l, j)
		if !x.IsInt64() || eqG(π, base.LiabilityProof.LiabilityProof) {
			return true
		}
		z := *base
		z.LiabilityProof = pol.TotalProof{Sum: int(x.Int64()), LiabilityProof: π}
		if int(x.Int64()) == base.LiabilityProof.Sum {
			return true
		}
		return t.attempt(c, "the amount is opened "+what, "", &z, V, W)
	}
	leaf := t.lv[n-1]
	if i == n-1 {
		for j := 0; j <= f; j++ {
			if j != int(t.path[n-1]) && !open(fmt.Sprintf("at %d instead of %d", j, t.path[n-1]), leaf, j) {
				return
			}
		}
	} else if !open(fmt.Sprintf("in level %d", i), t.lv[i], int(t.path[i])) || !open(fmt.Sprintf("in level %d, at the index of the leaf", i), t.lv[i], int(t.path[n-1])) {
		return
	}
	stranger := &evilTree{pub: t.pub, path: t.path, id: t.id}
	stranger.build(c, nil)
	if !open("in another tree", stranger.lv[i], int(t.path[n-1])) {
		return
	}
	// adapted openings of smaller amounts
	for k := 0; k < c.plan.Pick(3, 40); k++ {
		gs := t.pub.PP.PPPP.G1s
		δ := c.R.Int63n(1<<30) + 1
		z := *base
		z.LiabilityProof.Sum -= int(δ)
		j := c.R.Intn(len(gs))
		s := zr(δ)
		if k%2 == 1 {
			s = negZ(s)
		}
		z.LiabilityProof.LiabilityProof = plusG(z.LiabilityProof.LiabilityProof, mulG(gs[j], s))
		if !t.attempt(c, "the amount is another than the committed one", fmt.Sprintf("opening adapted by %d", j), &z, V, W) {
			return
		}
	}
}

// totalOpening opens the total of a root of which all is known.
func (t *evilTree) totals(c *Ctx) {
	l := t.lv[0]
	x, π := t.openAt(l, t.f())
	P := t.pub.PP
	for _, y := range []*big.Int{x, new(big.Int).Sub(x, q)} {
		if !y.IsInt64() {
			continue
		}
		tp := pol.TotalProof{Sum: int(y.Int64()), LiabilityProof: π}
		var err error
		p := catch(func() { err = tp.Verify(P, l.V) })
		inRange := y.Sign() >= 0
		c.Check((p == nil && err == nil) == inRange, "%s: a root that commits to the sum %v opens to the total %v: %v %v", t.pub.Kind, x, y, err, p)
		c.Distinct("total %v", y)
		for j := range l.vals {
			if v, π := t.openAt(l, j); j != t.f() && v.IsInt64() && v.Cmp(y) != 0 {
				tp := pol.TotalProof{Sum: int(v.Int64()), LiabilityProof: π}
				p := catch(func() { err = tp.Verify(P, l.V) })
				c.Check(p != nil || err != nil, "%s: a root that commits to the sum %v opens to the total %v", t.pub.Kind, x, v)
			}
		}
	}
}

// conservation forges vertices of a whole store and compares what is accepted.
func conservation(c *Ctx, f, d int) {
	pub := custom(f, d)
	s := newSet(pub)
	var ids []string
	for len(ids) < 4 {
		id := pub.RandID(c.R)
		if len(ids) > 0 && c.R.Intn(2) == 0 {
			id = pub.NearID(c.R, ids[0])
		}
		if _, ok := s.Model[id]; ok {
			continue
		}
		s.Put(id, c.R.Int63n(1<<40)+1)
		ids = append(ids, id)
	}
	sort.Strings(ids)
	type vertex struct {
		key    string
		prefix []uint16
		raw    verkle.RawVertex
	}
	vs := map[string]*vertex{}
	tree := treeOf(s.LiabilitySet)
	read := func() {
		for _, id := range ids {
			p := pub.Path(id)
			_, path, ok := tree.Tree.Get(id)
			if !ok || len(path) != d {
				panic(skipCase("the path of an identifier cannot be read"))
			}
			for i := range path {
				k := fmt.Sprint(p[:i])
				if vs[k] == nil {
					key := path[i].(*sparse.Vertex).Data.(string)
					v := &vertex{key: key, prefix: p[:i]}
					if _, err := asn1.Unmarshal(s.LiabilitySet.DB.Get([]byte(key)), &v.raw); err != nil {
						panic(skipCase("vertices cannot be read"))
					}
					vs[k] = v
				}
			}
		}
	}
	read()
	vec := func(l []verkle.KV, n int) common.Vec {
		v := make(common.Vec, n)
		v.Zero()
		for _, e := range l {
			if i := int(binary.BigEndian.Uint16(e.K)); i < n {
				v[i] = curve.NewZrFromBytes(e.V)
			}
		}
		return v
	}
	keys := make([]string, 0, len(vs))
	for k := range vs {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool {
		a, b := len(vs[keys[i]].prefix), len(vs[keys[j]].prefix)
		return a > b || a == b && keys[i] < keys[j]
	})
	// forge some, from the bottom up, and pass on what they show or what they showed
	touched := ""
	for _, k := range keys {
		v := vs[k]
		depth := len(v.prefix)
		vals, digs := vec(v.raw.Values, f), vec(v.raw.Digests, f+2)
		sum := curve.NewZrFromBytes(v.raw.Sum)
		kind := "none"
		if c.R.Intn(3) == 0 {
			kind = []string{"less", "sum", "negative", "stale", "move", "zero"}[c.R.Intn(6)]
		}
		j := c.R.Intn(f)
		switch kind {
		case "less":
			vals[j] = zrBig(new(big.Int).Rsh(zint(vals[j]), 1))
			sum = zrBig(inner(vals, ones(f)))
		case "sum":
			sum = zrBig(new(big.Int).Rsh(zint(sum), 1))
		case "negative":
			vals[j] = zrBig(big.NewInt(-c.R.Int63n(1 << 30)))
			sum = zrBig(inner(vals, ones(f)))
		case "move":
			vals[j], vals[(j+1)%f] = vals[(j+1)%f], vals[j]
			digs[j], digs[(j+1)%f] = digs[(j+1)%f], digs[j]
		case "zero":
			for j := range vals {
				vals[j] = zr(0)
			}
			sum = zr(0)
		}
		touched += fmt.Sprintf("%s %s; ", k, kind)
		if kind == "stale" {
			continue // the parent's old commitment stands
		}
		r := randZr(c.R)
		v.raw.Values, v.raw.Sum, v.raw.BlindingFactor = kv(vals), sum.Bytes(), r.Bytes()
		V := commitBlind(pub.PP.PPPP, append(copyVec(vals), sum), r)
		v.raw.V = V.Bytes()
		var W *math.G1
		if depth < d-1 {
			v.raw.Digests = kv(digs)
			W = msm(pub.PP.PPPP.G1s, digs)
			v.raw.W = W.Bytes()
		}
		// tell the parent, wholly or partly
		if depth > 0 {
			par := vs[fmt.Sprint(v.prefix[:depth-1])]
			at := int(v.prefix[depth-1])
			pv, pd := vec(par.raw.Values, f), vec(par.raw.Digests, f+2)
			if c.R.Intn(4) > 0 {
				pd[at] = digestOf(V, W)
			}
			if c.R.Intn(4) > 0 {
				pv[at] = sum
			}
			par.raw.Values, par.raw.Digests = kv(pv), kv(pd)
			if c.R.Intn(4) > 0 {
				par.raw.Sum = zrBig(inner(pv, ones(f))).Bytes()
			}
		}
	}
	for _, v := range vs {
		b, err := asn1.Marshal(v.raw)
		if err != nil {
			panic(skipCase(err.Error()))
		}
		s.LiabilitySet.DB.Put([]byte(v.key), b)
	}
	V, W := s.Root()
	accepted := new(big.Int)
	n := 0
	shown := ""
	for _, id := range ids {
		var proof pol.LiabilityProof
		var ok bool
		if catch(func() { _, proof, _, ok = s.ProveLiability(id) }) != nil || !ok {
			continue
		}
		c.Saw("proofs from forged stores", 1)
		var err error
		if catch(func() { err = verifyLP(pub, id, proof, V, W) }) == nil && err == nil {
			n++
			accepted.Add(accepted, big.NewInt(int64(proof.LiabilityProof.Sum)))
			shown += fmt.Sprintf("%s: %d; ", id, proof.LiabilityProof.Sum)
			c.Check(proof.LiabilityProof.Sum >= 0, "%s: a negative amount is accepted: %s", pub.Kind, shown)
		}
	}
	c.Saw("of them accepted", n)
	var tp pol.TotalProof
	if catch(func() { tp = s.ProveTot() }) != nil {
		return
	}
	var err error
	if catch(func() { err = tp.Verify(pub.PP, V) }) != nil || err != nil {
		return
	}
	c.Distinct("conservation %s %s", pub.Kind, touched)
	c.Sample("%s: forged %s accepted %d of %d, total %d", pub.Kind, touched, n, len(ids), tp.Sum)
	c.Check(accepted.Cmp(big.NewInt(int64(tp.Sum))) <= 0, "%s: the amounts accepted under one root (%s) add up to %v, its total to %d (%s)", pub.Kind, shown, accepted, tp.Sum, touched)
}

func c04Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, f func(*Ctx)) {
		cases = append(cases, Case{Name: name, Run: func(c *Ctx) {
			// a prover that is made to panic does so where it can be caught
			pol.ParallelismEnabled = false
			f(c)
		}})
	}
	type shape struct{ f, d, n int }
	shapes := []shape{{3, 2, p.Pick(1, 4)}, {3, 3, p.Pick(1, 4)}, {3, 5, p.Pick(0, 2)}, {7, 3, p.Pick(0, 2)}, {3, 4, p.Pick(0, 2)}, {15, 2, p.Pick(0, 1)}, {7, 6, p.Pick(0, 1)}}
	for _, sh := range shapes {
		for h := 0; h < sh.n; h++ {
			for i := 0; i < sh.d; i++ {
				sh, i := sh, i
				tag := fmt.Sprintf("/f%d-d%d/level%d/%d", sh.f, sh.d, i, h)
				add("sums"+tag, func(c *Ctx) { forgedSums(c, sh.f, sh.d, i) })
				if i < sh.d-1 {
					add("equal"+tag, func(c *Ctx) { unequalLevels(c, sh.f, sh.d, i) })
				}
				add("range"+tag, func(c *Ctx) { outOfRangeLevels(c, sh.f, sh.d, i) })
				add("substituted"+tag, func(c *Ctx) { substituted(c, sh.f, sh.d, i) })
				add("elsewhere"+tag, func(c *Ctx) { elsewhere(c, sh.f, sh.d, i) })
			}
		}
	}
	if !p.Thorough { // otherwise among the above
		add("lite/substituted/f3-d17/level16/0", func(c *Ctx) {
			c.lite = true
			substituted(c, 3, 17, 16)
		})
	}
	// few of the variants at each level of others
	for _, sh := range []shape{{3, 17, p.Pick(0, 1)}, {3, 9, 1}, {7, 3, 1}, {15, 2, 1}, {3, 5, 1}, {3, 4, 1}} {
		for h := 0; h < sh.n*p.Pick(1, 3); h++ {
			for i := 0; i < sh.d; i++ {
				// the first ones, the last ones, and one between them for the deepest
				if sh.d >= 9 && !p.Thorough && i != sh.d/2+int(p.Seed&3) && i < sh.d-2 {
					continue
				}
				sh, i := sh, i
				for k, f := range []func(c *Ctx, f, d, i int){forgedSums, unequalLevels, outOfRangeLevels, substituted} {
					name := []string{"sums", "equal", "range", "substituted"}[k]
					f := f
					if name == "equal" && i == sh.d-1 {
						continue
					}
					add(fmt.Sprintf("lite/%s/f%d-d%d/level%d/%d", name, sh.f, sh.d, i, h), func(c *Ctx) {
						c.lite = true
						f(c, sh.f, sh.d, i)
					})
				}
			}
		}
	}
	for h := 0; h < p.Pick(6, 60); h++ {
		h := h
		add(fmt.Sprintf("totals/%d", h), func(c *Ctx) {
			t := newEvilTree(c, []int{3, 7}[h%2], 2)
			xs := append(outOfRange(c), big.NewInt(0), big.NewInt(5), big.NewInt(max63))
			for _, x := range xs {
				t.build(c, func(i int, l *level) {
					if i == 0 {
						l.vals[t.f()] = zrBig(x)
					}
				})
				t.totals(c)
			}
		})
	}
	for h := 0; h < p.Pick(12, 200); h++ {
		h := h
		add(fmt.Sprintf("conservation/%d", h), func(c *Ctx) { conservation(c, 3, 2+h%2) })
	}
	return cases
}
