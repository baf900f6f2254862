package main

import (
	"crypto/rand"
	"encoding/asn1"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	mrand "math/rand"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sum"
	"pol/verkle"

	math "github.com/IBM/mathlib"
)

func init() {
	register(&Property{
		ID:          "C15",
		Rule:        "Over update histories every blinding factor of every stored vertex (values and digests) is compared with all earlier ones, with every digest the code computed, with what a second process and an identically treated set got, and must be new on each rewrite; commitments, openings and epoch differences are compared with their unblinded counterparts; all randomised elements of all proofs made (repeatedly, of the same statements) must be pairwise different; the randomness consumed is counted and each draw must influence the proof. distinct = (what, statement, round).",
		Cases:       c15Cases,
		Assumptions: []string{"randomness is drawn from crypto/rand.Reader, 32 bytes per scalar; trees that draw it elsewhere make the counting monitors inconclusive (skips), not failing"},
	})
	probes["blindings"] = func([]string) int {
		p := idsOnly(3, 2)
		t := verkle.NewVerkleTree(3, p.Path, newStore())
		st := newStore()
		t.DB = st
		r := mrand.New(mrand.NewSource(1))
		for i := 0; i < 6; i++ {
			t.Put(p.RandID(r), 5)
		}
		for _, b := range st.snapshot() {
			rv := record(b)
			fmt.Println(new(big.Int).SetBytes(rv.BlindingFactor))
			for _, kv := range rv.Digests {
				if binary.BigEndian.Uint16(kv.K) == 4 {
					fmt.Println(new(big.Int).SetBytes(kv.V))
				}
			}
		}
		for _, x := range common.RandVec(4) {
			fmt.Println(zint(x))
		}
		P := pp.NewPublicParams(2)
		fmt.Println(new(big.Int).SetBytes(P.G1s[0].Bytes()))
		return 0
	}
}

func record(b string) verkle.RawVertex {
	var rv verkle.RawVertex
	if _, err := asn1.Unmarshal([]byte(b), &rv); err != nil {
		panic(skipCase("unreadable record: " + err.Error()))
	}
	return rv
}

// values remembers where each value was seen first.
type seen struct {
	mu sync.Mutex
	m  map[string]string
}

func newSeen() *seen { return &seen{m: map[string]string{}} }

// add says where the value was seen before.
func (s *seen) add(v, where string) string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if w, ok := s.m[v]; ok {
		return w
	}
	s.m[v] = where
	return ""
}

func unpredictable(x *big.Int) bool {
	x = new(big.Int).Mod(x, q)
	return x.BitLen() > 160 && new(big.Int).Sub(q, x).BitLen() > 160
}

// freshParts checks that none of the elements below ptr occurred before.
func freshParts(c *Ctx, s *seen, what string, ptr interface{}, skip func(Slot) bool) bool {
	ok := true
	for _, e := range elements(ptr) {
		if e.V.IsNil() || skip != nil && skip(e) {
			continue
		}
		c.Eval()
		c.Saw("randomised elements compared", 1)
		r := e.repr()
		if e.V.Type() == tZr {
			r = "Zr:" + zint(e.Zr()).String()
			if !unpredictable(zint(e.Zr())) {
				c.Fail("%s: %s is %s", what, e.Path, r)
				ok = false
			}
		}
		if e.V.Type() == tG1 && e.G1().IsInfinity() {
			c.Fail("%s: %s is the identity", what, e.Path)
			ok = false
		}
		if w := s.add(r, what+" "+e.Path); w != "" {
			c.Fail("%s: %s is the same as %s", what, e.Path, w)
			ok = false
		}
		if !ok {
			return false
		}
	}
	return ok
}

func randomised(s Slot) bool {
	for _, p := range []string{".SumArgumentProof", ".RangeProofs", ".EqualityProof"} {
		if strings.HasPrefix(s.Path, p) {
			return true
		}
	}
	return false
}

// counter counts what is read from crypto/rand, which it may replace.
type counter struct {
	mu    sync.Mutex
	n     int
	calls int
	src   io.Reader
	flip  int // the read to alter, if not negative
}

func (r *counter) Read(b []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	n, err := r.src.Read(b)
	if r.calls == r.flip {
		for i := range b[:n] {
			b[i] ^= 0x5a
		}
	}
	r.n += n
	r.calls++
	return n, err
}

var randMu sync.Mutex

// consumed runs f and says how many bytes of randomness it read, and in how many reads.
func consumed(f func()) (int, int) {
	randMu.Lock()
	defer randMu.Unlock()
	old := rand.Reader
	r := &counter{src: old, flip: -1}
	rand.Reader = r
	defer func() { rand.Reader = old }()
	f()
	return r.n, r.calls
}

// replayed runs f with a fixed stream, the flip'th read of which is altered.
func replayed(seed int64, flip int, f func()) int {
	randMu.Lock()
	defer randMu.Unlock()
	old := rand.Reader
	r := &counter{src: mrand.New(mrand.NewSource(seed)), flip: flip}
	rand.Reader = r
	defer func() { rand.Reader = old }()
	f()
	return r.calls
}

func c15Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, serial bool, f func(*Ctx)) {
		cases = append(cases, Case{Name: name, Run: f, Serial: serial})
	}
	shapes := [][2]int{{3, 2}, {3, 5}, {7, 2}, {3, 3}, {7, 3}, {15, 2}, {3, 4}}
	for h := 0; h < p.Pick(len(shapes), 6*len(shapes)); h++ {
		sh := shapes[h%len(shapes)]
		h := h
		add(fmt.Sprintf("vertices/%d", h), false, func(c *Ctx) { blindedVertices(c, custom(sh[0], sh[1]), p.Pick(12, 30)) })
		add(fmt.Sprintf("proofs/%d", h), false, func(c *Ctx) { freshProofs(c, custom(sh[0], sh[1]), p.Pick(3, 6)) })
	}
	for h := 0; h < p.Pick(2, 8); h++ {
		add(fmt.Sprintf("arguments/%d", h), false, freshArguments)
	}
	add("processes", true, acrossProcesses)
	add("draws/counts", true, drawCounts)
	for i := 0; i < 5; i++ {
		i := i
		add(fmt.Sprintf("draws/influence/%d", i), true, func(c *Ctx) { drawInfluence(c, i, p) })
	}
	return cases
}

// blindedVertices watches the records of a tree over a history.
func blindedVertices(c *Ctx, pub *Pub, n int) {
	s, twin := newSet(pub), newSet(pub)
	P := pub.PP.PPPP
	N := pub.F + 2
	all := newSeen()
	var digests []string
	prev := map[string]string{}
	twinPrev := map[string]string{}
	step := func(id string, a int64) bool {
		digests = append(digests, digestsOf(func() { s.Put(id, a) })...)
		twin.Put(id, a)
		snap := s.Store.snapshot()
		hashes := map[string]bool{}
		for _, d := range digests {
			if len(d) == 32 {
				hashes[zint(common.FieldElementFromBytes([]byte(d))).String()] = true
				hashes[new(big.Int).Mod(new(big.Int).SetBytes([]byte(d)), q).String()] = true
			}
		}
		judge := func(which string, snap, prev map[string]string) bool {
			keys := make([]string, 0, len(snap))
			for k := range snap {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				if prev[k] == snap[k] {
					continue
				}
				what := fmt.Sprintf("%s: vertex %q (%s) after %d records, %s=%d", pub.Kind, k, which, len(s.Model), id, a)
				rv := record(snap[k])
				vals, digs := make(common.Vec, N), make(common.Vec, N)
				for i := range vals {
					vals[i], digs[i] = zr(0), zr(0)
				}
				for _, kv := range rv.Values {
					if i := int(binary.BigEndian.Uint16(kv.K)); i < N {
						vals[i] = zrBig(new(big.Int).SetBytes(kv.V))
					}
				}
				for _, kv := range rv.Digests {
					if i := int(binary.BigEndian.Uint16(kv.K)); i < N {
						digs[i] = zrBig(new(big.Int).SetBytes(kv.V))
					}
				}
				vals[N-2] = zrBig(new(big.Int).SetBytes(rv.Sum))
				r := new(big.Int).SetBytes(rv.BlindingFactor)
				blindings := map[string]*big.Int{"values": r}
				V, err := curve.NewG1FromBytes(rv.V)
				if err != nil {
					panic(skipCase(err.Error()))
				}
				var W *math.G1
				if len(rv.W) > 0 {
					W, err = curve.NewG1FromBytes(rv.W)
					if err != nil {
						panic(skipCase(err.Error()))
					}
					blindings["digests"] = zint(digs[N-1])
				}
				c.Saw("vertex records judged", 1)
				c.Distinct("%s %s %x", pub.Kind, k, rv.V[:16])
				for name, b := range blindings {
					c.Eval()
					if !unpredictable(b) {
						c.Fail("%s: the blinding factor of the %s is %v", what, name, b)
						return false
					}
					if hashes[b.String()] {
						c.Fail("%s: the blinding factor of the %s is a digest the code computed", what, name)
						return false
					}
					if w := all.add(b.String(), what+" "+name); w != "" {
						c.Fail("%s: the blinding factor of the %s is that of %s", what, name, w)
						return false
					}
				}
				// guesses
				v0 := copyVec(vals)
				v0[N-1] = zr(0)
				guesses := []*math.Zr{zr(0), zr(1), digestOf(V, W), vals[N-2], zrBig(new(big.Int).SetBytes(rv.BlindingFactor))}
				for i, g := range guesses {
					if i < 4 {
						c.Check(!plusG(msm(P.G1s[:N], v0), mulG(P.G1s[N-1], g)).Equals(V), "%s: the commitment to the values is blinded by %s", what, g.String())
					}
					if W != nil {
						d0 := copyVec(digs)
						d0[N-1] = zr(0)
						c.Check(!plusG(msm(P.G1s[:N], d0), mulG(P.G1s[N-1], g)).Equals(W), "%s: the commitment to the digests is blinded by %s", what, g.String())
					}
				}
				c.Check(!V.IsInfinity() && (W == nil || !W.IsInfinity()), "%s: a commitment is the identity", what)
				if old, ok := prev[k]; ok {
					ov := record(old)
					OV, _ := curve.NewG1FromBytes(ov.V)
					oldVals := make(common.Vec, N)
					for i := range oldVals {
						oldVals[i] = zr(0)
					}
					for _, kv := range ov.Values {
						if i := int(binary.BigEndian.Uint16(kv.K)); i < N {
							oldVals[i] = zrBig(new(big.Int).SetBytes(kv.V))
						}
					}
					oldVals[N-2] = zrBig(new(big.Int).SetBytes(ov.Sum))
					c.Check(!minusG(V, OV).Equals(minusG(msm(P.G1s[:N-1], v0[:N-1]), msm(P.G1s[:N-1], oldVals[:N-1]))), "%s: the change of the commitment reveals the change of the values", what)
					if W != nil {
						OW, _ := curve.NewG1FromBytes(ov.W)
						oldDigs := make(common.Vec, N)
						for i := range oldDigs {
							oldDigs[i] = zr(0)
						}
						for _, kv := range ov.Digests {
							if i := int(binary.BigEndian.Uint16(kv.K)); i < N {
								oldDigs[i] = zrBig(new(big.Int).SetBytes(kv.V))
							}
						}
						c.Check(!minusG(W, OW).Equals(minusG(msm(P.G1s[:N-1], digs[:N-1]), msm(P.G1s[:N-1], oldDigs[:N-1]))), "%s: the change of the commitment reveals the change of the digests", what)
					}
					// steps between blinding factors must not repeat either
					Δ := new(big.Int).Sub(r, new(big.Int).SetBytes(ov.BlindingFactor))
					c.Check(unpredictable(Δ), "%s: the blinding factor moved by %v only", what, Δ)
					if w := all.add("step "+Δ.Mod(Δ, q).String(), what); w != "" {
						c.Fail("%s: the blinding factor moved as that of %s", what, w)
						return false
					}
				}
				if c.failed() {
					return false
				}
			}
			return true
		}
		ok := judge("set", snap, prev) && judge("twin", twin.Store.snapshot(), twinPrev)
		prev, twinPrev = snap, twin.Store.snapshot()
		return ok
	}
	for i := 0; i < n; i++ {
		id := pub.RandID(c.R)
		if ids := s.IDs(); len(ids) > 0 && c.R.Intn(2) == 0 {
			id = ids[c.R.Intn(len(ids))]
			if c.R.Intn(2) == 0 {
				id = pub.NearID(c.R, id)
			}
		}
		a := amount(c.R, s.Total()-s.Model[id])
		if c.R.Intn(4) == 0 {
			a = s.Model[id] // the same amount again
		}
		if !step(id, a) {
			return
		}
	}
	c.Sample("%s: %d vertices, %d different blinding factors", pub.Kind, len(prev), len(all.m))
	// openings handed out
	for _, id := range s.IDs() {
		_, proof, _, ok := s.ProveLiability(id)
		if !ok {
			continue
		}
		_, vs, _ := treeOf(s.LiabilitySet).Get(id)
		leaf := vs[len(vs)-1]
		path := pub.Path(id)
		m := append(common.Vec{}, leaf.Values(N-1)...)
		m = append(m, zr(0))
		_, bare := pp.Open(P, int(path[len(path)-1]), m)
		c.Check(!proof.LiabilityProof.LiabilityProof.Equals(bare), "%s: the opening for %s is not blinded", pub.Kind, id)
		c.Check(!proof.LiabilityProof.LiabilityProof.IsInfinity(), "%s: the opening for %s is the identity", pub.Kind, id)
		root := vs[0]
		m = append(append(common.Vec{}, root.Values(N-1)...), zr(0))
		_, bare = pp.Open(P, N-2, m)
		c.Check(!s.ProveTot().LiabilityProof.Equals(bare), "%s: the opening of the total is not blinded", pub.Kind)
		c.Check(!proof.PointProofπ.IsInfinity(), "%s: the opening of the digests is the identity", pub.Kind)
		break
	}
}

// freshProofs makes several proofs of the same statements.
func freshProofs(c *Ctx, pub *Pub, rounds int) {
	s := newSet(pub)
	randomHistory(c.R, s, 5)
	all := newSeen()
	ids := s.IDs()
	if len(ids) > 3 {
		ids = ids[:3]
	}
	bare := map[string]*math.G1{}
	skip := func(e Slot) bool { return !randomised(e) || redundant(e, pub.pathLen) }
	one := func(id string, round int) bool {
		_, proof, _, ok := s.ProveLiability(id)
		if !ok {
			c.Fail("%s: no proof for %s", pub.Kind, id)
			return false
		}
		c.Distinct("%s %s %d %x", pub.Kind, id, round, proof.V[0].Bytes()[:8])
		c.Saw("proofs compared", 1)
		if !freshParts(c, all, fmt.Sprintf("%s: proof %d for %s", pub.Kind, round, id), &proof, skip) {
			return false
		}
		// what blinds the responses must hide the vertices' own blinding factors
		_, vs, _ := treeOf(s.LiabilitySet).Get(id)
		own := map[string]string{}
		agg := new(big.Int)
		for i, v := range vs {
			b := zint(v.BlindingFactor)
			own[b.String()] = fmt.Sprintf("the blinding factor of vertex %d", i)
			own[new(big.Int).Sub(q, b).String()] = fmt.Sprintf("the negated blinding factor of vertex %d", i)
			agg.Add(agg, b)
		}
		for _, e := range elements(&proof) {
			if e.V.Type() == tZr && !e.V.IsNil() && e.Owner != "pol.LiabilityProof" {
				if w, ok := own[zint(e.Zr()).String()]; ok {
					c.Fail("%s: %s of the proof for %s is %s", pub.Kind, e.Path, id, w)
				}
			}
		}
		_ = bare
		return !c.failed()
	}
	for round := 0; round < rounds; round++ {
		for _, id := range ids {
			if !one(id, round) {
				return
			}
		}
	}
	// after an update, with and without the same amounts
	id := ids[0]
	s.Put(id, s.Model[id])
	one(id, rounds)
	c.Sample("%s: %d elements of %d proofs of %d statements all different", pub.Kind, len(all.m), rounds*len(ids)+1, len(ids))
}

// freshArguments repeats each argument about the same, simple statements.
func freshArguments(c *Ctx) {
	all := newSeen()
	rounds := 3
	skip := func(e Slot) bool { return redundant(e, -1) }
	zero := func(n int) common.Vec { return rangeZeros(n) }
	for _, n := range []int{2, 4, 8} {
		P := sum.NewPublicParams(n)
		vs := []common.Vec{zero(n), sumVec(c.R, n, new(big.Int)), sumVec(c.R, n, new(big.Int))}
		for k, v := range vs {
			r := randZr(c.R)
			if k == 0 {
				r = zr(0)
			}
			V := sumCommit(P, v, r)
			for i := 0; i < rounds; i++ {
				_, proof := sum.NewArgument(P, V, v, r)
				c.Distinct("sum %d %d %d %x", n, k, i, V.Bytes()[:8])
				freshParts(c, all, fmt.Sprintf("sum argument %d about vector %d of length %d", i, k, n), proof, skip)
				ρ := zint(getZr(proof, ".ρ"))
				c.Check(k == 0 || new(big.Int).Mod(new(big.Int).Add(ρ, zint(r)), q).Sign() != 0, "n=%d: ρ is the negated blinding factor", n)
				pr := sum.NewAggregatedArgument(P, common.G1v{V, V}, []common.Vec{v, v}, common.Vec{r, r})
				freshParts(c, all, fmt.Sprintf("aggregated sum argument %d about vector %d of length %d", i, k, n), pr, skip)
			}
		}
	}
	for _, n := range []int{2, 4} {
		P := rangePP(n)
		for k, v := range []common.Vec{zero(n), rangeVec(c, n)} {
			r := randZr(c.R)
			if k == 0 {
				r = zr(0)
			}
			V := rangeCommit(P, v, r)
			for i := 0; i < rounds; i++ {
				proof := bp.ProveRange(P, V, v, r)
				c.Distinct("range %d %d %d %x", n, k, i, V.Bytes()[:8])
				freshParts(c, all, fmt.Sprintf("range proof %d about vector %d of length %d", i, k, n), proof, skip)
				γ := zint(getZr(proof, ".γ"))
				c.Check(k == 0 || new(big.Int).Mod(new(big.Int).Add(γ, zint(r)), q).Sign() != 0, "n=%d: γ is the negated blinding factor", n)
			}
		}
	}
	for _, m := range []int{1, 2, 4} {
		P := pp.NewPublicParams(5)
		b := newBatch(c.R, P, m)
		for i := 0; i < rounds; i++ {
			proof := b.es.Prove(b.vs, b.ws)
			c.Distinct("equalities %d %d %x", m, i, b.es.V.Bytes()[:8])
			freshParts(c, all, fmt.Sprintf("equality argument %d about %d pairs", i, m), proof, skip)
			v := make(common.Vec, m)
			for k := range v {
				v[k] = b.vs[k][b.es.I[k]]
			}
			bare := msm(b.E.G, v)
			c.Check(!getG1(proof, ".V").Equals(bare) || bare.IsInfinity(), "m=%d: the commitment to the equal entries is not blinded", m)
			for k := 0; k < m; k++ {
				e := &poe.Equality{RO: poe.RO, PP: b.E, V: b.es.V[k], W: b.es.W[k], I: b.es.I[k], J: b.es.J[k]}
				pr := e.Prove(b.vs[k], b.ws[k])
				freshParts(c, all, fmt.Sprintf("single equality argument %d about pair %d of %d", i, k, m), pr, skip)
				c.Check(!eqZ(pr.C, v[k]), "m=%d: the response is the entry itself", m)
			}
		}
	}
	for i := 0; i < 40; i++ {
		for k, x := range common.RandVec(1 + c.R.Intn(5)) {
			c.Check(unpredictable(zint(x)), "RandVec gives %s at %d", x.String(), k)
			if w := all.add("Zr:"+zint(x).String(), fmt.Sprintf("RandVec call %d entry %d", i, k)); w != "" {
				c.Fail("RandVec gave %s again, first at %s", x.String(), w)
				return
			}
		}
	}
	c.Sample("%d elements of arguments all different", len(all.m))
}

// acrossProcesses compares what two processes get for the same history.
func acrossProcesses(c *Ctx) {
	run := func() map[string]bool {
		out, err := exec.Command(os.Args[0], "-probe", "blindings").Output()
		if err != nil {
			panic(skipCase("probe failed: " + err.Error()))
		}
		m := map[string]bool{}
		for _, l := range strings.Fields(string(out)) {
			m[l] = true
		}
		return m
	}
	a := run()
	for i := 0; i < 2; i++ {
		b := run()
		c.Check(len(a) > 5 && len(b) > 5, "too few blinding factors seen: %d, %d", len(a), len(b))
		for x := range a {
			c.Check(!b[x], "two processes drew the same value %s", x)
			c.Distinct("process %s", x)
		}
		a = b
	}
	c.Sample("%d values per process, none shared", len(a))
}

// drawCounts counts the randomness the provers read.
func drawCounts(c *Ctx) {
	each, _ := consumed(func() { common.RandVec(10) })
	each /= 10
	if each < 31 {
		c.Skip("randomness is not read from crypto/rand.Reader")
		return
	}
	check := func(what string, scalars int, f func()) {
		n, _ := consumed(f)
		c.Saw("bytes of randomness counted", n)
		c.Distinct("%s %d", what, scalars)
		c.Check(n >= each*scalars, "%s reads %d bytes of randomness, %d blinding scalars take %d", what, n, scalars, each*scalars)
	}
	for _, n := range []int{2, 4, 8} {
		n := n
		P := sum.NewPublicParams(n)
		v, r := sumVec(c.R, n, new(big.Int)), randZr(c.R)
		V := sumCommit(P, v, r)
		check(fmt.Sprintf("a sum argument of length %d", n), n+1, func() { sum.NewArgument(P, V, v, r) })
		check(fmt.Sprintf("an aggregated sum argument of length %d", n), n+1, func() {
			sum.NewAggregatedArgument(P, common.G1v{V, V}, []common.Vec{v, v}, common.Vec{r, r})
		})
		R := rangePP(n)
		rv := rangeVec(c, n)
		RV := rangeCommit(R, rv, r)
		m := 63
		check(fmt.Sprintf("a range proof of length %d", n), n+2*n*m+n+5, func() { bp.ProveRange(R, RV, rv, r) })
		b := newBatch(c.R, pp.NewPublicParams(5), n)
		check(fmt.Sprintf("an equality argument about %d pairs", n), 3*n+2, func() { b.es.Prove(b.vs, b.ws) })
		e := &poe.Equality{RO: poe.RO, PP: b.E, V: b.es.V[0], W: b.es.W[0], I: b.es.I[0], J: b.es.J[0]}
		check("a single equality argument", 3, func() { e.Prove(b.vs[0], b.ws[0]) })
	}
	for _, sh := range [][2]int{{3, 2}, {7, 2}, {3, 3}} {
		f, d := sh[0], sh[1]
		pub := custom(f, d)
		s := newSet(pub)
		id := pub.RandID(c.R)
		for i, what := range []string{"the first record", "a new amount", "another record"} {
			if i == 2 {
				for old := id; id == old; {
					id = pub.NearID(c.R, id)
				}
			}
			check(fmt.Sprintf("%s: %s", pub.Kind, what), 2*d-1, func() { s.Put(id, 5+int64(i)) })
		}
		n := f + 1
		m := 2
		for m < d-1 {
			m *= 2
		}
		check(pub.Kind+": a liability proof", n+1+d*(n+2*n*63+n+5)+3*m+2, func() { s.ProveLiability(id) })
	}
	c.Check(func() bool { n, _ := consumed(func() { pp.NewPublicParams(3) }); return n >= 31 }(), "set-up reads no randomness")
}

// drawInfluence replays a prover with each draw altered: a draw without
// influence on the proof blinds nothing.
func drawInfluence(c *Ctx, kind int, p Plan) {
	var run func() string
	text := func(ptr interface{}) string {
		var l []string
		for k, v := range snapshot(ptr) {
			l = append(l, k+v)
		}
		sort.Strings(l)
		return strings.Join(l, "\n")
	}
	what := ""
	tail := 6
	switch kind {
	case 0:
		n := 4
		P := sum.NewPublicParams(n)
		v, r := sumVec(c.R, n, new(big.Int)), randZr(c.R)
		V := sumCommit(P, v, r)
		what = "sum argument"
		run = func() string { _, proof := sum.NewArgument(P, V, v, r); return text(proof) }
	case 1:
		n := 2
		P := rangePP(n)
		v, r := rangeVec(c, n), randZr(c.R)
		V := rangeCommit(P, v, r)
		what = "range proof"
		run = func() string { return text(bp.ProveRange(P, V, v, r)) }
	case 2:
		b := newBatch(c.R, pp.NewPublicParams(5), 4)
		what = "equality argument"
		run = func() string { return text(b.es.Prove(b.vs, b.ws)) }
	case 3:
		b := newBatch(c.R, pp.NewPublicParams(5), 1)
		e := &poe.Equality{RO: poe.RO, PP: b.E, V: b.es.V[0], W: b.es.W[0], I: b.es.I[0], J: b.es.J[0]}
		what = "single equality argument"
		run = func() string { return text(e.Prove(b.vs[0], b.ws[0])) }
	case 4:
		pub := custom(3, 3)
		what = "tree of three records"
		run = func() string {
			s := newSet(pub)
			s.Put("0.0.0", 1)
			s.Put("0.0.1", 2)
			s.Put("0.1.2", 3)
			s.Put("0.0.0", 4)
			V, W := s.Root()
			return string(V.Bytes()) + string(W.Bytes())
		}
	}
	base := ""
	calls := replayed(7, -1, func() { base = run() })
	again := ""
	replayed(7, -1, func() { again = run() })
	if calls == 0 || base != again {
		c.Skip("%s: not determined by what is read from crypto/rand.Reader", what)
		return
	}
	other := ""
	replayed(8, -1, func() { other = run() })
	c.Check(other != base, "%s: the randomness has no influence", what)
	var ks []int
	for k := 0; k < calls; k++ {
		if calls <= 40 || k < tail || k >= calls-tail || p.Thorough || c.R.Intn(calls) < 28 {
			ks = append(ks, k)
		}
	}
	if kind == 4 { // only the draws of the last update matter for the last root
		ks = ks[len(ks)-5:]
	}
	for _, k := range ks {
		x := ""
		replayed(7, k, func() { x = run() })
		c.Distinct("%s draw %d", what, k)
		c.Saw("draws altered", 1)
		c.Check(x != base, "%s: draw %d of %d has no influence", what, k, calls)
	}
	c.Sample("%s: %d of %d draws altered", what, len(ks), calls)
	_ = pol.LiabilityProof{}
}
