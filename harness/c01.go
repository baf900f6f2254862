package main

import (
	"fmt"
	"sort"
	"strings"

	"pol/pol"
)

func init() {
	register(&Property{
		ID:      "C01",
		Workers: 5,
		Rule:    "A history of Set operations (fresh ids, re-sets, neighbours, edge amounts) is applied and every (or a sample of) recorded id is proven and the proof verified against the current root; distinct = (parameters, id, amount, number of operations before the proof, position of updates). Absent ids, neighbours of recorded ones included, must be reported absent.",
		Cases:   c01Cases,
	})
}

// proveAndVerify is the monitor of C01 for one identifier.
func proveAndVerify(c *Ctx, s *Set, id string, what string) *pol.LiabilityProof {
	want, recorded := s.Model[id]
	got, proof, _, ok := s.ProveLiability(id)
	c.Eval()
	if ok != recorded {
		c.Fail("%s: %s: ProveLiability(%s) ok=%v but recorded=%v (history %v)", s.Pub.Kind, what, id, ok, recorded, brief(s))
		return nil
	}
	if !ok {
		c.Saw("absent ids", 1)
		return nil
	}
	if got != want || int64(proof.LiabilityProof.Sum) != want {
		c.Fail("%s: %s: proof for %s is for %d (inside: %d), recorded: %d", s.Pub.Kind, what, id, got, proof.LiabilityProof.Sum, want)
		return nil
	}
	V, W := s.Root()
	if err := verifyLP(s.Pub, id, proof, V, W); err != nil {
		c.Fail("%s: %s: honest proof for %s=%d rejected: %v (history %v)", s.Pub.Kind, what, id, want, err, brief(s))
		return nil
	}
	c.Saw("honest proofs accepted", 1)
	c.Distinct("%s %s %d %d %s", s.Pub.Kind, id, want, len(s.Order), what)
	return &proof
}

func brief(s *Set) string {
	var parts []string
	for _, id := range s.Order {
		parts = append(parts, fmt.Sprintf("%s=%d", id, s.Model[id]))
	}
	return clip(strings.Join(parts, " "), 400)
}

func c01Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, f func(*Ctx)) { cases = append(cases, Case{Name: name, Run: f}) }

	type shape struct{ f, d, histories, ops, proofs int }
	// wide and deep trees: where steps, entries and levels outgrow a byte, and whatever is
	// padded or split differs from small trees
	for _, sh := range []struct{ f, d int }{{511, 2}, {255, 2}, {127, 2}, {63, 2}, {3, 17}, {3, 33}, {3, 66}} {
		sh := sh
		if (sh.f == 127 || sh.f == 255) && !p.Thorough {
			continue
		}
		add(fmt.Sprintf("outsize/f%d-d%d", sh.f, sh.d), func(c *Ctx) {
			s := newSet(custom(sh.f, sh.d))
			// the last positions next to those they turn into if cut to a byte or less
			var ids []string
			for _, x := range []int{sh.f - 1, (sh.f - 1) & 0xff, (sh.f - 1) & 0x3f, 1} {
				parts := make([]string, sh.d)
				for i := range parts {
					parts[i] = fmt.Sprint(sh.f - 1)
				}
				parts[sh.d-1] = fmt.Sprint(x)
				ids = append(ids, strings.Join(parts, "."))
				parts[0], parts[sh.d-1] = parts[sh.d-1], parts[0]
				ids = append(ids, strings.Join(parts, "."))
			}
			for i, id := range ids {
				s.Put(id, int64(1000+i))
			}
			proveAndVerify(c, s, ids[0], "outsize")
			if p.Thorough {
				for _, id := range ids[1:] {
					proveAndVerify(c, s, id, "outsize")
				}
			}
		})
	}

	shapes := []shape{
		{3, 2, p.Pick(8, 60), 6, 4}, {3, 3, p.Pick(5, 40), 8, 4}, {3, 4, p.Pick(3, 20), 8, 3}, {3, 5, p.Pick(2, 12), 8, 3},
		{3, 6, p.Pick(1, 8), 6, 2}, {3, 9, p.Pick(1, 4), 6, 1}, {3, 10, p.Pick(1, 4), 6, 1},
		{7, 2, p.Pick(4, 24), 10, 3}, {7, 3, p.Pick(2, 16), 10, 2}, {15, 2, p.Pick(2, 10), 12, 2}, {15, 3, p.Pick(1, 6), 12, 1},
		{31, 2, p.Pick(1, 4), 16, 1},
	}
	if p.Thorough {
		shapes = append(shapes, shape{63, 2, 2, 20, 1}, shape{127, 2, 1, 20, 1}, shape{255, 2, 1, 20, 1})
	}
	for _, sh := range shapes {
		sh := sh
		for h := 0; h < sh.histories; h++ {
			h := h
			add(fmt.Sprintf("history/f%d-d%d/%d", sh.f, sh.d, h), func(c *Ctx) {
				s := newSet(custom(sh.f, sh.d))
				half := sh.ops/2 + c.R.Intn(2)
				randomHistory(c.R, s, half)
				// in between
				ids := s.IDs()
				proveAndVerify(c, s, ids[c.R.Intn(len(ids))], "midway")
				randomHistory(c.R, s, sh.ops-half)
				ids = s.IDs()
				c.R.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
				for i := 0; i < len(ids) && i < sh.proofs && !c.failed(); i++ {
					proveAndVerify(c, s, ids[i], "end")
				}
				c.Sample("%s: %s", s.Pub.Kind, brief(s))
				for i := 0; i < 6; i++ {
					proveAbsent(c, s, s.Pub.NearID(c.R, ids[c.R.Intn(len(ids))]))
					proveAbsent(c, s, s.Pub.RandID(c.R))
				}
			})
		}
	}

	// every id of small trees, edge positions and amounts
	add("full/f3-d2", func(c *Ctx) {
		s := newSet(custom(3, 2))
		amounts := []int64{0, 1, max63 / 4, 5, 1 << 31, 1<<32 - 1, 7, 0, 255}
		k := 0
		for a := 0; a < 3; a++ {
			for b := 0; b < 3; b++ {
				s.Put(fmt.Sprintf("%d.%d", a, b), amounts[k])
				k++
			}
		}
		for _, id := range s.IDs() {
			if !c.failed() {
				proveAndVerify(c, s, id, "full tree")
			}
		}
	})
	add("edge/max-total", func(c *Ctx) {
		s := newSet(custom(3, 2))
		s.Put("0.0", max63)
		proveAndVerify(c, s, "0.0", "a single 2^63-1")
		s.Put("0.0", max63-10)
		s.Put("2.2", 10)
		proveAndVerify(c, s, "0.0", "total 2^63-1")
		proveAndVerify(c, s, "2.2", "total 2^63-1")
		s.Put("0.0", 0)
		s.Put("2.2", max63)
		proveAndVerify(c, s, "2.2", "moved to another id")
		proveAndVerify(c, s, "0.0", "zeroed")
	})
	add("edge/zeros", func(c *Ctx) {
		s := newSet(custom(3, 3))
		for _, id := range []string{"0.0.0", "0.0.1", "2.2.2"} {
			s.Put(id, 0)
			proveAndVerify(c, s, id, "only zeros")
		}
		proveAndVerify(c, s, "0.0.0", "only zeros")
		s.Put("0.0.1", 3)
		s.Put("0.0.1", 0)
		proveAndVerify(c, s, "0.0.1", "back to zero")
	})
	add("edge/updates", func(c *Ctx) {
		s := newSet(custom(3, 2))
		for i, a := range []int64{5, 5, 9, 2, 0, 1 << 62, 1} {
			s.Put("1.1", a)
			proveAndVerify(c, s, "1.1", fmt.Sprintf("update %d", i))
			if i%2 == 1 {
				s.Put("1.2", int64(i))
				proveAndVerify(c, s, "1.1", fmt.Sprintf("sibling after update %d", i))
			}
		}
		proveAndVerify(c, s, "1.2", "sibling")
	})
	// the trees the constructors give
	heavy := []*struct {
		name string
		get  func() *Pub
		n    int
	}{
		{"dense3", func() *Pub { return dense(3) }, p.Pick(1, 6)},
		{"dense7", func() *Pub { return dense(7) }, p.Pick(2, 8)},
		{"dense15", func() *Pub { return dense(15) }, p.Pick(1, 3)},
		{"dense31", func() *Pub { return dense(31) }, p.Pick(0, 1)},
		{"sparse3", func() *Pub { return sparseTree(3) }, p.Pick(0, 1)},
		{"sparse7", func() *Pub { return sparseTree(7) }, p.Pick(1, 2)},
		{"sparse15", func() *Pub { return sparseTree(15) }, p.Pick(0, 1)},
		{"sparse31", func() *Pub { return sparseTree(31) }, p.Pick(0, 1)},
	}
	for _, h := range heavy {
		h := h
		if h.n == 0 {
			continue
		}
		add("real/"+h.name, func(c *Ctx) {
			s := newSet(h.get())
			randomHistory(c.R, s, 10)
			ids := s.IDs()
			// prefer identifiers that share a leaf vertex, have leading zeros or were updated
			sort.SliceStable(ids, func(i, j int) bool { return score(s, ids[i]) > score(s, ids[j]) })
			s.Put(ids[0], amount(c.R, s.Total()-s.Model[ids[0]]))
			for i := 0; i < h.n && i < len(ids) && !c.failed(); i++ {
				proveAndVerify(c, s, ids[i], "constructor's tree")
			}
			c.Sample("%s: %s", s.Pub.Kind, brief(s))
			for i := 0; i < 10; i++ {
				proveAbsent(c, s, s.Pub.NearID(c.R, ids[c.R.Intn(len(ids))]))
				proveAbsent(c, s, s.Pub.RandID(c.R))
			}
		})
	}
	// sequential proving and verification
	cases = append(cases, Case{Name: "sequential", Serial: true, Run: func(c *Ctx) {
		pol.ParallelismEnabled = false
		defer func() { pol.ParallelismEnabled = true }()
		s := newSet(custom(3, 3))
		randomHistory(c.R, s, 8)
		for i, id := range s.IDs() {
			if i < 3 {
				proof := proveAndVerify(c, s, id, "sequential")
				pol.ParallelismEnabled = true
				if proof != nil {
					V, W := s.Root()
					c.Check(verifyLP(s.Pub, id, *proof, V, W) == nil, "sequentially made proof rejected by parallel verification")
				}
				pol.ParallelismEnabled = false
			}
		}
		pol.ParallelismEnabled = true
	}})
	return cases
}

func score(s *Set, id string) int {
	best := 0
	a := s.Pub.Path(id)
	for other := range s.Model {
		if other == id {
			continue
		}
		b := s.Pub.Path(other)
		n := 0
		for n < len(a) && n < len(b) && a[n] == b[n] {
			n++
		}
		if n > best {
			best = n
		}
	}
	if strings.HasPrefix(id, "0") {
		best += 2
	}
	return best
}

func proveAbsent(c *Ctx, s *Set, id string) {
	if _, ok := s.Model[id]; ok {
		return
	}
	_, _, _, ok := s.ProveLiability(id)
	c.Eval()
	c.Saw("absent ids", 1)
	if ok {
		c.Fail("%s: a proof for %s, which was never recorded (history %s)", s.Pub.Kind, id, brief(s))
	}
}
