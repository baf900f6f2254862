package main

import (
	"fmt"
	"reflect"
	"sync"
	"time"

	"pol/pol"
)

func init() {
	register(&Property{
		ID:    "C19",
		Rule:  "Every list of an honest liability proof and of its sub-proofs is shortened at either end, emptied, absent, extended and doubled, every reference and element is absent or hollow, several of these are combined, and whole lists and sub-proofs come from proofs of other dimensions; each is verified with a time limit, in parallel and sequentially, in a supervised process. The answer must be an error. Parts which the verifier recomputes and never reads (see DESIGN.md) only must not crash it. distinct = (dimensions, mode, malformation).",
		Cases: c19Cases,
	})
}

// mutation is a structural malformation of what ptr points to.
type mutation struct {
	name      string
	redundant bool
	resizes   bool // drops or duplicates elements of a list
	set, undo func()
}

var resizing = map[string]bool{"without its last": true, "without its first": true, "with its last twice": true, "with its first before it": true, "doubled": true, "with two more": true}

func structural(ptr interface{}, pathLen int) []mutation {
	var res []mutation
	for _, s := range slots(ptr) {
		s := s
		old := reflect.New(s.V.Type()).Elem()
		old.Set(s.V)
		undo := func() { s.V.Set(old) }
		red := redundant(s, pathLen)
		put := func(name string, x reflect.Value) {
			res = append(res, mutation{s.Path + " " + name, red, resizing[name], func() { s.V.Set(x) }, undo})
		}
		t := s.V.Type()
		switch {
		case t == tByt:
			continue
		case t.Kind() == reflect.Ptr:
			if !s.V.IsNil() {
				put("absent", reflect.Zero(t))
				put("hollow", reflect.New(t.Elem()))
			}
		case t.Kind() == reflect.Slice:
			n := s.V.Len()
			if n == 0 {
				continue
			}
			copyOf := func(lo, hi int) reflect.Value {
				c := reflect.MakeSlice(t, 0, n+2)
				return reflect.AppendSlice(c, s.V.Slice(lo, hi))
			}
			put("absent list", reflect.Zero(t))
			put("emptied", reflect.MakeSlice(t, 0, 0))
			if n > 1 {
				put("without its last", copyOf(0, n-1))
				put("without its first", copyOf(1, n))
				put("only its first", copyOf(0, 1))
				put("without its second half", copyOf(0, n/2))
			}
			put("with its last twice", reflect.Append(copyOf(0, n), s.V.Index(n-1)))
			put("with its first before it", reflect.AppendSlice(copyOf(0, 1), s.V))
			put("with an empty one appended", reflect.Append(copyOf(0, n), reflect.Zero(t.Elem())))
			put("with an empty one before it", reflect.AppendSlice(reflect.Append(reflect.MakeSlice(t, 0, n+1), reflect.Zero(t.Elem())), s.V))
			put("doubled", reflect.AppendSlice(copyOf(0, n), s.V))
			put("with two more", reflect.AppendSlice(copyOf(0, n), s.V.Slice(0, min(n, 2))))
			put("of empty ones", reflect.MakeSlice(t, n, n))
		}
	}
	return res
}

// malformedVerdict verifies in bounded time and says what came of it.
func malformedVerdict(c *Ctx, what string, pub *Pub, id string, proof *pol.LiabilityProof, s *Set, mayAccept bool) {
	V, W := s.Root()
	var err error
	var p interface{}
	if !within(60*time.Second, func() {
		p = catch(func() { err = verifyLP(pub, id, *proof, V, W) })
	}) {
		c.Fail("%s: verification does not end: %s", pub.Kind, what)
		return
	}
	c.Saw("malformed proofs judged", 1)
	c.Check(p == nil, "%s: verification crashes with %v: %s", pub.Kind, p, what)
	if p == nil && !mayAccept {
		c.Check(err != nil, "%s: accepted: %s", pub.Kind, what)
	}
	c.Distinct("%s par=%v %s", pub.Kind, pol.ParallelismEnabled, what)
}

func c19Cases(p Plan) []Case {
	var cases []Case
	mk := func(c *Ctx, f, d int) (*Set, string, *pol.LiabilityProof) {
		s := newSet(custom(f, d))
		randomHistory(c.R, s, 5)
		id := s.IDs()[0]
		pr := proveAndVerify(c, s, id, "honest")
		if pr == nil {
			panic(skipCase("no honest proof"))
		}
		return s, id, pr
	}
	each := func(c *Ctx, s *Set, id string, pr *pol.LiabilityProof, keep func(i int) bool) {
		ms := structural(pr, len(pr.V))
		for i, m := range ms {
			if !keep(i) || c.failed() {
				continue
			}
			m.set()
			malformedVerdict(c, m.name, s.Pub, id, pr, s, m.redundant)
			m.undo()
		}
		V, W := s.Root()
		c.Check(verifyLP(s.Pub, id, *pr, V, W) == nil, "%s: the proof, restored, is rejected", s.Pub.Kind)
		c.Sample("%s: %d malformations of a proof, such as %s", s.Pub.Kind, len(ms), ms[len(ms)/2].name)
	}
	const parts = 4
	for _, sh := range []struct{ f, d, every int }{{3, 2, 1}, {3, 3, p.Pick(2, 1)}, {3, 4, p.Pick(9, 1)}, {7, 2, p.Pick(10, 1)}, {7, 3, p.Pick(20, 1)}} {
		for k := 0; k < parts; k++ {
			sh, k := sh, k
			cases = append(cases, Case{Name: fmt.Sprintf("single/f%d-d%d/%d", sh.f, sh.d, k), Run: func(c *Ctx) {
				s, id, pr := mk(c, sh.f, sh.d)
				each(c, s, id, pr, func(i int) bool { return i%parts == k && (i/parts)%sh.every == int(p.Seed)%sh.every })
			}})
		}
	}
	cases = append(cases, Case{Name: "single-sequential/f3-d2", Serial: true, Run: func(c *Ctx) {
		pol.ParallelismEnabled = false
		defer func() { pol.ParallelismEnabled = true }()
		var wg sync.WaitGroup
		for k := 0; k < 8; k++ {
			k := k
			s, id, pr := mk(c, 3, 2)
			wg.Add(1)
			go func() {
				defer wg.Done()
				each(c, s, id, pr, func(i int) bool { return i%8 == k && (p.Thorough || i/8%3 == int(c.plan.Seed%3)) })
			}()
		}
		wg.Wait()
	}})
	for k := 0; k < p.Pick(6, 60); k++ {
		cases = append(cases, Case{Name: fmt.Sprintf("combined/%d", k), Run: func(c *Ctx) {
			s, id, pr := mk(c, 3, 2+c.R.Intn(2))
			for i := 0; i < 40 && !c.failed(); i++ {
				bad := clone(pr)
				what := ""
				red := true
				for n := 2 + c.R.Intn(4); n > 0; n-- {
					ms := structural(bad, len(pr.V))
					m := ms[c.R.Intn(len(ms))]
					m.set()
					what += m.name + "; "
					red = red && m.redundant
				}
				// the mutations of the same list may have undone each other
				if sameShape(pr, bad, len(pr.V)) {
					red = true
				}
				malformedVerdict(c, what, s.Pub, id, bad, s, red)
			}
		}})
	}
	for i := 0; i < 5; i++ {
		i := i
		cases = append(cases, Case{Name: fmt.Sprintf("other-dimensions/%d", i), Run: func(c *Ctx) {
			type one struct {
				s  *Set
				id string
				pr *pol.LiabilityProof
			}
			var all []one
			for _, sh := range [][2]int{{3, 2}, {3, 3}, {3, 4}, {7, 2}, {7, 3}} {
				s, id, pr := mk(c, sh[0], sh[1])
				all = append(all, one{s, id, pr})
			}
			malformedVerdict(c, "an empty proof", all[0].s.Pub, all[0].id, &pol.LiabilityProof{}, all[0].s, false)
			a := all[i]
			{
				for j, b := range all {
					if i == j || c.failed() {
						continue
					}
					malformedVerdict(c, "a proof of "+b.s.Pub.Kind, a.s.Pub, a.id, b.pr, a.s, false)
					// with the right root in front
					x := clone(b.pr)
					x.V[0], x.W[0] = a.pr.V[0], a.pr.W[0]
					malformedVerdict(c, "a proof of "+b.s.Pub.Kind+" under the root", a.s.Pub, a.id, x, a.s, false)
					// each field of the other proof
					av, bv := reflect.ValueOf(a.pr).Elem(), reflect.ValueOf(b.pr).Elem()
					for k := 0; k < av.NumField(); k++ {
						f := av.Field(k)
						if !f.CanSet() {
							continue
						}
						old := reflect.New(f.Type()).Elem()
						old.Set(f)
						f.Set(bv.Field(k))
						malformedVerdict(c, fmt.Sprintf("%s of a proof of %s", av.Type().Field(k).Name, b.s.Pub.Kind), a.s.Pub, a.id, a.pr, a.s, false)
						f.Set(old)
					}
					for k := 0; k < len(a.pr.RangeProofs) && (p.Thorough || j == (i+1)%5); k++ {
						old := a.pr.RangeProofs[k]
						a.pr.RangeProofs[k] = b.pr.RangeProofs[k%len(b.pr.RangeProofs)]
						malformedVerdict(c, fmt.Sprintf("range proof %d of a proof of %s", k, b.s.Pub.Kind), a.s.Pub, a.id, a.pr, a.s, false)
						a.pr.RangeProofs[k] = old
					}
				}
			}
		}})
	}
	cases = append(cases, Case{Name: "totals", Run: func(c *Ctx) {
		s, _, _ := mk(c, 3, 2)
		V, _ := s.Root()
		tp := s.ProveTot()
		for _, m := range structural(&tp, 0) {
			m.set()
			var err error
			pn := catch(func() { err = tp.Verify(s.Pub.PP, V) })
			c.Check(pn == nil && err != nil, "a total proof with %s: error %v, panic %v", m.name, err, pn)
			c.Distinct("total %s", m.name)
			m.undo()
		}
	}})
	return cases
}

// sameShape says whether the proofs agree in all the verifier reads.
func sameShape(a, b *pol.LiabilityProof, pathLen int) bool {
	keys := func(x *pol.LiabilityProof) map[string]string {
		m := map[string]string{}
		for _, s := range slots(x) {
			if !redundant(s, pathLen) {
				r := "hollow"
				catch(func() { r = s.repr() })
				m[s.Path] = r
			}
		}
		return m
	}
	return reflect.DeepEqual(keys(a), keys(b))
}
