package main

import (
	"fmt"
)

func init() {
	register(&Property{
		ID:    "C17",
		Level: "fault_enumeration",
		Rule:  "For every update of a history and every store operation it issues, one run in which exactly that operation fails (panics before or after taking effect, or reads nothing), optionally followed by more failures or other updates, then by the retry and the rest of the history; afterwards reads, all stored vertices, the root, the total proof and (sampled) liability proofs are compared with the model. distinct = distinct (parameters, history, update, operation, mode) in which the fault was hit.",
		Cases: c17Cases,
	})
}

type storeFault string

type histOp struct {
	id     string
	amount int64
}

// armFault makes the n-th store operation (1-based) from now on fail.
func armFault(st *Store, n int, mode string) (hit func() bool) {
	count, done := 0, false
	step := func(op string) {
		if done {
			return
		}
		count++
		if count == n {
			done = true
			panic(storeFault(fmt.Sprintf("%s fault at operation %d (%s)", mode, n, op)))
		}
	}
	st.before, st.after, st.lose = nil, nil, nil
	switch mode {
	case "before":
		st.before = func(op string, key []byte) { step(op) }
	case "after":
		st.after = func(op string, key []byte) { step(op) }
	case "empty":
		st.lose = func() bool {
			if done {
				return false
			}
			count++
			done = count == n
			return done
		}
	}
	return func() bool { return done }
}

func disarm(st *Store) { st.before, st.after, st.lose = nil, nil, nil }

func c17Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, f func(*Ctx)) { cases = append(cases, Case{Name: name, Run: f}) }

	shapes := []struct{ f, d, histories, ops int }{
		{3, 2, p.Pick(6, 40), 7}, {3, 3, p.Pick(6, 30), 7}, {3, 5, p.Pick(3, 20), 6}, {7, 2, p.Pick(3, 20), 8}, {7, 3, p.Pick(2, 20), 7}, {15, 3, p.Pick(1, 10), 6},
	}
	for _, sh := range shapes {
		for h := 0; h < sh.histories; h++ {
			sh, h := sh, h
			add(fmt.Sprintf("every-operation/f%d-d%d/%d", sh.f, sh.d, h), func(c *Ctx) {
				pub := custom(sh.f, sh.d)
				var hist []histOp
				var ids []string
				sofar := map[string]int64{}
				var total int64
				for i := 0; i < sh.ops; i++ {
					id := pickID(c.R, pub, ids, sh.f, sh.d)
					if i == 2 {
						id = hist[0].id // an update of an existing identifier
					}
					if i == 3 { // a sibling of one
						id = sibling(hist[0].id, sh.f)
					}
					a := c.R.Int63n(1 << 40)
					if c.R.Intn(5) == 0 {
						a = amount(c.R, max63-max63/16)
					}
					total += a - sofar[id]
					sofar[id] = a
					ids = append(ids, id)
					hist = append(hist, histOp{id, a})
				}
				// how many operations each update issues
				dry := newSet(pub)
				counts := make([]int, len(hist))
				for i, o := range hist {
					b := dry.Store.gets + dry.Store.puts
					dry.Put(o.id, o.amount)
					counts[i] = dry.Store.gets + dry.Store.puts - b
				}
				c.Sample("%s: history %v, store operations per update %v", pub.Kind, hist, counts)
				for i := range hist {
					for n := 1; n <= counts[i]; n++ {
						for _, mode := range []string{"before", "after", "empty"} {
							for _, then := range []string{"retry", "others", "again"} {
								if c.failed() {
									return
								}
								if then != "retry" && c.R.Intn(3) > 0 && !p.Thorough {
									continue
								}
								faultRun(c, pub, hist, i, n, mode, then)
							}
						}
					}
				}
			})
		}
	}
	// with liability proofs, between the failure and the retry and after it
	for h := 0; h < p.Pick(8, 60); h++ {
		h := h
		add(fmt.Sprintf("proofs/%d", h), func(c *Ctx) {
			pub := custom(3, 2+h%2)
			s := newSet(pub)
			randomHistory(c.R, s, 4)
			ids := s.IDs()
			target := ids[c.R.Intn(len(ids))]
			if h%3 == 1 {
				target = sibling(target, 3)
			}
			oldV, oldW := s.Root()
			old := map[string]int64{}
			for id, a := range s.Model {
				old[id] = a
			}
			newAmount := s.Model[target] + 1 + c.R.Int63n(1000)
			if newAmount < 0 || s.Total() > max63-2000 { // keep the total in its domain
				newAmount = c.R.Int63n(s.Model[target] + 1)
			}
			mode := []string{"before", "after"}[h/2%2]
			n := 1 + c.R.Intn(5)
			if h%4 == 0 { // the last operations
				n = 3 + c.R.Intn(4)
			}
			hit := armFault(s.Store, n, mode)
			p := catch(func() { s.Set(target, newAmount) })
			disarm(s.Store)
			c.Eval()
			if hit() {
				c.Distinct("%s %v %d %s", pub.Kind, old, n, mode)
			}
			if hit() && p != nil {
				c.Saw("faults hit", 1)
				curV, curW := s.Root()
				for _, id := range append(s.IDs(), target) {
					id := id
					catch(func() {
						a, proof, _, ok := s.ProveLiability(id)
						if !ok {
							return
						}
						for k, root := range [][2]interface{}{{oldV, oldW}, {curV, curW}} {
							V, W := root[0], root[1]
							if k == 1 && eqG(oldV, curV) {
								continue
							}
							c.Eval()
							if err := verifyAny(pub, id, proof, V, W); err == nil {
								c.Saw("proofs accepted between failure and retry", 1)
								recorded, ok := old[id]
								if a != recorded && !(k == 1 && id == target && a == newAmount) {
									c.Fail("%s: between the failed update of %s and its retry a proof for %s=%d is accepted, recorded is %d, %v", pub.Kind, target, id, a, recorded, ok)
								}
							} else {
								c.Saw("proofs rejected between failure and retry", 1)
							}
						}
					})
				}
			}
			s.Put(target, newAmount)
			for i, id := range s.IDs() {
				if i < 2 || id == target {
					proveAndVerify(c, s, id, "after the retry")
				}
			}
		})
	}
	return cases
}

func sibling(id string, f int) string {
	var last int
	i := len(id) - 1
	for i >= 0 && id[i] != '.' {
		i--
	}
	fmt.Sscan(id[i+1:], &last)
	return fmt.Sprintf("%s%d", id[:i+1], (last+1)%f)
}

func faultRun(c *Ctx, pub *Pub, hist []histOp, i, n int, mode, then string) {
	s := newSet(pub)
	for _, o := range hist[:i] {
		s.Put(o.id, o.amount)
	}
	o := hist[i]
	oldTotal := s.Total()
	oldV, _ := s.Root()
	hit := armFault(s.Store, n, mode)
	what := fmt.Sprintf("%s: update %d (%s=%d), %s fault at store operation %d, then %s; history %v", pub.Kind, i, o.id, o.amount, mode, n, then, hist)
	p := catch(func() { s.Set(o.id, o.amount) })
	if !hit() {
		disarm(s.Store)
		return // the update needs fewer operations than it did before
	}
	c.Saw("faults hit", 1)
	c.Saw("faults of mode "+mode, 1)
	c.Distinct("%v %d %d %s %s %s", hist, i, n, mode, then, pub.Kind)
	if then == "again" { // the retry fails too
		for k := 1; k <= 3; k++ {
			armFault(s.Store, 1+c.R.Intn(n+2), []string{"before", "after"}[c.R.Intn(2)])
			catch(func() { s.Set(o.id, o.amount) })
		}
	}
	disarm(s.Store)
	if p != nil && i > 0 {
		// what is proven now?
		newTotal := oldTotal + o.amount - s.Model[o.id]
		catch(func() {
			V, _ := s.Root()
			tp := s.ProveTot()
			if tp.Verify(pub.PP, V) == nil && int64(tp.Sum) != oldTotal && !(int64(tp.Sum) == newTotal && (mode == "after" || then == "again" || mode == "empty")) {
				c.Fail("%s: before the retry the total %d is proven, recorded are %d", what, tp.Sum, oldTotal)
			}
			if tp.Verify(pub.PP, oldV) == nil && int64(tp.Sum) != oldTotal {
				c.Fail("%s: the total %d is accepted against the root of total %d", what, tp.Sum, oldTotal)
			}
		})
	}
	rest := hist[i+1:]
	if then == "others" && len(rest) > 0 {
		// other identifiers first; the retried update comes last for its own
		var later []histOp
		for k, x := range rest {
			if x.id != o.id && k < 3 {
				s.Put(x.id, x.amount)
			} else {
				later = append(later, x)
			}
		}
		rest = later
	}
	s.Put(o.id, o.amount)
	ok := checkSet(c, s, what+": after the retry")
	for _, x := range rest {
		s.Put(x.id, x.amount)
	}
	if ok {
		checkSet(c, s, what+": at the end")
	}
}

// checkSet compares reads, total, root and vertices of a set with its model.
func checkSet(c *Ctx, s *Set, what string) bool {
	for _, id := range s.IDs() {
		a, ok := s.Get(id)
		if !c.Check(ok && a == s.Model[id], "%s: Get(%s)=%d,%v instead of %d", what, id, a, ok, s.Model[id]) {
			return false
		}
	}
	if !mirrorMonitor(c, what, treeOf(s.LiabilitySet), s.Pub.Path, s.Pub.F, s.Model) {
		return false
	}
	V, W := s.Root()
	_, vs, _ := treeOf(s.LiabilitySet).Get(s.IDs()[0])
	if !c.Check(eqG(V, vs[0].V) && eqG(W, vs[0].W), "%s: the root read is not the one stored", what) {
		return false
	}
	tp := s.ProveTot()
	err := tp.Verify(s.Pub.PP, V)
	return c.Check(int64(tp.Sum) == s.Total() && err == nil, "%s: total proof for %d instead of %d: %v", what, tp.Sum, s.Total(), err)
}
