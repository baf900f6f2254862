package main

import (
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"time"

	"pol/bp"
	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/sum"
	"polverif/shim/sched"

	math "github.com/IBM/mathlib"
)

func init() {
	register(&Property{
		ID:      "C08",
		Workers: 1,
		Rule:    "Built with the race detector, and with the goroutines of the code under test reporting to the harness, which delays their starts, their ends and their synchronization by a policy: honest proofs and proofs with one wrong part are made and judged by one or several callers at once, on shared sets, proofs and fresh parameters, on 1 to 8 processors. Every verdict must be the sequential one, every proof complete, and no race may be reported with a frame of the code under test. distinct = distinct orders of the starts and ends of goroutines seen per case.",
		Cases:   c08Cases,
	})
}

// rawStore is an unsynchronized store (synchronization would hide races).
type rawStore map[string][]byte

func (s rawStore) Get(key []byte) []byte {
	v, ok := s[string(key)]
	if !ok {
		return nil
	}
	return append([]byte{}, v...)
}
func (s rawStore) Put(key, val []byte) { s[string(key)] = append([]byte{}, val...) }

func rawSet(p *Pub) *Set {
	return &Set{LiabilitySet: pol.NewLiabilitySet(p.PP, rawStore{}, p.Path), Pub: p, Model: map[string]int64{}}
}

// together runs f n times at once and returns what the runs panicked with.
func together(n int, f func(i int)) []interface{} {
	res := make([]interface{}, n)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			res[i] = catch(func() { f(i) })
		}()
	}
	close(start)
	wg.Wait()
	return res
}

// order is the order of what happened, and note accounts for it.
func note(c *Ctx, what string) {
	tasks, kinds := sched.Events()
	var sb strings.Builder
	spawned, started, ended := 0, 0, 0
	for i := range tasks {
		switch kinds[i] {
		case 'o':
			spawned++
			continue
		case 's':
			started++
		case 'e':
			ended++
		}
		fmt.Fprintf(&sb, "%c%d ", kinds[i], tasks[i])
	}
	c.Saw("goroutines of the code under test", spawned)
	c.Saw("goroutine events", len(tasks))
	c.Distinct("%s %s", what, sb.String())
	if sb.Len() > 0 {
		c.Sample("%s: order of starts and ends: %s", what, clip(sb.String(), 200))
	}
}

type policyOf struct {
	name string
	p    sched.Policy
}

// policies for about n goroutines.
func policies(n int, seed uint64, rnd int) []policyOf {
	ms := time.Millisecond
	res := []policyOf{
		{"undelayed", sched.Policy{Task: -2}},
		{"all late", sched.Policy{Task: -1, Start: 120 * ms}},
		{"all slow to end", sched.Policy{Task: -1, End: 60 * ms, Points: 20 * ms, Seed: seed}},
		{"starter late", sched.Policy{Task: -2, Spawn: 150 * ms}},
	}
	for i := 0; i < n; i++ {
		res = append(res, policyOf{fmt.Sprintf("%d late", i), sched.Policy{Task: i, Start: 250 * ms}})
	}
	for i := 0; i < rnd; i++ {
		res = append(res, policyOf{fmt.Sprintf("random %d", i), sched.Policy{Task: -2, Random: time.Duration(1+i%5) * 15 * ms, Seed: seed + uint64(i)*1000003}})
	}
	return res
}

// a judged thing: a proof, with what it is judged against, and the verdict.
type judged struct {
	name  string
	proof *pol.LiabilityProof
	id    string
	V, W  *math.G1
	ok    bool
}

// sequentially runs f without parallelism.
func sequentially(f func()) {
	old := pol.ParallelismEnabled
	pol.ParallelismEnabled = false
	defer func() { pol.ParallelismEnabled = old }()
	f()
}

func procs(n int, f func()) {
	old := runtime.GOMAXPROCS(n)
	defer runtime.GOMAXPROCS(old)
	f()
}

// badProofs are proofs with one wrong part, and wrong things to judge a proof against.
func badProofs(c *Ctx, s *Set, id string, proof, other *pol.LiabilityProof) []judged {
	V, W := s.Root()
	res := []judged{{"honest", proof, id, V, W, true}}
	n := len(proof.RangeProofs)
	for i := 0; i < n; i++ {
		b := clone(proof)
		els := elements(b.RangeProofs[i])
		var sel []Slot
		for _, e := range els {
			if !redundant(e, n) {
				sel = append(sel, e)
			}
		}
		e := sel[c.R.Intn(len(sel))]
		as := alter(e, nil)
		a := as[c.R.Intn(len(as))]
		a.set()
		res = append(res, judged{fmt.Sprintf("range proof %d %s", i, a.name), b, id, V, W, false})
		if i+1 < n {
			b := clone(proof)
			b.RangeProofs[i], b.RangeProofs[i+1] = b.RangeProofs[i+1], b.RangeProofs[i]
			res = append(res, judged{fmt.Sprintf("range proofs %d and %d exchanged", i, i+1), b, id, V, W, false})
		}
		if other != nil && !other.V[i].Equals(proof.V[i]) {
			b := clone(proof)
			b.RangeProofs[i] = other.RangeProofs[i]
			res = append(res, judged{fmt.Sprintf("range proof %d of another proof", i), b, id, V, W, false})
		}
		b = clone(proof)
		b.RangeProofs[i] = nil
		res = append(res, judged{fmt.Sprintf("range proof %d absent", i), b, id, V, W, false})
	}
	b := clone(proof)
	b.Digests[0] = addZ(b.Digests[0], zr(1))
	res = append(res, judged{"digest wrong", b, id, V, W, false})
	b = clone(proof)
	b.LiabilityProof.Sum++
	res = append(res, judged{"amount wrong", b, id, V, W, false})
	b = clone(proof)
	b.PointProofπ = plusG(b.PointProofπ, curve.GenG1)
	res = append(res, judged{"chain opening wrong", b, id, V, W, false})
	res = append(res, judged{"root wrong", clone(proof), id, plusG(V, curve.GenG1), W, false})
	for k := 0; k < 20; k++ {
		if o := s.Pub.NearID(c.R, id); o != id {
			res = append(res, judged{"id wrong", clone(proof), o, V, W, false})
			break
		}
	}
	return res
}

func (j judged) verdict(p *Pub) (err error) {
	if r := catch(func() { err = verifyLP(p, j.id, *j.proof, j.V, j.W) }); r != nil {
		return fmt.Errorf("panic: %v", r)
	}
	return err
}

// complete says what a produced proof lacks.
func complete(c *Ctx, p *Pub, proof *pol.LiabilityProof) string {
	n := p.pathLen
	if len(proof.RangeProofs) != n || len(proof.V) != n || len(proof.W) != n-1 || len(proof.Digests) != n {
		return "a list is too short"
	}
	for _, s := range slots(proof) {
		if s.V.Kind() == reflect.Ptr && s.V.IsNil() {
			return s.Path + " is absent"
		}
	}
	for i := range proof.RangeProofs {
		if err := bp.VerifyRange(p.PP.RPPP, proof.RangeProofs[i], proof.V[i]); err != nil {
			return fmt.Sprintf("range proof %d: %v", i, err)
		}
	}
	return ""
}

func c08Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, f func(*Ctx)) { cases = append(cases, Case{Name: name, Run: f}) }
	type shape struct{ f, d int }
	shapes := []shape{{3, 2}, {3, 3}}
	if p.Thorough {
		shapes = append(shapes, shape{3, 5}, shape{7, 3}, shape{15, 2}, shape{7, 6})
	}
	build := func(c *Ctx, pub *Pub, n int) (*Set, []string) {
		s := rawSet(pub)
		randomHistory(c.R, s, n)
		for len(s.Model) < 2 {
			randomHistory(c.R, s, 2)
		}
		return s, s.IDs()
	}

	// nothing was used before the callers do at once; cases run one by one, and this is the first
	for h := 0; h < p.Pick(2, 10); h++ {
		add(fmt.Sprintf("first use/%d", h), func(c *Ctx) {
			pub := freshCustom(3, 2)
			s, ids := build(c, pub, 4)
			spare := clone(pub.PP) // as it was set up
			n := 4
			wrong := make([]string, n)
			proofs := make([]pol.LiabilityProof, n)
			tots := make([]pol.TotalProof, n)
			sched.Reset(sched.Policy{Task: -2, Random: 3 * time.Millisecond, Seed: uint64(c.R.Int63())})
			ps := together(n, func(i int) {
				if i%2 == 0 {
					tots[i] = s.ProveTot()
				}
				got, a, _, ok := s.ProveLiability(ids[i%2])
				if !ok || got != s.Model[ids[i%2]] {
					wrong[i] = fmt.Sprintf("proved %d, %v", got, ok)
				}
				proofs[i] = a
				tots[i] = s.ProveTot()
			})
			sched.Reset(sched.Policy{Task: -2})
			for i := range wrong {
				if !c.Check(wrong[i] == "" && ps[i] == nil, "%s, first use: %s %v", pub.Kind, wrong[i], ps[i]) {
					return
				}
			}
			V, W := s.Root()
			fresh := *pub
			fresh.PP = spare
			errs, terrs := make([]error, n), make([]error, n)
			ps = together(n, func(i int) {
				id, proof := ids[0], &proofs[0]
				if i == n-1 {
					id, proof = ids[1], &proofs[1]
				}
				errs[i] = verifyLP(&fresh, id, *proof, V, W)
				terrs[i] = tots[0].Verify(fresh.PP, V)
			})
			note(c, "first use")
			for i := range errs {
				c.Saw("verdicts of concurrent first users", 1)
				c.Check(errs[i] == nil && terrs[i] == nil && ps[i] == nil, "%s, first use: verdicts %v, %v, %v", pub.Kind, errs[i], terrs[i], ps[i])
			}
		})
	}
	for _, sh := range shapes {
		sh := sh
		// one caller, delayed goroutines
		for h := 0; h < p.Pick(1, 6); h++ {
			h := h
			add(fmt.Sprintf("delayed/f%d-d%d/%d", sh.f, sh.d, h), func(c *Ctx) {
				pub := freshCustom(sh.f, sh.d)
				s, ids := build(c, pub, 5)
				id := ids[c.R.Intn(len(ids))]
				amount := s.Model[id]
				seed := uint64(c.R.Int63())
				var proof, other *pol.LiabilityProof
				sequentially(func() {
					_, a, _, _ := s.ProveLiability(id)
					_, b, _, _ := s.ProveLiability(ids[(len(ids)-1)/2])
					proof, other = &a, &b
				})
				js := badProofs(c, s, id, proof, other)
				sequentially(func() {
					for i := range js {
						if i > 0 && !p.Thorough && i%4 != 1 {
							continue
						}
						err := js[i].verdict(pub)
						c.Check((err == nil) == js[i].ok, "%s: %s, sequentially: %v", pub.Kind, js[i].name, err)
					}
				})
				pols := policies(sh.d, seed, p.Pick(3, 40))
				for k, po := range pols {
					for _, cpu := range []int{8, 2, 4} {
						if cpu != []int{8, 2, 4}[(k+h)%3] && !p.Thorough {
							continue
						}
						what := fmt.Sprintf("%s, %s, %d processors", pub.Kind, po.name, cpu)
						procs(cpu, func() {
							sched.Reset(po.p)
							got, a, _, ok := s.ProveLiability(id)
							note(c, "prove "+pub.Kind)
							sched.Reset(sched.Policy{Task: -2})
							if !c.Check(ok && got == amount, "%s: proved %d, %v instead of %d", what, got, ok, amount) {
								return
							}
							lacks := complete(c, pub, &a)
							if !c.Check(lacks == "", "%s: the proof is incomplete: %s", what, lacks) {
								return
							}
							for n, j := range js {
								// every wrong part with every policy would take long
								if n > 0 && !p.Thorough && (n+k+h)%6 != 0 {
									continue
								}
								if n == 0 {
									j.proof = &a
								}
								sched.Reset(po.p)
								err := j.verdict(pub)
								note(c, "verify "+pub.Kind+" "+j.name)
								c.Saw("verdicts of a single caller", 1)
								if !c.Check((err == nil) == j.ok, "%s: verdict on %s is %v", what, j.name, err) {
									return
								}
								if n == 0 || c.R.Intn(2) == 0 {
									continue
								}
								// the proof is the caller's again
								for _, e := range elements(j.proof) {
									e.V.Set(e.V)
								}
							}
							sched.Reset(sched.Policy{Task: -2})
						})
						if c.failed() {
							return
						}
					}
				}
			})
		}

		// several verifiers of the same proofs
		for h := 0; h < p.Pick(1, 10); h++ {
			h := h
			add(fmt.Sprintf("verifiers/f%d-d%d/%d", sh.f, sh.d, h), func(c *Ctx) {
				pub := freshCustom(sh.f, sh.d)
				s, ids := build(c, pub, 5)
				id := ids[c.R.Intn(len(ids))]
				_, a, _, _ := s.ProveLiability(id)
				_, b, _, _ := s.ProveLiability(ids[0])
				js := badProofs(c, s, id, &a, &b)
				pols := policies(0, uint64(c.R.Int63()), p.Pick(2, 10))
				for k, po := range pols {
					n := 3 + (k+h)%3
					pick := make([]judged, n)
					for i := range pick {
						pick[i] = js[0] // the same proof for most
						if i >= n-2 {
							pick[i] = js[c.R.Intn(len(js))]
						}
					}
					errs := make([]error, n)
					tot := make([]error, n)
					V := js[0].V
					tp := s.ProveTot()
					procs([]int{8, 2, 4}[(k+h)%3], func() {
						sched.Reset(po.p)
						ps := together(n, func(i int) {
							errs[i] = pick[i].verdict(pub)
							tot[i] = tp.Verify(pub.PP, V)
						})
						note(c, "verifiers "+pub.Kind)
						sched.Reset(sched.Policy{Task: -2})
						for i := range pick {
							c.Saw("verdicts of concurrent callers", 1)
							c.Check(ps[i] == nil && (errs[i] == nil) == pick[i].ok && tot[i] == nil, "%s, %s: verdict of one of %d callers on %s is %v (total: %v, panic: %v)", pub.Kind, po.name, n, pick[i].name, errs[i], tot[i], ps[i])
						}
					})
					if c.failed() {
						return
					}
				}
			})
			// several provers on one set, and verifiers besides
			add(fmt.Sprintf("provers/f%d-d%d/%d", sh.f, sh.d, h), func(c *Ctx) {
				pub := freshCustom(sh.f, sh.d)
				s, ids := build(c, pub, 6)
				V, W := s.Root()
				id0 := ids[c.R.Intn(len(ids))]
				_, a0, _, _ := s.ProveLiability(id0)
				bad := badProofs(c, s, id0, &a0, nil)
				absent := ""
				for k := 0; k < 50; k++ {
					if o := pub.RandID(c.R); s.Model[o] == 0 {
						if _, ok := s.Model[o]; !ok {
							absent = o
						}
					}
				}
				pols := policies(0, uint64(c.R.Int63()), p.Pick(1, 10))
				for k, po := range pols {
					if k%2 == 1 && !p.Thorough {
						continue
					}
					n := 4
					proofs := make([]pol.LiabilityProof, n)
					which := make([]string, n)
					wrong := make([]string, n)
					jb := bad[c.R.Intn(len(bad))]
					for i := range which {
						which[i] = ids[c.R.Intn(len(ids))]
					}
					which[1] = which[0]
					procs([]int{8, 3}[(k+h)%2], func() {
						sched.Reset(po.p)
						ps := together(n+1, func(i int) {
							if i == n { // a verifier
								if err := jb.verdict(pub); (err == nil) != jb.ok {
									wrong[0] = fmt.Sprintf("verdict on %s is %v", jb.name, err)
								}
								return
							}
							if got, ok := s.Get(which[i]); !ok || got != s.Model[which[i]] {
								wrong[i] = fmt.Sprintf("Get(%s) = %d, %v", which[i], got, ok)
							}
							if v, w := s.Root(); !eqG(v, V) || !eqG(w, W) {
								wrong[i] = "another root"
							}
							got, a, _, ok := s.ProveLiability(which[i])
							if !ok || got != s.Model[which[i]] {
								wrong[i] = fmt.Sprintf("ProveLiability(%s) = %d, %v", which[i], got, ok)
							}
							proofs[i] = a
							tp := s.ProveTot()
							if err := tp.Verify(pub.PP, V); int64(tp.Sum) != s.Total() || err != nil {
								wrong[i] = fmt.Sprintf("total %d, %v", tp.Sum, err)
							}
							if absent != "" {
								if _, _, _, ok := s.ProveLiability(absent); ok {
									wrong[i] = "proof for an absent id"
								}
							}
						})
						note(c, "provers "+pub.Kind)
						sched.Reset(sched.Policy{Task: -2})
						for i := range wrong {
							c.Saw("proofs of concurrent callers", 1)
							c.Check(wrong[i] == "" && ps[i] == nil && ps[n] == nil, "%s, %s: one of %d provers: %s %v", pub.Kind, po.name, n, wrong[i], ps[i])
							if c.failed() {
								return
							}
							lacks := complete(c, pub, &proofs[i])
							err := verifyLP(pub, which[i], proofs[i], V, W)
							c.Check(lacks == "" && err == nil, "%s, %s: a proof made by one of %d callers: %s, %v", pub.Kind, po.name, n, lacks, err)
						}
					})
					if c.failed() {
						return
					}
				}
			})
			// different sets with the same parameters
			add(fmt.Sprintf("sets/f%d-d%d/%d", sh.f, sh.d, h), func(c *Ctx) {
				pub := freshCustom(sh.f, sh.d)
				n := 3
				sets := make([]*Set, n)
				ops := make([][]histOp, n)
				for i := range sets {
					sets[i] = rawSet(pub)
					for k := 0; k < 4; k++ {
						ops[i] = append(ops[i], histOp{pub.RandID(c.R), c.R.Int63n(1 << 50)})
					}
				}
				wrong := make([]string, n)
				sched.Reset(sched.Policy{Task: -2, Random: 5 * time.Millisecond, Seed: uint64(c.R.Int63())})
				ps := together(n, func(i int) {
					s := sets[i]
					for k, o := range ops[i] {
						s.Put(o.id, o.amount)
						V, W := s.Root()
						if k%2 == 0 {
							continue
						}
						got, a, _, ok := s.ProveLiability(o.id)
						err := verifyLP(pub, o.id, a, V, W)
						tp := s.ProveTot()
						terr := tp.Verify(pub.PP, V)
						if !ok || got != o.amount || err != nil || terr != nil || int64(tp.Sum) != s.Total() {
							wrong[i] = fmt.Sprintf("after %v: %d %v %v, total %d %v", ops[i][:k+1], got, ok, err, tp.Sum, terr)
						}
					}
				})
				note(c, "sets "+pub.Kind)
				sched.Reset(sched.Policy{Task: -2})
				for i := range wrong {
					c.Saw("concurrent sets", 1)
					c.Check(wrong[i] == "" && ps[i] == nil, "%s: one of %d concurrent sets: %s %v", pub.Kind, n, wrong[i], ps[i])
				}
			})
		}
	}
	for h := 0; h < p.Pick(2, 12); h++ {
		h := h
		add(fmt.Sprintf("arguments/%d", h), func(c *Ctx) { concurrentArguments(c, []int{3, 7}[h%2]) })
	}
	add("constructors", func(c *Ctx) {
		n := 3
		got := make([]error, n)
		ps := together(n, func(i int) {
			path, g := pol.GeneratePublicParams(3, pol.TreeType(i%2 == 0))
			v := common.Vec{zr(1), zr(2), zr(3), zr(6), zr(int64(i))}
			C := pp.Commit(g.PPPP, v)
			x, π := pp.Open(g.PPPP, 1, v)
			got[i] = pp.Verify(g.PPPP, x, π, C, 1)
			if i%2 == 0 {
				path("123456789")
			} else {
				path(strings.Repeat("1f", 32))
			}
		})
		for i := range got {
			c.Check(got[i] == nil && ps[i] == nil, "parameters set up by one of %d callers: %v %v", n, got[i], ps[i])
		}
	})
	return cases
}

// concurrentArguments uses every argument system from several callers at once.
func concurrentArguments(c *Ctx, f int) {
	pub := freshCustom(f, 3)
	n := f + 1
	P := pub.PP
	vec := func() common.Vec {
		v := make(common.Vec, n)
		var t int64
		for i := 0; i < n-1; i++ {
			x := c.R.Int63n(1 << 40)
			v[i], t = zr(x), t+x
		}
		v[n-1] = zr(t)
		return v
	}
	const callers = 3
	type job struct {
		v, w   common.Vec
		r, s   *math.Zr
		eq     *poe.Equalities
		ev, ew []common.Vec
	}
	jobs := make([]job, callers)
	for k := range jobs {
		j := &jobs[k]
		j.v, j.w, j.r, j.s = vec(), vec(), randZr(c.R), randZr(c.R)
		m := len(P.POEPP.G)
		j.eq = &poe.Equalities{PP: P.POEPP, RO: poe.RO}
		for i := 0; i < m; i++ {
			a, b := append(vec(), randZr(c.R)), append(vec(), randZr(c.R))
			x, y := c.R.Intn(n), c.R.Intn(n)
			b[y] = a[x].Copy()
			j.ev, j.ew = append(j.ev, a), append(j.ew, b)
			j.eq.V, j.eq.W = append(j.eq.V, pp.Commit(P.PPPP, a)), append(j.eq.W, pp.Commit(P.PPPP, b))
			j.eq.I, j.eq.J = append(j.eq.I, x), append(j.eq.J, y)
		}
	}
	// what all callers verify
	sharedV := commitBlind(P.PPPP, jobs[0].v, jobs[0].r)
	sharedRange := bp.ProveRange(P.RPPP, sharedV, jobs[0].v, jobs[0].r)
	sharedArg, sharedSum := sum.NewArgument(P.SAPP, sharedV, jobs[0].v, jobs[0].r)
	sharedEq := jobs[0].eq.Prove(jobs[0].ev, jobs[0].ew)
	badRange := clone(sharedRange)
	for _, e := range elements(badRange) {
		if e.V.Type() == tZr {
			e.V.Set(reflectOf(addZ(e.Zr(), zr(1))))
			break
		}
	}
	wrong := make([][]string, callers)
	sched.Reset(sched.Policy{Task: -2, Random: time.Millisecond, Seed: uint64(c.R.Int63())})
	ps := together(callers, func(k int) {
		j := jobs[k]
		fail := func(what string, err error, ok bool) {
			if (err == nil) != ok {
				wrong[k] = append(wrong[k], fmt.Sprintf("%s: %v", what, err))
			}
		}
		V := pp.Commit(P.PPPP, append(append(common.Vec{}, j.v...), j.r))
		W := pp.Commit(P.PPPP, append(append(common.Vec{}, j.w...), j.s))
		rp := bp.ProveRange(P.RPPP, V, j.v, j.r)
		fail("range", bp.VerifyRange(P.RPPP, rp, V), true)
		fail("range of another", bp.VerifyRange(P.RPPP, rp, W), false)
		fail("shared range", bp.VerifyRange(P.RPPP, sharedRange, sharedV), true)
		fail("shared wrong range", bp.VerifyRange(P.RPPP, badRange, sharedV), false)
		sa, sp := sum.NewArgument(P.SAPP, V, j.v, j.r)
		fail("sum", sp.Verify(P.SAPP, sa), true)
		if k > 0 {
			fail("sum of another", sharedSum.Verify(P.SAPP, sa), false)
		}
		fail("shared sum", sharedSum.Verify(P.SAPP, sharedArg), true)
		ag := sum.NewAggregatedArgument(P.SAPP, common.G1v{V, W}, []common.Vec{j.v, j.w}, common.Vec{j.r, j.s})
		fail("sums", ag.VerifyAggregated(P.SAPP, common.G1v{V, W}), true)
		fail("sums exchanged", ag.VerifyAggregated(P.SAPP, common.G1v{W, V}), false)
		fail("shared equalities", jobs[0].eq.Verify(sharedEq), true)
		ep := j.eq.Prove(j.ev, j.ew)
		fail("equalities", j.eq.Verify(ep), true)
		m := append(append(common.Vec{}, j.v...), j.r)
		x, π := pp.Open(P.PPPP, n-1, m)
		fail("opening", pp.Verify(P.PPPP, x, π, V, n-1), true)
		fail("opening of another", pp.Verify(P.PPPP, x, π, W, n-1), false)
	})
	note(c, fmt.Sprintf("arguments f=%d", f))
	sched.Reset(sched.Policy{Task: -2})
	for k := range wrong {
		c.Saw("concurrent users of arguments", 1)
		c.Check(len(wrong[k]) == 0 && ps[k] == nil, "one of %d callers: %v %v", callers, wrong[k], ps[k])
	}
}
