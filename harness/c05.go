package main

import (
	"fmt"
	mrand "math/rand"

	"pol/sparse"
	"pol/verkle"
)

func init() {
	register(&Property{
		ID:    "C05",
		Rule:  "Histories of recordings, re-recordings, refused recordings and reads are applied to the sparse tree (long ones), to the verkle tree and to the liability set; a Go map is the oracle for every read. distinct = (layer, identifiers, history) with at least one overwritten identifier or shared path prefix.",
		Cases: c05Cases,
	})
}

func c05Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, f func(*Ctx)) { cases = append(cases, Case{Name: name, Run: f}) }

	// the sparse tree, with cheap vertices and long histories
	paths := []struct {
		name string
		mk   func() (func(string) []uint16, func(*mrand.Rand) string, int)
	}{}
	for _, f := range []int{3, 7, 15, 31, 63, 127, 255, 511, 1023, 2047, 4095, 8191, 16383} {
		f := f
		paths = append(paths, struct {
			name string
			mk   func() (func(string) []uint16, func(*mrand.Rand) string, int)
		}{fmt.Sprintf("dense%d", f), func() (func(string) []uint16, func(*mrand.Rand) string, int) {
			return sparse.DigitPath(uint16(f)), randDenseID, f
		}}, struct {
			name string
			mk   func() (func(string) []uint16, func(*mrand.Rand) string, int)
		}{fmt.Sprintf("sparse%d", f), func() (func(string) []uint16, func(*mrand.Rand) string, int) {
			return sparse.HexId2PathForFanOut(uint16(f)), randHexID, f
		}})
	}
	for _, pa := range paths {
		pa := pa
		add("sparsetree/"+pa.name, func(c *Ctx) {
			path, gen, f := pa.mk()
			t := &sparse.Tree{ID2Path: path, FanOut: f, UpdateInnerVertex: func(key string, node interface{}, desc []interface{}, leaves bool, i int) interface{} {
				return key
			}}
			model := map[string]int{}
			var ids []string
			ops := c.plan.Pick(6000, 40000)
			if f > 1000 {
				ops = c.plan.Pick(120, 1500)
			}
			overwrites := 0
			for i := 0; i < ops; i++ {
				id := ""
				switch {
				case len(ids) > 0 && c.R.Intn(3) == 0:
					id = ids[c.R.Intn(len(ids))]
				case len(ids) > 0 && c.R.Intn(2) == 0:
					b := []byte(ids[c.R.Intn(len(ids))])
					set := "0123456789"
					if len(b) == 64 {
						set = "0123456789abcdef"
					}
					b[c.R.Intn(len(b))] = set[c.R.Intn(len(set))]
					id = string(b)
				default:
					id = gen(c.R)
				}
				as := func(id string) string { // hexadecimal digits in either case
					if len(id) == 64 && c.R.Intn(3) == 0 {
						return hexAlias(c.R, id)
					}
					return id
				}
				if c.R.Intn(2) == 0 {
					if _, ok := model[id]; ok {
						overwrites++
					} else {
						ids = append(ids, id)
					}
					model[id] = i
					t.Put(as(id), i)
				}
				got, vertices, ok := t.Get(as(id))
				want, exists := model[id]
				c.Eval()
				if ok != exists || ok && got.(int) != want {
					c.Fail("after %d operations Get(%s) = %v, %v but the last recording is %v, %v", i, id, got, ok, want, exists)
					return
				}
				if ok && len(vertices) != len(path(id)) {
					c.Fail("Get(%s) returns %d vertices along a path of %d steps", id, len(vertices), len(path(id)))
					return
				}
			}
			for _, id := range ids {
				got, _, ok := t.Get(id)
				if !c.Check(ok && got.(int) == model[id], "finally Get(%s) = %v, %v but the last recording is %d", id, got, ok, model[id]) {
					return
				}
			}
			c.Saw("sparse tree overwrites", overwrites)
			c.Distinct("%s %d %v", pa.name, len(ids), ids[:3])
			c.Sample("%d operations, %d identifiers, %d overwrites, e.g. %s", ops, len(ids), overwrites, ids[0])
		})
	}

	// the verkle tree
	for _, sh := range [][2]int{{3, 1}, {3, 2}, {3, 4}, {3, 8}, {7, 2}, {7, 4}, {31, 2}, {15, 3}, {31, 4}, {127, 3}} {
		for h := 0; h < p.Pick(2, 20); h++ {
			sh, h := sh, h
			add(fmt.Sprintf("verkletree/f%d-d%d/%d", sh[0], sh[1], h), func(c *Ctx) {
				pub := idsOnly(sh[0], sh[1])
				t := verkle.NewVerkleTree(uint16(sh[0]), pub.Path, newStore())
				mapHistory(c, pub, c.plan.Pick(40, 120), t.Put, func(id string) (int64, bool) {
					a, vs, ok := t.Get(id)
					if ok && len(vs) != sh[1] {
						c.Fail("Get(%s) returns %d vertices at depth %d", id, len(vs), sh[1])
					}
					return a, ok
				}, nil)
			})
		}
	}
	// the liability set
	sets := []func() *Pub{
		func() *Pub { return custom(3, 2) }, func() *Pub { return custom(3, 5) }, func() *Pub { return custom(7, 3) },
		func() *Pub { return custom(15, 2) }, func() *Pub { return dense(7) }, func() *Pub { return dense(31) },
		func() *Pub { return sparseTree(15) },
	}
	if p.Thorough {
		sets = append(sets, func() *Pub { return dense(3) }, func() *Pub { return dense(63) }, func() *Pub { return sparseTree(3) }, func() *Pub { return sparseTree(31) })
	}
	for i, get := range sets {
		for h := 0; h < p.Pick(1, 6); h++ {
			i, get := i, get
			add(fmt.Sprintf("liabilityset/%d/%d", i, h), func(c *Ctx) {
				s := newSet(get())
				mapHistory(c, s.Pub, c.plan.Pick(60, 200), s.Set, s.Get, func() {
					before := s.Store.snapshot()
					V, W := s.Root()
					ids := s.Pub.RandID(c.R)
					if len(s.Model) > 0 && c.R.Intn(2) == 0 {
						ids = s.IDs()[c.R.Intn(len(s.Model))]
					}
					for _, neg := range []int64{-1, -max63, -max63 - 1, -1 - c.R.Int63n(1000)} {
						a0, ok0 := s.Get(ids)
						refused := catch(func() { s.Set(ids, neg) }) != nil
						if refused {
							c.Saw("negative amounts refused", 1)
						}
						a1, ok1 := s.Get(ids)
						c.Check(a0 == a1 && ok0 == ok1, "Set(%s, %d) changed what is recorded from %d,%v to %d,%v", ids, neg, a0, ok0, a1, ok1)
					}
					after := s.Store.snapshot()
					same := len(before) == len(after)
					for k, v := range before {
						same = same && after[k] == v
					}
					V2, W2 := s.Root()
					c.Check(same && eqG(V, V2) && eqG(W, W2), "a refused negative amount changed the store or the root")
				})
			})
		}
	}
	return cases
}

// mapHistory compares a history of puts and gets with a map.
func mapHistory(c *Ctx, pub *Pub, ops int, put func(string, int64), get func(string) (int64, bool), extra func()) {
	model := map[string]int64{}
	var ids []string
	overwrites := 0
	as := func(id string) string { // another spelling of it
		if pub.Alias != nil && c.R.Intn(3) == 0 {
			c.Saw("other spellings", 1)
			return pub.Alias(c.R, id)
		}
		return id
	}
	check1 := func(id string) bool {
		got, ok := get(as(id))
		want, exists := model[id]
		c.Eval()
		if ok != exists || got != want {
			c.Fail("%s: Get(%s) = %d, %v but the last recording is %d, %v (%d recorded)", pub.Kind, id, got, ok, want, exists, len(ids))
			return false
		}
		if !exists {
			c.Saw("absent identifiers reported absent", 1)
		}
		return true
	}
	check := func(id string) bool {
		return check1(id) && (pub.Alias == nil || check1(id))
	}
	if !check(pub.RandID(c.R)) {
		return
	}
	if extra != nil {
		extra()
	}
	for i := 0; i < ops; i++ {
		var id string
		switch {
		case len(ids) == 0 || c.R.Intn(4) == 0:
			id = pub.RandID(c.R)
		case c.R.Intn(3) == 0:
			id = ids[c.R.Intn(len(ids))]
		default:
			id = pub.NearID(c.R, ids[c.R.Intn(len(ids))])
		}
		if !check(id) {
			return
		}
		if c.R.Intn(3) > 0 {
			if _, ok := model[id]; ok {
				overwrites++
			} else {
				ids = append(ids, id)
			}
			a := amount(c.R, 0)
			model[id] = a
			put(as(id), a)
			if !check(id) {
				return
			}
		}
		if extra != nil && c.R.Intn(8) == 0 {
			extra()
		}
	}
	for _, id := range ids {
		if !check(id) {
			return
		}
	}
	c.Saw("overwrites", overwrites)
	if overwrites > 0 {
		c.Distinct("%s %v", pub.Kind, ids)
	}
	c.Sample("%s: %d identifiers, %d overwrites, e.g. %s=%d", pub.Kind, len(ids), overwrites, ids[0], model[ids[0]])
}
