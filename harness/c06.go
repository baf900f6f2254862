package main

import (
	"fmt"
	"math/big"
	mrand "math/rand"
	"reflect"
	"sort"
	"strings"

	"pol/common"
	"pol/pol"
	"pol/pp"
	"pol/sparse"
	"pol/verkle"

	math "github.com/IBM/mathlib"
)

func init() {
	register(&Property{
		ID:    "C06",
		Rule:  "Update histories are applied to verkle trees and liability sets; at quiescent points (after every update on small trees) every vertex on the path of every recorded identifier is fetched from the store and its entries, sum, digests and both commitments are recomputed from the model by an independent multi-exponentiation and hash. distinct = (fan-out, depth, vertex position, number of updates) of vertices checked.",
		Cases: c06Cases,
	})
}

// treeOf finds the verkle tree of a liability set by its type.
func treeOf(ls *pol.LiabilitySet) *verkle.Tree {
	v := reflect.ValueOf(ls).Elem()
	for i := 0; i < v.NumField(); i++ {
		if t, ok := open(v.Field(i)).Interface().(*verkle.Tree); ok {
			return t
		}
	}
	panic(skipCase("the liability set holds no *verkle.Tree"))
}

// mirrorMonitor compares all vertices of a tree with the model.
func mirrorMonitor(c *Ctx, what string, t *verkle.Tree, path func(string) []uint16, f int, model map[string]int64) bool {
	P := t.PP
	prefix := func(p []uint16) string { return fmt.Sprint(p) }
	// subtree sums by prefix
	sums := map[string]*big.Int{}
	children := map[string]map[uint16]bool{}
	vertices := map[string]*verkle.Vertex{}
	depth := 0
	ids := make([]string, 0, len(model))
	for id := range model {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		a := model[id]
		p := path(id)
		depth = len(p)
		for i := 0; i <= len(p); i++ {
			k := prefix(p[:i])
			if sums[k] == nil {
				sums[k] = new(big.Int)
				children[k] = map[uint16]bool{}
			}
			sums[k].Add(sums[k], big.NewInt(a))
			if i < len(p) {
				children[k][p[i]] = true
			}
		}
		_, vs, ok := t.Get(id)
		if !c.Check(ok && len(vs) == len(p), "%s: %s has %d vertices along its path", what, id, len(vs)) {
			return false
		}
		for i, v := range vs {
			vertices[prefix(p[:i])] = v
		}
	}
	done := map[string]bool{}
	for _, id := range ids {
		p := path(id)
		for i := 0; i < depth; i++ {
			k := prefix(p[:i])
			if done[k] {
				continue
			}
			done[k] = true
			v := vertices[k]
			at := fmt.Sprintf("%s: vertex %v", what, p[:i])
			vals := v.Values(f + 1)
			for j := 0; j < f; j++ {
				want := new(big.Int)
				if children[k][uint16(j)] {
					want = sums[prefix(append(append([]uint16{}, p[:i]...), uint16(j)))]
				}
				if !c.Check(zint(vals[j]).Cmp(new(big.Int).Mod(want, q)) == 0, "%s: entry %d is %v, its child holds %v", at, j, zint(vals[j]), want) {
					return false
				}
			}
			if !c.Check(zint(vals[f]).Cmp(new(big.Int).Mod(sums[k], q)) == 0, "%s: sum is %v, its entries sum up to %v", at, zint(vals[f]), sums[k]) {
				return false
			}
			if !c.Check(v.BlindingFactor != nil && v.V.Equals(commitBlind(P, vals, v.BlindingFactor)), "%s: V does not commit to the entries, sum and blinding factor", at) {
				return false
			}
			if i == depth-1 {
				c.Distinct("%s %s %d", what, k, len(model))
				continue
			}
			d := make([]*math.Zr, f+2)
			for j := range d {
				d[j] = zr(0)
				if x := v.Digests[uint16(j)]; x != nil {
					d[j] = x
				}
			}
			for j := 0; j < f; j++ {
				if !children[k][uint16(j)] {
					if !c.Check(zint(d[j]).Sign() == 0, "%s: digest %d of an absent child", at, j) {
						return false
					}
					continue
				}
				child := vertices[prefix(append(append([]uint16{}, p[:i]...), uint16(j)))]
				if !c.Check(eqZ(d[j], digestOf(child.V, child.W)), "%s: digest %d is not the one of the child", at, j) {
					return false
				}
			}
			for j := range v.Digests {
				if !c.Check(int(j) < f+2, "%s: digest at %d", at, j) {
					return false
				}
			}
			if !c.Check(v.W != nil && v.W.Equals(msm(P.G1s, d)), "%s: W does not commit to the digests", at) {
				return false
			}
			c.Distinct("%s %s %d", what, k, len(model))
		}
	}
	c.Saw("vertices compared", len(done))
	return true
}

func c06Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, f func(*Ctx)) { cases = append(cases, Case{Name: name, Run: f}) }
	type shape struct{ f, d, histories, ops, every int }
	shapes := []shape{
		{3, 1, p.Pick(40, 300), 14, 1}, {3, 2, p.Pick(160, 1200), 24, 1}, {3, 3, p.Pick(120, 900), 24, 2}, {3, 5, p.Pick(40, 300), 20, 5}, {3, 19, p.Pick(8, 30), 8, 4},
		{7, 2, p.Pick(80, 600), 30, 3}, {7, 4, p.Pick(40, 300), 24, 8}, {15, 2, p.Pick(40, 300), 30, 10}, {31, 2, p.Pick(24, 180), 24, 12}, {31, 3, p.Pick(16, 120), 20, 10},
		{15, 3, p.Pick(24, 180), 30, 15}, {15, 4, p.Pick(16, 120), 24, 12},
		{127, 2, p.Pick(8, 30), 16, 8}, {255, 2, p.Pick(8, 24), 12, 6}, {511, 2, p.Pick(8, 24), 10, 5}, {1023, 2, p.Pick(4, 12), 10, 10},
	}
	for _, sh := range shapes {
		for h := 0; h < sh.histories; h++ {
			sh, h := sh, h
			add(fmt.Sprintf("tree/f%d-d%d/%d", sh.f, sh.d, h), func(c *Ctx) {
				pub := idsOnly(sh.f, sh.d)
				st := newStore()
				t := verkle.NewVerkleTree(uint16(sh.f), pub.Path, st)
				model := map[string]int64{}
				var order []string
				total := int64(0)
				for i := 0; i < sh.ops; i++ {
					id := pickID(c.R, pub, order, sh.f, sh.d)
					a := amount(c.R, total-model[id])
					if _, ok := model[id]; ok && c.R.Intn(3) == 0 {
						a = 0
					}
					total += a - model[id]
					if _, ok := model[id]; !ok {
						order = append(order, id)
					}
					model[id] = a
					t.Put(id, a)
					if (i+1)%sh.every == 0 || i == sh.ops-1 {
						if !mirrorMonitor(c, fmt.Sprintf("f=%d d=%d after %d updates (last %s=%d)", sh.f, sh.d, i+1, id, a), t, pub.Path, sh.f, model) {
							return
						}
					}
				}
				c.Sample("%d updates of %d identifiers, %d store records", sh.ops, len(model), len(st.m))
			})
		}
	}
	// different vertices never share a record, whatever strings their steps spell together
	for _, sh := range [][2]int{{3, 6}, {7, 4}, {15, 3}, {127, 3}, {1023, 3}, {16383, 3}} {
		sh := sh
		add(fmt.Sprintf("keys/f%d-d%d", sh[0], sh[1]), func(c *Ctx) { distinctKeys(c, sh[0], sh[1], p.Pick(1500, 10000)) })
	}
	for _, sh := range [][2]int{{15, 3}, {127, 3}, {511, 3}, {1023, 3}} {
		sh := sh
		for h := 0; h < p.Pick(2, 8); h++ {
			h := h
			add(fmt.Sprintf("spelled/f%d-d%d/%d", sh[0], sh[1], h), func(c *Ctx) {
				pub := idsOnly(sh[0], sh[1])
				t := verkle.NewVerkleTree(uint16(sh[0]), pub.Path, newStore())
				model := map[string]int64{}
				for _, fam := range spelledAlike(sh[0]) {
					if len(fam) > 2 && sh[0] > 500 {
						c.R.Shuffle(len(fam), func(i, j int) { fam[i], fam[j] = fam[j], fam[i] })
						fam = fam[:2]
					}
					for _, p := range fam {
						id := fmt.Sprintf("%d.%d.%d", p[0], p[1], c.R.Intn(sh[0]))
						a := amount(c.R, int64(len(model))<<58)
						t.Put(id, a)
						model[id] = a
					}
				}
				mirrorMonitor(c, fmt.Sprintf("f=%d d=%d, paths spelled alike", sh[0], sh[1]), t, pub.Path, sh[0], model)
				c.Sample("f=%d d=%d: %d identifiers", sh[0], sh[1], len(model))
			})
		}
	}
	// two orders of the same final map
	for h := 0; h < p.Pick(48, 300); h++ {
		h := h
		add(fmt.Sprintf("orders/%d", h), func(c *Ctx) {
			pub := custom([]int{3, 3, 7, 15}[h%4], 2+h%3)
			final := map[string]int64{}
			var ids []string
			tot := int64(0)
			for len(ids) < 7 {
				id := pickID(c.R, pub, ids, pub.F, pub.D)
				if _, ok := final[id]; ok {
					continue
				}
				final[id] = amount(c.R, tot)
				tot += final[id]
				ids = append(ids, id)
			}
			var content []map[string]string
			for k := 0; k < 3; k++ {
				s := newSet(pub)
				order := append([]string{}, ids...)
				c.R.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
				if k > 0 { // detours
					for i := 0; i < 6; i++ {
						id := order[c.R.Intn(len(order))]
						s.Put(id, c.R.Int63n(1000))
					}
				}
				for _, id := range order {
					s.Put(id, final[id])
					if c.R.Intn(4) == 0 {
						s.Root()
						s.ProveTot()
					}
				}
				t := treeOf(s.LiabilitySet)
				if !mirrorMonitor(c, fmt.Sprintf("%s, order %d", pub.Kind, k), t, pub.Path, pub.F, final) {
					return
				}
				V, W := s.Root()
				_, vs, _ := t.Get(ids[0])
				if !c.Check(eqG(V, vs[0].V) && eqG(W, vs[0].W), "Root() is not the root vertex in the store") {
					return
				}
				tp := s.ProveTot()
				if !c.Check(int64(tp.Sum) == tot && tp.Verify(pub.PP, V) == nil, "the total is %d, proven %d", tot, tp.Sum) {
					return
				}
				m := map[string]string{}
				for _, id := range ids {
					_, vs, _ := t.Get(id)
					for i, v := range vs {
						m[fmt.Sprint(pub.Path(id)[:i])] = strs(v.Values(pub.F + 1))
					}
				}
				content = append(content, m)
			}
			for k := 1; k < 3; k++ {
				c.Check(fmt.Sprint(content[0]) == fmt.Sprint(content[k]), "two orders of updates lead to different entries: %v, %v", content[0], content[k])
			}
			c.Sample("%s: 3 orders of %d identifiers", pub.Kind, len(ids))
		})
	}
	// what the liability set keeps in its store, on the constructors' trees
	for i, get := range []func() *Pub{func() *Pub { return dense(7) }, func() *Pub { return sparseTree(15) }, func() *Pub { return dense(31) }} {
		i, get := i, get
		add(fmt.Sprintf("real/%d", i), func(c *Ctx) {
			s := newSet(get())
			randomHistory(c.R, s, p.Pick(10, 40))
			mirrorMonitor(c, s.Pub.Kind, treeOf(s.LiabilitySet), s.Pub.Path, s.Pub.F, s.Model)
			c.Sample("%s: %d identifiers", s.Pub.Kind, len(s.Model))
		})
	}
	// commitments of the set are openable where the proofs open them
	add("openings", func(c *Ctx) {
		s := newSet(custom(7, 3))
		randomHistory(c.R, s, 12)
		t := treeOf(s.LiabilitySet)
		for _, id := range s.IDs() {
			_, vs, _ := t.Get(id)
			for i, v := range vs {
				m := append(common.Vec{}, v.Values(8)...)
				m = append(m, v.BlindingFactor)
				j := int(s.Pub.Path(id)[i])
				mi, π := pp.Open(t.PP, j, m)
				c.Check(pp.Verify(t.PP, mi, π, v.V, j) == nil, "entry %d of vertex %d of %s does not open", j, i, id)
				mi, π = pp.Open(t.PP, 7, m)
				c.Check(pp.Verify(t.PP, mi, π, v.V, 7) == nil, "the sum of vertex %d of %s does not open", i, id)
			}
		}
	})
	return cases
}

// pickID draws fresh identifiers, neighbours, recorded ones and corners.
func pickID(r *mrand.Rand, pub *Pub, ids []string, f, d int) string {
	switch {
	case len(ids) == 0 || r.Intn(4) == 0:
		if r.Intn(3) == 0 && pub.Path != nil && strings.Contains(pub.RandID(r), ".") {
			parts := make([]string, d)
			for i := range parts {
				parts[i] = fmt.Sprint([]int{0, f - 1}[r.Intn(2)])
			}
			return strings.Join(parts, ".")
		}
		return pub.RandID(r)
	case r.Intn(3) == 0:
		return ids[r.Intn(len(ids))]
	}
	return pub.NearID(r, ids[r.Intn(len(ids))])
}

// spelledAlike gives families of two-step prefixes whose steps, written one after the other in some
// notation without (or with too narrow) separation, look the same.
func spelledAlike(f int) [][][2]uint16 {
	vals := []uint16{}
	for _, x := range []int{0, 1, 2, 3, 9, 10, 11, 12, 16, 17, 21, 99, 100, 101, 110, 111, 112, 121, 127, 128, 255, 256, 257, 273, 510, 512, 513, 768, 999, 1000, 1001, 1010, 1011, 1021} {
		if x < f {
			vals = append(vals, uint16(x))
		}
	}
	spell := []func(a, b uint16) string{
		func(a, b uint16) string { return fmt.Sprintf("%d%d", a, b) },
		func(a, b uint16) string { return fmt.Sprintf("%02d%02d", a, b) },
		func(a, b uint16) string { return fmt.Sprintf("%03d%03d", a, b) },
		func(a, b uint16) string { return fmt.Sprintf("%x%x", a, b) },
		func(a, b uint16) string { return fmt.Sprintf("%02x%02x", a, b) },
		func(a, b uint16) string { return fmt.Sprint(byte(a), byte(b)) },
		func(a, b uint16) string { return fmt.Sprint(int(a)*256 + int(b)) },
		func(a, b uint16) string { return fmt.Sprint(int(a)*f + int(b)) },
		func(a, b uint16) string { return fmt.Sprint(min(a, b), max(a, b)) },
		func(a, b uint16) string { return fmt.Sprint(a ^ b) },
		func(a, b uint16) string { return fmt.Sprint(int(a) + int(b)) },
	}
	var res [][][2]uint16
	for _, sp := range spell {
		by := map[string][][2]uint16{}
		best := ""
		for _, a := range vals {
			for _, b := range vals {
				k := sp(a, b)
				by[k] = append(by[k], [2]uint16{a, b})
				// the longest numbers are where padding runs out
				if n := by[k]; len(n) > 1 && len(n) <= 6 && (best == "" || len(k) >= len(best)) {
					best = k
				}
			}
		}
		if best != "" {
			res = append(res, by[best])
		}
	}
	return res
}

// distinctKeys fills a sparse tree whose inner vertices hold their keys.
func distinctKeys(c *Ctx, f, d, n int) {
	pub := idsOnly(f, d)
	t := &sparse.Tree{FanOut: f, ID2Path: pub.Path}
	// the callback is made by its type: of its arguments only the key matters
	field := reflect.ValueOf(t).Elem().FieldByName("UpdateInnerVertex")
	if !field.IsValid() || field.Kind() != reflect.Func || field.Type().NumIn() == 0 || field.Type().In(0).Kind() != reflect.String || field.Type().NumOut() != 1 {
		panic(skipCase("sparse.Tree has no UpdateInnerVertex that is given a key"))
	}
	field.Set(reflect.MakeFunc(field.Type(), func(args []reflect.Value) []reflect.Value {
		return []reflect.Value{args[0].Convert(field.Type().Out(0))}
	}))
	var ids []string
	for _, fam := range spelledAlike(f) {
		for _, p := range fam {
			parts := []string{fmt.Sprint(p[0]), fmt.Sprint(p[1])}
			for k := 2; k < d; k++ {
				parts = append(parts, fmt.Sprint(p[k%2]))
			}
			ids = append(ids, strings.Join(parts, "."))
			copy(parts[d-2:], []string{fmt.Sprint(p[0]), fmt.Sprint(p[1])})
			ids = append(ids, strings.Join(parts, "."))
		}
	}
	for i := 0; i < n*3/max(f/100, 3); i++ {
		ids = append(ids, pickID(c.R, pub, ids, f, d))
	}
	for _, id := range ids {
		t.Put(id, int64(1))
	}
	of := map[string]string{}
	at := map[string]string{}
	for _, id := range ids {
		_, vs, ok := t.Get(id)
		p := pub.Path(id)
		if !c.Check(ok && len(vs) == d, "f=%d: %s is not found", f, id) {
			return
		}
		for i, v := range vs {
			sv, ok := v.(*sparse.Vertex)
			if !ok {
				panic(skipCase("the vertices along a path are not *sparse.Vertex"))
			}
			key, ok := sv.Data.(string)
			if !ok {
				panic(skipCase("a vertex does not hold what UpdateInnerVertex gave"))
			}
			prefix := fmt.Sprint(p[:i])
			if was, known := of[key]; known && !c.Check(was == prefix, "f=%d: the vertices under %s and %s share the key %q", f, was, prefix, key) {
				return
			}
			if was, known := at[prefix]; known && !c.Check(was == key, "f=%d: the vertex under %s has the keys %q and %q", f, prefix, was, key) {
				return
			}
			of[key], at[prefix] = prefix, key
		}
	}
	c.Distinct("keys f=%d d=%d", f, d)
	c.Saw("keys compared", len(of))
	c.Sample("f=%d d=%d: %d keys of %d identifiers", f, d, len(of), len(ids))
}
