package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"

	"pol/bp"
	"pol/pol"

	math "github.com/IBM/mathlib"
)

func init() {
	register(&Property{
		ID:    "C03",
		Rule:  "Honest proofs are altered in one element (perturbed, identity, negated, doubled, exchanged with a neighbour, taken from the proof of another id, of another state, of another set, of another run), in one part or list (of another proof, permuted, duplicated) or cut and spliced with another proof at every level, and honest proofs are judged for every other id, stale, foreign, exchanged and perturbed roots and other amounts. All must be rejected, in parallel and sequential verification. Alterations that leave all the verifier reads as it was, or yield another valid part for the same commitment, are left out. distinct = (dimensions, kind of donor, alteration).",
		Cases: c03Cases,
	})
}

// scene is an honest proof and others to take parts from.
type scene struct {
	s      *Set
	pub    *Pub
	id     string
	V, W   *math.G1
	proof  *pol.LiabilityProof
	donors map[string]*pol.LiabilityProof
	roots  map[string][2]*math.G1 // of the donors
}

func mustProve(c *Ctx, s *Set, id string) *pol.LiabilityProof {
	_, a, _, ok := s.ProveLiability(id)
	if !ok {
		panic(skipCase("no honest proof"))
	}
	V, W := s.Root()
	if err := verifyLP(s.Pub, id, a, V, W); err != nil {
		panic(skipCase("the honest proof is rejected: " + err.Error()))
	}
	return &a
}

func newScene(c *Ctx, pub *Pub, ops int) *scene {
	s := newSet(pub)
	id := pub.RandID(c.R)
	s.Put(id, c.R.Int63n(1<<40)+2)
	for i := 0; i < ops; i++ {
		ids := s.IDs()
		s.Put(pub.NearID(c.R, ids[c.R.Intn(len(ids))]), c.R.Int63n(1<<uint(1+c.R.Intn(56))))
	}
	other := ""
	for i := 0; i < 50; i++ {
		// a sibling first of all
		o := pub.NearID(c.R, id)
		if !reflect.DeepEqual(pub.Path(o), pub.Path(id)) {
			other = o
			break
		}
	}
	s.Put(other, c.R.Int63n(1<<40)+1)
	sc := &scene{s: s, pub: pub, id: id, donors: map[string]*pol.LiabilityProof{}, roots: map[string][2]*math.G1{}}
	keep := func(name string, from *Set, id string) {
		sc.donors[name] = mustProve(c, from, id)
		V, W := from.Root()
		sc.roots[name] = [2]*math.G1{V, W}
	}
	keep("of an earlier state", s, id)
	s.Put(other, s.Model[other]+7)
	keep("of a slightly earlier state", s, id)
	s.Put(id, s.Model[id]+1)
	sc.V, sc.W = s.Root()
	sc.proof = mustProve(c, s, id)
	keep("of another run", s, id)
	keep("of another id", s, other)
	ids := s.IDs()
	for _, o := range ids {
		if o != id && o != other && pub.Path(o)[0] != pub.Path(id)[0] {
			keep("of a distant id", s, o)
			break
		}
	}
	foreign := newSet(pub)
	for _, i := range ids { // the same amounts in the same order, with other randomness
		foreign.Put(i, s.Model[i])
	}
	keep("of another set", foreign, id)
	s2 := newSet(pub)
	for _, i := range ids {
		s2.Put(i, s.Model[i])
	}
	s2.Put(id, s.Model[id]/2)
	keep("of another set and amount", s2, id)
	return sc
}

func (sc *scene) verify() error { return verifyLP(sc.pub, sc.id, *sc.proof, sc.V, sc.W) }

// contentOf is what the verifier reads below a slot.
func contentOf(ptr interface{}, path string, n int) string {
	var sb strings.Builder
	for _, s := range slots(ptr) {
		if strings.HasPrefix(s.Path, path) && !redundant(s, n) {
			if len(s.Path) > len(path) && s.Path[len(path)] != '.' && s.Path[len(path)] != '[' {
				continue
			}
			sb.WriteString(s.Path + "=" + s.repr() + ";")
		}
	}
	return sb.String()
}

func (sc *scene) judge(c *Ctx, what string) bool {
	var err error
	p := catch(func() { err = sc.verify() })
	c.Eval()
	c.Saw("altered proofs judged", 1)
	c.Distinct("%s %v %s", sc.pub.Kind, pol.ParallelismEnabled, what)
	if p == nil && err == nil {
		c.Fail("%s: proof for %s of %d accepted %s", sc.pub.Kind, sc.id, sc.s.Model[sc.id], what)
		return false
	}
	return true
}

// parts puts lists and sub-proofs of the donor in, one at a time, and permutes lists.
func (sc *scene) parts(c *Ctx, name string, keep func(i int) bool) {
	n := sc.pub.pathLen
	d := sc.donors[name]
	sameV := func(i int) bool { return d.V[i].Equals(sc.proof.V[i]) }
	allV := true
	for i := range sc.proof.V {
		allV = allV && sameV(i)
	}
	k := 0
	for _, s := range slots(sc.proof) {
		kind := s.V.Kind()
		if kind != reflect.Ptr && kind != reflect.Slice || s.V.Type() == tG1 || s.V.Type() == tZr || s.V.IsNil() {
			continue
		}
		t := find(d, s.Path)
		if t == nil || t.V.IsNil() || contentOf(sc.proof, s.Path, n) == contentOf(d, s.Path, n) {
			continue
		}
		// another proof of the same statement is a valid part
		if rp, ok := s.V.Interface().(*bp.RangeProof); ok && rp != nil {
			i := rangeIndex(s.Path)
			if i < 0 || i < n && sameV(i) {
				continue
			}
		} else if allV && strings.Count(s.Path, ".") == 1 {
			continue
		}
		if _, ok := s.V.Interface().([]*bp.RangeProof); ok {
			same := true
			for i := range sc.proof.V {
				same = same && (sameV(i) || contentOf(sc.proof, fmt.Sprintf("%s[%d]", s.Path, i), n) == contentOf(d, fmt.Sprintf("%s[%d]", s.Path, i), n))
			}
			if same {
				continue
			}
		}
		k++
		if !keep(k) {
			continue
		}
		old := reflect.New(s.V.Type()).Elem()
		old.Set(s.V)
		s.V.Set(t.V)
		ok := sc.judge(c, "with "+s.Path+" "+name)
		s.V.Set(old)
		if !ok {
			return
		}
	}
}

// perturb alters every element in every way or, with a limit, one element of each kind (wherever
// it is) and as many others.
func (sc *scene) perturb(c *Ctx, limit int) {
	kinds := map[string][]Slot{}
	var names []string
	var all []alteration
	for _, s := range elements(sc.proof) {
		if redundant(s, sc.pub.pathLen) {
			continue
		}
		kind := indices.ReplaceAllString(s.Path, "")
		if kinds[kind] == nil {
			names = append(names, kind)
		}
		kinds[kind] = append(kinds[kind], s)
		all = append(all, alter(s, nil)...)
	}
	c.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if limit > 0 {
		if len(all) > limit {
			all = all[:limit]
		}
		c.R.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
		for i, kind := range names {
			if limit < 4 && i >= 5*limit {
				break // an expensive one
			}
			as := alter(kinds[kind][c.R.Intn(len(kinds[kind]))], nil)
			all = append(all, as[c.R.Intn(len(as))])
		}
	}
	for _, a := range all {
		a.set()
		ok := sc.judge(c, "with "+a.name)
		a.undo()
		if !ok {
			return
		}
	}
}

var indices = regexp.MustCompile(`\[\d+\]`)

// transplants puts single elements of the donor in.
func (sc *scene) transplants(c *Ctx, name string, limit int) {
	donor := map[string]Slot{}
	for _, s := range elements(sc.donors[name]) {
		donor[s.Path] = s
	}
	var todo []Slot
	for _, s := range elements(sc.proof) {
		if t, ok := donor[s.Path]; ok && !redundant(s, sc.pub.pathLen) && t.repr() != s.repr() {
			todo = append(todo, s)
		}
	}
	if limit > 0 && len(todo) > limit {
		c.R.Shuffle(len(todo), func(i, j int) { todo[i], todo[j] = todo[j], todo[i] })
		todo = todo[:limit]
	}
	for _, s := range todo {
		old := s.V.Interface()
		s.V.Set(donor[s.Path].V)
		ok := sc.judge(c, "with "+s.Path+" "+name)
		s.V.Set(reflect.ValueOf(old))
		if !ok {
			return
		}
	}
}

func rangeIndex(path string) int {
	i, j := strings.Index(path, "["), strings.Index(path, "]")
	if i < 0 || j < i {
		return -1
	}
	n, err := strconv.Atoi(path[i+1 : j])
	if err != nil {
		return -1
	}
	return n
}

// permutations of every list.
func (sc *scene) permutations(c *Ctx, limit int) {
	n := sc.pub.pathLen
	type job struct {
		what string
		s    Slot
		perm []int
	}
	var jobs []job
	for _, s := range slots(sc.proof) {
		if s.V.Kind() != reflect.Slice || s.V.Type() == tByt || s.V.Len() < 2 {
			continue
		}
		l := s.V.Len()
		id := func() []int {
			p := make([]int, l)
			for i := range p {
				p[i] = i
			}
			return p
		}
		add := func(what string, p []int) {
			for i := range p {
				if a, b := fmt.Sprintf("%s[%d]", s.Path, i), fmt.Sprintf("%s[%d]", s.Path, p[i]); p[i] != i && contentOf(sc.proof, a, n) != "" && strings.ReplaceAll(contentOf(sc.proof, a, n), a, "") != strings.ReplaceAll(contentOf(sc.proof, b, n), b, "") {
					jobs = append(jobs, job{fmt.Sprintf("with %s %s", s.Path, what), s, p})
					return
				}
			}
		}
		for i := 0; i < l; i++ {
			for j := 0; j < l; j++ {
				if i < j {
					p := id()
					p[i], p[j] = j, i
					add(fmt.Sprintf("%d and %d exchanged", i, j), p)
				}
				if i != j {
					p := id()
					p[i] = j
					add(fmt.Sprintf("%d replaced by %d", i, j), p)
				}
			}
		}
		rev, rot, all := id(), id(), id()
		for i := range rev {
			rev[i], rot[i], all[i] = l-1-i, (i+1)%l, 0
		}
		add("reversed", rev)
		add("rotated", rot)
		add("all the first", all)
	}
	if limit > 0 && len(jobs) > limit {
		c.R.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
		jobs = jobs[:limit]
	}
	for _, j := range jobs {
		old := reflect.New(j.s.V.Type()).Elem()
		old.Set(j.s.V)
		x := reflect.MakeSlice(j.s.V.Type(), len(j.perm), len(j.perm))
		for i := range j.perm {
			x.Index(i).Set(old.Index(j.perm[i]))
		}
		j.s.V.Set(x)
		ok := sc.judge(c, j.what)
		j.s.V.Set(old)
		if !ok {
			return
		}
	}
}

// resized drops or duplicates what is in lists: every kind of list (the same
// list of different levels is one kind) comes once before any comes again.
func (sc *scene) resized(c *Ctx, limit int) {
	ms := structural(sc.proof, sc.pub.pathLen)
	c.R.Shuffle(len(ms), func(i, j int) { ms[i], ms[j] = ms[j], ms[i] })
	kinds := map[string]int{}
	turn := map[string]int{}
	for _, m := range ms {
		if !m.resizes || m.redundant {
			continue
		}
		kind := indices.ReplaceAllString(strings.Fields(m.name)[0], "[]")
		turn[m.name] = kinds[kind]
		kinds[kind]++
	}
	sort.SliceStable(ms, func(i, j int) bool { return turn[ms[i].name] < turn[ms[j].name] })
	c.Saw("kinds of lists resized", len(kinds))
	for _, m := range ms {
		if !m.resizes || m.redundant || limit < 0 {
			continue
		}
		limit--
		m.set()
		ok := sc.judge(c, "with "+m.name)
		m.undo()
		if !ok {
			return
		}
	}
}

// splices cut the proof and the donor's at every level, with the arguments
// about all levels of either.
func (sc *scene) splices(c *Ctx, name string, limit int) {
	n := sc.pub.pathLen
	a, d := sc.proof, sc.donors[name]
	defer func() { sc.proof = a }()
	equal := func(x, y *pol.LiabilityProof) bool {
		for i := range x.V {
			if !x.V[i].Equals(y.V[i]) {
				return false
			}
		}
		for i := range x.W {
			if !x.W[i].Equals(y.W[i]) {
				return false
			}
		}
		return true
	}
	type spliced struct {
		what  string
		proof *pol.LiabilityProof
	}
	var all []spliced
	for cut := 0; cut <= n; cut++ {
		for dir := 0; dir < 2; dir++ {
			hi, lo := a, d // levels before and from the cut
			if dir == 1 {
				hi, lo = d, a
			}
			x := clone(a)
			for i := 0; i < n; i++ {
				from := hi
				if i >= cut {
					from = lo
				}
				x.V[i], x.RangeProofs[i] = from.V[i], from.RangeProofs[i]
				if i < n-1 {
					x.W[i] = from.W[i]
				}
				x.Digests[i] = from.Digests[i]
			}
			for mask := 0; mask < 32; mask++ {
				// which arguments are the donor's
				y := *x
				from := func(bit int) *pol.LiabilityProof {
					if mask>>bit&1 == 1 {
						return d
					}
					return a
				}
				y.SumArgumentProof = from(0).SumArgumentProof
				y.EqualityProof = from(1).EqualityProof
				y.PointProofΣ, y.PointProofπ = from(2).PointProofΣ, from(2).PointProofπ
				y.LiabilityProof = from(3).LiabilityProof
				// the digests below the cut may be those above
				if mask>>4&1 == 1 && cut > 0 && cut < n {
					y.Digests = append(y.Digests[:0:0], y.Digests...)
					y.Digests[cut-1] = lo.Digests[cut-1]
				}
				// levels which are all the proof's: only the arguments differ,
				// and those are valid if made for the same levels, or the same
				if equal(&y, a) {
					if equal(a, d) {
						continue
					}
					if mask&3 == 0 && (mask>>2&1 == 0 || y.PointProofπ.Equals(a.PointProofπ) && eqZ(y.PointProofΣ, a.PointProofΣ)) && (mask>>3&1 == 0 || y.LiabilityProof.Sum == a.LiabilityProof.Sum && eqG(y.LiabilityProof.LiabilityProof, a.LiabilityProof.LiabilityProof)) {
						continue
					}
				}
				all = append(all, spliced{fmt.Sprintf("spliced with one %s at level %d, direction %d, arguments %05b", name, cut, dir, mask), &y})
			}
		}
	}
	c.R.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	if limit > 0 && len(all) > limit {
		all = all[:limit]
	}
	for _, x := range all {
		sc.proof = x.proof
		if !sc.judge(c, x.what) {
			return
		}
	}
}

// allIDs of a custom tree, or near ones of others.
func (sc *scene) otherIDs(c *Ctx, limit int) []string {
	path := fmt.Sprint(sc.pub.Path(sc.id))
	seen := map[string]bool{}
	var res []string
	put := func(id string) {
		if !seen[id] && fmt.Sprint(sc.pub.Path(id)) != path {
			seen[id] = true
			res = append(res, id)
		}
	}
	for _, id := range sc.s.IDs() {
		put(id)
	}
	for i := 0; i < limit; i++ {
		if i%3 == 0 {
			put(sc.pub.RandID(c.R))
		} else {
			put(sc.pub.NearID(c.R, sc.id))
		}
	}
	return res
}

func (sc *scene) claims(c *Ctx, limit, amounts int) {
	try := func(what string, id string, proof *pol.LiabilityProof, V, W *math.G1) bool {
		var err error
		p := catch(func() { err = verifyLP(sc.pub, id, *proof, V, W) })
		c.Saw("proofs judged for something else", 1)
		c.Distinct("%s %v %s", sc.pub.Kind, pol.ParallelismEnabled, what)
		return c.Check(p != nil || err != nil, "%s: the proof for %s of %d is accepted %s", sc.pub.Kind, sc.id, sc.s.Model[sc.id], what)
	}
	for _, id := range sc.otherIDs(c, limit) {
		if !try("for "+id, id, sc.proof, sc.V, sc.W) {
			return
		}
	}
	for name, d := range sc.donors {
		r := sc.roots[name]
		if !r[0].Equals(sc.V) || !r[1].Equals(sc.W) {
			if !try("against the root "+name, sc.id, sc.proof, r[0], r[1]) || !try("(another, "+name+")", sc.id, d, sc.V, sc.W) {
				return
			}
		}
		if !r[0].Equals(sc.V) && !try("against V of the root "+name, sc.id, sc.proof, r[0], sc.W) {
			return
		}
		if !r[1].Equals(sc.W) && !try("against W of the root "+name, sc.id, sc.proof, sc.V, r[1]) {
			return
		}
		if name == "of another id" || name == "of a distant id" {
			if !try("(of an other id)", sc.id, d, sc.V, sc.W) {
				return
			}
		}
	}
	n := sc.pub.pathLen
	for what, r := range map[string][2]*math.G1{
		"with V and W exchanged": {sc.W, sc.V}, "with V for W": {sc.V, sc.V}, "with W for V": {sc.W, sc.W},
		"with V shifted": {plusG(sc.V, curve.GenG1), sc.W}, "with W shifted": {sc.V, plusG(sc.W, curve.GenG1)},
		"with V negated": {minusG(inf(), sc.V), sc.W}, "with W negated": {sc.V, minusG(inf(), sc.W)},
		"with identity V": {inf(), sc.W}, "with identity W": {sc.V, inf()},
		"with both shifted": {plusG(sc.V, curve.GenG1), minusG(sc.W, curve.GenG1)}, "with the leaf as V": {sc.proof.V[n-1], sc.W},
		"with the second level as root": {sc.proof.V[1], sc.proof.W[min(1, n-2)]}, "with no root": {nil, nil}, "with no V": {nil, sc.W}, "with no W": {sc.V, nil},
	} {
		if n == 2 && what == "with the second level as root" {
			r[1] = sc.V
		}
		if !try("against a root "+what, sc.id, sc.proof, r[0], r[1]) {
			return
		}
	}
	amount := sc.proof.LiabilityProof.Sum
	seen := map[int]bool{amount: true}
	claims := []int{amount + 1, amount - 1, -amount, 0, 1, -1, 1 << 62, -1 << 63, 1<<63 - 1, amount + 1<<32, amount ^ 1<<31, amount * 2, ^amount, int(sc.s.Total())}
	for i := uint(0); i < 64; i += 5 {
		claims = append(claims, amount^1<<i, amount+1<<i)
	}
	claims[1], claims[2] = claims[2], claims[1] // one more and the negated amount are always tried
	c.R.Shuffle(len(claims)-2, func(i, j int) { claims[i+2], claims[j+2] = claims[j+2], claims[i+2] })
	for k, x := range claims {
		if amounts > 0 && k >= amounts {
			break
		}
		if seen[x] {
			continue
		}
		seen[x] = true
		f := *sc.proof
		f.LiabilityProof.Sum = x
		if !try(fmt.Sprintf("for the amount %d", x), sc.id, &f, sc.V, sc.W) {
			return
		}
		// adapted with a public parameter
		gs := sc.pub.PP.PPPP.G1s
		g := gs[c.R.Intn(len(gs))]
		δ := subZ(zr(int64(x)), zr(int64(amount)))
		for _, s := range []*math.Zr{δ, negZ(δ)} {
			f.LiabilityProof.LiabilityProof = plusG(sc.proof.LiabilityProof.LiabilityProof, mulG(g, s))
			if !try(fmt.Sprintf("for the amount %d, the opening adapted", x), sc.id, &f, sc.V, sc.W) {
				return
			}
		}
	}
	c.Check(sc.verify() == nil, "%s: the proof is rejected after all", sc.pub.Kind)
}

func c03Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, f func(*Ctx)) { cases = append(cases, Case{Name: name, Run: f}) }
	names := []string{"of an earlier state", "of a slightly earlier state", "of another run", "of another id", "of a distant id", "of another set", "of another set and amount"}
	for _, sh := range []struct{ f, d, limit, n int }{
		{3, 2, p.Pick(40, 0), p.Pick(1, 3)}, {3, 3, p.Pick(12, 0), 1}, {3, 5, p.Pick(4, 0), 1}, {7, 2, p.Pick(5, 0), 1}, {7, 3, p.Pick(2, 0), 1}, {3, 9, p.Pick(2, 300), 1}, {15, 3, p.Pick(0, 300), p.Pick(0, 2)},
		{-3, 0, p.Pick(1, 200), 1}, {7, 6, p.Pick(0, 100), p.Pick(0, 1)}, {-7, 0, p.Pick(0, 200), p.Pick(0, 1)}, {-1003, 0, p.Pick(0, 60), p.Pick(0, 1)},
	} {
		for h := 0; h < sh.n; h++ {
			sh, h := sh, h
			get := func() *Pub {
				switch {
				case sh.f < -1000:
					return sparseTree(-sh.f - 1000)
				case sh.f < 0:
					return dense(-sh.f)
				}
				return custom(sh.f, sh.d)
			}
			var once sync.Once
			var shared *scene
			scene := func(c *Ctx) *scene { // the same for all cases, with a proof of its own
				once.Do(func() {
					d := *c
					d.R = rand.New(rand.NewSource(p.Seed<<20 ^ int64(sh.f<<8+sh.d*8+h)))
					shared = newScene(&d, get(), 3)
				})
				if shared == nil {
					panic(skipCase("no scene"))
				}
				sc := *shared
				sc.proof = clone(shared.proof)
				return &sc
			}
			tag := fmt.Sprintf("f%d-d%d/%d", sh.f, sh.d, h)
			add("perturbed/"+tag, func(c *Ctx) {
				sc := scene(c)
				sc.perturb(c, sh.limit)
				c.Check(sc.verify() == nil, "%s: the proof is rejected after all", sc.pub.Kind)
			})
			for _, name := range names {
				name := name
				if sh.limit <= 5 && !p.Thorough && name != "of another id" && (sh.limit < 4 || name != "of a slightly earlier state") {
					continue
				}
				add("elements/"+tag+"/"+name, func(c *Ctx) {
					sc := scene(c)
					d := sc.donors[name]
					if d == nil {
						return
					}
					sc.transplants(c, name, (sh.limit+3)/4)
					c.Check(sc.verify() == nil, "%s: the proof is rejected after all", sc.pub.Kind)
				})
				add("parts/"+tag+"/"+name, func(c *Ctx) {
					sc := scene(c)
					if sc.donors[name] == nil {
						return
					}
					n := 0
					sc.parts(c, name, func(int) bool { n++; return sh.limit == 0 || c.R.Intn(n) < sh.limit/3+1 })
					sc.splices(c, name, (sh.limit+1)/2)
				})
			}
			add("permutations/"+tag, func(c *Ctx) {
				sc := scene(c)
				sc.permutations(c, sh.limit)
				sc.resized(c, p.Pick(20, 1000))
			})
			add("claims/"+tag, func(c *Ctx) {
				sc := scene(c)
				c.Sample("%s: %d ids, root, amounts; proof for %s of %d", sc.pub.Kind, len(sc.otherIDs(c, 60)), sc.id, sc.s.Model[sc.id])
				sc.claims(c, p.Pick(2+sh.limit/4, 400), p.Pick(2+sh.limit/4, 0))
			})
		}
	}
	// provers who know all openings pass off another subtree, or what is opened elsewhere
	for _, sh := range []struct{ f, d, n int }{{3, 2, p.Pick(1, 3)}, {3, 3, p.Pick(1, 3)}, {7, 3, p.Pick(0, 1)}} {
		for h := 0; h < sh.n; h++ {
			for i := 1; i < sh.d; i++ {
				sh, i := sh, i
				add(fmt.Sprintf("substituted/f%d-d%d/level%d/%d", sh.f, sh.d, i, h), func(c *Ctx) { substituted(c, sh.f, sh.d, i) })
			}
			add(fmt.Sprintf("elsewhere/f%d-d%d/%d", sh.f, sh.d, h), func(c *Ctx) { elsewhere(c, sh.f, sh.d, sh.d-1) })
		}
	}
	for h := 0; h < p.Pick(1, 8); h++ {
		h := h
		cases = append(cases, Case{Name: fmt.Sprintf("sequential/%d", h), Serial: true, Run: func(c *Ctx) {
			sequentially(func() {
				sc := newScene(c, custom(3, 2+(h+1)%2), 3)
				sc.perturb(c, p.Pick(10, 0))
				sc.claims(c, 2, 3)
				sc.permutations(c, 5)
				sc.resized(c, p.Pick(10, 100))
				sc.splices(c, "of another set", 5)
			})
		}})
	}
	return cases
}
