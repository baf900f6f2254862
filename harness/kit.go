package main

import (
	"crypto/rand"
	"encoding/hex"
	"fmt"
	"math/big"
	mrand "math/rand"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"pol/common"
	"pol/poe"
	"pol/pol"
	"pol/pp"
	"pol/verkle"

	math "github.com/IBM/mathlib"
)

var (
	curve = math.Curves[1]
	// q is the group order, written out independently of the code under test.
	q, _  = new(big.Int).SetString("21888242871839275222246405745257275088548364400416034343698204186575808495617", 10)
	max63 = int64(^uint64(0) >> 1)
)

// ---- scalars and group elements

func zr(n int64) *math.Zr { return zrBig(big.NewInt(n)) }

// zrBig returns n mod q.
func zrBig(n *big.Int) *math.Zr {
	m := new(big.Int).Mod(n, q)
	b := m.Bytes()
	buf := make([]byte, 32)
	copy(buf[32-len(b):], b)
	return curve.NewZrFromBytes(buf)
}

// zint returns the canonical representative of z.
func zint(z *math.Zr) *big.Int {
	n, ok := new(big.Int).SetString(z.String(), 16)
	if !ok {
		panic("unreadable scalar " + z.String())
	}
	return n.Mod(n, q)
}

// zraw returns the representative z actually has.
func zraw(z *math.Zr) *big.Int {
	n, ok := new(big.Int).SetString(z.String(), 16)
	if !ok {
		panic("unreadable scalar " + z.String())
	}
	return n
}

func eqZ(a, b *math.Zr) bool { return zint(a).Cmp(zint(b)) == 0 }

func randBig(r *mrand.Rand) *big.Int { return new(big.Int).Rand(r, q) }
func randZr(r *mrand.Rand) *math.Zr  { return zrBig(randBig(r)) }

func randVec(r *mrand.Rand, n int) common.Vec {
	v := make(common.Vec, n)
	for i := range v {
		v[i] = randZr(r)
	}
	return v
}

func randG1(r *mrand.Rand) *math.G1 { return curve.GenG1.Mul(randZr(r)) }

func inf() *math.G1 {
	g := curve.GenG1.Copy()
	g.Sub(curve.GenG1)
	return g
}

// msm is an independent multi-scalar multiplication.
func msm(gs []*math.G1, v []*math.Zr) *math.G1 {
	acc := inf()
	for i := range v {
		if zint(v[i]).Sign() == 0 {
			continue
		}
		acc.Add(gs[i].Mul(zrBig(zint(v[i]))))
	}
	return acc
}

// eqG compares group elements, absent ones included.
func eqG(a, b *math.G1) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.Equals(b)
}

func plusG(gs ...*math.G1) *math.G1 {
	acc := inf()
	for _, g := range gs {
		acc.Add(g)
	}
	return acc
}

func minusG(a, b *math.G1) *math.G1 {
	c := a.Copy()
	c.Sub(b)
	return c
}

func inner(a, b []*math.Zr) *big.Int {
	s := new(big.Int)
	for i := range a {
		s.Add(s, new(big.Int).Mul(zint(a[i]), zint(b[i])))
	}
	return s.Mod(s, q)
}

func copyVec(v common.Vec) common.Vec {
	w := make(common.Vec, len(v))
	for i := range v {
		w[i] = v[i].Copy()
	}
	return w
}

// ---- stores

// Store is an in-memory verkle.DB which copies what it is given, counts, and
// can be told to fail or to delay.
type Store struct {
	mu     sync.Mutex
	m      map[string][]byte
	gets   int
	puts   int
	before func(op string, key []byte) // called without the lock
	after  func(op string, key []byte)
	lose   func() bool // whether a read finds nothing
}

func newStore() *Store { return &Store{m: map[string][]byte{}} }

func (s *Store) Get(key []byte) []byte {
	if s.before != nil {
		s.before("get", key)
	}
	s.mu.Lock()
	s.gets++
	v, ok := s.m[string(key)]
	var res []byte
	if ok {
		res = append([]byte{}, v...)
	}
	s.mu.Unlock()
	if s.after != nil {
		s.after("get", key)
	}
	if s.lose != nil && s.lose() {
		return nil
	}
	return res
}

func (s *Store) Put(key, val []byte) {
	if s.before != nil {
		s.before("put", key)
	}
	s.mu.Lock()
	s.puts++
	s.m[string(key)] = append([]byte{}, val...)
	s.mu.Unlock()
	if s.after != nil {
		s.after("put", key)
	}
}

func (s *Store) snapshot() map[string]string {
	s.mu.Lock()
	defer s.mu.Unlock()
	res := map[string]string{}
	for k, v := range s.m {
		res[k] = string(v)
	}
	return res
}

// ---- public parameters

// Pub is a set of public parameters with the identifiers that go with it.
type Pub struct {
	PP      *pol.PublicParams
	Path    func(string) []uint16
	F, D    int
	Kind    string
	RandID  func(r *mrand.Rand) string
	NearID  func(r *mrand.Rand, id string) string
	Alias   func(r *mrand.Rand, id string) string // another spelling of the same, or nil
	Fanout  uint16
	pathLen int
}

var (
	pubMu    sync.Mutex
	pubCache = map[string]*Pub{}
	genCache = map[uint16]*pol.PublicParams{}
)

func genParams(f uint16) *pol.PublicParams {
	if p := genCache[f]; p != nil {
		return p
	}
	_, p := pol.GeneratePublicParams(f, pol.Dense)
	genCache[f] = p
	return p
}

// custom returns parameters for trees of fan-out f and depth d with identifiers
// that spell out their path ("3.0.2"), so that every shape is affordable.
func custom(f, d int) *Pub {
	pubMu.Lock()
	defer pubMu.Unlock()
	key := fmt.Sprintf("c%d/%d", f, d)
	if p := pubCache[key]; p != nil {
		return p
	}
	p := customFrom(genParams(uint16(f)), f, d)
	pubCache[key] = p
	return p
}

// freshCustom is custom with parameters of its own.
func freshCustom(f, d int) *Pub {
	_, g := pol.GeneratePublicParams(uint16(f), pol.Dense)
	return customFrom(g, f, d)
}

// idsOnly is custom without parameters.
func idsOnly(f, d int) *Pub {
	return &Pub{
		F: f, D: d, Kind: fmt.Sprintf("f=%d d=%d", f, d), Fanout: uint16(f), pathLen: d, Path: customPath(f, d),
		RandID: func(r *mrand.Rand) string {
			parts := make([]string, d)
			ones := r.Intn(4) == 0 // paths made of 1, 11 and 111
			for i := range parts {
				parts[i] = strconv.Itoa(r.Intn(f))
				if n := []int{1, 11, 111}[r.Intn(3)]; ones && n < f {
					parts[i] = strconv.Itoa(n)
				}
			}
			return strings.Join(parts, ".")
		},
		NearID: func(r *mrand.Rand, id string) string {
			parts := strings.Split(id, ".")
			if r.Intn(5) == 0 {
				if o := confusable(r, parts, f); o != "" {
					return o
				}
			}
			i := d - 1
			if r.Intn(2) == 0 {
				i = r.Intn(d)
			}
			parts[i] = strconv.Itoa(r.Intn(f))
			return strings.Join(parts, ".")
		},
	}
}

// confusable returns another path that careless encodings take for the same: the same digits
// split otherwise, the steps in another order, steps apart by powers of two or ten.
func confusable(r *mrand.Rand, parts []string, f int) string {
	d := len(parts)
	id := strings.Join(parts, ".")
	res := append([]string{}, parts...)
	switch k := r.Intn(5); {
	case k < 2 && f > 10 && d > 1:
		i := r.Intn(d - 1)
		j := i + 2 + r.Intn(d-i-1)
		digits := strings.Join(parts[i:j], "")
		if r.Intn(3) == 0 { // others with more than one split
			digits = ""
			for len(digits) < j-i+1 {
				digits += strconv.Itoa(1 + r.Intn(9))
			}
		}
		for try := 0; try < 20; try++ {
			cuts := map[int]bool{}
			for len(cuts) < j-i-1 && len(digits) > j-i-1 {
				cuts[1+r.Intn(len(digits)-1)] = true
			}
			at, from, ok := i, 0, true
			for c := 1; c <= len(digits); c++ {
				if cuts[c] || c == len(digits) {
					n, err := strconv.Atoi(digits[from:c])
					ok = ok && err == nil && n < f && strconv.Itoa(n) == digits[from:c] && at < j
					if ok {
						res[at] = digits[from:c]
					}
					at, from = at+1, c
				}
			}
			if o := strings.Join(res, "."); ok && at == j && o != id {
				return o
			}
		}
		return ""
	case k == 2:
		i, j := r.Intn(d), r.Intn(d)
		res[i], res[j] = res[j], res[i]
	case k == 3:
		for i := range parts {
			res[i] = parts[(i+1)%d]
		}
	default:
		i := r.Intn(d)
		n, _ := strconv.Atoi(parts[i])
		step := []int{1, 2, 4, 8, 16, 64, 128, 256, 512, 10, 100, 1000, 4096}[r.Intn(13)]
		if r.Intn(2) == 0 {
			step = -step
		}
		if n+step < 0 || n+step >= f {
			return ""
		}
		res[i] = strconv.Itoa(n + step)
	}
	return strings.Join(res, ".")
}

func customFrom(g *pol.PublicParams, f, d int) *Pub {
	m := 2
	for m < d-1 {
		m *= 2
	}
	cp := *g
	pe := &poe.PP{
		G:  common.RandGenVec(m, "POE G"),
		H:  common.RandGenVec(m, "POE H"),
		F:  g.POEPP.F,
		PP: g.POEPP.PP,
	}
	pe.SetupDigest()
	cp.POEPP = pe
	p := idsOnly(f, d)
	p.PP, p.Kind = &cp, fmt.Sprintf("custom f=%d d=%d", f, d)
	return p
}

func customPath(f, d int) func(string) []uint16 {
	return func(id string) []uint16 {
		parts := strings.Split(id, ".")
		if len(parts) != d {
			panic("malformed id " + id)
		}
		res := make([]uint16, d)
		for i, s := range parts {
			n, err := strconv.Atoi(s)
			if err != nil || n < 0 || n >= f {
				panic("malformed id " + id)
			}
			res[i] = uint16(n)
		}
		return res
	}
}

// dense and sparse are what the constructors of the code under test give.
func dense(f int) *Pub {
	pubMu.Lock()
	defer pubMu.Unlock()
	key := fmt.Sprintf("d%d", f)
	if p := pubCache[key]; p != nil {
		return p
	}
	path, g := pol.GeneratePublicParams(uint16(f), pol.Dense)
	p := &Pub{PP: g, Path: path, F: f, Kind: fmt.Sprintf("dense f=%d", f), Fanout: uint16(f), pathLen: len(path("123456789")),
		RandID: func(r *mrand.Rand) string { return randDenseID(r) },
		NearID: func(r *mrand.Rand, id string) string {
			n, _ := strconv.Atoi(id)
			step := 1
			for i := r.Intn(6); i > 0; i-- {
				step *= f
			}
			if r.Intn(2) == 0 {
				step = -step
			}
			n = ((n+step)%1000000000 + 1000000000) % 1000000000
			return fmt.Sprintf("%09d", n)
		},
	}
	p.D = p.pathLen
	pubCache[key] = p
	return p
}

func randDenseID(r *mrand.Rand) string {
	switch r.Intn(6) {
	case 0: // leading zeros
		n := 1
		for i := r.Intn(9); i > 0; i-- {
			n *= 10
		}
		return fmt.Sprintf("%09d", r.Intn(n))
	case 1:
		return fmt.Sprintf("%09d", 999999999-r.Intn(50))
	}
	return fmt.Sprintf("%09d", r.Intn(1000000000))
}

func sparseTree(f int) *Pub {
	pubMu.Lock()
	defer pubMu.Unlock()
	key := fmt.Sprintf("s%d", f)
	if p := pubCache[key]; p != nil {
		return p
	}
	path, g := pol.GeneratePublicParams(uint16(f), pol.Sparse)
	p := &Pub{PP: g, Path: path, F: f, Kind: fmt.Sprintf("sparse f=%d", f), Fanout: uint16(f),
		RandID: randHexID,
		NearID: func(r *mrand.Rand, id string) string {
			b := []byte(id)
			b[r.Intn(64)] = "0123456789abcdef"[r.Intn(16)]
			if r.Intn(4) == 0 { // the same digits elsewhere
				k := 1 + r.Intn(63)
				b = append(append([]byte{}, b[k:]...), b[:k]...)
			}
			return string(b)
		},
		Alias: hexAlias,
	}
	p.pathLen = len(path(strings.Repeat("ab", 32)))
	p.D = p.pathLen
	pubCache[key] = p
	return p
}

// hexAlias writes digits of a hexadecimal number in upper case.
func hexAlias(r *mrand.Rand, id string) string {
	b := []byte(id)
	all := r.Intn(2) == 0
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'f' && (all || r.Intn(3) == 0) {
			b[i] -= 'a' - 'A'
		}
	}
	return string(b)
}

func randHexID(r *mrand.Rand) string {
	b := make([]byte, 32)
	r.Read(b)
	switch r.Intn(6) {
	case 0:
		for i := 0; i < r.Intn(32); i++ {
			b[i] = 0
		}
	}
	return hex.EncodeToString(b)
}

// ---- liability sets with a reference model

type Set struct {
	*pol.LiabilitySet
	r     *mrand.Rand
	Pub   *Pub
	Store *Store
	Model map[string]int64
	Order []string
}

func newSet(p *Pub) *Set {
	st := newStore()
	return &Set{LiabilitySet: pol.NewLiabilitySet(p.PP, st, p.Path), r: mrand.New(mrand.NewSource(1)), Pub: p, Store: st, Model: map[string]int64{}}
}

func (s *Set) Put(id string, amount int64) {
	as := id
	if s.Pub.Alias != nil && s.r != nil && s.r.Intn(3) == 0 {
		as = s.Pub.Alias(s.r, id)
	}
	s.LiabilitySet.Set(as, amount)
	if _, ok := s.Model[id]; !ok {
		s.Order = append(s.Order, id)
	}
	s.Model[id] = amount
}

func (s *Set) IDs() []string {
	ids := make([]string, 0, len(s.Model))
	for id := range s.Model {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	return ids
}

func (s *Set) Total() int64 {
	var t int64
	for _, a := range s.Model {
		t += a
	}
	return t
}

// amount draws an amount, edges included, that keeps the total below 2^63 if it
// is added to (or replaces part of) a total.
func amount(r *mrand.Rand, total int64) int64 {
	room := max63 - total
	var a int64
	switch r.Intn(10) {
	case 0:
		a = 0
	case 1:
		a = 1
	case 2:
		a = room
	case 3:
		a = int64(1) << uint(r.Intn(63))
	case 4:
		a = int64(1)<<uint(r.Intn(62)+1) - 1
	case 5:
		a = r.Int63()
	default:
		a = r.Int63n(100000)
	}
	if a > room {
		if room == 0 {
			return 0
		}
		a %= room + 1
		if a < 0 {
			a = 0
		}
	}
	return a
}

// randomHistory applies n operations (fresh identifiers, neighbours, updates).
func randomHistory(r *mrand.Rand, s *Set, n int) {
	for i := 0; i < n; i++ {
		var id string
		ids := s.IDs()
		switch {
		case len(ids) == 0 || r.Intn(4) == 0:
			id = s.Pub.RandID(r)
		case r.Intn(3) == 0:
			id = ids[r.Intn(len(ids))]
		default:
			id = s.Pub.NearID(r, ids[r.Intn(len(ids))])
		}
		s.Put(id, amount(r, s.Total()-s.Model[id]))
	}
}

func verifyLP(p *Pub, id string, proof pol.LiabilityProof, V, W *math.G1) error {
	_, err := proof.Verify(p.PP, id, V, W, p.Path)
	return err
}

func verifyAny(p *Pub, id string, proof pol.LiabilityProof, V, W interface{}) error {
	return verifyLP(p, id, proof, V.(*math.G1), W.(*math.G1))
}

// digestOf is the digest of a vertex with these commitments.
func digestOf(V, W *math.G1) *math.Zr {
	return (&verkle.Vertex{V: V, W: W}).Digest()
}

// catch runs f and returns what it panicked with, if it did.
func catch(f func()) (p interface{}) {
	defer func() { p = recover() }()
	f()
	return nil
}

// within runs f in a goroutine and says whether it ended in time.
func within(d time.Duration, f func()) bool {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

func secureRand(n int) []byte {
	b := make([]byte, n)
	rand.Read(b)
	return b
}

func commitBlind(p *pp.PP, vals common.Vec, r *math.Zr) *math.G1 {
	m := make([]*math.Zr, 0, len(vals)+1)
	m = append(m, vals...)
	m = append(m, r)
	return msm(p.G1s, m)
}

func bigZero() *big.Int { return new(big.Int) }
