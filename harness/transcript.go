package main

import (
	"pol/common"

	shim "polverif/shim/sha256"

	math "github.com/IBM/mathlib"
)

// digestsOf runs f, whatever becomes of it, and returns the digests the code
// under test computed, in the order of first appearance.
func digestsOf(f func()) []string {
	return shim.Record(func() { catch(f) })
}

func setOf(l []string) map[string]bool {
	m := map[string]bool{}
	for _, s := range l {
		m[s] = true
	}
	return m
}

// without returns the elements of a that are in none of the others.
func without(a []string, others ...[]string) []string {
	var res []string
	for _, s := range a {
		keep := true
		for _, o := range others {
			if setOf(o)[s] {
				keep = false
			}
		}
		if keep {
			res = append(res, s)
		}
	}
	return res
}

func both(a, b []string) []string {
	var res []string
	m := setOf(b)
	for _, s := range a {
		if m[s] {
			res = append(res, s)
		}
	}
	return res
}

// challenges are the scalars the digests computed by f may have become.
func challenges(f func()) []*math.Zr {
	var res []*math.Zr
	for _, d := range digestsOf(f) {
		if len(d) == 32 {
			res = append(res, common.FieldElementFromBytes([]byte(d)))
		}
	}
	return res
}

// setZr and setG1 write a named field of a proof; a tree in which the field is
// called otherwise ends the case as inconclusive.
func setZr(ptr interface{}, path string, x *math.Zr) {
	s := find(ptr, path)
	if s == nil || s.V.Type() != tZr {
		panic(skipCase("no scalar at " + path))
	}
	s.V.Set(reflectOf(x))
}

func setG1(ptr interface{}, path string, x *math.G1) {
	s := find(ptr, path)
	if s == nil || s.V.Type() != tG1 {
		panic(skipCase("no group element at " + path))
	}
	s.V.Set(reflectOf(x))
}

func getZr(ptr interface{}, path string) *math.Zr {
	s := find(ptr, path)
	if s == nil || s.V.Type() != tZr {
		panic(skipCase("no scalar at " + path))
	}
	return s.Zr()
}

func getG1(ptr interface{}, path string) *math.G1 {
	s := find(ptr, path)
	if s == nil || s.V.Type() != tG1 {
		panic(skipCase("no group element at " + path))
	}
	return s.G1()
}

func invZ(x *math.Zr) *math.Zr {
	n := zint(x)
	if n.Sign() == 0 {
		return zr(0)
	}
	return zrBig(n.ModInverse(n, q))
}

func addZ(xs ...*math.Zr) *math.Zr {
	n := zint(xs[0])
	for _, x := range xs[1:] {
		n.Add(n, zint(x))
	}
	return zrBig(n)
}

func subZ(a, b *math.Zr) *math.Zr { n := zint(a); return zrBig(n.Sub(n, zint(b))) }
func mulZ(a, b *math.Zr) *math.Zr { n := zint(a); return zrBig(n.Mul(n, zint(b))) }
func negZ(a *math.Zr) *math.Zr    { return subZ(zr(0), a) }

// mulG multiplies, also by zero.
func mulG(g *math.G1, x *math.Zr) *math.G1 {
	if zint(x).Sign() == 0 || g.IsInfinity() {
		return inf()
	}
	return g.Mul(zrBig(zint(x)))
}
