package main

import (
	"bytes"
	"fmt"
	"math/big"
	mrand "math/rand"

	"pol/common"
	"pol/poe"

	realsha "crypto/sha256"

	math "github.com/IBM/mathlib"
)

func init() {
	register(&Property{
		ID:    "C18",
		Rule:  "Every vector and field helper is run on operands of every length up to 40 with edge, unreduced, aliased and random entries and compared with math/big (scalars) or with an independent exponentiation of the big.Int result (groups, whose elements are made from known exponents); operands are compared before and after. distinct = (operation, operands) with a non-zero result.",
		Cases: c18Cases,
	})
}

func edgeScalars(r *mrand.Rand) *big.Int {
	switch r.Intn(12) {
	case 0:
		return big.NewInt(0)
	case 1:
		return big.NewInt(1)
	case 2:
		return new(big.Int).Sub(q, big.NewInt(1))
	case 3:
		return big.NewInt(2)
	case 4:
		return new(big.Int).Sub(q, big.NewInt(r.Int63n(100)+1))
	case 5:
		return new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(253)))
	case 6:
		return big.NewInt(r.Int63())
	case 7:
		return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(r.Intn(253)+1)), big.NewInt(1))
	}
	return randBig(r)
}

// rawZr gives a scalar that need not be reduced: sums and negative numbers as
// they come out of the library's own operations.
func rawZr(r *mrand.Rand) *math.Zr {
	n := edgeScalars(r)
	switch r.Intn(4) {
	case 0: // a sum beyond the group order
		return zrBig(n).Plus(zrBig(edgeScalars(r)))
	case 1:
		if n.IsInt64() && r.Intn(2) == 0 {
			return curve.NewZrFromInt(-n.Int64())
		}
	}
	return zrBig(n)
}

func rawVec(r *mrand.Rand, n int) common.Vec {
	v := make(common.Vec, n)
	for i := range v {
		v[i] = rawZr(r)
		if i > 0 && r.Intn(8) == 0 {
			v[i] = v[i-1] // the same element
		}
	}
	return v
}

func ints(v common.Vec) []*big.Int {
	res := make([]*big.Int, len(v))
	for i := range v {
		res[i] = zint(v[i])
	}
	return res
}

func strs(v common.Vec) string { // exact representatives
	s := ""
	for i := range v {
		s += v[i].String() + ","
	}
	return s
}

func eqInts(v common.Vec, w []*big.Int) bool {
	if len(v) != len(w) {
		return false
	}
	for i := range v {
		if zint(v[i]).Cmp(new(big.Int).Mod(w[i], q)) != 0 {
			return false
		}
	}
	return true
}

// gvec makes group elements with known exponents.
func gvec(r *mrand.Rand, n int) (common.G1v, common.Vec) {
	g := make(common.G1v, n)
	e := make(common.Vec, n)
	for i := range g {
		if i > 0 && r.Intn(8) == 0 {
			g[i], e[i] = g[i-1], e[i-1]
			continue
		}
		e[i] = zrBig(edgeScalars(r))
		g[i] = gexp(zint(e[i]))
	}
	return g, e
}

func g2vec(r *mrand.Rand, n int) (common.G2v, common.Vec) {
	g := make(common.G2v, n)
	e := make(common.Vec, n)
	for i := range g {
		e[i] = zrBig(edgeScalars(r))
		g[i] = g2exp(zint(e[i]))
	}
	return g, e
}

func gexp(n *big.Int) *math.G1 {
	if new(big.Int).Mod(n, q).Sign() == 0 {
		return inf()
	}
	return curve.GenG1.Mul(zrBig(n))
}

func g2exp(n *big.Int) *math.G2 {
	g := curve.GenG2.Copy()
	if new(big.Int).Mod(n, q).Sign() == 0 {
		g.Sub(curve.GenG2)
		return g
	}
	return curve.GenG2.Mul(zrBig(n))
}

func eqGs(g common.G1v, e []*big.Int) bool {
	if len(g) != len(e) {
		return false
	}
	for i := range g {
		if !g[i].Equals(gexp(e[i])) {
			return false
		}
	}
	return true
}

func eqG2s(g common.G2v, e []*big.Int) bool {
	if len(g) != len(e) {
		return false
	}
	for i := range g {
		if !bytes.Equal(g[i].Bytes(), g2exp(e[i]).Bytes()) {
			return false
		}
	}
	return true
}

func mapInts(n int, f func(i int) *big.Int) []*big.Int {
	res := make([]*big.Int, n)
	for i := range res {
		res[i] = f(i)
	}
	return res
}

func c18Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, f func(*Ctx)) { cases = append(cases, Case{Name: name, Run: f}) }
	bi := func() *big.Int { return new(big.Int) }

	for part := 0; part < 8; part++ {
		part := part
		add(fmt.Sprintf("scalars/%d", part), func(c *Ctx) {
			for i := 0; i < p.Pick(150, 3000) && !c.failed(); i++ {
				n := c.R.Intn(40) + 1
				if i < 2 { // long ones, odd lengths and multiples of what machines like
					n = []int{41, 64, 100, 128, 257, 513, 300, 48, 255, 96, 500, 65, 320, 127, 129, 256}[2*part+i]
				}
				v, w := rawVec(c.R, n), rawVec(c.R, n)
				if c.R.Intn(6) == 0 {
					w = v // the same vector twice
				}
				x := rawZr(c.R)
				if c.R.Intn(6) == 0 {
					x = v[c.R.Intn(n)]
				}
				vi, wi, xi := ints(v), ints(w), zint(x)
				before := strs(v) + strs(w) + x.String()
				op := func(name string, ok bool) {
					c.Eval()
					if !ok {
						c.Fail("%s differs from arithmetic modulo the group order: %d entries v=%s w=%s x=%s", name, n, clip(strs(v), 700), clip(strs(w), 700), x.String())
					}
					if after := strs(v) + strs(w) + x.String(); after != before {
						c.Fail("%s changed its operands", name)
						before = after
					}
					c.Distinct("%s %s", name, before)
				}
				op("Vec.Add", eqInts(v.Add(w), mapInts(n, func(i int) *big.Int { return bi().Add(vi[i], wi[i]) })))
				op("Vec.Sub", eqInts(v.Sub(w), mapInts(n, func(i int) *big.Int { return bi().Sub(vi[i], wi[i]) })))
				op("Vec.Mul", eqInts(v.Mul(x), mapInts(n, func(i int) *big.Int { return bi().Mul(vi[i], xi) })))
				op("Vec.HadamardProd", eqInts(v.HadamardProd(w), mapInts(n, func(i int) *big.Int { return bi().Mul(vi[i], wi[i]) })))
				ip := bi()
				for i := range vi {
					ip.Add(ip, bi().Mul(vi[i], wi[i]))
				}
				op("Vec.InnerProd", zint(v.InnerProd(w)).Cmp(ip.Mod(ip, q)) == 0)
				prod := big.NewInt(1)
				for i := range vi {
					prod.Mod(prod.Mul(prod, vi[i]), q)
				}
				op("Vec.Product", zint(v.Product()).Cmp(prod) == 0)
				op("Vec.Reverse", eqInts(v.Reverse(), mapInts(n, func(i int) *big.Int { return vi[n-1-i] })))
				op("Vec.Concat", eqInts(v.Concat(w), append(append([]*big.Int{}, vi...), wi...)))
				cc := v[:n/2].Concat(w)
				op("Vec.Concat of a prefix", eqInts(cc, append(append([]*big.Int{}, vi[:n/2]...), wi...)))
				cc[0] = curve.NewZrFromInt(77)
				op("writing to a concatenation", true)
				if n%2 == 0 {
					op("Vec.Evens", eqInts(v.Evens(), mapInts(n/2, func(i int) *big.Int { return vi[2*i] })))
					op("Vec.Odds", eqInts(v.Odds(), mapInts(n/2, func(i int) *big.Int { return vi[2*i+1] })))
				}
				bits := make([]uint8, n)
				for i := range bits {
					bits[i] = uint8(c.R.Intn(2))
				}
				op("Vec.PowBitVec", eqInts(v.PowBitVec(bits), mapInts(n, func(i int) *big.Int {
					if bits[i] == 0 {
						return big.NewInt(1)
					}
					return vi[i]
				})))
				z := make(common.Vec, n)
				copy(z, v)
				z.Zero()
				op("Vec.Zero", eqInts(z, mapInts(n, func(int) *big.Int { return bi() })))
				op("NegZr", zint(common.NegZr(x)).Cmp(bi().Mod(bi().Neg(xi), q)) == 0)
				m := c.R.Intn(70) + 1
				pw := big.NewInt(1)
				op("PowerSeries", eqInts(common.PowerSeries(m, x), mapInts(m, func(int) *big.Int {
					cur := bi().Set(pw)
					pw.Mod(pw.Mul(pw, xi), q)
					return cur
				})))
				// bits of reduced scalars
				rv := make(common.Vec, n)
				var want []uint8
				bl := []int{1, 8, 63, 63, 63, 64, 254}[c.R.Intn(7)]
				for i := range rv {
					k := edgeScalars(c.R)
					k.Mod(k, bi().Lsh(big.NewInt(1), uint(bl)))
					k.Mod(k, q)
					rv[i] = zrBig(k)
					for b := 0; b < bl; b++ {
						want = append(want, uint8(k.Bit(b)))
					}
					be := common.BitsBigEndian(rv[i], bl)
					okBE := len(be) == bl
					for b := 0; okBE && b < bl; b++ {
						okBE = be[bl-1-b] == uint8(k.Bit(b))
					}
					op(fmt.Sprintf("BitsBigEndian(%v,%d)", k, bl), okBE)
					// a number with more bits than asked for keeps all of them
					op("Bits of a wide number", bitsValue(common.Bits(zrBig(bi().Sub(q, big.NewInt(int64(i+1)))), bl)).Cmp(bi().Sub(q, big.NewInt(int64(i+1)))) == 0)
				}
				got := rv.Bits(bl)
				op(fmt.Sprintf("Vec.Bits(%d)", bl), bytes.Equal(got, want))
				zs := common.IntsToZr(got)
				op("IntsToZr", eqInts(zs, mapInts(len(want), func(i int) *big.Int { return big.NewInt(int64(want[i])) })))
				rb := common.ReverseBits(want)
				okR := len(rb) == len(want)
				for i := range rb {
					okR = okR && rb[i] == want[len(want)-1-i]
				}
				op("ReverseBits", okR)
				k := c.R.Intn(260)
				op(fmt.Sprintf("Pow2(%d)", k), zint(common.Pow2(k)).Cmp(bi().Mod(bi().Lsh(big.NewInt(1), uint(k)), q)) == 0)
				in := int(edgeInt(c.R))
				op(fmt.Sprintf("IntToZr(%d)", in), zint(common.IntToZr(in)).Cmp(bi().Mod(big.NewInt(int64(in)), q)) == 0)
				if i == 0 {
					c.Sample("vectors of length %d: v=%s", n, clip(strs(v), 150))
				}
				// operands of different lengths are refused
				if n > 1 {
					for name, f := range map[string]func(){
						"Add": func() { v.Add(w[:n-1]) }, "Sub": func() { v.Sub(w[:n-1]) }, "InnerProd": func() { v.InnerProd(w[:n-1]) }, "HadamardProd": func() { v.HadamardProd(w[:n-1]) },
						"Add'": func() { v[:n-1].Add(w) }, "InnerProd'": func() { v[:n-1].InnerProd(w) },
					} {
						op(name+" of different lengths is not refused", catch(f) != nil)
					}
				}
			}
		})
		add(fmt.Sprintf("groups/%d", part), func(c *Ctx) {
			for i := 0; i < p.Pick(100, 1500) && !c.failed(); i++ {
				n := c.R.Intn(14) + 1
				switch i {
				case 0:
					n = 1
				case 1:
					n = []int{16, 33, 65, 64, 100, 130, 257, 515}[part]
				}
				g, ge := gvec(c.R, n)
				h, he := gvec(c.R, n)
				v := rawVec(c.R, n)
				if c.R.Intn(5) == 0 {
					h, he = g, ge
				}
				x := rawZr(c.R)
				gi, hi, vi, xi := ints(ge), ints(he), ints(v), zint(x)
				state := func() string { return string(g.Bytes()) + string(h.Bytes()) + strs(v) + x.String() }
				before := state()
				op := func(name string, ok bool) {
					c.Eval()
					if !ok {
						c.Fail("%s differs from arithmetic in the exponent: %d entries, exponents %s, %s scalars %s x=%s", name, n, clip(strs(ge), 700), clip(strs(he), 700), clip(strs(v), 700), x.String())
					}
					if after := state(); after != before {
						c.Fail("%s changed its operands", name)
						before = after
					}
					c.Distinct("%s %s %s %s", name, strs(ge), strs(he), strs(v))
				}
				op("G1v.Add", eqGs(g.Add(h), mapInts(n, func(i int) *big.Int { return bi().Add(gi[i], hi[i]) })))
				op("G1v.HadamardProd", eqGs(g.HadamardProd(h), mapInts(n, func(i int) *big.Int { return bi().Add(gi[i], hi[i]) })))
				op("G1v.Neg", eqGs(g.Neg(), mapInts(n, func(i int) *big.Int { return bi().Neg(gi[i]) })))
				op("G1v.Mul", eqGs(g.Mul(x), mapInts(n, func(i int) *big.Int { return bi().Mul(gi[i], xi) })))
				mv := g.MulV(v)
				mvWant := mapInts(n, func(i int) *big.Int { return bi().Mul(gi[i], vi[i]) })
				op("G1v.MulV", eqGs(mv, mvWant))
				tot := bi()
				for _, k := range mvWant {
					tot.Add(tot, k)
				}
				op("G1v.MulV.Sum", mv.Sum().Equals(gexp(tot)))
				op("the result of MulV after Sum", eqGs(mv, mvWant))
				// writing into results must not reach shared constants
				s := mv.Sum()
				s.Add(curve.GenG1)
				z := g.MulV(make0(n))
				op("G1v.MulV by zeros", eqGs(z, mapInts(n, func(int) *big.Int { return bi() })))
				zs := z.Sum()
				op("sum of identities", zs.Equals(inf()))
				zs.Add(curve.GenG1)
				op("G1v.MulV by zeros, again", eqGs(g.MulV(make0(n)), mapInts(n, func(int) *big.Int { return bi() })))
				op("Vec.Exp", v.Exp(g).Equals(gexp(tot)))
				gs := bi()
				for _, k := range gi {
					gs.Add(gs, k)
				}
				sum := g.Sum()
				op("G1v.Sum", sum.Equals(gexp(gs)))
				sum.Add(curve.GenG1)
				op("writing to a sum", true)
				var cat []byte
				for _, e := range g {
					cat = append(cat, e.Bytes()...)
				}
				op("G1v.Bytes", bytes.Equal(g.Bytes(), cat))
				op("G1v.Duplicate", eqGs(g[:1].Duplicate(n), mapInts(n, func(int) *big.Int { return gi[0] })))
				dup := g[:1].Duplicate(2)
				dup[0].Add(curve.GenG1)
				op("writing to a duplicate", dup[1].Equals(g[0]))

				m := c.R.Intn(4) + 1
				if m > n {
					m = n
				}
				g2, g2e := g2vec(c.R, m)
				k2, k2e := g2vec(c.R, m)
				g2i, k2i := ints(g2e), ints(k2e)
				g2b := string(g2.Bytes()) + string(k2.Bytes())
				op2 := func(name string, ok bool) {
					op(name, ok)
					if string(g2.Bytes())+string(k2.Bytes()) != g2b {
						c.Fail("%s changed its operands", name)
					}
				}
				op2("G2v.Add", eqG2s(g2.Add(k2), mapInts(m, func(i int) *big.Int { return bi().Add(g2i[i], k2i[i]) })))
				op2("G2v.Mul", eqG2s(g2.Mul(zrBig(xi)), mapInts(m, func(i int) *big.Int { return bi().Mul(g2i[i], xi) })))
				vr := make(common.Vec, m)
				for i := range vr {
					vr[i] = zrBig(vi[i])
				}
				op2("G2v.Mulv", eqG2s(g2.Mulv(vr), mapInts(m, func(i int) *big.Int { return bi().Mul(g2i[i], vi[i]) })))
				s2 := bi()
				for _, k := range g2i {
					s2.Add(s2, k)
				}
				op2("G2v.Sum", bytes.Equal(g2.Sum().Bytes(), g2exp(s2).Bytes()))
				op2("G2v.Duplicate", eqG2s(g2[:1].Duplicate(m), mapInts(m, func(int) *big.Int { return g2i[0] })))
				var cat2 []byte
				for _, e := range g2 {
					cat2 = append(cat2, e.Bytes()...)
				}
				op2("G2v.Bytes", bytes.Equal(g2.Bytes(), cat2))
				ip := bi()
				for i := 0; i < m; i++ {
					ip.Add(ip, bi().Mul(gi[i], g2i[i]))
				}
				op2("G1v.InnerProd", g[:m].InnerProd(g2).Equals(curve.GenGt.Exp(zrBig(ip))))
				if n > 1 {
					op("MulV of different lengths is not refused", catch(func() { g.MulV(v[:n-1]) }) != nil && catch(func() { g[:n-1].MulV(v) }) != nil && catch(func() { v[:n-1].Exp(g) }) != nil)
				}
				if i == 0 {
					c.Sample("groups: exponents %s", clip(strs(ge), 150))
				}
			}
		})
	}
	add("identity-constant", func(c *Ctx) {
		// the identity handed out by MulV is shared: using results must not change it
		g, _ := gvec(c.R, 4)
		v := common.Vec{zr(0), zr(3), zr(0), zr(5)}
		for i := 0; i < 20; i++ {
			r := g.MulV(v)
			s := r.Sum()
			s.Add(curve.GenG1)
			r.Add(g)
			r.Mul(zr(7))
			r.Neg()
			r.HadamardProd(g)
			r[1].Add(curve.GenG1)
			c.Check(g.MulV(make0(4))[0].Equals(inf()), "the identity handed out by MulV was changed")
		}
	})
	add("generators", func(c *Ctx) {
		contexts := []string{"g", "h", "u", "POE G", "POE H", "POE F", "range proof Gs", "range proof Hs", "range proof Fs", "range proof G", "range proof H", "range proof F",
			"sum argument Gs", "sum argument H", "sum argument G", "sum argument F", "IPA u", "U range proof", "", "g ", " g", "g0", "g 1", "POE G 1"}
		seen := map[string]string{}
		for _, ctx := range contexts {
			n := p.Pick(150, 1200)
			if ctx != "range proof Hs" && ctx != "range proof Fs" {
				n = p.Pick(20, 600)
			}
			v := common.RandGenVec(n, ctx)
			w := common.RandGenVec(n, ctx)
			pre := common.RandGenVec(n/2, ctx)
			c.Check(len(v) == n, "RandGenVec(%d,%q) has %d elements", n, ctx, len(v))
			for i := range v {
				key := string(v[i].Bytes())
				name := fmt.Sprintf("%q/%d", ctx, i)
				if other, ok := seen[key]; ok {
					c.Check(false, "generators %s and %s are the same", other, name)
				}
				seen[key] = name
				c.Check(bytes.Equal(v[i].Bytes(), w[i].Bytes()) && (i >= n/2 || v[i].Equals(pre[i])), "generator %s is not deterministic", name)
				c.Check(!v[i].IsInfinity(), "generator %s is the identity", name)
				_, err := curve.NewG1FromBytes(v[i].Bytes())
				c.Check(err == nil && v[i].Mul(zrBig(new(big.Int).Sub(q, big.NewInt(1)))).Equals(minusG(inf(), v[i])), "generator %s is not a point of the group", name)
				c.Distinct("gen %s", name)
			}
		}
		for i := 0; i < p.Pick(300, 4000); i++ {
			b := secureBytes(c.R, c.R.Intn(80)+1)
			g := common.HashToG1(b)
			if other, ok := seen[string(g.Bytes())]; ok && other != string(b) {
				c.Check(false, "HashToG1 maps %x to an element seen as %x", b, other)
			}
			seen[string(g.Bytes())] = string(b)
			c.Check(g.Equals(common.HashToG1(b)) && !g.IsInfinity(), "HashToG1(%x)", b)
		}
	})
	add("hash-to-scalar", func(c *Ctx) {
		seen := map[string]string{}
		see := func(digest []byte, unique bool) bool {
			in := append([]byte{}, digest...)
			var s *math.Zr
			if pn := catch(func() { s = common.FieldElementFromBytes(in) }); pn != nil {
				c.Check(false, "FieldElementFromBytes(%x) panics: %v", digest, pn)
				return false
			}
			if !c.Check(bytes.Equal(in, digest), "FieldElementFromBytes changed its input") ||
				!c.Check(zraw(s).Sign() >= 0 && zraw(s).Cmp(q) < 0, "FieldElementFromBytes(%x) = %s is not below the group order", digest, s.String()) ||
				!c.Check(s.Equals(common.FieldElementFromBytes(digest)), "FieldElementFromBytes(%x) is not deterministic", digest) {
				return false
			}
			if unique {
				if other, ok := seen[s.String()]; ok && other != string(digest) {
					return c.Check(false, "digests %x and %x give the same scalar", other, digest)
				}
				seen[s.String()] = string(digest)
				c.Check(zint(s).Sign() != 0, "the digest %x gives 0", digest)
			}
			return true
		}
		for i := 0; i < p.Pick(6000, 200000); i++ {
			d := realsha.Sum256(secureBytes(c.R, c.R.Intn(64)))
			if !see(d[:], true) {
				return
			}
			c.Distinct("h2s %x", d)
		}
		// raw patterns around the group order: must be below it
		mod := []uint64{4891460686036598785, 2896914383306846353, 13281191951274694749, 3486998266802970665}
		for i := 0; i < p.Pick(6000, 100000); i++ {
			b := make([]byte, 32)
			for w := 0; w < 4; w++ {
				var x uint64
				switch c.R.Intn(6) {
				case 0:
					x = mod[w]
				case 1:
					x = mod[w] - 1
				case 2:
					x = mod[w] + 1
				case 3:
					x = ^uint64(0)
				case 4:
					x = 0
				default:
					x = c.R.Uint64()
				}
				for k := 0; k < 8; k++ {
					b[8*w+k] = byte(x >> uint(56-8*k))
				}
			}
			if !see(b, false) {
				return
			}
		}
		// every bit of a digest counts
		for i := 0; i < 40; i++ {
			d := realsha.Sum256(secureBytes(c.R, 20))
			base := common.FieldElementFromBytes(d[:])
			for bit := 0; bit < 256; bit++ {
				e := d
				e[bit/8] ^= 1 << uint(bit%8)
				c.Check(!common.FieldElementFromBytes(e[:]).Equals(base), "bit %d of the digest %x does not matter", bit, d)
			}
		}
		for _, n := range []int{0, 1, 31, 33, 64} {
			c.Check(catch(func() { common.FieldElementFromBytes(make([]byte, n)) }) != nil, "a digest of %d bytes is not refused", n)
		}
		for i := 0; i < 300; i++ {
			b := secureBytes(c.R, c.R.Intn(100))
			want := realsha.Sum256(b)
			c.Check(bytes.Equal(common.SHA256Digest(string(b)), want[:]), "SHA256Digest(%x)", b)
		}
	})
	add("random-scalars", func(c *Ctx) {
		seen := map[string]bool{}
		for i := 0; i < p.Pick(40, 400); i++ {
			n := c.R.Intn(100)
			v := common.RandVec(n)
			c.Check(len(v) == n, "RandVec(%d) has %d elements", n, len(v))
			for _, x := range v {
				c.Check(!seen[x.String()] && zraw(x).Cmp(q) < 0 && zraw(x).Sign() > 0, "RandVec repeats or exceeds the group order: %s", x.String())
				seen[x.String()] = true
			}
		}
		c.Distinct("randvec %d", len(seen))
	})
	add("challenges", func(c *Ctx) {
		seen := map[string]string{}
		for i := 0; i < p.Pick(60, 1000) && !c.failed(); i++ {
			k := c.R.Intn(5)
			gs, _ := gvec(c.R, k)
			ns := make([]int, c.R.Intn(4))
			for j := range ns {
				ns[j] = c.R.Intn(65536)
			}
			d := secureBytes(c.R, 32)
			n := c.R.Intn(600) + 1
			before := string(gs.Bytes()) + fmt.Sprint(ns) + string(d)
			out := poe.RO(gs, ns, d, n)
			again := poe.RO(gs, ns, d, n)
			pre := poe.RO(gs, ns, d, (n+1)/2)
			c.Check(len(out) == n && before == string(gs.Bytes())+fmt.Sprint(ns)+string(d), "poe.RO gave %d of %d scalars or changed its input", len(out), n)
			for j := range out {
				name := fmt.Sprintf("%d/%d", i, j)
				if other, ok := seen[out[j].String()]; ok {
					c.Check(false, "challenges %s and %s are the same", other, name)
				}
				seen[out[j].String()] = name
				c.Check(out[j].Equals(again[j]) && (j >= len(pre) || out[j].Equals(pre[j])), "challenge %d is not deterministic", j)
				c.Check(zraw(out[j]).Cmp(q) < 0 && zraw(out[j]).Sign() > 0, "challenge %d is not in the field", j)
			}
			c.Distinct("ro %d", i)
			// every input counts
			differs := func(what string, gs common.G1v, ns []int, d []byte) {
				o := poe.RO(gs, ns, d, n)
				for j := range o {
					if !c.Check(!o[j].Equals(out[j]), "challenge %d of %d does not depend on %s", j, n, what) {
						return
					}
				}
			}
			for j := range gs {
				g2 := append(common.G1v{}, gs...)
				g2[j] = plusG(gs[j], curve.GenG1)
				differs(fmt.Sprintf("element %d of %d", j, k), g2, ns, d)
			}
			for j := range ns {
				n2 := append([]int{}, ns...)
				n2[j] = (n2[j] + 1) % 65536
				differs("an integer", gs, n2, d)
				n2[j] = (ns[j] + 256) % 65536
				differs("the high byte of an integer", gs, n2, d)
			}
			d2 := append([]byte{}, d...)
			d2[c.R.Intn(32)] ^= 1
			differs("the parameter digest", gs, ns, d2)
			if i == 0 {
				c.Sample("poe.RO of %d elements, %d integers: %d scalars, first %s", k, len(ns), n, out[0].String())
			}
		}
	})
	return cases
}

func make0(n int) common.Vec {
	v := make(common.Vec, n)
	for i := range v {
		v[i] = curve.NewZrFromInt(0)
	}
	return v
}

func bitsValue(b []uint8) *big.Int {
	n := new(big.Int)
	for i := range b {
		if b[i] > 1 {
			return big.NewInt(-1)
		}
		n.SetBit(n, i, uint(b[i]))
	}
	return n
}

func edgeInt(r *mrand.Rand) int64 {
	switch r.Intn(5) {
	case 0:
		return max63 - r.Int63n(3)
	case 1:
		return -r.Int63()
	case 2:
		return r.Int63n(5) - 2
	case 3:
		return int64(1) << uint(r.Intn(63))
	}
	return r.Int63()
}

func secureBytes(r *mrand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}
