package main

import (
	"bytes"
	"encoding/asn1"
	"encoding/binary"
	"fmt"
	"math/big"
	mrand "math/rand"
	"sort"
	"strings"

	"pol/sparse"
	"pol/verkle"

	math "github.com/IBM/mathlib"
)

func init() {
	register(&Property{
		ID:    "C16",
		Rule:  "Vertices of random trees and synthetic records (edge scalars, indices over the full 16 bits, with and without digests) are decoded, encoded and decoded again, and compared entry by entry; the stream of a serialized tree is parsed by an independent reader and compared with the set of path prefixes of the recorded identifiers and the vertices the tree returns. distinct = distinct vertex encodings compared.",
		Cases: c16Cases,
	})
}

// content is what a vertex record holds, read without the code under test.
type content struct {
	values, digests map[uint16]string
	sum, blind      string
	V, W            string
}

func canonZ(b []byte) string { return new(big.Int).Mod(new(big.Int).SetBytes(b), q).String() }

func readRecord(b []byte) (content, string) {
	var rv verkle.RawVertex
	rest, err := asn1.Unmarshal(b, &rv)
	if err != nil || len(rest) != 0 {
		return content{}, fmt.Sprintf("unreadable (%v, %d bytes left)", err, len(rest))
	}
	res := content{values: map[uint16]string{}, digests: map[uint16]string{}, sum: canonZ(rv.Sum), blind: canonZ(rv.BlindingFactor), V: string(rv.V), W: string(rv.W)}
	for _, l := range []struct {
		kvs []verkle.KV
		m   map[uint16]string
	}{{rv.Values, res.values}, {rv.Digests, res.digests}} {
		for _, kv := range l.kvs {
			if len(kv.K) != 2 {
				return res, fmt.Sprintf("key %x", kv.K)
			}
			k := binary.BigEndian.Uint16(kv.K)
			if _, dup := l.m[k]; dup {
				return res, fmt.Sprintf("index %d twice", k)
			}
			l.m[k] = canonZ(kv.V)
		}
	}
	return res, ""
}

func (a content) equal(b content) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

// accessible compares what the methods and fields of a vertex give with a content.
func (a content) accessible(v *verkle.Vertex, n int) string {
	vals := v.Values(n)
	for j := 0; j < n-1; j++ {
		want, ok := a.values[uint16(j)]
		if !ok {
			want = "0"
		}
		if zint(vals[j]).String() != want {
			return fmt.Sprintf("entry %d is %v, not %s", j, zint(vals[j]), want)
		}
	}
	if zint(vals[n-1]).String() != a.sum {
		return fmt.Sprintf("sum is %v, not %s", zint(vals[n-1]), a.sum)
	}
	if zint(v.BlindingFactor).String() != a.blind {
		return "another blinding factor"
	}
	if len(v.Digests) != len(a.digests) {
		return fmt.Sprintf("%d digests, not %d", len(v.Digests), len(a.digests))
	}
	for j, d := range v.Digests {
		if zint(d).String() != a.digests[j] {
			return fmt.Sprintf("digest %d is %v, not %s", j, zint(d), a.digests[j])
		}
	}
	if string(v.V.Bytes()) != a.V {
		return "another V"
	}
	if (v.W == nil) != (a.W == "") || v.W != nil && string(v.W.Bytes()) != a.W {
		return "another W"
	}
	return ""
}

// roundTrip is the monitor of the vertex codec.
func roundTrip(c *Ctx, what string, record []byte, n int) bool {
	want, bad := readRecord(record)
	if !c.Check(bad == "", "%s: record is %s", what, bad) {
		return false
	}
	in := append([]byte{}, record...)
	v := &verkle.Vertex{}
	v.FromBytes(in)
	if !c.Check(bytes.Equal(in, record), "%s: decoding changed its input", what) {
		return false
	}
	if d := want.accessible(v, n); !c.Check(d == "", "%s: decoded vertex has %s", what, d) {
		return false
	}
	again := v.Bytes()
	got, bad := readRecord(again)
	if !c.Check(bad == "" && got.equal(want), "%s: encoding the decoded vertex gives %s %v, not %v", what, bad, clip(fmt.Sprint(got), 300), clip(fmt.Sprint(want), 300)) {
		return false
	}
	// a decoded vertex does not live in the buffer it was decoded from
	for i := range in {
		in[i] = 0xaa
	}
	if d := want.accessible(v, n); !c.Check(d == "", "%s: after reusing the buffer the decoded vertex has %s", what, d) {
		return false
	}
	w := &verkle.Vertex{}
	w.FromBytes(again)
	if d := want.accessible(w, n); !c.Check(d == "", "%s: twice decoded vertex has %s", what, d) {
		return false
	}
	if !c.Check(eqZ(v.Digest(), w.Digest()) && eqZ(v.Digest(), digestOf(v.V, v.W)), "%s: the digest changes with encoding", what) {
		return false
	}
	c.Distinct("%x", record)
	return true
}

func c16Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, f func(*Ctx)) { cases = append(cases, Case{Name: name, Run: f}) }
	for part := 0; part < 8; part++ {
		add(fmt.Sprintf("records/%d", part), func(c *Ctx) {
			for i := 0; i < p.Pick(400, 5000); i++ {
				rv, n := randomRecord(c.R)
				b, err := asn1.Marshal(rv)
				if err != nil {
					panic(err)
				}
				if !roundTrip(c, "synthetic record", b, n) {
					return
				}
				if i == 0 {
					c.Sample("%d entries, %d digests, %d bytes", len(rv.Values), len(rv.Digests), len(b))
				}
			}
		})
	}
	for _, sh := range [][3]int{{3, 1, 6}, {3, 2, 10}, {3, 4, 12}, {3, 19, 4}, {7, 2, 20}, {7, 3, 20}, {15, 2, 40}, {15, 3, 40}, {31, 3, 20}, {255, 2, 12}, {511, 2, 12}} {
		for h := 0; h < p.Pick(3, 20); h++ {
			if sh[0] > 100 && h > p.Pick(0, 3) {
				continue
			}
			sh, h := sh, h
			add(fmt.Sprintf("tree/f%d-d%d/%d", sh[0], sh[1], h), func(c *Ctx) {
				pub := idsOnly(sh[0], sh[1])
				st := newStore()
				t := verkle.NewVerkleTree(uint16(sh[0]), pub.Path, st)
				var order []string
				model := map[string]int64{}
				var out bytes.Buffer
				if catch(func() { t.Serialize(&out) }) == nil {
					c.Check(out.Len() == 0, "an empty tree serializes to %d bytes", out.Len())
				} else {
					c.Fail("serializing an empty tree panics")
				}
				for i := 0; i < sh[2]; i++ {
					id := pickID(c.R, pub, order, sh[0], sh[1])
					model[id] = amount(c.R, 0)
					order = append(order, id)
					t.Put(id, model[id])
				}
				for k, v := range st.snapshot() {
					if !roundTrip(c, fmt.Sprintf("stored vertex %q", k), []byte(v), sh[0]+1) {
						return
					}
				}
				checkStream(c, t, pub, model)
				c.Sample("%d vertices in the store, %d identifiers", len(st.m), len(model))
			})
		}
	}
	// records of every length, up to what a vertex of the widest trees takes and beyond
	for part := 0; part < 4; part++ {
		part := part
		add(fmt.Sprintf("lengths/%d", part), func(c *Ctx) { lengths(c, part, p.Pick(6, 40)) })
	}
	for _, n := range []int{100, 480, 700, 1022} {
		n := n
		add(fmt.Sprintf("wide/%d", n), func(c *Ctx) { wide(c, n) })
	}
	for i, get := range []func() *Pub{func() *Pub { return dense(7) }, func() *Pub { return sparseTree(31) }} {
		get := get
		add(fmt.Sprintf("real/%d", i), func(c *Ctx) {
			s := newSet(get())
			randomHistory(c.R, s, 8)
			for k, v := range s.Store.snapshot() {
				if !roundTrip(c, fmt.Sprintf("stored vertex %q", k), []byte(v), s.Pub.F+1) {
					return
				}
			}
			checkStream(c, treeOf(s.LiabilitySet), s.Pub, s.Model)
		})
	}
	return cases
}

func randomRecord(r *mrand.Rand) (verkle.RawVertex, int) {
	z := func() []byte { return zrBig(edgeScalars(r)).Bytes() }
	var rv verkle.RawVertex
	rv.BlindingFactor, rv.Sum = z(), z()
	rv.V = gexp(edgeScalars(r)).Bytes()
	n := []int{4, 8, 16, 256, 512, 1024, 16384, 65535}[r.Intn(8)]
	kvs := func() []verkle.KV {
		var res []verkle.KV
		seen := map[int]bool{}
		for i := r.Intn(20); i > 0; i-- {
			k := r.Intn(n - 1)
			if r.Intn(4) == 0 {
				k = []int{0, n - 2, 255 % (n - 1), 256 % (n - 1), 1}[r.Intn(5)]
			}
			if seen[k] {
				continue
			}
			seen[k] = true
			b := make([]byte, 2)
			binary.BigEndian.PutUint16(b, uint16(k))
			res = append(res, verkle.KV{K: b, V: z()})
		}
		return res
	}
	rv.Values = kvs()
	if r.Intn(2) == 0 {
		rv.W = gexp(edgeScalars(r)).Bytes()
		rv.Digests = kvs()
	}
	return rv, n
}

// checkStream parses a serialized tree.
func checkStream(c *Ctx, t *verkle.Tree, pub *Pub, model map[string]int64) {
	var out bytes.Buffer
	t.Serialize(&out)
	vertices := map[string]*verkle.Vertex{} // by prefix
	leaves := map[string]bool{}
	str := func(p []uint16) string {
		var sb strings.Builder
		for _, x := range p {
			fmt.Fprintf(&sb, ".%d", x)
		}
		return sb.String()
	}
	ids := make([]string, 0, len(model))
	for id := range model {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	for _, id := range ids {
		path := pub.Path(id)
		_, vs, ok := t.Get(id)
		if !c.Check(ok, "%s is not found", id) {
			return
		}
		for i, v := range vs {
			vertices[str(path[:i])] = v
		}
		leaves[str(path)] = true
	}
	seen := map[string]bool{}
	b := out.Bytes()
	for len(b) > 0 {
		if !c.Check(len(b) >= 32, "the stream ends within a header") {
			return
		}
		n := int(binary.BigEndian.Uint32(b[:4]))
		if !c.Check(len(b) >= 32+n && bytes.Equal(b[4:32], make([]byte, 28)), "the stream ends within a record, or its header has a tail: %x", b[:32]) {
			return
		}
		var rv sparse.RawVertex
		rest, err := asn1.Unmarshal(b[32:32+n], &rv)
		if !c.Check(err == nil && len(rest) == 0, "record of %d bytes is unreadable: %v", n, err) {
			return
		}
		b = b[32+n:]
		if !c.Check(!seen[rv.Path], "the vertex %q is in the stream twice", rv.Path) {
			return
		}
		seen[rv.Path] = true
		if v := vertices[rv.Path]; v != nil {
			got, bad := readRecord(rv.Vertex)
			want, _ := readRecord(v.Bytes())
			if !c.Check(bad == "" && got.equal(want), "the vertex %q in the stream is %s, another one than in the tree", rv.Path, bad) {
				return
			}
			c.Distinct("%x", rv.Vertex)
			c.Saw("vertices in streams", 1)
			continue
		}
		if !c.Check(leaves[rv.Path], "a vertex under %q, where there is none", rv.Path) {
			return
		}
	}
	for path := range vertices {
		c.Check(seen[path], "the vertex %q is not in the stream", path)
	}
	for path := range leaves {
		c.Check(seen[path], "the leaf %q is not in the stream", path)
	}
	_ = math.Curves
}

// frame is a record of a stream.
type frame struct {
	path   string
	vertex []byte
}

// frames parses a stream.
func frames(b []byte) ([]frame, string) {
	var res []frame
	for len(b) > 0 {
		if len(b) < 32 {
			return res, "ends within a header"
		}
		n := int(binary.BigEndian.Uint32(b[:4]))
		if len(b) < 32+n || !bytes.Equal(b[4:32], make([]byte, 28)) {
			return res, fmt.Sprintf("ends within a record of %d bytes, or its header has a tail: %x", n, b[:32])
		}
		var rv sparse.RawVertex
		if rest, err := asn1.Unmarshal(b[32:32+n], &rv); err != nil || len(rest) != 0 {
			return res, fmt.Sprintf("has an unreadable record of %d bytes: %v", n, err)
		}
		res = append(res, frame{rv.Path, rv.Vertex})
		b = b[32+n:]
	}
	return res, ""
}

// lengths serializes vertices whose encodings have many lengths.
func lengths(c *Ctx, part, count int) {
	for i := 0; i < count; i++ {
		content := map[string][]byte{}
		var build func(path string, depth int) *sparse.Vertex
		build = func(path string, depth int) *sparse.Vertex {
			n := []int{0, 1, 100, 127, 128, 200, 255, 256, 1 << 12, 1<<15 - 1, 1 << 15, 1<<16 - 40, 1<<16 - 1, 1 << 16, 1<<16 + 1, 3 << 15, 1<<17 + 3}[c.R.Intn(17)] - c.R.Intn(2)*c.R.Intn(24)
			if part == 0 && i == 0 && depth == 0 {
				n = 1<<24 + 5 // more than three bytes of length
			}
			b := make([]byte, max(n, 0))
			c.R.Read(b)
			content[path] = b
			c.Distinct("%d", len(b))
			v := &sparse.Vertex{Data: b, Descendants: map[uint16]*sparse.Vertex{}}
			for k := c.R.Intn(4); k > 0 && depth < 3; k-- {
				at := uint16([]int{0, 1, 2, 10, 12, 100, 255, 256, 1023, 16382, 65535}[c.R.Intn(11)])
				if v.Descendants[at] == nil {
					v.Descendants[at] = build(fmt.Sprintf("%s.%d", path, at), depth+1)
				}
			}
			return v
		}
		root := build("", 0)
		var out bytes.Buffer
		root.Serialize(&out, "", func(data interface{}) []byte { return data.([]byte) })
		fs, bad := frames(out.Bytes())
		if !c.Check(bad == "", "the stream of %d vertices %s", len(content), bad) {
			return
		}
		seen := map[string]bool{}
		for _, f := range fs {
			want, ok := content[f.path]
			if !c.Check(ok && !seen[f.path] && bytes.Equal(want, f.vertex), "the stream has %d bytes under %q (again: %v), the tree %d (%v)", len(f.vertex), f.path, seen[f.path], len(want), ok) {
				return
			}
			seen[f.path] = true
		}
		if !c.Check(len(seen) == len(content), "the stream has %d vertices, the tree %d", len(seen), len(content)) {
			return
		}
		c.Saw("vertices in streams", len(fs))
	}
}

// wide serializes a tree of which the root has n children: the record of the root in the store
// is completed by hand, which spares the updates.
func wide(c *Ctx, n int) {
	const f = 1023
	pub := idsOnly(f, 2)
	st := newStore()
	t := verkle.NewVerkleTree(f, pub.Path, st)
	model := map[string]int64{}
	for _, id := range []string{"0.0", "1022.5", "256.1022"} {
		model[id] = amount(c.R, 1<<62)
		t.Put(id, model[id])
	}
	_, vs, ok := t.Get("0.0")
	if !ok {
		c.Fail("an identifier is not found")
		return
	}
	old, key := vs[0].Bytes(), ""
	want, _ := readRecord(old)
	for k, v := range st.snapshot() {
		if got, bad := readRecord([]byte(v)); bad == "" && got.equal(want) {
			key = k
			if !roundTrip(c, "root", []byte(v), f+1) {
				return
			}
		}
	}
	var rv verkle.RawVertex
	if _, err := asn1.Unmarshal(old, &rv); err != nil {
		c.Fail("an unreadable root: %v", err)
		return
	}
	have := map[uint16]bool{}
	for _, kv := range rv.Values {
		have[binary.BigEndian.Uint16(kv.K)] = true
	}
	for _, j := range c.R.Perm(f) {
		if len(rv.Values) >= n {
			break
		}
		if have[uint16(j)] {
			continue
		}
		b := make([]byte, 2)
		binary.BigEndian.PutUint16(b, uint16(j))
		rv.Values = append(rv.Values, verkle.KV{K: b, V: randZr(c.R).Bytes()})
		rv.Digests = append(rv.Digests, verkle.KV{K: b, V: randZr(c.R).Bytes()})
	}
	record, err := asn1.Marshal(rv)
	if err != nil {
		panic(err)
	}
	if !roundTrip(c, "wide root", record, f+1) {
		return
	}
	st.Put([]byte(key), record)
	checkStream(c, t, pub, model)
	c.Sample("a root of %d children takes %d bytes", n, len(record))
}
