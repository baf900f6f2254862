package main

import (
	"encoding/hex"
	"fmt"
	gomath "math"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync"
	"time"

	"pol/common"
	"pol/pol"
	"pol/sparse"

	realsha "crypto/sha256"
)

var fanouts = []int{3, 7, 15, 31, 63, 127, 255, 511, 1023, 2047, 4095, 8191, 16383}

func init() {
	register(&Property{
		ID:    "C07",
		Rule:  "Identifiers in blocks, at +-k*f^j of each other, with equal digits, leading and trailing zeros, flipped digits and hash relations are mapped under every supported fan-out; a table from path to identifier is the oracle of injectivity, the path of the first identifier that of the length. distinct = distinct (type, fan-out, identifier) mapped. Every fan-out in [0,65535] outside the supported ones and malformed identifiers of every kind must be refused in bounded time.",
		Cases: c07Cases,
	})
	probes["fanout"] = probeFanout
}

// expected path lengths: enough digits for every identifier
func denseLen(f int) int {
	n, l := 1, 0
	for n <= 999999999 {
		n *= f
		l++
	}
	return l
}

// pathMonitor checks every mapped identifier.
type pathMonitor struct {
	c     *Ctx
	name  string
	f     int
	path  func(string) []uint16
	seen  map[string]string
	len   int
	n     int
	again []string
	kept  [][]uint16 // returned earlier, with what they were
	was   []string
}

func (m *pathMonitor) see(id string) bool {
	p := m.path(id)
	m.n++
	if m.len == 0 {
		m.len = len(p)
	}
	if len(p) != m.len || len(p) == 0 {
		m.c.Fail("%s: path of %s has %d steps, of other identifiers %d", m.name, id, len(p), m.len)
		return false
	}
	b := make([]byte, 2*len(p))
	for i, s := range p {
		if int(s) >= m.f {
			m.c.Fail("%s: path of %s has step %d", m.name, id, s)
			return false
		}
		b[2*i], b[2*i+1] = byte(s>>8), byte(s)
	}
	if other, ok := m.seen[string(b)]; ok && other != id {
		m.c.Fail("%s: identifiers %s and %s have the same path %v", m.name, other, id, p)
		return false
	}
	m.seen[string(b)] = id
	if m.n%97 == 0 && len(m.again) < 500 {
		m.again = append(m.again, id)
	}
	if len(m.kept) < 50 || m.n%97 == 0 && len(m.kept) < 2000 {
		m.kept, m.was = append(m.kept, p), append(m.was, string(b))
	}
	return true
}

// stable checks that paths stay what they were when returned, whatever was mapped since.
func (m *pathMonitor) stable() bool {
	for k, p := range m.kept {
		b := make([]byte, 2*len(p))
		for i, s := range p {
			b[2*i], b[2*i+1] = byte(s>>8), byte(s)
		}
		if !m.c.Check(string(b) == m.was[k], "%s: the path returned for %s turned into %v when other identifiers were mapped", m.name, m.seen[m.was[k]], p) {
			return false
		}
	}
	return true
}

func (m *pathMonitor) done(path2 func(string) []uint16) {
	if !m.stable() {
		return
	}
	m.c.Saw("paths kept and compared", len(m.kept))
	// determinism, also of a second function for the same fan-out
	for _, id := range m.again {
		a, b := m.path(id), path2(id)
		if !m.c.Check(fmt.Sprint(a) == fmt.Sprint(b), "%s: two paths for %s: %v, %v", m.name, id, a, b) {
			return
		}
	}
	m.c.EvalN(m.n)
	m.c.Saw("identifiers mapped", len(m.seen))
	for _, id := range m.seen {
		m.c.Distinct("%s %s", m.name, id)
	}
}

func c07Cases(p Plan) []Case {
	var cases []Case
	add := func(name string, f func(*Ctx)) { cases = append(cases, Case{Name: name, Run: f}) }
	for _, f := range fanouts {
		f := f
		add(fmt.Sprintf("dense/%d", f), func(c *Ctx) {
			path := sparse.DigitPath(uint16(f))
			m := &pathMonitor{c: c, name: fmt.Sprintf("dense f=%d", f), f: f, path: path, seen: map[string]string{}}
			see := func(n int64) bool {
				if n < 0 || n > 999999999 {
					return true
				}
				return m.see(fmt.Sprintf("%09d", n))
			}
			if !see(0) || !see(999999999) {
				return
			}
			block := int64(p.Pick(60000, 1000000))
			// blocks at the ends and around powers of the fan-out
			starts := []int64{0, 999999999 - block, c.R.Int63n(1000000000)}
			for _, s := range starts {
				for n := s; n < s+block; n++ {
					if !see(n) {
						return
					}
				}
			}
			for i := 0; i < p.Pick(300, 3000); i++ {
				base := c.R.Int63n(1000000000)
				pw := int64(1)
				for pw <= 999999999 {
					for _, d := range []int64{-2, -1, 0, 1, 2} {
						if !see(base+d*pw) || !see(d*pw) || !see(pw*int64(c.R.Intn(f+1))) || !see(base/pw*pw) || !see(base%pw) || !see(pw-1+d) {
							return
						}
					}
					pw *= int64(f)
				}
			}
			// digits repeated and moved
			for i := 0; i < p.Pick(2000, 20000); i++ {
				b := []byte(randDenseID(c.R))
				for k := 0; k < 3; k++ {
					b[c.R.Intn(9)] = "0123456789"[c.R.Intn(10)]
					if !m.see(string(b)) {
						return
					}
				}
				if !m.see(string(append(append([]byte{}, b[1:]...), '0'))) || !m.see("0"+string(b[:8])) {
					return
				}
			}
			c.Check(m.len >= denseLen(f), "dense f=%d: %d steps cannot tell 10^9 identifiers apart", f, m.len)
			c.Check(m.len == sparse.DigitPathLen(uint16(f)), "dense f=%d: DigitPathLen is %d but paths have %d steps", f, sparse.DigitPathLen(uint16(f)), m.len)
			m.done(sparse.DigitPath(uint16(f)))
			c.Sample("fan-out %d: %d identifiers, path length %d, 000000001 -> %v", f, len(m.seen), m.len, path("000000001"))
			malformed(c, m.name, path, []string{"", "0", "12345678", "1234567890", "0123456789", "-12345678", "+12345678", "12345678a", "a12345678",
				"0x1234567", "1_2345678", "12345.678", " 12345678", "12345678 ", "1234 5678", "12345678\n", "１２３", "1e8000000", "\x00\x00\x00\x00\x00\x00\x00\x00\x00",
				strings.Repeat("1", 64), strings.Repeat("9", 1000), "ffffffffff", "0b1010101", "0o7777777", "𝟏𝟐3", "--------1", "+00000001", "-00000000", "+00000000",
				" 123456789", "123456789 ", "123456789\n", "\t123456789\r\n", "123456789\x00", "+123456789", "-123456789", "0x123456789", "123_456_789", "123,456,789", "123 456 789", "123-45-6789",
				"123456789.", "123456789.0", "000123456789", "\"123456789\"", "1234567８9", "12345６"})
			for i := 0; i < 300; i++ {
				b := []byte(randDenseID(c.R))
				b[c.R.Intn(9)] = byte(c.R.Intn(256))
				if _, err := strconv.ParseUint(string(b), 10, 32); err == nil && len(b) == 9 {
					continue
				}
				malformed(c, m.name, path, []string{string(b)})
			}
		})
		add(fmt.Sprintf("sparse/%d", f), func(c *Ctx) {
			path := sparse.HexId2PathForFanOut(uint16(f))
			m := &pathMonitor{c: c, name: fmt.Sprintf("sparse f=%d", f), f: f, path: path, seen: map[string]string{}}
			flip := func(id string, i int) string {
				b := []byte(id)
				for {
					x := "0123456789abcdef"[c.R.Intn(16)]
					if x != b[i] {
						b[i] = x
						return string(b)
					}
				}
			}
			sha := func(id string) string {
				d := realsha.Sum256([]byte(id))
				return hex.EncodeToString(d[:])
			}
			shaRaw := func(id string) string {
				raw, _ := hex.DecodeString(id)
				d := realsha.Sum256(raw)
				return hex.EncodeToString(d[:])
			}
			ids := []string{strings.Repeat("0", 64), strings.Repeat("f", 64), strings.Repeat("0", 63) + "1", "1" + strings.Repeat("0", 63)}
			for i := 0; i < p.Pick(60, 600); i++ {
				ids = append(ids, randHexID(c.R))
			}
			for i := 0; i < 64; i++ { // small numbers, also shifted
				ids = append(ids, strings.Repeat("0", i)+strings.Repeat("1", 64-i), strings.Repeat("a", i)+strings.Repeat("0", 64-i))
			}
			// one digit moved through zeros
			for i := 0; i < 64; i++ {
				ids = append(ids, strings.Repeat("0", i)+"7"+strings.Repeat("0", 63-i))
			}
			for _, id := range ids {
				if !m.see(id) || !m.see(sha(id)) || !m.see(sha(sha(id))) || !m.see(shaRaw(id)) || !m.see(id[1:]+id[:1]) || !m.see(reverse(id)) {
					return
				}
				for k := 0; k < 6; k++ {
					if !m.see(flip(id, c.R.Intn(64))) {
						return
					}
				}
				if !m.see(flip(id, 0)) || !m.see(flip(id, 63)) {
					return
				}
			}
			c.Check(m.len == sparse.ExpectedHexPathLengthByFanOut[uint16(f)], "sparse f=%d: paths of %d steps, expected %d", f, m.len, sparse.ExpectedHexPathLengthByFanOut[uint16(f)])
			// short of collisions, which nobody will see: the steps that tell paths apart
			var paths []string
			for p := range m.seen {
				paths = append(paths, p)
			}
			telling := 0
			for i := 0; i < m.len; i++ {
				varies, copies := false, -1
				for _, p := range paths {
					if p[2*i:2*i+2] != paths[0][2*i:2*i+2] {
						varies = true
						break
					}
				}
				for j := 0; j < i && varies && copies < 0; j++ {
					same := true
					for _, p := range paths {
						if p[2*i:2*i+2] != p[2*j:2*j+2] {
							same = false
							break
						}
					}
					if same {
						copies = j
					}
				}
				if varies && copies < 0 {
					telling++
				}
			}
			bits := float64(telling) * gomath.Log2(float64(f))
			c.Check(bits >= 240, "sparse f=%d: only %d of %d steps tell the paths of %d identifiers apart", f, telling, m.len, len(paths))
			m.done(sparse.HexId2PathForFanOut(uint16(f)))
			c.Sample("fan-out %d: %d identifiers, path length %d", f, len(m.seen), m.len)
			ok := strings.Repeat("ab", 32)
			malformed(c, m.name, path, []string{"", "ab", ok[1:], ok[2:], ok + "a", ok + "ab", "g" + ok[1:], ok[:63] + "g", "0x" + ok[2:], "-" + ok[1:], "+" + ok[1:], " " + ok[1:],
				ok[:63] + " ", ok[:63] + "\n", "123456789", strings.Repeat("ab", 64), ok[:30] + "_" + ok[31:], strings.Repeat("é", 32), strings.Repeat("\x00", 64), strings.Repeat("\x00", 32),
				" " + ok, ok + " ", ok + "\n", "\t" + ok + "\r\n", ok + "\x00", "0x" + ok, "0X" + ok, "#" + ok, "+" + ok, "-" + ok, "\"" + ok + "\"", ok + "h", "00" + ok, ok + "00",
				strings.TrimSuffix(strings.Repeat("ab:", 32), ":"), strings.TrimSuffix(strings.Repeat("ab-", 32), "-"), strings.TrimSuffix(strings.Repeat("ab ", 32), " "), ok[:32] + " " + ok[32:], ok[:32] + "-" + ok[32:]})
			for i := 0; i < 300; i++ {
				b := []byte(randHexID(c.R))
				b[c.R.Intn(64)] = byte(c.R.Intn(256))
				if _, err := hex.DecodeString(string(b)); err == nil {
					continue
				}
				malformed(c, m.name, path, []string{string(b)})
			}
		})
	}
	add("constructor", func(c *Ctx) {
		for _, f := range []int{3, 7, 15, 31} {
			for _, t := range []pol.TreeType{pol.Dense, pol.Sparse} {
				path, pp := pol.GeneratePublicParams(uint16(f), t)
				var want []uint16
				id := randDenseID(c.R)
				if t == pol.Dense {
					want = sparse.DigitPath(uint16(f))(id)
				} else {
					id = randHexID(c.R)
					want = sparse.HexId2PathForFanOut(uint16(f))(id)
				}
				c.Check(fmt.Sprint(path(id)) == fmt.Sprint(want), "GeneratePublicParams(%d): another path for %s", f, id)
				c.Check(pp.Fanout == f, "GeneratePublicParams(%d): fan-out %d", f, pp.Fanout)
			}
		}
	})
	add("power-of-two", func(c *Ctx) {
		for n := 0; n < 65536; n++ {
			n := n
			want := n >= 2 && n&(n-1) == 0
			var got bool
			if n == 0 {
				if !within(20*time.Second, func() { got = common.IsPowerOfTwo(0) }) {
					c.Fail("IsPowerOfTwo(0) does not terminate")
					return
				}
			} else {
				got = common.IsPowerOfTwo(uint16(n))
			}
			if n == 1 { // 2^0: the code does not want it, and neither answer is relied on
				continue
			}
			if !c.Check(got == want, "IsPowerOfTwo(%d) = %v", n, got) {
				return
			}
		}
	})
	// unsupported fan-outs, in a process of its own as they may hang
	parts := 8
	for i := 0; i < parts; i++ {
		i := i
		add(fmt.Sprintf("fanouts/%d", i), func(c *Ctx) {
			cmd := exec.Command(os.Args[0], "-probe", "fanout", strconv.Itoa(i), strconv.Itoa(parts))
			var out strings.Builder
			cmd.Stdout, cmd.Stderr = &out, &out
			if err := cmd.Start(); err != nil {
				panic(err)
			}
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			var err error
			select {
			case err = <-done:
			case <-time.After(180 * time.Second):
				cmd.Process.Kill()
				<-done
				c.Fail("an unsupported fan-out is not refused in bounded time: %s", tail(out.String(), 200))
				return
			}
			n := strings.Count(out.String(), "refused")
			c.EvalN(n)
			c.Saw("unsupported fan-outs refused", n)
			if err != nil {
				c.Fail("unsupported fan-outs: %s", tail(out.String(), 600))
			}
		})
	}
	return cases
}

func reverse(s string) string {
	b := []byte(s)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	return string(b)
}

func malformed(c *Ctx, name string, path func(string) []uint16, ids []string) {
	for _, id := range ids {
		id := id
		var got []uint16
		var refused bool
		if !within(30*time.Second, func() { refused = catch(func() { got = path(id) }) != nil }) {
			c.Fail("%s: malformed identifier %q is not refused in bounded time", name, id)
			return
		}
		c.Saw("malformed identifiers refused", 1)
		if !c.Check(refused || len(got) == 0, "%s: malformed identifier %q is given the path %v", name, id, got) {
			return
		}
	}
}

// probeFanout walks through a part of the unsupported fan-outs.
func probeFanout(args []string) int {
	part, _ := strconv.Atoi(args[0])
	parts, _ := strconv.Atoi(args[1])
	bad := 0
	var mu sync.Mutex
	for f := part; f < 65536; f += parts {
		n := f + 1
		pow2 := n&(n-1) == 0
		if pow2 && f >= 3 && f <= 16383 { // supported for one type at least
			continue
		}
		mu.Lock()
		fmt.Printf("%d dense ", f)
		// every decimal tree with a fan-out of the form 2^k-1 would do
		if !(pow2 && f >= 3 && f < 65535) {
			if catch(func() { sparse.DigitPath(uint16(f)) }) == nil {
				fmt.Printf("DigitPath(%d) is not refused\n", f)
				bad++
			}
		}
		fmt.Printf("sparse ")
		if catch(func() { sparse.HexId2PathForFanOut(uint16(f)) }) == nil {
			fmt.Printf("HexId2PathForFanOut(%d) is not refused\n", f)
			bad++
		}
		// the constructor computes parameters only once it has accepted the fan-out
		if f < 40 || f > 65500 || f%4097 == 0 {
			for _, t := range []pol.TreeType{pol.Dense, pol.Sparse} {
				if t == pol.Dense && pow2 && f >= 3 {
					continue
				}
				if catch(func() { pol.GeneratePublicParams(uint16(f), t) }) == nil {
					fmt.Printf("GeneratePublicParams(%d, %v) is not refused\n", f, t)
					bad++
				}
			}
		}
		fmt.Println("refused")
		mu.Unlock()
		if bad > 3 {
			break
		}
	}
	if bad > 0 {
		return 1
	}
	return 0
}
