package main

import (
	"encoding/hex"
	"fmt"
	"reflect"
	"strings"
	"unicode"
	"unicode/utf8"
	"unsafe"

	math "github.com/IBM/mathlib"
)

// A Slot is a place within an object graph, found by type and not by name, that
// holds a group element, a scalar, a number, a list or a pointer.
type Slot struct {
	Path  string
	Owner string        // the struct type the slot is a field of
	V     reflect.Value // settable
}

var (
	tG1  = reflect.TypeOf((*math.G1)(nil))
	tG2  = reflect.TypeOf((*math.G2)(nil))
	tGt  = reflect.TypeOf((*math.Gt)(nil))
	tZr  = reflect.TypeOf((*math.Zr)(nil))
	tByt = reflect.TypeOf([]byte(nil))
)

func open(v reflect.Value) reflect.Value {
	if v.CanSet() || !v.CanAddr() {
		return v
	}
	return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
}

// slots lists the slots below *ptr. Maps and functions are not entered.
func slots(ptr interface{}) []Slot {
	var res []Slot
	seen := map[uintptr]bool{}
	var walk func(path, owner string, v reflect.Value)
	walk = func(path, owner string, v reflect.Value) {
		v = open(v)
		switch v.Type() {
		case tG1, tG2, tGt, tZr, tByt:
			res = append(res, Slot{path, owner, v})
			return
		}
		switch v.Kind() {
		case reflect.Ptr:
			res = append(res, Slot{path, owner, v})
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			walk(path, owner, v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(path+"."+v.Type().Field(i).Name, v.Type().String(), v.Field(i))
			}
		case reflect.Slice:
			res = append(res, Slot{path, owner, v})
			for i := 0; i < v.Len(); i++ {
				walk(fmt.Sprintf("%s[%d]", path, i), owner, v.Index(i))
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				walk(fmt.Sprintf("%s[%d]", path, i), owner, v.Index(i))
			}
		case reflect.Int, reflect.Int64, reflect.Uint16, reflect.Int32, reflect.Uint64, reflect.Bool, reflect.String:
			res = append(res, Slot{path, owner, v})
		}
	}
	walk("", "", reflect.ValueOf(ptr).Elem())
	return res
}

// elements lists the group elements and scalars below *ptr.
func elements(ptr interface{}) []Slot {
	var res []Slot
	for _, s := range slots(ptr) {
		switch s.V.Type() {
		case tG1, tG2, tGt, tZr:
			res = append(res, s)
		}
	}
	return res
}

// find returns the slot with the path, or nil.
func find(ptr interface{}, path string) *Slot {
	for _, s := range slots(ptr) {
		if s.Path == path {
			s := s
			return &s
		}
	}
	return nil
}

func (s Slot) G1() *math.G1 { return s.V.Interface().(*math.G1) }
func (s Slot) Zr() *math.Zr { return s.V.Interface().(*math.Zr) }

// repr is a canonical text of what a slot holds (structure of lists excluded).
func (s Slot) repr() string {
	switch s.V.Type() {
	case tG1, tG2, tGt, tZr:
		if s.V.IsNil() {
			return "nil"
		}
	}
	switch s.V.Type() {
	case tG1:
		return "G1:" + hex.EncodeToString(s.V.Interface().(*math.G1).Bytes())
	case tG2:
		return "G2:" + hex.EncodeToString(s.V.Interface().(*math.G2).Bytes())
	case tGt:
		return "Gt:" + hex.EncodeToString(s.V.Interface().(*math.Gt).Bytes())
	case tZr:
		return "Zr:" + s.V.Interface().(*math.Zr).String()
	case tByt:
		return "b:" + hex.EncodeToString(s.V.Interface().([]byte))
	}
	switch s.V.Kind() {
	case reflect.Ptr:
		return fmt.Sprintf("ptr nil=%v", s.V.IsNil())
	case reflect.Slice:
		return fmt.Sprintf("len=%d", s.V.Len())
	}
	return fmt.Sprint(s.V.Interface())
}

// Snapshot is the canonical content of an object graph.
type Snapshot map[string]string

func snapshot(ptr interface{}) Snapshot {
	res := Snapshot{}
	for _, s := range slots(ptr) {
		res[s.Path] = s.repr()
	}
	return res
}

// diff names a slot of the earlier snapshot which the later one lacks or has
// another content of. Slots that only appeared later do not count, nor do unexported
// fields that were empty: they may keep what was computed once.
func (a Snapshot) diff(b Snapshot) string {
	for p, v := range a {
		w, ok := b[p]
		if !ok {
			return p + " disappeared"
		}
		if v != w && !(emptySlot[v] && unexported(p)) {
			return fmt.Sprintf("%s changed from %s to %s", p, clip(v, 80), clip(w, 80))
		}
	}
	return ""
}

var emptySlot = map[string]bool{"nil": true, "ptr nil=true": true, "b:": true, "len=0": true, "0": true, "false": true, "": true}

// unexported says whether a path leads through an unexported field.
func unexported(path string) bool {
	for _, f := range strings.Split(path, ".")[1:] {
		if r, _ := utf8.DecodeRuneInString(f); !unicode.IsUpper(r) {
			return true
		}
	}
	return false
}

// clone copies an object graph deeply. T must be a pointer type.
func clone[T any](x *T) *T {
	memo := map[uintptr]reflect.Value{}
	var cp func(dst, src reflect.Value)
	cp = func(dst, src reflect.Value) {
		src = open(src)
		dst = open(dst)
		switch src.Type() {
		case tG1:
			if !src.IsNil() {
				dst.Set(reflect.ValueOf(src.Interface().(*math.G1).Copy()))
			}
			return
		case tG2:
			if !src.IsNil() {
				dst.Set(reflect.ValueOf(src.Interface().(*math.G2).Copy()))
			}
			return
		case tZr:
			if !src.IsNil() {
				dst.Set(reflect.ValueOf(src.Interface().(*math.Zr).Copy()))
			}
			return
		case tGt:
			if !src.IsNil() {
				g, err := curve.NewGtFromBytes(src.Interface().(*math.Gt).Bytes())
				if err != nil {
					panic(err)
				}
				dst.Set(reflect.ValueOf(g))
			}
			return
		}
		switch src.Kind() {
		case reflect.Ptr:
			if src.IsNil() {
				return
			}
			if m, ok := memo[src.Pointer()]; ok {
				dst.Set(m)
				return
			}
			n := reflect.New(src.Type().Elem())
			memo[src.Pointer()] = n
			cp(n.Elem(), src.Elem())
			dst.Set(n)
		case reflect.Struct:
			dst.Set(src)
			for i := 0; i < src.NumField(); i++ {
				cp(dst.Field(i), src.Field(i))
			}
		case reflect.Slice:
			if src.IsNil() {
				return
			}
			n := reflect.MakeSlice(src.Type(), src.Len(), src.Len())
			for i := 0; i < src.Len(); i++ {
				cp(n.Index(i), src.Index(i))
			}
			dst.Set(n)
		case reflect.Array:
			for i := 0; i < src.Len(); i++ {
				cp(dst.Index(i), src.Index(i))
			}
		default:
			dst.Set(src)
		}
	}
	res := new(T)
	cp(reflect.ValueOf(res).Elem(), reflect.ValueOf(x).Elem())
	return res
}

// redundant says whether a slot of a liability proof (or a part of one) holds
// what the verifier recomputes and never reads: the commitment and product
// embedded in inner product proofs, and the digest below a leaf.
func redundant(s Slot, pathLen int) bool {
	if s.Owner == "bp.InnerProductProof" && (strings.HasSuffix(s.Path, ".P") || strings.HasSuffix(s.Path, ".C")) {
		return true
	}
	return s.Path == fmt.Sprintf(".Digests[%d]", pathLen-1)
}

func reflectOf(x interface{}) reflect.Value { return reflect.ValueOf(x) }

// alterations of one element of a proof, other than itself.
type alteration struct {
	name string
	set  func()
	undo func()
}

// alter lists changes of the slot, given elements of other proofs of the kind.
func alter(s Slot, donors []reflect.Value) []alteration {
	old := s.V.Interface()
	undo := func() { s.V.Set(reflect.ValueOf(old)) }
	var res []alteration
	put := func(name string, x interface{}, same bool) {
		if !same {
			res = append(res, alteration{s.Path + " " + name, func() { s.V.Set(reflect.ValueOf(x)) }, undo})
		}
	}
	switch s.V.Type() {
	case tG1:
		g := s.G1()
		if g == nil {
			return nil
		}
		put("shifted", plusG(g, curve.GenG1), false)
		put("identity", inf(), g.IsInfinity())
		put("negated", minusG(inf(), g), g.IsInfinity())
		put("doubled", plusG(g, g), g.IsInfinity())
		for _, d := range donors {
			if d.Type() == tG1 && !d.IsNil() {
				x := d.Interface().(*math.G1)
				put("of another proof", x.Copy(), x.Equals(g))
			}
		}
	case tZr:
		x := s.Zr()
		if x == nil {
			return nil
		}
		put("plus one", addZ(x, zr(1)), false)
		put("zero", zr(0), zint(x).Sign() == 0)
		put("negated", negZ(x), zint(x).Sign() == 0)
		put("doubled", addZ(x, x), zint(x).Sign() == 0)
		for _, d := range donors {
			if d.Type() == tZr && !d.IsNil() {
				y := d.Interface().(*math.Zr)
				put("of another proof", y.Copy(), eqZ(y, x))
			}
		}
	}
	return res
}

// tamper applies every alteration of every element below *ptr (those skip
// names excepted), and the exchange of neighbouring elements, and says which
// alterations the verifier accepts.
func tamper(c *Ctx, what string, ptr interface{}, other interface{}, skip func(Slot) bool, limit int, verify func() error) {
	els := elements(ptr)
	donor := map[string]reflect.Value{}
	if other != nil {
		for _, s := range elements(other) {
			donor[s.Path] = s.V
		}
	}
	type job struct {
		name      string
		set, undo func()
	}
	var jobs []job
	for i, s := range els {
		if skip != nil && skip(s) {
			continue
		}
		var ds []reflect.Value
		if d, ok := donor[s.Path]; ok {
			ds = append(ds, d)
		}
		for _, a := range alter(s, ds) {
			jobs = append(jobs, job{a.name, a.set, a.undo})
		}
		// exchange with the next element of the type
		for j := i + 1; j < len(els); j++ {
			t := els[j]
			if t.V.Type() != s.V.Type() || skip != nil && skip(t) || s.V.IsNil() || t.V.IsNil() {
				continue
			}
			if s.repr() == t.repr() {
				break
			}
			s, t := s, t
			swap := func() {
				a, b := s.V.Interface(), t.V.Interface()
				s.V.Set(reflect.ValueOf(b))
				t.V.Set(reflect.ValueOf(a))
			}
			jobs = append(jobs, job{s.Path + " exchanged with " + t.Path, swap, swap})
			break
		}
	}
	if limit > 0 && len(jobs) > limit {
		c.R.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
		jobs = jobs[:limit]
	}
	// lists that lost or gained something
	for _, m := range structural(ptr, -1) {
		if m.resizes && !m.redundant {
			jobs = append(jobs, job{m.name, m.set, m.undo})
		}
	}
	for _, j := range jobs {
		j.set()
		var err error
		p := catch(func() { err = verify() })
		j.undo()
		c.Eval()
		c.Saw("altered proofs judged", 1)
		c.Distinct("%s %s", what, j.name)
		if p == nil && err == nil {
			c.Fail("%s: accepted with %s", what, j.name)
			return
		}
	}
}
