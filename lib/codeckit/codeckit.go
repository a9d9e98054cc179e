// Package codeckit checks the binary codec of a record type: every value of a bounded space of
// values decodes to what was encoded through every entry point, and no truncated or foreign
// input crashes or takes memory out of proportion.
package codeckit

import (
	"bytes"
	"common/util"
	"common/vkit"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"strings"

	"github.com/tinylib/msgp/msgp"
)

// Codec is what every generated record implements
type Codec interface {
	msgp.Marshaler
	msgp.Unmarshaler
	msgp.Encodable
	msgp.Decodable
	msgp.Sizer
}

// Rec is one record type
type Rec struct {
	Name string
	New  func() Codec
	// Carried marks a field which is not part of the encoding by design
	Carried func(path string) bool
}

type leaf struct {
	path  string
	index [][]int // index of the fields from the root on, one entry per pointer crossed
	typ   reflect.Type
}

func leaves(t reflect.Type, path string, pre [][]int, skip func(string) bool, out *[]leaf) {
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		p := path + "." + f.Name
		if skip != nil && skip(p) {
			continue
		}
		idx := append(append([][]int{}, pre...), []int{i})
		ft := f.Type
		if ft.Kind() == reflect.Pointer && ft.Elem().Kind() == reflect.Struct {
			*out = append(*out, leaf{path: p, index: idx, typ: ft})
			leaves(ft.Elem(), p, idx, skip, out)
			continue
		}
		if ft.Kind() == reflect.Struct {
			leaves(ft, p, idx, skip, out)
			continue
		}
		*out = append(*out, leaf{path: p, index: idx, typ: ft})
	}
}

// at returns the field, creating the pointers on the way
func at(v reflect.Value, l leaf) reflect.Value {
	for i, ix := range l.index {
		v = v.FieldByIndex(ix)
		if i < len(l.index)-1 && v.Kind() == reflect.Pointer {
			if v.IsNil() {
				v.Set(reflect.New(v.Type().Elem()))
			}
			v = v.Elem()
		}
	}
	return v
}

func set(root Codec, l leaf, val any) {
	f := at(reflect.ValueOf(root).Elem(), l)
	if val == nil {
		f.Set(reflect.Zero(f.Type()))
		return
	}
	if f.Kind() == reflect.Pointer {
		if f.IsNil() {
			f.Set(reflect.New(f.Type().Elem()))
		}
		return
	}
	f.Set(reflect.ValueOf(val).Convert(f.Type()))
}

// values are the boundary values of a leaf
func values(t reflect.Type, thorough bool) (res []any) {
	switch t.Kind() {
	case reflect.Pointer:
		return []any{nil, true}
	case reflect.Bool:
		return []any{false, true}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		bits := uint(t.Bits())
		seen := map[int64]bool{}
		for _, e := range []uint{0, 1, 4, 5, 7, 8, 15, 16, 23, 24, 31, 32, 47, 53, 63} {
			for d := int64(-1); d <= 1; d++ {
				for _, s := range []int64{1, -1} {
					var v int64
					if e == 63 {
						if s > 0 {
							v = math.MaxInt64 - 1 + (d+1)/2
						} else {
							v = math.MinInt64 + (d+1)/2
						}
					} else {
						v = s * (int64(1)<<e + d)
					}
					if v > int64(1)<<(bits-1)-1 || v < -int64(1)<<(bits-1) {
						continue
					}
					if !seen[v] {
						seen[v] = true
						res = append(res, v)
					}
				}
			}
		}
		return append(res, int64(1)<<(bits-1)-1, -int64(1)<<(bits-1))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		bits := uint(t.Bits())
		seen := map[uint64]bool{}
		for _, e := range []uint{0, 1, 4, 5, 7, 8, 15, 16, 23, 24, 31, 32, 47, 53, 63} {
			for d := -1; d <= 1; d++ {
				v := uint64(int64(uint64(1)<<e)) + uint64(int64(d))
				if bits < 64 && v >= 1<<bits {
					continue
				}
				if !seen[v] {
					seen[v] = true
					res = append(res, v)
				}
			}
		}
		return append(res, uint64(math.MaxUint64)>>(64-bits))
	case reflect.Float64, reflect.Float32:
		return []any{0.0, math.Copysign(0, -1), 1.0, -1.5, 99.99999999999999, math.MaxFloat64, math.SmallestNonzeroFloat64,
			math.Inf(1), math.Inf(-1), math.NaN(), 0.1, float64(1 << 53)}
	case reflect.String:
		res = []any{"", "a", "b", "\x00", "\xff\xfe", "日本", "a b/c\n"}
		for _, n := range []int{30, 31, 32, 33, 255, 256, 257, 65535, 65536} {
			res = append(res, strings.Repeat("x", n-1)+"y")
		}
		return
	case reflect.Slice:
		if t.Elem().Kind() != reflect.String {
			panic("no values for " + t.String())
		}
		res = []any{nil, []string{}, []string{""}, []string{"a"}, []string{"a", "b"}, []string{"b", "a"}, []string{"a", "", "a"},
			[]string{strings.Repeat("z", 300), "q"}}
		ns := []int{15, 16, 17, 255, 256}
		if thorough {
			ns = append(ns, 65535, 65536)
		}
		for _, n := range ns {
			s := make([]string, n)
			for i := range s {
				s[i] = fmt.Sprint(i)
			}
			res = append(res, s)
		}
		return
	}
	panic("no values for " + t.String())
}

// three are the values of the pairwise enumeration
func three(t reflect.Type, k int) []any {
	switch t.Kind() {
	case reflect.Pointer:
		return []any{nil, true}
	case reflect.Bool:
		return []any{false, true}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return []any{int64(0), -int64(k%100) - 1, int64(1)<<(t.Bits()-1) - 1}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return []any{uint64(0), uint64(k%100) + 1, uint64(math.MaxUint64) >> (64 - t.Bits())}
	case reflect.Float64, reflect.Float32:
		return []any{0.0, float64(k) + 0.5, math.Inf(-1)}
	case reflect.String:
		return []any{"", fmt.Sprintf("s%d", k), strings.Repeat(fmt.Sprintf("%02d", k), 20)}
	case reflect.Slice:
		return []any{nil, []string{fmt.Sprintf("e%d", k)}, []string{"", fmt.Sprintf("f%d", k), fmt.Sprintf("g%d", k)}}
	}
	panic("no values for " + t.String())
}

// same compares two records; an empty list equals none, numbers are compared by their bits
func same(a, b reflect.Value, path string, skip func(string) bool) string {
	switch a.Kind() {
	case reflect.Pointer:
		if a.IsNil() || b.IsNil() {
			if a.IsNil() != b.IsNil() {
				return fmt.Sprintf("%s: nil=%v became nil=%v", path, a.IsNil(), b.IsNil())
			}
			return ""
		}
		return same(a.Elem(), b.Elem(), path, skip)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			p := path + "." + a.Type().Field(i).Name
			if skip != nil && skip(p) {
				continue
			}
			if s := same(a.Field(i), b.Field(i), p, skip); s != "" {
				return s
			}
		}
		return ""
	case reflect.Slice:
		if a.Len() != b.Len() {
			return fmt.Sprintf("%s: %d elements became %d", path, a.Len(), b.Len())
		}
		for i := 0; i < a.Len(); i++ {
			if s := same(a.Index(i), b.Index(i), fmt.Sprintf("%s[%d]", path, i), skip); s != "" {
				return s
			}
		}
		return ""
	case reflect.Float64, reflect.Float32:
		if math.Float64bits(a.Float()) != math.Float64bits(b.Float()) {
			return fmt.Sprintf("%s: %v became %v", path, a.Float(), b.Float())
		}
		return ""
	}
	if a.Interface() != b.Interface() {
		return fmt.Sprintf("%s: %.60q became %.60q", path, fmt.Sprint(a.Interface()), fmt.Sprint(b.Interface()))
	}
	return ""
}

func (r Rec) same(a, b Codec) string {
	return same(reflect.ValueOf(a), reflect.ValueOf(b), "", r.Carried)
}

func (r Rec) leaves() (l []leaf) {
	leaves(reflect.TypeOf(r.New()).Elem(), "", nil, r.Carried, &l)
	return
}

// full is a record with a different value in every field
func (r Rec) full(seed int) Codec {
	v := r.New()
	for i, l := range r.leaves() {
		vs := three(l.typ, i+seed)
		set(v, l, vs[len(vs)-1])
		if len(vs) == 3 {
			set(v, l, vs[1])
		}
	}
	return v
}

func enc(v Codec) []byte {
	b, err := util.EncodeMsgp(v)
	if err != nil {
		panic(fmt.Sprintf("encoding failed: %v", err))
	}
	return b
}

// Round checks that v survives every way of encoding and decoding
func (r Rec) Round(v Codec) error {
	b, err := util.EncodeMsgp(v)
	if err != nil {
		return fmt.Errorf("encoding failed: %v", err)
	}
	if len(b) > v.Msgsize() {
		return fmt.Errorf("the encoding has %d bytes, announced at most %d", len(b), v.Msgsize())
	}
	pre, err := v.MarshalMsg([]byte("before"))
	if err != nil || !bytes.HasPrefix(pre, []byte("before")) || !bytes.Equal(pre[6:], b) {
		return fmt.Errorf("appending the encoding gives other bytes (%v)", err)
	}
	var w bytes.Buffer
	if err = msgp.Encode(&w, v); err != nil {
		return fmt.Errorf("stream encoding failed: %v", err)
	}
	for _, src := range []struct {
		name string
		b    []byte
	}{{"bytes", b}, {"stream", w.Bytes()}} {
		for _, dst := range []struct {
			name string
			v    Codec
		}{{"a fresh", r.New()}, {"a used", r.full(50)}} {
			in := append([]byte{}, src.b...)
			if err = util.DecodeMsgp(dst.v, in); err != nil {
				return fmt.Errorf("%s do not decode into %s record: %v", src.name, dst.name, err)
			}
			for i := range in {
				in[i] ^= 0x55 // the buffer belongs to the caller
			}
			if s := r.same(v, dst.v); s != "" {
				return fmt.Errorf("%s decoded into %s record: %s", src.name, dst.name, s)
			}
		}
		for _, dst := range []Codec{r.New(), r.full(50)} {
			if err = msgp.Decode(bytes.NewReader(src.b), dst); err != nil {
				return fmt.Errorf("%s do not decode from a stream: %v", src.name, err)
			}
			if s := r.same(v, dst); s != "" {
				return fmt.Errorf("%s decoded from a stream: %s", src.name, s)
			}
		}
	}
	d := r.New()
	rest, err := d.UnmarshalMsg(append(append([]byte{}, b...), "after"...))
	if err != nil || string(rest) != "after" {
		return fmt.Errorf("decoding leaves %q (%v), want \"after\"", rest, err)
	}
	return nil
}

func alloc() uint64 {
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return m.TotalAlloc
}

const maxAlloc = 64 << 20

// Check runs the whole enumeration for the records
func Check(c *vkit.Ctx, recs []Rec) {
	thorough := !c.Quick
	idx := 0
	mine := func() bool { idx++; return c.Mine(idx) && !c.Expired() }
	for _, r := range recs {
		r := r
		ls := r.leaves()
		// judge
		try := func(name string, mk func() Codec) {
			if !mine() {
				return
			}
			f := func() error { return r.Round(mk()) }
			c.Eval(r.Name + name)
			c.State(r.Name + name)
			c.Transition()
			if err := safe(f); err != nil {
				c.Fail("roundtrip/"+r.Name+"/"+strings.SplitN(name, "=", 2)[0], func() bool { return safe(f) != nil },
					"%s with %s: %v", r.Name, name, err)
			}
		}
		try("nothing set", r.New)
		try("all set", func() Codec { return r.full(0) })
		try("all set otherwise", func() Codec { return r.full(7) })
		for _, l := range ls {
			l := l
			for _, val := range values(l.typ, thorough) {
				val := val
				for _, base := range []string{"zero", "full"} {
					base := base
					try(fmt.Sprintf("%s=%.40v (others %s)", l.path, val, base), func() Codec {
						v := r.New()
						if base == "full" {
							v = r.full(0)
						}
						set(v, l, val)
						return v
					})
				}
			}
		}
		for i, a := range ls {
			for j, b := range ls[:i] {
				for _, va := range three(a.typ, i) {
					for _, vb := range three(b.typ, j) {
						a, b, va, vb := a, b, va, vb
						try(fmt.Sprintf("%s and %s=%.20v,%.20v", a.path, b.path, va, vb), func() Codec {
							v := r.full(0)
							set(v, b, vb)
							set(v, a, va)
							return v
						})
					}
				}
			}
		}
	}
	for _, r := range recs {
		r := r
		// inputs decoded here; one batch is judged for its memory
		decode := func(in []byte) (err error) {
			return safe(func() error {
				v := r.New()
				if e := util.DecodeMsgp(v, in); e == nil {
					// whatever was accepted is a record: it survives a round trip
					if e2 := r.Round(v); e2 != nil {
						return fmt.Errorf("accepted, but %v", e2)
					}
				} else {
					return nil
				}
				return nil
			})
		}
		batch := func(what string, ins [][]byte, judge func(in []byte) error) {
			if !mine() {
				return
			}
			before := alloc()
			for _, in := range ins {
				in := in
				c.Eval(r.Name + string(in))
				c.Transition()
				c.Cur("decode %s %s: %x", r.Name, what, head(in))
				if err := judge(in); err != nil {
					c.Fail("foreign/"+r.Name+"/"+what, func() bool { return judge(in) != nil }, "%s from %s %x (%d bytes): %v", r.Name, what, head(in), len(in), err)
				}
			}
			if alloc()-before <= maxAlloc {
				return
			}
			for _, in := range ins {
				in := in
				one := func() bool { b := alloc(); _ = judge(in); return alloc()-b > maxAlloc+uint64(200*len(in)) }
				if one() {
					c.Fail("memory/"+r.Name+"/"+what, one, "%s from %s %x (%d bytes): decoding takes more than %d MB", r.Name, what, head(in), len(in), maxAlloc>>20)
				}
			}
		}
		bases := [][]byte{enc(r.New()), enc(r.full(0)), enc(r.full(7))}
		for _, b := range bases {
			var hs, cuts, muts [][]byte
			for i := range b {
				cuts = append(cuts, b[:i])
				for _, h := range [][]byte{{0xdd, 1, 0, 0, 0}, {0xdf, 1, 0, 0, 0}, {0xdb, 1, 0, 0, 0}, {0xc6, 1, 0, 0, 0}, {0xc9, 1, 0, 0, 0}, {0xdc, 0xff, 0xff}, {0xc0}, {0x80}, {0x90}} {
					m := append(append([]byte{}, b[:i]...), h...)
					hs = append(hs, m, append(append([]byte{}, m...), b[i+1:]...))
				}
			}
			for n := 0; n < len(hs); n += 18 {
				batch("a record with a header replaced", hs[n:n+18], decode)
			}
			batch("a truncated record", cuts, func(in []byte) error {
				return safe(func() error {
					if err := util.DecodeMsgp(r.New(), in); err == nil {
						return fmt.Errorf("no error")
					}
					if err := msgp.Decode(bytes.NewReader(in), r.New()); err == nil {
						return fmt.Errorf("no error from the stream")
					}
					return nil
				})
			})
			for i := range b {
				muts = nil
				for x := 1; x < 256; x++ {
					m := append([]byte{}, b...)
					m[i] ^= byte(x)
					muts = append(muts, m)
				}
				batch("a record with one byte changed", muts, decode)
			}
		}
		for _, o := range recs {
			batch("an encoded "+o.Name, [][]byte{enc(o.New()), enc(o.full(0))}, decode)
		}
		batch("arbitrary bytes", [][]byte{{}}, decode)
		for x := 0; x < 256; x++ {
			ins := [][]byte{{byte(x)}}
			for y := 0; y < 256; y++ {
				ins = append(ins, []byte{byte(x), byte(y)})
				if thorough {
					for z := 0; z < 256; z++ {
						ins = append(ins, []byte{byte(x), byte(y), byte(z)})
					}
				}
			}
			batch("arbitrary bytes", ins, decode)
		}
	}
}

func head(b []byte) []byte {
	if len(b) > 48 {
		return b[:48]
	}
	return b
}

func safe(f func() error) (err error) {
	defer func() {
		if p := recover(); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
	}()
	return f()
}

// List checks the codec of lists of one record type
func List[T Codec](c *vkit.Ctx, r Rec, mk func() T) {
	thorough := !c.Quick
	idx := 0
	mine := func() bool { idx++; return c.Mine(idx) && !c.Expired() }
	vars := []T{}
	for i := 0; i < 4; i++ {
		v := mk()
		if i > 0 {
			v = Codec(r.full(i * 9)).(T)
		}
		if i == 3 {
			for _, l := range r.leaves() {
				if l.typ.Kind() == reflect.String {
					set(v, l, strings.Repeat("l", 70000))
				}
			}
		}
		vars = append(vars, v)
	}
	max := 3
	if thorough {
		max = 5
	}
	round := func(idx []int) error {
		var in []T
		for _, i := range idx {
			in = append(in, vars[i])
		}
		b, err := util.EncodeArrayMsgp(in)
		if err != nil {
			return fmt.Errorf("encoding failed: %v", err)
		}
		bb := append([]byte{}, b...)
		out, err := util.DecodeArrayMsgp(bb, mk)
		if err != nil {
			return fmt.Errorf("decoding failed: %v", err)
		}
		for i := range bb {
			bb[i] ^= 0x55
		}
		if len(out) != len(in) {
			return fmt.Errorf("%d records became %d", len(in), len(out))
		}
		for i := range in {
			if s := r.same(in[i], out[i]); s != "" {
				return fmt.Errorf("record %d: %s", i, s)
			}
		}
		return nil
	}
	var rec func(idx []int)
	rec = func(idx []int) {
		if mine() {
			idx := append([]int{}, idx...)
			c.Eval(r.Name + fmt.Sprint(idx))
			c.State(r.Name + fmt.Sprint(idx))
			f := func() error { return round(idx) }
			if err := safe(f); err != nil {
				c.Fail("list/"+r.Name, func() bool { return safe(f) != nil }, "list of %s %v: %v", r.Name, idx, err)
			}
		}
		if len(idx) == max {
			return
		}
		for i := range vars {
			rec(append(idx, i))
		}
	}
	rec(nil)
	var many []int
	for i := 0; i < 300; i++ {
		many = append(many, i%3)
	}
	if mine() {
		f := func() error { return round(many) }
		if err := safe(f); err != nil {
			c.Fail("list/"+r.Name, func() bool { return safe(f) != nil }, "list of 300 %s: %v", r.Name, err)
		}
	}
	small := vars[:3]
	b, err := util.EncodeArrayMsgp(small)
	if err != nil {
		c.Fail("list/"+r.Name, nil, "encoding a list of %s: %v", r.Name, err)
		return
	}
	ends := map[int]int{0: 0}
	for n, p := 1, small[:1]; n <= 3; n++ {
		p = small[:n]
		e, _ := util.EncodeArrayMsgp(p)
		ends[len(e)] = n
	}
	dec := func(in []byte, must int) error {
		return safe(func() error {
			a := alloc()
			out, err := util.DecodeArrayMsgp(append([]byte{}, in...), mk)
			if alloc()-a > maxAlloc {
				return fmt.Errorf("decoding takes more than %d MB", maxAlloc>>20)
			}
			if must == -1 && err == nil {
				return fmt.Errorf("no error, %d records", len(out))
			}
			if must >= 0 && (err != nil || len(out) != must) {
				return fmt.Errorf("%d whole records decoded to %d (%v)", must, len(out), err)
			}
			return nil
		})
	}
	judge := func(what string, in []byte, must int) {
		c.Eval(r.Name + "list" + string(in))
		c.Transition()
		c.Cur("list of %s, %s: %x", r.Name, what, head(in))
		if err := dec(in, must); err != nil {
			c.Fail("foreign-list/"+r.Name+"/"+what, func() bool { return dec(in, must) != nil }, "list of %s from %s %x (%d bytes): %v", r.Name, what, head(in), len(in), err)
		}
	}
	for i := 0; i <= len(b); i++ {
		if !mine() {
			continue
		}
		must := -1
		if n, ok := ends[i]; ok {
			must = n
		}
		judge("a truncated list", b[:i], must)
		if i == len(b) {
			continue
		}
		for x := 1; x < 256; x++ {
			m := append([]byte{}, b...)
			m[i] ^= byte(x)
			judge("a list with one byte changed", m, -2)
		}
		for _, size := range []uint64{0, 1, 1 << 20, 1<<31 - 1, 1 << 31, 1<<35 - 1, 1 << 63, math.MaxUint64} {
			m := append([]byte{}, b[:i]...)
			m = append(m, binary.AppendUvarint(nil, size)...)
			judge("a list with a size replaced", m, -2)
			judge("a list with a size replaced", append(m, b[i:]...), -2)
		}
	}
	for x := 0; x < 256; x++ {
		if !mine() {
			continue
		}
		for y := 0; y < 256; y += 5 {
			for n := 1; n < 8; n++ {
				judge("arbitrary bytes", append([]byte{byte(x)}, bytes.Repeat([]byte{byte(y)}, n)...), -2)
			}
		}
	}
}
