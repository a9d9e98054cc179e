package request_test

import (
	"common/request"
	"common/vkit"
	"fmt"
	"math/big"
	"strings"
	"testing"
)

type span2 struct {
	first, last *big.Int // last is nil if it is open
}

func num2(s string) *big.Int {
	if s == "" {
		return nil
	}
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return nil
		}
	}
	v, _ := new(big.Int).SetString(s, 10)
	return v
}

var max2 = new(big.Int).SetInt64(1<<63 - 1)

// read2 is the reference. valid: the header names offsets; plain: it may not be rejected
func read2(s string) (l []span2, valid, plain bool) {
	if len(s) < 6 || s[:6] != "bytes=" {
		return nil, false, false
	}
	plain = true
	for _, p := range strings.Split(s[6:], ",") {
		t := strings.TrimSpace(p)
		if t != strings.Trim(p, " \t") {
			plain = false
		}
		i := strings.IndexByte(t, '-')
		if i < 0 {
			return nil, false, false
		}
		sp := span2{first: num2(t[:i])}
		if sp.first == nil {
			return nil, false, false
		}
		if t[i+1:] != "" {
			if sp.last = num2(t[i+1:]); sp.last == nil || sp.last.Cmp(sp.first) < 0 {
				return nil, false, false
			}
			if sp.last.Cmp(max2) > 0 {
				return nil, false, false
			}
		}
		if sp.first.Cmp(max2) > 0 {
			return nil, false, false
		}
		l = append(l, sp)
	}
	return l, true, plain && len(l) == 1
}

func check2(c *vkit.Ctx, s string) {
	c.Cur("%q", s)
	want, valid, plain := read2(s)
	for _, used := range []bool{false, true} {
		var rg request.Range
		if used {
			rg.Bytes = []request.Int64Tuple{{First: 77, Second: 99}}
		}
		var ok bool
		if p := vkit.Safe(func() { ok = rg.ConvertFrom(s) }); p != "" {
			c.Fail("panic", nil, "%q: %s", s, p)
			return
		}
		if ok && !valid {
			c.Fail("accepts", nil, "%q is accepted as %v", s, rg.Bytes)
			return
		}
		if !ok {
			if plain {
				c.Fail("rejects", nil, "%q is rejected", s)
			}
			continue
		}
		if len(rg.Bytes) != len(want) {
			c.Fail("count", nil, "%q is read as %v", s, rg.Bytes)
			return
		}
		for i, w := range want {
			g := rg.Bytes[i]
			if g.First != w.first.Int64() || w.last != nil && g.Second != w.last.Int64() || w.last == nil && g.Second != 0 && g.Second >= g.First && g.Second != 1<<63-1 {
				c.Fail("offsets", nil, "%q is read as %v", s, rg.Bytes)
				return
			}
		}
		if f, ok := rg.GetFirstBytes(); !ok || f != rg.Bytes[0] || rg.FirstBytes() != f {
			c.Fail("first", nil, "%q: first of %v is %v %v", s, rg.Bytes, f, ok)
		}
	}
	c.Eval(s)
	c.State(fmt.Sprint(len(s), valid))
	c.Validated()
}

func TestVerifC02(t *testing.T) {
	vkit.Run(t, "C02", func(c *vkit.Ctx) {
		c.Rule("strings up to a length behind the prefix; all pairs of boundary offsets")
		var none request.Range
		if _, ok := none.GetFirstBytes(); ok {
			c.Fail("none", nil, "an empty range has a first element")
		}
		idx := 0
		alpha := []string{"0", "1", "9", "-", ",", " ", "+", "b", "."}
		depth := c.N(6, 7)
		pre := []string{"bytes=", "", "byte=", " bytes=", "xbytes=", "Bytes=", "bytes =", "bytes", "items=", "bytes=bytes="}
		var rec func(s string, n, max int)
		rec = func(s string, n, max int) {
			if c.Expired() {
				return
			}
			check2(c, s)
			if n == max {
				return
			}
			for _, a := range alpha {
				rec(s+a, n+1, max)
			}
		}
		for i, p := range pre {
			d := depth
			if i > 0 {
				d = depth - 2
			}
			for _, a := range alpha {
				for _, b := range alpha {
					idx++
					if c.Mine(idx) {
						rec(p+a+b, 2, d)
					}
				}
				if c.Mine(idx) {
					check2(c, p+a)
				}
			}
			if c.Mine(idx) {
				check2(c, p)
			}
		}
		var nums []string
		for _, sh := range []uint{0, 1, 8, 10, 16, 31, 32, 33, 53, 62, 63, 64, 65} {
			for d := int64(-2); d <= 2; d++ {
				v := new(big.Int).Lsh(big.NewInt(1), sh)
				if v.Add(v, big.NewInt(d)); v.Sign() >= 0 {
					nums = append(nums, v.String(), "0"+v.String())
				}
			}
		}
		nums = append(nums, "", "12345678901234567890123", "007")
		for _, a := range nums {
			for _, b := range nums {
				idx++
				if !c.Mine(idx) || c.Expired() {
					continue
				}
				for _, f := range []string{"%s-%s", " %s-%s", "%s-%s,", "0-1,%s-%s", "%s-%s, 5-6", "%s--%s", "-%s-%s", "%s -%s", "%s- %s", "%s-%s-", "\t%s-%s"} {
					check2(c, "bytes="+fmt.Sprintf(f, a, b))
				}
			}
		}
	})
}
