package datasize_test

import (
	"bytes"
	"common/datasize"
	"common/vkit"
	"fmt"
	"math/big"
	"strings"
	"testing"

	"github.com/tinylib/msgp/msgp"
	"gopkg.in/yaml.v3"
)

var units2 = map[string]uint{"": 0, "B": 0, "KB": 10, "MB": 20, "GB": 30, "TB": 40, "PB": 50}

// read2 is the reference: digits, then a unit in any case. must tells if the size has to be accepted.
func read2(s string) (v *big.Int, valid bool) {
	i := 0
	for i < len(s) && s[i] >= '0' && s[i] <= '9' {
		i++
	}
	if i == 0 {
		return nil, false
	}
	var u []byte
	for _, c := range []byte(s[i:]) {
		if c >= 'a' && c <= 'z' {
			c -= 32
		}
		u = append(u, c)
	}
	sh, ok := units2[string(u)]
	if !ok {
		return nil, false
	}
	v, _ = new(big.Int).SetString(s[:i], 10)
	return v.Lsh(v, sh), true
}

var max2 = new(big.Int).SetUint64(^uint64(0))
var limit2 = new(big.Int).Lsh(big.NewInt(1), 60) // 1024PB, the documented limit

func parse2(c *vkit.Ctx, s string) {
	want, valid := read2(s)
	c.Cur("%q", s)
	var got datasize.DataSize
	var err error
	if p := vkit.Safe(func() { got, err = datasize.Parse(s) }); p != "" {
		c.Fail("parse panics", nil, "reading %q: %s", s, p)
		return
	}
	var set datasize.DataSize
	serr := (&set).SetValue(s)
	if (serr == nil) != (err == nil) || set != got && err == nil {
		c.Fail("parse environment", nil, "reading %q gives %d %v, from the environment %d %v", s, uint64(got), err, uint64(set), serr)
	}
	switch {
	case err == nil && (!valid || want.Cmp(max2) > 0):
		c.Fail("parse accepts", nil, "%q is read as %d bytes", s, uint64(got))
	case err == nil && want.Uint64() != uint64(got):
		c.Fail("parse value", nil, "%q is read as %d bytes instead of %s", s, uint64(got), want)
	case err != nil && valid && want.Cmp(limit2) < 0:
		c.Fail("parse rejects", nil, "%q is rejected: %v", s, err)
	}
	c.Outcome(fmt.Sprint(err == nil))
	c.Eval(s)
}

type doc2 struct {
	A int               `yaml:"a"`
	S datasize.DataSize `yaml:"s"`
	B string            `yaml:"b"`
}

func round2(c *vkit.Ctx, n uint64) {
	d := datasize.DataSize(n)
	c.Cur("size %d", n)
	var str string
	if p := vkit.Safe(func() { str = d.String() }); p != "" {
		c.Fail("print panics", nil, "printing %d: %s", n, p)
		return
	}
	if b, err := datasize.Parse(str); err != nil || uint64(b) != n {
		c.Fail("print", nil, "%d is printed as %q, which is read as %d %v", n, str, uint64(b), err)
	}
	if str2 := fmt.Sprint(d); str2 != str {
		c.Fail("print", nil, "%d is printed as %q and %q", n, str, str2)
	}
	// configuration
	bt, err := yaml.Marshal(doc2{1, d, "x"})
	var back doc2
	if err == nil {
		err = yaml.Unmarshal(bt, &back)
	}
	if err != nil || back != (doc2{1, d, "x"}) {
		c.Fail("yaml", nil, "%d is written as %q and read as %+v %v", n, bt, back, err)
	}
	// binary, both ways
	raw, err := d.MarshalMsg([]byte("pre"))
	if err != nil || !bytes.HasPrefix(raw, []byte("pre")) {
		c.Fail("binary", nil, "%d is appended as %x %v", n, raw, err)
		return
	}
	raw = raw[3:]
	var buf bytes.Buffer
	w := msgp.NewWriter(&buf)
	err = d.EncodeMsg(w)
	_ = w.Flush()
	if err != nil || !bytes.Equal(buf.Bytes(), raw) {
		c.Fail("binary", nil, "%d is %x or %x %v", n, raw, buf.Bytes(), err)
	}
	if d.Msgsize() < len(raw) {
		c.Fail("binary size", nil, "%d takes %d bytes, announced are %d", n, len(raw), d.Msgsize())
	}
	var m, r datasize.DataSize
	left, err := m.UnmarshalMsg(append(append([]byte{}, raw...), "rest"...))
	if err != nil || m != d || string(left) != "rest" {
		c.Fail("binary", nil, "%x is read as %d rest %q %v", raw, uint64(m), left, err)
	}
	if err = r.DecodeMsg(msgp.NewReader(bytes.NewReader(raw))); err != nil || r != d {
		c.Fail("binary", nil, "%x is read as %d %v", raw, uint64(r), err)
	}
	for i := range raw {
		var x datasize.DataSize
		if _, err := x.UnmarshalMsg(raw[:i]); err == nil {
			c.Fail("binary truncated", nil, "%x is read as %d", raw[:i], uint64(x))
		}
		if err := x.DecodeMsg(msgp.NewReader(bytes.NewReader(raw[:i]))); err == nil {
			c.Fail("binary truncated", nil, "%x is read as %d", raw[:i], uint64(x))
		}
	}
	// conversions are exact down to the unit
	for i, v := range []uint64{d.Byte(), d.KiloByte(), d.MegaByte(), d.GigaByte(), d.TeraByte(), d.PetaByte()} {
		if v != n>>(10*uint(i)) {
			c.Fail("convert", nil, "%d is %d in unit %d", n, v, i)
		}
	}
	c.Eval(fmt.Sprint("n", n))
	c.State(str)
	c.Validated()
}

func boundary2() (l []*big.Int) {
	seen := map[string]bool{}
	add := func(v *big.Int) {
		for i := int64(-2); i <= 2; i++ {
			w := new(big.Int).Add(v, big.NewInt(i))
			if w.Sign() >= 0 && !seen[w.String()] {
				seen[w.String()] = true
				l = append(l, w)
			}
		}
	}
	one := big.NewInt(1)
	for i := uint(0); i <= 70; i++ {
		add(new(big.Int).Lsh(one, i))
		add(new(big.Int).Div(max2, new(big.Int).Lsh(one, i)))
		for _, k := range []int64{3, 5, 15, 1000, 1023, 1025, 1536} {
			add(new(big.Int).Lsh(big.NewInt(k), i))
		}
	}
	p := big.NewInt(1)
	for i := 0; i < 25; i++ {
		add(p)
		p = new(big.Int).Mul(p, big.NewInt(10))
	}
	return
}

func TestVerifC02(t *testing.T) {
	vkit.Run(t, "C02", func(c *vkit.Ctx) {
		c.Rule("strings up to a length; boundary sizes with every unit and spelling")
		idx := 0
		// all strings
		alpha := []string{"0", "1", "9", "5", "k", "K", "m", "M", "G", "t", "p", "P", "b", "B", " ", "-", "+", ".", "_", "e", "\n", "İ", "K"}
		depth := c.N(5, 6)
		var rec func(s string, n int)
		rec = func(s string, n int) {
			if c.Expired() {
				return
			}
			if n <= 2 {
				idx++
				if !c.Mine(idx) && n == 2 {
					return
				}
				if n < 2 && c.Mine(idx) {
					parse2(c, s)
				}
			}
			if n >= 2 {
				parse2(c, s)
			}
			if n == depth {
				return
			}
			for _, a := range alpha {
				rec(s+a, n+1)
			}
		}
		rec("", 0)
		// all spellings of all boundary numbers
		var spell []string
		for u := range units2 {
			for m := 0; m < 1<<len(u); m++ {
				b := []byte(u)
				for i := range b {
					if m>>i&1 == 1 {
						b[i] += 32
					}
				}
				spell = append(spell, string(b))
			}
		}
		spell = append(spell, "EB", "KIB", "BB", "BK", "K", " KB", "KB ", "b\n")
		for _, v := range boundary2() {
			idx++
			if !c.Mine(idx) || c.Expired() {
				continue
			}
			for _, u := range spell {
				for _, z := range []string{"", "0", strings.Repeat("0", 30), "+", "-", " ", "0x"} {
					parse2(c, z+v.String()+u)
				}
			}
			if v.Cmp(max2) <= 0 {
				round2(c, v.Uint64())
			}
		}
		// every small size, and sizes with every low bit pattern around the units
		for n := uint64(0); n < uint64(c.N(70000, 3000000)); n++ {
			if n%997 == 0 && c.Expired() {
				break
			}
			if c.Mine(int(n)) {
				round2(c, n)
			}
		}
	})
}
