package apikit_test

import (
	"apiserver/internal/apikit"
	"apiserver/internal/entity"
	"apiserver/internal/usecase/pool"
	"common/objmodel"
	"common/util/crypto"
	"common/vkit"
	"encoding/base64"
	"fmt"
	"io"
	"strings"
	"testing"
	"time"
)

// lay5 is the layout of a big upload
type lay5 struct {
	ds, ps, block int
	compress      bool
	bucket        bool // the layout and compression are the bucket's
}

// part5 is one piece the client sends: n bytes, then it breaks off if cut. n < 0: everything left
type part5 struct {
	n   int
	cut bool
}

func (p part5) String() string {
	if p.n < 0 {
		return "rest"
	}
	if p.cut {
		return fmt.Sprintf("%d cut", p.n)
	}
	return fmt.Sprint(p.n)
}

type big5 struct {
	lay5
	size     int
	content  string
	digest   string
	c        *apikit.Cluster
	posted   *objmodel.World // right after the upload was announced
	location string
	shards   []string // what a plain upload stores
	hash     string
	minPart  int
}

func (l lay5) open(size int, digest string) (*big5, string) {
	cfg := apikit.Config(l.ds, l.ps, l.block)
	cfg.Object.Checksum = true
	cfg.Object.DistinctTimeout = 2 * time.Millisecond
	n := l.ds + l.ps
	if l.bucket {
		cfg.Object.ReedSolomon.DataShards, cfg.Object.ReedSolomon.ParityShards = 3, 3
		cfg.Object.ReedSolomon.BlockPerShard = l.block
	}
	c := apikit.New(n+1, 1, cfg)
	c.Conf = cfg
	b := &big5{lay5: l, size: size, content: apikit.Content(size, size), c: c}
	b.bucketSet()
	q := ""
	if l.compress && !l.bucket {
		q = "&compress=true"
	}
	sum := crypto.SHA256([]byte(b.content))
	if a := c.Put("b", "o", sum, "?ss=1"+q, b.content); !a.OK() {
		return nil, fmt.Sprintf("plain upload: %s", a)
	}
	vs := c.Meta.Versions("b", "o")
	if len(vs) != 1 || len(vs[0].Locate) != n {
		return nil, fmt.Sprintf("plain upload: %+v", vs)
	}
	for i, a := range vs[0].Locate {
		o, _ := c.World.Get(objmodel.Index(a), fmt.Sprintf("%s.%d", vs[0].Hash, i))
		b.shards = append(b.shards, o.Content)
	}
	b.hash = vs[0].Hash
	if got, err := c.Read("b", "o", vs[0], 0, -1); err != nil || got != b.content {
		return nil, "a plain upload does not read back"
	}
	b.digest = sum
	if digest != "" {
		b.digest = digest
	}
	c.Reset(objmodel.NewWorld(n + 1))
	c.Meta.Clear()
	b.bucketSet()
	a := b.post()
	if a.Code != 201 {
		return nil, fmt.Sprintf("announcing an upload: %s", a)
	}
	b.posted = c.World.Clone()
	return b, ""
}

func (b *big5) bucketSet() {
	bk := entity.Bucket{}
	if b.bucket {
		bk = entity.Bucket{StoreStrategy: entity.ECReedSolomon, DataShards: b.ds, ParityShards: b.ps, Compress: b.compress}
	}
	b.c.Meta.Buckets["b"] = bk
}

func (b *big5) post() apikit.Answer {
	q := ""
	if b.compress && !b.bucket {
		q = "?compress=true"
	}
	a := b.c.Do("POST", "/v1/big/o"+q, map[string]string{"bucket": "b", "digest": b.digest, "size": fmt.Sprint(b.size)}, nil, 0)
	if a.Code == 201 {
		b.location = a.Header.Get("Location")
		_, _ = fmt.Sscan(a.Header.Get("Min-Part-Size"), &b.minPart)
	}
	return a
}

// start continues from the state after the announcement
func (b *big5) start(w *objmodel.World) {
	pool.Config = b.c.Conf
	b.c.Reset(w)
	b.c.Register(objmodel.Addrs[:b.ds+b.ps+1]...)
	b.c.Meta.Clear()
	b.c.Meta.Fault = nil
	b.bucketSet()
}

// head asks for the offset, -1 if there is none
func (b *big5) head() (int, apikit.Answer) {
	a := b.c.Do("HEAD", b.location, nil, nil, 0)
	off := -1
	if a.Code == 200 {
		_, _ = fmt.Sscan(a.Header.Get("Content-Length"), &off)
	}
	return off, a
}

func (b *big5) patch(off, n int, p part5, content string) apikit.Answer {
	var body io.Reader = strings.NewReader(content[off : off+n])
	length := n
	if p.cut {
		body = apikit.Body(content[off:], n)
		length = len(content) - off
	}
	return b.c.Do("PATCH", b.location, map[string]string{"Range": fmt.Sprintf("bytes=%d-", off)}, body, int64(length))
}

// published judges the versions: nothing, or exactly the object of a plain upload
func (b *big5) published(maybe bool, acked bool) string {
	vs := b.c.Meta.Versions("b", "o")
	if len(vs) == 0 {
		if acked {
			return "acknowledged, but no version is recorded"
		}
		return ""
	}
	if !acked && !maybe {
		return fmt.Sprintf("a version is recorded for an upload that is not complete: %+v", vs)
	}
	if len(vs) > 1 {
		return fmt.Sprintf("%d versions are recorded", len(vs))
	}
	v := vs[0]
	if v.Size != int64(b.size) || v.Compress != b.compress || v.Hash != b.hash || len(v.Locate) != b.ds+b.ps || v.DataShards != b.ds || v.ParityShards != b.ps || v.StoreStrategy != entity.ECReedSolomon {
		return fmt.Sprintf("the version differs from the one of a plain upload: %+v", v)
	}
	seen := map[string]bool{}
	for i, a := range v.Locate {
		o, ok := b.c.World.Get(objmodel.Index(a), fmt.Sprintf("%s.%d", v.Hash, i))
		if !ok || o.Content != b.shards[i] || o.Compress != b.compress {
			return fmt.Sprintf("shard %d differs from the one of a plain upload: %s", i, b.c.World.Dump())
		}
		if seen[a] {
			return "two shards share a server"
		}
		seen[a] = true
	}
	return ""
}

// drive sends the parts as a client would, every time at the offset it is told. The last answer and whether the upload was acknowledged.
func (b *big5) drive(parts []part5, faulty bool) (msg string, acked bool, trace string) {
	told := 0
	for i, p := range parts {
		off, a := b.head()
		if off < 0 {
			if faulty {
				return "", false, trace
			}
			return fmt.Sprintf("after parts %v the offset is not available: %s", parts[:i], a), false, trace
		}
		if off > told && !faulty {
			return fmt.Sprintf("the reported offset %d is more than was sent (%d)", off, told), false, trace
		}
		if !faulty && off < told-b.minPart+1 && off < told {
			return fmt.Sprintf("of %d bytes sent only %d are kept", told, off), false, trace
		}
		n := p.n
		if n < 0 || n > b.size-off {
			n = b.size - off
		}
		if n == b.size-off {
			p.cut = false
		}
		trace += fmt.Sprintf(" %d+%d", off, n)
		a = b.patch(off, n, p, b.content)
		if p.cut && !apikit.Quiet() {
			return "a broken request does not end", false, trace
		}
		told = off + n
		full := off+n == b.size
		switch {
		case full && a.OK():
			if a.Version() < 1 {
				return fmt.Sprintf("the answer to the last part is %s", a), true, trace
			}
			return "", true, trace
		case full && !faulty:
			return fmt.Sprintf("the last part is answered with %s", a), false, trace
		case full:
			return "", false, trace
		case !p.cut && a.Code == 206:
			var kept int
			_, _ = fmt.Sscan(a.Header.Get("Content-Length"), &kept)
			if o2, _ := b.head(); o2 != kept && !faulty {
				return fmt.Sprintf("a part is answered with offset %d, then %d is reported", kept, o2), false, trace
			}
		case !p.cut && a.OK():
			return fmt.Sprintf("a part is answered with %s", a), false, trace
		case !p.cut && !faulty:
			return fmt.Sprintf("a part is answered with %s", a), false, trace
		}
	}
	return "", false, trace
}

func TestVerifA05(t *testing.T) {
	vkit.Run(t, "A05", func(c *vkit.Ctx) {
		c.Rule("every way to send the parts, with every interruption, ends with exactly the version and shards of a plain upload once it is acknowledged, and with no version otherwise; the reported offset is never more than what was sent and can always be continued from")
		lays := []lay5{{1, 1, 2, false, false}, {2, 1, 1, true, false}, {2, 1, 2, false, true}, {3, 2, 1, true, true}}
		if !c.Quick {
			lays = append(lays, lay5{4, 2, 1, false, false}, lay5{2, 2, 3, true, true}, lay5{1, 2, 3, true, false}, lay5{2, 1, 4, false, false})
		}
		for i, l := range lays {
			bs := l.ds * l.block
			for size := 1; size <= 2*bs+2; size++ {
				if c.Quick && bs > 3 && size != 1 && size != bs && size != bs+1 && size != 2*bs && size != 2*bs+1 {
					continue
				}
				turn5 = i*7 + size*3
				explore5(c, l, size)
				if c.Expired() {
					return
				}
			}
		}
	})
}

var turn5 int

func explore5(c *vkit.Ctx, l lay5, size int) {
	name := fmt.Sprintf("%+v size %d", l, size)
	c.Cur("%s", name)
	b, msg := l.open(size, "")
	if b == nil {
		c.Fail("open", nil, "%s: %s", name, msg)
		return
	}
	try := func(key, what string, run func() string) {
		if turn5++; !c.Mine(turn5) || c.Violated() || c.Expired() {
			return
		}
		c.Eval(name + " " + what)
		c.Transition()
		if m := run(); m != "" {
			c.Fail(key, func() bool { return run() != "" }, "%s, %s: %s", name, what, m)
		}
	}
	// every sequence of parts
	depth := c.N(3, 4)
	var alts []part5
	for n := 0; n <= size; n++ {
		if n > 0 {
			alts = append(alts, part5{n, false})
		}
		if n < size {
			alts = append(alts, part5{n, true})
		}
	}
	var seqs func(pre []part5, sum int)
	seqs = func(pre []part5, sum int) {
		parts := append(append([]part5(nil), pre...), part5{-1, false})
		try("parts", fmt.Sprintf("parts %v", parts), func() string {
			b.start(b.posted.Clone())
			m, acked, trace := b.drive(parts, false)
			if m != "" {
				return m
			}
			if !acked {
				return "the upload does not end"
			}
			c.State(name + trace)
			if m = b.published(false, acked); m != "" {
				return m
			}
			if !apikit.Quiet() {
				return "the upload does not end"
			}
			if n := b.c.World.TempCount(true); n > 0 {
				return fmt.Sprintf("%d temporary shards remain", n)
			}
			return ""
		})
		if len(pre) == depth-1 {
			return
		}
		for _, p := range alts {
			if sum+p.n < size {
				seqs(append(append([]part5(nil), pre...), p), sum+p.n)
			}
		}
	}
	seqs(nil, 0)
	// wrong offsets, too much, malformed requests: refused, and nothing changes
	for _, sent := range []int{0, b.minPart} {
		if sent >= size {
			continue
		}
		for off := -1; off <= size+2; off++ {
			if off == sent {
				continue
			}
			try("offset", fmt.Sprintf("at %d, sending at %d", sent, off), func() string {
				b.start(b.posted.Clone())
				if sent > 0 {
					b.patch(0, sent, part5{sent, false}, b.content)
				}
				before := b.c.World.Dump()
				a := b.c.Do("PATCH", b.location, map[string]string{"Range": fmt.Sprintf("bytes=%d-", off)}, strings.NewReader(b.content), int64(size))
				if a.Code < 400 || a.Code > 499 {
					return fmt.Sprintf("answered with %s", a)
				}
				if after := b.c.World.Dump(); after != before {
					return fmt.Sprintf("changes %s to %s", before, after)
				}
				m, acked, _ := b.drive([]part5{{-1, false}}, true)
				if m == "" && !acked {
					m = "afterwards the upload cannot be completed"
				}
				if m != "" {
					return m
				}
				return b.published(false, true)
			})
		}
		for _, more := range []int{1, b.minPart, 2*b.minPart + 1} {
			try("exceed", fmt.Sprintf("at %d, %d bytes too much", sent, more), func() string {
				b.start(b.posted.Clone())
				if sent > 0 {
					b.patch(0, sent, part5{sent, false}, b.content)
				}
				long := b.content + apikit.Content(1, more)
				a := b.patch(sent, len(long)-sent, part5{}, long)
				if a.Code < 400 || a.Code > 499 {
					return fmt.Sprintf("answered with %s", a)
				}
				return b.published(false, false)
			})
		}
		for _, r := range []string{"", "bytes=", "bytes=-5", "0-", "bytes=a-", "bytes=-", "items=0-", "bytes=99999999999999999999-"} {
			try("range", fmt.Sprintf("at %d, range %q", sent, r), func() string {
				b.start(b.posted.Clone())
				if sent > 0 {
					b.patch(0, sent, part5{sent, false}, b.content)
				}
				before := b.c.World.Dump()
				hd := map[string]string{"Range": r}
				if r == "" {
					hd = nil
				}
				a := b.c.Do("PATCH", b.location, hd, strings.NewReader(b.content), int64(size))
				if a.Code < 400 || a.Code > 499 {
					return fmt.Sprintf("answered with %s", a)
				}
				if after := b.c.World.Dump(); after != before {
					return fmt.Sprintf("changes %s to %s", before, after)
				}
				return b.published(false, false)
			})
		}
	}
	tokens5(c, b, try)
	faults5(c, b, try)
	crash5(c, b, try)
	digest5(c, l, size, try)
	post5(c, l, size, try)
}

// tokens5 uses tokens which were never issued
func tokens5(c *vkit.Ctx, b *big5, try func(string, string, func() string)) {
	const pre = "/v1/big/"
	token := strings.TrimPrefix(b.location, pre)
	var bad []string
	for i := 1; i < len(token); i++ {
		if i < 8 || i > len(token)-8 || i%(len(token)/16+1) == 0 {
			bad = append(bad, token[:i])
		}
	}
	bad = append(bad, "x", "====", "%20", token+"A", "A"+token, base64.StdEncoding.EncodeToString([]byte("{}")), strings.Repeat("A", 64))
	for _, tk := range bad {
		if tk == token {
			continue
		}
		for _, method := range []string{"HEAD", "PATCH"} {
			try("token", fmt.Sprintf("%s with token %q", method, tk), func() string {
				b.start(b.posted.Clone())
				before := b.c.World.Dump()
				a := b.c.Do(method, pre+tk, map[string]string{"Range": "bytes=0-"}, strings.NewReader(b.content), int64(b.size))
				if a.Code < 400 || a.Code > 499 {
					return fmt.Sprintf("answered with %s", a)
				}
				if after := b.c.World.Dump(); after != before {
					return fmt.Sprintf("changes %s to %s", before, after)
				}
				return b.published(false, false)
			})
		}
	}
}

// faults5 lets every request fail
func faults5(c *vkit.Ctx, b *big5, try func(string, string, func() string)) {
	plans := [][]part5{{{-1, false}}, {{b.minPart, false}, {-1, false}}, {{b.minPart + 1, true}, {-1, false}}}
	for i, plan := range plans {
		if i > 0 && b.minPart+i > b.size {
			continue
		}
		b.start(b.posted.Clone())
		b.drive(plan, true)
		events, metas := b.c.World.Events(), b.c.Meta.EventList()
		run := func(fault map[string]objmodel.Fault, meta map[string]string) string {
			w := b.posted.Clone()
			b.start(w)
			excuse := 0
			w.Fault = func(ev string) objmodel.Fault {
				f := fault[ev]
				if f != objmodel.None && f != objmodel.Lost && strings.HasPrefix(ev, "DELETE") {
					excuse++
				}
				return f
			}
			maybe := false
			b.c.Meta.Fault = func(op string, n int) string {
				f := meta[fmt.Sprintf("%s #%d", op, n)]
				if f == "lost" && op == "add" {
					maybe = true
				}
				return f
			}
			defer func() { b.c.Meta.Fault = nil }()
			m, acked, _ := b.drive(plan, true)
			if m != "" {
				return m
			}
			if !apikit.Quiet() {
				return "the upload does not end"
			}
			if m = b.published(maybe, acked); m != "" {
				return m
			}
			if acked {
				if n := w.TempCount(false); n > excuse {
					return fmt.Sprintf("%d temporary shards remain", n)
				}
				return ""
			}
			if maybe {
				return ""
			}
			// the client asks again and goes on, or begins again
			w.Fault, b.c.Meta.Fault = nil, nil
			for i, s := range w.Servers {
				_ = i
				s.Down = false
			}
			off, _ := b.head()
			if off >= 0 {
				if m, acked, _ = b.drive([]part5{{-1, false}}, true); m != "" {
					return "going on: " + m
				}
				if !acked {
					return fmt.Sprintf("offset %d is reported, but the upload cannot be continued", off)
				}
			}
			return b.published(false, acked)
		}
		for _, e := range events {
			for _, f := range []objmodel.Fault{objmodel.Refuse, objmodel.Drop, objmodel.Lost, objmodel.Die} {
				fault := map[string]objmodel.Fault{e: f}
				try("fault", fmt.Sprintf("parts %v, %s: %s", plan, e, f), func() string { return run(fault, nil) })
				if c.Quick || b.ds+b.ps > 3 {
					continue
				}
				for _, e2 := range events {
					if e2 > e {
						fault := map[string]objmodel.Fault{e: f, e2: objmodel.Refuse}
						try("fault", fmt.Sprintf("parts %v, %v", plan, fault), func() string { return run(fault, nil) })
					}
				}
			}
		}
		for _, e := range metas {
			for _, f := range []string{"refuse", "lost", "raced"} {
				if f == "raced" && !strings.HasPrefix(e, "insert") {
					continue
				}
				meta := map[string]string{e: f}
				try("meta", fmt.Sprintf("parts %v, %s: %s", plan, e, f), func() string { return run(nil, meta) })
			}
		}
	}
}

// crash5 stops the api server at every point: of the requests for one block any subset is done, and nothing later
func crash5(c *vkit.Ctx, b *big5, try func(string, string, func() string)) {
	n := b.ds + b.ps
	blocks := (b.size + b.minPart - 1) / b.minPart
	for at := 1; at <= blocks+1; at++ {
		for done := 0; done < 1<<n; done++ {
			try("crash", fmt.Sprintf("crash at step %d of %d, after %b", at, blocks+1, done), func() string {
				w := b.posted.Clone()
				b.start(w)
				w.Fault = func(ev string) objmodel.Fault {
					var m, k string
					var i, s, r int
					_, _ = fmt.Sscanf(ev, "%s %s .%d s%d #%d", &m, &k, &i, &s, &r)
					switch m {
					case "PATCH":
						if r < at || r == at && done>>i&1 == 1 {
							return objmodel.None
						}
						return objmodel.Drop
					case "PUT":
						if at > blocks && done>>i&1 == 1 {
							return objmodel.None
						}
						return objmodel.Drop
					case "DELETE":
						return objmodel.Drop
					}
					return objmodel.None
				}
				b.c.Meta.Fault = func(string, int) string { return "refuse" }
				if at > blocks {
					b.c.Meta.Fault = func(op string, n int) string {
						if op == "bucket" {
							return ""
						}
						return "refuse"
					}
				}
				b.patch(0, b.size, part5{}, b.content)
				if !apikit.Quiet() {
					return "the upload does not end"
				}
				w.Fault, b.c.Meta.Fault = nil, nil
				if m := b.published(false, false); m != "" {
					return m
				}
				off, a := b.head()
				even := done == 0 || done == 1<<n-1
				if off < 0 {
					if even && at <= blocks {
						return fmt.Sprintf("the same blocks are on all servers, but the upload cannot be continued: %s", a)
					}
					return ""
				}
				m, acked, _ := b.drive([]part5{{-1, false}}, true)
				if m != "" {
					return m
				}
				if !acked {
					return fmt.Sprintf("offset %d is reported, but the upload cannot be continued", off)
				}
				return b.published(false, true)
			})
		}
	}
}

// digest5 sends something else than announced
func digest5(c *vkit.Ctx, l lay5, size int, try func(string, string, func() string)) {
	var b *big5
	for _, plan := range [][]part5{{{-1, false}}, {{1, false}, {-1, false}}, {{size - 1, true}, {-1, false}}} {
		if plan[0].n == 0 {
			continue
		}
		try("digest", fmt.Sprintf("wrong digest, parts %v", plan), func() string {
			if b == nil {
				var m string
				if b, m = l.open(size, crypto.SHA256([]byte("other"))); b == nil {
					return m
				}
			}
			b.start(b.posted.Clone())
			m, acked, _ := b.drive(plan, true)
			if m != "" {
				return m
			}
			if acked {
				return "content with a wrong digest is acknowledged"
			}
			if !apikit.Quiet() {
				return "the upload does not end"
			}
			if n := b.c.World.TempCount(true); n > 0 {
				return fmt.Sprintf("%d temporary shards remain", n)
			}
			return b.published(false, false)
		})
	}
}

// post5 lets requests of the announcement fail
func post5(c *vkit.Ctx, l lay5, size int, try func(string, string, func() string)) {
	var b *big5
	for i := 0; i < l.ds+l.ps; i++ {
		for _, f := range []objmodel.Fault{objmodel.Refuse, objmodel.Drop, objmodel.Lost, objmodel.Die} {
			try("announce", fmt.Sprintf("announcing, shard %d %s", i, f), func() string {
				if b == nil {
					var m string
					if b, m = l.open(size, ""); b == nil {
						return m
					}
				}
				w := objmodel.NewWorld(l.ds + l.ps + 1)
				b.start(w)
				lost := 0
				w.Fault = func(ev string) objmodel.Fault {
					if strings.HasPrefix(ev, fmt.Sprintf("POST temp .%d ", i)) {
						if f == objmodel.Lost {
							lost++
						}
						return f
					}
					return objmodel.None
				}
				a := b.post()
				if !apikit.Quiet() {
					return "announcing does not end"
				}
				w.Fault = nil
				if a.Code >= 200 && a.Code < 400 {
					m, acked, _ := b.drive([]part5{{-1, false}}, f == objmodel.Die)
					if m != "" || !acked && f != objmodel.Die {
						return "an announced upload cannot be done: " + m
					}
					return b.published(false, acked)
				}
				if n := w.TempCount(false); n > lost {
					return fmt.Sprintf("%d temporary shards remain", n)
				}
				return b.published(false, false)
			})
		}
	}
	for _, bad := range [][2]string{{"size", "0"}, {"size", "-1"}, {"size", "x"}, {"size", ""}, {"bucket", ""}, {"bucket", "other"}, {"digest", ""}} {
		try("announce", fmt.Sprintf("announcing with %s %q", bad[0], bad[1]), func() string {
			if b == nil {
				var m string
				if b, m = l.open(size, ""); b == nil {
					return m
				}
			}
			w := objmodel.NewWorld(l.ds + l.ps + 1)
			b.start(w)
			hd := map[string]string{"bucket": "b", "digest": b.digest, "size": fmt.Sprint(size), bad[0]: bad[1]}
			if bad[1] == "" {
				delete(hd, bad[0])
			}
			a := b.c.Do("POST", "/v1/big/o", hd, nil, 0)
			if a.Code < 400 || a.Code > 499 {
				return fmt.Sprintf("answered with %s", a)
			}
			if !apikit.Quiet() {
				return "announcing does not end"
			}
			if n := w.TempCount(false); n > 0 {
				return fmt.Sprintf("%d temporary shards remain", n)
			}
			return ""
		})
	}
}
