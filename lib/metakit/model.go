package metakit

import (
	"common/cache"
	"common/proto/msg"
	"fmt"
	"metaserver/internal/usecase/logic"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	bolt "go.etcd.io/bbolt"
)

// RecCache is the real cache plus the set of keys it was told to hold.
type RecCache struct {
	cache.ICache
	mu   sync.Mutex
	keys map[string]bool
}

func Record(c cache.ICache) *RecCache { return &RecCache{ICache: c, keys: map[string]bool{}} }

func (r *RecCache) note(k string) { r.mu.Lock(); r.keys[k] = true; r.mu.Unlock() }
func (r *RecCache) Set(k string, v []byte) bool {
	r.note(k)
	return r.ICache.Set(k, v)
}
func (r *RecCache) SetGob(k string, v interface{}) bool {
	r.note(k)
	return r.ICache.SetGob(k, v)
}

// Held lists the keys present.
func (r *RecCache) Held() string {
	r.mu.Lock()
	defer r.mu.Unlock()
	var s []string
	for k := range r.keys {
		if r.ICache.Has(k) {
			s = append(s, k)
		}
	}
	sort.Strings(s)
	return strings.Join(s, ",")
}

// Model is the reference: a plain versioned map.
type Model struct {
	Obj  map[string]*MObj
	Buck map[string]*msg.Bucket
}

type MObj struct {
	M    msg.Metadata
	Next uint64
	V    map[uint64]*msg.Version
}

func NewModel() *Model { return &Model{Obj: map[string]*MObj{}, Buck: map[string]*msg.Bucket{}} }

func (o *MObj) Seqs() []uint64 {
	var s []uint64
	for k := range o.V {
		s = append(s, k)
	}
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return s
}

// Shape renders the model without times and unique ids.
func (m *Model) Shape() string {
	var s []string
	for n, o := range m.Obj {
		x := fmt.Sprintf("%s/%s/%d:", n, o.M.Bucket, o.Next)
		for _, q := range o.Seqs() {
			v := *o.V[q]
			v.Ts, v.UniqueId = 0, ""
			x += fmt.Sprintf("%v;", v)
		}
		s = append(s, x)
	}
	for n, b := range m.Buck {
		c := *b
		c.CreateTime, c.UpdateTime = 0, 0
		s = append(s, fmt.Sprintf("%s=%v", n, c))
	}
	sort.Strings(s)
	return strings.Join(s, "|")
}

func now() int64 { return time.Now().UnixMilli() }

func V(hash string, size int64) *msg.Version {
	return &msg.Version{StoreStrategy: 2, DataShards: 2, ParityShards: 1, ShardSize: size, Size: size, Hash: hash, Locate: []string{"s1", "s2", "s3"}}
}

// Step applies one named operation to the front and to the model and compares the
// answers.  Advance is called between operations.
type Step struct {
	Name string
	Do   func(f Front, m *Model, advance func()) string // "" or what differs
}

func expect(got, want string) string {
	if got != want {
		return fmt.Sprintf("answered %q, a versioned map answers %q", got, want)
	}
	return ""
}

func AddMeta(name string) Step {
	return Step{"create " + name, func(f Front, m *Model, adv func()) string {
		d := &msg.Metadata{Name: name, Bucket: "B-" + name}
		t := now()
		got := f.AddMeta(name, d)
		if m.Obj[name] != nil {
			return expect(got, "refused")
		}
		m.Obj[name] = &MObj{M: msg.Metadata{Name: name, Bucket: "B-" + name, CreateTime: t, UpdateTime: t}, V: map[uint64]*msg.Version{}}
		return expect(got, "ok")
	}}
}

// UpdMeta updates twice within one millisecond: the second data is out of date.
func UpdMeta(name string) Step {
	return Step{"update " + name, func(f Front, m *Model, adv func()) string {
		for i := 0; i < 2; i++ {
			t := now()
			got := f.UpdMeta(name, &msg.Metadata{Name: name, Bucket: "other"})
			o := m.Obj[name]
			if o == nil {
				if e := expect(got, "notfound"); e != "" {
					return e
				}
				continue
			}
			if t <= o.M.UpdateTime {
				if e := expect(got, "refused"); e != "" {
					return "out-of-date update: " + e
				}
				continue
			}
			if e := expect(got, "ok"); e != "" {
				return e
			}
			o.M.UpdateTime = t
		}
		return ""
	}}
}

func DelMeta(name string) Step {
	return Step{"delete " + name, func(f Front, m *Model, adv func()) string {
		got := f.DelMeta(name)
		delete(m.Obj, name)
		return expect(got, "ok")
	}}
}

func AddVer(name, hash string) Step {
	return Step{"add-version " + name + " " + hash, func(f Front, m *Model, adv func()) string {
		v := V(hash, 10)
		t := now()
		seq, got := f.AddVer(name, v)
		o := m.Obj[name]
		if o == nil {
			return expect(got, "notfound")
		}
		if e := expect(got, "ok"); e != "" {
			return e
		}
		o.Next++
		if uint64(seq) != o.Next {
			return fmt.Sprintf("got version number %d, the next is %d", seq, o.Next)
		}
		w := V(hash, 10)
		w.Ts, w.Sequence = t, o.Next
		o.V[o.Next] = w
		return ""
	}}
}

func pick(o *MObj, which string) int {
	if o == nil || len(o.V) == 0 {
		return 1
	}
	s := o.Seqs()
	switch which {
	case "first":
		return int(s[0])
	case "last":
		return int(s[len(s)-1])
	case "mid":
		return int(s[len(s)/2])
	case "below":
		for i, q := range s {
			if q != uint64(i+1) {
				return i + 1
			}
		}
	}
	return int(o.Next) + 1
}

// UpdVer changes the changeable fields and tries to change the fixed ones, twice in one millisecond.
func UpdVer(name, which string) Step {
	return Step{"update-version " + name + " " + which, func(f Front, m *Model, adv func()) string {
		o := m.Obj[name]
		seq := pick(o, which)
		for i := 0; i < 2; i++ {
			v := V("evil", 11)
			v.UniqueId = "evil"
			v.Sequence = 77
			v.Locate = []string{"n1", "n2", "n3"}
			t := now()
			got := f.UpdVer(name, seq, v)
			if o == nil || o.V[uint64(seq)] == nil {
				if e := expect(got, "notfound"); e != "" {
					return e
				}
				continue
			}
			old := o.V[uint64(seq)]
			if t <= old.Ts {
				if e := expect(got, "refused"); e != "" {
					return "out-of-date update: " + e
				}
				continue
			}
			if e := expect(got, "ok"); e != "" {
				return e
			}
			w := V(old.Hash, 11)
			w.Ts, w.Sequence, w.UniqueId, w.Locate = t, old.Sequence, old.UniqueId, []string{"n1", "n2", "n3"}
			o.V[uint64(seq)] = w
		}
		return ""
	}}
}

func DelVer(name, which string) Step {
	return Step{"delete-version " + name + " " + which, func(f Front, m *Model, adv func()) string {
		o := m.Obj[name]
		if which == "all" {
			got := f.DelVer(name, -1)
			if o == nil {
				if got == "ok" {
					return "removing all versions of a missing object succeeded"
				}
				return ""
			}
			o.V, o.Next = map[uint64]*msg.Version{}, 0
			return expect(got, "ok")
		}
		seq := pick(o, which)
		got := f.DelVer(name, seq)
		if o == nil {
			return expect(got, "ok")
		}
		if o.V[uint64(seq)] == nil {
			return expect(got, "notfound")
		}
		delete(o.V, uint64(seq))
		return expect(got, "ok")
	}}
}

// Receive hands over version seq of an object the way a migration does.
func Receive(n func() *Node, name, hash, which string) Step {
	return Step{"receive-version " + name + " " + hash + " " + which, func(f Front, m *Model, adv func()) string {
		o := m.Obj[name]
		seq := uint64(pick(o, which))
		v := V(hash, 12)
		v.Sequence, v.Ts, v.UniqueId = seq, now(), fmt.Sprintf("id-%s-%d-%s", name, seq, hash)
		w := *v
		w.Locate = append([]string{}, v.Locate...)
		got := Class(n().Svc.ReceiveVersion(name, v))
		if o == nil {
			return expect(got, "notfound")
		}
		if o.V[seq] != nil || m.uid(v.UniqueId) {
			return expect(got, "refused")
		}
		if seq > o.Next {
			o.Next = seq
		}
		o.V[seq] = &w
		return expect(got, "ok")
	}}
}

func (m *Model) uid(u string) bool {
	for _, o := range m.Obj {
		for _, v := range o.V {
			if v.UniqueId == u {
				return true
			}
		}
	}
	return false
}

func Locate(hash string, idx int, loc string) Step {
	return Step{fmt.Sprintf("locate %s %d", hash, idx), func(f Front, m *Model, adv func()) string {
		got := f.Locate(hash, idx, loc)
		bad := false
		for _, o := range m.Obj {
			for _, v := range o.V {
				if v.Hash == hash && (idx < 0 || idx >= len(v.Locate)) {
					bad = true
				}
			}
		}
		if bad {
			if got == "ok" {
				return "location index out of range accepted"
			}
			return ""
		}
		for _, o := range m.Obj {
			for _, v := range o.V {
				if v.Hash == hash {
					v.Locate = append([]string{}, v.Locate...)
					v.Locate[idx] = loc
					v.Ts = -1 // any
				}
			}
		}
		return expect(got, "ok")
	}}
}

func AddBucket(name string) Step {
	return Step{"create-bucket " + name, func(f Front, m *Model, adv func()) string {
		b := msg.Bucket{Name: name, Versioning: true, VersionRemains: 3, Policies: []string{"p"}}
		t := now()
		c := b
		got := f.AddBucket(&c)
		if m.Buck[name] != nil {
			return expect(got, "refused")
		}
		b.CreateTime, b.UpdateTime = t, t
		m.Buck[name] = &b
		return expect(got, "ok")
	}}
}

func UpdBucket(name string) Step {
	return Step{"update-bucket " + name, func(f Front, m *Model, adv func()) string {
		for i := 0; i < 2; i++ {
			b := msg.Bucket{Name: name, Readonly: true, StoreStrategy: 1, CreateTime: 5, Policies: []string{"q", "r"}}
			t := now()
			c := b
			got := f.UpdBucket(&c)
			o := m.Buck[name]
			if o == nil {
				if e := expect(got, "notfound"); e != "" {
					return e
				}
				continue
			}
			if t <= o.UpdateTime {
				if e := expect(got, "refused"); e != "" {
					return "out-of-date update: " + e
				}
				continue
			}
			if e := expect(got, "ok"); e != "" {
				return e
			}
			b.CreateTime, b.UpdateTime = o.CreateTime, t
			m.Buck[name] = &b
		}
		return ""
	}}
}

func DelBucket(name string) Step {
	return Step{"delete-bucket " + name, func(f Front, m *Model, adv func()) string {
		got := f.DelBucket(name)
		delete(m.Buck, name)
		return expect(got, "ok")
	}}
}

// ---- reading everything back ----

func (m *Model) sameVer(name string, got *msg.Version, want *msg.Version) string {
	if got == nil {
		return "nothing returned"
	}
	a, b := *got, *want
	if a.UniqueId == "" {
		return "version without unique id"
	}
	if b.UniqueId == "" {
		b.UniqueId = a.UniqueId
	}
	if b.Ts == -1 {
		b.Ts = a.Ts
	}
	if !reflect.DeepEqual(a, b) {
		return fmt.Sprintf("version %d of %s reads %+v, stored was %+v", want.Sequence, name, a, b)
	}
	return ""
}

// Learn takes over from the store what only the server chooses: unique ids of new
// versions and times of moved locations.  From then on they are fixed.
func (m *Model) Learn(n *Node) {
	_ = n.Store.DB().View(func(tx *bolt.Tx) error {
		for name, o := range m.Obj {
			for q, w := range o.V {
				if w.UniqueId != "" && w.Ts != -1 {
					continue
				}
				var v msg.Version
				if logic.GetVer(name, q, &v)(tx) == nil {
					if w.UniqueId == "" {
						w.UniqueId = v.UniqueId
					}
					if w.Ts == -1 {
						w.Ts = v.Ts
					}
				}
			}
		}
		return nil
	})
}

func sameMeta(got *msg.Metadata, want msg.Metadata) string {
	if got == nil {
		return "nothing returned"
	}
	g := *got
	g.Extra = nil
	if g != want {
		return fmt.Sprintf("metadata reads %+v, stored was %+v", g, want)
	}
	return ""
}

// ReadObjects compares every read of objects and versions with the model.
func (m *Model) ReadObjects(f Front, names []string) string {
	for _, n := range names {
		o := m.Obj[n]
		md, c := f.GetMeta(n, false)
		if o == nil {
			if e := expect(c, "notfound"); e != "" {
				return "get " + n + ": " + e
			}
		} else {
			if e := expect(c, "ok"); e != "" {
				return "get " + n + ": " + e
			}
			if e := sameMeta(md, o.M); e != "" {
				return e
			}
		}
		md, c = f.GetMeta(n, true)
		if o == nil {
			if e := expect(c, "notfound"); e != "" {
				return "get with totals " + n + ": " + e
			}
		} else {
			if e := expect(c, "ok"); e != "" {
				return "get with totals " + n + ": " + e
			}
			if e := sameMeta(md, o.M); e != "" {
				return e
			}
			s := o.Seqs()
			want := msg.Extra{Total: len(s)}
			if len(s) > 0 {
				want.FirstVersion, want.LastVersion = int(s[0]), int(s[len(s)-1])
			}
			if md.Extra == nil || *md.Extra != want {
				return fmt.Sprintf("totals of %s are %+v, must be %+v", n, md.Extra, want)
			}
		}
		// single versions
		var probe []int
		top := 2
		if o != nil {
			top = int(o.Next) + 1
		}
		for i := -1; i <= top; i++ {
			probe = append(probe, i)
		}
		for _, q := range probe {
			v, c := f.GetVer(n, q)
			seq := uint64(q)
			if q <= 0 {
				seq = 0
				if o != nil && len(o.V) > 0 {
					s := o.Seqs()
					seq = s[len(s)-1]
				}
			}
			if o == nil || o.V[seq] == nil {
				if e := expect(c, "notfound"); e != "" {
					return fmt.Sprintf("get version %d of %s: %s", q, n, e)
				}
				continue
			}
			if e := expect(c, "ok"); e != "" {
				return fmt.Sprintf("get version %d of %s: %s", q, n, e)
			}
			if e := m.sameVer(n, v, o.V[seq]); e != "" {
				return fmt.Sprintf("get version %d: %s", q, e)
			}
		}
		// pages
		for _, size := range []int{1, 2, 5, 100} {
			var seen []uint64
			for page := 1; page < 40; page++ {
				l, total, c := f.ListVer(n, page, size)
				if o == nil {
					if c == "ok" && (len(l) > 0 || total > 0) {
						return fmt.Sprintf("listing versions of missing %s returned %d", n, len(l))
					}
					break
				}
				if e := expect(c, "ok"); e != "" {
					return fmt.Sprintf("list versions of %s page %d size %d: %s", n, page, size, e)
				}
				if total != len(o.V) {
					return fmt.Sprintf("list versions of %s: total %d, must be %d", n, total, len(o.V))
				}
				if len(l) > size {
					return fmt.Sprintf("list versions of %s: page of size %d has %d entries", n, size, len(l))
				}
				if len(l) == 0 {
					break
				}
				for _, v := range l {
					seen = append(seen, v.Sequence)
					w := o.V[v.Sequence]
					if w == nil {
						return fmt.Sprintf("list versions of %s returns version %d which does not exist", n, v.Sequence)
					}
					if e := m.sameVer(n, v, w); e != "" {
						return "list versions: " + e
					}
				}
			}
			if o != nil && fmt.Sprint(seen) != fmt.Sprint(o.Seqs()) {
				return fmt.Sprintf("pages of size %d of the versions of %s list %v, must be %v", size, n, seen, o.Seqs())
			}
		}
	}
	var all []string
	for n := range m.Obj {
		all = append(all, n)
	}
	sort.Strings(all)
	for _, p := range []string{"", "a", "a.", "z"} {
		var want []string
		for _, n := range all {
			if strings.HasPrefix(n, p) {
				want = append(want, n)
			}
		}
		for _, size := range []int{1, 2, 50} {
			l, total, c := f.ListMeta(p, size)
			if c == "notfound" && len(all) == 0 {
				continue
			}
			if e := expect(c, "ok"); e != "" {
				return fmt.Sprintf("list %q size %d: %s", p, size, e)
			}
			var got []string
			for _, x := range l {
				got = append(got, x.Name)
				if m.Obj[x.Name] == nil {
					return fmt.Sprintf("list %q returns missing %s", p, x.Name)
				}
				if e := sameMeta(x, m.Obj[x.Name].M); e != "" {
					return e
				}
			}
			w := want
			if len(w) > size {
				w = w[:size]
			}
			if strings.Join(got, ",") != strings.Join(w, ",") {
				return fmt.Sprintf("list %q size %d returns %v, must be %v", p, size, got, w)
			}
			if total != len(want) {
				return fmt.Sprintf("list %q size %d: total %d, must be %d", p, size, total, len(want))
			}
		}
	}
	return ""
}

// ReadHashes compares the lookup by content hash with the model.
func (m *Model) ReadHashes(f Front, hashes []string) string {
	for _, h := range hashes {
		var want []*msg.Version
		var owner []string
		var names []string
		for n := range m.Obj {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			o := m.Obj[n]
			for _, q := range o.Seqs() {
				if o.V[q].Hash == h {
					want = append(want, o.V[q])
					owner = append(owner, n)
				}
			}
		}
		l, c := f.ByHash(h)
		if c == "notfound" && len(want) == 0 {
			continue
		}
		if e := expect(c, "ok"); e != "" {
			return "find by hash " + h + ": " + e
		}
		if len(l) != len(want) {
			return fmt.Sprintf("find by hash %s returns %d versions, %d exist", h, len(l), len(want))
		}
		// match each, in any order
		used := map[int]bool{}
		for _, g := range l {
			ok := false
			for i, w := range want {
				if !used[i] && m.sameVer(owner[i], g, w) == "" {
					used[i], ok = true, true
					break
				}
			}
			if !ok {
				var lw []string
				for i, w := range want {
					lw = append(lw, fmt.Sprintf("%s:%+v", owner[i], *w))
				}
				return fmt.Sprintf("find by hash %s returns %+v, which matches no live version of %v", h, *g, lw)
			}
		}
	}
	return ""
}

// ReadBuckets compares bucket reads with the model.
func (m *Model) ReadBuckets(f Front, names []string) string {
	for _, n := range names {
		b, c := f.GetBucket(n)
		w := m.Buck[n]
		if w == nil {
			if e := expect(c, "notfound"); e != "" {
				return "get bucket " + n + ": " + e
			}
			continue
		}
		if e := expect(c, "ok"); e != "" {
			return "get bucket " + n + ": " + e
		}
		if !reflect.DeepEqual(*b, *w) {
			return fmt.Sprintf("bucket %s reads %+v, stored was %+v", n, *b, *w)
		}
	}
	var all []string
	for n := range m.Buck {
		all = append(all, n)
	}
	sort.Strings(all)
	for _, p := range []string{"", "b", "ba", "z"} {
		var want []string
		for _, n := range all {
			if strings.HasPrefix(n, p) {
				want = append(want, n)
			}
		}
		for _, size := range []int{1, 2, 50} {
			l, total, c := f.ListBucket(p, size)
			if e := expect(c, "ok"); e != "" {
				return fmt.Sprintf("list buckets %q: %s", p, e)
			}
			var got []string
			for _, x := range l {
				got = append(got, x.Name)
				if w := m.Buck[x.Name]; w == nil || !reflect.DeepEqual(*x, *w) {
					return fmt.Sprintf("list buckets %q returns %+v, stored was %+v", p, *x, w)
				}
			}
			w := want
			if len(w) > size {
				w = w[:size]
			}
			if strings.Join(got, ",") != strings.Join(w, ",") {
				return fmt.Sprintf("list buckets %q size %d returns %v, must be %v", p, size, got, w)
			}
			if total != len(want) {
				return fmt.Sprintf("list buckets %q size %d: total %d, must be %d", p, size, total, len(want))
			}
		}
	}
	return ""
}
