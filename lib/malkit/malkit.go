// Package malkit enumerates malformed requests: every parameter of every route over all its malformed values,
// one or two of them at a time.
package malkit

import (
	"common/vkit"
	"fmt"
	"net/url"
	"sort"
	"strings"
)

// Missing as a value leaves the parameter out
const Missing = "\x00"

// Field is a parameter of a route
type Field struct {
	In, Name, Good string // In: path, query, header, body
	Bad            []string
}

// Route is a well-formed request and the ways in which it can be malformed
type Route struct {
	Method, Path string
	Fields       []Field
	// Idempotent: with nothing to do it may be answered as done
	Idempotent bool
	// Partial: the well-formed request needs more than there is
	Partial bool
}

// Request to be sent
type Request struct {
	Method, Path, Body string
	Header             map[string]string
	NoBody             bool
	Why                string
}

func (r Request) String() string {
	var hs []string
	for k, v := range r.Header {
		hs = append(hs, k+": "+v)
	}
	sort.Strings(hs)
	b := r.Body
	if len(b) > 80 {
		b = b[:80] + "..."
	}
	return fmt.Sprintf("%s %s [%s] %q", r.Method, r.Path, strings.Join(hs, ", "), b)
}

// World is a server in some state
type World interface {
	Do(r Request) (code int)
	// State is everything there is
	State() string
	// Finish goes on as usual and says what is wrong
	Finish() string
	Close()
}

func (rt Route) build(vals map[int]string) Request {
	r := Request{Method: rt.Method, Path: rt.Path, Header: map[string]string{}, NoBody: true}
	q := url.Values{}
	var why []string
	for i, f := range rt.Fields {
		v := f.Good
		if b, ok := vals[i]; ok {
			v = b
			show := v
			if len(show) > 40 {
				show = show[:40] + "..."
			}
			if v == Missing {
				show = "(missing)"
			}
			why = append(why, fmt.Sprintf("%s %s=%q", f.In, f.Name, show))
		}
		switch f.In {
		case "path":
			r.Path = strings.ReplaceAll(r.Path, "{"+f.Name+"}", v)
		case "query":
			if v != Missing {
				q.Set(f.Name, v)
			}
		case "header":
			if v != Missing {
				r.Header[f.Name] = v
			}
		case "body":
			if v != Missing {
				r.Body, r.NoBody = v, false
			}
		}
	}
	if s := q.Encode(); s != "" {
		r.Path += "?" + s
	}
	r.Why = strings.Join(why, " and ")
	return r
}

// Good is the well-formed request
func (rt Route) Good() Request { return rt.build(nil) }

// Malformed are all requests with one to n malformed parameters
func (rt Route) Malformed(n int) (res []Request) {
	var rec func(from int, vals map[int]string)
	rec = func(from int, vals map[int]string) {
		if len(vals) > 0 {
			res = append(res, rt.build(vals))
		}
		if len(vals) == n {
			return
		}
		for i := from; i < len(rt.Fields); i++ {
			for _, b := range rt.Fields[i].Bad {
				next := map[int]string{i: b}
				for k, v := range vals {
					next[k] = v
				}
				rec(i+1, next)
			}
		}
	}
	rec(0, map[int]string{})
	return
}

func (rt Route) refused(code int) bool {
	return code >= 400 && code < 600 || rt.Idempotent && code == 204
}

// Check sends them all, in every world
func Check(c *vkit.Ctx, server string, worlds map[string]func() World, routes func(w World) []Route, depth int) {
	names := make([]string, 0, len(worlds))
	for n := range worlds {
		names = append(names, n)
	}
	sort.Strings(names)
	// try reports what is wrong with one request in a new world
	try := func(wn string, route, k int) (kind, text string) {
		w := worlds[wn]()
		defer w.Close()
		r := routes(w)[route].Malformed(depth)[k]
		before := w.State()
		if code := w.Do(r); !routes(w)[route].refused(code) {
			return "answer", fmt.Sprintf("%s is answered %d (malformed: %s)", r, code, r.Why)
		}
		if after := w.State(); after != before {
			return "effect", fmt.Sprintf("%s (malformed: %s) has an effect: %s", r, r.Why, Diff(before, after))
		}
		if e := w.Finish(); e != "" {
			return "after", fmt.Sprintf("after %s (malformed: %s): %s", r, r.Why, e)
		}
		return "", ""
	}
	// good reports how the well-formed request is answered. There is one world at a time.
	good := func(wn string, i int) (int, Request) {
		w := worlds[wn]()
		defer w.Close()
		r := routes(w)[i].Good()
		c.Cur("%s %s: well-formed %s", server, wn, r)
		return w.Do(r), r
	}
	idx, dirty := 0, 0
	for _, wn := range names {
		wn := wn
		w := worlds[wn]()
		rs := routes(w)
		w.Close()
		for i := range rs {
			i := i
			if idx++; !c.Mine(idx) || rs[i].Partial {
				continue
			}
			code, r := good(wn, i)
			c.Eval(server + " " + wn + " " + rs[i].Good().Path)
			if code >= 400 {
				c.Fail(fmt.Sprintf("%s %s %s well-formed", server, rs[i].Method, rs[i].Path), func() bool { k, _ := good(wn, i); return k >= 400 },
					"%s, %s: the well-formed request %s is answered %d", server, wn, r, code)
			}
		}
		w = worlds[wn]()
		rs = routes(w)
		before := w.State()
		for i := 0; i < len(rs); i++ {
			i := i
			ms := rs[i].Malformed(depth)
			for k := 0; k < len(ms); k++ {
				if idx++; !c.Mine(idx) {
					continue
				}
				if c.Expired() {
					c.NotExhaustive("out of time")
					w.Close()
					return
				}
				k, r := k, ms[k]
				c.Cur("%s %s: %s", server, wn, r)
				code := w.Do(r)
				after := w.State()
				c.Transition()
				c.Eval(server + " " + wn + " " + rs[i].Method + rs[i].Path + r.Why)
				if rs[i].refused(code) && after == before {
					continue
				}
				w.Close()
				kind, text := try(wn, i, k)
				if kind == "" {
					c.Fail(fmt.Sprintf("%s %s %s history", server, rs[i].Method, rs[i].Path), nil,
						"%s, %s: %s (malformed: %s) after other malformed requests: answer %d, %s", server, wn, r, r.Why, code, Diff(before, after))
				} else {
					c.Fail(fmt.Sprintf("%s %s %s %s", server, rs[i].Method, rs[i].Path, kind), func() bool { k2, _ := try(wn, i, k); return k2 != "" }, "%s, %s: %s", server, wn, text)
				}
				if dirty++; dirty >= 40 {
					return
				}
				w = worlds[wn]()
				before = w.State()
				rs = routes(w)
				ms = rs[i].Malformed(depth)
			}
		}
		if e := w.Finish(); e != "" {
			c.Fail(server+" "+wn+" finish", nil, "%s, %s, after all the malformed requests: %s", server, wn, e)
		}
		c.State(server + " " + wn)
		w.Close()
	}
}

// Diff of two multi-line states
func Diff(a, b string) string {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	in := func(l []string, s string) bool {
		for _, x := range l {
			if x == s {
				return true
			}
		}
		return false
	}
	var res []string
	for _, l := range as {
		if !in(bs, l) {
			res = append(res, "- "+l)
		}
	}
	for _, l := range bs {
		if !in(as, l) {
			res = append(res, "+ "+l)
		}
	}
	if len(res) == 0 {
		return "none"
	}
	return strings.Join(res, "; ")
}
