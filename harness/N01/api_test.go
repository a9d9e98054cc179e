package apikit_test

import (
	"apiserver/internal/apikit"
	"apiserver/internal/entity"
	"common/malkit"
	"common/objmodel"
	"common/util/crypto"
	"common/vkit"
	"fmt"
	"strings"
	"testing"
	"time"

	"apiserver/internal/usecase/pool"
)

// apiN1 is an api server with a replicated and an erasure-coded object and an upload that has begun
type apiN1 struct {
	c            *apikit.Cluster
	token, fresh string // uploads: 16 bytes appended, nothing appended
}

var clusterN1 *apikit.Cluster

var copiedN1, codedN1, bigN1, freshN1 = apikit.Content(1, 300), apikit.Content(2, 500), apikit.Content(3, 41), apikit.Content(4, 41)

func openApiN1(c *vkit.Ctx) *apiN1 {
	if clusterN1 == nil {
		cfg := apikit.Config(2, 1, 4)
		cfg.Object.Replication.CopiesCount = 2
		cfg.Object.Checksum = true
		cfg.Object.DistinctTimeout = 2 * time.Millisecond
		clusterN1 = apikit.New(4, 1, cfg)
		clusterN1.Conf = cfg
	}
	cl := clusterN1
	pool.Config = cl.Conf
	pool.Balancer = apikit.Balance{}
	cl.Reset(objmodel.NewWorld(4))
	cl.Meta.Clear()
	cl.Meta.Buckets["b"] = entity.Bucket{Versioning: true, VersionRemains: 5}
	w := &apiN1{c: cl}
	ok := func(a apikit.Answer) {
		if a.Code/100 != 2 {
			panic("cannot prepare: " + a.String())
		}
	}
	ok(cl.Put("b", "copied", crypto.SHA256([]byte(copiedN1)), "?ss=2", copiedN1))
	ok(cl.Put("b", "coded", crypto.SHA256([]byte(codedN1)), "?ss=1&compress=true", codedN1))
	begin := func(name, content string) string {
		a := cl.Do("POST", "/v1/big/"+name, map[string]string{"bucket": "b", "digest": crypto.SHA256([]byte(content)), "size": fmt.Sprint(len(content))}, strings.NewReader(""), 0)
		ok(a)
		return strings.TrimPrefix(a.Header.Get("Location"), "/v1/big/")
	}
	w.token, w.fresh = begin("large", bigN1), begin("fresh", freshN1)
	ok(cl.Do("PATCH", "/v1/big/"+w.token, map[string]string{"Range": "bytes=0-"}, strings.NewReader(bigN1[:16]), 16))
	apikit.Quiet()
	return w
}

func (w *apiN1) Do(r malkit.Request) int {
	var a apikit.Answer
	if r.NoBody {
		a = w.c.Do(r.Method, r.Path, r.Header, nil, 0)
	} else {
		length := int64(len(r.Body))
		if r.Body == "unknown length" {
			length = -1
		}
		a = w.c.Do(r.Method, r.Path, r.Header, strings.NewReader(r.Body), length)
	}
	apikit.Quiet()
	if a.Code == 0 {
		return 999
	}
	return a.Code
}

func (w *apiN1) State() string {
	var l []string
	for _, o := range []string{"copied", "coded", "large", "fresh", "new"} {
		for _, v := range w.c.Meta.Versions("b", o) {
			l = append(l, fmt.Sprintf("version of %s: %+v", o, v))
		}
	}
	for _, s := range strings.Split(w.c.World.Dump(), "\n") {
		l = append(l, "stored: "+s)
	}
	l = append(l, fmt.Sprintf("buckets: %+v", w.c.Meta.Buckets))
	l = append(l, fmt.Sprintf("uploads: %d", w.c.World.TempCount(true)))
	return strings.Join(l, "\n")
}

func (w *apiN1) Finish() string {
	for o, want := range map[string]string{"copied": copiedN1, "coded": codedN1} {
		if a := w.c.Get("b", o, 1, 0); a.Code != 200 || a.Body != want {
			return fmt.Sprintf("GET of %s answers %d and %d bytes", o, a.Code, len(a.Body))
		}
	}
	for _, u := range []struct {
		name, token, content string
		done                 int
	}{{"large", w.token, bigN1, 16}, {"fresh", w.fresh, freshN1, 0}} {
		rest := u.content[u.done:]
		a := w.c.Do("PATCH", "/v1/big/"+u.token, map[string]string{"Range": fmt.Sprintf("bytes=%d-", u.done)}, strings.NewReader(rest), int64(len(rest)))
		if !a.OK() {
			return "the rest of the upload of " + u.name + ": " + a.String()
		}
		if a = w.c.Get("b", u.name, 0, 0); a.Code != 200 || a.Body != u.content {
			return fmt.Sprintf("GET of the upload %s answers %d and %d bytes", u.name, a.Code, len(a.Body))
		}
	}
	apikit.Quiet()
	return ""
}

func (w *apiN1) Close() {}

func TestVerifN01Api(t *testing.T) {
	vkit.Run(t, "N01", func(c *vkit.Ctx) {
		c.Rule("a malformed request is right when it is answered with a status of 400 or more, changes no version, shard or upload, and everything can go on afterwards")
		bad := []string{"abc", "1.5", "0x1", "99999999999999999999"}
		num := append([]string{"0", "", malkit.Missing}, bad...)
		flag := []string{"maybe", "2", "yes"}
		content := apikit.Content(9, 50)
		sum := crypto.SHA256([]byte(content))
		body := malkit.Field{In: "body", Name: "content", Good: content, Bad: []string{malkit.Missing, "", "another content", "unknown length"}}
		name := func(good string, bad ...string) malkit.Field {
			return malkit.Field{In: "path", Name: "name", Good: good, Bad: bad}
		}
		bucket := malkit.Field{In: "header", Name: "bucket", Good: "b", Bad: []string{malkit.Missing, "", "none"}}
		digest := malkit.Field{In: "header", Name: "digest", Good: sum, Bad: []string{malkit.Missing, ""}}
		rng := func(good string, more ...string) malkit.Field {
			return malkit.Field{In: "header", Name: "Range", Good: good, Bad: append([]string{"abc", "bytes", "bytes=", "bytes=-", "bytes=x-", "bytes=-5", "bytes=9-3", "bytes=1.5-",
				"bytes=--1", "bytes=99999999999999999999-", "bytes=1-x", "items=0-"}, more...)}
		}
		js := func(good string, more ...string) malkit.Field {
			return malkit.Field{In: "body", Name: "content", Good: good,
				Bad: append([]string{malkit.Missing, "", "{", "[]", "5", "abc", good[:len(good)-1]}, more...)}
		}
		routes := func(mw malkit.World) []malkit.Route {
			w := mw.(*apiN1)
			tokens := []string{"none", "%00", "a.b.c", w.token[:len(w.token)-4], strings.Repeat("x", 100)}
			return []malkit.Route{
				{Method: "PUT", Path: "/v1/objects/{name}", Fields: []malkit.Field{name("new"), bucket, digest, body,
					{In: "query", Name: "ss", Good: "2", Bad: append([]string{"999"}, bad...)}, {In: "query", Name: "compress", Good: "true", Bad: flag}}},
				{Method: "GET", Path: "/v1/objects/{name}", Fields: []malkit.Field{name("copied", "none"), bucket,
					{In: "query", Name: "version", Good: "1", Bad: append([]string{"-1", "-2", "7"}, bad...)}, rng("bytes=3-")}},
				{Method: "POST", Path: "/v1/big/{name}", Fields: []malkit.Field{name("new"), bucket, digest,
					{In: "header", Name: "size", Good: "50", Bad: append([]string{"-1"}, num...)}, {In: "query", Name: "compress", Good: "true", Bad: flag}}},
				{Method: "HEAD", Path: "/v1/big/{name}", Fields: []malkit.Field{name(w.token, tokens...)}},
				{Method: "PATCH", Path: "/v1/big/{name}", Fields: []malkit.Field{name(w.token, tokens...), rng("bytes=16-", "bytes=0-", "bytes=8-", "bytes=17-", malkit.Missing, ""),
					{In: "body", Name: "content", Good: bigN1[16:32]}}},
				{Method: "PATCH", Path: "/v1/big/{name}", Fields: []malkit.Field{name(w.fresh), rng("bytes=0-", "bytes=8-", "bytes=a-3", "0-3", malkit.Missing, ""),
					{In: "body", Name: "content", Good: freshN1[:16]}}},
				{Method: "GET", Path: "/v1/metadata/{name}", Fields: []malkit.Field{name("copied", "none"), bucket,
					{In: "query", Name: "version", Good: "1", Bad: append([]string{"7"}, bad...)}}},
				{Method: "GET", Path: "/v1/metadata/{name}/versions", Partial: true, Fields: []malkit.Field{name("copied"), bucket,
					{In: "query", Name: "page", Good: "1", Bad: num}, {In: "query", Name: "page_size", Good: "2", Bad: num}}},
				{Method: "POST", Path: "/v1/bucket", Fields: []malkit.Field{js(`{"name":"new"}`, `{}`, `{"name":""}`, `{"name":5}`, `{"name":"new","versioning":"x"}`)}},
				{Method: "PUT", Path: "/v1/bucket/{name}", Fields: []malkit.Field{name("b"), js(`{"versioning":true}`, `{"versioning":"x"}`, `{"versionRemains":"x"}`, `{"dataShards":1.5}`)}},
			}
		}
		malkit.Check(c, "api server", map[string]func() malkit.World{"begun": func() malkit.World { return openApiN1(c) }}, routes, c.N(3, 4))
	})
}
