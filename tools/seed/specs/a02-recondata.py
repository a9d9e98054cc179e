import os
edits=[('src/apiserver/internal/usecase/service/rs_decoder.go', 'd.enc.Reconstruct(shards)', 'd.enc.ReconstructData(shards)')]
needs='a lost parity shard'
breaks='A lost parity shard is not restored exactly by a degraded read.'
demo=open(os.path.join(V,"tools/seed/demokit.go.txt")).read()+'\nfunc demoStore(t *testing.T, addrs []string, content string, cfg *config.RsConfig) {\n\ts, err := NewRSPutStream(&StreamOption{Hash: "h", Locates: addrs, Size: int64(len(content))}, cfg)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif _, err = io.WriteString(s, content); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif err = s.Commit(true); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc TestDemo(t *testing.T) {\n\tfor lost := 0; lost < 3; lost++ {\n\t\tsrv, addrs := demoStart(4)\n\t\tcfg := &config.RsConfig{DataShards: 2, ParityShards: 1, BlockPerShard: 4}\n\t\tcontent := "abcdefghijk"\n\t\tdemoStore(t, addrs[:3], content, cfg)\n\t\tkey := fmt.Sprintf("objects/h.%d", lost)\n\t\twant := srv[lost].m[key]\n\t\tif want == "" {\n\t\t\tt.Fatal("not stored")\n\t\t}\n\t\tdelete(srv[lost].m, key)\n\t\tloc := append([]string(nil), addrs[:3]...)\n\t\tvar locs []string\n\t\tr, err := NewRSGetStream(&StreamOption{Hash: "h", Locates: loc, Size: int64(len(content)),\n\t\t\tUpdater: func(l []string) error { locs = append([]string(nil), l...); return nil }}, cfg)\n\t\tif err != nil {\n\t\t\tt.Fatal(err)\n\t\t}\n\t\tgot, err := io.ReadAll(r)\n\t\tif err != nil || string(got) != content {\n\t\t\tt.Fatal(len(got), err)\n\t\t}\n\t\tif err = r.Close(); err != nil || len(locs) != 3 {\n\t\t\tt.Fatal(lost, err, locs)\n\t\t}\n\t\tfor i, a := range addrs {\n\t\t\tif a == locs[lost] && srv[i].m[key] != want {\n\t\t\t\tt.Fatalf("shard %d is %q instead of %q", lost, srv[i].m[key], want)\n\t\t\t}\n\t\t}\n\t}\n}\n'
