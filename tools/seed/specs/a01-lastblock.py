import os
edits=[('src/apiserver/internal/usecase/service/rs_decoder.go', '\t\tif d.total+shardSize > d.size {', '\t\tif i == d.rsCfg.DataShards-1 && d.total+shardSize > d.size {')]
needs='an object whose last block has at least one data shard that is only padding'
breaks='Reads of such an object return padding, or fail.'
demo=open(os.path.join(V,"tools/seed/demokit.go.txt")).read()+'\nfunc demoStore(t *testing.T, addrs []string, content string, cfg *config.RsConfig) {\n\ts, err := NewRSPutStream(&StreamOption{Hash: "h", Locates: addrs, Size: int64(len(content))}, cfg)\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif _, err = io.WriteString(s, content); err != nil {\n\t\tt.Fatal(err)\n\t}\n\tif err = s.Commit(true); err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n\nfunc TestDemo(t *testing.T) {\n\tfor n := 1; n < 40; n++ {\n\t\tcontent := strings.Repeat("abcdefg", 10)[:n]\n\t\t{\n\t\t\tcfg := &config.RsConfig{DataShards: 4, ParityShards: 2, BlockPerShard: 4}\n\t\t\t_, addrs := demoStart(6)\n\t\t\tdemoStore(t, addrs, content, cfg)\n\t\t\tr, err := NewRSGetStream(&StreamOption{Hash: "h", Locates: addrs, Size: int64(n)}, cfg)\n\t\t\tif err != nil {\n\t\t\t\tt.Fatal(n, err)\n\t\t\t}\n\t\t\tgot, err := io.ReadAll(r)\n\t\t\tif err != nil || string(got) != content {\n\t\t\t\tt.Fatal(n, len(got), err)\n\t\t\t}\n\t\t\tr.Close()\n\t\t}\n\t}\n}\n'
