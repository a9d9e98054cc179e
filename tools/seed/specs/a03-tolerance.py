import os
edits=[('src/apiserver/config/config.go', '\treturn int(toleranceNum)', '\treturn int(toleranceNum + 0.5)')]
needs='a tolerance rate whose product with the number of copies is rounded up'
breaks='Lost copies beyond the tolerance are not restored.'
demo=open(os.path.join(V,"tools/seed/demokit.go.txt")).read()+'\nfunc TestDemo(t *testing.T) {\n\tfor n := 1; n <= 6; n++ {\n\t\tfor _, rate := range []float32{0.1, 0.25, 0.3, 0.5, 0.55, 0.7, 0.9} {\n\t\t\tfor lost := 0; lost < n; lost++ {\n\t\t\t\tsrv, addrs := demoStart(n)\n\t\t\t\tfor i, s := range srv {\n\t\t\t\t\tif i >= lost {\n\t\t\t\t\t\ts.m[fmt.Sprintf("objects/h.%d", i)] = "content"\n\t\t\t\t\t}\n\t\t\t\t}\n\t\t\t\tcfg := &config.ReplicationConfig{CopiesCount: n, LossToleranceRate: rate, BlockSize: 64}\n\t\t\t\tupdated := false\n\t\t\t\tr, err := NewCopyGetStream(&StreamOption{Hash: "h", Locates: append([]string(nil), addrs...), Size: 7,\n\t\t\t\t\tUpdater: func([]string) error { updated = true; return nil }}, cfg)\n\t\t\t\tif err != nil {\n\t\t\t\t\tt.Fatal(err)\n\t\t\t\t}\n\t\t\t\tif got, err := io.ReadAll(r); err != nil || string(got) != "content" {\n\t\t\t\t\tt.Fatal(string(got), err)\n\t\t\t\t}\n\t\t\t\tif err = r.Close(); err != nil {\n\t\t\t\t\tt.Fatal(err)\n\t\t\t\t}\n\t\t\t\tif want := float64(lost) > float64(rate)*float64(n); want != updated {\n\t\t\t\t\tt.Fatal(n, rate, lost, want)\n\t\t\t\t}\n\t\t\t}\n\t\t}\n\t}\n}\n'
