edits=[('src/common/performance/store.go','''		totalMap[key] += item.Cost
		sizeMap[key]++
''','''		// keep a running mean: the total of many samples could overflow
		sizeMap[key]++
		totalMap[key] += (item.Cost - totalMap[key]) / time.Duration(sizeMap[key])
'''),('src/common/performance/store.go','''			Cost:   total / time.Duration(sizeMap[k]),
''','''			Cost:   total,
''')]
needs='three or more samples whose differences are not multiples of their numbers'
breaks='The truncated steps of the running mean add up: the average is not that of the samples.'
demo='''package performance

import "testing"

type one struct{ Store }

func (one) Get(string, string) ([]*Perform, error) {
	var r []*Perform
	for _, c := range []int{10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20} {
		r = append(r, &Perform{KindOf: "http", Action: "read", Cost: 7})
		r = append(r, &Perform{KindOf: "grpc", Action: "read"})
		r[len(r)-1].Cost = r[len(r)-1].Cost + 0
		for i := 0; i < c; i++ {
			r[len(r)-1].Cost++
		}
	}
	return r, nil
}

func TestDemo(t *testing.T) {
	l, err := AvgSumStore(one{}).Average("", "")
	if err != nil || len(l) != 2 {
		t.Fatal(l, err)
	}
	for _, p := range l {
		if p.KindOf == "http" && p.Cost != 7 || p.KindOf == "grpc" && p.Cost != 15 {
			t.Fatal(p.KindOf, p.Cost)
		}
	}
}
'''
