edits=[('src/apiserver/internal/usecase/componet/selector/selectors.go','		i.used, i.IPs = i.IPs, i.used','		// reuse the memory\n		i.IPs, i.used = i.used, i.used[:0]')]
needs='an object with more shards than servers (a second round), and the random selector, which takes servers from the end of the list'
breaks='The used servers overwrite those still to be used: some servers get several shards of a round and others none.'
demo='''package selector

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	for _, n := range []int{2, 3, 4, 5} {
		for k := 0; k < 200; k++ {
			var ips []string
			for i := 0; i < n; i++ {
				ips = append(ips, fmt.Sprint("s", i))
			}
			s := IPSelector{Selector: NewSelector("random"), IPs: ips}
			got := map[string]int{}
			for i := 1; i <= 3*n; i++ {
				got[s.Select()]++
				if i%n == 0 {
					for j := 0; j < n; j++ {
						if got[fmt.Sprint("s", j)] != i/n {
							t.Fatal(n, i, got)
						}
					}
				}
			}
		}
	}
}
'''
