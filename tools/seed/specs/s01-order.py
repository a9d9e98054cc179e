edits=[('src/adminserver/internal/usecase/db/server_stat_db.go','''		elm := st.mem.Front()
		elm.Value = mem
		st.mem.MoveToBack(elm)
''','''		st.mem.Front().Value = mem
''')]
needs='more than 59 samples of one server, the memory time line'
breaks='Every new sample of the memory takes the place of the oldest one without moving to the end: the time line is out of order and keeps outdated samples.'
demo='''package db

import "testing"

func TestDemo(t *testing.T) {
	st := newStatTimeline()
	for i := 0; i < 70; i++ {
		st.Append(&TimeStat{Percent: float64(i)}, &TimeStat{Percent: float64(i)})
	}
	l := st.MEMTimeline()
	for i, v := range l {
		if v.Percent != float64(70-len(l)+i) {
			t.Fatal(i, v.Percent)
		}
	}
}
'''
