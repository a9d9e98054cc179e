edits=[("src/common/util/done_group.go","""	ldg.limitChan <- struct{}{}
	ldg.DoneGroup.Todo()""","""	select {
	case ldg.limitChan <- struct{}{}:
	default:
		// full: wait for a worker to finish
		<-ldg.limitChan
	}
	ldg.DoneGroup.Todo()""")]
needs="more workers than the limit while all slots are taken"
breaks="A limited group starts another worker without waiting once it is full, so more workers than the limit run at once (and a finishing worker blocks)."
demo='''package util_test

import (
	"common/util"
	"testing"
	"time"
)

func TestDemo(t *testing.T) {
	g := util.LimitDoneGroup(1)
	started := make(chan int, 4)
	release := make(chan struct{})
	go func() {
		for i := 0; i < 2; i++ {
			g.Todo()
			go func(i int) { defer g.Done(); started <- i; <-release }(i)
		}
	}()
	<-started
	select {
	case <-started:
		t.Fatal("two workers run at once with limit 1")
	case <-time.After(2 * time.Second):
	}
	close(release)
}
'''
