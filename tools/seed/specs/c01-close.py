edits=[("src/common/util/done_group.go","""func (d *doneGroup) Close() {
	if d.closed.CompareAndSwap(false, true) && d.ec != nil {""","""func (d *doneGroup) Close() {
	if d.ec != nil && !d.closed.Swap(true) || len(d.ec) > 0 {""")]
needs="a worker delivers its error, nobody has received it yet, and the owner closes the group"
breaks="Close on a group whose error is still unread closes the channel a second time and panics in the waiter instead of leaving the error to be read."
demo='''package util_test

import (
	"common/util"
	"errors"
	"testing"
)

func TestDemo(t *testing.T) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("closing a failed group panicked: %v", r)
		}
	}()
	g := util.NewDoneGroup()
	g.Todo()
	go func() { defer g.Done(); g.Error(errors.New("x")) }()
	g.Wait()
	g.Close()
	if e := <-g.WaitError(); e == nil {
		t.Fatal("error lost")
	}
}
'''
