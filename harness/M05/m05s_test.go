package service_test

import (
	"common/vkit"
	"common/vsched"
	"errors"
	"fmt"
	"metaserver/internal/usecase"
	"metaserver/internal/usecase/db"
	"os"
	"path/filepath"
	"testing"

	bolt "go.etcd.io/bbolt"
)

func put5(tx *bolt.Tx, v string) error {
	b, err := tx.CreateBucketIfNotExists([]byte("b"))
	if err != nil {
		return err
	}
	return b.Put([]byte("k"), []byte(v))
}

func get5(tx *bolt.Tx) string {
	b := tx.Bucket([]byte("b"))
	if b == nil {
		return ""
	}
	return string(b.Get([]byte("k")))
}

func TestVerifM05Sched(t *testing.T) {
	vkit.Run(t, "M05", func(c *vkit.Ctx) {
		c.Rule("one evaluation = one schedule of a store replacement (with its background removal of the old file) against stop, readers, a writer or another replacement")
		k := 0
		mkFile := func(p, v string) {
			d, err := bolt.Open(p, 0o600, &bolt.Options{NoSync: true})
			if err != nil {
				panic(err)
			}
			if err := d.Update(func(tx *bolt.Tx) error { return put5(tx, v) }); err != nil {
				panic(err)
			}
			_ = d.Close()
		}
		type obs struct {
			errs  []string
			final string
		}
		type actor struct {
			name string
			run  func(s *db.Storage, dir string, o *obs)
		}
		replace := func(v string) actor {
			return actor{"replace " + v, func(s *db.Storage, dir string, o *obs) {
				if err := s.Replace(filepath.Join(dir, v)); err != nil {
					o.errs = append(o.errs, "replace "+v+": "+err.Error())
				}
			}}
		}
		view := actor{"read", func(s *db.Storage, dir string, o *obs) {
			var v string
			if err := s.View(func(tx *bolt.Tx) error { v = get5(tx); return nil }); err != nil {
				o.errs = append(o.errs, "read: "+err.Error())
			} else if v == "" {
				o.errs = append(o.errs, "read: found nothing")
			}
		}}
		write := actor{"write", func(s *db.Storage, dir string, o *obs) {
			err := s.Update(func(tx *bolt.Tx) error {
				b, err := tx.CreateBucketIfNotExists([]byte("w"))
				if err != nil {
					return err
				}
				return b.Put([]byte("x"), []byte("y"))
			})
			if err != nil && !errors.Is(err, usecase.ErrReadOnly) {
				o.errs = append(o.errs, "write: "+err.Error())
			}
		}}
		seqOf := func(l ...actor) actor {
			n := ""
			for _, a := range l {
				n += a.name + ";"
			}
			return actor{n, func(s *db.Storage, dir string, o *obs) {
				for _, a := range l {
					a.run(s, dir, o)
				}
			}}
		}
		for i, sc := range []struct {
			name   string
			actors []actor
			want   []string
			maxErr int
		}{
			{"replace, stop", []actor{replace("n1")}, []string{"n1"}, 0},
			{"replace twice, stop", []actor{seqOf(replace("n1"), replace("n2"))}, []string{"n2"}, 0},
			{"replace | reader", []actor{replace("n1"), view}, []string{"n1"}, 0},
			{"replace | reader | reader", []actor{replace("n1"), view, seqOf(view, view)}, []string{"n1"}, 0},
			{"replace | writer", []actor{replace("n1"), seqOf(write, view)}, []string{"n1"}, 0},
			{"replace | replace", []actor{replace("n1"), replace("n2")}, []string{"n1", "n2"}, 1},
			{"replace twice | reader", []actor{seqOf(replace("n1"), replace("n2")), seqOf(view, view)}, []string{"n2"}, 0},
		} {
			if !c.Mine(i) {
				continue
			}
			sc := sc
			var o obs
			scen := func(x *vsched.Exec) {
				k++
				dir := c.Scratch(fmt.Sprintf("s%d", k))
				_ = os.MkdirAll(dir, 0o755)
				p := filepath.Join(dir, "meta.db")
				mkFile(p, "old")
				mkFile(filepath.Join(dir, "n1"), "n1")
				mkFile(filepath.Join(dir, "n2"), "n2")
				o = obs{}
				s := db.NewStorage()
				if err := s.Open(p); err != nil {
					panic(err)
				}
				s.DB().NoSync = true
				x.Go("main", func() {
					done := make(chan struct{}, len(sc.actors))
					for _, a := range sc.actors {
						go func(a actor) {
							defer func() {
								if r := recover(); r != nil {
									o.errs = append(o.errs, fmt.Sprint(a.name, " panics: ", r))
								}
								done <- struct{}{}
							}()
							a.run(s, dir, &o)
						}(a)
					}
					for range sc.actors {
						<-done
					}
					if err := s.Stop(); err != nil {
						o.errs = append(o.errs, "stop: "+err.Error())
						return
					}
				})
				x.Cleanup(func() {
					if _, err := os.Stat(p); err != nil {
						o.final = "no file: " + err.Error()
					} else if d, err := bolt.Open(p, 0o600, &bolt.Options{Timeout: 1}); err != nil {
						o.final = err.Error()
					} else {
						_ = d.View(func(tx *bolt.Tx) error { o.final = get5(tx); return nil })
						_ = d.Close()
					}
					_ = os.RemoveAll(dir)
				})
			}
			vsched.Check(t, c, sc.name, sc.name, vsched.Opts{MaxDev: c.N(2, 4)}, scen, func(x *vsched.Exec) string {
				if len(o.errs) > sc.maxErr {
					return o.errs[0]
				}
				for _, e := range o.errs {
					if len(e) < 7 || e[:7] != "replace" {
						return e
					}
				}
				for _, w := range sc.want {
					if o.final == w {
						return ""
					}
				}
				return fmt.Sprintf("after stop and start the store contains %q, want one of %v", o.final, sc.want)
			})
		}
	})
}
