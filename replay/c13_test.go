package notify

// Concurrent use of both trees and of the Linux backend, run with the race
// detector: a data race on the registrations or on the watch table, a lock
// that is not released or an operation that waits while holding one shows up
// as a race report or as an operation that does not return.

import (
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"testing"
	"time"
)

type c13backend struct {
	mu   sync.Mutex
	fail int
	n    int
}

func (b *c13backend) do() error {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.n++
	if b.fail > 0 && b.n%b.fail == 0 {
		return errNotWatched
	}
	return nil
}
func (b *c13backend) Watch(string, Event) error                           { return b.do() }
func (b *c13backend) Unwatch(string) error                                { return b.do() }
func (b *c13backend) Rewatch(string, Event, Event) error                  { return b.do() }
func (b *c13backend) Close() error                                        { return nil }
func (b *c13backend) RecursiveWatch(string, Event) error                  { return b.do() }
func (b *c13backend) RecursiveUnwatch(string) error                       { return b.do() }
func (b *c13backend) RecursiveRewatch(string, string, Event, Event) error { return b.do() }

func TestVerifC13(t *testing.T) {
	v := newVrun(t)
	dir, err := filepath.EvalSymlinks(os.Getenv("VERIF_SCRATCH"))
	if err != nil {
		t.Fatal(err)
	}
	dir = filepath.Join(dir, "c13")
	var dirs []string
	for _, d := range []string{"a", "a/b", "a/b/c", "a/d", "e"} {
		p := filepath.Join(dir, d)
		if err := os.MkdirAll(p, 0755); err != nil {
			t.Fatal(err)
		}
		dirs = append(dirs, p)
	}
	defer os.RemoveAll(dir)
	for round := 0; v.more(); round++ {
		switch round % 3 {
		case 0, 1:
			c := make(chan EventInfo)
			b := &c13backend{fail: v.r.Intn(3) * 5}
			var tr tree
			if round%3 == 0 {
				tr = newNonrecursiveTree(b, c, make(chan EventInfo, 1))
			} else {
				tr = newRecursiveTree(b, c)
			}
			c13tree(v, fmt.Sprintf("round %d %T failing every %d", round, tr, b.fail), tr, c, dirs)
		case 2:
			c13inotify(v, dirs, round)
		}
	}
}

func c13tree(v *vrun, name string, tr tree, c chan EventInfo, dirs []string) {
	var wg sync.WaitGroup
	run := func(f func(n int)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 40; n++ {
				f(n)
			}
		}()
	}
	for g := 0; g < 2; g++ {
		g := g
		ch := make(chan EventInfo, g)
		run(func(n int) {
			p := dirs[(n*7+g)%len(dirs)]
			if n%3 != 0 {
				p += "/..."
			}
			tr.Watch(p, ch, []Event{Create, Write | Create, All, InOpen}[n%4])
			if n%5 == 4 {
				tr.Stop(ch)
			}
		})
	}
	run(func(n int) {
		e := []Event{Create, Remove, Write}[n%3]
		c <- &Call{P: filepath.Join(dirs[n%len(dirs)], "x"), E: e, Dir: n%2 == 0}
	})
	run(func(n int) {
		e := []Event{Create, Remove}[n%2]
		c <- &Call{P: dirs[n%len(dirs)], E: e, Dir: true}
	})
	run(func(n int) {
		tr.Watch(filepath.Join(dirs[0], "missing"), make(chan EventInfo, 1), Create)
	})
	v.within(20*time.Second, func() string { return name + ": concurrent Watch, Stop and events" }, wg.Wait)
}

func c13inotify(v *vrun, dirs []string, round int) {
	c := make(chan EventInfo, 1)
	stop := make(chan bool)
	go func() {
		for {
			select {
			case <-c:
			case <-stop:
				return
			}
		}
	}()
	w := newWatcher(c)
	name := fmt.Sprintf("round %d inotify", round)
	w.Watch(dirs[0], All) // the trees make the first request under their own lock
	var wg sync.WaitGroup
	for g := 0; g < 3; g++ {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 30; n++ {
				p := dirs[(n+g)%len(dirs)]
				switch n % 4 {
				case 0, 1:
					w.Watch(p, All)
				case 2:
					w.Rewatch(p, All, Create)
				case 3:
					w.Unwatch(p)
				}
				f := filepath.Join(p, fmt.Sprint("f", g))
				os.WriteFile(f, []byte("x"), 0600)
				os.Remove(f)
			}
		}()
	}
	v.within(20*time.Second, func() string { return name + ": concurrent requests and events" }, wg.Wait)
	v.within(20*time.Second, func() string { return name + ": Close" }, func() { w.Close() })
	close(stop)
}
