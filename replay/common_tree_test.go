package notify

// A recording backend, a fixture of directories and a model of the
// registrations, used by the searches for the properties of the trees.

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

type vdirinfo struct {
	e   Event
	p   string
	dir bool
}

func (i vdirinfo) Event() Event         { return i.e }
func (i vdirinfo) Path() string         { return i.p }
func (i vdirinfo) Sys() interface{}     { return nil }
func (i vdirinfo) isDir() (bool, error) { return i.dir, nil }

var errRefused = errors.New("refused by the backend")

type vinst struct {
	e   Event
	rec bool
}

// vback keeps the watches it was asked for and notes requests that do not fit
// them. It refuses the failAt-th request that installs or changes a watch.
type vback struct {
	mu      sync.Mutex
	inst    map[string]vinst
	bad     []string
	calls   []string
	failAt  int
	n       int
	refused bool
	refpath string
}

func (b *vback) note(format string, args ...interface{}) {
	b.calls = append(b.calls, fmt.Sprintf(format, args...))
}

func (b *vback) wrong(why string) {
	b.bad = append(b.bad, b.calls[len(b.calls)-1]+": "+why)
}

func (b *vback) refuse(p string) bool {
	b.n++
	if b.n == b.failAt {
		b.refused, b.refpath = true, p
		b.note("(refused)")
		return true
	}
	return false
}

func (b *vback) add(what, p string, e Event, rec bool) error {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.note("%s(%s, %#x)", what, p, uint32(e))
	if b.refuse(p) {
		return errRefused
	}
	if _, ok := b.inst[p]; ok {
		b.wrong("already installed")
	}
	if e == 0 {
		b.wrong("empty set")
	}
	b.inst[p] = vinst{e, rec}
	return nil
}

func (b *vback) del(what, p string) error {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.note("%s(%s)", what, p)
	if _, ok := b.inst[p]; !ok {
		b.wrong("not installed")
		return errNotWatched
	}
	delete(b.inst, p)
	return nil
}

func (b *vback) move(what, op, np string, oe, ne Event, rec bool) error {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.note("%s(%s, %s, %#x, %#x)", what, op, np, uint32(oe), uint32(ne))
	if b.refuse(np) {
		return errRefused
	}
	if i, ok := b.inst[op]; !ok {
		b.wrong("not installed")
	} else if i.e != oe {
		b.wrong(fmt.Sprintf("installed set is %#x", uint32(i.e)))
	}
	if _, ok := b.inst[np]; ok && op != np {
		b.wrong("new path is already installed")
	}
	if ne == 0 {
		b.wrong("empty set")
	}
	delete(b.inst, op)
	b.inst[np] = vinst{ne, rec}
	return nil
}

func (b *vback) Watch(p string, e Event) error          { return b.add("Watch", p, e, false) }
func (b *vback) RecursiveWatch(p string, e Event) error { return b.add("RecursiveWatch", p, e, true) }
func (b *vback) Unwatch(p string) error                 { return b.del("Unwatch", p) }
func (b *vback) RecursiveUnwatch(p string) error        { return b.del("RecursiveUnwatch", p) }
func (b *vback) Rewatch(p string, old, new Event) error {
	return b.move("Rewatch", p, p, old, new, false)
}
func (b *vback) RecursiveRewatch(op, np string, oe, ne Event) error {
	return b.move("RecursiveRewatch", op, np, oe, ne, true)
}
func (b *vback) Close() error { return nil }

func (b *vback) installed() map[string]vinst {
	b.mu.Lock()
	defer b.mu.Unlock()
	m := map[string]vinst{}
	for k, v := range b.inst {
		m[k] = v
	}
	return m
}

type vtree struct {
	v      *vrun
	rec    bool
	base   string
	dirs   []string
	t      tree
	root   func() node
	b      *vback
	in     chan EventInfo
	relay  chan EventInfo
	chs    []chan EventInfo
	reg    map[string]map[int]Event // what each channel asked for
	deep   map[string]map[int]Event // what they asked for recursively
	log    []string
	gor    int
	idle   int
	wd     *time.Timer
	nowait bool
}

var vuser = []Event{Create, Remove, Write, Rename, Event(0x10), Event(0x800)}

// vfixture creates a directory with some levels of directories in it.
func vfixture(v *vrun) (string, []string) {
	root, err := filepath.EvalSymlinks(os.Getenv("VERIF_SCRATCH"))
	if err != nil {
		v.t.Fatal(err)
	}
	base, err := os.MkdirTemp(root, "d")
	if err != nil {
		v.t.Fatal(err)
	}
	dirs := []string{base}
	for _, a := range []string{"a", "ab", "b"} {
		for _, b := range []string{"", "a", "b", "a.b"} {
			for _, c := range []string{"", "a", "ab"} {
				if b == "" && c != "" {
					continue
				}
				d := filepath.Join(base, a, b, c)
				if err := os.MkdirAll(d, 0755); err != nil {
					v.t.Fatal(err)
				}
				dirs = append(dirs, d)
			}
		}
	}
	return base, dirs
}

func newVtree(v *vrun, rec bool, base string, dirs []string) *vtree {
	s := &vtree{v: v, rec: rec, base: base, dirs: dirs, reg: map[string]map[int]Event{}, deep: map[string]map[int]Event{}}
	s.b = &vback{inst: map[string]vinst{}}
	s.in = make(chan EventInfo)
	s.idle = runtime.NumGoroutine()
	if rec {
		t := newRecursiveTree(s.b, s.in)
		s.t, s.root = t, func() node { return t.root.nd }
		s.gor = s.idle + 1
	} else {
		s.relay = make(chan EventInfo)
		t := newNonrecursiveTree(s.b, s.in, s.relay)
		s.t, s.root = t, func() node { return t.root.nd }
		s.gor = s.idle + 2
	}
	for i := 0; i < 4; i++ {
		s.chs = append(s.chs, make(chan EventInfo, 256))
	}
	s.log = []string{fmt.Sprintf("recursive backend: %v", rec)}
	s.wd = time.AfterFunc(30*time.Second, func() {
		fmt.Printf("FAILING-INPUT %s: has not returned after 30s\n", s.what())
		os.Exit(1)
	})
	return s
}

func (s *vtree) close() {
	s.wd.Stop()
	s.t.Close()
	if s.relay != nil {
		close(s.relay)
	}
	for i := 0; runtime.NumGoroutine() > s.idle && i < 5000; i++ {
		time.Sleep(100 * time.Microsecond)
	}
}

func (s *vtree) what() string {
	l := strings.Join(s.log, "; ")
	if s.base != "" {
		l = strings.Replace(l, s.base, "@", -1)
	}
	return l
}

func (s *vtree) fail(format string, args ...interface{}) {
	s.v.fail("%s: %s", s.what(), strings.Replace(fmt.Sprintf(format, args...), s.base, "@", -1))
}

func (s *vtree) guard(f func()) { s.v.guard(s.what, f) }

// watch calls Watch and, when it succeeds, notes the registration.
func (s *vtree) watch(p string, rec bool, ch int, e ...Event) error {
	arg := p
	var set Event
	for _, x := range e {
		set |= x
	}
	if rec {
		arg = p + "/..."
		set |= recursive
	}
	s.log = append(s.log, fmt.Sprintf("Watch(%s, c%d, %#x)", arg, ch, uint32(set)))
	var err error
	s.guard(func() { err = s.t.Watch(arg, s.chs[ch], e...) })
	if err == nil {
		if s.reg[p] == nil {
			s.reg[p] = map[int]Event{}
		}
		s.reg[p][ch] |= set
		if rec {
			if s.deep[p] == nil {
				s.deep[p] = map[int]Event{}
			}
			s.deep[p][ch] |= set
		}
	} else {
		s.log[len(s.log)-1] += " = " + err.Error()
	}
	return err
}

func (s *vtree) stop(ch int) {
	s.log = append(s.log, fmt.Sprintf("Stop(c%d)", ch))
	s.guard(func() { s.t.Stop(s.chs[ch]) })
	for _, r := range []map[string]map[int]Event{s.reg, s.deep} {
		for p, m := range r {
			delete(m, ch)
			if len(m) == 0 {
				delete(r, p)
			}
		}
	}
}

func (s *vtree) quiet() {
	for i := 0; runtime.NumGoroutine() > s.gor; i++ {
		if i < 100 {
			runtime.Gosched()
		} else {
			time.Sleep(50 * time.Microsecond)
		}
		if i > 60000 {
			s.fail("the goroutine handling the event does not finish")
		}
	}
}

// event sends an event through the dispatcher and waits until it is handled.
func (s *vtree) event(e Event, p string, dir bool) EventInfo {
	ei := vdirinfo{e, p, dir}
	s.log = append(s.log, fmt.Sprintf("event %#x on %s (directory: %v)", uint32(e), p, dir))
	s.in <- ei
	// when this one is taken, the goroutine of the first has been started
	s.in <- vdirinfo{Write, "/nowhere/verif", false}
	s.quiet()
	if s.relay != nil {
		s.relay <- vdirinfo{Remove, "/nowhere/verif", true}
	}
	return ei
}

func (s *vtree) drain(ch int) (n int, other bool) {
	for len(s.chs[ch]) > 0 {
		<-s.chs[ch]
		n++
	}
	return
}

// kept gives the registrations the tree holds, by path and channel, without
// the entries it keeps for itself.
func (s *vtree) kept() map[string]map[int]Event {
	out := map[string]map[int]Event{}
	var walk func(p string, nd node)
	walk = func(p string, nd node) {
		for c, e := range nd.Watch {
			for i := range s.chs {
				if c == (chan<- EventInfo)(s.chs[i]) && e != 0 {
					if out[p] == nil {
						out[p] = map[int]Event{}
					}
					out[p][i] = e
				}
			}
		}
		for k, c := range nd.Child {
			if k != "" {
				walk(p+"/"+k, c)
			}
		}
	}
	walk("", s.root())
	return out
}

// inactive gives the channels that are still among the registrations a
// parent keeps on behalf of entries below it.
func (s *vtree) inactive(ch int) (at string) {
	var walk func(p string, nd node)
	walk = func(p string, nd node) {
		for k, c := range nd.Child {
			if k != "" {
				walk(p+"/"+k, c)
			} else if _, ok := c.Watch[s.chs[ch]]; ok {
				at = p
			}
		}
	}
	walk("", s.root())
	return
}

func vshow(m map[string]map[int]Event) string {
	var l []string
	for p, cs := range m {
		for c, e := range cs {
			l = append(l, fmt.Sprintf("%s c%d %#x", p, c, uint32(e)))
		}
	}
	sort.Strings(l)
	return "[" + strings.Join(l, ", ") + "]"
}

func (s *vtree) copyreg() map[string]map[int]Event {
	out := map[string]map[int]Event{}
	for p, m := range s.reg {
		out[p] = map[int]Event{}
		for c, e := range m {
			out[p][c] = e
		}
	}
	return out
}

// vabove reports whether q is p or lies above it.
func vabove(q, p string) bool { return q == p || strings.HasPrefix(p, q+"/") }

func (s *vtree) dir() string     { return s.dirs[s.v.r.Intn(len(s.dirs))] }
func (s *vtree) set() Event      { return s.v.vmask(vuser) | vuser[s.v.r.Intn(len(vuser))] }
func (s *vtree) few() (ch int)   { return s.v.r.Intn(len(s.chs)) }
func (s *vtree) coin(n int) bool { return s.v.r.Intn(n) == 0 }
func (s *vtree) randomWatch() error {
	return s.watch(s.dir(), s.coin(3), s.few(), s.set())
}

func (s *vtree) badcalls() {
	s.b.mu.Lock()
	bad := append([]string(nil), s.b.bad...)
	s.b.mu.Unlock()
	if len(bad) > 0 {
		s.fail("request that does not fit the installed watches: %s", strings.Join(bad, "; "))
	}
}

// forget takes the registrations at and below a removed directory out of the
// model if the tree has dropped them.
func (s *vtree) forget(d string) {
	kept := s.kept()
	for p := range s.reg {
		if vabove(d, p) && kept[p] == nil {
			delete(s.reg, p)
			delete(s.deep, p)
		}
	}
}
