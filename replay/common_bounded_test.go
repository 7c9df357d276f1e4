package notify

// Exhaustive runs over all short histories of one registration tree, used
// where a function is not within the reach of the proofs (labelled bounded)
// and as a first stage of the searches for failing inputs.

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"
)

type vop struct {
	dir  int // -1: Stop
	rec  bool
	ch   int
	e    Event
	fail bool
}

var vbsets = []Event{Write, Rename}

// vops lists the operations a history is made of.
func vops(dirs, chs int) (ops []vop) {
	for c := 0; c < chs; c++ {
		for d := 0; d < dirs; d++ {
			for _, rec := range []bool{false, true} {
				for _, e := range vbsets {
					ops = append(ops, vop{dir: d, rec: rec, ch: c, e: e})
				}
			}
		}
		ops = append(ops, vop{dir: -1, ch: c})
	}
	return
}

// depth is n, or one more in the thorough tier.
func depth(n int) int {
	if os.Getenv("VERIF_TIER") == "thorough" {
		n++
	}
	return n
}

// newQuietTree is newVtree without the goroutines that handle events.
func newQuietTree(v *vrun, rec bool, base string, dirs []string, chs []chan EventInfo) *vtree {
	s := &vtree{v: v, rec: rec, base: base, dirs: dirs, reg: map[string]map[int]Event{}, deep: map[string]map[int]Event{}, chs: chs}
	s.b = &vback{inst: map[string]vinst{}}
	if rec {
		t := &recursiveTree{root: root{nd: newnode("")}, w: s.b}
		s.t, s.root = t, func() node { return t.root.nd }
	} else {
		t := &nonrecursiveTree{root: root{nd: newnode("")}, w: s.b, rec: make(chan EventInfo)}
		s.t, s.root = t, func() node { return t.root.nd }
	}
	s.log = []string{fmt.Sprintf("recursive backend: %v", rec)}
	return s
}

func (s *vtree) do(o vop) error {
	if o.dir < 0 {
		s.stop(o.ch)
		return nil
	}
	return s.watch(s.dirs[o.dir], o.rec, o.ch, o.e)
}

// vbounded runs f on the tree after every history of up to n operations; f is
// told the last one.
func vbounded(t *testing.T, rec bool, what string, n int, run func(s *vtree, o vop)) {
	root, err := filepath.EvalSymlinks(os.Getenv("VERIF_SCRATCH"))
	if err != nil {
		t.Fatal(err)
	}
	base, err := os.MkdirTemp(root, "b")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(base)
	dirs := []string{base, base + "/a", base + "/a/b", base + "/b"}
	for _, d := range dirs[1:] {
		if err := os.Mkdir(d, 0755); err != nil {
			t.Fatal(err)
		}
	}
	secs, _ := strconv.Atoi(os.Getenv("VERIF_BOUNDED_SECS"))
	if secs == 0 {
		secs = 150
	}
	end := time.Now().Add(time.Duration(secs) * time.Second)
	ops := vops(len(dirs), 2)
	var chs []chan EventInfo
	for i := 0; i < 2; i++ {
		chs = append(chs, make(chan EventInfo, 1))
	}
	fmt.Println("VERIF-RUN bounded run started")
	full := 0
	total := int64(0)
	for k := 1; k <= n && !t.Failed(); k++ {
		var next, count, late int64
		next = -1
		var wg sync.WaitGroup
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				h := make([]int, k)
				for {
					first := int(atomic.AddInt64(&next, 1))
					if first >= len(ops)/2 || t.Failed() { // the channels are alike: the first operation uses c0
						return
					}
					for i := range h {
						h[i] = 0
					}
					h[0] = first
					for {
						if time.Now().After(end) {
							atomic.StoreInt64(&late, 1)
							return
						}
						s := newQuietTree(&vrun{t: t}, rec, base, dirs, chs)
						for _, i := range h[:k-1] {
							s.do(ops[i])
						}
						run(s, ops[h[k-1]])
						atomic.AddInt64(&count, 1)
						i := k - 1
						for i > 0 {
							if h[i]++; h[i] < len(ops) {
								break
							}
							h[i] = 0
							i--
						}
						if i == 0 {
							break
						}
						if t.Failed() {
							return
						}
					}
				}
			}()
		}
		wg.Wait()
		total += count
		if late != 0 {
			break
		}
		full = k
	}
	fmt.Printf("BOUNDED-RUN histories=%d bound=%s: every history of at most %d of the operations Watch (4 nested and sibling directories, recursive or not, 2 channels, 2 event sets) and Stop (2 channels), the first one on the first channel\n", total, what, full)
}
