package notify

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"testing"

	"golang.org/x/sys/unix"
)

func vfds() map[int]bool {
	m := map[int]bool{}
	ls, _ := os.ReadDir("/proc/self/fd")
	for _, l := range ls {
		if n, err := strconv.Atoi(l.Name()); err == nil {
			if t, err := os.Readlink("/proc/self/fd/" + l.Name()); err == nil && !strings.HasSuffix(t, "/fd") {
				m[n] = true
			}
		}
	}
	return m
}

// vkernel reads the kernel's own list of watches of an inotify descriptor:
// wd -> mask.
func vkernel(fd int32) map[int32]uint32 {
	m := map[int32]uint32{}
	b, _ := os.ReadFile(fmt.Sprintf("/proc/self/fdinfo/%d", fd))
	for _, l := range strings.Split(string(b), "\n") {
		var wd int32
		var ino, sdev, mask uint64
		if n, _ := fmt.Sscanf(l, "inotify wd:%x ino:%x sdev:%x mask:%x", &wd, &ino, &sdev, &mask); n == 4 {
			m[wd] = uint32(mask) & unix.IN_ALL_EVENTS
		}
	}
	return m
}

type vent struct {
	path string
	mask uint32
}

func vtable(i *inotify) map[int32]vent {
	i.RLock()
	defer i.RUnlock()
	m := map[int32]vent{}
	for k, w := range i.m {
		m[k] = vent{w.path, w.mask}
	}
	return m
}

func TestVerifC11(t *testing.T) {
	v := newVrun(t)
	root := os.Getenv("VERIF_SCRATCH")
	if root == "" {
		root = t.TempDir()
	}
	root, err := os.MkdirTemp(root, "c11")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(root)
	sink := make(chan EventInfo, 1)
	go func() {
		for range sink {
		}
	}()
	var bits []Event
	for i := uint(0); i < 12; i++ {
		bits = append(bits, 1<<i)
	}
	bits = append(bits, Create, Remove, Write, Rename)
	kof := func(e Event) uint32 {
		m := uint32(e) & unix.IN_ALL_EVENTS
		for _, p := range []struct {
			p Event
			k uint32
		}{{Create, unix.IN_CREATE | unix.IN_MOVED_TO}, {Remove, unix.IN_DELETE | unix.IN_DELETE_SELF}, {Write, unix.IN_MODIFY}, {Rename, unix.IN_MOVED_FROM | unix.IN_MOVE_SELF}} {
			if e&p.p != 0 {
				m |= p.k
			}
		}
		return m
	}
	for round := 0; v.more(); round++ {
		dir := filepath.Join(root, strconv.Itoa(round))
		os.Mkdir(dir, 0755)
		i := newWatcher(sink).(*inotify)
		var hist []string
		// descriptor shortage during initialisation
		if v.r.Intn(3) == 0 {
			before := vfds()
			var rl, nl unix.Rlimit
			unix.Getrlimit(unix.RLIMIT_NOFILE, &rl)
			free := 0
			k := v.r.Intn(4)
			nl = rl
			for n := 0; ; n++ {
				if !before[n] {
					if free == k {
						nl.Cur = uint64(n)
						break
					}
					free++
				}
			}
			unix.Setrlimit(unix.RLIMIT_NOFILE, &nl)
			err := i.Watch(dir, Create)
			unix.Setrlimit(unix.RLIMIT_NOFILE, &rl)
			hist = append(hist, fmt.Sprintf("Watch with %d descriptors free = %v", k, err))
			if err == nil {
				v.fail("%v: no error", hist)
			}
			after := vfds()
			for d := range before {
				if !after[d] {
					v.fail("%v: descriptor %d, opened elsewhere, is closed", hist, d)
				}
			}
			for d := range after {
				if !before[d] {
					v.fail("%v: descriptor %d is left open", hist, d)
				}
			}
			if len(vtable(i)) != 0 || i.fd != invalidDescriptor {
				v.fail("%v: table %v fd %d", hist, vtable(i), i.fd)
			}
		}
		names := []string{"a", "b", "c"}
		for _, n := range names {
			os.Mkdir(filepath.Join(dir, n), 0755)
		}
		paths := []string{dir}
		for _, n := range names {
			paths = append(paths, filepath.Join(dir, n))
		}
		for n := v.r.Intn(12) + 1; n > 0; n-- {
			old := vtable(i)
			var oldk map[int32]uint32
			if i.fd != invalidDescriptor {
				oldk = vkernel(i.fd)
			}
			p := paths[v.r.Intn(len(paths))]
			if v.r.Intn(10) == 0 {
				p = filepath.Join(dir, "missing")
			}
			e := v.vmask(bits)
			switch v.r.Intn(6) {
			case 0, 1, 2: // request
				if v.r.Intn(6) == 0 {
					e |= []Event{recursive, omit, 1 << 31, 1 << 12}[v.r.Intn(4)]
				}
				var err error
				what := fmt.Sprintf("Watch(%s, %#x)", p[len(dir):], uint32(e))
				v.guard(func() string { return fmt.Sprint(append(hist, what)) }, func() {
					if v.r.Intn(2) == 0 {
						err = i.Watch(p, e)
					} else {
						what = "Re" + what
						err = i.Rewatch(p, v.vmask(bits), e)
					}
				})
				hist = append(hist, fmt.Sprintf("%s = %v", what, err))
				now := vtable(i)
				if err != nil {
					if fmt.Sprint(now) != fmt.Sprint(old) {
						v.fail("%v: table %v became %v", hist, old, now)
					}
					if st := (unix.Stat_t{}); unix.Stat(p, &st) == nil && kof(e) != 0 && e&^(All|Event(unix.IN_ALL_EVENTS)) == 0 {
						v.fail("%v: refused", hist)
					}
					break
				}
				if e&^(All|Event(unix.IN_ALL_EVENTS)) != 0 {
					v.fail("%v: unknown event accepted", hist)
				}
				k := vkernel(i.fd)
				hit := 0
				for wd, x := range now {
					if x.path == p && x.mask == uint32(e) {
						if m, ok := k[wd]; ok && m == kof(e) {
							hit++
							continue
						}
					}
					if o, ok := old[wd]; !ok || o != x {
						v.fail("%v: table %v became %v, kernel %v", hist, old, now, k)
					}
				}
				for wd := range old {
					if _, ok := now[wd]; !ok {
						v.fail("%v: table %v became %v", hist, old, now)
					}
				}
				if hit == 0 {
					v.fail("%v: no entry for it: table %v, kernel %v", hist, now, k)
				}
			case 3, 4: // release
				var err error
				v.guard(func() string { return fmt.Sprint(append(hist, "Unwatch "+p[len(dir):])) }, func() { err = i.Unwatch(p) })
				hist = append(hist, fmt.Sprintf("Unwatch(%s) = %v", p[len(dir):], err))
				now := vtable(i)
				k := map[int32]uint32{}
				if i.fd != invalidDescriptor {
					k = vkernel(i.fd)
				}
				had := false
				for wd, x := range old {
					_, left := now[wd]
					_, inK := k[wd]
					if x.path == p {
						had = true
						if left || inK {
							v.fail("%v: descriptor %d is kept (table %v, kernel %v)", hist, wd, now, k)
						}
					} else if !left || now[wd] != x {
						v.fail("%v: table %v became %v", hist, old, now)
					} else if _, was := oldk[wd]; was && !inK {
						v.fail("%v: descriptor %d of %s released", hist, wd, x.path)
					}
				}
				if had != (err == nil) {
					v.fail("%v: watched before: %v", hist, had)
				}
			case 5: // the directory is replaced
				if p != dir && filepath.Base(p) != "missing" {
					os.Remove(p)
					os.Mkdir(p, 0755)
					hist = append(hist, "recreate "+p[len(dir):])
				}
			}
		}
		if i.fd != invalidDescriptor {
			fds := []int{int(i.fd), i.epfd, i.pipefd[0], i.pipefd[1]}
			if err := i.Close(); err != nil {
				v.fail("%v: Close: %v", hist, err)
			}
			if len(vtable(i)) != 0 {
				v.fail("%v: Close left %v", hist, vtable(i))
			}
			open := vfds()
			for _, d := range fds {
				if open[d] {
					v.fail("%v: Close left descriptor %d open", hist, d)
				}
			}
		}
		os.RemoveAll(dir)
	}
}
