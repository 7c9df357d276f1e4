package notify

import (
	"fmt"
	"testing"

	"golang.org/x/sys/unix"
)

type vport struct {
	p Event
	k uint32
}

var vports = []vport{
	{Create, unix.IN_CREATE | unix.IN_MOVED_TO},
	{Remove, unix.IN_DELETE | unix.IN_DELETE_SELF},
	{Write, unix.IN_MODIFY},
	{Rename, unix.IN_MOVED_FROM | unix.IN_MOVE_SELF},
}

func vkmask(e Event) uint32 {
	m := uint32(e) & unix.IN_ALL_EVENTS
	for _, p := range vports {
		if e&p.p != 0 {
			m |= p.k
		}
	}
	return m
}

// TestVerifC09 translates random event sets and kernel notifications and
// compares with an independent description of the translation.
func TestVerifC09(t *testing.T) {
	v := newVrun(t)
	var bits []Event
	for i := uint(0); i < 12; i++ {
		bits = append(bits, 1<<i)
	}
	bits = append(bits, Create, Remove, Write, Rename, Create, Remove, Write, Rename)
	kern := []uint32{}
	for i := uint(0); i < 12; i++ {
		kern = append(kern, 1<<i)
	}
	for v.more() {
		set := v.vmask(bits)
		if m := encode(set); m != vkmask(set) {
			v.fail("encode(%v) = %#x, want %#x", set, m, vkmask(set))
		}
		ino := &inotify{m: map[int32]*watched{}}
		dirs := []string{"/a", "/a/b", "/c d", "/"}
		nw := v.r.Intn(4) + 1
		sets := map[int32]Event{}
		for w := 0; w < nw; w++ {
			s := v.vmask(bits)
			sets[int32(w+1)] = s
			ino.m[int32(w+1)] = &watched{path: dirs[w], mask: uint32(s)}
		}
		type rep struct {
			e      Event
			p      string
			wd     int32
			mask   uint32
			cookie uint32
		}
		want := map[rep]int{}
		alts := []map[rep]bool{} // portable reports: one of these each
		var es []*event
		desc := ""
		for n := v.r.Intn(6); n > 0; n-- {
			wd := int32(v.r.Intn(nw+1) + 1)
			m := kern[v.r.Intn(len(kern))]
			if v.r.Intn(6) == 0 {
				m |= kern[v.r.Intn(len(kern))]
			}
			if v.r.Intn(4) == 0 {
				m |= unix.IN_ISDIR
			}
			if v.r.Intn(8) == 0 {
				m = []uint32{unix.IN_IGNORED, unix.IN_Q_OVERFLOW, unix.IN_UNMOUNT, unix.IN_IGNORED | 1, unix.IN_Q_OVERFLOW | 2}[v.r.Intn(5)]
			}
			name := []string{"", "f", "g h"}[v.r.Intn(3)]
			ck := uint32(v.r.Intn(3))
			es = append(es, &event{path: name, sys: unix.InotifyEvent{Wd: wd, Mask: m, Cookie: ck}})
			desc += fmt.Sprintf(" {wd %d mask %#x cookie %d name %q}", wd, m, ck, name)
			s, ok := sets[wd]
			if !ok || m&(unix.IN_IGNORED|unix.IN_Q_OVERFLOW) != 0 {
				continue
			}
			p := dirs[wd-1]
			switch {
			case name != "" && p == "/":
				p = "/" + name
			case name != "":
				p += "/" + name
			}
			if raw := uint32(s) & m; raw != 0 {
				want[rep{Event(raw), p, wd, m, ck}]++
			}
			a := map[rep]bool{}
			for _, x := range vports {
				if s&x.p != 0 && m&x.k != 0 {
					a[rep{x.p, p, wd, m, ck}] = true
				}
			}
			if len(a) > 0 {
				alts = append(alts, a)
			}
		}
		what := func() string { return fmt.Sprintf("watches %v, notifications%s", sets, desc) }
		v.guard(what, func() {
			var got []rep
			for _, e := range ino.transform(es) {
				if e != nil {
					got = append(got, rep{e.event, e.path, e.sys.Wd, e.sys.Mask, e.sys.Cookie})
					if e.Event() != e.event || e.Path() != e.path {
						v.fail("%s: accessors of %v", what(), e)
					}
				}
			}
			ai := 0
			for _, g := range got {
				if want[g] > 0 {
					want[g]--
				} else if ai < len(alts) && alts[ai][g] {
					ai++
				} else {
					v.fail("%s: report %+v not expected", what(), g)
				}
			}
			for w, n := range want {
				if n > 0 {
					v.fail("%s: report %+v missing", what(), w)
				}
			}
			if ai < len(alts) {
				v.fail("%s: portable report missing, one of %v", what(), alts[ai])
			}
		})
	}
}
