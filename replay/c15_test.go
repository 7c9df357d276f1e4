package notify

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"golang.org/x/sys/unix"
)

// TestVerifC15 compares the printed names with an independent table.
func TestVerifC15(t *testing.T) {
	v := newVrun(t)
	type ne struct {
		e Event
		s string
	}
	names := map[Event]string{}
	for _, x := range []ne{{Create, "notify.Create"}, {Remove, "notify.Remove"}, {Write, "notify.Write"}, {Rename, "notify.Rename"},
		{recursive, "recursive"}, {omit, "omit"},
		{InAccess, "notify.InAccess"}, {InModify, "notify.InModify"}, {InAttrib, "notify.InAttrib"},
		{InCloseWrite, "notify.InCloseWrite"}, {InCloseNowrite, "notify.InCloseNowrite"}, {InOpen, "notify.InOpen"},
		{InMovedFrom, "notify.InMovedFrom"}, {InMovedTo, "notify.InMovedTo"}, {InCreate, "notify.InCreate"},
		{InDelete, "notify.InDelete"}, {InDeleteSelf, "notify.InDeleteSelf"}, {InMoveSelf, "notify.InMoveSelf"}} {
		names[x.e] = x.s
	}
	type nm struct {
		e Event
		m uint32
	}
	for _, x := range []nm{
		{InAccess, unix.IN_ACCESS}, {InModify, unix.IN_MODIFY}, {InAttrib, unix.IN_ATTRIB},
		{InCloseWrite, unix.IN_CLOSE_WRITE}, {InCloseNowrite, unix.IN_CLOSE_NOWRITE}, {InOpen, unix.IN_OPEN},
		{InMovedFrom, unix.IN_MOVED_FROM}, {InMovedTo, unix.IN_MOVED_TO}, {InCreate, unix.IN_CREATE},
		{InDelete, unix.IN_DELETE}, {InDeleteSelf, unix.IN_DELETE_SELF}, {InMoveSelf, unix.IN_MOVE_SELF}} {
		e, m := x.e, x.m
		if uint32(e) != m {
			v.fail("%s is %#x, the kernel's bit is %#x", names[e], uint32(e), m)
		}
	}
	if len(names) != 18 {
		v.fail("only %d of 18 event values differ", len(names))
	}
	var bits []Event
	for e, n := range names {
		bits = append(bits, e)
		if e == 0 {
			v.fail("%s is zero", n)
		}
		for f, m := range names {
			if e != f && e&f != 0 {
				v.fail("%s and %s share bits %#x", n, m, uint32(e&f))
			}
		}
	}
	if All != Create|Remove|Write|Rename {
		v.fail("All is %#x", uint32(All))
	}
	sort.Slice(bits, func(i, j int) bool { return bits[i] < bits[j] })
	n := 0
	for v.more() && n < 200000 {
		n++
		e := v.vmask(bits)
		if n < 33 {
			e = 1 << uint(n-1)
		}
		var want []string
		for ev, s := range names {
			if e&ev == ev {
				want = append(want, s)
			}
		}
		sort.Strings(want)
		what := func() string { return fmt.Sprintf("Event(%#x).String()", uint32(e)) }
		v.guard(what, func() {
			got := strings.Split(e.String(), "|")
			if e.String() == "" {
				got = nil
			}
			sort.Strings(got)
			if strings.Join(got, "|") != strings.Join(want, "|") {
				v.fail("%s = %q, want the names %v", what(), e.String(), want)
			}
		})
	}
}
