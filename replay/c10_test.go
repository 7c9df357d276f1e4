package notify

import (
	"encoding/binary"
	"fmt"
	"strings"
	"testing"

	"golang.org/x/sys/unix"
)

// TestVerifC10 feeds the parser, through a pipe, batches of records laid out
// as the kernel does, and compares what it returns.
func TestVerifC10(t *testing.T) {
	v := newVrun(t)
	for v.more() {
		var p [2]int
		if err := unix.Pipe(p[:]); err != nil {
			t.Fatal(err)
		}
		ino := &inotify{fd: int32(p[0])}
		type rec struct {
			wd           int32
			mask, cookie uint32
			name         string
		}
		for round := 0; round < 3; round++ {
			var want []rec
			var buf []byte
			desc := ""
			for n := v.r.Intn(5) + 1; n > 0; n-- {
				r := rec{wd: int32(v.r.Intn(1 << 20)), mask: v.r.Uint32(), cookie: v.r.Uint32()}
				if v.r.Intn(8) == 0 {
					r.wd = -1
				}
				l := 0
				switch v.r.Intn(6) {
				case 0:
				case 1:
					l = 16 * (v.r.Intn(3) + 1)
					r.name = strings.Repeat("n", l-1)
				case 2:
					l = 16 * (v.r.Intn(16) + 1)
					r.name = "x"
				case 3:
					l = 256
					r.name = strings.Repeat("z", 255-v.r.Intn(2))
				case 4:
					l = 16
					r.name = []string{" ", "a b", "\xff\xfe", "ż", "a\n", ".", "\x01", "tail ", "\t"}[v.r.Intn(9)]
				default:
					l = 16 * (v.r.Intn(4) + 1)
					r.name = strings.Repeat("q", v.r.Intn(l-1)+1)
				}
				h := make([]byte, 16+l)
				binary.LittleEndian.PutUint32(h[0:], uint32(r.wd))
				binary.LittleEndian.PutUint32(h[4:], r.mask)
				binary.LittleEndian.PutUint32(h[8:], r.cookie)
				binary.LittleEndian.PutUint32(h[12:], uint32(l))
				copy(h[16:], r.name)
				buf = append(buf, h...)
				want = append(want, r)
				desc += fmt.Sprintf("{wd %d mask %#x cookie %#x len %d name %q}", r.wd, r.mask, r.cookie, l, r.name)
			}
			if _, err := unix.Write(p[1], buf); err != nil {
				t.Fatal(err)
			}
			var es []*event
			v.guard(func() string { return "read of " + desc }, func() { es = ino.read() })
			if len(es) != len(want) {
				v.fail("read of %s: %d events", desc, len(es))
			}
			for i, e := range es {
				if e == nil || e.sys.Wd != want[i].wd || e.sys.Mask != want[i].mask || e.sys.Cookie != want[i].cookie || e.path != want[i].name {
					v.fail("read of %s: event %d is %+v", desc, i, e)
				}
				for j := 0; j < i; j++ {
					if es[j] == e {
						v.fail("read of %s: events %d and %d share memory", desc, i, j)
					}
				}
			}
		}
		// a failing read yields nothing
		ino.fd = -1
		if es := ino.read(); len(es) != 0 {
			v.fail("read of a closed descriptor after a successful one: %d events", len(es))
		}
		unix.Close(p[0])
		unix.Close(p[1])
	}
}
