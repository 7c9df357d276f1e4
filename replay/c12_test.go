package notify

import (
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"testing"
	"time"
)

// TestVerifC12 builds small trees with random symbolic links and compares the
// resolution with filepath.EvalSymlinks; where the sandbox allows a user
// namespace it runs in a root directory of its own, so that links directly
// below / are covered too.
func TestVerifC12(t *testing.T) {
	if os.Getenv("VERIF_C12_ROOT") != "" {
		v := newVrun(t)
		vlinks(v, "/")
		return
	}
	v := newVrun(t)
	base := os.Getenv("VERIF_SCRATCH")
	if base == "" {
		base = t.TempDir()
	}
	base, err := os.MkdirTemp(base, "c12")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(base)
	vjoin(v)
	vroot(v, base)
	if base, err = filepath.EvalSymlinks(base); err != nil {
		t.Fatal(err)
	}
	vlinks(v, base+"/")
}

func vroot(v *vrun, base string) {
	root := filepath.Join(base, "root")
	os.MkdirAll(filepath.Join(root, "tmp"), 0755)
	in, err := os.Open("/proc/self/exe")
	if err != nil {
		return
	}
	defer in.Close()
	out, err := os.OpenFile(filepath.Join(root, "t.bin"), os.O_CREATE|os.O_WRONLY, 0755)
	if err != nil {
		return
	}
	io.Copy(out, in)
	out.Close()
	cmd := exec.Command("/t.bin", "-test.run", "^TestVerifC12$")
	cmd.Dir = "/"
	cmd.Env = append(os.Environ(), "VERIF_C12_ROOT=1", "TMPDIR=/tmp", "NOTIFY_TMP=/tmp/", "VERIF_REPLAY_SECS=8")
	cmd.SysProcAttr = &syscall.SysProcAttr{Chroot: root, Cloneflags: syscall.CLONE_NEWUSER,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}},
		GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}}}
	b, _ := cmd.CombinedOutput()
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "FAILING-INPUT") {
			v.fail("in a root of its own: %s", strings.TrimPrefix(l, "FAILING-INPUT "))
		}
	}
}

func vjoin(v *vrun) {
	bits := []Event{Create, Remove, Write, Rename, 1, 2, 4, 8, 0x800, recursive, omit, 1 << 31}
	for n := 0; n < 2000; n++ {
		var es []Event
		var want Event
		for k := v.r.Intn(5); k > 0; k-- {
			e := v.vmask(bits)
			es = append(es, e)
			want |= e
		}
		if len(es) == 0 {
			want = Create | Remove | Write | Rename
		}
		if got := joinevents(es); got != want {
			v.fail("joinevents(%v) = %v (%#x), want %#x", es, got, uint32(got), uint32(want))
		}
	}
}

func vlinks(v *vrun, root string) {
	names := []string{"a", "b", "dir", "x", "longer", "t...", "..c"}
	for round := 0; v.more(); round++ {
		top := root
		var made []string
		if root != "/" {
			top = fmt.Sprintf("%sr%d/", root, round)
			os.Mkdir(top, 0755)
		}
		dirs := []string{top}
		var hist []string
		for n := v.r.Intn(8) + 2; n > 0; n-- {
			d := dirs[v.r.Intn(len(dirs))]
			p := d + names[v.r.Intn(len(names))]
			if v.r.Intn(3) == 0 {
				if os.Mkdir(p, 0755) == nil {
					hist = append(hist, "mkdir "+p)
					made = append(made, p)
					dirs = append(dirs, p+"/")
				}
				continue
			}
			var to string
			switch v.r.Intn(5) {
			case 0:
				to = names[v.r.Intn(len(names))]
			case 1:
				to = top + names[v.r.Intn(len(names))]
			case 2:
				to = "../" + names[v.r.Intn(len(names))]
			case 3:
				to = dirs[v.r.Intn(len(dirs))]
			case 4:
				to = names[v.r.Intn(len(names))] + "/" + names[v.r.Intn(len(names))]
			}
			if v.r.Intn(8) == 0 {
				to = "./" + to
			}
			if os.Symlink(to, p) == nil {
				hist = append(hist, "link "+p+" -> "+to)
				made = append(made, p)
			}
		}
		for n := 0; n < 12; n++ {
			p := dirs[v.r.Intn(len(dirs))] + names[v.r.Intn(len(names))]
			for v.r.Intn(2) == 0 {
				p += "/" + names[v.r.Intn(len(names))]
			}
			want, werr := filepath.EvalSymlinks(p)
			var got string
			var err error
			rec := v.r.Intn(3)
			arg := p
			if rec == 1 {
				arg = p + "/..."
			} else if rec == 2 {
				arg = strings.Replace(p, "/", "//", -1) + "/."
			}
			isrec := false
			v.within(3*time.Second, func() string { return fmt.Sprintf("%v; cleanpath(%q)", hist, arg) }, func() { got, isrec, err = cleanpath(arg) })
			if rec == 0 && strings.HasSuffix(p, "...") {
				want, werr = filepath.EvalSymlinks(filepath.Clean(p[:len(p)-3]))
			}
			if werr != nil && err == nil {
				v.fail("%v; cleanpath(%q) = %q, cannot be resolved: %v", hist, arg, got, werr)
			}
			if werr == nil && err != nil {
				v.fail("%v; cleanpath(%q): %v, want %q", hist, arg, err, want)
			}
			if werr == nil && got != want {
				v.fail("%v; cleanpath(%q) = %q, want %q", hist, arg, got, want)
			}
			if err == nil && isrec != strings.HasSuffix(arg, "...") {
				v.fail("%v; cleanpath(%q): recursive %v", hist, arg, isrec)
			}
		}
		if root != "/" {
			os.RemoveAll(top)
		} else {
			for k := len(made) - 1; k >= 0; k-- {
				os.Remove(made[k])
			}
		}
	}
}
