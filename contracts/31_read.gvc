// Parsing what read(2) returned from the inotify descriptor.

// the records the kernel put in the buffer, and their number, positions and names
ghost rok bool                 // the read succeeded
ghost rcount int
ghost rpos map[int]int
ghost rname map[int]int
ghost rrow map[int]uint8       // the bytes
ghost roff int                 // where they start

def reclen(k) = nat(le32(rrow, roff + rpos[k] + 12))

// The kernel contract: n bytes holding whole records; each is 16 bytes of wd,
// mask, cookie, len, then len bytes holding
// the name and at least one zero (none when len is 0).
extern unix.Read(fd, p) (n, err)
  modifies S:uint8 @[base(p)]
  modifies G:rcount, G:rpos, G:rname
  set rok := err == nil && n >= 16
  set rrow := comp("S:uint8", base(p))
  set roff := off(p)
  ensures bound: err == nil ==> 0 <= n && n <= len(p)
  ensures whole: err == nil && n >= 16 ==> rcount >= 1 && rpos[0] == 0 && rpos[rcount] == n
  ensures layout: err == nil && n >= 16 ==> (forall k int {rpos[k]} :: 0 <= k && k < rcount ==> 0 <= rpos[k] && rpos[k + 1] == rpos[k] + 16 + nat(le32(comp("S:uint8", base(p)), off(p) + rpos[k] + 12)) && rpos[k + 1] <= n)
  ensures names: err == nil && n >= 16 ==> (forall k int {rname[k]} :: 0 <= k && k < rcount ==> 0 <= rname[k] && (let l = nat(le32(comp("S:uint8", base(p)), off(p) + rpos[k] + 12)); l == 0 ? rname[k] == 0 : rname[k] < l))
  ensures name-end: err == nil && n >= 16 ==> (forall k int {rname[k]} :: 0 <= k && k < rcount && rname[k] < nat(le32(comp("S:uint8", base(p)), off(p) + rpos[k] + 12)) ==> comp("S:uint8", base(p))[off(p) + rpos[k] + 16 + rname[k]] == 0)
  ensures name-bytes: err == nil && n >= 16 ==> (forall k int, b int {rname[k], comp("S:uint8", base(p))[b]} :: 0 <= k && k < rcount ==> (off(p) + rpos[k] + 16 <= b && b < off(p) + rpos[k] + 16 + rname[k] ==> comp("S:uint8", base(p))[b] != 0) && (off(p) + rpos[k] + 16 + rname[k] <= b && b < off(p) + rpos[k] + 16 + nat(le32(comp("S:uint8", base(p)), off(p) + rpos[k] + 12)) ==> comp("S:uint8", base(p))[b] == 0))

// trailing zeros are cut
extern bytes.TrimRight(s, cutset) (r)
  ensures sub: base(r) == base(s) || len(r) == 0
  ensures front: len(r) > 0 ==> off(r) == off(s)
  ensures len: 0 <= len(r) && len(r) <= len(s)
  ensures next: cutset == "\x00" && len(r) < len(s) ==> bytearr(s)[off(s) + len(r)] == 0
  ensures cut: cutset == "\x00" ==> (forall b int {bytearr(s)[b]} :: off(s) + len(r) <= b && b < off(s) + len(s) ==> bytearr(s)[b] == 0) && (len(r) > 0 ==> bytearr(s)[off(s) + len(r) - 1] != 0)

// the name is cut at the first zero
extern bytes.IndexByte(b, c) (r)
  ensures range: -1 <= r && r < len(b)
  ensures found: r >= 0 ==> bytearr(b)[off(b) + r] == c
  ensures first: forall x int {bytearr(b)[x]} :: off(b) <= x && x < off(b) + (r < 0 ? len(b) : r) ==> bytearr(b)[x] != c

def parsed(e, k) = e != nil && e.sys.Wd == les32(rrow, roff + rpos[k]) && e.sys.Mask == le32(rrow, roff + rpos[k] + 4) && e.sys.Cookie == le32(rrow, roff + rpos[k] + 8) && e.path == (rname[k] == 0 ? "" : bstr(rrow, roff + rpos[k] + 16, rname[k]))

func (*inotify).read(i) (es)
  props C10
  safety C10
  requires i: i != nil
  modifies S:uint8, G:rok, G:rcount, G:rpos, G:rname, G:rrow, G:roff
  allocs F:event
  ensures nothing: !rok ==> len(es) == 0
  ensures count: rok ==> len(es) == rcount
  ensures each: rok ==> (forall k int {es[k]} :: 0 <= k && k < len(es) ==> parsed(es[k], k))
  ensures distinct: rok ==> (forall k int, j int {es[k], es[j]} :: 0 <= k && k < j && j < len(es) ==> es[k] != es[j])
  loop (pos int, es []*event) at: rok && 0 <= len(es) && len(es) <= rcount && pos == rpos[len(es)]
  loop (es []*event) each: forall k int {es[k]} :: 0 <= k && k < len(es) ==> parsed(es[k], k)
  loop (es []*event) new: forall k int {es[k]} :: 0 <= k && k < len(es) ==> fresh(es[k])
  loop (es []*event) distinct: forall k int, j int {es[k], es[j]} :: 0 <= k && k < j && j < len(es) ==> es[k] != es[j]
