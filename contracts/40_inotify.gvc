// The inotify watch table and the descriptors of the backend (watcher_inotify.go).

ghost kopen map[int]bool         // the open descriptors of the process
ghost krm map[int32]bool         // watch descriptors handed to inotify_rm_watch
ghost kbad bool                  // rm_watch failed otherwise than because the watch was gone already
ghost kadds int                  // successful inotify_add_watch calls
ghost kwd int32                  // what the last one was given and returned
ghost kpath string
ghost kset uint32

extern errors.New(text) (err)
  ensures some: err != nil

// Assumed behaviour of the system calls.
extern unix.InotifyInit1(flags) (fd, err)
  set kopen := err == nil ? store(kopen, fd, true) : kopen
  ensures ok: err == nil ==> 0 <= fd && fd <= 2147483647 && !old(kopen[fd])
  ensures refused: err != nil ==> fd == -1
extern unix.EpollCreate1(flag) (fd, err)
  set kopen := err == nil ? store(kopen, fd, true) : kopen
  ensures ok: err == nil ==> 0 <= fd && fd <= 2147483647 && !old(kopen[fd])
  ensures refused: err != nil ==> fd == -1
// on failure this version of unix.Pipe stores zeros
extern unix.Pipe(p) (err)
  modifies S:int @[base(p)]
  set kopen := err == nil ? store(store(kopen, p[0], true), p[1], true) : kopen
  ensures ok: err == nil ==> 0 <= p[0] && 0 <= p[1] && p[0] <= 2147483647 && p[1] <= 2147483647 && p[0] != p[1] && !old(kopen)[p[0]] && !old(kopen)[p[1]]
  ensures refused: err != nil && len(p) == 2 ==> p[0] == 0 && p[1] == 0
extern unix.EpollCtl(epfd, op, fd, ev) (err)
extern unix.Write(fd, p) (n, err)
extern unix.Close(fd) (err)
  set kopen := store(kopen, fd, false)
extern unix.InotifyAddWatch(fd, pathname, mask) (wd, err)
  set kadds := err == nil ? kadds + 1 : kadds
  set kwd := err == nil ? i32(wd) : kwd
  set kpath := err == nil ? pathname : kpath
  set kset := err == nil ? mask : kset
  ensures ok: err == nil ==> 1 <= wd && wd <= 2147483647
extern unix.InotifyRmWatch(fd, wd) (r, err)
  set krm := store(krm, u32toi32(wd), true)
  set kbad := kbad || err != nil && err != unix.EINVAL

// entries are objects of their own
def wfentry(i, wd) = i.m[wd] != nil && allocated(i.m[wd]) && validset(event(i.m[wd].mask))
def entrywas(i, wd) = (wd in i.m <==> acq(wd in i.m)) && (wd in i.m ==> i.m[wd] == acq(i.m[wd]) && i.m[wd].path == acq(i.m[wd].path) && i.m[wd].mask == acq(i.m[wd].mask))

func (*inotify).epollclose(i) (err)
  props C11
  opt aux yes
  requires i: i != nil && len(i.pipefd) == 2
  modifies F:inotify.epfd @[i], S:int @[base(i.pipefd)], G:kopen
  ensures closed: forall d int {kopen[d]} :: d >= 0 ==> (kopen[d] <==> old(kopen[d]) && d != old(i.epfd) && d != old(i.pipefd[0]) && d != old(i.pipefd[1]))
  ensures pipe: (i.pipefd[0] == -1 || i.pipefd[0] == old(i.pipefd[0])) && (i.pipefd[1] == -1 || i.pipefd[1] == old(i.pipefd[1]))
  ensures epfd: i.epfd == -1 || i.epfd == old(i.epfd)
  ensures all: err == nil ==> i.epfd == -1 && i.pipefd[0] == -1 && i.pipefd[1] == -1
  loop (n count, err error) closed: forall d int {kopen[d]} :: d >= 0 ==> (kopen[d] <==> old(kopen[d]) && d != old(i.epfd) && !(n >= 1 && d == old(i.pipefd[0])) && !(n >= 2 && d == old(i.pipefd[1])))
  loop (n count, err error) rest: (n <= 0 ==> i.pipefd[0] == old(i.pipefd[0])) && (n <= 1 ==> i.pipefd[1] == old(i.pipefd[1]))
  loop (n count, err error) done: err == nil ==> i.epfd == -1 && (n >= 1 ==> i.pipefd[0] == -1) && (n >= 2 ==> i.pipefd[1] == -1)
  loop (n count, err error) pipe: (i.pipefd[0] == -1 || i.pipefd[0] == old(i.pipefd[0])) && (i.pipefd[1] == -1 || i.pipefd[1] == old(i.pipefd[1]))

func (*inotify).lazyinit(i) (err)
  props C11 C13
  opt aux yes
  guarded i.RWMutex: M:map[int32]*watched, F:watched.path, F:watched.mask
  requires [C13] unlocked: lockstate(i.RWMutex) == 0
  volatile i.RWMutex: F:inotify.fd
  requires i: i != nil && len(i.pipefd) == 2
  modifies F:inotify.fd @[i], F:inotify.epfd @[i], F:inotify.epes @[i], S:int @[base(i.pipefd)], G:kopen
  ensures [C11] failed: err != nil ==> i.fd == -1
  ensures [C11] ready: err == nil ==> i.fd != -1
  ensures [C11] once: acq(i.fd) != -1 ==> err == nil && i.fd == acq(i.fd) && (forall d int {kopen[d]} :: kopen[d] == old(kopen[d]))
  ensures [C11] closed-again: err != nil ==> (forall d int {kopen[d]} :: d >= 0 && kopen[d] ==> old(kopen[d]))
  ensures [C11] no-other: err != nil && old(i.pipefd[0]) == -1 && old(i.pipefd[1]) == -1 ==> (forall d int {kopen[d]} :: d >= 0 && old(kopen[d]) ==> kopen[d])

// a request for set e at path p that went through
def requested(i, p, e) = kadds == old(kadds) + 1 && kpath == p && kset == u32(kmask(e)) && kwd in i.m && i.m[kwd] != nil && i.m[kwd].path == p && i.m[kwd].mask == u32(e)
def untouched(i) = same("M:map[int32]*watched") && same("F:watched.path") && same("F:watched.mask")

func (*inotify).Watch(i, path, e) (err)
  props C11 C13
  guarded i.RWMutex: M:map[int32]*watched, F:watched.path, F:watched.mask
  requires [C13] unlocked: lockstate(i.RWMutex) == 0
  volatile i.RWMutex: F:inotify.fd
  requires i: i != nil && len(i.pipefd) == 2 && i.m != nil
  lockinv [C11] entries: forall wd int32 {wd in i.m} :: wd in i.m ==> wfentry(i, wd)
  lockinv [C11] own: forall wd int32, we int32 {wd in i.m, we in i.m} :: wd in i.m && we in i.m && wd != we ==> i.m[wd] != i.m[we]
  modifies M:map[int32]*watched @[i.m], F:watched.path, F:watched.mask, F:inotify.fd @[i], F:inotify.epfd @[i], F:inotify.epes @[i], S:int @[base(i.pipefd)], G:kopen, G:kadds, G:kwd, G:kpath, G:kset
  ensures [C11] entry: err == nil ==> validset(e) && requested(i, path, e)
  ensures [C11] others: err == nil ==> (forall wd int32 {wd in i.m} :: wd != kwd ==> entrywas(i, wd))
  ensures [C11] failed: err != nil ==> untouched(i)
  ensures [C11] unknown: !validset(e) ==> err != nil && kadds == old(kadds)

func (*inotify).Rewatch(i, path, oldevent, newevent) (err)
  props C11 C13
  guarded i.RWMutex: M:map[int32]*watched, F:watched.path, F:watched.mask
  requires [C13] unlocked: lockstate(i.RWMutex) == 0
  volatile i.RWMutex: F:inotify.fd
  requires i: i != nil && len(i.pipefd) == 2 && i.m != nil
  lockinv [C11] entries: forall wd int32 {wd in i.m} :: wd in i.m ==> wfentry(i, wd)
  lockinv [C11] own: forall wd int32, we int32 {wd in i.m, we in i.m} :: wd in i.m && we in i.m && wd != we ==> i.m[wd] != i.m[we]
  modifies M:map[int32]*watched @[i.m], F:watched.path, F:watched.mask, F:inotify.fd @[i], F:inotify.epfd @[i], F:inotify.epes @[i], S:int @[base(i.pipefd)], G:kopen, G:kadds, G:kwd, G:kpath, G:kset
  ensures [C11] entry: err == nil ==> validset(newevent) && requested(i, path, newevent)
  ensures [C11] others: err == nil ==> (forall wd int32 {wd in i.m} :: wd != kwd ==> entrywas(i, wd))
  ensures [C11] failed: err != nil ==> untouched(i)
  ensures [C11] unknown: !validset(newevent) ==> err != nil && kadds == old(kadds)

func (*inotify).Unwatch(i, path) (err)
  props C11 C13
  guarded i.RWMutex: M:map[int32]*watched, F:watched.path, F:watched.mask
  requires [C13] unlocked: lockstate(i.RWMutex) == 0
  volatile i.RWMutex: F:inotify.fd
  requires i: i != nil && i.m != nil
  requires [C11] fresh: forall wd int32 {krm[wd]} :: !krm[wd]
  requires [C11] good: !kbad
  lockinv [C11] entries: forall wd int32 {wd in i.m} :: wd in i.m ==> wfentry(i, wd)
  lockinv [C11] own: forall wd int32, we int32 {wd in i.m, we in i.m} :: wd in i.m && we in i.m && wd != we ==> i.m[wd] != i.m[we]
  modifies M:map[int32]*watched @[i.m], G:krm, G:kbad, F:inotify.fd @[i]
  ensures [C11] released: err == nil ==> (forall wd int32 {wd in i.m} {acq(wd in i.m)} :: acq(wd in i.m && i.m[wd].path == path) ==> krm[wd] && !(wd in i.m))
  ensures [C11] others: forall wd int32 {wd in i.m} {acq(wd in i.m)} :: acq(!(wd in i.m && i.m[wd].path == path)) ==> entrywas(i, wd)
  ensures [C11] no-other: forall wd int32 {krm[wd]} :: krm[wd] ==> acq(wd in i.m && i.m[wd].path == path)
  ensures [C11] kept: forall wd int32 {wd in i.m} {acq(wd in i.m)} :: acq(wd in i.m) && !(wd in i.m) ==> krm[wd]
  ensures [C11] gone-already: !kbad ==> (err == nil <==> !(forall wd int32 {acq(wd in i.m)} :: !acq(wd in i.m && i.m[wd].path == path)))
  ensures [C11] reported: kbad ==> err != nil
  loop [C11] (it iter) fine: !kbad
  ensures [C11] none: err == nil ==> (exists wd int32 :: acq(wd in i.m && i.m[wd].path == path))
  loop [C11] (it iter) state: forall wd int32 {wd in i.m} {visited(it, wd)} :: visited(it, wd) ? (acq(wd in i.m && i.m[wd].path == path) ? krm[wd] && !(wd in i.m) : entrywas(i, wd)) : entrywas(i, wd)
  loop [C11] (it iter) rm: forall wd int32 {krm[wd]} :: krm[wd] ==> visited(it, wd) && acq(wd in i.m && i.m[wd].path == path)
  loop [C11] (it iter, found bool) found: found ==> (exists wd int32 :: visited(it, wd) && acq(wd in i.m && i.m[wd].path == path))
  loop [C11] (it iter, found bool) notfound: !found ==> (forall wd int32 {visited(it, wd)} :: visited(it, wd) ==> !acq(wd in i.m && i.m[wd].path == path))

func (*inotify).Close(i) (err)
  props C11 C13
  guarded i.RWMutex: M:map[int32]*watched, F:watched.path, F:watched.mask
  requires [C13] unlocked: lockstate(i.RWMutex) == 0
  volatile i.RWMutex: F:inotify.fd
  requires i: i != nil && i.m != nil && len(i.pipefd) == 2
  requires [C11] fresh: forall wd int32 {krm[wd]} :: !krm[wd]
  requires [C11] good: !kbad
  modifies M:map[int32]*watched @[i.m], G:krm, G:kbad, F:inotify.fd @[i]
  ensures [C11] empty: acq(i.fd) != -1 ==> (forall wd int32 {wd in i.m} :: !(wd in i.m))
  ensures [C11] released: acq(i.fd) != -1 ==> (forall wd int32 {acq(wd in i.m)} {krm[wd]} :: acq(wd in i.m) ==> krm[wd])
  ensures [C11] no-other: forall wd int32 {krm[wd]} :: krm[wd] ==> acq(wd in i.m)
  ensures [C11] reported: kbad ==> err != nil
  loop [C11] (it iter, err error) reported: kbad ==> err != nil
  loop [C11] (it iter) gone: forall wd int32 {wd in i.m} {visited(it, wd)} :: visited(it, wd) ? krm[wd] && !(wd in i.m) : entrywas(i, wd)
  loop [C11] (it iter) rm: forall wd int32 {krm[wd]} :: krm[wd] ==> visited(it, wd) && acq(wd in i.m)

func newWatcher(c) (w)
  props C11
  allocs F:inotify
  ensures table: let i = unbox("*inotify", w); dyn("*inotify", w) && fresh(i) && i.fd == -1 && i.epfd == -1 && len(i.pipefd) == 2 && i.pipefd[0] == -1 && i.pipefd[1] == -1 && i.m != nil && (forall wd int32 {wd in i.m} :: !(wd in i.m))
