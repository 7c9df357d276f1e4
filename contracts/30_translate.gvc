// Event sets <-> kernel masks (watcher_inotify.go).

def kernelbits() = event(4095)                         // IN_ALL_EVENTS: the raw events
def validset(e) = e &^ (All | kernelbits()) == 0
def bitsof(p) = p == Create ? InCreate | InMovedTo : p == Remove ? InDelete | InDeleteSelf : p == Write ? InModify : p == Rename ? InMovedFrom | InMoveSelf : event(0)
def ifhas(e, p) = e & p != 0 ? bitsof(p) : event(0)
def kmask(e) = (e & kernelbits()) | ifhas(e, Create) | ifhas(e, Remove) | ifhas(e, Write) | ifhas(e, Rename)
// what a portable event stands for, and whether set e reports kernel mask m as portable p
def portable(p) = p == Create || p == Remove || p == Write || p == Rename
def reports(e, p, m) = portable(p) && e & p != 0 && event(m) & bitsof(p) != 0

lemma[C09] all_events(): unix.IN_ALL_EVENTS == 4095

// the kernel event a raw report was made for
ghost origin map[*event]*event

func encode(e) (m)
  props C09
  ensures mask: validset(e) ==> m == u32(kmask(e))

func decode(mask, e) (syse)
  props C09
  safety C09
  requires set: validset(mask)
  requires e: e != nil && allocated(e)
  requires kernel: event(e.sys.Mask) & All == 0
  modifies F:event.event @[e]
  allocs F:event
  set origin := store(origin, syse, e)
  ensures raw: (syse != nil) <==> (mask & event(e.sys.Mask) != 0)
  ensures raw-new: syse != nil ==> fresh(syse)
  ensures raw-event: syse != nil ==> syse.event == mask & event(e.sys.Mask)
  ensures raw-data: syse != nil ==> syse.path == e.path && syse.sys.Wd == e.sys.Wd && syse.sys.Mask == e.sys.Mask && syse.sys.Cookie == e.sys.Cookie
  ensures portable: e.event == 0 || reports(mask, e.event, e.sys.Mask)
  ensures none-lost: e.event == 0 ==> !reports(mask, Create, e.sys.Mask) && !reports(mask, Remove, e.sys.Mask) && !reports(mask, Write, e.sys.Mask) && !reports(mask, Rename, e.sys.Mask)

// paths: what filepath.Join does with a clean absolute directory and a file name
ufun cleanabs(string) bool
ufun component(string) bool
def inside(dir, name) = dir == "/" ? "/" + name : dir + "/" + name
extern filepath.Join(elem) (r)
  ensures join: len(elem) == 2 && cleanabs(elem[0]) && component(elem[1]) ==> r == inside(elem[0], elem[1])
  ensures [C04 C03 C05 C06 C07 C08 C14] below: len(elem) == 2 && cleanabs(elem[0]) && valid(elem[0]) && component(elem[1]) ==> r == join(elem[0], elem[1])

def relevant(i, o) = event(o.sys.Mask) & (event(unix.IN_IGNORED) | event(unix.IN_Q_OVERFLOW)) == 0 && o.sys.Wd in i.m && event(o.sys.Mask) & kmask(event(i.m[o.sys.Wd].mask)) != 0
def setof(i, o) = event(i.m[o.sys.Wd].mask)
def affected(i, o, name) = name == "" ? i.m[o.sys.Wd].path : inside(i.m[o.sys.Wd].path, name)
def rawreport(i, x, o, name) = x.event == setof(i, o) & event(o.sys.Mask) && x.sys.Wd == o.sys.Wd && x.sys.Mask == o.sys.Mask && x.sys.Cookie == o.sys.Cookie && x.path == affected(i, o, name)
const K int            // an arbitrary position

func (*inotify).transform(i, es) (r)
  props C09
  safety C09
  guarded i.RWMutex: M:map[int32]*watched, F:watched.path, F:watched.mask
  requires i: i != nil
  requires es: forall k int {es[k]} :: 0 <= k && k < len(es) ==> es[k] != nil && allocated(es[k]) && event(es[k].sys.Mask) & All == 0 && (es[k].path == "" || component(es[k].path))
  requires distinct: forall k int, j int {es[k], es[j]} :: 0 <= k && k < j && j < len(es) ==> es[k] != es[j]
  lockinv entries: forall wd int32 {wd in i.m} :: wd in i.m ==> i.m[wd] != nil && allocated(i.m[wd]) && validset(event(i.m[wd].mask)) && cleanabs(i.m[wd].path)
  modifies F:event.event, F:event.path, S:*event, G:origin
  allocs F:event
  ensures length: len(r) >= len(es)
  ensures portable-only: 0 <= K && K < len(es) && r[K] != nil ==> r[K] == old(es[K]) && relevant(i, r[K]) && reports(setof(i, r[K]), r[K].event, r[K].sys.Mask)
  ensures portable-path: 0 <= K && K < len(es) && r[K] != nil ==> r[K].path == affected(i, r[K], old(es[K].path))
  ensures portable-none-lost: 0 <= K && K < len(es) && r[K] == nil && relevant(i, old(es[K])) ==> (forall p Event :: !reports(setof(i, old(es[K])), p, old(es[K]).sys.Mask))
  ensures raw-none-lost: 0 <= K && K < len(es) && relevant(i, old(es[K])) && setof(i, old(es[K])) & event(old(es[K]).sys.Mask) != 0 ==> (exists j int {r[j]} :: len(es) <= j && j < len(r) && r[j] != nil && origin[r[j]] == old(es[K]))
  ensures raw-from: forall j int {r[j]} :: len(es) <= j && j < len(r) && r[j] != nil ==> (exists k int {old(es[k])} :: 0 <= k && k < len(es) && origin[r[j]] == old(es[k]))
  ensures raw-only: 0 <= K && K < len(es) ==> (forall j int {r[j]} :: len(es) <= j && j < len(r) && r[j] != nil && origin[r[j]] == old(es[K]) ==> relevant(i, old(es[K])) && rawreport(i, r[j], old(es[K]), old(es[K].path)))
  ensures raw-once: forall j int, l int {r[j], r[l]} :: len(es) <= j && j < l && l < len(r) && r[j] != nil && r[l] != nil ==> origin[r[j]] != origin[r[l]]
  // the first x events have been handled
  loop (x count) rest: forall k int {es[k]} :: x <= k && k < len(es) ==> es[k] == old(es[k])
  loop (x count) untouched: forall k int {old(es[k])} :: x <= k && k < len(es) ==> old(es[k]).path == old(es[k].path)
  loop inputs: forall k int {old(es[k])} :: 0 <= k && k < len(es) ==> old(es[k]).sys.Mask == old(es[k].sys.Mask) && old(es[k]).sys.Wd == old(es[k].sys.Wd) && old(es[k]).sys.Cookie == old(es[k].sys.Cookie)
  loop (x count) p_only: 0 <= K && K < x && K < len(es) && es[K] != nil ==> es[K] == old(es[K]) && relevant(i, es[K]) && reports(setof(i, es[K]), es[K].event, es[K].sys.Mask)
  loop (x count) p_path: 0 <= K && K < x && K < len(es) && es[K] != nil ==> es[K].path == affected(i, es[K], old(es[K].path))
  loop (x count) p_lost: 0 <= K && K < x && K < len(es) && es[K] == nil && relevant(i, old(es[K])) ==> (forall p Event :: !reports(setof(i, old(es[K])), p, old(es[K]).sys.Mask))
  loop (x count, multi []*event) r_lost: 0 <= K && K < x && K < len(es) && relevant(i, old(es[K])) && setof(i, old(es[K])) & event(old(es[K]).sys.Mask) != 0 ==> (exists j int {multi[j]} :: 0 <= j && j < len(multi) && multi[j] != nil && origin[multi[j]] == old(es[K]))
  loop (x count, multi []*event) r_from: forall j int {multi[j]} :: 0 <= j && j < len(multi) && multi[j] != nil ==> fresh(multi[j]) && (exists k int {old(es[k])} :: 0 <= k && k < x && k < len(es) && origin[multi[j]] == old(es[k]))
  loop (multi []*event) r_only: 0 <= K && K < len(es) ==> (forall j int {multi[j]} :: 0 <= j && j < len(multi) && multi[j] != nil && origin[multi[j]] == old(es[K]) ==> relevant(i, old(es[K])) && rawreport(i, multi[j], old(es[K]), old(es[K].path)))
  loop (multi []*event) r_once: forall j int, l int {multi[j], multi[l]} :: 0 <= j && j < l && l < len(multi) && multi[j] != nil && multi[l] != nil ==> origin[multi[j]] != origin[multi[l]]
