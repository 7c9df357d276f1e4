// The two registration trees: Watch, Stop, dispatch, internal, Close.

// An event on the path P concerns the entry of P, the entry of its directory
// and, for recursive watches, the entries further up.
def offered(ei) = vP[T] ==> offR[vW[T]] == old(offR[vW[T]]) + (below(T, ei.Path()) && T != ei.Path() && !child(T, ei.Path()) ? 1 : 0) && off0[vW[T]] == old(off0[vW[T]]) + (child(T, ei.Path()) || T == ei.Path() ? 1 : 0)
// the total of an entry covers what its channels asked for
def t_cover() = (forall p string, k chan<- EventInfo {wpof(p)[k]} :: vP[p] && k != nil && k in wpof(p) ==> (wpof(p)[k] &^ omit) &^ wpof(p)[nil] == 0) && (forall p string {wpof(p)[nil]} :: vP[p] ==> wpof(p)[nil] & omit == 0)
ghost started int
ghost startedfor EventInfo

// The non-recursive tree: every entry and the backend agree, and so on.
def wrec(w, r) = r in w ==> w[r] & (Create | omit) == Create | omit
def t_live() = forall p string {wpof(p)} :: vP[p] ==> wlive(wpof(p))
def t_rec(r) = forall p string {wpof(p)} :: vP[p] ==> wrec(wpof(p), r)
def t_sync() = !failed ==> inst == (vP[T] ? user(wpof(T)[nil]) : event(0))

lib nrlock
  guarded t.rw: M:map[string]node, M:map[chan<- EventInfo]Event, G:vP, G:vW, G:vC, G:nm, G:nmW, G:inst, G:failed
  requires t: t != nil
  requires unlocked: lockstate(t.rw) == 0
  lockinv [C05 C06 C07 C14] root: t_root() && isat(t.root.nd, "")
  lockinv [C05 C06 C07 C14] refs: t_refs()
  lockinv [C05 C06 C07 C14] down: t_down()
  lockinv [C05 C06 C07 C14] up: t_up()
  lockinv [C05 C06 C07 C14] closed: t_closed()
  lockinv [C05 C06 C07 C14] plain: t_plain()
  lockinv [C06 C14] cover: t_cover()
  lockinv [C06 C14] live: t_live()
  lockinv [C06 C14] rec: t_rec(t.rec)
  lockinv [C06 C14] sync: t_sync()

// the set of CH at T is what it was
def samereg() = (old(vP[T]) ==> vP[T]) && (vP[T] ==> wpof(T)[CH] == (old(vP[T]) ? old(wpof(T)[CH]) : event(0)))

lib dispatching
  spawn(ei: EventInfo)
  spawnset [C03 C14] started := started + 1
  spawnset [C03 C14] startedfor := ei
  step [C03 C14] each: started == old(started) + 1 && startedfor == received
  spawnrequires unlocked: lockstate(t.rw) == 0
  spawnrequires [C03] root: t_root() && isat(t.root.nd, "")
  spawnrequires [C03] refs: t_refs()
  spawnrequires [C03] down: t_down()
  spawnrequires [C03] up: t_up()
  spawnrequires [C03] closed: t_closed()
  spawnrequires [C03] cover: t_cover()
  spawnrequires [C03] event: ei == EV && valid(ei.Path()) && !offX
  spawnensures [C03] offered: offered(ei)
  spawnensures [C03] nothing-else: !offX
  walk [C03] () far: vP[T] ==> offR[vW[T]] == old(offR[vW[T]]) + (T == arg1 ? 0 : wseen)
  walk [C03] () near: vP[T] ==> off0[vW[T]] == old(off0[vW[T]])
  walk [C03 C14] (x node) end: wend ==> isat(x, arg1)
  walk [C03] () clean: !offX && !wcut && werr == nil
  walk [C14] () whole: !wcut && werr == nil

func (*nonrecursiveTree).Watch(t, path, c, events) (err)
  props C13 C07 C06 C14
  opt lemmas all-below-root
  use nrlock
  requires [C06 C07 C14] chan: c != nil && c != t.rec && t.rec != nil
  requires [C06 C07 C14] good: !fsbad && !refused && !refusedat && !isroot(path)
  requires [C06 C14] events: forall k int {events[k]} :: 0 <= k && k < len(events) ==> user(events[k]) == events[k] && events[k] != 0
  modifies [C06 C07 C14] M:map[string]node, M:map[chan<- EventInfo]Event, G:vP, G:vW, G:vC, G:nm, G:nmW, G:inst, G:failed, G:refused, G:refusedat, G:fsbad, G:lstats, G:cleaned, G:cleanrec, G:cleanerr
  modifies [C14] G:scanfailed
  ensures [C14] kept: old(vP[T]) ==> vP[T] && old(wpof(T)[t.rec]) &^ wpof(T)[t.rec] == 0
  ensures [C14] automatic: err == nil && len(events) != 0 && cleanrec ==> vP[cleaned] && (forall k int {events[k]} :: 0 <= k && k < len(events) && events[k] & B != 0 ==> wpof(cleaned)[t.rec] & B != 0) && wpof(cleaned)[c] & recursive != 0
  walk [C14] () kept: old(vP[T]) ==> vP[T] && old(wpof(T)[t.rec]) &^ wpof(T)[t.rec] == 0
  walk [C14] (e param Event) automatic: user(e) &^ wpof(cleaned)[t.rec] == 0
  ensures [C07] unchanged: err != nil && CH != nil && CH != t.rec ==> samereg()
  ensures [C07] others: CH != nil && CH != t.rec && (CH != c || len(events) == 0 || T != cleaned) ==> samereg()
  ensures [C07] registered: err == nil && len(events) != 0 ==> vP[cleaned] && (forall k int {events[k]} :: 0 <= k && k < len(events) && events[k] & B != 0 ==> wpof(cleaned)[c] & B != 0) && (cleanrec ==> wpof(cleaned)[c] & recursive != 0)
  ensures [C07] unresolved: len(events) != 0 && cleanerr ==> err != nil
  ensures [C07] reported: refused && !cleanrec ==> err != nil
  ensures [C07] reported-recursive: refusedat ==> err != nil
  walk [C06 C07 C14] () base: vP[cleaned]
  walk [C07] () reported: !refusedat
  walk [C06 C07 C14] (e param Event) covered: user(e | Create) &^ wpof(cleaned)[nil] == 0
  walk [C07] () others: CH != nil && CH != t.rec ==> samereg()
  walk [C06 C07 C14] () snap: svP == vP && svW == vW && svC == vC
  walk [C06 C07 C14] () plain: t_plain()
  walk [C06 C07 C14] () refs: t_refs()
  walk [C06 C14] () sync: t_sync()
  walk [C06 C14] () cover: t_cover()
  walk [C06 C14] () live: t_live()
  walk [C06 C14] () rec: t_rec(t.rec)

func (*nonrecursiveTree).watchDelMin(t, min, nd, c, e) (diff)
  props C05 C06 C14
  opt aux yes
  requires chan: t != nil && c != nil && c != t.rec && nd.Watch != nil && t.rec != nil
  requires [C06 C14] node: covered(nd.Watch) && wlive(nd.Watch) && wrec(nd.Watch, t.rec) && (min == 0 || min & (Create | omit) == Create | omit) && e == all
  modifies M:map[chan<- EventInfo]Event @[nd.Watch]
  ensures [C06 C14] cover: covered(nd.Watch)
  ensures [C06 C14] live: wlive(nd.Watch)
  ensures [C06 C14] rec: wrec(nd.Watch, t.rec)
  ensures [C06 C14] diff: exactdiff(diff, old(nd.Watch[nil]), nd.Watch[nil])
  ensures own: nd.Watch[c] == old(nd.Watch[c]) &^ e && (c in nd.Watch <==> nd.Watch[c] != 0)
  loop [C06 C14] (it iter, keep Event) top: user(keep) &^ nd.Watch[nil] == 0
  loop [C06 C14] (it iter, keep Event) min: min &^ keep == 0
  loop [C14] (it iter, keep Event) kept: CH != nil && CH != t.rec && visited(it, CH) && itermap(it)[CH] & recursive != 0 ==> itermap(it)[CH] &^ keep == 0
  loop [C06 C14] (it iter) map: itermap(it) == nd.Watch
  ensures [C14] kept: CH != nil && CH != c && CH != t.rec && CH in nd.Watch && nd.Watch[CH] & recursive != 0 ==> user(old(nd.Watch[t.rec]) & nd.Watch[CH]) &^ nd.Watch[t.rec] == 0
  ensures others: forall k chan<- EventInfo {k in nd.Watch} {nd.Watch[k]} :: k != nil && k != t.rec && k != c ==> nd.Watch[k] == old(nd.Watch[k]) && (k in nd.Watch <==> old(k in nd.Watch))

func (*nonrecursiveTree).walkWatchpoint(t, nd, fn) (err)
  props C05 C06 C14
  opt aux yes
  use treeinv
  requires live: isat(nd, nd.Name)
  requires plain: t_plain()
  requires [C06 C14] rec: t_rec(t.rec)
  requires start: wseen == 0 && !wcut && werr == nil
  modifies M:map[chan<- EventInfo]Event, G:wseen, G:wcut, G:werr
  callback fn(min, x) (e)
  cbrequires entry: isat(x, x.Name) && below(nd.Name, x.Name)
  cbrequires going: werr == nil
  cbrequires once: x.Name == T ==> wseen == 0 && !wcut
  cbrequires [C06 C14] min: min == 0 || min & (Create | omit) == Create | omit
  cbrequires [C06 C14] used: len(x.Watch) != 0
  cbensures [C06 C14] rec: t_rec(t.rec)
  loop [C06 C14] () rec: t_rec(t.rec)
  loop [C06 C14] (s hasnodes) mins: forall j int {s[j]} :: 0 <= j && j < len(s) ==> s[j].min == 0 || s[j].min & (Create | omit) == Create | omit
  cbmodifies M:map[chan<- EventInfo]Event @[x.Watch]
  cbset wseen := wseen + (x.Name == T ? 1 : 0)
  cbset wcut := wcut || e == errSkip && x.Name != T && below(x.Name, T)
  cbset werr := e != errSkip ? e : werr
  ensures error: err == werr
  ensures seen: err == nil && vP[T] && below(nd.Name, T) && !wcut && wseen == 0 ==> len(wpof(T)) == 0
  ensures once: wseen <= 1
  loop (s hasnodes) elems: forall j int {s[j]} :: 0 <= j && j < len(s) ==> isat(nodeOf(s[j]), nodeOf(s[j]).Name) && below(nd.Name, nodeOf(s[j]).Name)
  loop (s hasnodes) apart: forall j int, k int {s[j], s[k]} :: 0 <= j && j < k && k < len(s) ==> !(below(nodeOf(s[j]).Name, T) && below(nodeOf(s[k]).Name, T))
  loop (s hasnodes) pending: forall j int {s[j]} :: 0 <= j && j < len(s) && below(nodeOf(s[j]).Name, T) ==> wseen == 0 && !wcut
  loop (s hasnodes) covered: vP[T] && below(nd.Name, T) && wseen == 0 && !wcut && len(wpof(T)) != 0 ==> (exists j int {s[j]} :: 0 <= j && j < len(s) && below(nodeOf(s[j]).Name, T))
  loop (n int, s hasnodes) size: n == len(s)
  loop () count: wseen == 0 || wseen == 1 && vP[T] && below(nd.Name, T) && !wcut
  loop () going: werr == nil
  loop (cur hasnode, it iter map[string]node) cur: isat(nodeOf(cur), nodeOf(cur).Name) && below(nd.Name, nodeOf(cur).Name)
  loop (cur hasnode, it iter map[string]node, s hasnodes) part: vP[T] && below(nd.Name, T) && wseen == 0 && !wcut && len(wpof(T)) != 0 ==> (exists j int {s[j]} :: 0 <= j && j < len(s) && below(nodeOf(s[j]).Name, T)) || below(nodeOf(cur).Name, T) && T != nodeOf(cur).Name && !visited(it, step(nodeOf(cur).Name, T))
  loop (cur hasnode, it iter map[string]node, s hasnodes) left: below(nodeOf(cur).Name, T) && (T == nodeOf(cur).Name || !visited(it, step(nodeOf(cur).Name, T))) ==> (forall j int {s[j]} :: 0 <= j && j < len(s) ==> !below(nodeOf(s[j]).Name, T))
  loop (cur hasnode, it iter map[string]node) now: below(nodeOf(cur).Name, T) && T != nodeOf(cur).Name ==> wseen == 0 && !wcut
  loop (cur hasnode, it iter map[string]node) map: itermap(it) == nodeOf(cur).Child

func (*nonrecursiveTree).Stop(t, c)
  props C13 C05 C06 C14
  opt lemmas all-below-root
  use nrlock
  requires [C05 C06 C14] chan: c != nil && c != t.rec && t.rec != nil
  modifies [C05 C06 C14] M:map[chan<- EventInfo]Event, G:inst, G:failed
  ensures [C05] gone: vP[T] ==> !(c in wpof(T))
  ensures [C05] others: vP[T] && CH != nil && CH != t.rec && CH != c ==> wpof(T)[CH] == old(wpof(T)[CH]) && (CH in wpof(T) <==> old(CH in wpof(T)))
  ensures [C14] kept: vP[T] && CH != nil && CH != c && CH != t.rec && CH in wpof(T) && wpof(T)[CH] & recursive != 0 ==> old(CH in wpof(T)) && wpof(T)[CH] == old(wpof(T)[CH]) && user(old(wpof(T)[t.rec]) & wpof(T)[CH]) &^ wpof(T)[t.rec] == 0
  walk [C14] () kept: vP[T] && CH != nil && CH != c && CH != t.rec && CH in wpof(T) && wpof(T)[CH] & recursive != 0 ==> old(CH in wpof(T)) && wpof(T)[CH] == old(wpof(T)[CH]) && user(old(wpof(T)[t.rec]) & wpof(T)[CH]) &^ wpof(T)[t.rec] == 0
  walk [C05] () left: vP[T] && c in wpof(T) ==> wseen == 0 && !wcut
  walk [C05] () never: !wcut
  walk [C05] () fine: werr == nil
  walk [C05] () others: vP[T] && CH != nil && CH != t.rec && CH != c ==> wpof(T)[CH] == old(wpof(T)[CH]) && (CH in wpof(T) <==> old(CH in wpof(T)))
  walk [C06 C14] () sync: t_sync()
  walk [C06 C14] () cover: t_cover()
  walk [C06 C14] () live: t_live()
  walk [C06 C14] () rec: t_rec(t.rec)

func (*nonrecursiveTree).internal(t, rec)
  props C13 C06 C14
  opt lemmas all-below-root
  use nrlock
  requires [C06 C14] chan: t.rec != nil
  requires [C06 C14] paths: forall ei EventInfo {ei.Path()} :: valid(ei.Path()) && cleanabs(ei.Path())
  modifies [C06 C14] M:map[string]node, M:map[chan<- EventInfo]Event, G:vP, G:vW, G:vC, G:nm, G:nmW, G:inst, G:failed
  walk [C06 C14] () snap: svP == vP && svW == vW && svC == vC
  walk [C06 C14] () plain: t_plain()
  walk [C06 C14] () refs: t_refs()
  walk [C06 C14] () cover: t_cover()
  walk [C06 C14] () live: t_live()
  walk [C06 C14] () rec: t_rec(t.rec)
  walk [C06 C14] () whole: !wcut && werr == nil
  walk [C06 C14] () sync: t_sync()
  walk [C06 C14] () inside: wseen != 0 ==> vP[T] && below(arg1.Name, T)
  walk [C06 C14] () released: !failed ==> inst == (wseen == 0 && vP[T] ? user(wpof(T)[nil]) : event(0))
  walk [C06 C14] (e Event, x node) last: e != internal ==> isat(x, x.Name) && below(x.Name, arg1)
  modifies [C14] G:scanfailed
  walk [C14] (e Event) gathered: wseenQ ==> pre(vP[Q]) && pre(wpof(Q)[t.rec]) &^ e == 0
  walk [C14] (e Event) still: pre(vP[T]) ==> vP[T] && inst == pre(inst) && wpof(T)[CH] == pre(wpof(T)[CH])
  walk [C14] (e Event) stillQ: pre(vP[Q]) ==> vP[Q] && wpof(Q)[t.rec] == pre(wpof(Q)[t.rec])
  walk [C14] (e Event) watched: wseen != 0 ==> user(e) &^ wpof(T)[t.rec] == 0
  walk [C14] () within: wseen != 0 ==> vP[T] && below(arg0.Name, T)
  walk [C14] () stays: pre(vP[T]) ==> vP[T] && vW[T] == pre(vW[T])
  walk [C14] () aside: wseen == 0 && pre(vP[T]) ==> inst == pre(inst) && wpof(T)[CH] == pre(wpof(T)[CH])
  walk [C14] () users: pre(vP[T]) && CH != nil && CH != t.rec ==> wpof(T)[CH] == pre(wpof(T)[CH])
  step [C14] watched: received.Event() != Remove && below(received.Path(), T) && (T == received.Path() || isdir(T)) && !scanfailed && below(Q, received.Path()) && acq(vP[Q]) && user(acq(wpof(Q)[t.rec])) != 0 ==> vP[T] && user(acq(wpof(Q)[t.rec])) &^ wpof(T)[t.rec] == 0
  step [C14] gone: received.Event() == Remove && below(received.Path(), T) ==> !vP[T] && (!failed ==> inst == 0)
  step [C14] others: !below(received.Path(), T) && acq(vP[T]) && CH != nil ==> (vP[T] ? wpof(T)[CH] == acq(wpof(T)[CH]) && inst == acq(inst) : acq(wpof(T)[CH]) == 0 && inst == acq(inst))
  step [C14] users: received.Event() != Remove && acq(vP[T]) && CH != nil && CH != t.rec ==> vP[T] && wpof(T)[CH] == acq(wpof(T)[CH])

func (*nonrecursiveTree).dispatch(t, c)
  props C13 C03 C14
  opt lemmas all-below-root
  modifies [C03 C14] G:started, G:startedfor
  use nrlock
  sendset [C14] (ch, x) fwd := ch == t.rec && x == ei ? fwd + 1 : fwd
  spawnrequires [C14] asked: !dirasked
  spawnrequires [C14] path: valid(ei.Path())
  spawnensures [C14] forwarded: CH != nil && below(T, ei.Path()) && vP[T] && CH in wpof(T) && wpof(T)[CH] & recursive != 0 && child(Q, ei.Path()) && vP[Q] && ei.Event() & (Create | Remove) != 0 && !(dirasked && !wasdir) ==> fwd == old(fwd) + 1
  walk [C14] (r bool) flag: wseen != 0 && CH != nil && CH in wpof(T) && wpof(T)[CH] & recursive != 0 ==> r
  use dispatching
  onsend (ch, x) locked: lockstate(t.rw) >= 1 || ch == t.rec

func (*nonrecursiveTree).Close(t) (err)
  props C13
  guarded t.rw: M:map[string]node, M:map[chan<- EventInfo]Event
  requires t: t != nil
  requires unlocked: lockstate(t.rw) == 0

func (*recursiveTree).Watch(t, path, c, events) (err)
  props C13
  guarded t.rw: M:map[string]node, M:map[chan<- EventInfo]Event
  requires t: t != nil
  requires unlocked: lockstate(t.rw) == 0

func watchDel(nd, c, e) (diff)
  props C05
  opt aux yes
  requires tables: c != nil && nd.Watch != nil && nd.Watch != nd.Child[""].Watch
  modifies M:map[chan<- EventInfo]Event @[nd.Watch, nd.Child[""].Watch]
  ensures own: nd.Watch[c] == old(nd.Watch[c]) &^ e && (c in nd.Watch <==> nd.Watch[c] != 0)
  ensures inactive: nd.Child[""].Watch != nil ==> nd.Child[""].Watch[c] == old(nd.Child[""].Watch[c]) &^ e && (c in nd.Child[""].Watch ==> nd.Child[""].Watch[c] != 0)
  ensures others: forall k chan<- EventInfo {k in nd.Watch} {nd.Watch[k]} :: k != nil && k != c ==> nd.Watch[k] == old(nd.Watch[k]) && (k in nd.Watch <==> old(k in nd.Watch))
  ensures inothers: forall k chan<- EventInfo {k in nd.Child[""].Watch} {nd.Child[""].Watch[k]} :: k != nil && k != c ==> nd.Child[""].Watch[k] == old(nd.Child[""].Watch[k]) && (k in nd.Child[""].Watch <==> old(k in nd.Child[""].Watch))

// what the helpers of Stop answer does not matter for C05
func watchTotal(nd) (e)
  props C05
  opt aux yes

func watchIsRecursive(nd) (r)
  props C05
  opt aux yes

func nonil(err) (r)
  props C05
  opt aux yes

// c is registered at p, or below p and remembered there
def holds(p, c) = c in wpof(p) || c in inact(p)
def regkept(p, k) = wpof(p)[k] == old(wpof(p)[k]) && (k in wpof(p) <==> old(k in wpof(p))) && inact(p)[k] == old(inact(p)[k]) && (k in inact(p) <==> old(k in inact(p)))

func (*recursiveTree).Stop(t, c)
  props C13 C05
  opt lemmas all-below-root
  guarded t.rw: M:map[string]node, M:map[chan<- EventInfo]Event
  requires t: t != nil
  requires unlocked: lockstate(t.rw) == 0
  use [C05] treeinv
  requires [C05] root: isat(t.root.nd, "")
  requires [C05] inactive: t_inact()
  requires [C05] chan: c != nil
  modifies [C05] M:map[chan<- EventInfo]Event
  ensures [C05] gone: vP[T] ==> !holds(T, c)
  ensures [C05] others: vP[T] && CH != nil && CH != c ==> regkept(T, CH)
  walk [C05] () left: vP[T] && holds(T, c) ==> wseen == 0
  walk [C05] () outer: vP[T] && holds(T, c) ==> pre(wseen == 0 && !wcut)
  walk [C05] () cut: vP[T] && holds(T, c) ==> !wcut
  walk [C05] () never: !wcut
  walk [C05] () fine: werr == nil
  walk [C05] () others: vP[T] && CH != nil && CH != c ==> regkept(T, CH)

func (*recursiveTree).dispatch(t)
  props C13 C03
  opt lemmas all-below-root
  modifies [C03] G:started, G:startedfor
  guarded t.rw: M:map[string]node, M:map[chan<- EventInfo]Event
  requires t: t != nil
  requires unlocked: lockstate(t.rw) == 0
  use dispatching
  onsend (ch, x) locked: lockstate(t.rw) >= 1

func (*recursiveTree).Close(t) (err)
  props C13
  guarded t.rw: M:map[string]node, M:map[chan<- EventInfo]Event
  requires t: t != nil
  requires unlocked: lockstate(t.rw) == 0

