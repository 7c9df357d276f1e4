// Contracts of watchpoint.go and watchpoint_other.go.

const B Event                  // an arbitrary set of event bits (omit marks bookkeeping entries and never adds up)
axiom B & omit == 0
const CH chan<- EventInfo      // an arbitrary channel

// bits of B asked for by some channel registered in wp
def asked(wp) = exists k chan<- EventInfo {k in wp} :: k != nil && k in wp && (wp[k] &^ omit) & B != 0
// the nil entry is the union of what the channels asked for, on the bits of B
def isunion(wp) = (wp[nil] & B != 0) <==> asked(wp)
def user(e) = e &^ internal
// the nil entry never carries the omit bit
def cleantotal(wp) = wp[nil] & omit == 0
// the total covers what each channel asked for
def covered(wp) = (forall k chan<- EventInfo {wp[k]} :: k != nil && k in wp ==> (wp[k] &^ omit) &^ wp[nil] == 0) && wp[nil] & omit == 0
// every registered set asks for something, and the total is there exactly with a set
def wlive(w) = (forall k chan<- EventInfo {k in w} :: k in w && k != nil ==> user(w[k]) != 0 && nil in w) && (nil in w ==> len(w) >= 2)
def exactdiff(d, a, b) = (user(a) == user(b) ==> d[0] == 0 && d[1] == 0) && (user(a) != user(b) ==> d[0] == user(a) && d[1] == user(b))

func (eventDiff).Event(diff) (r)
  props C01
  ensures new: r == diff[1] &^ diff[0]

func (watchpoint).Total(wp) (r)
  props C01
  ensures total: r == user(wp[nil])

func (watchpoint).IsRecursive(wp) (r)
  props C01
  ensures rec: r <==> wp[nil] & recursive != 0

func (watchpoint).dryAdd(wp, ch, e) (diff)
  props C01
  safety C01
  ensures nochange: (user(e) &^ wp[ch] == 0) ==> diff[0] == 0 && diff[1] == 0
  ensures change: (user(e) &^ wp[ch] != 0) ==> diff[0] == user(wp[ch]) && diff[1] == user(wp[ch] | e)

func (watchpoint).Add(wp, c, e) (diff)
  props C01
  safety C01
  requires [C01 C05 C06 C07 C08 C14] table: wp != nil
  requires [C01 C05 C06 C07 C08 C14] channel: c != nil
  modifies M:map[chan<- EventInfo]Event @[wp]
  ensures own: c in wp && wp[c] == old(wp[c]) | e
  ensures others: CH != nil && CH != c ==> wp[CH] == old(wp[CH]) && (CH in wp <==> old(CH in wp))
  ensures total: nil in wp && wp[nil] == (old(wp[nil]) | e) &^ omit
  ensures dom: forall k chan<- EventInfo {k in wp} :: k in wp <==> k == nil || k == c || old(k in wp)
  ensures vals: forall k chan<- EventInfo {wp[k]} :: k != nil && k != c ==> wp[k] == old(wp[k])
  ensures [C01 C06 C07 C08 C14] cover: old(covered(wp)) ==> covered(wp)
  ensures [C01 C06 C14] live: old(wlive(wp)) && user(wp[c]) != 0 ==> wlive(wp)
  ensures union: old(isunion(wp) && cleantotal(wp)) ==> isunion(wp) && cleantotal(wp)
  ensures diff: exactdiff(diff, old(wp[nil]), old(wp[nil]) | e)

func (watchpoint).Del(wp, c, e) (diff)
  props C01
  safety C01
  requires [C01 C05 C06 C07 C08 C14] table: wp != nil
  requires [C01 C05 C06 C07 C08 C14] channel: c != nil
  modifies M:map[chan<- EventInfo]Event @[wp]
  ensures own: wp[c] == old(wp[c]) &^ e && (c in wp <==> wp[c] != 0)
  ensures dom: forall k chan<- EventInfo {k in wp} :: k != nil && k != c ==> (k in wp <==> old(k in wp))
  ensures vals: forall k chan<- EventInfo {wp[k]} :: k != nil && k != c ==> wp[k] == old(wp[k])
  ensures last: nil in wp <==> (exists k chan<- EventInfo {k in wp} :: k != nil && k in wp)
  ensures [C01 C06 C07 C08 C14] cover: covered(wp)
  ensures [C01 C06 C14] idle: (forall k chan<- EventInfo {wp[k]} :: k != nil && k in wp ==> wp[k] == 0) ==> wp[nil] == 0
  ensures [C01 C06 C14] live: old(wlive(wp)) && (wp[c] == 0 || user(wp[c]) != 0) ==> wlive(wp)
  ensures union: isunion(wp)
  ensures clean: cleantotal(wp)
  ensures diff: exactdiff(diff, old(wp[nil]), wp[nil])
  loop (it iter, d eventDiff) acc: (d[1] & B != 0) <==> (exists k chan<- EventInfo {visited(it, k)} :: visited(it, k) && itermap(it)[k] & B != 0)
  loop (it iter, x Event) accx: (x & B != 0) <==> (exists k chan<- EventInfo {visited(it, k)} :: visited(it, k) && itermap(it)[k] & B != 0)
  loop [C01 C06 C07 C08 C14] (it iter, d eventDiff) over: forall k chan<- EventInfo {visited(it, k)} :: visited(it, k) ==> itermap(it)[k] &^ d[1] == 0
  loop [C01 C06 C07 C08 C14] (it iter, x Event) overx: forall k chan<- EventInfo {visited(it, k)} :: visited(it, k) ==> itermap(it)[k] &^ x == 0
  loop [C01 C06 C14] (it iter, d eventDiff) idle: (forall k chan<- EventInfo {visited(it, k)} :: visited(it, k) ==> itermap(it)[k] == 0) ==> d[1] == 0
  loop [C01 C06 C14] (it iter, x Event) idlex: (forall k chan<- EventInfo {visited(it, k)} :: visited(it, k) ==> itermap(it)[k] == 0) ==> x == 0
  loop (it iter) vis: forall k chan<- EventInfo {visited(it, k)} :: visited(it, k) ==> k in itermap(it)
