// Event values: the constants and how a value is printed.

def disjoint(a, b) = a & b == 0

// the portable events and the two internal markers are single, different bits
lemma[C15] portable_disjoint(): disjoint(Create, Remove) && disjoint(Create, Write) && disjoint(Create, Rename) && disjoint(Remove, Write) && disjoint(Remove, Rename) && disjoint(Write, Rename) && Create != 0 && Remove != 0 && Write != 0 && Rename != 0
lemma[C15] markers_disjoint(): disjoint(recursive, omit) && recursive != 0 && omit != 0 && internal == recursive | omit && disjoint(internal, Create | Remove | Write | Rename)
lemma[C15] all_is_the_union(): All == Create | Remove | Write | Rename
def raws() = InAccess | InModify | InAttrib | InCloseWrite | InCloseNowrite | InOpen | InMovedFrom | InMovedTo | InCreate | InDelete | InDeleteSelf | InMoveSelf
lemma[C15] raw_apart(): disjoint(raws(), All | internal)
// the raw events are pairwise disjoint: their sum is their union
lemma[C15] raw_disjoint(): nat(InAccess) + nat(InModify) + nat(InAttrib) + nat(InCloseWrite) + nat(InCloseNowrite) + nat(InOpen) + nat(InMovedFrom) + nat(InMovedTo) + nat(InCreate) + nat(InDelete) + nat(InDeleteSelf) + nat(InMoveSelf) == nat(raws())
lemma[C15] raw_nonzero(): InAccess != 0 && InModify != 0 && InAttrib != 0 && InCloseWrite != 0 && InCloseNowrite != 0 && InOpen != 0 && InMovedFrom != 0 && InMovedTo != 0 && InCreate != 0 && InDelete != 0 && InDeleteSelf != 0 && InMoveSelf != 0
lemma[C15] raw_kernel(): InAccess == unix.IN_ACCESS && InModify == unix.IN_MODIFY && InAttrib == unix.IN_ATTRIB && InCloseWrite == unix.IN_CLOSE_WRITE && InCloseNowrite == unix.IN_CLOSE_NOWRITE && InOpen == unix.IN_OPEN && InMovedFrom == unix.IN_MOVED_FROM && InMovedTo == unix.IN_MOVED_TO && InCreate == unix.IN_CREATE && InDelete == unix.IN_DELETE && InDeleteSelf == unix.IN_DELETE_SELF && InMoveSelf == unix.IN_MOVE_SELF

// the names, written here independently of the maps in the source
def nameof(ev) = ev == Create ? "notify.Create" : ev == Remove ? "notify.Remove" : ev == Write ? "notify.Write" : ev == Rename ? "notify.Rename" : ev == recursive ? "recursive" : ev == omit ? "omit" : ev == InAccess ? "notify.InAccess" : ev == InModify ? "notify.InModify" : ev == InAttrib ? "notify.InAttrib" : ev == InCloseWrite ? "notify.InCloseWrite" : ev == InCloseNowrite ? "notify.InCloseNowrite" : ev == InOpen ? "notify.InOpen" : ev == InMovedFrom ? "notify.InMovedFrom" : ev == InMovedTo ? "notify.InMovedTo" : ev == InCreate ? "notify.InCreate" : ev == InDelete ? "notify.InDelete" : ev == InDeleteSelf ? "notify.InDeleteSelf" : ev == InMoveSelf ? "notify.InMoveSelf" : "?"
def valueof(s) = s == "notify.Create" ? Create : s == "notify.Remove" ? Remove : s == "notify.Write" ? Write : s == "notify.Rename" ? Rename : s == "recursive" ? recursive : s == "omit" ? omit : s == "notify.InAccess" ? InAccess : s == "notify.InModify" ? InModify : s == "notify.InAttrib" ? InAttrib : s == "notify.InCloseWrite" ? InCloseWrite : s == "notify.InCloseNowrite" ? InCloseNowrite : s == "notify.InOpen" ? InOpen : s == "notify.InMovedFrom" ? InMovedFrom : s == "notify.InMovedTo" ? InMovedTo : s == "notify.InCreate" ? InCreate : s == "notify.InDelete" ? InDelete : s == "notify.InDeleteSelf" ? InDeleteSelf : s == "notify.InMoveSelf" ? InMoveSelf : event(0)
const KE Event                   // an arbitrary known event
axiom[C15] nameof(KE) != "?"

// what strings.Join was last given and returned
ghost jrow map[int]string
ghost joff int
ghost jlen int
ghost jsep string
ghost jres string
extern strings.Join(elems, s) (r)
  set jrow := comp("S:string", base(elems))
  set joff := off(elems)
  set jlen := len(elems)
  set jsep := s
  set jres := r

def has(e, ev) = e & ev == ev
def goodname(e, s) = valueof(s) != 0 && has(e, valueof(s))
def donein(m, e) = (KE in m && has(e, KE))

func (Event).String(e) (r)
  props C15
  safety C15
  modifies G:jrow, G:joff, G:jlen, G:jsep, G:jres
  ensures joined: r == jres && jsep == "|"
  ensures only-contained: forall i int {jrow[joff + i]} :: 0 <= i && i < jlen ==> goodname(e, jrow[joff + i])
  ensures every-contained: has(e, KE) ==> (exists i int {jrow[joff + i]} :: 0 <= i && i < jlen && jrow[joff + i] == nameof(KE))
  ensures once: forall i int, j int {jrow[joff + i], jrow[joff + j]} :: 0 <= i && i < j && j < jlen ==> jrow[joff + i] != jrow[joff + j]
  loop (s []string) names: forall i int {s[i]} :: 0 <= i && i < len(s) ==> goodname(e, s[i])
  loop (s []string) distinct: forall i int, j int {s[i], s[j]} :: 0 <= i && i < j && j < len(s) ==> s[i] != s[j]
  loop (s []string, x count) first: x <= 0 ==> len(s) == 0
  loop (s []string, x count) have1: x >= 1 && KE in estr && has(e, KE) ==> (exists i int {s[i]} :: 0 <= i && i < len(s) && s[i] == nameof(KE))
  loop (s []string, x count) have2: x >= 2 && KE in osestr && has(e, KE) ==> (exists i int {s[i]} :: 0 <= i && i < len(s) && s[i] == nameof(KE))
  loop (s []string, x count) from1: x <= 1 ==> (forall i int {s[i]} :: 0 <= i && i < len(s) ==> valueof(s[i]) in estr)
  loop (s []string, it iter) here: visited(it, KE) && has(e, KE) ==> (exists i int {s[i]} :: 0 <= i && i < len(s) && s[i] == nameof(KE))
  loop (s []string, it iter) keep: KE in estr && !(KE in itermap(it)) && has(e, KE) ==> (exists i int {s[i]} :: 0 <= i && i < len(s) && s[i] == nameof(KE))
  loop (s []string, it iter) src: forall i int {s[i]} :: 0 <= i && i < len(s) ==> visited(it, valueof(s[i])) || valueof(s[i]) in estr && !(valueof(s[i]) in itermap(it))
  loop (it iter) vis: forall k Event {visited(it, k)} :: visited(it, k) ==> k in itermap(it)
