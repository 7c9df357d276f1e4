// The registry of paths (node.go, util.go).
//
// The tree of one registry is seen as a set of paths: vP holds the paths with
// an entry ("" is the root), vW and vC give the registrations and the child
// table of an entry, nm and nmW the path a table belongs to.  The hooks keep
// this view in step with every update of a child table.

ghost vP map[string]bool
ghost vW map[string]ref
ghost vC map[string]ref
ghost nm map[ref]string
ghost nmW map[ref]string
ghost isIn map[ref]bool          // a table of inactive watchpoints (recursive tree)

defn join(p string, k string) string = p + "/" + k
// q is p or lies below it
defn below(p string, q string) bool = p == q || prefix(p + "/", q)
defn step(p string, q string) string = contains(q[len(p)+1:], "/") ? q[len(p)+1:len(p)+1+indexof(q[len(p)+1:], "/", 0)] : q[len(p)+1:]
defn valid(p string) bool = prefix("/", p) && !contains(p, "//") && !suffix("/", p)
ufun minus(gset string, string) gset string
axiom[C04 C03 C05 C06 C07 C08 C14] minus: forall m gset string, p string, q string {minus(m, p)[q]} :: minus(m, p)[q] <==> m[q] && !below(p, q)

lemma[C04 C03 C05 C06 C07 C08 C14] below-refl(p string) {below(p, p)}: below(p, p)
lemma[C04 C03 C05 C06 C07 C08 C14] below-trans(p string, q string, r string) {below(p, q), below(q, r)}: below(p, q) && below(q, r) ==> below(p, r)
lemma[C04 C03 C05 C06 C07 C08 C14] below-anti(p string, q string) {below(p, q), below(q, p)}: below(p, q) && below(q, p) ==> p == q
lemma[C04 C03 C05 C06 C07 C08 C14] below-join(p string, k string, q string) {below(q, join(p, k))}: nosl(k) ==> (below(q, join(p, k)) <==> below(q, p) || q == join(p, k))
lemma[C04 C03 C05 C06 C07 C08 C14] join-below(p string, k string) {join(p, k)}: below(p, join(p, k)) && p != join(p, k)
lemma[C04 C03 C05 C06 C07 C08 C14] join-inj(p string, k string, q string, l string) {join(p, k), join(q, l)}: nosl(k) && nosl(l) && join(p, k) == join(q, l) ==> p == q && k == l
lemma[C04 C03 C05 C06 C07 C08 C14] step-in(p string, q string) {below(p, q), step(p, q)}: below(p, q) && p != q ==> nosl(step(p, q)) && below(join(p, step(p, q)), q)
lemma[C04 C03 C05 C06 C07 C08 C14] step-of(p string, k string, q string) {below(join(p, k), q)}: nosl(k) && below(join(p, k), q) ==> below(p, q) && p != q && k == step(p, q)
lemma[C04 C03 C05 C06 C07 C08 C14] linear(p string, q string, r string) {below(p, r), below(q, r)}: below(p, r) && below(q, r) ==> below(p, q) || below(q, p)

lemma[C04 C03 C05 C06 C07 C08 C14] rel(p string, s string) {prefix(p + "/", s)}: (prefix(p + "/", s) <==> below(p, s) && p != s) && (prefix(p + "/", s) ==> s[:len(p)] == p && s[len(p)] == '/')
lemma[C04 C03 C05 C06 C07 C08 C14] cursor(s string, i int, k int) {s[i:k]}: 1 <= i && i <= k && k <= len(s) && s[i - 1] == '/' ==> s[:k] == join(s[:i-1], s[i:k])
lemma[C04 C03 C05 C06 C07 C08 C14] whole(p string, k int) {p[:k]}: k == len(p) ==> p[:k] == p
lemma[C04 C03 C05 C06 C07 C08 C14] upto(s string, i int) {s[:i]}: 0 <= i && i < len(s) && s[i] == '/' ==> below(s[:i], s)
lemma[C04 C03 C05 C06 C07 C08 C14] validup(q string, s string) {below(q, s), valid(s)}: valid(s) && below(q, s) && q != "" ==> valid(q)
lemma[C04 C03 C05 C06 C07 C08 C14] novoid(s string, i int) {valid(s), at(s, i)}: valid(s) && 1 <= i && i <= len(s) && s[i - 1] == '/' ==> i < len(s) && s[i] != '/'
lemma[C04 C03 C05 C06 C07 C08 C14] nonvoid(s string, i int, k int) {valid(s), s[i:k]}: valid(s) && 1 <= i && i <= k && k <= len(s) && s[i - 1] == '/' && (k == len(s) || s[k] == '/') ==> s[i:k] != ""
lemma[C04 C03 C05 C06 C07 C08 C14] dirof(p string, k string) {valid(join(p, k))}: valid(join(p, k)) ==> p == "" || valid(p)
lemma[C04 C03 C05 C06 C07 C08 C14] hasslash(s string) {valid(s)}: valid(s) ==> contains(s, "/")
lemma[C04 C03 C05 C06 C07 C08 C14] slash1(s string) {valid(s)}: valid(s) ==> len(s) >= 2 && s[0] == '/'
lemma[C04 C03 C05 C06 C07 C08 C14] ~all-below-root(s string) {valid(s)}: valid(s) ==> below("", s)

def live(m) = vP[nm[m]] && vC[nm[m]] == m
def kids(p) = cast("map[string]node", vC[p])
def isat(nd, p) = nd.Name == p && vP[p] && vW[p] == nd.Watch && vC[p] == nd.Child

def wpof(p) = cast("watchpoint", vW[p])
def inact(p) = kids(p)[""].Watch
// the tables of inactive watchpoints are apart from each other and from those of the paths
def t_inact() = forall p string {vP[p]} :: vP[p] ==> !isIn[vW[p]] && ("" in kids(p) && inact(p) != nil ==> isIn[inact(p)] && nmW[inact(p)] == p)
def t_plain() = forall p string {vP[p]} :: vP[p] ==> !("" in kids(p))

hook set map[string]node (m, k, v)
  hookset [C04 C03 C05 C06 C07 C08 C14] vP := k != "" && live(m) ? store(vP, join(nm[m], k), true) : vP
  hookset [C04 C03 C05 C06 C07 C08 C14] vW := k != "" && live(m) ? store(vW, join(nm[m], k), v.Watch) : vW
  hookset [C04 C03 C05 C06 C07 C08 C14] vC := k != "" && live(m) ? store(vC, join(nm[m], k), v.Child) : vC
  hookset [C04 C03 C05 C06 C07 C08 C14] nm := k != "" && live(m) ? store(nm, v.Child, join(nm[m], k)) : nm
  hookset [C04 C03 C05 C06 C07 C14] nmW := k != "" && live(m) ? store(nmW, v.Watch, join(nm[m], k)) : nmW
  hookset [C08] nmW := live(m) ? store(nmW, v.Watch, k != "" ? join(nm[m], k) : nm[m]) : nmW
  hookset [C08] isIn := live(m) ? store(isIn, v.Watch, k == "") : isIn
hook del map[string]node (m, k)
  hookset [C04 C03 C05 C06 C07 C08 C14] vP := k != "" && live(m) ? minus(vP, join(nm[m], k)) : vP

def t_root() = vP[""]
def t_refs() = forall p string {vP[p]} :: vP[p] ==> allocated(vC[p]) && allocated(vW[p]) && nm[vC[p]] == p && nmW[vW[p]] == p && (p == "" || valid(p))
def t_down() = forall p string, k string {k in kids(p)} :: vP[p] && k in kids(p) && k != "" ==> nosl(k) && vP[join(p, k)] && isat(kids(p)[k], join(p, k))
def t_up() = forall p string, k string {vP[join(p, k)]} :: vP[join(p, k)] && nosl(k) ==> vP[p] && k in kids(p)
def t_closed() = forall q string, r string {below(q, r), vP[r]} :: vP[r] && below(q, r) ==> vP[q]

extern filepath.VolumeName(p) (v)
  ensures none: v == ""

func indexSep(s) (i)
  props C04
  opt aux yes
  ensures first: slashat(s, i)
  loop (n count) before: n <= len(s) && nosl(s[:n])

func lastIndexSep(s) (i)
  props C04
  opt aux yes
  ensures last: i == -1 && nosl(s) || 0 <= i && i < len(s) && s[i] == '/' && nosl(s[i+1:])
  loop (i int) behind: i < len(s) && nosl(s[i+1:])

func split(s) (d, b)
  props C04
  opt aux yes
  ensures parts: nosl(b) && (contains(s, "/") ? s == join(d, b) : d == "" && b == s)

func base(s) (b)
  props C04
  opt aux yes
  ensures last: nosl(b) && (contains(s, "/") ? len(b) < len(s) && s == join(s[:len(s)-len(b)-1], b) : b == s)

func indexrel(root, name) (i)
  props C04
  opt aux yes
  ensures rel: prefix(root + "/", name) ? i == len(root) + 1 : i == -1

lib treeinv
  requires root: t_root()
  requires refs: t_refs()
  requires down: t_down()
  requires up: t_up()
  requires closed: t_closed()

lib treekept
  ensures root: t_root()
  ensures refs: t_refs()
  ensures down: t_down()
  ensures up: t_up()
  ensures closed: t_closed()

func (node).Get(nd, name) (r, err)
  props C04
  use treeinv
  requires live: isat(nd, nd.Name)
  requires valid: valid(name)
  ensures found: err == nil ==> isat(r, name) && below(nd.Name, name)
  ensures missing: err != nil ==> !vP[name] || !below(nd.Name, name) || nd.Name == name
  loop (i int, j int) next: slashat(name[i:], j)
  loop (cur hasnode, i int) at: 1 <= i && i <= len(name) && name[i-1] == '/' && isat(nodeOf(cur), name[:i-1]) && below(nd.Name, name[:i-1])

// what is true of the entries a call must leave alone
def kept(p) = vP[p] && vW[p] == old(vW[p]) && vC[p] == old(vC[p])

func (node).Add(nd, name) (r)
  props C04
  use treeinv
  use treekept
  requires live: isat(nd, nd.Name)
  requires valid: valid(name)
  modifies M:map[string]node, G:vP, G:vW, G:vC, G:nm, G:nmW
  ensures [C06 C07 C14] plain: old(t_plain()) ==> t_plain()
  ensures entry: below(nd.Name, name) && nd.Name != name ==> isat(r, name)
  ensures only: below(nd.Name, name) ==> (forall p string {vP[p]} :: vP[p] <==> old(vP[p]) || below(nd.Name, p) && below(p, name))
  ensures outside: !below(nd.Name, name) ==> (forall p string {vP[p]} :: vP[p] <==> old(vP[p]))
  ensures others: forall p string {vW[p]} {vC[p]} :: old(vP[p]) ==> kept(p)
  ensures empty: forall p string, k chan<- EventInfo {k in cast("watchpoint", vW[p])} :: vP[p] && !old(vP[p]) ==> !(k in cast("watchpoint", vW[p]))
  loop [C06 C07 C14] () plain: old(t_plain()) ==> t_plain()
  loop (i int, j int) next: slashat(name[i:], j)
  loop (cur hasnode, i int) at: 1 <= i && i <= len(name) && name[i-1] == '/' && isat(nodeOf(cur), name[:i-1]) && below(nd.Name, name[:i-1])
  loop () refs: t_refs()
  loop () down: t_down()
  loop () up: t_up()
  loop () closed: t_closed()
  loop (i int) only: forall p string {vP[p]} :: vP[p] <==> old(vP[p]) || below(nd.Name, p) && below(p, name[:i-1])
  loop () others: forall p string {vW[p]} {vC[p]} :: old(vP[p]) ==> kept(p)
  loop () empty: forall p string, k chan<- EventInfo {k in cast("watchpoint", vW[p])} :: vP[p] && !old(vP[p]) ==> !(k in cast("watchpoint", vW[p]))

defn child(p string, q string) bool = q == join(p, step(p, q)) && nosl(step(p, q))
lemma[C04 C03 C05 C06 C07 C08 C14] child-join(p string, k string) {child(p, join(p, k))}: nosl(k) ==> child(p, join(p, k))
lemma[C04 C03 C05 C06 C07 C08 C14] join-slash(p string, k string) {join(p, k)}: contains(join(p, k), "/")
lemma[C04 C03 C05 C06 C07 C08 C14] join-below-root(p string, k string) {below(join(p, k), "")}: !below(join(p, k), "")
lemma[C04 C03 C05 C06 C07 C08 C14] child-is(p string, q string) {child(p, q)}: child(p, q) ==> q == join(p, step(p, q)) && nosl(step(p, q))
lemma[C04 C03 C05 C06 C07 C08 C14] join-void(p string, k string) {valid(join(p, k))}: valid(join(p, k)) ==> k != ""
lemma[C04 C03 C05 C06 C07 C08 C14] step-join(p string, k string) {step(p, join(p, k))}: nosl(k) ==> step(p, join(p, k)) == k
lemma[C04 C03 C05 C06 C07 C08 C14] ~tail(p string, k string, s string, i int, e int) {s[i:e], join(p, k)}: s == join(p, k) && i == len(p) + 1 && e == len(s) ==> s[i:e] == k

func (node).Del(nd, name) (err)
  props C04
  use treeinv
  use treekept
  requires live: isat(nd, nd.Name)
  requires valid: valid(name)
  modifies M:map[string]node, G:vP
  ensures [C06 C07 C14] plain: old(t_plain()) ==> t_plain()
  ensures deleted: err == nil ==> old(vP[name]) && below(nd.Name, name) && (forall p string {vP[p]} {below(name, p)} :: below(name, p) ==> !vP[p])
  ensures refused: err != nil ==> !old(vP[name]) || !below(nd.Name, name) || nd.Name == name
  ensures same: err != nil ==> (forall p string {vP[p]} :: vP[p] <==> old(vP[p]))
  ensures only: forall p string {vP[p]} :: (vP[p] ==> old(vP[p])) && (old(vP[p]) && !vP[p] && !below(name, p) ==> below(p, name) && p != nd.Name && len(cast("watchpoint", vW[p])) <= 1)
  ensures childless: forall p string, q string {below(p, q)} :: old(vP[p]) && !vP[p] && old(vP[q]) && below(p, q) ==> below(name, p) || below(q, name) || below(name, q)
  ensures others: forall p string {vW[p]} {vC[p]} :: vP[p] ==> kept(p)
  ondel map[string]node (m, k) kid: forall q string {vP[q]} :: vP[q] && nosl(k) && below(join(nm[m], k), q) ==> q == join(nm[m], k) || step(join(nm[m], k), q) in kids(join(nm[m], k))
  loop [C06 C07 C14] () plain: old(t_plain()) ==> t_plain()
  loop () root: t_root()
  loop (i int, j int) next: slashat(name[i:], j)
  loop (cur hasnode, i int) at: 1 <= i && i <= len(name) && name[i-1] == '/' && isat(nodeOf(cur), name[:i-1]) && below(nd.Name, name[:i-1])
  loop (s []node, i int) top: len(s) >= 1 && s[len(s)-1].Name == name[:i-1]
  loop (s []node) bottom: len(s) >= 1 && s[0].Name == nd.Name
  loop (s []node) elems: forall j int {s[j]} :: 0 <= j && j < len(s) ==> isat(s[j], s[j].Name)
  loop (s []node) order: forall j int, k int {s[j], s[k]} :: 0 <= j && j < k && k < len(s) ==> below(s[j].Name, s[k].Name) && s[j].Name != s[k].Name
  loop (s []node) chain: forall j int, k int {s[j], s[k]} :: 0 <= j && k == j + 1 && k < len(s) ==> child(s[j].Name, s[k].Name)
  loop (s []node, k int) live: k <= len(s) && (forall j int {s[j]} :: 0 <= j && j < k ==> isat(s[j], s[j].Name))
  loop (s []node) above: forall j int {s[j]} :: 0 <= j && j < len(s) ==> below(s[j].Name, name) && s[j].Name != name && below(nd.Name, s[j].Name)
  loop (s []node, k int, x string) part: nosl(x) && (k >= 1 && k <= len(s) ==> join(s[k-1].Name, x) == (k == len(s) ? name : s[k].Name))
  loop () refs: t_refs()
  loop () down: t_down()
  loop () up: t_up()
  loop () closed: t_closed()
  loop () deleted: old(vP[name]) && (forall p string {vP[p]} {below(name, p)} :: below(name, p) ==> !vP[p])
  loop () only: forall p string {vP[p]} :: (vP[p] ==> old(vP[p])) && (old(vP[p]) && !vP[p] && !below(name, p) ==> below(p, name) && p != nd.Name && len(cast("watchpoint", vW[p])) <= 1)
  loop () childless: forall p string, q string {below(p, q)} :: old(vP[p]) && !vP[p] && old(vP[q]) && below(p, q) ==> below(name, p) || below(q, name) || below(name, q)
  loop () others: forall p string {vW[p]} {vC[p]} :: vP[p] ==> kept(p)

// Walking is described by what the callback sees for one arbitrary path T.
ghost wseen int                  // how often it was called for T
ghost wcut bool                  // it asked to skip an entry above T
ghost werr ref                   // the error it returned
ghost wend bool                  // it was called for the end of the path
const Q string                   // another arbitrary path
ghost wseenQ bool                // it was called for Q
gvar errSkip
  requires set: errSkip != nil

func (node).Walk(nd, fn) (err)
  props C04
  use treeinv
  requires live: isat(nd, nd.Name)
  requires start: wseen == 0 && !wcut && werr == nil
  modifies M:map[chan<- EventInfo]Event, G:wseen, G:wcut, G:werr
  callback fn(x) (e)
  cbrequires entry: isat(x, x.Name) && below(nd.Name, x.Name)
  cbrequires going: werr == nil
  cbrequires once: x.Name == T ==> wseen == 0 && !wcut
  cbmodifies M:map[chan<- EventInfo]Event
  cbset wseen := wseen + (x.Name == T ? 1 : 0)
  cbset wcut := wcut || e == errSkip && x.Name != T && below(x.Name, T)
  cbset werr := e != errSkip ? e : werr
  ensures error: err == werr
  ensures seen: err == nil ==> wseen == (vP[T] && below(nd.Name, T) && !wcut ? 1 : 0)
  ensures once: wseen <= 1
  loop (s []node) elems: forall j int {s[j]} :: 0 <= j && j < len(s) ==> isat(s[j], s[j].Name) && below(nd.Name, s[j].Name)
  loop (s []node) apart: forall j int, k int {s[j], s[k]} :: 0 <= j && j < k && k < len(s) ==> !(below(s[j].Name, T) && below(s[k].Name, T))
  loop (s []node) pending: forall j int {s[j]} :: 0 <= j && j < len(s) && below(s[j].Name, T) ==> wseen == 0 && !wcut
  loop (s []node) covered: vP[T] && below(nd.Name, T) && wseen == 0 && !wcut ==> (exists j int {s[j]} :: 0 <= j && j < len(s) && below(s[j].Name, T))
  loop (n int, s []node) size: n == len(s)
  loop () count: wseen == 0 || wseen == 1 && vP[T] && below(nd.Name, T) && !wcut
  loop () going: werr == nil
  loop (cur hasnode, it iter map[string]node) cur: isat(nodeOf(cur), nodeOf(cur).Name) && below(nd.Name, nodeOf(cur).Name)
  loop (cur hasnode, it iter map[string]node, s []node) part: vP[T] && below(nd.Name, T) && wseen == 0 && !wcut ==> (exists j int {s[j]} :: 0 <= j && j < len(s) && below(s[j].Name, T)) || below(nodeOf(cur).Name, T) && T != nodeOf(cur).Name && !visited(it, step(nodeOf(cur).Name, T))
  loop (cur hasnode, it iter map[string]node, s []node) left: below(nodeOf(cur).Name, T) && (T == nodeOf(cur).Name || !visited(it, step(nodeOf(cur).Name, T))) ==> (forall j int {s[j]} :: 0 <= j && j < len(s) ==> !below(s[j].Name, T))
  loop (cur hasnode, it iter map[string]node) now: below(nodeOf(cur).Name, T) && T != nodeOf(cur).Name ==> wseen == 0 && !wcut
  loop (cur hasnode, it iter map[string]node) map: itermap(it) == nodeOf(cur).Child

func (node).WalkPath(nd, name, fn) (err)
  props C04
  use treeinv
  requires live: isat(nd, nd.Name)
  requires valid: name == "" || valid(name)
  requires start: wseen == 0 && !wcut && werr == nil && !wend
  requires [C14] start: !wseenQ
  modifies [C14] G:wseenQ
  modifies M:map[chan<- EventInfo]Event, G:wseen, G:wcut, G:werr, G:wend
  callback fn(x, isbase) (e)
  cbrequires entry: isat(x, x.Name) && below(nd.Name, x.Name) && below(x.Name, name)
  cbrequires end: isbase <==> x.Name == name
  cbrequires going: werr == nil
  cbrequires once: x.Name == T ==> wseen == 0 && !wcut
  cbmodifies M:map[chan<- EventInfo]Event
  cbset wseen := wseen + (x.Name == T ? 1 : 0)
  cbset wcut := wcut || e == errSkip && x.Name != name
  cbset wend := wend || isbase
  cbset [C14] wseenQ := wseenQ || x.Name == Q
  cbset werr := e != errSkip ? e : werr
  ensures error: werr != nil ==> err == werr
  ensures seen: werr == nil && !wcut ==> wseen == (vP[T] && below(nd.Name, T) && below(T, name) ? 1 : 0)
  ensures once: wseen <= 1 && (wseen == 1 ==> vP[T] && below(nd.Name, T) && below(T, name))
  ensures missing: werr == nil && !wcut ==> (err == nil <==> vP[name] && below(nd.Name, name))
  ensures [C14] seenQ: werr == nil && !wcut && vP[Q] && below(nd.Name, Q) && below(Q, name) ==> wseenQ
  ensures skip: werr == nil && wcut ==> err == nil
  ensures end: werr == nil && !wcut ==> (wend <==> err == nil)
  loop (i int, j int) next: slashat(name[i:], j)
  loop (cur hasnode, i int) at: 1 <= i && i <= len(name) && name[i-1] == '/' && isat(nodeOf(cur), name[:i-1]) && below(nd.Name, name[:i-1])
  loop [C14] (i int) countQ: wseenQ <==> below(nd.Name, Q) && below(Q, name[:i-1]) && Q != name[:i-1]
  loop (i int) count: wseen == (below(nd.Name, T) && below(T, name[:i-1]) && T != name[:i-1] ? 1 : 0) && !wcut && werr == nil && !wend

func (root).Get(r, name) (nd, err)
  props C04
  opt lemmas all-below-root
  use treeinv
  requires live: isat(r.nd, "")
  requires valid: name == "" || valid(name)
  ensures found: err == nil ==> isat(nd, name)
  ensures missing: err != nil ==> !vP[name]

func (root).Add(r, name) (nd)
  props C04
  opt lemmas all-below-root
  use treeinv
  use treekept
  requires live: isat(r.nd, "")
  requires valid: valid(name)
  modifies M:map[string]node, G:vP, G:vW, G:vC, G:nm, G:nmW
  ensures [C06 C07 C14] plain: old(t_plain()) ==> t_plain()
  ensures entry: isat(nd, name)
  ensures only: forall p string {vP[p]} :: vP[p] <==> old(vP[p]) || below(p, name)
  ensures others: forall p string {vW[p]} {vC[p]} :: old(vP[p]) ==> kept(p)
  ensures empty: forall p string, k chan<- EventInfo {k in cast("watchpoint", vW[p])} :: vP[p] && !old(vP[p]) ==> !(k in cast("watchpoint", vW[p]))

func (root).Del(r, name) (err)
  props C04
  opt lemmas all-below-root
  use treeinv
  use treekept
  requires live: isat(r.nd, "")
  requires valid: valid(name)
  modifies M:map[string]node, G:vP
  ensures [C06 C07 C14] plain: old(t_plain()) ==> t_plain()
  ensures deleted: err == nil ==> old(vP[name]) && (forall p string {vP[p]} {below(name, p)} :: below(name, p) ==> !vP[p])
  ensures refused: err != nil ==> !old(vP[name])
  ensures same: err != nil ==> (forall p string {vP[p]} :: vP[p] <==> old(vP[p]))
  ensures only: forall p string {vP[p]} :: (vP[p] ==> old(vP[p])) && (old(vP[p]) && !vP[p] && !below(name, p) ==> below(p, name) && p != "" && len(cast("watchpoint", vW[p])) <= 1)
  ensures childless: forall p string, q string {below(p, q)} :: old(vP[p]) && !vP[p] && old(vP[q]) && below(p, q) ==> below(name, p) || below(q, name) || below(name, q)
  ensures others: forall p string {vW[p]} {vC[p]} :: vP[p] ==> kept(p)

func (root).Walk(r, name, fn) (err)
  props C04
  opt lemmas all-below-root
  use treeinv
  requires live: isat(r.nd, "")
  requires valid: name == "" || valid(name)
  requires start: wseen == 0 && !wcut && werr == nil
  modifies M:map[chan<- EventInfo]Event, G:wseen, G:wcut, G:werr
  callback fn(x) (e)
  cbrequires entry: isat(x, x.Name) && below(name, x.Name)
  cbrequires going: werr == nil
  cbrequires once: x.Name == T ==> wseen == 0 && !wcut
  cbmodifies M:map[chan<- EventInfo]Event
  cbset wseen := wseen + (x.Name == T ? 1 : 0)
  cbset wcut := wcut || e == errSkip && x.Name != T && below(x.Name, T)
  cbset werr := e != errSkip ? e : werr
  ensures missing: !vP[name] ==> err != nil && wseen == 0
  ensures error: vP[name] ==> err == werr
  ensures seen: err == nil ==> wseen == (vP[T] && below(name, T) && !wcut ? 1 : 0)
  ensures once: wseen <= 1

func (root).WalkPath(r, name, fn) (err)
  props C04
  opt lemmas all-below-root
  use treeinv
  requires live: isat(r.nd, "")
  requires valid: name == "" || valid(name)
  requires start: wseen == 0 && !wcut && werr == nil && !wend
  requires [C14] start: !wseenQ
  modifies [C14] G:wseenQ
  modifies M:map[chan<- EventInfo]Event, G:wseen, G:wcut, G:werr, G:wend
  callback fn(x, isbase) (e)
  cbrequires entry: isat(x, x.Name) && below(x.Name, name)
  cbrequires end: isbase <==> x.Name == name
  cbrequires going: werr == nil
  cbrequires once: x.Name == T ==> wseen == 0 && !wcut
  cbmodifies M:map[chan<- EventInfo]Event
  cbset wseen := wseen + (x.Name == T ? 1 : 0)
  cbset wcut := wcut || e == errSkip && x.Name != name
  cbset wend := wend || isbase
  cbset [C14] wseenQ := wseenQ || x.Name == Q
  cbset werr := e != errSkip ? e : werr
  ensures error: werr != nil ==> err == werr
  ensures seen: werr == nil && !wcut ==> wseen == (vP[T] && below(T, name) ? 1 : 0)
  ensures once: wseen <= 1 && (wseen == 1 ==> vP[T] && below(T, name))
  ensures missing: werr == nil && !wcut ==> (err == nil <==> vP[name])
  ensures [C14] seenQ: werr == nil && !wcut && vP[Q] && below(Q, name) ==> wseenQ
  ensures skip: werr == nil && wcut ==> err == nil
  ensures end: werr == nil && !wcut ==> (wend <==> err == nil)

// Directories on disk, as they are during one traversal.
ufun isdir(string) bool
ufun entry(ref, string) int
axiom[C04 C03 C05 C06 C07 C08 C14] isdir-up: forall p string, q string {below(p, q), isdir(q)} :: isdir(q) && below(p, q) && p != "" ==> isdir(p)
axiom[C04 C03 C05 C06 C07 C08 C14] isdir-name: forall p string {isdir(p)} :: isdir(p) ==> valid(p) && cleanabs(p)
iface fs.DirEntry.Name(e) (s)
  pure
iface fs.DirEntry.Type(e) (m)
  pure
ghost scanfailed bool            // some directory could not be read
extern os.ReadDir(name) (fi, err)
  allocs
  set [C14] scanfailed := scanfailed || err != nil
  ensures names: forall i int {fi[i]} :: err == nil && 0 <= i && i < len(fi) ==> fi[i] != nil && nosl(fi[i].Name()) && component(fi[i].Name()) && (fi[i].Type() & (fs.ModeSymlink | fs.ModeDir) == fs.ModeDir <==> isdir(join(name, fi[i].Name())))
  ensures distinct: forall i int, j int {fi[i], fi[j]} :: err == nil && 0 <= i && i < j && j < len(fi) ==> fi[i].Name() != fi[j].Name()
  ensures all: forall k string {isdir(join(name, k))} :: err == nil && nosl(k) && isdir(join(name, k)) ==> 0 <= entry(base(fi), k) && entry(base(fi), k) < len(fi) && fi[entry(base(fi), k)].Name() == k

// the paths with an entry when the argument was last called
ghost svP map[string]bool
ghost svW map[string]ref
ghost svC map[string]ref

func (node).AddDir(nd, fn) (err)
  props C04
  opt lemmas tail
  use treeinv
  use treekept
  requires live: isat(nd, nd.Name)
  requires valid: valid(nd.Name) && cleanabs(nd.Name)
  requires start: wseen == 0 && !wcut && werr == nil
  requires [C06 C07 C14] start: svP == vP && svW == vW && svC == vC
  modifies M:map[string]node, G:vP, G:vW, G:vC, G:nm, G:nmW, M:map[chan<- EventInfo]Event, G:wseen, G:wcut, G:werr, G:svP, G:svW, G:svC
  callback fn(x) (e)
  cbrequires entry: isat(x, x.Name) && below(nd.Name, x.Name)
  cbrequires dir: x.Name == nd.Name || isdir(x.Name)
  cbrequires going: werr == nil
  cbrequires once: x.Name == T ==> wseen == 0 && !wcut
  cbrequires [C06 C07 C14] refs: t_refs()
  cbrequires [C06 C07 C14] plain: t_plain()
  cbrequires [C06 C07 C14] grown: forall p string {vP[p]} {svP[p]} :: svP[p] ==> vP[p] && vW[p] == svW[p] && vC[p] == svC[p]
  cbrequires [C06 C07 C14] empty: forall p string, k chan<- EventInfo {k in wpof(p)} :: vP[p] && !svP[p] ==> !(k in wpof(p))
  cbset [C06 C07 C14] svP := vP
  cbset [C06 C07 C14] svW := vW
  cbset [C06 C07 C14] svC := vC
  ensures [C06 C07 C14] grown: forall p string {vP[p]} {svP[p]} :: svP[p] ==> vP[p] && vW[p] == svW[p] && vC[p] == svC[p]
  ensures [C06 C07 C14] empty: forall p string, k chan<- EventInfo {k in wpof(p)} :: vP[p] && !svP[p] ==> !(k in wpof(p))
  loop [C06 C07 C14] () grown: forall p string {vP[p]} {svP[p]} :: svP[p] ==> vP[p] && vW[p] == svW[p] && vC[p] == svC[p]
  loop [C06 C07 C14] () empty: forall p string, k chan<- EventInfo {k in wpof(p)} :: vP[p] && !svP[p] ==> !(k in wpof(p))
  cbmodifies M:map[chan<- EventInfo]Event
  cbset wseen := wseen + (x.Name == T ? 1 : 0)
  cbset wcut := wcut || e == errSkip && x.Name != T && below(x.Name, T)
  cbset werr := e != errSkip ? e : werr
  requires [C06 C07 C14] plain: t_plain()
  ensures [C06 C07 C14] plain: t_plain()
  ensures error: werr != nil ==> err != nil
  modifies [C14] G:scanfailed
  ensures [C14] fine: werr == nil && !scanfailed ==> err == nil
  ensures seen: err == nil && below(nd.Name, T) && !wcut && (T == nd.Name || isdir(T)) ==> wseen == 1
  ensures once: wseen <= 1
  ensures others: forall p string {vW[p]} {vC[p]} :: old(vP[p]) ==> kept(p)
  ensures only: forall p string {vP[p]} :: old(vP[p]) ==> vP[p]
  ensures new: forall p string {vP[p]} :: vP[p] && !old(vP[p]) ==> below(nd.Name, p) && isdir(p)
  loop [C06 C07 C14] () plain: t_plain()
  loop () refs: t_refs()
  loop () down: t_down()
  loop () up: t_up()
  loop () closed: t_closed()
  loop () others: forall p string {vW[p]} {vC[p]} :: old(vP[p]) ==> kept(p)
  loop () only: forall p string {vP[p]} :: old(vP[p]) ==> vP[p]
  loop () new: forall p string {vP[p]} :: vP[p] && !old(vP[p]) ==> below(nd.Name, p) && isdir(p)
  loop (s []node) elems: forall j int {s[j]} :: 0 <= j && j < len(s) ==> isat(s[j], s[j].Name) && below(nd.Name, s[j].Name) && (s[j].Name == nd.Name || isdir(s[j].Name))
  loop (s []node) apart: forall j int, k int {s[j], s[k]} :: 0 <= j && j < k && k < len(s) ==> !(below(s[j].Name, T) && below(s[k].Name, T))
  loop (s []node) pending: forall j int {s[j]} :: 0 <= j && j < len(s) && below(s[j].Name, T) ==> wseen == 0 && !wcut
  loop (s []node) covered: (T == nd.Name || isdir(T)) && below(nd.Name, T) && wseen == 0 && !wcut ==> (exists j int {s[j]} :: 0 <= j && j < len(s) && below(s[j].Name, T))
  loop (n int, s []node) size: n == len(s)
  loop () count: wseen == 0 || wseen == 1 && below(nd.Name, T) && !wcut
  loop () going: werr == nil
  loop (cur hasnode) cur: isat(nodeOf(cur), nodeOf(cur).Name) && below(nd.Name, nodeOf(cur).Name) && (nodeOf(cur).Name == nd.Name || isdir(nodeOf(cur).Name)) && valid(nodeOf(cur).Name) && cleanabs(nodeOf(cur).Name)
  loop (cur hasnode, f val []fs.DirEntry, i count, s []node) part: (T == nd.Name || isdir(T)) && below(nd.Name, T) && wseen == 0 && !wcut ==> (exists j int {s[j]} :: 0 <= j && j < len(s) && below(s[j].Name, T)) || below(nodeOf(cur).Name, T) && T != nodeOf(cur).Name && i <= entry(base(f), step(nodeOf(cur).Name, T))
  loop (cur hasnode, f val []fs.DirEntry, i count, s []node) left: below(nodeOf(cur).Name, T) && (T == nodeOf(cur).Name || i <= entry(base(f), step(nodeOf(cur).Name, T)) || !isdir(join(nodeOf(cur).Name, step(nodeOf(cur).Name, T)))) ==> (forall j int {s[j]} :: 0 <= j && j < len(s) ==> !below(s[j].Name, T))
  loop (cur hasnode, f val []fs.DirEntry) now: below(nodeOf(cur).Name, T) && T != nodeOf(cur).Name ==> wseen == 0 && !wcut
