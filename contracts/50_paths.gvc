// Paths given by the user: the recursive suffix and canonical names (util.go).

// The file system as it is during one resolution: which names are symbolic
// links and where they point; fileof says which file a name leads to.
ufun islink(string) bool
ufun target(string) string
ufun fileof(string) int
ufun absname(string) string
ghost fsbad bool                 // a system call failed
ghost lstats int

def nosl(s) = !contains(s, "/")
// a component ends at position k
def ends(p, k) = p[k - 1] != '/' && (k == len(p) || p[k] == '/')
// no name up to position i is a link
def nolink(p, i) = forall k int {p[:k]} :: 1 <= k && k <= i && k <= len(p) && ends(p, k) ==> !islink(p[:k])

// what following a link means
axiom[C12 C06 C07 C08 C14] linked-abs: forall p string, i int {fileof(p), islink(p[:i])} :: 1 <= i && i <= len(p) && (i == len(p) || p[i] == '/') && islink(p[:i]) && prefix("/", target(p[:i])) ==> fileof(target(p[:i]) + p[i:]) == fileof(p) && fileof("/" + target(p[:i]) + p[i:]) == fileof(p)
axiom[C12 C06 C07 C08 C14] linked-rel: forall p string, i int, j int {fileof(p), islink(p[:i]), p[:j]} :: 1 <= j && j < i && i <= len(p) && p[j - 1] == '/' && nosl(p[j:i]) && (i == len(p) || p[i] == '/') && islink(p[:i]) && !prefix("/", target(p[:i])) ==> fileof(p[:j] + target(p[:i]) + p[i:]) == fileof(p)
// a name with a slash at its end is not the name of a link
axiom[C12 C06 C07 C08 C14] slash-follows: forall p string, i int {islink(p[:i])} :: 1 <= i && i <= len(p) && p[i - 1] == '/' ==> !islink(p[:i])

lemma[C12 C06 C07 C08 C14] noslash(p string, i int, j int, k int) {contains(p[i:j], "/"), at(p, k)}: nosl(p[i:j]) && 0 <= i && i <= k && k < j && j <= len(p) ==> p[k] != '/'
lemma[C12 C06 C07 C08 C14] whole(p string, k int) {p[:k]}: k == len(p) ==> p[:k] == p
lemma[C12 C06 C07 C08 C14] first(p string) {prefix("/", p)}: prefix("/", p) <==> len(p) >= 1 && p[0] == '/'
lemma[C12 C06 C07 C08 C14] front(p string, j int) {p[:j], prefix("/", p)}: 1 <= j && j <= len(p) ==> (prefix("/", p[:j]) <==> prefix("/", p))
lemma[C12 C06 C07 C08 C14] cat3(a string, b string, c string) {a + b + c}: prefix("/", a) ==> prefix("/", a + b + c)
lemma[C12 C06 C07 C08 C14] cat2(a string, b string) {a + b}: prefix("/", a) ==> prefix("/", a + b)

extern filepath.Abs(path) (r, err)
  set fsbad := fsbad || err != nil
  ensures abs: err == nil ==> r == absname(path) && cleanabs(r) && prefix("/", r)
axiom[C12 C06 C07 C08 C14] abs-idem: forall p string {absname(p)} :: cleanabs(p) ==> absname(p) == p
extern filepath.IsAbs(path) (r)
  ensures slash: r <==> prefix("/", path)
extern filepath.Clean(path) (r)
  ensures clean: prefix("/", path) ==> cleanabs(r)
  ensures same: nolink(path, len(path)) ==> fileof(r) == fileof(path) && resolved(r)
ufun resolved(string) bool       // no link in it
iface fs.FileInfo.Mode(i) (m)
  pure
extern os.Lstat(name) (fi, err)
  set fsbad := fsbad || err != nil
  set lstats := lstats + 1
  ensures link: err == nil ==> fi != nil && (fi.Mode() & os.ModeSymlink != 0 <==> islink(name))
extern os.Readlink(name) (s, err)
  set fsbad := fsbad || err != nil
  ensures target: err == nil && islink(name) ==> s == target(name)
def slashat(s, i) = i == -1 && nosl(s) || 0 <= i && i < len(s) && s[i] == '/' && nosl(s[:i])
extern strings.IndexRune(s, r) (i)
  ensures slash: r == 47 ==> slashat(s, i)
extern strings.IndexByte(s, c) (i)
  ensures slash: c == '/' ==> slashat(s, i)
extern strings.Index(s, t) (i)
  ensures slash: t == "/" ==> slashat(s, i)
extern strings.HasSuffix(s, t) (r)
  ensures suffix: r <==> suffix(t, s)

func canonical(p) (r, err)
  props C12
  opt terminates C12
  requires good: !fsbad
  modifies G:fsbad, G:lstats
  ensures resolved: err == nil ==> resolved(r) && cleanabs(r)
  ensures same-file: err == nil ==> fileof(r) == fileof(absname(p))
  ensures errors: err != nil ==> fsbad || lstats - old(lstats) >= 128
  ensures reported: fsbad ==> err != nil
  loop (q string) same_file: fileof(q) == fileof(absname(p))
  loop (p string) absolute: prefix("/", p)
  loop (i int) pos: 1 <= i
  loop (p string, i int) scanned: nolink(p, i - 1)
  loop (p string, i int) start: i <= len(p) ==> p[i - 1] == '/'
  loop (depth int) steps: depth <= lstats - old(lstats) + 1
  loop () good: !fsbad
  decreases (depth int) depth: 1000000 - depth

// what the user gave resolves to the root directory
def isroot(path) = fileof(absname(suffix("...", path) ? path[:len(path)-3] : path)) == fileof("/")
axiom[C06 C07 C08 C14] clean-valid: forall p string {cleanabs(p)} :: cleanabs(p) ==> p == "/" || valid(p)
ghost cleaned string
ghost cleanrec bool
ghost cleanerr bool

func cleanpath(path) (realpath, isrec, err)
  props C12
  set [C06 C07 C08 C14] cleaned := realpath
  set [C06 C07 C08 C14] cleanrec := isrec
  set [C06 C07 C08 C14] cleanerr := err != nil
  requires good: !fsbad
  modifies G:fsbad, G:lstats
  ensures recursive: err == nil ==> (isrec <==> suffix("...", path))
  ensures resolved: err == nil ==> resolved(realpath) && cleanabs(realpath)
  ensures same-file: err == nil ==> fileof(realpath) == fileof(absname(suffix("...", path) ? path[:len(path)-3] : path))
  ensures reported: fsbad ==> err != nil

func joinevents(events) (e)
  props C12
  ensures none: len(events) == 0 ==> e == All
  ensures [C06 C07 C08 C14] some: len(events) != 0 && (forall k int {events[k]} :: 0 <= k && k < len(events) ==> user(events[k]) != 0) ==> user(e) != 0
  ensures [C06 C07 C08 C14] plain: (forall k int {events[k]} :: 0 <= k && k < len(events) ==> events[k] & internal == 0) ==> e & internal == 0
  loop [C06 C07 C08 C14] (n count, e Event) some: n > 0 && (forall k int {events[k]} :: 0 <= k && k < len(events) ==> user(events[k]) != 0) ==> user(e) != 0
  loop [C06 C07 C08 C14] (e Event) plain: (forall k int {events[k]} :: 0 <= k && k < len(events) ==> events[k] & internal == 0) ==> e & internal == 0
  ensures union: len(events) != 0 ==> (e & B != 0 <==> (exists k int {events[k]} :: 0 <= k && k < len(events) && events[k] & B != 0))
  loop (n count) in: n <= len(events)
  loop (n count, e Event) union: e & B != 0 <==> (exists k int {events[k]} :: 0 <= k && k < n && events[k] & B != 0)
