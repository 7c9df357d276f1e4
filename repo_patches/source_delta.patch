From ec17ee21bbddda1aed4ece3155ab8a9b27faa96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:59 +0000
Subject: [PATCH 01/12] fix: do not close descriptor 0 when creating the
 inotify wake-up pipe fails

---
 watcher_inotify.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index 02b4328..2473334 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -145,6 +145,9 @@ func (i *inotify) epollinit() (err error) {
 		return
 	}
 	if err = unix.Pipe(i.pipefd); err != nil {
+		// Pipe zeroes the slice when it fails; do not let epollclose close
+		// a descriptor that was never opened here.
+		i.pipefd[0], i.pipefd[1] = invalidDescriptor, invalidDescriptor
 		return
 	}
 	i.epes = []unix.EpollEvent{
-- 
2.43.0


From 8579143769c3b709959117e5f63dcc5d09b9e42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:16 +0000
Subject: [PATCH 02/12] fix: release every inotify watch descriptor held for an
 unwatched path

---
 watcher_inotify.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index 2473334..2e5f9e9 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -338,30 +338,29 @@ func decode(mask Event, e *event) (syse *event) {
 	return
 }
 
-// Unwatch implements notify.watcher interface. It looks for watch descriptor
-// related to registered path and if found, calls inotify_rm_watch(2) function.
+// Unwatch implements notify.watcher interface. It looks for all watch descriptors
+// related to registered path (a path which was removed and created again has an
+// outdated one as well) and calls inotify_rm_watch(2) function for each of them.
 // This method is allowed to return EINVAL error when concurrently requested to
 // delete identical path.
 func (i *inotify) Unwatch(path string) (err error) {
-	iwd := int32(invalidDescriptor)
-	i.RLock()
-	for iwdkey, wd := range i.m {
-		if wd.path == path {
-			iwd = iwdkey
-			break
+	i.Lock()
+	defer i.Unlock()
+	found := false
+	fd := atomic.LoadInt32(&i.fd)
+	for iwd, wd := range i.m {
+		if wd.path != path {
+			continue
+		}
+		found = true
+		if err = removeInotifyWatch(fd, iwd); err != nil {
+			return
 		}
+		delete(i.m, iwd)
 	}
-	i.RUnlock()
-	if iwd == invalidDescriptor {
+	if !found {
 		return errors.New("notify: path " + path + " is already watched")
 	}
-	fd := atomic.LoadInt32(&i.fd)
-	if err = removeInotifyWatch(fd, iwd); err != nil {
-		return
-	}
-	i.Lock()
-	delete(i.m, iwd)
-	i.Unlock()
 	return nil
 }
 
-- 
2.43.0


From dd23bcc709e0c56c685f98cf90d120769b4293ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 03/12] fix: resolve relative symlinks that are chained
 directly below the root

---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 7b50b0c..3550514 100644
--- a/util.go
+++ b/util.go
@@ -92,7 +92,7 @@ func canonical(p string) (string, error) {
 			} else {
 				p = p[:j] + s + p[i:]
 			}
-			i = 1 // no guarantee s is canonical, start all over
+			i = 0 // no guarantee s is canonical, start all over
 		}
 	}
 	return filepath.Clean(p), nil
-- 
2.43.0


From 963a12340164fd3645980ef0741c822760cec7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 04/12] fix: deliver events for files located right below the
 filesystem root

The directory part of such a path is empty, which node.WalkPath reported as
not existing, so both trees dropped the event.
---
 node.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index ad7d04f..2b63a6f 100644
--- a/node.go
+++ b/node.go
@@ -169,7 +169,17 @@ Traverse:
 func (nd node) WalkPath(name string, fn walkPathFunc) error {
 	i := indexrel(nd.Name, name)
 	if i == -1 {
-		return errnotexist(name)
+		if nd.Name != name {
+			return errnotexist(name)
+		}
+		// The path ends at nd, e.g. the root node for the "" directory of
+		// a file that is located right below the filesystem root.
+		switch err := fn(nd, true); err {
+		case nil, errSkip:
+			return nil
+		default:
+			return err
+		}
 	}
 	ok := false
 	for j := indexSep(name[i:]); j != -1; j = indexSep(name[i:]) {
-- 
2.43.0


From 7c00afce0591893d89341657b6da5dc95b4d31a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:30 +0000
Subject: [PATCH 05/12] fix: restore the previous event set when the backend
 refuses a watch

Removing the difference of the totals left the channel registered for the
events that were already requested by other channels on the same path.
---
 tree_nonrecursive.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 6e23340..975afc7 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -185,6 +185,7 @@ func (t *nonrecursiveTree) Watch(path string, c chan<- EventInfo, events ...Even
 }
 
 func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err error) {
+	old := nd.Watch[c]
 	diff := nd.Watch.Add(c, e)
 	switch {
 	case diff == none:
@@ -198,7 +199,7 @@ func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err erro
 		err = t.w.Rewatch(nd.Name, diff[0], diff[1])
 	}
 	if err != nil {
-		nd.Watch.Del(c, diff.Event())
+		nd.Watch.Del(c, e&^old)
 		return err
 	}
 	return nil
-- 
2.43.0


From 7b1b17f36fc6a883aa837f17aed06a7fb57be1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 06/12] fix: merge watches of subtrees whose root has only
 inactive watchpoints

---
 tree_recursive.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index 7f00dfe..dc69b9d 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -45,14 +45,11 @@ func watchCopy(src, dst node) {
 		}
 		watchAddInactive(dst, c, e)
 	}
-	if wpsrc := src.Child[""].Watch; len(wpsrc) != 0 {
-		wpdst := dst.Child[""].Watch
-		for c, e := range wpsrc {
-			if c == nil {
-				continue
-			}
-			wpdst.Add(c, e)
+	for c, e := range src.Child[""].Watch {
+		if c == nil {
+			continue
 		}
+		watchAddInactive(dst, c, e)
 	}
 }
 
@@ -226,7 +223,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 	// Look for children nodes, unwatch n-1 of them and rewatch the last one.
 	var children []node
 	fn := func(nd node) error {
-		if len(nd.Watch) == 0 {
+		if watchTotal(nd) == 0 {
 			return nil
 		}
 		children = append(children, nd)
-- 
2.43.0


From fa8626aa7d008c3a08643ad52d29b7ac6df89351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 07/12] fix: make the backend watch recursive when the event
 set does not change

---
 tree_recursive.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree_recursive.go b/tree_recursive.go
index dc69b9d..f6a5030 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -187,11 +187,16 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// information to shrink the eventset on eventual Stop.
 		// return t.resetwatchpoint(parent, parent, c, eventset|inactive)
 		var diff eventDiff
+		wasrec := watchIsRecursive(parent)
 		if self {
 			diff = watchAdd(cur, c, eventset)
 		} else {
 			diff = watchAddInactive(parent, c, eventset)
 		}
+		if diff == none && !wasrec && watchIsRecursive(parent) {
+			// The eventset does not change, but the watch becomes recursive.
+			diff[0], diff[1] = watchTotal(parent), watchTotal(parent)
+		}
 		switch {
 		case diff == none:
 			// the parent watchpoint already covers requested subtree with its
-- 
2.43.0


From c893e70a1aeb6b66e4d93cfd65385140aa6252ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:38 +0000
Subject: [PATCH 08/12] fix: undo exactly the refused registration in the
 recursive tree

---
 tree_recursive.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index f6a5030..336fba7 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -187,10 +187,13 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// information to shrink the eventset on eventual Stop.
 		// return t.resetwatchpoint(parent, parent, c, eventset|inactive)
 		var diff eventDiff
+		var old Event
 		wasrec := watchIsRecursive(parent)
 		if self {
+			old = cur.Watch[c]
 			diff = watchAdd(cur, c, eventset)
 		} else {
+			old = parent.Child[""].Watch[c]
 			diff = watchAddInactive(parent, c, eventset)
 		}
 		if diff == none && !wasrec && watchIsRecursive(parent) {
@@ -211,7 +214,11 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 				err = t.w.Rewatch(parent.Name, diff[0], diff[1])
 			}
 			if err != nil {
-				watchDel(parent, c, diff.Event())
+				if self {
+					cur.Watch.Del(c, eventset&^old)
+				} else {
+					parent.Child[""].Watch.Del(c, eventset&^old)
+				}
 				return err
 			}
 			watchAdd(cur, c, eventset)
@@ -244,8 +251,8 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 			watchTotal(cur))
 		if err != nil {
 			// Clean inactive watchpoint. The c chan did not exist before.
-			cur.Child[""] = node{}
-			delete(cur.Watch, c)
+			delete(cur.Child, "")
+			cur.Watch.Del(c, eventset)
 			return err
 		}
 		return nil
@@ -258,8 +265,8 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// Watch parent subtree.
 		if err = t.w.RecursiveWatch(cur.Name, watchTotal(cur)); err != nil {
 			// Clean inactive watchpoint. The c chan did not exist before.
-			cur.Child[""] = node{}
-			delete(cur.Watch, c)
+			delete(cur.Child, "")
+			cur.Watch.Del(c, eventset)
 			return err
 		}
 		// Unwatch children subtrees.
@@ -290,7 +297,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 			err = t.w.Watch(cur.Name, diff[1])
 		}
 		if err != nil {
-			watchDel(cur, c, diff.Event())
+			cur.Watch.Del(c, eventset)
 			return err
 		}
 	default:
-- 
2.43.0


From 36a2eb3a4cfe0bcf1834cdacf32ed66d9782e276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:42 +0000
Subject: [PATCH 09/12] fix: report the exact event sets when a registration is
 removed from a recursive watch

---
 tree_recursive.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index 336fba7..e0474c7 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -55,16 +55,14 @@ func watchCopy(src, dst node) {
 
 // watchDel TODO(rjeczalik)
 func watchDel(nd node, c chan<- EventInfo, e Event) eventDiff {
-	diff := nd.Watch.Del(c, e)
+	diff := eventDiff{watchTotal(nd)}
+	nd.Watch.Del(c, e)
 	if wp := nd.Child[""].Watch; len(wp) != 0 {
-		diffInactive := wp.Del(c, e)
-		e = wp.Total()
-		// TODO(rjeczalik): add e if e != all?
-		diff[0] |= diffInactive[0] | e
-		diff[1] |= diffInactive[1] | e
-		if diff[0] == diff[1] {
-			return none
-		}
+		wp.Del(c, e)
+	}
+	diff[1] = watchTotal(nd)
+	if diff[0] == diff[1] {
+		return none
 	}
 	return diff
 }
-- 
2.43.0


From aad485ac69ac8c269bc5d97965c203bbcf9e7ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:15 +0000
Subject: [PATCH 10/12] fix: watch a new directory for the events of every
 recursive registration above it

---
 tree_nonrecursive.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 975afc7..fc5a8d1 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -97,9 +97,7 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 		var nd node
 		var eset = internal
 		t.root.WalkPath(ei.Path(), func(it node, _ bool) error {
-			if e := it.Watch[t.rec]; e != 0 && e > eset {
-				eset = e
-			}
+			eset |= it.Watch[t.rec]
 			nd = it
 			return nil
 		})
-- 
2.43.0


From 19c974402ee5b560995778f4026c419764804ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:49 +0000
Subject: [PATCH 11/12] fix: a recursive Watch reports that its own directory
 cannot be watched

On backends that cannot watch recursively, recFunc ignores every error of
the backend, so Watch returned nil although not even the requested path
was watched.
---
 tree_nonrecursive.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index fc5a8d1..aad54ee 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -239,6 +239,10 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 	default:
 		traverse = nd.Walk
 	}
+	// The path itself must be watched, no matter what is found below it.
+	if err := t.watch(nd, t.rec, e|omit|Create); err != nil {
+		return err
+	}
 	// TODO(rjeczalik): account every path that failed to be (re)watched
 	// and retry.
 	if err := traverse(t.recFunc(e)); err != nil {
-- 
2.43.0


From 2b0d589cb3a1ab06961ffe42d2605a344aaa6d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:53 +0000
Subject: [PATCH 12/12] fix: Stop releases the automatic watches of a recursive
 registration

The share of the automatic watches kept the events that other channels ask
for on the same path without recursion, so directories below it stayed
watched after the last recursive registration was gone.
---
 tree_nonrecursive.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index aad54ee..1e99893 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -134,7 +134,14 @@ func (t *nonrecursiveTree) watchDelMin(min Event, nd node, c chan<- EventInfo, e
 	}
 	diff := nd.Watch.Del(c, e)
 	if ok {
-		switch old &^= diff[0] &^ diff[1]; {
+		// Keep what the parent and the recursive watches of this path need.
+		keep := min
+		for ch, e := range nd.Watch {
+			if ch != nil && ch != t.rec && e&recursive != 0 {
+				keep |= e
+			}
+		}
+		switch old &= keep | internal; {
 		case old|internal == internal:
 			delete(nd.Watch, t.rec)
 			if set, ok := nd.Watch[nil]; ok && len(nd.Watch) == 1 && set == 0 {
-- 
2.43.0

