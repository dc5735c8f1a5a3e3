From b78790074e42fe985856ee9d8e3388cb13588f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 01/20] fix: dispatch events of the paths placed directly under
 the root

root.WalkPath failed for the root itself, what made the dispatch drop every
event which path's parent is a root (e.g. chmod of a watched /data).
---
 node.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/node.go b/node.go
index ad7d04f..64f85f6 100644
--- a/node.go
+++ b/node.go
@@ -271,5 +271,14 @@ func (r root) WalkPath(name string, fn walkPathFunc) error {
 	if err != nil {
 		return err
 	}
+	if nd.Name == name {
+		// The root itself is the base, there are no nodes above it.
+		switch err := fn(nd, true); err {
+		case nil, errSkip:
+			return nil
+		default:
+			return err
+		}
+	}
 	return nd.WalkPath(name, fn)
 }
-- 
2.43.0


From dfc463f4bf93c0daad8be4b2c9ba6490a0057cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 02/20] fix: undo the whole change of a watchpoint when Watch
 fails

The kinds requested by a failed Watch which some other channel has already
been watching were left registered for the channel.
---
 tree_nonrecursive.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 6e23340..f5d45bd 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -185,6 +185,7 @@ func (t *nonrecursiveTree) Watch(path string, c chan<- EventInfo, events ...Even
 }
 
 func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err error) {
+	added := e &^ nd.Watch[c]
 	diff := nd.Watch.Add(c, e)
 	switch {
 	case diff == none:
@@ -198,7 +199,7 @@ func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err erro
 		err = t.w.Rewatch(nd.Name, diff[0], diff[1])
 	}
 	if err != nil {
-		nd.Watch.Del(c, diff.Event())
+		nd.Watch.Del(c, added)
 		return err
 	}
 	return nil
-- 
2.43.0


From a851a14f4fb0d541ba89ea354c24736e6a0bbf6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:53 +0000
Subject: [PATCH 03/20] fix: remove every inotify watch descriptor of an
 unwatched path

Unwatch removed one, random descriptor out of the ones registered for the
path, so the live one was leaked when a stale one was picked.
---
 watcher_inotify.go | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index 02b4328..775e158 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -340,26 +340,30 @@ func decode(mask Event, e *event) (syse *event) {
 // This method is allowed to return EINVAL error when concurrently requested to
 // delete identical path.
 func (i *inotify) Unwatch(path string) (err error) {
-	iwd := int32(invalidDescriptor)
+	// There may be more than one descriptor for the path: the ones of removed or
+	// renamed files are not collected when the path gets watched again.
+	var iwds []int32
 	i.RLock()
 	for iwdkey, wd := range i.m {
 		if wd.path == path {
-			iwd = iwdkey
-			break
+			iwds = append(iwds, iwdkey)
 		}
 	}
 	i.RUnlock()
-	if iwd == invalidDescriptor {
+	if len(iwds) == 0 {
 		return errors.New("notify: path " + path + " is already watched")
 	}
 	fd := atomic.LoadInt32(&i.fd)
-	if err = removeInotifyWatch(fd, iwd); err != nil {
-		return
+	for _, iwd := range iwds {
+		if e := removeInotifyWatch(fd, iwd); e != nil {
+			err = nonil(err, e)
+			continue
+		}
+		i.Lock()
+		delete(i.m, iwd)
+		i.Unlock()
 	}
-	i.Lock()
-	delete(i.m, iwd)
-	i.Unlock()
-	return nil
+	return err
 }
 
 // Close implements notify.watcher interface. It removes all existing watch
-- 
2.43.0


From fc12b3c887ebde14fc6f2cfa9e4f6882fff344d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:43 +0000
Subject: [PATCH 04/20] fix: do not abort AddDir on a directory removed during
 the walk

A sub-directory which vanished between listing its parent and listing the
directory itself made AddDir leave its remaining siblings unwatched.
---
 node.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/node.go b/node.go
index 64f85f6..243d3f7 100644
--- a/node.go
+++ b/node.go
@@ -61,7 +61,7 @@ func (nd node) Add(name string) node {
 }
 
 func (nd node) AddDir(fn walkFunc) error {
-	stack := []node{nd}
+	top, stack := nd, []node{nd}
 Traverse:
 	for n := len(stack); n != 0; n = len(stack) {
 		nd, stack = stack[n-1], stack[:n-1]
@@ -79,6 +79,10 @@ Traverse:
 		// TODO(rjeczalik): tolerate open failures - add failed names to
 		// AddDirError and notify users which names are not added to the tree.
 		fi, err := os.ReadDir(nd.Name)
+		if os.IsNotExist(err) && nd.Name != top.Name {
+			// The directory was removed after it had been listed.
+			continue Traverse
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 7da02f8f3676734c211b17f32378357f9bd869ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:21 +0000
Subject: [PATCH 05/20] fix: report and undo a failed recursive Watch

watchrec ignored the errors of the watcher, so Watch reported success having
nothing (or only a part of the tree) watched, and it left a half-set tree behind
when it failed due to a directory which could not have been read.
---
 tree_nonrecursive.go | 52 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 45 insertions(+), 7 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index f5d45bd..7ab0080 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -4,7 +4,10 @@
 
 package notify
 
-import "sync"
+import (
+	"os"
+	"sync"
+)
 
 // nonrecursiveTree TODO(rjeczalik)
 type nonrecursiveTree struct {
@@ -110,7 +113,13 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 		if ei.Path() != nd.Name {
 			nd = nd.Add(ei.Path())
 		}
-		err := nd.AddDir(t.recFunc(eset))
+		add := t.recFunc(eset)
+		err := nd.AddDir(func(nd node) error {
+			if err := add(nd); err != nil {
+				dbgprintf("internal(%p) error: %v", rec, err)
+			}
+			return nil
+		})
 		t.rw.Unlock()
 		if err != nil {
 			dbgprintf("internal(%p) error: %v", rec, err)
@@ -206,18 +215,22 @@ func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err erro
 }
 
 func (t *nonrecursiveTree) recFunc(e Event) walkFunc {
-	return func(nd node) error {
+	return func(nd node) (err error) {
+		added := (e | omit | Create) &^ nd.Watch[t.rec]
 		switch diff := nd.Watch.Add(t.rec, e|omit|Create); {
 		case diff == none:
 		case diff[1] == 0:
 			// TODO(rjeczalik): cleanup this panic after implementation is stable
 			panic("eset is empty: " + nd.Name)
 		case diff[0] == 0:
-			t.w.Watch(nd.Name, diff[1])
+			err = t.w.Watch(nd.Name, diff[1])
 		default:
-			t.w.Rewatch(nd.Name, diff[0], diff[1])
+			err = t.w.Rewatch(nd.Name, diff[0], diff[1])
 		}
-		return nil
+		if err != nil {
+			nd.Watch.Del(t.rec, added)
+		}
+		return err
 	}
 }
 
@@ -243,7 +256,32 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 	}
 	// TODO(rjeczalik): account every path that failed to be (re)watched
 	// and retry.
-	if err := traverse(t.recFunc(e)); err != nil {
+	var undo []func()
+	add := t.recFunc(e)
+	err := traverse(func(it node) error {
+		added := (e | omit | Create) &^ it.Watch[t.rec]
+		switch err := add(it); {
+		case err == nil:
+		case os.IsNotExist(err) && it.Name != nd.Name:
+			return errSkip // removed after its parent had been listed
+		default:
+			return err
+		}
+		undo = append(undo, func() {
+			switch diff := it.Watch.Del(t.rec, added); {
+			case diff == none:
+			case diff[1] == 0:
+				t.w.Unwatch(it.Name)
+			default:
+				t.w.Rewatch(it.Name, diff[0], diff[1])
+			}
+		})
+		return nil
+	})
+	if err != nil {
+		for _, fn := range undo {
+			fn()
+		}
 		return err
 	}
 	t.watchAdd(nd, c, e)
-- 
2.43.0


From 528d2654466c4721e58bebe0c038acedd9d0eaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:21 +0000
Subject: [PATCH 06/20] fix: watch the directories created anew within a
 recursive watchpoint

A directory removed and created again, or replaced by rename, was left
unwatched: the node of the former one made the tree think it is already
watched, and a late Remove of the former one unwatched the new one.
---
 tree_nonrecursive.go | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 7ab0080..e4d6b2f 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -83,7 +83,9 @@ func (t *nonrecursiveTree) dispatch(c <-chan EventInfo) {
 func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 	for ei := range rec {
 		t.rw.Lock()
-		if ei.Event() == Remove {
+		// The directory may have been already created anew, in which case it is
+		// going to be watched again instead.
+		if ei.Event() == Remove && !isdir(ei.Path()) {
 			nd, err := t.root.Get(ei.Path())
 			if err != nil {
 				t.rw.Unlock()
@@ -115,7 +117,14 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 		}
 		add := t.recFunc(eset)
 		err := nd.AddDir(func(nd node) error {
-			if err := add(nd); err != nil {
+			total := nd.Watch.Total()
+			err := add(nd)
+			if err == nil && total != 0 && total == nd.Watch.Total() {
+				// The node may come from a directory which is already gone,
+				// ensure it is the current one that is watched.
+				err = t.w.Rewatch(nd.Name, total, total)
+			}
+			if err != nil {
 				dbgprintf("internal(%p) error: %v", rec, err)
 			}
 			return nil
@@ -127,6 +136,11 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 	}
 }
 
+func isdir(path string) bool {
+	fi, err := os.Lstat(path)
+	return err == nil && fi.IsDir()
+}
+
 // watchAdd TODO(rjeczalik)
 func (t *nonrecursiveTree) watchAdd(nd node, c chan<- EventInfo, e Event) eventDiff {
 	if e&recursive != 0 {
-- 
2.43.0


From 2866561d01b12a335b43ad1cbe43b30844b2d381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:41 +0000
Subject: [PATCH 07/20] fix: watch new directories for the events of all
 watchpoints above

The set of the outermost watchpoint was picked by comparing bit masks as
numbers, so the set of another one could have been used instead.
---
 tree_nonrecursive.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index e4d6b2f..b2992e5 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -102,9 +102,7 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 		var nd node
 		var eset = internal
 		t.root.WalkPath(ei.Path(), func(it node, _ bool) error {
-			if e := it.Watch[t.rec]; e != 0 && e > eset {
-				eset = e
-			}
+			eset |= it.Watch[t.rec]
 			nd = it
 			return nil
 		})
-- 
2.43.0


From 18e6c312112d0b20520cd57bf9cc179b4a4ba10c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 08/20] fix: release the watches of a recursive watchpoint on
 Stop

The events of a stopped recursive watchpoint which happen to be watched also by a
non-recursive one at the same node were kept for the whole subtree.
---
 tree_nonrecursive.go | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index b2992e5..c8ab2b5 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -151,30 +151,23 @@ func (t *nonrecursiveTree) watchAdd(nd node, c chan<- EventInfo, e Event) eventD
 
 // watchDelMin TODO(rjeczalik)
 func (t *nonrecursiveTree) watchDelMin(min Event, nd node, c chan<- EventInfo, e Event) eventDiff {
-	old, ok := nd.Watch[t.rec]
-	if ok {
-		nd.Watch[t.rec] = min
-	}
-	diff := nd.Watch.Del(c, e)
-	if ok {
-		switch old &^= diff[0] &^ diff[1]; {
-		case old|internal == internal:
-			delete(nd.Watch, t.rec)
-			if set, ok := nd.Watch[nil]; ok && len(nd.Watch) == 1 && set == 0 {
-				delete(nd.Watch, nil)
-			}
-		default:
-			nd.Watch.Add(t.rec, old|Create)
-			switch {
-			case diff == none:
-			case diff[1]|Create == diff[0]:
-				diff = none
-			default:
-				diff[1] |= Create
-			}
+	old := nd.Watch.Total()
+	nd.Watch.Del(c, e)
+	// The recursive watchpoint is still required by the nodes above (min) and by
+	// the remaining channels which watch this one recursively.
+	for ch, set := range nd.Watch {
+		if ch != nil && ch != t.rec && set&recursive != 0 {
+			min |= set
 		}
 	}
-	return diff
+	if min&^internal != 0 {
+		min |= internal | Create
+	}
+	nd.Watch.Del(t.rec, all&^min)
+	if diff := (eventDiff{old, nd.Watch.Total()}); diff[0] != diff[1] {
+		return diff
+	}
+	return none
 }
 
 // watchDel TODO(rjeczalik)
-- 
2.43.0


From fce975db1290f69231873e13c72c4a6d87c02757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:47 +0000
Subject: [PATCH 09/20] fix: watch the directories, and only them, when
 extending a recursive watchpoint

Walking nodes instead of directories missed those a concurrently processed event
has not added yet and set watches on the files which have a node.
---
 tree_nonrecursive.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index c8ab2b5..c1ee993 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -240,7 +240,6 @@ func (t *nonrecursiveTree) recFunc(e Event) walkFunc {
 }
 
 func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error {
-	var traverse func(walkFunc) error
 	// Non-recursive tree listens on Create event for every recursive
 	// watchpoint in order to automagically set a watch for every
 	// created directory.
@@ -252,18 +251,14 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 	case diff[1] == 0:
 		// TODO(rjeczalik): cleanup this panic after implementation is stable
 		panic("eset is empty: " + nd.Name)
-	case diff[0] == 0:
-		// TODO(rjeczalik): BFS into directories and skip subtree as soon as first
-		// recursive watchpoint is encountered.
-		traverse = nd.AddDir
-	default:
-		traverse = nd.Walk
 	}
+	// TODO(rjeczalik): BFS into directories and skip subtree as soon as first
+	// recursive watchpoint is encountered.
 	// TODO(rjeczalik): account every path that failed to be (re)watched
 	// and retry.
 	var undo []func()
 	add := t.recFunc(e)
-	err := traverse(func(it node) error {
+	err := nd.AddDir(func(it node) error {
 		added := (e | omit | Create) &^ it.Watch[t.rec]
 		switch err := add(it); {
 		case err == nil:
-- 
2.43.0


From 8cf5e13122e0eb7dd94df5e85be6612ea9bc516d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:03 +0000
Subject: [PATCH 10/20] fix: resolve a relative symlink placed directly under
 the root

The restarted resolution began at the second character of the path, so the name
of a relative link was not fully replaced (/long -> ln -> w gave /lw).
---
 util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util.go b/util.go
index 7b50b0c..3550514 100644
--- a/util.go
+++ b/util.go
@@ -92,7 +92,7 @@ func canonical(p string) (string, error) {
 			} else {
 				p = p[:j] + s + p[i:]
 			}
-			i = 1 // no guarantee s is canonical, start all over
+			i = 0 // no guarantee s is canonical, start all over
 		}
 	}
 	return filepath.Clean(p), nil
-- 
2.43.0


From 80640ac37961ab0d82b4c7e268d9ddb4300e7112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:14 +0000
Subject: [PATCH 11/20] fix: take the events of a node's own watchpoint into
 account on Stop

When the channel had only an inactive watchpoint in the node, the events the
node itself was watched for were missing from the diff, so a recursive watch
still in use was removed or shrunk.
---
 tree_recursive.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index 7f00dfe..8c44714 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -58,16 +58,14 @@ func watchCopy(src, dst node) {
 
 // watchDel TODO(rjeczalik)
 func watchDel(nd node, c chan<- EventInfo, e Event) eventDiff {
-	diff := nd.Watch.Del(c, e)
+	old := watchTotal(nd)
+	nd.Watch.Del(c, e)
 	if wp := nd.Child[""].Watch; len(wp) != 0 {
-		diffInactive := wp.Del(c, e)
-		e = wp.Total()
-		// TODO(rjeczalik): add e if e != all?
-		diff[0] |= diffInactive[0] | e
-		diff[1] |= diffInactive[1] | e
-		if diff[0] == diff[1] {
-			return none
-		}
+		wp.Del(c, e)
+	}
+	diff := eventDiff{old, watchTotal(nd)}
+	if diff[0] == diff[1] {
+		return none
 	}
 	return diff
 }
-- 
2.43.0


From d54da900c4e9e9b2e6fe68d6899e1633e01357aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:30 +0000
Subject: [PATCH 12/20] fix: make a watch recursive even if its event set is
 sufficient

A watchpoint below a directory watched non-recursively, or a recursive one
added to such directory, was taken for covered when the events it asked for
were already watched for, and received nothing from the sub-directories.
---
 tree_recursive.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tree_recursive.go b/tree_recursive.go
index 8c44714..8d9e133 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -188,11 +188,16 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// information to shrink the eventset on eventual Stop.
 		// return t.resetwatchpoint(parent, parent, c, eventset|inactive)
 		var diff eventDiff
+		wasrec := watchIsRecursive(parent)
 		if self {
 			diff = watchAdd(cur, c, eventset)
 		} else {
 			diff = watchAddInactive(parent, c, eventset)
 		}
+		if diff == none && !wasrec && watchIsRecursive(parent) {
+			// The eventset is sufficient, the extent of the watch is not.
+			diff[0], diff[1] = watchTotal(parent), watchTotal(parent)
+		}
 		switch {
 		case diff == none:
 			// the parent watchpoint already covers requested subtree with its
-- 
2.43.0


From ad339b1e2b46b9fff6b7e57c954296da26e61bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:46 +0000
Subject: [PATCH 13/20] fix: undo the whole change when a recursive tree's
 Watch fails

A failed Watch left events of the channel, the recursive mark or the total
event set behind, so that later calls took the path for a watched one.
---
 tree_recursive.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index 8d9e133..0965869 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -189,6 +189,11 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// return t.resetwatchpoint(parent, parent, c, eventset|inactive)
 		var diff eventDiff
 		wasrec := watchIsRecursive(parent)
+		wp := parent.Child[""].Watch
+		if self {
+			wp = cur.Watch
+		}
+		added := eventset &^ wp[c]
 		if self {
 			diff = watchAdd(cur, c, eventset)
 		} else {
@@ -212,7 +217,11 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 				err = t.w.Rewatch(parent.Name, diff[0], diff[1])
 			}
 			if err != nil {
-				watchDel(parent, c, diff.Event())
+				// Take back exactly what was added.
+				if !self {
+					wp = parent.Child[""].Watch
+				}
+				wp.Del(c, added)
 				return err
 			}
 			watchAdd(cur, c, eventset)
@@ -245,8 +254,8 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 			watchTotal(cur))
 		if err != nil {
 			// Clean inactive watchpoint. The c chan did not exist before.
-			cur.Child[""] = node{}
-			delete(cur.Watch, c)
+			delete(cur.Child, "")
+			cur.Watch.Del(c, all)
 			return err
 		}
 		return nil
@@ -259,8 +268,8 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		// Watch parent subtree.
 		if err = t.w.RecursiveWatch(cur.Name, watchTotal(cur)); err != nil {
 			// Clean inactive watchpoint. The c chan did not exist before.
-			cur.Child[""] = node{}
-			delete(cur.Watch, c)
+			delete(cur.Child, "")
+			cur.Watch.Del(c, all)
 			return err
 		}
 		// Unwatch children subtrees.
@@ -291,7 +300,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 			err = t.w.Watch(cur.Name, diff[1])
 		}
 		if err != nil {
-			watchDel(cur, c, diff.Event())
+			watchDel(cur, c, all)
 			return err
 		}
 	default:
-- 
2.43.0


From 914302080f692068831b266711b4e0084bd5b790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:03 +0000
Subject: [PATCH 14/20] fix: merge the children having inactive watchpoints
 only

A watched node whose own channel was stopped was skipped in favour of nodes
below it, which have no OS watch of their own.
---
 tree_recursive.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tree_recursive.go b/tree_recursive.go
index 0965869..b0d300f 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -46,12 +46,11 @@ func watchCopy(src, dst node) {
 		watchAddInactive(dst, c, e)
 	}
 	if wpsrc := src.Child[""].Watch; len(wpsrc) != 0 {
-		wpdst := dst.Child[""].Watch
 		for c, e := range wpsrc {
 			if c == nil {
 				continue
 			}
-			wpdst.Add(c, e)
+			watchAddInactive(dst, c, e)
 		}
 	}
 }
@@ -238,7 +237,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 	// Look for children nodes, unwatch n-1 of them and rewatch the last one.
 	var children []node
 	fn := func(nd node) error {
-		if len(nd.Watch) == 0 {
+		if watchTotal(nd) == 0 {
 			return nil
 		}
 		children = append(children, nd)
-- 
2.43.0


From e3c7a65cddc679e7d85323b82dbea86fcbd6f566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 15/20] fix: forget a descriptor once closed, even if close(2)
 was interrupted

Linux releases the descriptor in any case, so closing it again on a later
failure could hit a descriptor of somebody else.
---
 watcher_inotify.go | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/watcher_inotify.go b/watcher_inotify.go
index 775e158..9f06c09 100644
--- a/watcher_inotify.go
+++ b/watcher_inotify.go
@@ -160,19 +160,15 @@ func (i *inotify) epollinit() (err error) {
 // epollclose closes the file descriptor created by the call to epoll_create(2)
 // and two file descriptors opened by pipe(2) function.
 func (i *inotify) epollclose() (err error) {
+	// A descriptor is released even if close(2) fails, its number may be reused.
 	if i.epfd != invalidDescriptor {
-		if err = unix.Close(i.epfd); err == nil {
-			i.epfd = invalidDescriptor
-		}
+		err = unix.Close(i.epfd)
+		i.epfd = invalidDescriptor
 	}
 	for n, fd := range i.pipefd {
 		if fd != invalidDescriptor {
-			switch e := unix.Close(fd); {
-			case e != nil && err == nil:
-				err = e
-			case e == nil:
-				i.pipefd[n] = invalidDescriptor
-			}
+			err = nonil(err, unix.Close(fd))
+			i.pipefd[n] = invalidDescriptor
 		}
 	}
 	return
-- 
2.43.0


From d71a2308103548635c09129d9a0a36dcfaabd4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:17 +0000
Subject: [PATCH 16/20] fix: do not let an unreadable directory keep the others
 from being watched

---
 node.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 243d3f7..7b4f1fd 100644
--- a/node.go
+++ b/node.go
@@ -61,6 +61,7 @@ func (nd node) Add(name string) node {
 }
 
 func (nd node) AddDir(fn walkFunc) error {
+	var failed error
 	top, stack := nd, []node{nd}
 Traverse:
 	for n := len(stack); n != 0; n = len(stack) {
@@ -84,7 +85,9 @@ Traverse:
 			continue Traverse
 		}
 		if err != nil {
-			return err
+			// Do not give up on the remaining directories.
+			failed = nonil(failed, err)
+			continue Traverse
 		}
 		for _, fi := range fi {
 			if fi.Type()&(fs.ModeSymlink|fs.ModeDir) == fs.ModeDir {
@@ -93,7 +96,7 @@ Traverse:
 			}
 		}
 	}
-	return nil
+	return failed
 }
 
 func (nd node) Get(name string) (node, error) {
-- 
2.43.0


From 7908ca4dcb98a4207063580412f05615dfa4ed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:28 +0000
Subject: [PATCH 17/20] fix: do not watch a file which took the place of a
 directory

---
 node.go              |  2 +-
 tree_nonrecursive.go | 37 ++++++++++++++++++++++++++++---------
 2 files changed, 29 insertions(+), 10 deletions(-)

diff --git a/node.go b/node.go
index 7b4f1fd..5037354 100644
--- a/node.go
+++ b/node.go
@@ -80,7 +80,7 @@ Traverse:
 		// TODO(rjeczalik): tolerate open failures - add failed names to
 		// AddDirError and notify users which names are not added to the tree.
 		fi, err := os.ReadDir(nd.Name)
-		if os.IsNotExist(err) && nd.Name != top.Name {
+		if err != nil && nd.Name != top.Name && notdir(nd.Name) {
 			// The directory was removed after it had been listed.
 			continue Traverse
 		}
diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index c1ee993..47adf51 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -115,7 +115,11 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 		}
 		add := t.recFunc(eset)
 		err := nd.AddDir(func(nd node) error {
+			if notdir(nd.Name) {
+				return errSkip // removed or replaced since
+			}
 			total := nd.Watch.Total()
+			added := (eset | omit | Create) &^ nd.Watch[t.rec]
 			err := add(nd)
 			if err == nil && total != 0 && total == nd.Watch.Total() {
 				// The node may come from a directory which is already gone,
@@ -124,6 +128,9 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 			}
 			if err != nil {
 				dbgprintf("internal(%p) error: %v", rec, err)
+			} else if notdir(nd.Name) {
+				t.recDel(nd, added)
+				return errSkip
 			}
 			return nil
 		})
@@ -139,6 +146,11 @@ func isdir(path string) bool {
 	return err == nil && fi.IsDir()
 }
 
+func notdir(path string) bool {
+	fi, err := os.Lstat(path)
+	return os.IsNotExist(err) || err == nil && !fi.IsDir()
+}
+
 // watchAdd TODO(rjeczalik)
 func (t *nonrecursiveTree) watchAdd(nd node, c chan<- EventInfo, e Event) eventDiff {
 	if e&recursive != 0 {
@@ -239,6 +251,17 @@ func (t *nonrecursiveTree) recFunc(e Event) walkFunc {
 	}
 }
 
+// recDel takes back what was added to the recursive watchpoint of nd.
+func (t *nonrecursiveTree) recDel(nd node, added Event) {
+	switch diff := nd.Watch.Del(t.rec, added); {
+	case diff == none:
+	case diff[1] == 0:
+		t.w.Unwatch(nd.Name)
+	default:
+		t.w.Rewatch(nd.Name, diff[0], diff[1])
+	}
+}
+
 func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error {
 	// Non-recursive tree listens on Create event for every recursive
 	// watchpoint in order to automagically set a watch for every
@@ -267,15 +290,11 @@ func (t *nonrecursiveTree) watchrec(nd node, c chan<- EventInfo, e Event) error
 		default:
 			return err
 		}
-		undo = append(undo, func() {
-			switch diff := it.Watch.Del(t.rec, added); {
-			case diff == none:
-			case diff[1] == 0:
-				t.w.Unwatch(it.Name)
-			default:
-				t.w.Rewatch(it.Name, diff[0], diff[1])
-			}
-		})
+		if it.Name != nd.Name && notdir(it.Name) {
+			t.recDel(it, added)
+			return errSkip // replaced after its parent had been listed
+		}
+		undo = append(undo, func() { t.recDel(it, added) })
 		return nil
 	})
 	if err != nil {
-- 
2.43.0


From cd1223c0f0cb8ab232af4c9636b4035a7324b53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:19 +0000
Subject: [PATCH 18/20] fix: deliver and stop watchpoints of the root directory

The node of a root directory has no name, so it was never found, nor could
it be watched or listed by its path.
---
 node.go              | 24 ++++++++++++++++++------
 tree_nonrecursive.go | 24 ++++++++++++------------
 tree_recursive.go    | 26 +++++++++++++-------------
 3 files changed, 43 insertions(+), 31 deletions(-)

diff --git a/node.go b/node.go
index 5037354..3354787 100644
--- a/node.go
+++ b/node.go
@@ -39,6 +39,14 @@ func newnode(name string) node {
 	}
 }
 
+// path gives the path of the node; the one of a root directory is not its name.
+func (nd node) path() string {
+	if nd.Name == filepath.VolumeName(nd.Name) {
+		return nd.Name + sep
+	}
+	return nd.Name
+}
+
 func (nd node) addchild(name, base string) node {
 	child, ok := nd.Child[base]
 	if !ok {
@@ -79,8 +87,8 @@ Traverse:
 		}
 		// TODO(rjeczalik): tolerate open failures - add failed names to
 		// AddDirError and notify users which names are not added to the tree.
-		fi, err := os.ReadDir(nd.Name)
-		if err != nil && nd.Name != top.Name && notdir(nd.Name) {
+		fi, err := os.ReadDir(nd.path())
+		if err != nil && nd.Name != top.Name && notdir(nd.path()) {
 			// The directory was removed after it had been listed.
 			continue Traverse
 		}
@@ -91,7 +99,7 @@ Traverse:
 		}
 		for _, fi := range fi {
 			if fi.Type()&(fs.ModeSymlink|fs.ModeDir) == fs.ModeDir {
-				name := filepath.Join(nd.Name, fi.Name())
+				name := filepath.Join(nd.path(), fi.Name())
 				stack = append(stack, nd.addchild(name, name[len(nd.Name)+1:]))
 			}
 		}
@@ -237,7 +245,11 @@ func (r root) root(name string) (node, error) {
 }
 
 func (r root) Add(name string) node {
-	return r.addroot(name).Add(name)
+	nd := r.addroot(name)
+	if nd.path() == name {
+		return nd
+	}
+	return nd.Add(name)
 }
 
 func (r root) AddDir(dir string, fn walkFunc) error {
@@ -257,7 +269,7 @@ func (r root) Get(name string) (node, error) {
 	if err != nil {
 		return node{}, err
 	}
-	if nd.Name != name {
+	if nd.Name != name && nd.path() != name {
 		if nd, err = nd.Get(name); err != nil {
 			return node{}, err
 		}
@@ -278,7 +290,7 @@ func (r root) WalkPath(name string, fn walkPathFunc) error {
 	if err != nil {
 		return err
 	}
-	if nd.Name == name {
+	if nd.Name == name || nd.path() == name {
 		// The root itself is the base, there are no nodes above it.
 		switch err := fn(nd, true); err {
 		case nil, errSkip:
diff --git a/tree_nonrecursive.go b/tree_nonrecursive.go
index 47adf51..6860ca1 100644
--- a/tree_nonrecursive.go
+++ b/tree_nonrecursive.go
@@ -92,7 +92,7 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 				continue
 			}
 			t.walkWatchpoint(nd, func(_ Event, nd node) error {
-				t.w.Unwatch(nd.Name)
+				t.w.Unwatch(nd.path())
 				return nil
 			})
 			t.root.Del(ei.Path())
@@ -115,7 +115,7 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 		}
 		add := t.recFunc(eset)
 		err := nd.AddDir(func(nd node) error {
-			if notdir(nd.Name) {
+			if notdir(nd.path()) {
 				return errSkip // removed or replaced since
 			}
 			total := nd.Watch.Total()
@@ -124,11 +124,11 @@ func (t *nonrecursiveTree) internal(rec <-chan EventInfo) {
 			if err == nil && total != 0 && total == nd.Watch.Total() {
 				// The node may come from a directory which is already gone,
 				// ensure it is the current one that is watched.
-				err = t.w.Rewatch(nd.Name, total, total)
+				err = t.w.Rewatch(nd.path(), total, total)
 			}
 			if err != nil {
 				dbgprintf("internal(%p) error: %v", rec, err)
-			} else if notdir(nd.Name) {
+			} else if notdir(nd.path()) {
 				t.recDel(nd, added)
 				return errSkip
 			}
@@ -220,9 +220,9 @@ func (t *nonrecursiveTree) watch(nd node, c chan<- EventInfo, e Event) (err erro
 		// TODO(rjeczalik): cleanup this panic after implementation is stable
 		panic("eset is empty: " + nd.Name)
 	case diff[0] == 0:
-		err = t.w.Watch(nd.Name, diff[1])
+		err = t.w.Watch(nd.path(), diff[1])
 	default:
-		err = t.w.Rewatch(nd.Name, diff[0], diff[1])
+		err = t.w.Rewatch(nd.path(), diff[0], diff[1])
 	}
 	if err != nil {
 		nd.Watch.Del(c, added)
@@ -240,9 +240,9 @@ func (t *nonrecursiveTree) recFunc(e Event) walkFunc {
 			// TODO(rjeczalik): cleanup this panic after implementation is stable
 			panic("eset is empty: " + nd.Name)
 		case diff[0] == 0:
-			err = t.w.Watch(nd.Name, diff[1])
+			err = t.w.Watch(nd.path(), diff[1])
 		default:
-			err = t.w.Rewatch(nd.Name, diff[0], diff[1])
+			err = t.w.Rewatch(nd.path(), diff[0], diff[1])
 		}
 		if err != nil {
 			nd.Watch.Del(t.rec, added)
@@ -256,9 +256,9 @@ func (t *nonrecursiveTree) recDel(nd node, added Event) {
 	switch diff := nd.Watch.Del(t.rec, added); {
 	case diff == none:
 	case diff[1] == 0:
-		t.w.Unwatch(nd.Name)
+		t.w.Unwatch(nd.path())
 	default:
-		t.w.Rewatch(nd.Name, diff[0], diff[1])
+		t.w.Rewatch(nd.path(), diff[0], diff[1])
 	}
 }
 
@@ -347,9 +347,9 @@ func (t *nonrecursiveTree) Stop(c chan<- EventInfo) {
 		case diff == none:
 			return nil
 		case diff[1] == 0:
-			t.w.Unwatch(nd.Name)
+			t.w.Unwatch(nd.path())
 		default:
-			t.w.Rewatch(nd.Name, diff[0], diff[1])
+			t.w.Rewatch(nd.path(), diff[0], diff[1])
 		}
 		return nil
 	}
diff --git a/tree_recursive.go b/tree_recursive.go
index b0d300f..9d76819 100644
--- a/tree_recursive.go
+++ b/tree_recursive.go
@@ -142,7 +142,7 @@ func (t *recursiveTree) dispatch() {
 			// Notify parent watchpoint.
 			nd.Watch.Dispatch(ei, 0)
 			// If leaf watchpoint exists, notify it.
-			if nd, ok = nd.Child[base]; ok {
+			if nd, ok = nd.Child[base]; ok && base != "" {
 				nd.Watch.Dispatch(ei, 0)
 			}
 		}(ei)
@@ -211,9 +211,9 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 			panic("dangling watchpoint: " + parent.Name)
 		default:
 			if isrec || watchIsRecursive(parent) {
-				err = t.w.RecursiveRewatch(parent.Name, parent.Name, diff[0], diff[1])
+				err = t.w.RecursiveRewatch(parent.path(), parent.path(), diff[0], diff[1])
 			} else {
-				err = t.w.Rewatch(parent.Name, diff[0], diff[1])
+				err = t.w.Rewatch(parent.path(), diff[0], diff[1])
 			}
 			if err != nil {
 				// Take back exactly what was added.
@@ -249,7 +249,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 	case 1:
 		watchAdd(cur, c, eventset) // TODO(rjeczalik): update cache c subtree root?
 		watchCopy(children[0], cur)
-		err = t.w.RecursiveRewatch(children[0].Name, cur.Name, watchTotal(children[0]),
+		err = t.w.RecursiveRewatch(children[0].path(), cur.path(), watchTotal(children[0]),
 			watchTotal(cur))
 		if err != nil {
 			// Clean inactive watchpoint. The c chan did not exist before.
@@ -265,7 +265,7 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 			watchCopy(nd, cur)
 		}
 		// Watch parent subtree.
-		if err = t.w.RecursiveWatch(cur.Name, watchTotal(cur)); err != nil {
+		if err = t.w.RecursiveWatch(cur.path(), watchTotal(cur)); err != nil {
 			// Clean inactive watchpoint. The c chan did not exist before.
 			delete(cur.Child, "")
 			cur.Watch.Del(c, all)
@@ -275,9 +275,9 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		var e error
 		for _, nd := range children {
 			if watchIsRecursive(nd) {
-				e = t.w.RecursiveUnwatch(nd.Name)
+				e = t.w.RecursiveUnwatch(nd.path())
 			} else {
-				e = t.w.Unwatch(nd.Name)
+				e = t.w.Unwatch(nd.path())
 			}
 			if e != nil {
 				err = nonil(err, e)
@@ -294,9 +294,9 @@ func (t *recursiveTree) Watch(path string, c chan<- EventInfo, events ...Event)
 		panic("watch requested but no parent watchpoint found: " + cur.Name)
 	case diff[0] == 0:
 		if isrec {
-			err = t.w.RecursiveWatch(cur.Name, diff[1])
+			err = t.w.RecursiveWatch(cur.path(), diff[1])
 		} else {
-			err = t.w.Watch(cur.Name, diff[1])
+			err = t.w.Watch(cur.path(), diff[1])
 		}
 		if err != nil {
 			watchDel(cur, c, all)
@@ -327,15 +327,15 @@ func (t *recursiveTree) Stop(c chan<- EventInfo) {
 			// Removing c from nd does not require shrinking its eventset.
 		case diff[1] == 0:
 			if watchIsRecursive(nd) {
-				e = t.w.RecursiveUnwatch(nd.Name)
+				e = t.w.RecursiveUnwatch(nd.path())
 			} else {
-				e = t.w.Unwatch(nd.Name)
+				e = t.w.Unwatch(nd.path())
 			}
 		default:
 			if watchIsRecursive(nd) {
-				e = t.w.RecursiveRewatch(nd.Name, nd.Name, diff[0], diff[1])
+				e = t.w.RecursiveRewatch(nd.path(), nd.path(), diff[0], diff[1])
 			} else {
-				e = t.w.Rewatch(nd.Name, diff[0], diff[1])
+				e = t.w.Rewatch(nd.path(), diff[0], diff[1])
 			}
 		}
 		fn := func(nd node) error {
-- 
2.43.0


From 91ff3f65f6c3d8c2db2eb3f7170883f9ba9d7df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 19/20] fix: do not fail a recursive Watch over a directory
 replaced while being read

---
 node.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/node.go b/node.go
index 3354787..85bb957 100644
--- a/node.go
+++ b/node.go
@@ -88,8 +88,9 @@ Traverse:
 		// TODO(rjeczalik): tolerate open failures - add failed names to
 		// AddDirError and notify users which names are not added to the tree.
 		fi, err := os.ReadDir(nd.path())
-		if err != nil && nd.Name != top.Name && notdir(nd.path()) {
-			// The directory was removed after it had been listed.
+		if err != nil && nd.Name != top.Name && (os.IsNotExist(err) || notdir(nd.path())) {
+			// The directory was removed after it had been listed, there may be
+			// a new one already.
 			continue Traverse
 		}
 		if err != nil {
-- 
2.43.0


From 45bee0acdd8c887d936810dda7b09e44e5df7ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:37 +0000
Subject: [PATCH 20/20] fix: do not take a deep path for a circular symlink

---
 util.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/util.go b/util.go
index 3550514..121aaed 100644
--- a/util.go
+++ b/util.go
@@ -63,16 +63,13 @@ func cleanpath(path string) (realpath string, isrec bool, err error) {
 
 // canonical resolves any symlink in the given path and returns it in a clean form.
 // It expects the path to be absolute. It fails to resolve circular symlinks by
-// maintaining a simple iteration limit.
+// maintaining a simple limit of symlinks followed.
 func canonical(p string) (string, error) {
 	p, err := filepath.Abs(p)
 	if err != nil {
 		return "", err
 	}
-	for i, j, depth := 1, 0, 1; i < len(p); i, depth = i+1, depth+1 {
-		if depth > 128 {
-			return "", &os.PathError{Op: "canonical", Path: p, Err: errDepth}
-		}
+	for i, j, depth := 1, 0, 0; i < len(p); i++ {
 		if j = strings.IndexRune(p[i:], '/'); j == -1 {
 			j, i = i, len(p)
 		} else {
@@ -83,6 +80,9 @@ func canonical(p string) (string, error) {
 			return "", err
 		}
 		if fi.Mode()&os.ModeSymlink == os.ModeSymlink {
+			if depth++; depth > 128 {
+				return "", &os.PathError{Op: "canonical", Path: p, Err: errDepth}
+			}
 			s, err := os.Readlink(p[:i])
 			if err != nil {
 				return "", err
-- 
2.43.0

