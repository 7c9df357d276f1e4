// Locking discipline of the registration trees and the Linux backend.

iface recursiveWatcher.RecursiveWatch(w, path, e) (err)
iface recursiveWatcher.RecursiveUnwatch(w, path) (err)
iface recursiveWatcher.RecursiveRewatch(w, oldpath, newpath, olde, newe) (err)
// What the backend has been asked for, for one arbitrary path T: inst is the
// set installed there (0: none); failed: some request was refused, refused:
// one to install or to change a watch was.
const T string
ghost inst Event
ghost failed bool
ghost refused bool
ghost refusedat bool             // ... of the path of this call
iface watcher.Watch(w, path, e) (err)
  requires [C06 C14] new: path == T && !failed ==> inst == 0 && e != 0 && user(e) == e
  set [C06 C14] inst := path == T && err == nil ? e : inst
  set [C06 C14] failed := failed || err != nil
  set [C07] refused := refused || err != nil
  set [C07] refusedat := refusedat || err != nil && path == cleaned
iface watcher.Unwatch(w, path) (err)
  requires [C06 C14] installed: path == T && !failed ==> inst != 0
  set [C06 C14] inst := path == T && err == nil ? event(0) : inst
  set [C06 C14] failed := failed || err != nil
iface watcher.Rewatch(w, path, olde, newe) (err)
  requires [C06 C14] installed: path == T && !failed ==> inst == olde && olde != 0 && newe != 0 && user(newe) == newe
  set [C06 C14] inst := path == T && err == nil ? newe : inst
  set [C06 C14] failed := failed || err != nil
  set [C07] refused := refused || err != nil
  set [C07] refusedat := refusedat || err != nil && path == cleaned
iface watcher.Close(w) (err)
// whether an event was asked if it is about a directory, and the answer
ghost dirasked bool
ghost wasdir bool
ghost fwd int                    // events handed to internal
iface isDirer.isDir(x) (ok, err)
  set [C14] dirasked := true
  set [C14] wasdir := ok && err == nil
extern unix.EpollWait(epfd, events, msec) (n, err)
  blocks

func (*inotify).loop(i, esch)
  props C13
  guarded i.RWMutex: M:map[int32]*watched, F:watched.path, F:watched.mask
  requires i: i != nil && len(i.pipefd) == 2
  requires unlocked: lockstate(i.RWMutex) == 0

func (*inotify).send(i, esch)
  props C13
  guarded i.RWMutex: M:map[int32]*watched, F:watched.path, F:watched.mask
  requires i: i != nil
  requires unlocked: lockstate(i.RWMutex) == 0
