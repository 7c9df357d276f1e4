#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so statements stay readable and diffable)."""
import json
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=False):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m} for n,m in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

prop("C01","Event sets kept per path are exactly the union of what channels asked for",
 "For every watched path and every history of registrations and removals, the overall event set kept for the path is exactly the union of the event sets of the channels still registered there, and changing one channel's registration never changes another channel's. Each change reports the old and the new user-visible overall set exactly, and reports 'no change' exactly when that set did not change. A registration that would add nothing can be recognised without performing it.",
 ["inputs","histories"],"all event masks (32 bits), all numbers of channels and all orders of adding and removing them",
 "The watchpoint tests walk a handful of hand-picked masks over three channels; the union law is over all masks, all channel populations and all histories.",
 ["watchpoint.go"],[("Add/Del/dryAdd/Total","watchpoint.go: watchpoint.Add, watchpoint.Del, watchpoint.dryAdd, watchpoint.Total, eventDiff.Event")],
 [("watchpoint[nil]","overall event set of the path"),("watchpoint[c]","event set of channel c")],["return values of Add/Del/dryAdd and the map contents"])

prop("C02","An event reaches exactly the matching channels, once, without blocking",
 "An event offered to a watched path is sent to a channel registered there if and only if every bit of the event (including the from-below marker for events coming from deeper than the path's own directory) is in that channel's set; each such channel is sent it at most once, no other channel is sent anything, and sets reserved for internal bookkeeping never receive user events this way. A full channel only loses its own copy: the sender never blocks and the remaining channels are still served.",
 ["inputs","schedules"],"all event values, all registered sets, all channel populations and fill levels",
 "Tests use buffered channels and a few masks; the filter is a statement over all 2^32 x 2^32 set/event pairs and every fill level of every channel.",
 ["watchpoint.go","watchpoint_other.go"],[("filter","watchpoint_other.go: matches, eventmask"),("fan-out","watchpoint.go: watchpoint.Dispatch")],
 None,["what each registered channel receives"])

prop("C03","Events are routed to the path, its directory and recursive ancestors only",
 "For an event on path P exactly these registrations are consulted, each once: those made on P itself, those made on P's parent directory, and the recursive ones made on any directory further up; registrations on any other path never see the event. This holds in both tree implementations, including for paths directly below the filesystem root.",
 ["inputs","histories","schedules"],"all absolute paths, all registration trees, every event, with events and Watch/Stop calls arriving in any order",
 "The tree tests replay some fixed event lists on one fixture; routing is over all paths and tree shapes.",
 ["tree_nonrecursive.go","tree_recursive.go","node.go","util.go"],[("dispatch","tree_nonrecursive.go: nonrecursiveTree.dispatch; tree_recursive.go: recursiveTree.dispatch"),("path walk","node.go: node.WalkPath, root.WalkPath; util.go: split, indexrel, indexSep, lastIndexSep")],
 None,["what registered channels receive"])

prop("C04","The path registry stores, finds, walks and deletes exactly the right entries",
 "After any sequence of adding and deleting paths, looking a path up returns exactly the entry stored for that path (or not-found), adding a path creates only it and its missing parent directories and disturbs no existing entry, and the entries found by lookup and by walking from an ancestor are the same. Walking from a path visits every entry at or below it (below a skipped entry nothing), and deleting a path removes it with everything below it and otherwise at most ancestors that hold no registration and no other entry.",
 ["inputs","histories"],"all paths and all sequences of operations on the registry",
 "The node functions are only exercised indirectly on one fixture tree; the statement is over all path strings and all tree shapes.",
 ["node.go","util.go"],[("lookup and update","node.go: node.Add, node.Get, node.Del, node.addchild, root.*"),("walks","node.go: node.Walk, node.WalkPath"),("path splitting","util.go: split, base, indexrel, indexSep, lastIndexSep")],
 [("node.Child","entries one level below"),("node.Name","full path of the entry")],["return values of lookup, the set of entries visited by a walk"])

prop("C05","After Stop returns the channel is registered nowhere and others are untouched",
 "When Stop(c) has returned, c is not registered at any path, whatever was watched through it before, in both tree implementations, so that no later event is sent to it. Every other channel keeps exactly the event set it had at every path.",
 ["histories","schedules"],"all histories of Watch/Stop over any number of paths and channels",
 "Tests stop one or two channels on small fixtures; the guarantee is over every registration history and every tree.",
 ["tree_nonrecursive.go","tree_recursive.go","node.go","watchpoint.go"],[("Stop","tree_nonrecursive.go: nonrecursiveTree.Stop, walkWatchpoint, watchDelMin; tree_recursive.go: recursiveTree.Stop, watchDel"),("walk","node.go: node.Walk, root.Walk")],
 None,["channel contents after Stop; registrations kept per path"])

prop("C06","Non-recursive backends: the installed watches always match the registrations",
 "With a backend that cannot watch recursively, after every Watch, Stop and directory event during which the backend reported no failure, each registered path has a backend watch exactly when its overall user-visible event set is non-empty, and with exactly that set; changes are requested with the set actually installed as the old one, and a path whose last interest is gone is released.",
 ["histories","inputs"],"all histories of recursive and non-recursive Watch, Stop and directory events, all event sets",
 "The tree tests compare recorded backend calls for one scripted history; the synchronisation is an invariant over all histories.",
 ["tree_nonrecursive.go","watchpoint.go"],[("install/modify/release","tree_nonrecursive.go: watch, watchrec, recFunc, watchAdd, watchDelMin, Stop, internal")],
 [("backend watch table","path to event set requested from the backend")],["calls on the watcher backend"])

prop("C07","A failed Watch changes nothing and reports the error",
 "When the backend refuses the watch for a path, or the path cannot be resolved, Watch returns a non-nil error and leaves every channel's registered event set at every path exactly as it was before the call; events that this call would have added are not delivered. A Watch that returns nil has registered the channel for every requested event.",
 ["fault_sequences","histories","inputs"],"all prior registration states, all event sets and every backend failure point",
 "No test makes the backend fail while other channels are already registered on the path.",
 ["tree_nonrecursive.go","tree_recursive.go","watchpoint.go"],[("rollback","tree_nonrecursive.go: watch, Watch; tree_recursive.go: Watch"),],
 None,["error returned by Watch; registrations afterwards"])

prop("C08","Recursive backends: every registration is covered by an installed watch",
 "With a backend that can watch recursively, after every successful Watch and every Stop during which the backend reported no failure, each registered path is covered: the nearest path at or above it that holds an installed watch has every event registered there in its set, and that watch is recursive whenever the registration is recursive or lies below it. Installed watches are never nested, requests name the installed path and set as the old ones, and a watch is released when no registration needs it.",
 ["histories","inputs"],"all histories of recursive and non-recursive Watch and Stop over any tree of paths, all event sets",
 "The recursive tree tests script a few merges and splits; coverage is an invariant over all histories.",
 ["tree_recursive.go","watchpoint.go","node.go"],[("merge/expand/shrink","tree_recursive.go: Watch, Stop, watchAdd, watchAddInactive, watchCopy, watchDel, watchTotal, watchIsRecursive")],
 [("installed watch table","path to (event set, recursive) requested from the backend")],["calls on the recursive watcher backend"])

prop("C09","Event sets are translated to the kernel mask and back without loss or invention",
 "The kernel mask requested for an event set contains exactly the kernel bits of the raw events in it plus those of each portable event in it. A kernel notification yields, for a watched path, exactly the raw events that were both requested and signalled, plus the portable event it stands for only if that portable event was requested; nothing that was not requested is ever reported, and each report carries the right kernel data and the path of the affected file.",
 ["inputs"],"all 2^32 event sets and all 2^32 kernel masks, all batches of notifications",
 "The inotify tests trigger some file operations under a few masks; the translation is a relation over all mask pairs.",
 ["watcher_inotify.go","event_inotify.go"],[("encode/decode","watcher_inotify.go: encode, decode"),("batch translation","watcher_inotify.go: inotify.transform")],
 None,["mask passed to inotify_add_watch; events sent to the dispatcher"])

prop("C10","Kernel notification buffers are parsed completely and within bounds",
 "Every record the kernel put in the buffer is turned into exactly one raw event, in order, carrying that record's watch descriptor, mask, cookie and its name without padding; no byte outside what the kernel wrote for well-formed input is interpreted, and an unreadable or short buffer yields no events.",
 ["inputs","fault_sequences"],"all buffer contents made of whole records, with and without names, and all read results",
 "Real kernel reads in tests give a few short buffers; record layouts, padding and batch sizes are unbounded inputs.",
 ["watcher_inotify.go"],[("record parser","watcher_inotify.go: inotify.read")],None,["list of raw events produced from a buffer"])

prop("C11","The inotify watch table mirrors the kernel and failures leave it unchanged",
 "After every request on the Linux backend that succeeds, the table maps the kernel's watch descriptor to exactly the requested path and event set, releasing a path removes every descriptor held for it and no other, and closing releases them all. A request with an unknown event, or one that the kernel refuses, returns an error and changes no entry of the table; every kernel or epoll/pipe descriptor opened during a failed initialisation is closed again.",
 ["histories","fault_sequences","inputs"],"all sequences of watch, rewatch, unwatch and close with every kernel answer, failures included",
 "Tests cannot make inotify_add_watch, epoll or pipe fail on demand, nor create stale descriptors for a live path at will.",
 ["watcher_inotify.go"],[("table","watcher_inotify.go: watch, Unwatch, Close, removeInotifyWatch"),("descriptors","watcher_inotify.go: lazyinit, epollinit, epollclose")],
 [("inotify.m","watch descriptor to path and requested set")],["system calls made; results of Watch/Unwatch/Close"])

prop("C12","Watched paths are canonical and the recursive suffix is recognised exactly",
 "A path argument is recursive if and only if it ends in three dots, which are then dropped; the rest is made absolute, every symbolic link in it (also chained, relative, or directly below the root) is resolved and the result is clean, so that registrations made through different spellings of one file meet. A path that cannot be resolved is reported as an error rather than watched, and cyclic links terminate with an error.",
 ["inputs","configurations"],"all path strings and all layouts of symbolic links, including cycles and files that do not exist",
 "Tests use five link layouts in one directory; the resolution is over all layouts and spellings.",
 ["util.go"],[("resolution","util.go: cleanpath, canonical"),("event joining","util.go: joinevents")],None,["path under which a registration is stored and events are reported"])

prop("C13","Shared state is only touched under its lock and no lock is held while blocking",
 "The registration tree and the Linux watch table are read only while their lock is held and changed only while it is held exclusively, on every path through every operation, and every lock is released again on every exit, including failures. No lock is held while an operation may wait for another goroutine, and sends to user channels happen only while the tree lock is held, so no event is sent to a channel after Stop for it returned.",
 ["schedules","fault_sequences"],"all interleavings of Watch, Stop, Close and event delivery, all failure exits",
 "A race detector run samples schedules; the discipline quantifies over every path of every operation.",
 ["tree_nonrecursive.go","tree_recursive.go","watcher_inotify.go"],[("tree lock","tree_nonrecursive.go: Watch, Stop, dispatch, internal; tree_recursive.go: Watch, Stop, dispatch"),("table lock","watcher_inotify.go: watch, lazyinit, loop, transform, Unwatch, Close")],
 None,["lock state at every access and exit"])

prop("C14","Directories that appear below a recursive watch become watched too",
 "With a backend that cannot watch recursively, when a directory is reported as created below a recursive registration, that directory and every directory found below it are put under watch with at least the events of the registration, without any further call by the user. When a directory is reported as removed, its entry and those below it are released; other paths are not affected.",
 ["histories","schedules"],"all registration trees, all directory layouts below the new directory, all events",
 "Tests create one directory level at a time on one fixture.",
 ["tree_nonrecursive.go","node.go"],[("auto-watch","tree_nonrecursive.go: internal, recFunc, watchrec"),("directory scan","node.go: node.AddDir")],
 None,["calls on the watcher backend after directory events"])

prop("C15","Event values are disjoint and print as exactly their component names",
 "The portable events, the internal marker bits and the raw Linux events accepted by the backend are pairwise disjoint bit sets, and the portable union is exactly the four portable events. An event value prints as the names of exactly those known events all of whose bits it contains, each once.",
 ["inputs"],"all 2^32 event values",
 "The printing test samples a few values and the constants are never compared with each other.",
 ["event.go","event_inotify.go"],[("names","event.go: Event.String, estr; event_inotify.go: osestr"),("constants","event.go, event_inotify.go const blocks")],None,["Event.String output; constant values"])

with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
print(len(P))
