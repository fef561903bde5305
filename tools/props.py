#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Safe write replaces a file atomically, whatever fails or crashes",
 "While a file is written through the safe-write helper, its final name shows at every instant, and after any process crash, either the complete previous content (or nothing, if there was none) or the complete new content, and success is reported only when the new content is in place. With the sync hook installed the same holds after a power loss that drops everything not synced. A reported failure leaves the previous content in place unless the very last rename itself reported failure after taking effect.",
 ["crash_points", "fault_sequences", "schedules", "inputs"],
 "every crash point, every failing create/write/sync/chmod/close/rename and short write, every writer kind (bytes, stream, whole tree), every interleaving with readers and other writers",
 "Tests inject a few single errors through mocks; no test crashes between steps, loses unsynced data, or reads the name concurrently.",
 ["fsutil/safe_write.go", "fsutil/open_random.go"],
 [("write to a temporary name, then rename", "fsutil/safe_write.go"), ("ordered pre/post hooks, sync hook", "fsutil/safe_write.go")],
 observe=["content at the final name through the simulated disk, before and after crash"])

prop("P02", "Safe write cleans up after failure and concurrent writers never mix",
 "A safe write that fails while its cleanup calls work leaves no temporary file or directory behind and no handle open, and it never deletes or overwrites a file it did not create, even when generated temporary names collide with existing ones. When several safe writes run at once, each temporary name belongs to one writer only and every final name ends up holding exactly one writer's complete content.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of several writers, every failing step, every collision of random names",
 "Collisions of 32-bit random names and interleavings of writers do not occur in tests; error tests cover single mocked steps.",
 ["fsutil/safe_write.go", "fsutil/open_random.go"],
 [("exclusive creation with retry on collision", "fsutil/open_random.go"), ("deferred removal of the temporary", "fsutil/safe_write.go")],
 observe=["directory listing after each operation", "open handles on the simulated disk"])

prop("P03", "A resumed download publishes only one complete version of the source",
 "Whatever sequence of interrupted, failed, crashed and retried downloads preceded it, the final name holds nothing or the byte-exact, complete content of one single version of the source, and success is reported only when that is so. An interruption keeps enough state that a retry continues from the bytes already stored when the source is unchanged, and a changed source, a wrong length or a failed verification is reported as an error or answered by starting over, never by mixing versions.",
 ["crash_points", "fault_sequences", "histories", "inputs"],
 "every point of failure in the source stream, in the part file, the version record and the rename; every change of the source between attempts; crash and restart anywhere",
 "Tests run a handful of two-attempt histories with one fault each and never crash between the part file and the version record.",
 ["fsutil/resumable.go", "fsutil/resumable_fs.go"],
 [("part file plus version record", "fsutil/resumable.go"), ("size and version checks before the final rename", "fsutil/resumable.go")],
 state=[("part file", "bytes stored so far", "next to the final name"), ("version record", "identity of the version the bytes belong to", "next to the part file")],
 observe=["final name, part file and record on the simulated disk; bytes requested from the source"])

prop("P04", "A resumed upload commits only one complete version of the source",
 "Whatever sequence of interrupted, failed, crashed and retried uploads to a file sink preceded it, a committed object is the byte-exact content of one version of the source that was pushed, and success is reported only after it is committed. A retry continues at the offset the sink reports when the source is unchanged and starts over when it is not.",
 ["crash_points", "fault_sequences", "histories", "inputs"],
 "every failing or short append, record write, rename and close; every change of the source between attempts; crash and restart anywhere",
 "Tests exercise fixed two-step histories; no test crashes inside an append or between the version record and the data.",
 ["fsutil/resumable.go", "fsutil/resumable_fs.go"],
 [("sink state with offset and version", "fsutil/resumable_fs.go"), ("commit by rename", "fsutil/resumable_fs.go")],
 observe=["committed file on the simulated disk, offsets read from the source"])

prop("P05", "A tree copy that reports success made a complete, exact copy",
 "When copying a tree, or selected paths of it, reports success, every file, directory and link that was to be copied exists at the destination with identical content and permissions, no matter which operations failed or returned short counts on the way. Any failed read, write, close, listing or attribute change is reported as an error, the source is never modified, and every handle opened is closed.",
 ["fault_sequences", "inputs", "crash_points"],
 "every position of a failing or short operation on source and destination, every tree shape",
 "Mock tests fail one chosen call each; they never fail closes or deliver short writes at every position.",
 ["fsutil/copy_fs.go", "fsutil/safe_write.go"],
 [("per-entry copy with error returns", "fsutil/copy_fs.go")],
 observe=["source and destination trees on simulated disks, open-handle count"])

prop("P06", "Concatenated readers deliver exactly the concatenation or an error",
 "Reading a concatenation of sources sequentially, at offsets, after seeks, or from several threads at once yields exactly the bytes of the concatenation at that position, whatever short reads, early ends or errors the sources produce. A source that ends before or errors within its declared size is reported as an error and never as a clean end of data, an error at one point does not corrupt later reads, and closing closes every source once and reports their errors.",
 ["fault_sequences", "schedules", "inputs", "histories"],
 "every split into sources, every short read, early EOF or transient error position, every sequence of reads and seeks, every interleaving of positioned reads",
 "Fuzzing covers well-behaved sources and single-threaded use; mis-sized sources are tested at one or two positions only.",
 ["stream/multi_read_at_closer.go", "stream/multi_read_closer.go"],
 [("offset arithmetic with declared sizes", "stream/multi_read_at_closer.go"), ("unexpected-EOF detection", "stream/multi_read_at_closer.go")],
 observe=["bytes and errors of each call against the reference concatenation"])

prop("P07", "Random access over sequential streams returns exact bytes under faults",
 "Random and sequential reads through an adapter that serves them from sequentially opened streams return exactly the bytes of the object at the requested offset or an error, whichever opens fail, whichever streams break, end early or return short, and whatever order the reads come in. After an error the next read continues at the exact position, every stream opened is closed exactly once, at most one is open at a time, and nothing is opened or read after close.",
 ["fault_sequences", "histories", "schedules"],
 "every history of reads and seeks, every failing open/read/close position, concurrent use of the positioned and sequential methods",
 "Tests use fixed sequences with at most one failure; retry after partial delivery and concurrent close are not combined.",
 ["stream/seq_reader_at.go"],
 [("stream reuse on contiguous reads, reopen otherwise", "stream/seq_reader_at.go")],
 observe=["bytes returned, streams opened/closed at the simulated source"])

prop("P08", "Chunked objects round-trip exactly or report an error",
 "An object uploaded in chunks and read back through the chunk-reading side yields exactly the original bytes for every read, and the upload reports success only if every chunk was stored completely. Interrupted uploads resume at a chunk boundary without losing or repeating bytes, and a truncated, missing, failing or misbehaving chunk response is reported as an error, never as shorter or different data.",
 ["fault_sequences", "histories", "inputs", "crash_points"],
 "every chunk size and object size, every failing or truncated request and response, every interruption point, every read pattern",
 "Tests cover complete transfers and one failing status each over a real local server; truncated bodies at arbitrary positions are not reached.",
 ["stream/fileserver/chunk.go", "stream/fileserver/client.go"],
 [("chunk naming and sizing", "stream/fileserver/chunk.go"), ("status and length checks", "stream/fileserver/client.go")],
 observe=["objects held by the simulated server, bytes returned to the reader"])

prop("P09", "A cancelled reader stops reading and keeps reporting cancellation",
 "Once cancellation has been observed by a cancellable reader, no further byte is taken from the underlying source and every later read reports the same cancellation error, at whatever instant relative to the reads the cancellation arrives. Until then it passes bytes and errors through unchanged and in order, and an earlier error of the source stays the reported one.",
 ["schedules", "histories", "fault_sequences"],
 "every instant of cancellation relative to reads, every source error and short read",
 "Tests cancel between reads on one goroutine only.",
 ["stream/cancellable.go"],
 [("context check before each read", "stream/cancellable.go"), ("sticky first error", "stream/cancellable.go")],
 observe=["reads seen by the simulated source, results returned"])

prop("P10", "Remote range reads never mix versions of the object",
 "All bytes a remote range reader ever returns belong to the one version of the object it first pinned, or to the version the caller declared beforehand, however the object changes on the server, is replaced with same-sized content, or redirects elsewhere, and however many reads run concurrently. A response of another version is reported as a changed object and no byte of it is returned.",
 ["schedules", "fault_sequences", "histories"],
 "every instant of change on the server relative to concurrent first and later requests, with and without validators, conditional-request support or known sizes",
 "Tests change the object once between two sequential requests; racing first requests that pin are not scheduled.",
 ["stream/httprange/httprange.go", "stream/httprange/reader_at.go", "stream/httprange/probe.go"],
 [("first response pins, later ones are verified", "stream/httprange/httprange.go")],
 state=[("pinned identity", "validator, size and origin of the version in use", "stream/httprange/httprange.go")],
 observe=["bytes returned against every version the simulated server ever served"])

prop("P11", "Remote range reads return exactly the requested bytes or an error",
 "A successful remote read returns exactly the requested range of the object, with end-of-data reported only at the object's true end, whatever the server or network does: truncated or oversized bodies, ranges other than asked for, ignored ranges, re-encoded bodies, unsatisfiable ranges, error statuses, redirects, or broken connections. Every such misbehaviour becomes an error, every response body is closed, and a failure does not disturb later reads.",
 ["fault_sequences", "inputs", "histories", "schedules"],
 "every offset/length, every kind of misbehaving response at every request, retries, concurrent readers",
 "Tests check one misbehaviour at a time against fixed ranges.",
 ["stream/httprange/reader_at.go", "stream/httprange/content_range.go", "stream/httprange/probe.go", "stream/httprange/range.go"],
 [("strict checks of status, range and length", "stream/httprange/reader_at.go")],
 observe=["bytes and errors returned, bodies left open at the simulated server"])

prop("P12", "The sequential remote stream uses one request and always lets go",
 "A sequential view over a remote range issues at most one streaming request, serves in-order reads from it and out-of-order or post-failure reads correctly by other means, and never returns bytes from the wrong position. Closing it, or cancelling its session, from any thread at any instant ends blocked reads promptly, closes the response body exactly once, leaves no background activity, and later reads fail instead of returning data.",
 ["schedules", "fault_sequences", "histories"],
 "every interleaving of sequential, positioned and closing calls, stalls and connection failures at every byte",
 "Tests race Close with one read on real goroutines and cannot place the close at chosen points.",
 ["stream/httprange/stream.go", "stream/httprange/range.go"],
 [("single streaming lane with dead flag and detached teardown", "stream/httprange/stream.go")],
 observe=["requests and bodies at the simulated server, task states"])

prop("P13", "Errors of the remote reader never disclose URL credentials",
 "No error a remote reader returns, nor any error reachable by unwrapping it, discloses the password, user information or secret query values of the URLs involved as an HTTP client reports them in its URL errors, whichever request fails, at whatever stage, including after redirects that carry their own credentials.",
 ["fault_sequences", "inputs"],
 "every failure kind at every request, transport errors that embed the full URL, redirect targets with credentials",
 "Tests redact a few fixed errors; they do not drive every failure path with transport errors that quote the URL.",
 ["stream/httprange/redact.go", "stream/httprange/errors.go"],
 [("redaction of URLs before they enter an error", "stream/httprange/redact.go")],
 observe=["error text and unwrapped chain of every failed call"])

prop("P14", "In-memory tree operations are atomic and behave like one file system",
 "Concurrent creates, removals, renames, links, listings, attribute changes and lookups on one in-memory tree take effect as if executed one at a time in some order consistent with their timing, each with the result a plain POSIX-like file system would give in that order. The tree always stays a tree: no entry is lost or duplicated, no directory becomes unreachable or its own descendant, and no call deadlocks or panics.",
 ["schedules", "histories", "inputs"],
 "every interleaving of every mix of operations from several threads",
 "The race tests run for half a second on whatever schedule the machine gives and only look for data races.",
 ["vroot/synthfs/tree.go", "vroot/synthfs/rename.go", "vroot/synthfs/remove.go", "vroot/synthfs/open.go", "vroot/synthfs/link.go", "vroot/synthfs/mkdir.go", "vroot/synthfs/chmod.go", "vroot/memfs/memfs.go"],
 [("one tree lock around each operation", "vroot/synthfs/tree.go")],
 observe=["results of every call, checked for linearizability"])

prop("P15", "In-memory file content operations are atomic per call",
 "Concurrent reads, positioned writes, appends, truncations and size queries through any handles of one in-memory file take effect one at a time: no read returns a mixture that no order of whole writes explains, no appended record is lost or overwritten, and growth fills with zeros. Handles keep independent positions, an unlinked file stays readable through open handles, and a closed handle refuses every operation without affecting others.",
 ["schedules", "histories", "inputs"],
 "every interleaving of content operations over several handles, including append handles and handles on removed files",
 "No test appends from two handles concurrently or checks histories for atomicity.",
 ["vroot/synthfs/view_mem_buf.go", "vroot/synthfs/view_mem.go", "vroot/synthfs/handle.go"],
 [("per-buffer lock", "vroot/synthfs/view_mem_buf.go"), ("per-handle lock", "vroot/synthfs/handle.go")],
 observe=["results of every call, checked for linearizability"])

prop("P16", "A rooted view never reaches outside its directory",
 "No operation through a rooted or prefixed view ever reads, creates, changes or removes anything outside the directory the view is confined to, however paths spell it, wherever symbolic links point, and while other threads concurrently rename directories or swap directories for links. Attempts that would leave are refused with the escape error, and the same holds for views opened from views.",
 ["schedules", "inputs", "histories"],
 "every path spelling and link arrangement, every interleaving with renames and link swaps done from outside the view, nested views",
 "Tests use static trees; no test swaps a component between resolution and use under a chosen schedule.",
 ["vroot/synthfs/tree.go", "vroot/synthfs/root.go", "vroot/osfs/root.go", "vroot/pathprefix.go", "vroot-adapter/overlayfs/resolve.go"],
 [("resolution inside the lock with boundary check", "vroot/synthfs/tree.go"), ("lexical locality check", "vroot/pathprefix.go")],
 observe=["secret content and tree outside the view, before and after"])

prop("P17", "The merged view behaves like one plain file system and never alters lowers",
 "For every history of operations, restarts, nested views and handles, the overlay's visible tree, contents, listings and call results equal those of one ordinary file system that started with the merged content of the layers, except that renaming a directory a lower contributes to is refused as cross-device. No operation ever changes anything in a lower layer, and what was removed or replaced never resurfaces, including after recreation, renaming or reopening the overlay over the same layers.",
 ["histories", "inputs", "configurations"],
 "every sequence of operations over every arrangement of layers, with close-and-reopen as one more operation",
 "Tests check fixed sequences of a few steps; masking errors surface only in specific multi-step histories.",
 ["vroot-adapter/overlayfs/state.go", "vroot-adapter/overlayfs/merged.go", "vroot-adapter/overlayfs/rename.go", "vroot-adapter/overlayfs/remove.go", "vroot-adapter/overlayfs/mkdir.go", "vroot-adapter/overlayfs/open.go", "vroot-adapter/overlayfs/write.go", "vroot-adapter/overlayfs/link.go", "vroot-adapter/overlayfs/copyup.go"],
 [("whiteouts and opaque marks", "vroot-adapter/overlayfs/state.go"), ("copy-up gate", "vroot-adapter/overlayfs/write.go")],
 state=[("masking marks", "names and directories hidden from deeper layers", "vroot-adapter/overlayfs/state.go")],
 observe=["merged tree and call results against a reference file system, lower layers byte for byte"])

prop("P18", "The overlay is crash-consistent: each operation is all or nothing",
 "After a process crash at any instant and a reopen over the same layers, the merged view equals the state just before or just after the interrupted operation (for recursive creation or removal, a state between them), every operation acknowledged before the crash is in effect, and nothing removed has resurfaced. Reopening succeeds and leaves no staging leftovers.",
 ["crash_points", "histories"],
 "a crash before or after every single disk and metadata operation of every operation, in every history",
 "No test crashes the overlay; store-failure tests stop one chosen setter.",
 ["vroot-adapter/overlayfs/rename.go", "vroot-adapter/overlayfs/remove.go", "vroot-adapter/overlayfs/mkdir.go", "vroot-adapter/overlayfs/open.go", "vroot-adapter/overlayfs/copyup.go", "vroot-adapter/overlayfs/datasource.go", "vroot-adapter/overlayfs/state.go"],
 [("masking recorded before content is dropped, cleared after content is placed", "vroot-adapter/overlayfs/remove.go"), ("staging area swept on open", "vroot-adapter/overlayfs/datasource.go")],
 observe=["merged tree after reopen against the reference before/after states"])

prop("P19", "A failed overlay operation never corrupts or resurrects anything",
 "When any disk or metadata call underneath fails, the overlay operation that hit it reports an error or completes correctly; the merged view then equals the state before or after that operation (between them for recursive ones), no removed or replaced content resurfaces, no lower is changed, and later operations behave according to what is visible. The view after reopening is the same as before closing.",
 ["fault_sequences", "histories"],
 "every failing call (create, write, rename, remove, listing, mask update) inside every operation of every history",
 "Tests fail a few chosen calls in fixed scenarios.",
 ["vroot-adapter/overlayfs/state.go", "vroot-adapter/overlayfs/rename.go", "vroot-adapter/overlayfs/remove.go", "vroot-adapter/overlayfs/mkdir.go", "vroot-adapter/overlayfs/open.go", "vroot-adapter/overlayfs/link.go", "vroot-adapter/overlayfs/copyup.go", "vroot-adapter/overlayfs/merged.go"],
 [("store committed before memory", "vroot-adapter/overlayfs/state.go"), ("fail-closed lookups on layer errors", "vroot-adapter/overlayfs/merged.go")],
 observe=["merged tree after each failed call and after reopen"])

prop("P20", "Copy-up publishes a complete, faithful copy or nothing",
 "When a file from a lower layer is first modified, the top layer gets a copy with identical content, permissions, modification time and link target before the modification applies; at no instant, under concurrent access, failure or crash, does the merged name show a partial copy or lose the original content. Concurrent first modifications copy it once and none is lost.",
 ["schedules", "fault_sequences", "crash_points", "inputs"],
 "every interleaving of several first modifications and readers, every failing or short read/write/rename/close, a crash anywhere in the copy",
 "Concurrency tests hit whatever schedule occurs; no test crashes or fails each step of a copy.",
 ["vroot-adapter/overlayfs/copyup.go", "vroot-adapter/overlayfs/write.go"],
 [("copy into staging, attributes, rename", "vroot-adapter/overlayfs/copyup.go"), ("write lock around lookup and copy", "vroot-adapter/overlayfs/write.go")],
 observe=["merged content and attributes during and after the operation"])

prop("P21", "Concurrent overlay operations take effect one at a time",
 "Operations issued on one overlay from several threads, through the overlay or nested views of it, have results and final state explained by some one-at-a-time order consistent with their timing, and no call deadlocks or panics.",
 ["schedules", "histories"],
 "every interleaving of every mix of lookups, listings, creates, writes, removals, renames, links and attribute changes",
 "The concurrency tests assert a few invariants on uncontrolled schedules.",
 ["vroot-adapter/overlayfs/state.go", "vroot-adapter/overlayfs/write.go", "vroot-adapter/overlayfs/fs.go", "vroot-adapter/overlayfs/file.go"],
 [("one state lock held across a whole operation", "vroot-adapter/overlayfs/state.go")],
 observe=["results of every call, checked for linearizability against a reference file system"])

prop("P22", "Persistent masking survives crashes, power loss and I/O errors",
 "Every masking change the built-in metadata store acknowledged is present, and every change it never acknowledged is present entirely or not at all, after a process crash, after a power loss at any instant that drops or tears unsynced file writes (on a file system whose directory changes are durable), and after any I/O error; the store then opens and works again. It never reports marks nobody set.",
 ["crash_points", "fault_sequences", "histories"],
 "a crash at every file operation of every update, power loss keeping any subset of unsynced writes, failing/short/torn writes, failing syncs and full disks",
 "Tests never lose unsynced data nor crash inside an update; the store's own virtual file layer is only tested fault-free.",
 ["vroot-adapter/overlayfs/metadatastore_sqlite.go", "vroot-adapter/overlayfs/internal/sqlvfs/sqlvfs.go"],
 [("rollback journal through a file layer over the layer's own file system", "vroot-adapter/overlayfs/internal/sqlvfs/sqlvfs.go"), ("one transaction per change", "vroot-adapter/overlayfs/metadatastore_sqlite.go")],
 observe=["marks loaded after reopen against the acknowledged history"])

prop("P23", "With open-file protection on, an open file is never removed",
 "When the overlay is asked to protect open files, no removal or recursive removal takes away a name that has an open handle, at any interleaving of opens, closes and removals, and the refusal leaves everything in place. Once the last handle is closed the removal succeeds, and handle accounting never drifts however often handles are closed or opens fail.",
 ["schedules", "histories", "fault_sequences"],
 "every interleaving of opens, double closes, failing opens and removals",
 "Tests check one open handle and one removal sequentially.",
 ["vroot-adapter/overlayfs/file.go", "vroot-adapter/overlayfs/remove.go"],
 [("handle counting per resolved name", "vroot-adapter/overlayfs/file.go")],
 observe=["removal results and visible tree"])

prop("P24", "Read-only views never modify what they wrap",
 "Whatever sequence of calls, from however many threads, is made through a read-only view, a handle obtained from it, or a bridge to the standard read-only interface, nothing in the wrapped file system is created, changed or removed, every mutating call is refused with an error, and reads return exactly what the wrapped file system returns.",
 ["histories", "schedules", "inputs"],
 "every method with every flag combination, nested views, handles used concurrently",
 "Tests call each mutator once; flag combinations and handle methods are sampled.",
 ["vroot/readonly.go", "vroot/iofs_to.go", "vroot/iofs_from.go", "vroot/internal/openflag"],
 [("every mutator refused, write flags rejected", "vroot/readonly.go")],
 observe=["calls arriving at a recording file system"])

prop("P25", "A directory walk visits everything once, reports every error, and ends",
 "A walk calls back for every entry that exists throughout it exactly once per reachable path, reports every entry it could not read to the callback, and continues with the remaining entries when the callback tolerates the error. It terminates on any arrangement of links including cycles, and concurrent removal or failing calls on one entry never silently skip another.",
 ["fault_sequences", "schedules", "inputs", "configurations"],
 "every failing listing/stat position, every interleaving with concurrent creations and removals, every link arrangement",
 "Tests walk static trees and fail nothing inside the walk.",
 ["vroot/walk.go", "vroot/walk_unix.go"],
 [("per-branch visited set and link budget", "vroot/walk.go")],
 observe=["callback sequence against the reference tree"])

prop("P26", "Archive views return exactly the archived bytes or an error",
 "Opening a file system over a tar archive and reading any entry, sequentially, at offsets or concurrently, returns exactly the archived content, or an error when the underlying storage fails, returns short, or is truncated. Construction over failing or truncated storage fails rather than presenting a different tree or different content, and concurrent handles never influence each other.",
 ["fault_sequences", "schedules", "inputs"],
 "every failing or short positioned read during construction and use, truncation at every byte, sparse and plain entries, several concurrent handles",
 "Tests read intact archives; no fault is injected into the storage.",
 ["tarfs/fs.go", "tarfs/headers.go", "tarfs/reader.go", "tarfs/entfile.go", "tarfs/entdir.go", "tarfs/copied_go_std.go"],
 [("header scan, sparse map reconstruction", "tarfs/headers.go"), ("section readers per handle", "tarfs/reader.go")],
 observe=["tree and bytes against the archive as written"])

prop("P27", "The SFTP file system never turns connection faults into wrong results",
 "Over a connection or server that fails, refuses, returns short or drops at any request, every operation of the SFTP-backed file system either has the effect and result a plain file system would give or reports an error, success is never reported for an effect that did not happen, and nothing outside the base directory is touched. Recursive removal removes only below the named entry and never follows links.",
 ["fault_sequences", "histories", "inputs"],
 "every failing request position in every operation of every history, connection loss anywhere",
 "The acceptance suite runs against a healthy local server.",
 ["vroot-adapter/sftpfs/sftpfs.go"],
 [("path join under base, error mapping", "vroot-adapter/sftpfs/sftpfs.go")],
 observe=["remote tree on the simulated server against the reference"])

prop("P28", "Advisory file locks exclude and survive interruption",
 "Among holders that take the lock, an exclusive lock excludes every other holder and shared locks exclude only exclusive ones, for every interleaving of lock, convert and unlock, and a lock call interrupted by a signal is retried instead of failing or returning without the lock. Unlock or close releases it so that a waiter proceeds.",
 ["schedules", "fault_sequences"],
 "every interleaving of lock, conversion, unlock and close, interruption at every wait",
 "Tests take uncontended locks.",
 ["vroot/osfs/lock_unix.go", "fsutil/lock.go"],
 [("retry on interruption", "vroot/osfs/lock_unix.go")],
 observe=["holders recorded by the simulated lock system call"],
 hook="the lock system call is replaced in the instrumented copy")

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
print(len(P))
