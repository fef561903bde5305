From 3aea8243828254ae601664757634e9620fd54a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 01/42] fix: synthfs: validate Rename like rename(2) and ignore
 a missing parent in RemoveAll

Renaming a directory below itself cut its subtree off the tree, a directory
could replace a file and the other way round, and renaming a non-empty
directory to itself failed. RemoveAll of a path whose parent is missing
failed instead of succeeding.
---
 vroot/synthfs/remove.go |  5 +++++
 vroot/synthfs/rename.go | 26 ++++++++++++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/vroot/synthfs/remove.go b/vroot/synthfs/remove.go
index 328749f..47d51ea 100644
--- a/vroot/synthfs/remove.go
+++ b/vroot/synthfs/remove.go
@@ -1,6 +1,7 @@
 package synthfs
 
 import (
+	"errors"
 	"io/fs"
 	"syscall"
 
@@ -52,6 +53,10 @@ func (r *Root) removeAllLocked(name string) error {
 	}
 	parent, base, err := r.st.resolveParent(r.boundary, r.boundary, name, "RemoveAll")
 	if err != nil {
+		if errors.Is(err, fs.ErrNotExist) {
+			// A missing parent is a missing path as well.
+			return nil
+		}
 		return err
 	}
 	target := parent.lookup(base)
diff --git a/vroot/synthfs/rename.go b/vroot/synthfs/rename.go
index cfc8774..5b68752 100644
--- a/vroot/synthfs/rename.go
+++ b/vroot/synthfs/rename.go
@@ -3,6 +3,7 @@ package synthfs
 import (
 	"errors"
 	"io/fs"
+	"syscall"
 
 	"github.com/ngicks/go-fsys-helper/fsutil"
 	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
@@ -25,7 +26,21 @@ func (r *Root) Rename(oldname, newname string) error {
 	if err != nil {
 		return fsutil.WrapLinkErr("rename", oldname, newname, errors.Unwrap(err))
 	}
+	targetDir, targetIsDir := target.(*dir)
+	if targetIsDir && isWithin(newParent, targetDir) {
+		// Moving a directory below itself would cut its subtree off the tree.
+		return fsutil.WrapLinkErr("rename", oldname, newname, syscall.EINVAL)
+	}
 	if existing := newParent.lookup(newBase); existing != nil {
+		if existing == target {
+			return nil
+		}
+		switch _, ok := existing.(*dir); {
+		case ok && !targetIsDir:
+			return fsutil.WrapLinkErr("rename", oldname, newname, syscall.EISDIR)
+		case !ok && targetIsDir:
+			return fsutil.WrapLinkErr("rename", oldname, newname, syscall.ENOTDIR)
+		}
 		// POSIX rename replaces; emulate that for files. Refuse to overwrite
 		// a non-empty directory to keep the operation safe under any platform.
 		if d, ok := existing.(*dir); ok && d.ordered.Len() > 0 {
@@ -45,3 +60,14 @@ func (r *Root) Rename(oldname, newname string) error {
 	newParent.addEntry(newBase, target)
 	return nil
 }
+
+// isWithin reports whether d is ancestor itself or lies below it.
+// Caller must hold state.mu.
+func isWithin(d, ancestor *dir) bool {
+	for ; d != nil; d = d.parent {
+		if d == ancestor {
+			return true
+		}
+	}
+	return false
+}
-- 
2.43.0


From 9975addf7427b56ac2eebf025a0206960466342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 02/42] fix: synthfs: creating in a removed directory through a
 sub-root succeeded and was lost

---
 vroot/synthfs/node.go   | 8 ++++++--
 vroot/synthfs/remove.go | 3 +++
 vroot/synthfs/tree.go   | 5 +++++
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/vroot/synthfs/node.go b/vroot/synthfs/node.go
index 94f088e..eb64c92 100644
--- a/vroot/synthfs/node.go
+++ b/vroot/synthfs/node.go
@@ -106,7 +106,7 @@ func (d *dir) addEntry(name string, n node) {
 }
 
 // removeEntry unlinks the entry stored under name and returns it. Returns nil
-// if no such entry. Caller must hold state.mu (write lock).
+// if no such entry. An unlinked dir loses its parent, see [state.resolveParent]. Caller must hold state.mu (write lock).
 func (d *dir) removeEntry(name string) node {
 	e, ok := d.index[name]
 	if !ok {
@@ -114,7 +114,11 @@ func (d *dir) removeEntry(name string) node {
 	}
 	d.ordered.Remove(e)
 	delete(d.index, name)
-	return e.Value.(node)
+	n := e.Value.(node)
+	if removed, ok := n.(*dir); ok {
+		removed.parent = nil
+	}
+	return n
 }
 
 // entriesSnapshot returns the entries in insertion order. Caller must hold
diff --git a/vroot/synthfs/remove.go b/vroot/synthfs/remove.go
index 47d51ea..affb7b9 100644
--- a/vroot/synthfs/remove.go
+++ b/vroot/synthfs/remove.go
@@ -76,6 +76,9 @@ func (r *Root) removeSubtree(n node) {
 	case *dir:
 		for _, child := range nd.entriesSnapshot() {
 			r.removeSubtree(child)
+			if d, ok := child.(*dir); ok {
+				d.parent = nil
+			}
 		}
 		nd.ordered.Init()
 		for k := range nd.index {
diff --git a/vroot/synthfs/tree.go b/vroot/synthfs/tree.go
index d979a63..6595fc8 100644
--- a/vroot/synthfs/tree.go
+++ b/vroot/synthfs/tree.go
@@ -160,6 +160,11 @@ func (s *state) resolveParent(
 	if !ok {
 		return nil, "", fsutil.WrapPathErr(op, name, syscall.ENOTDIR)
 	}
+	if pd.parent == nil && pd != s.root {
+		// A Root may outlive the dir it is confined to. Nothing can be created
+		// in a removed dir; it would be lost.
+		return nil, "", fsutil.WrapPathErr(op, name, fs.ErrNotExist)
+	}
 	return pd, base, nil
 }
 
-- 
2.43.0


From 9a41513de671a470a91b2c2409a98b242938bd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 03/42] fix: synthfs: Stat, Chmod, Chown, Sync and Seek
 succeeded on closed handles

---
 vroot/synthfs/handle.go     |  9 +++++++++
 vroot/synthfs/handle_dir.go | 26 +++++++++++++++++++++++++-
 2 files changed, 34 insertions(+), 1 deletion(-)

diff --git a/vroot/synthfs/handle.go b/vroot/synthfs/handle.go
index a5a2e68..a12d32a 100644
--- a/vroot/synthfs/handle.go
+++ b/vroot/synthfs/handle.go
@@ -138,6 +138,9 @@ func (h *fileHandle) Sync() error {
 }
 
 func (h *fileHandle) Stat() (fs.FileInfo, error) {
+	if h.isClosed() {
+		return nil, fsutil.WrapPathErr("stat", h.name, fs.ErrClosed)
+	}
 	h.st.mu.RLock()
 	defer h.st.mu.RUnlock()
 	s := h.node.toStat()
@@ -150,6 +153,9 @@ func (h *fileHandle) Stat() (fs.FileInfo, error) {
 }
 
 func (h *fileHandle) Chmod(mode fs.FileMode) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chmod", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	chmodApply(&h.st.opt, &h.node.metadata, mode)
@@ -157,6 +163,9 @@ func (h *fileHandle) Chmod(mode fs.FileMode) error {
 }
 
 func (h *fileHandle) Chown(uid, gid int) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chown", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	h.node.uid = uid
diff --git a/vroot/synthfs/handle_dir.go b/vroot/synthfs/handle_dir.go
index cb8da4a..4fd038c 100644
--- a/vroot/synthfs/handle_dir.go
+++ b/vroot/synthfs/handle_dir.go
@@ -29,7 +29,13 @@ var _ vroot.File = (*dirHandle)(nil)
 
 func (h *dirHandle) Name() string { return h.name }
 func (h *dirHandle) Fd() uintptr  { return ^uintptr(0) }
-func (h *dirHandle) Sync() error  { return nil }
+
+func (h *dirHandle) Sync() error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("sync", h.name, fs.ErrClosed)
+	}
+	return nil
+}
 
 func (h *dirHandle) Close() error {
 	h.mu.Lock()
@@ -46,7 +52,16 @@ func (h *dirHandle) Close() error {
 	return nil
 }
 
+func (h *dirHandle) isClosed() bool {
+	h.mu.Lock()
+	defer h.mu.Unlock()
+	return h.closed
+}
+
 func (h *dirHandle) Stat() (fs.FileInfo, error) {
+	if h.isClosed() {
+		return nil, fsutil.WrapPathErr("stat", h.name, fs.ErrClosed)
+	}
 	h.st.mu.RLock()
 	defer h.st.mu.RUnlock()
 	return h.node.toStat(), nil
@@ -81,6 +96,9 @@ func (h *dirHandle) Truncate(int64) error {
 func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 	h.mu.Lock()
 	defer h.mu.Unlock()
+	if h.closed {
+		return 0, fsutil.WrapPathErr("seek", h.name, fs.ErrClosed)
+	}
 	switch whence {
 	case io.SeekStart:
 		if offset < 0 {
@@ -185,6 +203,9 @@ func (h *dirHandle) Readdirnames(n int) ([]string, error) {
 }
 
 func (h *dirHandle) Chmod(mode fs.FileMode) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chmod", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	chmodApply(&h.st.opt, &h.node.metadata, mode)
@@ -192,6 +213,9 @@ func (h *dirHandle) Chmod(mode fs.FileMode) error {
 }
 
 func (h *dirHandle) Chown(uid, gid int) error {
+	if h.isClosed() {
+		return fsutil.WrapPathErr("chown", h.name, fs.ErrClosed)
+	}
 	h.st.mu.Lock()
 	defer h.st.mu.Unlock()
 	h.node.uid = uid
-- 
2.43.0


From af5ad49be576cee3dc1f0c7fe0a978ec195c3fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:34 +0000
Subject: [PATCH 04/42] fix: synthfs: directory iteration skipped entries and
 raced, concurrent appends overwrote each other

---
 vroot/synthfs/handle_dir.go   | 61 +++++++++++++++++++++++------------
 vroot/synthfs/view_mem_buf.go | 26 ++++++++++++++-
 2 files changed, 65 insertions(+), 22 deletions(-)

diff --git a/vroot/synthfs/handle_dir.go b/vroot/synthfs/handle_dir.go
index 4fd038c..6067b68 100644
--- a/vroot/synthfs/handle_dir.go
+++ b/vroot/synthfs/handle_dir.go
@@ -22,7 +22,11 @@ type dirHandle struct {
 
 	mu     sync.Mutex
 	closed bool
-	cursor int
+	// entries is what the dir contained when the iteration started, nil before
+	// that. Iterating over the live dir would skip entries when others are
+	// removed between two reads.
+	entries []stat
+	cursor  int
 }
 
 var _ vroot.File = (*dirHandle)(nil)
@@ -108,7 +112,7 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 				fmt.Errorf("negative offset %d: %w", offset, fs.ErrInvalid),
 			)
 		}
-		h.cursor = 0
+		h.entries, h.cursor = nil, 0
 	case io.SeekCurrent:
 		if offset != 0 {
 			return 0, fsutil.WrapPathErr("seek", h.name, fs.ErrInvalid)
@@ -121,9 +125,7 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 				fmt.Errorf("positive offset %d: %w", offset, fs.ErrInvalid),
 			)
 		}
-		h.st.mu.RLock()
-		h.cursor = h.node.ordered.Len()
-		h.st.mu.RUnlock()
+		h.entries, h.cursor = []stat{}, 0
 	default:
 		return 0, fsutil.WrapPathErr(
 			"seek",
@@ -135,31 +137,48 @@ func (h *dirHandle) Seek(offset int64, whence int) (int64, error) {
 }
 
 // readEntries advances the cursor by up to n entries; n<=0 means "until end."
-// Caller holds h.mu; the returned snapshot is a shallow copy safe to use
-// outside the lock.
-func (h *dirHandle) readEntries(n int) ([]node, error) {
+// Caller holds h.mu.
+func (h *dirHandle) readEntries(n int) ([]stat, error) {
 	if h.closed {
 		return nil, fsutil.WrapPathErr("readdir", h.name, fs.ErrClosed)
 	}
-	h.st.mu.RLock()
-	defer h.st.mu.RUnlock()
-	all := h.node.entriesSnapshot()
-	if h.cursor >= len(all) {
+	if h.entries == nil {
+		h.entries = h.snapshot()
+	}
+	if h.cursor >= len(h.entries) {
 		if n <= 0 {
 			return nil, nil
 		}
 		return nil, io.EOF
 	}
-	end := len(all)
+	end := len(h.entries)
 	if n > 0 && h.cursor+n < end {
 		end = h.cursor + n
 	}
-	out := make([]node, end-h.cursor)
-	copy(out, all[h.cursor:end])
+	out := h.entries[h.cursor:end]
 	h.cursor = end
 	return out, nil
 }
 
+// snapshot returns the stats of all entries as of one moment. Node metadata
+// must not be read outside of the lock.
+func (h *dirHandle) snapshot() []stat {
+	h.st.mu.RLock()
+	defer h.st.mu.RUnlock()
+	all := h.node.entriesSnapshot()
+	out := make([]stat, 0, len(all))
+	for _, nd := range all {
+		s := nd.meta().toStat()
+		if f, ok := nd.(*file); ok {
+			if live, err := statFromFileView(&f.metadata, f.view); err == nil {
+				s = live
+			}
+		}
+		out = append(out, s)
+	}
+	return out
+}
+
 func (h *dirHandle) ReadDir(n int) ([]fs.DirEntry, error) {
 	h.mu.Lock()
 	defer h.mu.Unlock()
@@ -168,8 +187,8 @@ func (h *dirHandle) ReadDir(n int) ([]fs.DirEntry, error) {
 		return nil, err
 	}
 	out := make([]fs.DirEntry, 0, len(entries))
-	for _, nd := range entries {
-		out = append(out, fs.FileInfoToDirEntry(nd.meta().toStat()))
+	for _, s := range entries {
+		out = append(out, fs.FileInfoToDirEntry(s))
 	}
 	return out, nil
 }
@@ -182,8 +201,8 @@ func (h *dirHandle) Readdir(n int) ([]fs.FileInfo, error) {
 		return nil, err
 	}
 	out := make([]fs.FileInfo, 0, len(entries))
-	for _, nd := range entries {
-		out = append(out, nd.meta().toStat())
+	for _, s := range entries {
+		out = append(out, s)
 	}
 	return out, nil
 }
@@ -196,8 +215,8 @@ func (h *dirHandle) Readdirnames(n int) ([]string, error) {
 		return nil, err
 	}
 	out := make([]string, 0, len(entries))
-	for _, nd := range entries {
-		out = append(out, filepath.Base(nd.meta().name))
+	for _, s := range entries {
+		out = append(out, filepath.Base(s.name))
 	}
 	return out, nil
 }
diff --git a/vroot/synthfs/view_mem_buf.go b/vroot/synthfs/view_mem_buf.go
index 1a2866b..ab65a3b 100644
--- a/vroot/synthfs/view_mem_buf.go
+++ b/vroot/synthfs/view_mem_buf.go
@@ -79,6 +79,25 @@ func (b *memBuf) writeAt(p []byte, off int64) (int, error) {
 	}
 	b.mu.Lock()
 	defer b.mu.Unlock()
+	return b.writeLocked(p, off)
+}
+
+// append writes p at the end and returns the offset past the written bytes.
+// Finding the end and writing there is one step, concurrent appends must not
+// overwrite each other.
+func (b *memBuf) append(p []byte) (n int, end int64, err error) {
+	b.mu.Lock()
+	defer b.mu.Unlock()
+	end = int64(len(b.content))
+	if len(p) == 0 {
+		return 0, end, nil
+	}
+	n, err = b.writeLocked(p, end)
+	return n, end + int64(n), err
+}
+
+// writeLocked writes non-empty p at off. Caller holds b.mu (write).
+func (b *memBuf) writeLocked(p []byte, off int64) (int, error) {
 	end := int(off) + len(p)
 	if end > len(b.content) {
 		b.grow(end - len(b.content))
@@ -197,7 +216,12 @@ func (h *memHandle) Write(p []byte) (int, error) {
 	h.mu.Lock()
 	defer h.mu.Unlock()
 	if h.flag&os.O_APPEND != 0 {
-		h.off = int64(h.buf.length())
+		n, end, err := h.buf.append(p)
+		h.off = end
+		if err != nil {
+			return n, fsutil.WrapPathErr("write", h.name, err)
+		}
+		return n, nil
 	}
 	n, err := h.buf.writeAt(p, h.off)
 	h.off += int64(n)
-- 
2.43.0


From 50d0647d2aec74f57d0993b4836cdccde089573a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 05/42] fix: fsutil: MkdirRandom leaked the directory it made
 when opening it failed

---
 fsutil/open_random.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/fsutil/open_random.go b/fsutil/open_random.go
index 28e6363..f092575 100644
--- a/fsutil/open_random.go
+++ b/fsutil/open_random.go
@@ -67,7 +67,17 @@ func MkdirRandom[FS interface {
 			if err != nil {
 				return *new(File), err
 			}
-			return fsys.OpenFile(name, os.O_RDONLY, 0)
+			f, err := fsys.OpenFile(name, os.O_RDONLY, 0)
+			if err != nil {
+				// The caller never learns the name, nobody else can clean it up.
+				switch r := any(fsys).(type) {
+				case RemoveFs:
+					_ = r.Remove(name)
+				case RemoveAllFs:
+					_ = r.RemoveAll(name)
+				}
+			}
+			return f, err
 		},
 	)
 }
-- 
2.43.0


From 6a471c04089576633fb12ce66c8340483bf20470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:09 +0000
Subject: [PATCH 06/42] fix: fsutil: tree copy ignored a failing close, left
 permissions to umask and refused a nested root

---
 fsutil/copy_fs.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/fsutil/copy_fs.go b/fsutil/copy_fs.go
index 748b875..90f0cfb 100644
--- a/fsutil/copy_fs.go
+++ b/fsutil/copy_fs.go
@@ -144,8 +144,8 @@ func (opt CopyFsOption[Fsys, File]) CopyPath(
 		}
 		// Extract the relative part by removing root prefix
 		relDir, err := filepath.Rel(root, dir)
-		if err != nil || relDir == "." {
-			continue // Skip if we can't get relative path or if it's the root itself
+		if err != nil || relDir == "." || !filepath.IsLocal(relDir) {
+			continue // Skip if we can't get relative path or if it's the root itself or above it
 		}
 		srcInfo, err := fs.Stat(src, filepath.ToSlash(relDir))
 		if err != nil {
@@ -213,7 +213,6 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 		if err != nil {
 			return err
 		}
-		defer dstFile.Close()
 
 		// Copy content using io.CopyBuffer
 		bufP := bufpool.GetBytes()
@@ -221,6 +220,17 @@ func (opt CopyFsOption[Fsys, File]) copyEntry(
 
 		buf := *bufP
 		_, err = io.CopyBuffer(dstFile, srcFile, buf)
+		// Close may be the only call that reports a lost write.
+		closeErr := dstFile.Close()
+		if err != nil {
+			return err
+		}
+		if closeErr != nil {
+			return closeErr
+		}
+
+		// perm given to OpenFile is subject to umask and ignored for existing files
+		err = dst.Chmod(dstPath, perm)
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From d856b34e6f963b7f8eceeff57ad1f090585e20f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:37 +0000
Subject: [PATCH 07/42] fix: fsutil Push of empty, shrinking and interrupted
 content commits only complete content

---
 fsutil/resumable.go    | 11 +++++++++--
 fsutil/resumable_fs.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/fsutil/resumable.go b/fsutil/resumable.go
index 7dfa772..2459631 100644
--- a/fsutil/resumable.go
+++ b/fsutil/resumable.go
@@ -501,7 +501,9 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 	}
 
 	// Step 4: sink already has all bytes — just commit.
-	if offset == actualSize {
+	// Offset 0 says nothing about what the sink holds: it may have no part yet
+	// or the part of another version, so even empty content is appended first.
+	if offset > 0 && offset == actualSize {
 		return sink.Commit(ctx)
 	}
 
@@ -512,11 +514,16 @@ func (opt ResumableCopyOption[Fsys, File]) Push(
 		}
 	}
 
-	lr := io.LimitReader(f, actualSize-offset)
+	lr := &io.LimitedReader{R: f, N: actualSize - offset}
 	ctxR := &ctxReader{ctx: ctx, r: lr}
 	if aerr := sink.Append(ctx, info, offset, ctxR); aerr != nil {
 		return WrapPathErr("push-append", name, aerr)
 	}
+	if lr.N > 0 {
+		// The local file ended early (it was shortened meanwhile): what the sink
+		// holds is not the content that was to be pushed.
+		return WrapPathErr("push", name, io.ErrUnexpectedEOF)
+	}
 
 	// Step 6: commit.
 	return sink.Commit(ctx)
diff --git a/fsutil/resumable_fs.go b/fsutil/resumable_fs.go
index 37164c4..b7d7c41 100644
--- a/fsutil/resumable_fs.go
+++ b/fsutil/resumable_fs.go
@@ -256,7 +256,15 @@ func (s *FsSink[Fsys, File]) Append(
 	}
 
 	// Persist ETag to sidecar before writing any data.
-	if info.ETag != "" {
+	//
+	// A record that already holds the ETag is left alone: rewriting it would,
+	// if interrupted, leave a part file without its identity.
+	stored, rerr := s.readSidecar()
+	if rerr != nil {
+		_ = f.Close()
+		return WrapPathErr("read-sidecar", s.sidecarPath(), rerr)
+	}
+	if info.ETag != "" && info.ETag != stored {
 		if werr := s.writeSidecar(info.ETag); werr != nil {
 			_ = f.Close()
 			return WrapPathErr("write-sidecar", s.sidecarPath(), werr)
-- 
2.43.0


From 2b1303a0005371f3c9651f7ed7d5b4971cdb690f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:56 +0000
Subject: [PATCH 08/42] fix: stream: an early end of a source and a foreign or
 short chunk are errors, not data

---
 stream/fileserver/chunk.go     |  7 +++----
 stream/fileserver/client.go    | 23 +++++++++++++++++++++++
 stream/multi_read_at_closer.go |  7 +++++--
 3 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/stream/fileserver/chunk.go b/stream/fileserver/chunk.go
index ab7d168..c08a91e 100644
--- a/stream/fileserver/chunk.go
+++ b/stream/fileserver/chunk.go
@@ -270,10 +270,9 @@ func (s *ChunkedSink) Append(
 				"ChunkedSink Append chunk %d: spool: %w", i, err,
 			)
 		}
-		// For the last chunk a short read (written < expected) is valid only
-		// if the source is exhausted. If this is not the last chunk and we
-		// got fewer bytes, the reader was truncated.
-		if written < expected && i < nChunks-1 {
+		// expected is exact for every chunk, the last one included: fewer bytes
+		// mean the reader was truncated.
+		if written < expected {
 			cleanup()
 			return fmt.Errorf(
 				"ChunkedSink Append chunk %d: short read: got %d, want %d",
diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index 6c90fc5..b76a07c 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -200,6 +200,15 @@ func (c *HTTPClient) Get(
 				"fileserver Get %q: parse Content-Range: %w", name, err,
 			)
 		}
+		// A range other than the one asked for would be taken for the bytes at
+		// offset.
+		if err := checkRangeStart(resp.Header.Get("Content-Range"), offset); err != nil {
+			_, _ = io.Copy(io.Discard, resp.Body)
+			_ = resp.Body.Close()
+			return nil, 0, fmt.Errorf(
+				"fileserver Get %q at offset %d: %w", name, offset, err,
+			)
+		}
 		return resp.Body, total, nil
 
 	case http.StatusNotFound, http.StatusGone: // 404, 410
@@ -313,3 +322,17 @@ func parseTotalFromContentRange(s string) (int64, error) {
 	}
 	return total, nil
 }
+
+// checkRangeStart reports an error unless the range that the Content-Range
+// header value s describes starts at offset.
+func checkRangeStart(s string, offset int64) error {
+	first, _, _ := strings.Cut(strings.TrimPrefix(s, "bytes "), "-")
+	from, err := strconv.ParseInt(strings.TrimSpace(first), 10, 64)
+	if err != nil {
+		return fmt.Errorf("malformed Content-Range %q: first byte: %w", s, err)
+	}
+	if from != offset {
+		return fmt.Errorf("got Content-Range %q, want a range starting at %d", s, offset)
+	}
+	return nil
+}
diff --git a/stream/multi_read_at_closer.go b/stream/multi_read_at_closer.go
index af3e5ca..95701e3 100644
--- a/stream/multi_read_at_closer.go
+++ b/stream/multi_read_at_closer.go
@@ -163,7 +163,9 @@ func (r *multiReadAtSeekCloser) Read(p []byte) (int, error) {
 		return n, wrapErr(ErrInvalidSize, "read more")
 	case err == io.EOF && n == 0 && rem > 0:
 		return n, wrapErr(io.ErrUnexpectedEOF, "read less")
-	case err == io.EOF && len(r.r)-1 > r.idx:
+	case err == io.EOF && (len(r.r)-1 > r.idx || int64(n) < rem):
+		// Not the end of the whole: more readers follow, or this one ended
+		// before its size and the next read has to say so.
 		err = nil
 	}
 
@@ -248,7 +250,8 @@ func (r *multiReadAtSeekCloser) readAt(p []byte, off int64) (n int, err error) {
 		return n, wrapErr(ErrInvalidSize, "read more")
 	case err == io.EOF && n == 0 && rem > 0:
 		return n, wrapErr(io.ErrUnexpectedEOF, "read less")
-	case err == io.EOF && len(r.r)-1 > i:
+	case err == io.EOF && (len(r.r)-1 > i || int64(n) < rem):
+		// See Read.
 		err = nil
 	}
 	return n, err
-- 
2.43.0


From df391220a4ee57634b6502675b23af899bf55069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:35 +0000
Subject: [PATCH 09/42] fix: httprange: redact URL errors nested in a URL error

---
 stream/httprange/redact.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/stream/httprange/redact.go b/stream/httprange/redact.go
index 207ea62..0e95218 100644
--- a/stream/httprange/redact.go
+++ b/stream/httprange/redact.go
@@ -35,9 +35,9 @@ func redactRawURL(raw string) string {
 // tree with its redacted form, so that presigned tokens, basic-auth
 // passwords and the like never reach error text.
 //
-// The underlying Err is carried over untouched, keeping [errors.Is] and
-// [errors.AsType] working through the result. Any error not built around a
-// [url.Error] is returned as is.
+// The underlying Err is kept, with every [url.Error] in it redacted as well,
+// keeping [errors.Is] and [errors.AsType] working through the result. Any
+// error not built around a [url.Error] is returned as is.
 func redactURLError(err error) error {
 	ue, ok := errors.AsType[*url.Error](err)
 	if !ok {
@@ -46,6 +46,6 @@ func redactURLError(err error) error {
 	return &url.Error{
 		Op:  ue.Op,
 		URL: redactRawURL(ue.URL),
-		Err: ue.Err,
+		Err: redactURLError(ue.Err),
 	}
 }
-- 
2.43.0


From 4d1eacd4bd1dcf643039c119d2cf3110a97ab174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 10/42] fix: fsutil: ResolvePath joined the target of a link
 reached through a link at the wrong directory

---
 fsutil/resolve_symlink.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/fsutil/resolve_symlink.go b/fsutil/resolve_symlink.go
index ca41409..2b16944 100644
--- a/fsutil/resolve_symlink.go
+++ b/fsutil/resolve_symlink.go
@@ -99,16 +99,21 @@ func ResolvePath(
 			continue
 		}
 
-		currentResolved, numSymlink, err := ResolveSymlink(
-			fsys,
-			resolved.String(),
-			maxSymlinkResolutionCount-curLinkResolved,
-		)
+		// One hop at a time: the walk restarts at what the link holds, so that a
+		// link found there is only ever read, and its target joined, at its real
+		// path. The target of a link reached through a link may itself be a link;
+		// "../x" in it is relative to where that one really lies.
+		target, err := fsys.ReadLink(resolved.String())
 		if err != nil {
 			return resolved.String(), err
 		}
 
-		curLinkResolved += numSymlink
+		currentResolved := ""
+		if !filepath.IsAbs(target) {
+			currentResolved = filepath.Join(filepath.Dir(resolved.String()), target)
+		}
+
+		curLinkResolved++
 		if curLinkResolved >= maxSymlinkResolutionCount {
 			return cmp.Or(
 					currentResolved,
-- 
2.43.0


From aa71605a9a20202ea47327d739f8ec02e466f7fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 11/42] fix: overlayfs: the root of a plain lower was addressed
 by the empty path

---
 vroot-adapter/overlayfs/state.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vroot-adapter/overlayfs/state.go b/vroot-adapter/overlayfs/state.go
index badecbd..9adf2f9 100644
--- a/vroot-adapter/overlayfs/state.go
+++ b/vroot-adapter/overlayfs/state.go
@@ -333,9 +333,13 @@ func (s *overlayState) whiteoutAbove(i int, name string) bool {
 
 // layerPath maps a merged-view name onto its path in layer i's content tree,
 // spelled with the separator the backend expects rather than the "/" the
-// masking state is keyed by.
+// masking state is keyed by. The root of a plain layer is ".", not the empty
+// path: not every backend takes the latter ([os.Root] refuses it).
 func (s *overlayState) layerPath(i int, name string) string {
-	return s.layers[i].ContentPath(name)
+	if p := s.layers[i].ContentPath(name); p != "" {
+		return p
+	}
+	return "."
 }
 
 // dropSubtree forgets every mark recorded strictly under name, the range delete
-- 
2.43.0


From f163da60bf5b99f49468642e44bd2092b3cc51d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 12/42] fix: overlayfs: copying a file up changed the mode of
 its parent directories

---
 vroot-adapter/overlayfs/write.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vroot-adapter/overlayfs/write.go b/vroot-adapter/overlayfs/write.go
index 64b26ce..f5cc16a 100644
--- a/vroot-adapter/overlayfs/write.go
+++ b/vroot-adapter/overlayfs/write.go
@@ -58,6 +58,12 @@ func (f *Fs) copyUp(name string) error {
 	case res.layer == 0:
 		return nil
 	}
+	// The directories above come up first, each from the layer the merged view
+	// shows it from: the layer holding name need not be that one, and a parent
+	// materialized after its own spelling would change mode under the caller.
+	if err := f.ensureParent(name); err != nil {
+		return err
+	}
 	from, err := res.src.contentView()
 	if err != nil {
 		return err
-- 
2.43.0


From 6c0a159bd1c6163ad60118db5c41cbabaeeda27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 13/42] fix: overlayfs: a link in a lower, shadowed by a
 directory, was followed

---
 vroot-adapter/overlayfs/merged.go | 49 ++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/vroot-adapter/overlayfs/merged.go b/vroot-adapter/overlayfs/merged.go
index 9715b85..9d4777e 100644
--- a/vroot-adapter/overlayfs/merged.go
+++ b/vroot-adapter/overlayfs/merged.go
@@ -49,7 +49,7 @@ func (s *overlayState) lookupFrom(name string, from int) (lookupResult, error) {
 	cut := s.cutFrom(name, from)
 	for i := from; i <= cut; i++ {
 		path := s.layerPath(i, name)
-		info, err := s.layers[i].fsys.Lstat(path)
+		info, err := s.lstatIn(i, name)
 		switch {
 		case err == nil:
 			return lookupResult{layer: i, src: s.layers[i], path: path, info: info}, nil
@@ -76,6 +76,29 @@ func (s *overlayState) lookupFrom(name string, from int) (lookupResult, error) {
 	return lookupResult{}, fs.ErrNotExist
 }
 
+// lstatIn is layer i's own answer for name: [syscall.ENOTDIR] when the layer has
+// anything but directories on the way to it.
+//
+// A symlink on the way is one of those. A merged-view name arrives here with its
+// links resolved, so where a deeper layer spells a component as a link, a layer
+// above has put a directory in the link's place — and following the link would
+// show entries of whatever it points at under a directory they are not in. The
+// top is what the resolution asked first and cannot hold one.
+func (s *overlayState) lstatIn(i int, name string) (fs.FileInfo, error) {
+	if i > 0 {
+		for _, dir := range ancestry(parentName(name)) {
+			info, err := s.layers[i].fsys.Lstat(s.layerPath(i, dir))
+			if err != nil {
+				return nil, err
+			}
+			if !info.IsDir() {
+				return nil, syscall.ENOTDIR
+			}
+		}
+	}
+	return s.layers[i].fsys.Lstat(s.layerPath(i, name))
+}
+
 // blockedIn reports whether layer i holds a non-directory where name would have
 // to be reached through. It is the question an Lstat error matching
 // [syscall.ENOTDIR] raises rather than settles.
@@ -85,26 +108,24 @@ func (s *overlayState) lookupFrom(name string, from int) (lookupResult, error) {
 // that is not a directory and for one that is not there at all, and which
 // matches [fs.ErrNotExist] besides — one value for the two answers the search
 // has to tell apart, since a layer that merely lacks the directory leaves the
-// layers below it to be read as usual. So the layer is asked directly and the
-// nearest ancestor it does show decides.
+// layers below it to be read as usual. So the layer is asked directly, shallowest
+// ancestor first, and the first one that is not a directory decides: with nothing
+// but directories above it, either error then means it is not there.
 func (s *overlayState) blockedIn(i int, name string) (bool, error) {
-	for n := parentName(name); ; n = parentName(n) {
-		info, err := s.layers[i].fsys.Lstat(s.layerPath(i, n))
+	for _, dir := range ancestry(parentName(name)) {
+		info, err := s.layers[i].fsys.Lstat(s.layerPath(i, dir))
 		switch {
+		case err == nil && info.IsDir():
+			continue
 		case err == nil:
-			return !info.IsDir(), nil
-		case errors.Is(err, syscall.ENOTDIR):
-			// Whatever stands in the way is further up still; asked before
-			// fs.ErrNotExist for the same reason the caller asks in this order.
-		case errors.Is(err, fs.ErrNotExist):
+			return true, nil
+		case errors.Is(err, fs.ErrNotExist), errors.Is(err, syscall.ENOTDIR):
 			return false, nil
 		default:
 			return false, err
 		}
-		if n == "" {
-			return false, nil
-		}
 	}
+	return false, nil
 }
 
 // blockedErr names what a non-directory component left behind: the merged view
@@ -145,7 +166,7 @@ func (s *overlayState) readDir(name string) ([]fs.DirEntry, error) {
 	cut := s.childCut(name)
 	for i := res.layer; i <= cut; i++ {
 		path := s.layerPath(i, name)
-		info, err := s.layers[i].fsys.Lstat(path)
+		info, err := s.lstatIn(i, name)
 		switch {
 		// A non-directory at name, or on the way to it in the case after this
 		// one, fills the path the layers below would be merged in through:
-- 
2.43.0


From 4ee27a901c4f2a6e298a1b30e5476e5324200fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 14/42] fix: overlayfs: a directory merely shadowing a lower's
 file could not be renamed

---
 vroot-adapter/overlayfs/rename.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/vroot-adapter/overlayfs/rename.go b/vroot-adapter/overlayfs/rename.go
index 2e37518..960a18d 100644
--- a/vroot-adapter/overlayfs/rename.go
+++ b/vroot-adapter/overlayfs/rename.go
@@ -126,10 +126,18 @@ func (f *Fs) rename(oldname string, newname string) error {
 func (f *Fs) renameDirCheck(full string) error {
 	cut := f.state.childCut(full)
 	for i := 1; i <= cut; i++ {
-		switch _, err := f.state.layers[i].fsys.Lstat(f.state.layerPath(i, full)); {
-		case err == nil:
+		switch info, err := f.state.lstatIn(i, full); {
+		case err == nil && info.IsDir():
 			return errCrossDevice
-		case errors.Is(err, fs.ErrNotExist), errors.Is(err, syscall.ENOTDIR):
+		case err == nil:
+			// Shadowed by the directory above it, and ending what the layers
+			// further down could have put into that.
+			return nil
+		case errors.Is(err, syscall.ENOTDIR):
+			if blocked, err := f.state.blockedIn(i, full); err != nil || blocked {
+				return err
+			}
+		case errors.Is(err, fs.ErrNotExist):
 			continue
 		default:
 			return err
-- 
2.43.0


From 260c82045de06809be412d152ffc65c9c7bd4a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 15/42] fix: overlayfs: creating through a dangling link
 depended on what had been copied up

---
 vroot-adapter/overlayfs/open.go | 43 +++++++++++++++++++++++++++++++--
 1 file changed, 41 insertions(+), 2 deletions(-)

diff --git a/vroot-adapter/overlayfs/open.go b/vroot-adapter/overlayfs/open.go
index 39220df..35379cd 100644
--- a/vroot-adapter/overlayfs/open.go
+++ b/vroot-adapter/overlayfs/open.go
@@ -4,9 +4,12 @@ import (
 	"errors"
 	"io/fs"
 	"os"
+	"path/filepath"
+	"strings"
 	"syscall"
 
 	"github.com/ngicks/go-fsys-helper/fsutil"
+	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
 	"github.com/ngicks/go-fsys-helper/vroot"
 )
 
@@ -26,11 +29,11 @@ func (f *Fs) openWrite(name string, flag int, perm fs.FileMode) (vroot.File, err
 	full, err := f.resolve(name, false)
 	if err != nil {
 		// A create names what may not be there yet, so the walk only has to reach
-		// the parent and the final component is taken as written.
+		// the parent of where the file is to be.
 		if !creating || !errors.Is(err, fs.ErrNotExist) {
 			return nil, fsutil.WrapPathErr("open", name, err)
 		}
-		full, err = f.resolve(name, true)
+		full, err = f.resolveCreate(name, flag&os.O_EXCL == 0)
 		if err != nil {
 			return nil, fsutil.WrapPathErr("open", name, err)
 		}
@@ -77,3 +80,39 @@ func (f *Fs) openWrite(name string, flag int, perm fs.FileMode) (vroot.File, err
 	}
 	return f.track(name, full, inner), nil
 }
+
+// resolveCreate is [Fs.resolve] for a file that is not there: the name to create
+// it at. Where name is a symlink pointing at nothing, follow has it chased over
+// the merged view to what it names — left to the top, the link would be followed
+// through the top alone, where the directories the layers below show are not.
+func (f *Fs) resolveCreate(name string, follow bool) (string, error) {
+	for range maxCreateLinks {
+		full, err := f.resolve(name, true)
+		if err != nil || !follow {
+			return full, err
+		}
+		res, err := f.state.lookup(full)
+		switch {
+		case errors.Is(err, fs.ErrNotExist):
+			return full, nil
+		case err != nil:
+			return "", err
+		case res.info.Mode()&fs.ModeSymlink == 0:
+			return full, nil
+		}
+		target, err := res.src.fsys.ReadLink(res.path)
+		if err != nil {
+			return "", err
+		}
+		if filepath.IsAbs(target) {
+			return "", vroot.ErrPathEscapes
+		}
+		dir := strings.TrimPrefix(strings.TrimPrefix(parentName(full), f.base), "/")
+		name = filepath.Join(filepath.FromSlash(dir), target)
+	}
+	return "", errdef.ELOOP
+}
+
+// maxCreateLinks bounds the links [Fs.resolveCreate] chases, as [fsutil.ResolvePath]
+// bounds its own.
+const maxCreateLinks = 40
-- 
2.43.0


From c6d905c5105f163ad509b94037c253f7ae971782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:30 +0000
Subject: [PATCH 16/42] fix: overlayfs: MkdirAll of a link to a directory
 failed

---
 vroot-adapter/overlayfs/mkdir.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/vroot-adapter/overlayfs/mkdir.go b/vroot-adapter/overlayfs/mkdir.go
index 219a6af..fb098f6 100644
--- a/vroot-adapter/overlayfs/mkdir.go
+++ b/vroot-adapter/overlayfs/mkdir.go
@@ -109,6 +109,11 @@ func (f *Fs) mkdirAllName(name string) (string, error) {
 	if !filepath.IsLocal(filepath.FromSlash(cleaned)) {
 		return "", vroot.ErrPathEscapes
 	}
+	// All of it may be there already, and then a symlink to a directory does for
+	// the directory, as it does for [os.MkdirAll].
+	if resolved, err := f.resolve(filepath.FromSlash(cleaned), false); err == nil {
+		return resolved, nil
+	}
 	for head, rest := cleaned, ""; ; {
 		resolved, err := f.resolve(filepath.FromSlash(head), true)
 		if err == nil {
-- 
2.43.0


From e04f6b910f566558f90183392bc12bc7b33031f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:53 +0000
Subject: [PATCH 17/42] fix: overlayfs: a copied-up directory showed a mode cut
 by the umask until its attributes were set

---
 vroot-adapter/overlayfs/copyup.go | 49 +++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 15 deletions(-)

diff --git a/vroot-adapter/overlayfs/copyup.go b/vroot-adapter/overlayfs/copyup.go
index f1b776c..b4f8429 100644
--- a/vroot-adapter/overlayfs/copyup.go
+++ b/vroot-adapter/overlayfs/copyup.go
@@ -55,8 +55,9 @@ var _ CopyUpPolicy = (*CopyUpPolicyWork)(nil)
 // CopyUpPolicyWork is the default policy: a regular file is staged as a temp in
 // the top's "work/", filled by reflink where the backends allow one and by a
 // buffered copy otherwise, and published by renaming it onto its content path —
-// atomic, because staging and content are two paths in one fs. Directories and
-// symlinks are created in the content tree directly, having no data to stage.
+// atomic, because staging and content are two paths in one fs. A directory is
+// staged the same way for the sake of its attributes; a symlink is created in the
+// content tree directly, having nothing to stage.
 //
 // The zero value is ready to use; [NewCopyUpPolicyWork] is the spelling to
 // prefer. One policy is safe to share between overlays.
@@ -99,11 +100,7 @@ func (p *CopyUpPolicyWork) CopyUp(from vroot.Fs[vroot.File], top *DataSource, na
 		// Only the directory itself: its children stay where they are and go on
 		// being merged in from below, which is what keeps a copy-up from walking
 		// a whole subtree to write one file in it.
-		if err := top.fsys.Mkdir(dst, info.Mode().Perm()); err != nil {
-			return err
-		}
-		copyAttrs(top.fsys, dst, info)
-		return nil
+		return p.makeDir(top, dst, info)
 	case info.Mode()&fs.ModeSymlink != 0:
 		target, err := from.ReadLink(filepath.FromSlash(name))
 		if err != nil {
@@ -131,7 +128,7 @@ func (p *CopyUpPolicyWork) copyRegular(
 	}
 	defer func() { _ = src.Close() }()
 
-	staging := top.StagingPath("tmp-" + strconv.FormatUint(p.temp.Add(1), 10))
+	staging := p.stagingPath(top)
 	tmp, err := top.fsys.OpenFile(staging, os.O_RDWR|os.O_CREATE|os.O_EXCL, info.Mode().Perm())
 	if err != nil {
 		return err
@@ -190,21 +187,43 @@ func (p *CopyUpPolicyWork) materializeParents(
 	// A parent the source layer does not describe still has to exist for the
 	// copy-up to land, so it is created open and left for a later chmod rather
 	// than failing an operation that is only passing through here.
-	perm := fs.FileMode(0o777)
 	info, err := from.Stat(filepath.FromSlash(dir))
-	described := err == nil
-	if described {
-		perm = info.Mode().Perm()
+	if err != nil {
+		return top.fsys.Mkdir(path, 0o777)
+	}
+	return p.makeDir(top, path, info)
+}
+
+// makeDir creates the directory dst with info's mode and times. It is made under
+// "work/" and moved into place, as a file is: made in place it would show, until
+// its attributes are set, a mode the umask cut down, and go on showing it if that
+// is as far as the copy-up got. A directory its owner may not write is the
+// exception: moving it between parents takes that very permission.
+func (p *CopyUpPolicyWork) makeDir(top *DataSource, dst string, info fs.FileInfo) error {
+	if info.Mode().Perm()&0o200 == 0 {
+		if err := top.fsys.Mkdir(dst, info.Mode().Perm()); err != nil {
+			return err
+		}
+		copyAttrs(top.fsys, dst, info)
+		return nil
 	}
-	if err := top.fsys.Mkdir(path, perm); err != nil {
+	staging := p.stagingPath(top)
+	if err := top.fsys.Mkdir(staging, info.Mode().Perm()); err != nil {
 		return err
 	}
-	if described {
-		copyAttrs(top.fsys, path, info)
+	copyAttrs(top.fsys, staging, info)
+	if err := top.fsys.Rename(staging, dst); err != nil {
+		_ = top.fsys.Remove(staging)
+		return err
 	}
 	return nil
 }
 
+// stagingPath is a path under "work/" nothing was staged at yet.
+func (p *CopyUpPolicyWork) stagingPath(top *DataSource) string {
+	return top.StagingPath("tmp-" + strconv.FormatUint(p.temp.Add(1), 10))
+}
+
 // copyAttrs brings path's mode and times in line with info.
 //
 // Failures are dropped: the data is already copied, and a backend that keeps no
-- 
2.43.0


From f38ff0c6e1329d987bc91e63e163ffadb0b42733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:53 +0000
Subject: [PATCH 18/42] fix: overlayfs: a rename cut short brought the old name
 back or let lower entries show through the new one

---
 vroot-adapter/overlayfs/rename.go | 57 +++++++++++++++++++++++--------
 vroot-adapter/overlayfs/state.go  | 47 +++++++++++++------------
 2 files changed, 68 insertions(+), 36 deletions(-)

diff --git a/vroot-adapter/overlayfs/rename.go b/vroot-adapter/overlayfs/rename.go
index 960a18d..e983cb1 100644
--- a/vroot-adapter/overlayfs/rename.go
+++ b/vroot-adapter/overlayfs/rename.go
@@ -3,6 +3,7 @@ package overlayfs
 import (
 	"errors"
 	"io/fs"
+	"slices"
 	"strings"
 	"syscall"
 
@@ -77,19 +78,13 @@ func (f *Fs) rename(oldname string, newname string) error {
 		return err
 	}
 
-	if err := f.top().fsys.Rename(f.topPath(oldFull), f.topPath(newFull)); err != nil {
-		return err
-	}
-
-	// Whatever stood at the new name is gone, and the marks describing it go with
-	// it — the whiteout a removal there left included, which is what lets a name
-	// be renamed onto one that was deleted.
-	if err := f.state.clearSubtree(newFull); err != nil {
-		return err
-	}
-	if err := f.state.renameSubtree(oldFull, newFull); err != nil {
-		return err
-	}
+	// Every mark the move calls for is recorded before it, while each still says
+	// only what is already so: the top holds the old name, so a whiteout there
+	// hides nothing the view shows, and the new name holds nothing a mark could
+	// hide. Recorded afterwards, a store that fails or a process that dies in
+	// between would leave the lower entry back at the old name, or lower entries
+	// showing through the directory at the new one.
+	var stale []string
 	if oldRes.info.IsDir() {
 		// The reference's create_missing_whiteouts, in the store's own terms: it
 		// walks the layers below at the destination and drops a whiteout file
@@ -103,13 +98,45 @@ func (f *Fs) rename(oldname string, newname string) error {
 		if err := f.state.setOpaque(newFull); err != nil {
 			return err
 		}
+		whiteouts, opaques := f.state.maskedUnder(newFull)
+		stale = append(whiteouts, opaques...)
+		kept, err := f.state.renameSubtree(oldFull, newFull)
+		if err != nil {
+			return err
+		}
+		stale = slices.DeleteFunc(stale, func(n string) bool { return slices.Contains(kept, n) })
 	}
 	if maskOld {
 		// setWhiteout drops the old name's own opaque mark and everything recorded
 		// under it, which renameSubtree has already moved out of the way. A
 		// whiteout at the new name is not needed however the layers below stand:
-		// the top now holds content there, and content in the top shadows them.
-		return f.state.setWhiteout(oldFull)
+		// the top is about to hold content there, and content in the top shadows
+		// them.
+		if err := f.state.setWhiteout(oldFull); err != nil {
+			return err
+		}
+	}
+
+	if err := f.top().fsys.Rename(f.topPath(oldFull), f.topPath(newFull)); err != nil {
+		return err
+	}
+
+	// Whatever stood at the new name is gone, and the marks describing it go with
+	// it — the whiteout a removal there left included, which is what lets a name
+	// be renamed onto one that was deleted. Only a directory's opaque mark and
+	// what moved along with it stay.
+	if oldRes.info.IsDir() {
+		if err := f.unmask(newFull); err != nil {
+			return err
+		}
+		if err := f.state.forget(stale); err != nil {
+			return err
+		}
+	} else if err := f.state.clearSubtree(newFull); err != nil {
+		return err
+	}
+	if maskOld {
+		return nil
 	}
 	return f.state.clearSubtree(oldFull)
 }
diff --git a/vroot-adapter/overlayfs/state.go b/vroot-adapter/overlayfs/state.go
index 9adf2f9..424aebd 100644
--- a/vroot-adapter/overlayfs/state.go
+++ b/vroot-adapter/overlayfs/state.go
@@ -192,27 +192,29 @@ func (s *overlayState) maskedUnder(dir string) (whiteouts []string, opaques []st
 func (s *overlayState) clearSubtree(name string) error {
 	name = cleanName(name)
 	whiteouts, opaques := s.maskedUnder(name)
-	for _, n := range append(whiteouts, name) {
-		if _, ok := s.masks[0].whiteout[n]; !ok {
-			continue
-		}
-		if err := s.clearWhiteout(n); err != nil {
-			return err
-		}
-	}
-	for _, n := range append(opaques, name) {
-		if _, ok := s.masks[0].opaque[n]; !ok {
-			continue
+	return s.forget(append(append(whiteouts, opaques...), name))
+}
+
+// forget clears every mark the top records on names.
+func (s *overlayState) forget(names []string) error {
+	for _, n := range names {
+		whiteout, opaque := s.marks(0, n)
+		if whiteout {
+			if err := s.clearWhiteout(n); err != nil {
+				return err
+			}
 		}
-		if err := s.clearOpaque(n); err != nil {
-			return err
+		if opaque {
+			if err := s.clearOpaque(n); err != nil {
+				return err
+			}
 		}
 	}
 	return nil
 }
 
 // renameSubtree moves what the top records strictly under oldDir to the matching
-// names under newDir. The marks on oldDir itself are left alone: a rename decides
+// names under newDir, and returns those. The marks on oldDir itself are left alone: a rename decides
 // those from what the layers below still show at either end, which this cannot
 // see.
 //
@@ -235,36 +237,39 @@ func (s *overlayState) clearSubtree(name string) error {
 // neither does that same subtree drop, the two trees being disjoint: [Fs.rename]
 // refuses a destination equal to the source or inside it, and
 // [Fs.renameTargetCheck] refuses one the merged view still shows any entry in.
-func (s *overlayState) renameSubtree(oldDir string, newDir string) error {
+func (s *overlayState) renameSubtree(oldDir string, newDir string) ([]string, error) {
 	oldDir, newDir = cleanName(oldDir), cleanName(newDir)
 	whiteouts, opaques := s.maskedUnder(oldDir)
 	if len(whiteouts) == 0 && len(opaques) == 0 {
-		return nil
+		return nil, nil
 	}
 	rebase := func(n string) string {
 		return childName(newDir, strings.TrimPrefix(strings.TrimPrefix(n, oldDir), "/"))
 	}
+	var moved []string
 	for _, n := range whiteouts {
+		moved = append(moved, rebase(n))
 		if err := s.setWhiteout(rebase(n)); err != nil {
-			return err
+			return nil, err
 		}
 	}
 	for _, n := range opaques {
+		moved = append(moved, rebase(n))
 		if err := s.setOpaque(rebase(n)); err != nil {
-			return err
+			return nil, err
 		}
 	}
 	for _, n := range whiteouts {
 		if err := s.clearWhiteout(n); err != nil {
-			return err
+			return nil, err
 		}
 	}
 	for _, n := range opaques {
 		if err := s.clearOpaque(n); err != nil {
-			return err
+			return nil, err
 		}
 	}
-	return nil
+	return moved, nil
 }
 
 // cut returns the deepest layer that can still show name. Masking reaches only
-- 
2.43.0


From 1fb9e656f4791d6a84fa07ffcd5a1b4d5c8b6576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:53 +0000
Subject: [PATCH 19/42] fix: overlayfs: sync a crashed writer's journal before
 the metadata store is used

A process that dies while the store finishes a commit can leave the commit
readable but revocable: the journal header it invalidated is only in the page
cache. A change that finds itself already in place is then acknowledged without
touching the journal, and a power loss rolls it back.
---
 .../overlayfs/internal/sqlvfs/open.go         | 23 +++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/vroot-adapter/overlayfs/internal/sqlvfs/open.go b/vroot-adapter/overlayfs/internal/sqlvfs/open.go
index d39576a..95edf15 100644
--- a/vroot-adapter/overlayfs/internal/sqlvfs/open.go
+++ b/vroot-adapter/overlayfs/internal/sqlvfs/open.go
@@ -4,7 +4,9 @@ import (
 	"database/sql"
 	"errors"
 	"fmt"
+	"io/fs"
 	"net/url"
+	"os"
 
 	"github.com/ncruces/go-sqlite3/driver"
 	"github.com/ngicks/go-fsys-helper/vroot"
@@ -25,11 +27,32 @@ type DB struct {
 // memory can work over a VFS that has none. Extra pragmas are applied after
 // those two, in the order given.
 func Open(fsys vroot.Fs[vroot.File], name string, pragmas ...string) (*DB, error) {
+	if err := syncJournal(fsys, name); err != nil {
+		return nil, fmt.Errorf("sqlvfs: open %q in %s: %w", name, fsys.Name(), err)
+	}
 	return open(fsys, name, url.Values{
 		"_pragma": append([]string{"locking_mode(exclusive)", "journal_mode(delete)"}, pragmas...),
 	})
 }
 
+// syncJournal makes durable what a crashed writer left of the journal.
+//
+// With locking_mode=EXCLUSIVE a commit ends by overwriting the journal's
+// header. A process that dies between that write and its sync leaves the commit
+// readable, yet a later power loss would bring the old header back and roll it
+// back. Nothing else syncs it: changes which turn out to be already in place are
+// acknowledged without touching the journal.
+func syncJournal(fsys vroot.Fs[vroot.File], name string) error {
+	f, err := fsys.OpenFile(cleanPath(name)+"-journal", os.O_RDWR, 0)
+	if errors.Is(err, fs.ErrNotExist) {
+		return nil
+	}
+	if err != nil {
+		return err
+	}
+	return errors.Join(f.Sync(), f.Close())
+}
+
 // OpenReadOnly opens the sqlite database at name inside fsys for reading. It
 // must already exist, and every write through the returned DB fails.
 //
-- 
2.43.0


From 3714fc15c94c83bb4a8143536e60397eaff0b054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:06 +0000
Subject: [PATCH 20/42] fix: vroot: WalkDir goes on with the next entry after a
 tolerated Lstat error

---
 vroot/walk.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vroot/walk.go b/vroot/walk.go
index b58b7ce..345c785 100644
--- a/vroot/walk.go
+++ b/vroot/walk.go
@@ -180,11 +180,12 @@ func walkDir_[F File, Fsys Fs[F]](
 		}
 		info, err := fsys.Lstat(childPath)
 		if err != nil {
+			// One unreadable entry, if tolerated, must not hide the ones after it.
 			err = fn(childPath, childRealPath, nil, err)
-			if err == SkipDir && info != nil && info.IsDir() {
-				err = nil
+			if err != nil && err != SkipDir {
+				return err
 			}
-			return err
+			continue
 		}
 		err = walkDir_(fsys, childPath, childRealPath, info, state, opt, fn)
 		if err != nil {
-- 
2.43.0


From f0618f1441363b6dcefcacef4b532aa4d02f7a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:37 +0000
Subject: [PATCH 21/42] fix: fsutil: ResolveSymlink follows links inside a
 link's target

A target leading through another link was joined as spelled: the result was no
real path, and a relative link found there was resolved against the wrong
directory, so that WalkDir reported entries it could reach as missing.
---
 fsutil/resolve_symlink.go | 58 +++++++++++++++++++++++++++++++++------
 1 file changed, 50 insertions(+), 8 deletions(-)

diff --git a/fsutil/resolve_symlink.go b/fsutil/resolve_symlink.go
index 2b16944..f6ae400 100644
--- a/fsutil/resolve_symlink.go
+++ b/fsutil/resolve_symlink.go
@@ -177,19 +177,19 @@ func ResolveSymlink(
 	maxResolution int,
 ) (resolved string, numSymlink int, err error) {
 	resolved = filepath.Clean(linkRealPath)
-	var i int
-	for i = 0; i < maxResolution; i++ {
+	for numSymlink < maxResolution {
 		target, err := fsys.ReadLink(resolved)
 		if err != nil {
-			return "", i, err
+			return "", numSymlink, err
 		}
+		numSymlink++
 
 		target = filepath.Clean(target)
 
 		if filepath.IsAbs(target) {
 			// can't tell whether this target is non-symlnk or not,
 			// just return ""
-			return "", i + 1, nil
+			return "", numSymlink, nil
 		}
 
 		resolved = filepath.Join(filepath.Dir(resolved), target)
@@ -197,17 +197,59 @@ func ResolveSymlink(
 		if !filepath.IsLocal(resolved) {
 			// same as absolute path,
 			// return just ""
-			return "", i + 1, nil
+			return "", numSymlink, nil
 		}
 
+		// The target may lead through other links: only at its real path does a
+		// relative target found there mean what it says.
+		dir, n, err := resolveDir(fsys, filepath.Dir(resolved), maxResolution-numSymlink)
+		numSymlink += n
+		if err != nil || dir == "" {
+			return "", numSymlink, err
+		}
+		resolved = filepath.Join(dir, filepath.Base(resolved))
+
 		info, err := fsys.Lstat(resolved)
 		if err != nil {
-			return "", i, err
+			return "", numSymlink, err
 		}
 		if info.Mode()&os.ModeSymlink == 0 {
-			return resolved, i + 1, nil
+			return resolved, numSymlink, nil
 		}
 	}
 
-	return "", i, WrapPathErr("stat", linkRealPath, errdef.ELOOP)
+	return "", numSymlink, WrapPathErr("stat", linkRealPath, errdef.ELOOP)
+}
+
+// resolveDir resolves every link dir, a local path, leads through. Like
+// [ResolveSymlink] it returns "" for a path it can't tell the real path of.
+func resolveDir(
+	fsys interface {
+		ReadLinkFs
+		LstatFs
+	},
+	dir string,
+	maxResolution int,
+) (resolved string, numSymlink int, err error) {
+	resolved = "."
+	for _, elem := range strings.Split(dir, string(filepath.Separator)) {
+		if elem == "." {
+			continue
+		}
+		resolved = filepath.Join(resolved, elem)
+		info, err := fsys.Lstat(resolved)
+		if err != nil {
+			return "", numSymlink, err
+		}
+		if info.Mode()&os.ModeSymlink == 0 {
+			continue
+		}
+		var n int
+		resolved, n, err = ResolveSymlink(fsys, resolved, maxResolution-numSymlink)
+		numSymlink += n
+		if err != nil || resolved == "" {
+			return "", numSymlink, err
+		}
+	}
+	return resolved, numSymlink, nil
 }
-- 
2.43.0


From 68ef2a3aefd86c01f533546bca2870b78dbe3b61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:45 +0000
Subject: [PATCH 22/42] fix: vroot: WalkDir knows the real path of a root named
 through links

---
 vroot/walk.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/vroot/walk.go b/vroot/walk.go
index 345c785..20d2341 100644
--- a/vroot/walk.go
+++ b/vroot/walk.go
@@ -1,6 +1,7 @@
 package vroot
 
 import (
+	"errors"
 	"fmt"
 	"io/fs"
 	"os"
@@ -99,10 +100,22 @@ func walkDir[F File, Fsys Fs[F]](fsys Fsys, root string, opt *WalkOption, fn Wal
 
 	// Use Lstat for root to avoid resolving symlinks
 	info, err := fsys.Lstat(root)
+	realRoot := root
+	if err == nil && opt.ResolveSymlink {
+		// Links on the way to root would make every path below it unreal.
+		var resolved string
+		resolved, err = fsutil.ResolvePath(fsys, root, true)
+		if err == nil {
+			realRoot = filepath.Clean(resolved)
+		} else if errors.Is(err, ErrPathEscapes) {
+			// An unrooted fsys may lead anywhere; root is as good a name as any.
+			err = nil
+		}
+	}
 	if err != nil {
 		err = fn(root, root, nil, err)
 	} else {
-		err = walkDir_(fsys, root, root, info, state, opt, fn)
+		err = walkDir_(fsys, root, realRoot, info, state, opt, fn)
 	}
 	if err == SkipDir || err == SkipAll {
 		return nil
-- 
2.43.0


From ffd1faa3889c5f877ebc4bb2771ae0535bdf0311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 23/42] fix: tarfs: storage that became shorter was read as the
 end of the file

---
 tarfs/reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tarfs/reader.go b/tarfs/reader.go
index 77d6787..4eafe6f 100644
--- a/tarfs/reader.go
+++ b/tarfs/reader.go
@@ -14,7 +14,10 @@ type seekReadReaderAt interface {
 
 func makeReader(ra io.ReaderAt, h *Section) seekReadReaderAt {
 	if h.holes == nil {
-		return io.NewSectionReader(ra, h.BodyStart(), h.BodyEnd()-h.BodyStart())
+		// Not a bare section reader:
+		// ra that has become shorter than the archive must not be read as the end of the file.
+		sr := io.NewSectionReader(ra, h.BodyStart(), h.BodyEnd()-h.BodyStart())
+		return stream.NewMultiReadAtSeekCloser([]stream.SizedReaderAt{{R: sr, Size: sr.Size()}})
 	}
 
 	var readers []stream.SizedReaderAt
-- 
2.43.0


From 982f95d5239cbb1abed229ddf0e292b9c87bcf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:16 +0000
Subject: [PATCH 24/42] fix: tarfs: a failing read of a sparse map was ignored,
 and contiguous-file entries shifted later offsets, so sparse files showed
 wrong content

---
 tarfs/headers.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tarfs/headers.go b/tarfs/headers.go
index 23a74a3..5d8bc98 100644
--- a/tarfs/headers.go
+++ b/tarfs/headers.go
@@ -80,11 +80,15 @@ func Sections(r io.ReaderAt) iter.Seq2[*Section, error] {
 				hh.headerStart = prev.bodyEnd + (-prev.bodyEnd)&(blockSize-1)
 			}
 
-			hh.holes, _ = reconstructSparse(r, hh, &blk)
+			hh.holes, err = reconstructSparse(r, hh, &blk)
+			if err != nil {
+				yield(nil, fmt.Errorf("read tar archive: %w", err))
+				return
+			}
 
 			switch hh.h.Typeflag {
 			case tar.TypeLink, tar.TypeSymlink, tar.TypeChar, tar.TypeBlock, tar.TypeDir, tar.TypeFifo,
-				tar.TypeCont, tar.TypeXHeader, tar.TypeXGlobalHeader,
+				tar.TypeXHeader, tar.TypeXGlobalHeader,
 				tar.TypeGNULongName, tar.TypeGNULongLink:
 				// They have size for name.
 				hh.bodyEnd = hh.headerEnd
-- 
2.43.0


From b250863b07161b1eb62e2d3f6208caaf6bcae9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 25/42] fix: tarfs: a directory only implied by its entries'
 names panicked, and listings counted replaced entries

---
 tarfs/entdir.go | 51 ++++++++++++++++++++++++++++++++-----------------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index 10bff9f..4a835b8 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"slices"
 	"strings"
 	"sync"
 	"syscall"
@@ -51,20 +52,13 @@ func (d *dir) addChild(name string, hdr *Section) {
 
 		if !isLastComponent {
 			// Intermediate component - ensure directory exists
-			child, ok := currentDir.files[component]
+			child, ok := currentDir.files[component].(*dir)
 			if !ok {
-				child = &dir{parent: currentDir}
-				currentDir.files[component] = child
-				currentDir.ordered = append(currentDir.ordered, child)
+				// TODO: warn about this if it replaces a non directory?
+				child = &dir{h: impliedDirSection(name[:offset]), parent: currentDir}
+				currentDir.setEntry(component, child)
 			}
-			_, ok = child.(*dir)
-			if !ok {
-				// TODO: warn about this?
-				child = &dir{parent: currentDir}
-				currentDir.files[component] = child
-				currentDir.ordered = append(currentDir.ordered, child)
-			}
-			currentDir = child.(*dir)
+			currentDir = child
 			// Ensure the child directory has an initialized files map and parent link
 			if currentDir.files == nil {
 				currentDir.files = make(map[string]direntry)
@@ -82,7 +76,7 @@ func (d *dir) addChild(name string, hdr *Section) {
 					if !ok {
 						// TODO: warn about this?
 						dirHandle = &dir{parent: currentDir}
-						currentDir.files[component] = dirHandle
+						currentDir.setEntry(component, dirHandle)
 					}
 					dirHandle.h = hdr
 					if dirHandle.parent == nil {
@@ -99,13 +93,36 @@ func (d *dir) addChild(name string, hdr *Section) {
 				ent = &file{h: hdr}
 			}
 			if ent != nil {
-				currentDir.files[component] = ent
-				currentDir.ordered = append(currentDir.ordered, ent)
+				currentDir.setEntry(component, ent)
 			}
 		}
 	}
 }
 
+// setEntry places ent under name, keeping files and ordered in step.
+func (d *dir) setEntry(name string, ent direntry) {
+	if old, ok := d.files[name]; ok {
+		if i := slices.Index(d.ordered, old); i >= 0 {
+			d.ordered[i] = ent
+		}
+	} else {
+		d.ordered = append(d.ordered, ent)
+	}
+	d.files[name] = ent
+}
+
+// impliedDirSection returns a header for a directory which the archive only mentions
+// as a part of its entries' names.
+func impliedDirSection(name string) *Section {
+	return &Section{
+		h: &tar.Header{
+			Typeflag: tar.TypeDir,
+			Name:     name,
+			Mode:     0o755,
+		},
+	}
+}
+
 func (d *dir) openChild(name string, skipLastComponent bool, fsys *Fs) (direntry, error) {
 	if name == "." {
 		return d, nil
@@ -298,7 +315,7 @@ func (d *openDir) ReadDir(n int) ([]fs.DirEntry, error) {
 		return nil, pathErr("readdir", d.path, fs.ErrClosed)
 	}
 
-	if d.cursor >= len(d.dir.files) {
+	if d.cursor >= len(d.dir.ordered) {
 		if n <= 0 {
 			return nil, nil
 		}
@@ -309,7 +326,7 @@ func (d *openDir) ReadDir(n int) ([]fs.DirEntry, error) {
 		n = len(d.dir.ordered) - d.cursor
 	}
 
-	out := make([]fs.DirEntry, min(n, len(d.dir.files)-d.cursor))
+	out := make([]fs.DirEntry, min(n, len(d.dir.ordered)-d.cursor))
 	for i := range out {
 		out[i] = fs.FileInfoToDirEntry(d.dir.ordered[d.cursor].header().h.FileInfo())
 		d.cursor++
-- 
2.43.0


From 284d5807045c6af2e55f52ce8a2947dc7d88c1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:34 +0000
Subject: [PATCH 26/42] fix: tarfs: links to '.', '..' or other links were
 resolved wrongly or panicked, and names starting with two dots were dropped

---
 tarfs/entdir.go | 20 +++++++++++---------
 tarfs/fs.go     | 26 ++++++++++++++++++++------
 2 files changed, 31 insertions(+), 15 deletions(-)

diff --git a/tarfs/entdir.go b/tarfs/entdir.go
index 4a835b8..ba596d3 100644
--- a/tarfs/entdir.go
+++ b/tarfs/entdir.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
+	"path"
 	"slices"
 	"strings"
 	"sync"
@@ -147,7 +148,8 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 
 		switch component {
 		case ".":
-			return currentDir, nil
+			currentDirent = currentDir
+			continue
 		case "..":
 			if fsys.isRooted && (currentDir == fsys.root || currentDir == fsys.subRoot) {
 				return nil, pathErr("open", name, fsutil.ErrPathEscapes)
@@ -156,6 +158,7 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 				return nil, pathErr("open", name, fs.ErrNotExist)
 			}
 			currentDir = currentDir.parent
+			currentDirent = currentDir
 			continue
 		}
 
@@ -193,15 +196,14 @@ func (d *dir) openChildResolve(name string, skipLastComponent bool, fsys *Fs) (d
 				continue
 			case *hardlink:
 				// This is almost impossible but handle anyway
-				target, err := fsys.resolveHardlink(x)
-				if err != nil {
-					return nil, err
-				}
-				if dirTarget, ok := target.(*dir); ok {
-					currentDir = dirTarget
-					continue
+				if currentResolved >= maxSymlinkResolution {
+					return nil, pathErr("open", name, errdef.ELOOP)
 				}
-				return nil, pathErr("open", name, syscall.ENOTDIR)
+				currentResolved++
+
+				currentDir = fsys.root
+				rest = path.Clean(x.header().Header().Linkname) + "/" + rest
+				continue
 			default:
 				return nil, pathErr("open", name, syscall.ENOTDIR)
 			}
diff --git a/tarfs/fs.go b/tarfs/fs.go
index cb84efa..580499a 100644
--- a/tarfs/fs.go
+++ b/tarfs/fs.go
@@ -7,8 +7,9 @@ import (
 	"maps"
 	"path"
 	"slices"
-	"strings"
 	"time"
+
+	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
 )
 
 var _ fs.FS = (*Fs)(nil)
@@ -68,9 +69,9 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 	delete(headers, ".")
 
 	for _, key := range slices.Sorted(maps.Keys(headers)) {
-		if strings.HasPrefix(key, "..") {
-			// reject paths traversing upward even when tarinsecurepath = 1.
-			// Anyway fs.ValidPath check will reject this.
+		if !fs.ValidPath(key) {
+			// reject absolute paths and paths traversing upward even when tarinsecurepath = 1.
+			// Methods only accept names valid for fs.ValidPath anyway.
 			continue
 		}
 		switch headers[key].h.Typeflag {
@@ -99,8 +100,21 @@ func New(r io.ReaderAt, opt *FsOption) (*Fs, error) {
 }
 
 func (fsys *Fs) resolveHardlink(hl *hardlink) (direntry, error) {
-	target := path.Clean(hl.header().Header().Linkname)
-	return fsys.root.openChild(target, false, fsys)
+	// A link may target another link.
+	const maxHardlinkResolution = 40
+	for range maxHardlinkResolution {
+		target := path.Clean(hl.header().Header().Linkname)
+		dirent, err := fsys.root.openChild(target, false, fsys)
+		if err != nil {
+			return nil, err
+		}
+		next, ok := dirent.(*hardlink)
+		if !ok {
+			return dirent, nil
+		}
+		hl = next
+	}
+	return nil, pathErr("open", hl.header().Header().Name, errdef.ELOOP)
 }
 
 func (fsys *Fs) findFile(name string, skipLastElement bool) (direntry, error) {
-- 
2.43.0


From 50299dfca98cbbd4dc81083c011c6bf00a4be9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:25 +0000
Subject: [PATCH 27/42] fix: FromIoFs handles: leave vanished entries out of
 Readdir, keep partial listings

---
 vroot/iofs_from.go | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/vroot/iofs_from.go b/vroot/iofs_from.go
index 97bd22b..ff9b7ab 100644
--- a/vroot/iofs_from.go
+++ b/vroot/iofs_from.go
@@ -211,36 +211,38 @@ func (f *expandedFile) ReadDir(n int) ([]fs.DirEntry, error) {
 }
 
 func (f *expandedFile) Readdir(n int) ([]fs.FileInfo, error) {
-	entries, err := f.ReadDir(n)
-	if err != nil {
-		return nil, err
-	}
-
-	infos := make([]fs.FileInfo, len(entries))
-	for i, entry := range entries {
-		info, err := entry.Info()
-		if err != nil && !errors.Is(err, fs.ErrNotExist) {
-			// Info ≈ Lstat; a concurrent removal between ReadDir and Info is
-			// tolerated by suppressing fs.ErrNotExist, mirroring how
-			// os.(*File).Readdir behaves with disappearing entries.
-			return nil, err
+	infos := []fs.FileInfo{}
+	for {
+		entries, err := f.ReadDir(n)
+		for _, entry := range entries {
+			info, err := entry.Info()
+			if errors.Is(err, fs.ErrNotExist) {
+				// Info ≈ Lstat; an entry concurrently removed between ReadDir and
+				// Info is left out, mirroring how os.(*File).Readdir behaves with
+				// disappearing entries.
+				continue
+			}
+			if err != nil {
+				return infos, err
+			}
+			infos = append(infos, info)
+		}
+		// With n > 0 an empty result must come with an error, so read on when
+		// every entry of this chunk has disappeared.
+		if err != nil || n <= 0 || len(infos) > 0 || len(entries) == 0 {
+			return infos, err
 		}
-		infos[i] = info
 	}
-	return infos, nil
 }
 
 func (f *expandedFile) Readdirnames(n int) (names []string, err error) {
 	entries, err := f.ReadDir(n)
-	if err != nil {
-		return nil, err
-	}
 
 	names = make([]string, len(entries))
 	for i, entry := range entries {
 		names[i] = entry.Name()
 	}
-	return names, nil
+	return names, err
 }
 
 func (f *expandedFile) Seek(offset int64, whence int) (ret int64, err error) {
-- 
2.43.0


From 801b806b859160740384603e16fe92843f068ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:29 +0000
Subject: [PATCH 28/42] fix: sftpfs: MkdirAll and OpenFile changed the mode of
 what already existed

---
 vroot-adapter/sftpfs/sftpfs.go | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index aab4ee8..00989d3 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -159,16 +159,23 @@ func (s *SftpFs) Mkdir(name string, perm fs.FileMode) error {
 	return nil
 }
 
-// MkdirAll implements [vroot.Fs].
+// MkdirAll implements [vroot.Fs]. perm is best-effort applied via Chmod, and
+// only if name did not exist: like [os.MkdirAll], an existing directory is
+// left as it is.
 func (s *SftpFs) MkdirAll(name string, perm fs.FileMode) error {
 	abs, err := s.resolvePath(name)
 	if err != nil {
 		return fsutil.WrapPathErr("mkdir", name, err)
 	}
+	created := false
+	if perm != 0 {
+		_, err := s.client.Stat(abs)
+		created = isSftpNotExist(err)
+	}
 	if err := s.client.MkdirAll(abs); err != nil {
 		return err
 	}
-	if perm != 0 {
+	if created {
 		_ = s.client.Chmod(abs, perm)
 	}
 	return nil
@@ -183,7 +190,7 @@ func (s *SftpFs) Open(name string) (vroot.File, error) {
 }
 
 // OpenFile implements [vroot.Fs]. perm is best-effort applied via
-// Chmod after the open succeeds.
+// Chmod after the open succeeds, and only if the open created the file.
 //
 // O_APPEND is honored by seeking to end of file after open because pkg/sftp's
 // stock Server does not implement append-on-write — it ignores SSH_FXF_APPEND
@@ -193,6 +200,16 @@ func (s *SftpFs) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File,
 	if err != nil {
 		return nil, fsutil.WrapPathErr("open", name, err)
 	}
+	// sftp does not tell whether the open created the file. With O_EXCL it must
+	// have; otherwise look first, so that an existing file keeps its mode.
+	created := false
+	if perm != 0 && flag&os.O_CREATE != 0 {
+		created = flag&os.O_EXCL != 0
+		if !created {
+			_, err := s.client.Stat(abs)
+			created = isSftpNotExist(err)
+		}
+	}
 	f, err := s.client.OpenFile(abs, flag)
 	if err != nil {
 		return nil, mapSftpErr(err)
@@ -203,7 +220,7 @@ func (s *SftpFs) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File,
 			return nil, fsutil.WrapPathErr("open", name, err)
 		}
 	}
-	if perm != 0 && (flag&os.O_CREATE != 0) {
+	if created {
 		_ = s.client.Chmod(abs, perm)
 	}
 	return &sftpFile{File: f, client: s.client}, nil
-- 
2.43.0


From 814def1979d3ad281563900b087c58fa31d59210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:02 +0000
Subject: [PATCH 29/42] fix: sftpfs: a closed directory handle could still be
 listed

---
 vroot-adapter/sftpfs/sftpfs.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index 00989d3..ab1b3e7 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -392,6 +392,7 @@ type sftpFile struct {
 	dirEntries []os.FileInfo
 	dirLoaded  bool
 	dirErr     error
+	closed     bool
 }
 
 func (f *sftpFile) Fd() uintptr { return ^uintptr(0) }
@@ -400,6 +401,15 @@ func (f *sftpFile) WriteString(s string) (int, error) {
 	return f.Write([]byte(s))
 }
 
+// Close closes the remote handle. Directory listings are fetched by path rather
+// than through the handle, so the close has to be remembered for them.
+func (f *sftpFile) Close() error {
+	f.dirMu.Lock()
+	f.closed = true
+	f.dirMu.Unlock()
+	return f.File.Close()
+}
+
 // Sync forwards to *sftp.File.Sync. Servers that lack the fsync@openssh.com
 // extension (notably pkg/sftp's stock NewServer; OpenSSH's sftp-server has it)
 // surface that as SSH_FX_OP_UNSUPPORTED — treat that as a successful no-op
@@ -421,6 +431,9 @@ func (f *sftpFile) Sync() error {
 func (f *sftpFile) loadDir() error {
 	f.dirMu.Lock()
 	defer f.dirMu.Unlock()
+	if f.closed {
+		return fsutil.WrapPathErr("readdir", f.Name(), fs.ErrClosed)
+	}
 	if f.dirLoaded {
 		return f.dirErr
 	}
-- 
2.43.0


From 3ce61c8274dd134c6d970945fc676a707aba5b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:15 +0000
Subject: [PATCH 30/42] fix: sftpfs: RemoveAll reported success for dangling
 symlinks the server refused to remove

---
 vroot-adapter/sftpfs/sftpfs.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vroot-adapter/sftpfs/sftpfs.go b/vroot-adapter/sftpfs/sftpfs.go
index ab1b3e7..bcbdcf9 100644
--- a/vroot-adapter/sftpfs/sftpfs.go
+++ b/vroot-adapter/sftpfs/sftpfs.go
@@ -280,9 +280,12 @@ func (s *SftpFs) removeAll(abs string) error {
 	// back from unlink to rmdir, so a single call also clears empty
 	// directories and removes symlinks without following them.
 	err := s.client.Remove(abs)
-	if err == nil || isSftpNotExist(err) {
+	if err == nil {
 		return nil
 	}
+	// A not-exist error alone does not mean that abs is gone: Client.Remove
+	// falls back on Stat when the server refuses, and for a dangling or looping
+	// symlink that says not-exist. The Lstat below tells.
 
 	// Otherwise, is this a directory we need to recurse into? Lstat (not
 	// Stat) so a symlink is described, never traversed.
-- 
2.43.0


From 7d4602d3e58f433ad783e6a0c84bb0462d938f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:12 +0000
Subject: [PATCH 31/42] fix: overlayfs: a sub-root whose directory was swapped
 for a symlink led outside

---
 vroot-adapter/overlayfs/resolve.go | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/vroot-adapter/overlayfs/resolve.go b/vroot-adapter/overlayfs/resolve.go
index fd5bf55..ac270ec 100644
--- a/vroot-adapter/overlayfs/resolve.go
+++ b/vroot-adapter/overlayfs/resolve.go
@@ -1,8 +1,10 @@
 package overlayfs
 
 import (
+	"errors"
 	"io/fs"
 	"path/filepath"
+	"syscall"
 
 	"github.com/ngicks/go-fsys-helper/fsutil"
 	"github.com/ngicks/go-fsys-helper/vroot"
@@ -69,6 +71,9 @@ func (r resolver) ReadLink(name string) (string, error) {
 // layer its target resolves to, because every step of the walk asks the merged
 // view rather than the layer the link came from.
 func (f *Fs) resolve(name string, skipLast bool) (string, error) {
+	if err := f.checkBase(); err != nil {
+		return "", err
+	}
 	resolved, err := fsutil.ResolvePath(resolver{f}, name, skipLast)
 	if err != nil {
 		return "", err
@@ -76,6 +81,25 @@ func (f *Fs) resolve(name string, skipLast bool) (string, error) {
 	return f.name(resolved)
 }
 
+// checkBase refuses a sub-root whose directory, or one above it, has been
+// swapped for a symlink since [Fs.OpenRoot] resolved it: the layers would follow
+// the link to wherever it points, outside the sub-root.
+func (f *Fs) checkBase() error {
+	for _, comp := range ancestry(f.base) {
+		res, err := f.state.lookup(comp)
+		switch {
+		case errors.Is(err, fs.ErrNotExist), errors.Is(err, syscall.ENOTDIR):
+			// Nothing there to be followed; the operation finds out itself.
+			return nil
+		case err != nil:
+			return err
+		case res.info.Mode()&fs.ModeSymlink != 0:
+			return vroot.ErrPathEscapes
+		}
+	}
+	return nil
+}
+
 // locate is the step every read shares: resolve name over the merged view, then
 // look up where it lands. It reports the resolved name as well — the spelling
 // the masking state, and with it the open-handle count, is keyed by. The caller
-- 
2.43.0


From c7890ac3b3b205f8b57f6b4c5fb8d276ec0cb672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:56 +0000
Subject: [PATCH 32/42] fix: fsutil, overlayfs: '..' in a link's target was
 applied to the spelling of a link before it, not to where it leads

---
 fsutil/resolve_symlink.go       | 134 +++++++++++++++++++-------------
 vroot-adapter/overlayfs/open.go |  24 +++++-
 2 files changed, 105 insertions(+), 53 deletions(-)

diff --git a/fsutil/resolve_symlink.go b/fsutil/resolve_symlink.go
index f6ae400..5fe0ed9 100644
--- a/fsutil/resolve_symlink.go
+++ b/fsutil/resolve_symlink.go
@@ -2,12 +2,12 @@ package fsutil
 
 import (
 	"bytes"
-	"cmp"
 	"errors"
 	"io/fs"
 	"os"
 	"path/filepath"
 	"strings"
+	"syscall"
 
 	"github.com/ngicks/go-fsys-helper/fsutil/errdef"
 )
@@ -69,21 +69,44 @@ func ResolvePath(
 
 	resolved := new(bytes.Buffer)
 
-	i := 0
+	sep := string(filepath.Separator)
+	// whether resolved is something other than a directory.
+	notDir := false
 	offStart := 0
 	offEnd := 0
 	for offStart < len(name) {
-		if i > 0 {
-			resolved.WriteByte(filepath.Separator)
-		}
-
-		if idx := strings.Index(name[offStart:], string(filepath.Separator)); idx >= 0 {
+		if idx := strings.Index(name[offStart:], sep); idx >= 0 {
 			offEnd = offStart + idx
 		} else {
 			offEnd = len(name)
 		}
+		elem := name[offStart:offEnd]
+
+		switch elem {
+		case "", ".", "..":
+			// Only found in the target of a link. ".." is applied to where the
+			// elements before it really lead, which for a link is not where it lies.
+			if notDir {
+				return resolved.String(), WrapPathErr("stat", resolved.String(), syscall.ENOTDIR)
+			}
+			if elem == ".." {
+				if resolved.Len() == 0 {
+					return name[offStart:], ErrPathEscapes
+				}
+				resolved.Truncate(max(strings.LastIndex(resolved.String(), sep), 0))
+			}
+			offStart = offEnd + 1
+			continue
+		}
+		if !filepath.IsLocal(elem) {
+			return resolved.String(), ErrPathEscapes
+		}
 
-		resolved.WriteString(name[offStart:offEnd])
+		parent := resolved.Len()
+		if parent > 0 {
+			resolved.WriteByte(filepath.Separator)
+		}
+		resolved.WriteString(elem)
 
 		info, err := fsys.Lstat(resolved.String())
 		if err != nil {
@@ -94,55 +117,48 @@ func ResolvePath(
 		}
 
 		if info.Mode()&fs.ModeSymlink == 0 {
+			notDir = !info.IsDir()
 			offStart = offEnd + 1
-			i++
 			continue
 		}
 
-		// One hop at a time: the walk restarts at what the link holds, so that a
-		// link found there is only ever read, and its target joined, at its real
-		// path. The target of a link reached through a link may itself be a link;
-		// "../x" in it is relative to where that one really lies.
+		// One hop at a time: the walk goes on with what the link holds from where
+		// the link lies, so that a link found there is only ever read, and its
+		// target applied, at its real path. The target of a link reached through a
+		// link may itself be a link; "../x" in it is relative to where that one
+		// really lies.
 		target, err := fsys.ReadLink(resolved.String())
 		if err != nil {
 			return resolved.String(), err
 		}
-
-		currentResolved := ""
-		if !filepath.IsAbs(target) {
-			currentResolved = filepath.Join(filepath.Dir(resolved.String()), target)
-		}
+		target = filepath.FromSlash(target)
 
 		curLinkResolved++
 		if curLinkResolved >= maxSymlinkResolutionCount {
-			return cmp.Or(
-					currentResolved,
-					resolved.String(),
-				), WrapPathErr(
-					"stat",
-					name,
-					errdef.ELOOP,
-				)
-		}
-
-		if currentResolved == "" || !filepath.IsLocal(currentResolved) {
-			// Target is absolute or has "..".
+			return filepath.Join(resolved.String()[:parent], target), WrapPathErr(
+				"stat",
+				name,
+				errdef.ELOOP,
+			)
+		}
+
+		if strings.HasPrefix(target, sep) || filepath.VolumeName(target) != "" {
+			// Target is absolute.
 			// *os.Root rejects this anyway, since it cannot tell final result is within root.
 			// *os.Root depends on "at" variants of syscalls(e.g. openat.)
 			// The root directory may be moved after open,
 			// but you don't have robust way to convert an fd back to a path on the filesystem,
 			// maybe even multiple paths are linked to a file.
-			return cmp.Or(currentResolved, resolved.String()), ErrPathEscapes
+			return resolved.String(), ErrPathEscapes
 		}
 
-		if offEnd >= len(name) {
-			name = currentResolved
-		} else {
-			name = currentResolved + name[offEnd:]
-		}
-		i = 0
+		name = target + name[offEnd:]
 		offStart = 0
-		resolved.Reset()
+		resolved.Truncate(parent)
+	}
+
+	if resolved.Len() == 0 && lastPart == "" {
+		return ".", nil
 	}
 
 	if lastPart != "" {
@@ -184,15 +200,31 @@ func ResolveSymlink(
 		}
 		numSymlink++
 
-		target = filepath.Clean(target)
+		target = filepath.FromSlash(target)
 
-		if filepath.IsAbs(target) {
+		parent := filepath.Dir(resolved)
+		if filepath.IsAbs(target) || !filepath.IsLocal(parent) {
 			// can't tell whether this target is non-symlnk or not,
 			// just return ""
 			return "", numSymlink, nil
 		}
 
-		resolved = filepath.Join(filepath.Dir(resolved), target)
+		// The target may lead through other links: only at its real path does a
+		// relative target found there, or a "..", mean what it says.
+		dir, base := filepath.Split(target)
+		if base == "." || base == ".." {
+			dir, base = target, "."
+		}
+		dir, n, err := resolveDir(
+			fsys,
+			parent+string(filepath.Separator)+dir,
+			maxResolution-numSymlink,
+		)
+		numSymlink += n
+		if err != nil || dir == "" {
+			return "", numSymlink, err
+		}
+		resolved = filepath.Join(dir, base)
 
 		if !filepath.IsLocal(resolved) {
 			// same as absolute path,
@@ -200,15 +232,6 @@ func ResolveSymlink(
 			return "", numSymlink, nil
 		}
 
-		// The target may lead through other links: only at its real path does a
-		// relative target found there mean what it says.
-		dir, n, err := resolveDir(fsys, filepath.Dir(resolved), maxResolution-numSymlink)
-		numSymlink += n
-		if err != nil || dir == "" {
-			return "", numSymlink, err
-		}
-		resolved = filepath.Join(dir, filepath.Base(resolved))
-
 		info, err := fsys.Lstat(resolved)
 		if err != nil {
 			return "", numSymlink, err
@@ -221,7 +244,7 @@ func ResolveSymlink(
 	return "", numSymlink, WrapPathErr("stat", linkRealPath, errdef.ELOOP)
 }
 
-// resolveDir resolves every link dir, a local path, leads through. Like
+// resolveDir resolves every link dir, a relative path, leads through. Like
 // [ResolveSymlink] it returns "" for a path it can't tell the real path of.
 func resolveDir(
 	fsys interface {
@@ -233,7 +256,14 @@ func resolveDir(
 ) (resolved string, numSymlink int, err error) {
 	resolved = "."
 	for _, elem := range strings.Split(dir, string(filepath.Separator)) {
-		if elem == "." {
+		switch elem {
+		case "", ".":
+			continue
+		case "..":
+			if resolved == "." {
+				return "", numSymlink, nil
+			}
+			resolved = filepath.Dir(resolved)
 			continue
 		}
 		resolved = filepath.Join(resolved, elem)
diff --git a/vroot-adapter/overlayfs/open.go b/vroot-adapter/overlayfs/open.go
index 35379cd..5ec0a03 100644
--- a/vroot-adapter/overlayfs/open.go
+++ b/vroot-adapter/overlayfs/open.go
@@ -108,11 +108,33 @@ func (f *Fs) resolveCreate(name string, follow bool) (string, error) {
 			return "", vroot.ErrPathEscapes
 		}
 		dir := strings.TrimPrefix(strings.TrimPrefix(parentName(full), f.base), "/")
-		name = filepath.Join(filepath.FromSlash(dir), target)
+		if name, err = f.follow(filepath.FromSlash(dir), target); err != nil {
+			return "", err
+		}
 	}
 	return "", errdef.ELOOP
 }
 
+// follow is the name a link lying in dir, a real directory of this view, holds
+// the target of, resolved but for its last component. ".." is applied to where
+// the components before it really lead.
+func (f *Fs) follow(dir, target string) (string, error) {
+	for elems := strings.Split(filepath.ToSlash(target), "/"); ; elems = elems[1:] {
+		name := filepath.Join(dir, elems[0])
+		if len(elems) == 1 {
+			return name, nil
+		}
+		full, res, err := f.locate(name, false)
+		switch {
+		case err != nil:
+			return "", err
+		case !res.info.IsDir():
+			return "", syscall.ENOTDIR
+		}
+		dir = filepath.FromSlash(strings.TrimPrefix(strings.TrimPrefix(full, f.base), "/"))
+	}
+}
+
 // maxCreateLinks bounds the links [Fs.resolveCreate] chases, as [fsutil.ResolvePath]
 // bounds its own.
 const maxCreateLinks = 40
-- 
2.43.0


From 4e199317e42e6d86a223f0d3e886ba2488b32f89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:45 +0000
Subject: [PATCH 33/42] fix: overlayfs: sync the database along with a crashed
 writer's journal before the metadata store is used

---
 .../overlayfs/internal/sqlvfs/open.go         | 22 +++++++++++++------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/vroot-adapter/overlayfs/internal/sqlvfs/open.go b/vroot-adapter/overlayfs/internal/sqlvfs/open.go
index 95edf15..e6d4e23 100644
--- a/vroot-adapter/overlayfs/internal/sqlvfs/open.go
+++ b/vroot-adapter/overlayfs/internal/sqlvfs/open.go
@@ -42,15 +42,23 @@ func Open(fsys vroot.Fs[vroot.File], name string, pragmas ...string) (*DB, error
 // readable, yet a later power loss would bring the old header back and roll it
 // back. Nothing else syncs it: changes which turn out to be already in place are
 // acknowledged without touching the journal.
+//
+// The database goes with it: a rollback that could not sync it may have emptied
+// it, and sqlite drops the journal of an empty database without a look at it.
 func syncJournal(fsys vroot.Fs[vroot.File], name string) error {
-	f, err := fsys.OpenFile(cleanPath(name)+"-journal", os.O_RDWR, 0)
-	if errors.Is(err, fs.ErrNotExist) {
-		return nil
-	}
-	if err != nil {
-		return err
+	for _, p := range []string{cleanPath(name) + "-journal", cleanPath(name)} {
+		f, err := fsys.OpenFile(p, os.O_RDWR, 0)
+		if errors.Is(err, fs.ErrNotExist) {
+			return nil
+		}
+		if err != nil {
+			return err
+		}
+		if err := errors.Join(f.Sync(), f.Close()); err != nil {
+			return err
+		}
 	}
-	return errors.Join(f.Sync(), f.Close())
+	return nil
 }
 
 // OpenReadOnly opens the sqlite database at name inside fsys for reading. It
-- 
2.43.0


From fd44a99b876acf812a1b02f1175fa566b6a61e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:40 +0000
Subject: [PATCH 34/42] fix: synthfs: a failing truncate on open locked the
 file system for good, a failing first open left an empty entry

---
 vroot/synthfs/open.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/vroot/synthfs/open.go b/vroot/synthfs/open.go
index e9e5b72..0c58bed 100644
--- a/vroot/synthfs/open.go
+++ b/vroot/synthfs/open.go
@@ -44,8 +44,13 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 				},
 				view: view,
 			}
+			h, err := r.openFileNode(nf, name, flag)
+			if err != nil {
+				_ = view.Close()
+				return nil, err
+			}
 			parent.addEntry(base, nf)
-			return r.openFileNode(nf, name, flag)
+			return h, nil
 		}
 	}
 
@@ -69,7 +74,9 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 			// Truncate through the open handle so aliased views (e.g. hard
 			// links) see the same shrink. Re-Allocate would desynchronize.
 			if terr := h.Truncate(0); terr != nil {
-				_ = h.Close()
+				// Not through h.Close, which locks the state as well.
+				nd.refCount--
+				_ = h.inner.Close()
 				return nil, terr
 			}
 		}
@@ -84,7 +91,7 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (vroot.File, er
 
 // openFileNode opens the view and wraps it in a fileHandle, bumping refCount
 // on success. Caller holds state.mu (write).
-func (r *Root) openFileNode(nd *file, userName string, flag int) (vroot.File, error) {
+func (r *Root) openFileNode(nd *file, userName string, flag int) (*fileHandle, error) {
 	inner, err := nd.view.Open(flag)
 	if err != nil {
 		return nil, toPathErr("open", userName, err)
-- 
2.43.0


From 32d5c6c11eff99d5f16efe97bfc258b48be2e0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:29 +0000
Subject: [PATCH 35/42] fix: synthfs: the content of a hard-linked file was
 released with the first of its names

---
 vroot/synthfs/link.go   |  8 +++++++-
 vroot/synthfs/node.go   | 14 ++++++++++++++
 vroot/synthfs/remove.go |  4 ++--
 vroot/synthfs/rename.go |  2 +-
 4 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/vroot/synthfs/link.go b/vroot/synthfs/link.go
index 482ec9f..33134c6 100644
--- a/vroot/synthfs/link.go
+++ b/vroot/synthfs/link.go
@@ -52,6 +52,11 @@ func (r *Root) Link(oldname, newname string) error {
 	}
 	// Hard link: share the same FileView so writes through either name reflect
 	// on the other. Mode/uid/gid are copied at link time.
+	if srcFile.names == nil {
+		srcFile.names = new(int)
+		*srcFile.names = 1
+	}
+	*srcFile.names++
 	parent.addEntry(base, &file{
 		metadata: metadata{
 			name:    base,
@@ -60,7 +65,8 @@ func (r *Root) Link(oldname, newname string) error {
 			uid:     srcFile.uid,
 			gid:     srcFile.gid,
 		},
-		view: srcFile.view,
+		view:  srcFile.view,
+		names: srcFile.names,
 	})
 	return nil
 }
diff --git a/vroot/synthfs/node.go b/vroot/synthfs/node.go
index eb64c92..e6aeedc 100644
--- a/vroot/synthfs/node.go
+++ b/vroot/synthfs/node.go
@@ -57,6 +57,20 @@ type dir struct {
 type file struct {
 	metadata
 	view FileView
+	// names counts the entries sharing view. nil until the file is hard-linked.
+	names *int
+}
+
+// unlinkView closes the view when the last entry sharing it is unlinked.
+// Caller must hold state.mu (write lock).
+func (f *file) unlinkView() {
+	if f.names != nil {
+		*f.names--
+		if *f.names > 0 {
+			return
+		}
+	}
+	_ = f.view.Close()
 }
 
 type symlink struct {
diff --git a/vroot/synthfs/remove.go b/vroot/synthfs/remove.go
index affb7b9..9afe79e 100644
--- a/vroot/synthfs/remove.go
+++ b/vroot/synthfs/remove.go
@@ -26,7 +26,7 @@ func (r *Root) Remove(name string) error {
 		}
 		parent.removeEntry(base)
 		if f, ok := target.(*file); ok {
-			_ = f.view.Close()
+			f.unlinkView()
 		}
 		return nil
 	})
@@ -85,6 +85,6 @@ func (r *Root) removeSubtree(n node) {
 			delete(nd.index, k)
 		}
 	case *file:
-		_ = nd.view.Close()
+		nd.unlinkView()
 	}
 }
diff --git a/vroot/synthfs/rename.go b/vroot/synthfs/rename.go
index 5b68752..468f681 100644
--- a/vroot/synthfs/rename.go
+++ b/vroot/synthfs/rename.go
@@ -48,7 +48,7 @@ func (r *Root) Rename(oldname, newname string) error {
 		}
 		newParent.removeEntry(newBase)
 		if f, ok := existing.(*file); ok {
-			_ = f.view.Close()
+			f.unlinkView()
 		}
 	}
 
-- 
2.43.0


From 49ad22b6714a05334f39e5de2682ae992e2fa1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:29 +0000
Subject: [PATCH 36/42] fix: synthfs: Stat of an open handle went to the file's
 released content

---
 vroot/synthfs/handle.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vroot/synthfs/handle.go b/vroot/synthfs/handle.go
index a12d32a..63bde5b 100644
--- a/vroot/synthfs/handle.go
+++ b/vroot/synthfs/handle.go
@@ -144,7 +144,8 @@ func (h *fileHandle) Stat() (fs.FileInfo, error) {
 	h.st.mu.RLock()
 	defer h.st.mu.RUnlock()
 	s := h.node.toStat()
-	info, err := h.node.view.Stat()
+	// The handle may outlive the view.
+	info, err := h.inner.Stat()
 	if err != nil {
 		return nil, fsutil.WrapPathErr("stat", h.name, err)
 	}
-- 
2.43.0


From 9ddfdf51a7d9a0adbe1923f36204450367a23ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:29 +0000
Subject: [PATCH 37/42] fix: synthfs: a leaf added in place of a directory left
 the contents below it unreleased

---
 vroot/synthfs/add.go | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index 703f06d..d344178 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -65,9 +65,7 @@ func (r *Root) AddFile(name string, view FileView, cb AddFunc) error {
 	case AddDecisionOverride:
 		if existingNode != nil {
 			parent.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
-			}
+			r.removeSubtree(existingNode)
 		}
 		parent.addEntry(base, &file{
 			metadata: metadata{
@@ -185,9 +183,7 @@ func (r *Root) addFSWalk(
 		}
 		if decision == AddDecisionOverride && existingNode != nil {
 			dst.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
-			}
+			r.removeSubtree(existingNode)
 		}
 		if decision == AddDecisionKeep && existingNode != nil {
 			return nil
@@ -215,9 +211,7 @@ func (r *Root) addFSWalk(
 		}
 		if existingNode != nil {
 			dst.removeEntry(base)
-			if f, ok := existingNode.(*file); ok {
-				_ = f.view.Close()
-			}
+			r.removeSubtree(existingNode)
 		}
 		dst.addEntry(base, &file{
 			metadata: metadata{
-- 
2.43.0


From 9a5905ace41302229f1af17e65464d9ed34b5b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:29 +0000
Subject: [PATCH 38/42] fix: synthfs: AddFS replaced existing leaves by
 directories, and added leaves to free paths, when told to keep

---
 vroot/synthfs/add.go | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index d344178..ffd3eb4 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -159,6 +159,10 @@ func (r *Root) addFSWalk(
 		case AddDecisionSkip:
 			return nil
 		case AddDecisionKeep:
+			if _, ok := existingNode.(*dir); existingNode != nil && !ok {
+				// An existing leaf is preferred over the incoming dir as well.
+				return nil
+			}
 			// Reuse or create + descend.
 			d := r.materializeDir(dst, base, info, existingNode, false)
 			return r.descend(d, mountSlash, fsys, rl, src, cb)
@@ -167,7 +171,9 @@ func (r *Root) addFSWalk(
 			return r.descend(d, mountSlash, fsys, rl, src, cb)
 		}
 	case info.Mode()&fs.ModeSymlink != 0:
-		if decision == AddDecisionSkip {
+		if decision == AddDecisionSkip || decision == AddDecisionKeep {
+			// Keep drops the incoming leaf whether or not there is an
+			// existing entry.
 			return nil
 		}
 		if rl == nil {
@@ -185,9 +191,6 @@ func (r *Root) addFSWalk(
 			dst.removeEntry(base)
 			r.removeSubtree(existingNode)
 		}
-		if decision == AddDecisionKeep && existingNode != nil {
-			return nil
-		}
 		dst.addEntry(base, &symlink{
 			metadata: metadata{
 				name:    base,
@@ -198,17 +201,15 @@ func (r *Root) addFSWalk(
 		})
 		return nil
 	default: // regular file
-		if decision == AddDecisionSkip {
+		if decision == AddDecisionSkip || decision == AddDecisionKeep {
+			// Keep drops the incoming leaf whether or not there is an
+			// existing entry.
 			return nil
 		}
 		view, err := NewFsView(fsys, src)
 		if err != nil {
 			return err
 		}
-		if decision == AddDecisionKeep && existingNode != nil {
-			_ = view.Close()
-			return nil
-		}
 		if existingNode != nil {
 			dst.removeEntry(base)
 			r.removeSubtree(existingNode)
-- 
2.43.0


From 45bd3040edd8f5fc5979af81596f7bd2e7ffc839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:29 +0000
Subject: [PATCH 39/42] fix: synthfs: additions replaced dangling symlinks on
 their way and were lost in removed directories

---
 vroot/synthfs/add.go  | 11 +++++++++++
 vroot/synthfs/tree.go | 11 ++++++++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/vroot/synthfs/add.go b/vroot/synthfs/add.go
index ffd3eb4..7f0f661 100644
--- a/vroot/synthfs/add.go
+++ b/vroot/synthfs/add.go
@@ -106,6 +106,9 @@ func (r *Root) AddFS(name string, fsys fs.FS, cb AddFunc) error {
 	// boundary itself is not a candidate for the resolver — we go straight
 	// to descending its children.
 	if slash == "." {
+		if r.st.removed(r.boundary) {
+			return fsutil.WrapPathErr("AddFS", name, fs.ErrNotExist)
+		}
 		return r.descend(r.boundary, ".", fsys, rl, ".", cb)
 	}
 
@@ -292,6 +295,9 @@ func (r *Root) ensureParents(name, op string) (*dir, string, error) {
 	if dirPart == "" {
 		dirPart = "."
 	}
+	if r.st.removed(r.boundary) {
+		return nil, "", fsutil.WrapPathErr(op, name, fs.ErrNotExist)
+	}
 	parent := r.boundary
 	if dirPart != "." {
 		for p := range paths.PathFromHead(filepath.FromSlash(dirPart)) {
@@ -313,6 +319,11 @@ func (r *Root) ensureParents(name, op string) (*dir, string, error) {
 			if perr != nil {
 				return nil, "", perr
 			}
+			if pParent.lookup(pBase) != nil {
+				// A symlink to nowhere; nothing is created through it nor in
+				// place of it.
+				return nil, "", err
+			}
 			d := newDir(pBase, scaffoldDirMode&^r.st.opt.umask, r.st.opt.clock.Now(), pParent)
 			pParent.addEntry(pBase, d)
 			parent = d
diff --git a/vroot/synthfs/tree.go b/vroot/synthfs/tree.go
index 6595fc8..46d8ee6 100644
--- a/vroot/synthfs/tree.go
+++ b/vroot/synthfs/tree.go
@@ -160,14 +160,19 @@ func (s *state) resolveParent(
 	if !ok {
 		return nil, "", fsutil.WrapPathErr(op, name, syscall.ENOTDIR)
 	}
-	if pd.parent == nil && pd != s.root {
-		// A Root may outlive the dir it is confined to. Nothing can be created
-		// in a removed dir; it would be lost.
+	if s.removed(pd) {
 		return nil, "", fsutil.WrapPathErr(op, name, fs.ErrNotExist)
 	}
 	return pd, base, nil
 }
 
+// removed reports whether d is unlinked from the tree. A Root may outlive the
+// dir it is confined to. Nothing can be created in a removed dir; it would be
+// lost. Caller must hold state.mu.
+func (s *state) removed(d *dir) bool {
+	return d.parent == nil && d != s.root
+}
+
 // fileForView returns a fresh stat reflecting v's current size; mode and
 // modTime stay with the node, only size is authoritative on the view.
 func statFromFileView(m *metadata, v FileView) (stat, error) {
-- 
2.43.0


From 5471fad362e29417a7cb9b917033263704c2db0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:35:02 +0000
Subject: [PATCH 40/42] fix: httprange: a transport failing with a bare EOF was
 reported as the end of the object

---
 stream/httprange/reader_at.go |  2 +-
 stream/httprange/redact.go    | 11 +++++++++++
 stream/httprange/stream.go    |  2 +-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/stream/httprange/reader_at.go b/stream/httprange/reader_at.go
index cf450da..02c56cf 100644
--- a/stream/httprange/reader_at.go
+++ b/stream/httprange/reader_at.go
@@ -56,7 +56,7 @@ func (r *ReaderAt) ReadAt(p []byte, off int64) (int, error) {
 
 	resp, err := r.client.Do(req)
 	if err != nil {
-		return 0, redactURLError(err)
+		return 0, transportError(err)
 	}
 	defer drainAndClose(resp.Body)
 
diff --git a/stream/httprange/redact.go b/stream/httprange/redact.go
index 0e95218..819ff39 100644
--- a/stream/httprange/redact.go
+++ b/stream/httprange/redact.go
@@ -2,6 +2,7 @@ package httprange
 
 import (
 	"errors"
+	"io"
 	"net/url"
 )
 
@@ -31,6 +32,16 @@ func redactRawURL(raw string) string {
 	return redactURL(u)
 }
 
+// transportError is what a request that failed in transport comes back as:
+// redacted, and never a bare [io.EOF], which a caller would take for the end of
+// the object.
+func transportError(err error) error {
+	if err == io.EOF {
+		return io.ErrUnexpectedEOF
+	}
+	return redactURLError(err)
+}
+
 // redactURLError replaces the URL carried by a [url.Error] anywhere in err's
 // tree with its redacted form, so that presigned tokens, basic-auth
 // passwords and the like never reach error text.
diff --git a/stream/httprange/stream.go b/stream/httprange/stream.go
index 02115e4..694368f 100644
--- a/stream/httprange/stream.go
+++ b/stream/httprange/stream.go
@@ -261,7 +261,7 @@ func (r *ReaderAt) openStream() error {
 	resp, err := r.client.Do(req)
 	if err != nil {
 		s.killLocked()
-		return redactURLError(err)
+		return transportError(err)
 	}
 
 	granted, err := r.checkStream(resp, start, wantEnd, ifRange != "")
-- 
2.43.0


From 82959cda4d798c4215d40a9fe58d6ac2b7937be1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:17 +0000
Subject: [PATCH 41/42] fix: fileserver: errors quoted URLs that cannot be
 parsed, with the credentials in them

---
 stream/fileserver/client.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stream/fileserver/client.go b/stream/fileserver/client.go
index b76a07c..ceff3f8 100644
--- a/stream/fileserver/client.go
+++ b/stream/fileserver/client.go
@@ -127,7 +127,8 @@ func redactURLError(err error) error {
 		return err
 	}
 	// Parse and redact the URL embedded in the *url.Error.
-	redacted := ue.URL
+	// A URL that cannot be parsed can still carry a credential.
+	redacted := "[redacted url]"
 	if u, parseErr := url.Parse(ue.URL); parseErr == nil {
 		u.User = nil
 		u.RawQuery = ""
-- 
2.43.0


From d16af729b7a3deb03994014fe2bec6e331200f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:45:19 +0000
Subject: [PATCH 42/42] fix: osfs.Root reports the escape error from ReadFile
 and WriteFile too

The methods promoted from os.Root returned its unexported error, which
vroot.ReadFile passes on, so that errors.Is(err, vroot.ErrPathEscapes) was
false there only.
---
 vroot/osfs/root.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vroot/osfs/root.go b/vroot/osfs/root.go
index b013a28..fc8001d 100644
--- a/vroot/osfs/root.go
+++ b/vroot/osfs/root.go
@@ -121,6 +121,11 @@ func (r *Root) OpenFile(name string, flag int, perm fs.FileMode) (*File, error)
 	return &File{f}, nil
 }
 
+func (r *Root) ReadFile(name string) ([]byte, error) {
+	b, err := r.Root.ReadFile(name)
+	return b, translateEscape(err)
+}
+
 func (r *Root) ReadLink(name string) (string, error) {
 	target, err := r.Readlink(name)
 	return target, translateEscape(err)
@@ -154,3 +159,7 @@ func (r *Root) OpenRoot(name string) (*Root, error) {
 	}
 	return &Root{rr}, nil
 }
+
+func (r *Root) WriteFile(name string, data []byte, perm fs.FileMode) error {
+	return translateEscape(r.Root.WriteFile(name, data, perm))
+}
-- 
2.43.0

