From 89e89add9f7159d2d30ea1933fec57ddc0d91994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:25 +0000
Subject: [PATCH 01/56] fix: read continuation areas of an opened directory
 from the image

File.ReadDir iterated over a reader limited to the directory itself, so
entries whose names or targets continue in another sector were decoded
from the wrong bytes.
---
 pkg/iso9660/file.go | 3 ++-
 pkg/iso9660/walk.go | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/file.go b/pkg/iso9660/file.go
index 5408633..2232611 100644
--- a/pkg/iso9660/file.go
+++ b/pkg/iso9660/file.go
@@ -22,6 +22,7 @@ import (
 )
 
 type File struct {
+	iso  io.ReaderAt
 	name string
 	fi   *FileInfo
 	r    *io.SectionReader
@@ -62,7 +63,7 @@ func (f *File) ReadDir() ([]*FileInfo, error) {
 	}
 
 	var entries []*FileInfo
-	err := iterDir(f.r, 0, f.r.Size(), func(fi *FileInfo) bool {
+	err := iterDir(f.iso, f.fi.Extent(), f.fi.Size(), func(fi *FileInfo) bool {
 		entries = append(entries, fi)
 		return true
 	})
diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index a786237..f31f25f 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -120,6 +120,7 @@ func (w *Walker) Open(name string) (*File, error) {
 	}
 
 	return &File{
+		iso:  w.iso,
 		name: name,
 		fi:   fi,
 		r:    io.NewSectionReader(w.iso, int64(fi.Extent())*LogicalBlockSize, fi.Size()),
-- 
2.43.0


From ee4db4b4fab29980102bf5a0eeeb7d89c9923752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:53 +0000
Subject: [PATCH 02/56] fix: do not share path slices between sibling
 directories in Walk

Appending to the parent's slice could reuse its backing array, so that
directories queued earlier were reported under a sibling's path.
---
 pkg/iso9660/walk.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index f31f25f..53c2571 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -80,8 +80,10 @@ func (w *Walker) Walk(root string, walkFn filepath.WalkFunc) (err error) {
 			}
 
 			if fi.IsDir() && fi.Name() != "." && fi.Name() != ".." {
+				parts := make([]string, 0, len(item.parts)+1)
+				parts = append(parts, item.parts...)
 				q.Enqueue(&walkItem{
-					parts: append(item.parts, fi.Name()),
+					parts: append(parts, fi.Name()),
 					fi:    fi,
 				})
 			}
-- 
2.43.0


From b57208288f3522137d50a14b7c9f156235926f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:53 +0000
Subject: [PATCH 03/56] fix: return the error of a walk callback from Walk

The result of iterating over the directory overwrote the callback's
error, so the walk carried on and returned nil.
---
 pkg/iso9660/walk.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 53c2571..031efeb 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -73,9 +73,10 @@ func (w *Walker) Walk(root string, walkFn filepath.WalkFunc) (err error) {
 
 	for q.Len() > 0 {
 		item := q.Dequeue().(*walkItem)
+		var walkErr error
 		err = iterDir(w.iso, item.fi.Extent(), item.fi.Size(), func(fi *FileInfo) bool {
 			path := "/" + strings.Join(item.parts, "/")
-			if err = walkFn(path, fi, nil); err != nil {
+			if walkErr = walkFn(path, fi, nil); walkErr != nil {
 				return false
 			}
 
@@ -89,6 +90,9 @@ func (w *Walker) Walk(root string, walkFn filepath.WalkFunc) (err error) {
 			}
 			return true
 		})
+		if walkErr != nil {
+			return walkErr
+		}
 		if err != nil {
 			return
 		}
-- 
2.43.0


From 8b774fc1931bfea84277dd49a4ee3df7cd0c92e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:53 +0000
Subject: [PATCH 04/56] fix: stop visiting files when the visitor returns an
 error

VisitFiles dropped the error, so failing to write a file's content went
unnoticed.
---
 pkg/iso9660/directoryinode.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/iso9660/directoryinode.go b/pkg/iso9660/directoryinode.go
index 59b390b..aa65d76 100644
--- a/pkg/iso9660/directoryinode.go
+++ b/pkg/iso9660/directoryinode.go
@@ -248,12 +248,14 @@ func (d *DirectoryInode) VisitFiles(visit Visitor) error {
 			case InodeTypeDirectory:
 				q.Enqueue(dent.child)
 			case InodeTypeFile:
-				visit(Relationship{
+				if err := visit(Relationship{
 					Parent:     parent,
 					Identifier: ident,
 					Name:       dent.name,
 					Child:      dent.child,
-				})
+				}); err != nil {
+					return err
+				}
 			}
 		}
 	}
-- 
2.43.0


From 00f25f13ca7293a92d0347862c04425a31ef4642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:14:53 +0000
Subject: [PATCH 05/56] fix: write the sector of an empty file

Every file is given at least one sector, but nothing was written for
empty files: the image came out short, or writing the next file panicked.
---
 pkg/iso9660/volume.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/volume.go b/pkg/iso9660/volume.go
index 2184966..c12d103 100644
--- a/pkg/iso9660/volume.go
+++ b/pkg/iso9660/volume.go
@@ -394,10 +394,16 @@ func (v *Volume) WriteTo(w io.Writer) (int64, error) {
 			return nil
 		}
 		assertLBA(finode.Start())
-		if _, err := finode.WriteTo(cw); err != nil {
+		n, err := finode.WriteTo(cw)
+		if err != nil {
 			return err
 		}
 
+		if n == 0 {
+			// Empty files occupy one sector too
+			return pad(cw, LogicalBlockSize)
+		}
+
 		if err := padOutSector(); err != nil {
 			return err
 		}
-- 
2.43.0


From 00d2770a392ae8bda4ec4cbdc17ac553c1a509f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:28 +0000
Subject: [PATCH 06/56] fix: decode symlink targets that end in ".", ".." or
 "/"

The end of the link was only noticed after an ordinary path component, so
such links were read as having no target.
---
 pkg/iso9660/rrip/sl.go | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/pkg/iso9660/rrip/sl.go b/pkg/iso9660/rrip/sl.go
index e3c7e19..259ded1 100644
--- a/pkg/iso9660/rrip/sl.go
+++ b/pkg/iso9660/rrip/sl.go
@@ -228,23 +228,16 @@ func DecodeSymlink(entries []susp.SystemUseEntry) (string, bool) {
 
 			if comp.Flags()&SymlinkComponentFlagCurrent != 0 {
 				parts = append(parts, ".")
-				continue
-			}
-
-			if comp.Flags()&SymlinkComponentFlagParent != 0 {
+			} else if comp.Flags()&SymlinkComponentFlagParent != 0 {
 				parts = append(parts, "..")
-				continue
-			}
-
-			if comp.Flags()&SymlinkComponentFlagRoot != 0 {
+			} else if comp.Flags()&SymlinkComponentFlagRoot != 0 {
 				parts = append(parts, "")
-				continue
-			}
-
-			partial = partial + comp.Data()
-			if comp.Flags()&SymlinkComponentFlagContinue == 0 {
-				parts = append(parts, partial)
-				partial = ""
+			} else {
+				partial = partial + comp.Data()
+				if comp.Flags()&SymlinkComponentFlagContinue == 0 {
+					parts = append(parts, partial)
+					partial = ""
+				}
 			}
 			if !v.Continue() {
 				return strings.Join(parts, string(os.PathSeparator)), true
-- 
2.43.0


From 7241cbf43cad8c0eb3b854eb4a617dbd1ce1f369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:48 +0000
Subject: [PATCH 07/56] fix: resolve absolute symlink targets from the root of
 the image

They were joined to the directory that holds the link.
---
 pkg/iso9660/walk.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 031efeb..5fd117f 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -175,7 +175,10 @@ func (w *Walker) stat(parts []string) (*FileInfo, error) {
 				// If the symlink is a file, only join the directory part of the path
 				path = filepath.Dir(path)
 			}
-			joined := filepath.Clean(filepath.Join(path, fi.Target()))
+			joined := fi.Target()
+			if !filepath.IsAbs(joined) {
+				joined = filepath.Join(path, joined)
+			}
 			parts = w.pathParts(joined)
 		} else {
 			return fi, nil
-- 
2.43.0


From 850f66262d5e505ab6f6270f33cbfb1df3514f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:48 +0000
Subject: [PATCH 08/56] fix: cache directories found below a cached directory
 under their path

A lookup that started at a cached directory cached what it passed under
paths relative to that directory, so later lookups returned entries of
other directories.
---
 pkg/iso9660/walk.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 5fd117f..2442f02 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -191,7 +191,9 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 	var start LogicalBlockAddress
 	var size int64
 	var cached *FileInfo
-	cached, parts = w.lstatCacheSearch(append([]string{"."}, parts...))
+	full := append([]string{"."}, parts...)
+	cached, parts = w.lstatCacheSearch(full)
+	path := append([]string(nil), full[:len(full)-len(parts)]...)
 	if cached == nil {
 		var pvd PrimaryVolumeDescriptor
 		pvdSector := io.NewSectionReader(w.iso, 16*LogicalBlockSize, LogicalBlockSize)
@@ -208,7 +210,6 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 		return cached, nil
 	}
 
-	var path []string
 	for len(parts) > 0 {
 		part := parts[0]
 		parts = parts[1:]
-- 
2.43.0


From 4a7ab3f1bf219af3e3c936c069275a0be6cfecd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:48 +0000
Subject: [PATCH 09/56] fix: do not look up names below a cached file

A listed file was treated as a directory when looking up a path below it,
so its content was decoded as directory records.
---
 pkg/iso9660/walk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 2442f02..314092d 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -204,6 +204,9 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 		start = pvd.RootStart
 		size = int64(pvd.RootLength)
 	} else if len(parts) > 0 {
+		if !cached.IsDir() {
+			return nil, syscall.ENOTDIR
+		}
 		start = cached.Extent()
 		size = cached.Size()
 	} else {
-- 
2.43.0


From 3e1d0ac10d2b1542f44570c86b6f76d567e61e9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:19:27 +0000
Subject: [PATCH 10/56] fix: do not cache directories under the names of their
 dot entries

Listing or passing a directory replaced the cached entries of itself and
its parent with ones named "." and "..", so later lookups returned those
names.
---
 pkg/iso9660/walk.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 314092d..a6e27de 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -148,8 +148,10 @@ func (w *Walker) ReadDir(dirname string) ([]*FileInfo, error) {
 	}
 
 	err = iterDir(w.iso, fi.Extent(), fi.Size(), func(fi *FileInfo) bool {
-		cacheKey := filepath.Join(filepath.Clean("/"+dirname), fi.Name())
-		w.lstatCache.Add(cacheKey, fi)
+		if fi.Name() != "." && fi.Name() != ".." {
+			cacheKey := filepath.Join(filepath.Clean("/"+dirname), fi.Name())
+			w.lstatCache.Add(cacheKey, fi)
+		}
 		entries = append(entries, fi)
 		return true
 	})
@@ -219,7 +221,10 @@ func (w *Walker) lstat(parts []string) (*FileInfo, error) {
 
 		var partInfo *FileInfo
 		err := iterDir(w.iso, start, size, func(fi *FileInfo) bool {
-			if fi.IsDir() {
+			// The dot entries describe directories that have a name of their
+			// own, except for the root.
+			isDot := fi.Name() == "." || fi.Name() == ".."
+			if fi.IsDir() && (!isDot || len(path) == 0) {
 				w.lstatCacheAdd(append(path, fi.Name()), fi)
 			}
 
-- 
2.43.0


From fb73abf1f58d9e28146067ff57a653c1a02a5e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:55 +0000
Subject: [PATCH 11/56] fix: stop iterating when reading a directory record
 length fails

After a failed read the iterator went on as if it had met padding and
skipped the rest of the sector.
---
 pkg/iso9660/walk.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index a6e27de..77f543a 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -532,6 +532,7 @@ func (it *DirectoryRecordIterator) Next() bool {
 				return false
 			}
 			it.err = err
+			return false
 		}
 
 		if rlen == 0 {
-- 
2.43.0


From c138e798cf5ed8f48ce9a4e8afc8c80cc875618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:55 +0000
Subject: [PATCH 12/56] fix: report directory records and continuation areas
 that are cut short

An image that ends early was listed without the missing entries, or with
truncated names.
---
 pkg/iso9660/walk.go | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 77f543a..03cdba4 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -15,8 +15,10 @@
 package iso9660
 
 import (
+	"bytes"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"os"
 	"path/filepath"
 	"strings"
@@ -314,8 +316,14 @@ func allSystemUseEntries(iso io.ReaderAt, rec *DirectoryRecord) ([]susp.SystemUs
 
 			ceStart := v.ContinuationStart()*LogicalBlockSize + v.ContinuationOffset()
 			ceLen := v.ContinuationLength()
-			ce := io.NewSectionReader(iso, int64(ceStart), int64(ceLen))
-			more, err := DecodeSystemUseEntries(ce)
+			ce, err := ioutil.ReadAll(io.NewSectionReader(iso, int64(ceStart), int64(ceLen)))
+			if err != nil {
+				return nil, err
+			}
+			if len(ce) < int(ceLen) {
+				return nil, io.ErrUnexpectedEOF
+			}
+			more, err := DecodeSystemUseEntries(bytes.NewReader(ce))
 			if err != nil {
 				return nil, err
 			}
@@ -527,6 +535,9 @@ func (it *DirectoryRecordIterator) Next() bool {
 		if err != nil {
 			it.rec = nil
 			it.recLen = -1
+			if err == io.EOF && it.Tell() < it.dir.Size() {
+				err = io.ErrUnexpectedEOF
+			}
 			if err == io.EOF {
 				it.err = nil
 				return false
@@ -548,8 +559,19 @@ func (it *DirectoryRecordIterator) Next() bool {
 			continue
 		}
 
+		body := make([]byte, int(rlen)-1)
+		if _, err := io.ReadFull(it.dir, body); err != nil {
+			it.rec = nil
+			it.recLen = -1
+			it.err = io.ErrUnexpectedEOF
+			if err != io.EOF {
+				it.err = err
+			}
+			return false
+		}
+
 		var rec DirectoryRecord
-		if err := DecodeDirectoryRecord(io.LimitReader(it.dir, int64(rlen)-1), &rec); err != nil {
+		if err := DecodeDirectoryRecord(bytes.NewReader(body), &rec); err != nil {
 			it.rec = nil
 			it.recLen = -1
 			it.err = err
-- 
2.43.0


From 815a7ccec96feed80f03da0e9ec9a10bda6d316e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:03:55 +0000
Subject: [PATCH 13/56] fix: return write errors of name and symlink entries

A writer that failed inside the text of an entry caused a panic.
---
 pkg/iso9660/rrip/nm.go | 3 +++
 pkg/iso9660/rrip/sl.go | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/pkg/iso9660/rrip/nm.go b/pkg/iso9660/rrip/nm.go
index 55a81c0..1f10e6c 100644
--- a/pkg/iso9660/rrip/nm.go
+++ b/pkg/iso9660/rrip/nm.go
@@ -106,6 +106,9 @@ func (nm *Name) WriteTo(w io.Writer) (n int64, err error) {
 
 	m, err = io.WriteString(w, nm.data)
 	n += int64(m)
+	if err != nil {
+		return
+	}
 
 	if n != int64(expectedLength) {
 		panic("never")
diff --git a/pkg/iso9660/rrip/sl.go b/pkg/iso9660/rrip/sl.go
index 259ded1..0d7ff39 100644
--- a/pkg/iso9660/rrip/sl.go
+++ b/pkg/iso9660/rrip/sl.go
@@ -209,6 +209,9 @@ func (sl *Symlink) WriteTo(w io.Writer) (n int64, err error) {
 
 	nn, err = sl.comp.WriteTo(w)
 	n += nn
+	if err != nil {
+		return
+	}
 
 	if n != int64(expectedLength) {
 		panic("never")
-- 
2.43.0


From 5cd4f0f9b182cd3bef09e2de5cdf059e1991950c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:22 +0000
Subject: [PATCH 14/56] fix: refuse symlink targets that cannot be written

A target with a character that has no encoding was accepted by AddSymlink.
Writing the image then failed as a whole.
---
 pkg/iso9660/symlinkinode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/iso9660/symlinkinode.go b/pkg/iso9660/symlinkinode.go
index 085ea29..89d5c6d 100644
--- a/pkg/iso9660/symlinkinode.go
+++ b/pkg/iso9660/symlinkinode.go
@@ -43,7 +43,10 @@ func NewSymlinkInode(ia InodeAllocator, target string) (*SymlinkInode, error) {
 		return nil, errors.New("symlink target cannot be empty")
 	}
 
-	// TODO: Validate characters in target
+	if _, err := rrip.NewSymlink(target); err != nil {
+		return nil, err
+	}
+
 	return &SymlinkInode{
 		ino:      ino,
 		perm:     0777,
-- 
2.43.0


From 4f287f2b4a8897392fd423ca548d04f6927951d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:29:22 +0000
Subject: [PATCH 15/56] fix: do not create directories for an addition that is
 refused

Adding a path with an invalid later component created the directories before
it. A later addition could then collide with a directory nobody asked for.
---
 pkg/iso9660/directoryinode.go | 28 ++++++++++++++++++----------
 pkg/iso9660/volume.go         |  7 +++++++
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/pkg/iso9660/directoryinode.go b/pkg/iso9660/directoryinode.go
index aa65d76..b165296 100644
--- a/pkg/iso9660/directoryinode.go
+++ b/pkg/iso9660/directoryinode.go
@@ -107,16 +107,8 @@ func (d *DirectoryInode) SetModified(modified time.Time) {
 //AddChild adds a child Inode to the DirectoryInode.
 //It validates the name and checks for collisions before adding the child
 func (d *DirectoryInode) AddChild(name string, child Inode) error {
-	if len(name) < 1 {
-		return errors.New("Inode names may not be empty")
-	}
-
-	if err := d.nameValidator.IsValid(name); err != nil {
-		return errors.New("AddChild: " + err.Error())
-	}
-
-	if name == "." || name == ".." {
-		return errors.New("Inode names '.' and '..' are reserved")
+	if err := d.validateName(name); err != nil {
+		return err
 	}
 
 	if _, ok := d.names[name]; ok {
@@ -133,6 +125,22 @@ func (d *DirectoryInode) AddChild(name string, child Inode) error {
 	return nil
 }
 
+//validateName returns an error if a child may not have the name
+func (d *DirectoryInode) validateName(name string) error {
+	if len(name) < 1 {
+		return errors.New("Inode names may not be empty")
+	}
+
+	if err := d.nameValidator.IsValid(name); err != nil {
+		return errors.New("AddChild: " + err.Error())
+	}
+
+	if name == "." || name == ".." {
+		return errors.New("Inode names '.' and '..' are reserved")
+	}
+	return nil
+}
+
 //GetChild returns a child Inode based on the name. If no child is found, it returns (nil, false)
 func (d *DirectoryInode) GetChild(name string) (Inode, bool) {
 	ident, ok := d.names[name]
diff --git a/pkg/iso9660/volume.go b/pkg/iso9660/volume.go
index c12d103..c3b2d08 100644
--- a/pkg/iso9660/volume.go
+++ b/pkg/iso9660/volume.go
@@ -121,6 +121,13 @@ func (v *Volume) addLeaf(pth string, leaf Inode) (err error) {
 	}
 	parts := strings.Split(cleaned, "/")
 
+	// Validate the whole path before any directory of it is created.
+	for _, part := range parts {
+		if err = v.root.validateName(part); err != nil {
+			return
+		}
+	}
+
 	parent := v.root
 	for i, part := range parts {
 		if i == len(parts)-1 {
-- 
2.43.0


From 37b2bb1a19ccd8f52c89071207740356d93a6cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:31:57 +0000
Subject: [PATCH 16/56] fix: read directories and continuation areas beyond 4
 GiB

The byte offset of a block was computed in 32 bits, so that blocks beyond
4 GiB were read from the wrong place.
---
 pkg/iso9660/walk.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/iso9660/walk.go b/pkg/iso9660/walk.go
index 03cdba4..feefd68 100644
--- a/pkg/iso9660/walk.go
+++ b/pkg/iso9660/walk.go
@@ -314,9 +314,9 @@ func allSystemUseEntries(iso io.ReaderAt, rec *DirectoryRecord) ([]susp.SystemUs
 		switch v := entry.(type) {
 		case *susp.ContinuationAreaEntry:
 
-			ceStart := v.ContinuationStart()*LogicalBlockSize + v.ContinuationOffset()
+			ceStart := int64(v.ContinuationStart())*LogicalBlockSize + int64(v.ContinuationOffset())
 			ceLen := v.ContinuationLength()
-			ce, err := ioutil.ReadAll(io.NewSectionReader(iso, int64(ceStart), int64(ceLen)))
+			ce, err := ioutil.ReadAll(io.NewSectionReader(iso, ceStart, int64(ceLen)))
 			if err != nil {
 				return nil, err
 			}
@@ -496,7 +496,7 @@ func (it *ReadDirIterator) FileInfoAndLen() (*FileInfo, int64) {
 // DirectoryRecords for a directory with start and size and off offset
 // into the directory.
 func NewDirectoryRecordIterator(iso io.ReaderAt, start LogicalBlockAddress, size int64, off int64) *DirectoryRecordIterator {
-	dir := io.NewSectionReader(iso, int64(start*LogicalBlockSize), size)
+	dir := io.NewSectionReader(iso, int64(start)*LogicalBlockSize, size)
 	_, err := dir.Seek(off, io.SeekStart)
 	return &DirectoryRecordIterator{
 		dir:    dir,
-- 
2.43.0


From 97a55e4de83ea9f529e44c2c35f54c0a664af2bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:36:24 +0000
Subject: [PATCH 17/56] fix: read up to the end of a concatenation that ends
 with an empty part

A read past the end met the empty part first and reported an unexpected end
without reading anything.
---
 pkg/storage/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/concat.go b/pkg/storage/concat.go
index 3807cdd..d62e355 100644
--- a/pkg/storage/concat.go
+++ b/pkg/storage/concat.go
@@ -106,7 +106,7 @@ func (c *concatenated) ReadAt(p []byte, off int64) (n int, err error) {
 	var wg sync.WaitGroup
 	var workItems []*workItem
 
-	c.parts.DescendLessOrEqual(part{off + int64(len(p)) - 1, nil}, func(i btree.Item) bool {
+	c.parts.DescendLessOrEqual(part{end - 1, nil}, func(i btree.Item) bool {
 		part := i.(part)
 
 		y := interval.Interval{part.Offset, part.Offset + part.Obj.Size()}
-- 
2.43.0


From a10e1feb16371af915dd56fea41c1473bb9f4fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:49 +0000
Subject: [PATCH 18/56] fix: commit data objects under a media type that can be
 opened

---
 pkg/storage/data/writer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/data/writer.go b/pkg/storage/data/writer.go
index e87efcc..1e1b1ef 100644
--- a/pkg/storage/data/writer.go
+++ b/pkg/storage/data/writer.go
@@ -35,7 +35,7 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 		return nil, driver.CommitOnAbortedObjectWriter
 	}
 
-	durl := dataurl.New(ow.buf.Bytes(), "binary/octet-stream")
+	durl := dataurl.New(ow.buf.Bytes(), "application/octet-stream")
 
 	return driver.NewCommitInfo(durl.String()), nil
 }
-- 
2.43.0


From 5c62096eb8ae70d63b88997b54c347213b19bbb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:10:49 +0000
Subject: [PATCH 19/56] fix: honour the declared size of in-memory objects

---
 pkg/storage/ram/ram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/ram/ram.go b/pkg/storage/ram/ram.go
index 9664449..0596831 100644
--- a/pkg/storage/ram/ram.go
+++ b/pkg/storage/ram/ram.go
@@ -74,7 +74,7 @@ func (d *Driver) Open(ctx context.Context, url string, size int64) (driver.Objec
 
 	return &object{
 		url: pathToUrl(path),
-		br:  bytes.NewReader(it.File),
+		br:  bytes.NewReader(data),
 	}, nil
 }
 
-- 
2.43.0


From ed0f353c0326e9f2dfbb3b9887da0a0e6a1b4018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:49 +0000
Subject: [PATCH 20/56] fix: report URLs of in-memory objects that open them

---
 pkg/storage/ram/ram.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/ram/ram.go b/pkg/storage/ram/ram.go
index 0596831..dfb32f5 100644
--- a/pkg/storage/ram/ram.go
+++ b/pkg/storage/ram/ram.go
@@ -293,7 +293,7 @@ func urlToPath(url string) (string, error) {
 func pathToUrl(path string) string {
 	var u stdurl.URL
 	u.Scheme = "ram"
-	u.Path = path
+	u.Path = "/" + path
 	return u.String()
 }
 
-- 
2.43.0


From bbcc6e6b975a3428d29e051fb6cb04790a60e019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:49 +0000
Subject: [PATCH 21/56] fix: refuse to remove the root and non-empty
 directories from the in-memory store

---
 pkg/storage/ram/inode.go | 5 +++++
 pkg/storage/ram/ram.go   | 9 +++++++++
 2 files changed, 14 insertions(+)

diff --git a/pkg/storage/ram/inode.go b/pkg/storage/ram/inode.go
index e4e09c0..f04ec83 100644
--- a/pkg/storage/ram/inode.go
+++ b/pkg/storage/ram/inode.go
@@ -64,6 +64,11 @@ func (d *directory) Lookup(name string) (int64, bool) {
 	return ino, ok
 }
 
+// Empty returns whether there are entries other than "." and "..".
+func (d *directory) Empty() bool {
+	return len(d.entries) <= 2
+}
+
 func (d *directory) Entries() map[string]int64 {
 	return d.entries
 }
diff --git a/pkg/storage/ram/ram.go b/pkg/storage/ram/ram.go
index dfb32f5..8f402b3 100644
--- a/pkg/storage/ram/ram.go
+++ b/pkg/storage/ram/ram.go
@@ -166,6 +166,15 @@ func (d *Driver) Remove(ctx context.Context, url string) error {
 		return err
 	}
 
+	if f.Ino == rootIno {
+		return os.NewSyscallError("remove", syscall.EBUSY)
+	}
+
+	it := d.inodes[f.Ino]
+	if it.Mode.IsDir() && !it.Dir.Empty() {
+		return os.NewSyscallError("remove", syscall.ENOTEMPTY)
+	}
+
 	f.Parent.Dir.Delete(f.Name)
 	delete(d.inodes, f.Ino)
 	return nil
-- 
2.43.0


From 614901bc85e48660c64720534d8ed6a56b655bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:12:49 +0000
Subject: [PATCH 22/56] fix: do not report success for a failed in-memory
 commit

---
 pkg/storage/ram/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/storage/ram/writer.go b/pkg/storage/ram/writer.go
index 151b44a..7225f03 100644
--- a/pkg/storage/ram/writer.go
+++ b/pkg/storage/ram/writer.go
@@ -45,6 +45,7 @@ func (w *writer) Write(b []byte) (int, error) {
 func (w *writer) Commit() (driver.CommitInfo, error) {
 	if atomic.CompareAndSwapInt32(&w.state, stateCreating, stateClosed) {
 		if err := w.commit(w.path, w.buf.Bytes()); err != nil {
+			atomic.StoreInt32(&w.state, stateAborted)
 			return nil, err
 		}
 		return driver.NewCommitInfo(w.url), nil
-- 
2.43.0


From b659e50cb7c5c4df94577401d4a24bfea9125287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:18:10 +0000
Subject: [PATCH 23/56] fix: do not leave a goroutine behind when a visit fails

---
 pkg/storage/driver/visitor.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index f59ccbc..866c357 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -138,8 +138,13 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 
 		// Feed workers.
 		go func() {
+		feed:
 			for _, p := range paths {
-				inputPaths <- p
+				select {
+				case inputPaths <- p:
+				case <-ctx.Done():
+					break feed
+				}
 			}
 			// Signal there's no more work.
 			close(inputPaths)
-- 
2.43.0


From 2230171c38bc85a4e9f0c9443e6ea49d9ddcf23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:20:58 +0000
Subject: [PATCH 24/56] fix: report a failure of a visit when the workers have
 finished

---
 pkg/storage/driver/visitor.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index 866c357..3abbc85 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -168,6 +168,16 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 				return ctx.Err()
 			}
 		}
+
+		// A worker may have failed or given up just before the last one finished.
+		select {
+		case err := <-errors:
+			return err
+		default:
+		}
+		if err := ctx.Err(); err != nil {
+			return err
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 30a6da1817e7d6264cce8393f263c3a3f304260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:30:51 +0000
Subject: [PATCH 25/56] fix: do not remember a failed read-ahead as an empty
 block

---
 pkg/caching/mem.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/caching/mem.go b/pkg/caching/mem.go
index bd2d1ce..bace1d2 100644
--- a/pkg/caching/mem.go
+++ b/pkg/caching/mem.go
@@ -192,6 +192,13 @@ func (b *memBuf) Fill(key string, ff memBufFillFunc) (err error) {
 		b.key = key
 		b.n, err = ff(b.buf)
 	}
+
+	if err != nil {
+		// Reset the buffer on error. The next caller will attempt to
+		// fill the buffer.
+		b.key = ""
+		b.n = 0
+	}
 	return
 }
 
-- 
2.43.0


From d74f55fd20dced15dcac48d038e1e7e7a93edf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:31 +0000
Subject: [PATCH 26/56] fix: close the cache file looked at before filling a
 block

---
 pkg/caching/disk.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index b86afc2..b82b328 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -262,6 +262,8 @@ func (ds *diskSlice) fill(p []byte, off int64) (n int, err error) {
 	// Double check that we didn't lose the race trying to write to the cache
 	cobj, serr := storage.Open(fname)
 	if serr == nil {
+		defer cobj.Close()
+
 		switch xobj := cobj.(type) {
 		case driver.XattrObject:
 			ckey, xerr := xobj.GetXattr(XattrKey)
-- 
2.43.0


From 2c2dc35967e923c6b4526d51a995f15ee943d867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:31 +0000
Subject: [PATCH 27/56] fix: report malformed checksums of cache entries

---
 pkg/caching/disk.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index b82b328..5e1bee6 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -148,6 +148,9 @@ func (ds *DiskSlicer) CheckIntegrity() error {
 				return err
 			}
 
+			if len(csumEnc) != 8 {
+				return fmt.Errorf("object with malformed checksum xattr: %q", fname)
+			}
 			expected = binary.LittleEndian.Uint64(csumEnc)
 		default:
 			return fmt.Errorf("object missing checksum xattr: %q", fname)
-- 
2.43.0


From 771ff53dd2d7d93fd52e788dcc0337d734cafb0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:59:35 +0000
Subject: [PATCH 28/56] fix: close cache entries as they are checked

---
 pkg/caching/disk.go | 56 ++++++++++++++++++++++++++-------------------
 1 file changed, 32 insertions(+), 24 deletions(-)

diff --git a/pkg/caching/disk.go b/pkg/caching/disk.go
index 5e1bee6..b68a8c6 100644
--- a/pkg/caching/disk.go
+++ b/pkg/caching/disk.go
@@ -131,39 +131,47 @@ func (ds *DiskSlicer) CheckIntegrity() error {
 			return nil
 		}
 
-		cobj, err := storage.Open(fname)
-		if err != nil {
-			if os.IsNotExist(err) {
-				continue
-			}
+		if err := checkEntry(fname); err != nil {
 			return err
 		}
-		defer cobj.Close()
-
-		var expected uint64
-		switch xobj := cobj.(type) {
-		case driver.XattrObject:
-			csumEnc, err := xobj.GetXattr(XattrChecksum)
-			if err != nil {
-				return err
-			}
+	}
+}
 
-			if len(csumEnc) != 8 {
-				return fmt.Errorf("object with malformed checksum xattr: %q", fname)
-			}
-			expected = binary.LittleEndian.Uint64(csumEnc)
-		default:
-			return fmt.Errorf("object missing checksum xattr: %q", fname)
+// checkEntry compares a cache entry with its checksum. Entries that are gone
+// are fine.
+func checkEntry(fname string) error {
+	cobj, err := storage.Open(fname)
+	if err != nil {
+		if os.IsNotExist(err) {
+			return nil
 		}
+		return err
+	}
+	defer cobj.Close()
 
-		csum := xxhash.New64()
-		if _, err := io.Copy(csum, cobj); err != nil {
+	var expected uint64
+	switch xobj := cobj.(type) {
+	case driver.XattrObject:
+		csumEnc, err := xobj.GetXattr(XattrChecksum)
+		if err != nil {
 			return err
 		}
 
-		if csum.Sum64() != expected {
-			return fmt.Errorf("Bad checksum: %q", fname)
+		if len(csumEnc) != 8 {
+			return fmt.Errorf("object with malformed checksum xattr: %q", fname)
 		}
+		expected = binary.LittleEndian.Uint64(csumEnc)
+	default:
+		return fmt.Errorf("object missing checksum xattr: %q", fname)
+	}
+
+	csum := xxhash.New64()
+	if _, err := io.Copy(csum, cobj); err != nil {
+		return err
+	}
+
+	if csum.Sum64() != expected {
+		return fmt.Errorf("Bad checksum: %q", fname)
 	}
 	return nil
 }
-- 
2.43.0


From 6d6232551f99da1b9bd1f6a0884b9911a1e610b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:08:00 +0000
Subject: [PATCH 29/56] fix: close a file whose size cannot be read

---
 pkg/storage/file/file.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/storage/file/file.go b/pkg/storage/file/file.go
index 78795ba..05088a3 100644
--- a/pkg/storage/file/file.go
+++ b/pkg/storage/file/file.go
@@ -48,6 +48,7 @@ func (d *Driver) Open(ctx context.Context, url string, size int64) (driver.Objec
 	if size < 0 {
 		finfo, err := f.Stat()
 		if err != nil {
+			f.Close()
 			return nil, err
 		}
 		size = finfo.Size()
-- 
2.43.0


From 5fd1b2862eae9db13fbd747c738c51e49fe258c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:48:26 +0000
Subject: [PATCH 30/56] fix: keep the URL of every file when files share an
 object

---
 pkg/vdisc/builder.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkg/vdisc/builder.go b/pkg/vdisc/builder.go
index 970ffa0..dbf86e9 100644
--- a/pkg/vdisc/builder.go
+++ b/pkg/vdisc/builder.go
@@ -181,7 +181,8 @@ func (b *builder) Build() (string, error) {
 	// Then build up the inverted trie of object URLs
 	//
 	trie := NewTrieMap()
-	trie.Put(muBase.String(), 0)
+	metaURL := muBase.String()
+	trie.Put(metaURL, 0)
 	b.volume.VisitFileInodes(func(finode *iso9660.FileInode) error {
 		obj := finode.Object()
 		trie.Put(obj.URL(), finode.Start())
@@ -189,6 +190,12 @@ func (b *builder) Build() (string, error) {
 	})
 
 	inverted, leaves := trie.Invert()
+
+	// Objects with the same URL share a leaf
+	leafOf := func(url string) InvertedTrieNode {
+		lba, _ := trie.Get(url)
+		return leaves[lba]
+	}
 	zap.L().Debug("done building trie")
 
 	zap.L().Debug("building capnp message")
@@ -239,7 +246,7 @@ func (b *builder) Build() (string, error) {
 	metaBlocks := bytesToSectors(metaLen)
 	metaPadding := uint16(sectorsToBytes(metaBlocks) - metaLen)
 	entry := extents.At(0)
-	metaLeaf := leaves[0]
+	metaLeaf := leafOf(metaURL)
 	entry.SetUriPrefix(safecast.IntToUint32(metaLeaf.Parent))
 	entry.SetUriSuffix(metaLeaf.Content)
 
@@ -253,7 +260,7 @@ func (b *builder) Build() (string, error) {
 		padding := uint16(sectorsToBytes(blocks) - obj.Size())
 
 		entry := extents.At(currExtent)
-		leaf := leaves[finode.Start()]
+		leaf := leafOf(obj.URL())
 		entry.SetUriPrefix(safecast.IntToUint32(leaf.Parent))
 		entry.SetUriSuffix(leaf.Content)
 		entry.SetBlocks(blocks)
-- 
2.43.0


From 89a9dd1ee7ea66265c6ed943e2bb689e3976edf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:32 +0000
Subject: [PATCH 31/56] fix: resolve only relative URLs against a relative
 vdisc path

---
 pkg/vdisc/extent.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/vdisc/extent.go b/pkg/vdisc/extent.go
index 63aa210..e763e62 100644
--- a/pkg/vdisc/extent.go
+++ b/pkg/vdisc/extent.go
@@ -71,7 +71,7 @@ func (e *extent) URL() string {
 	}
 
 	resolved := e.baseURL.ResolveReference(u)
-	if !strings.HasPrefix(e.baseURL.Path, "/") {
+	if !u.IsAbs() && u.Host == "" && !strings.HasPrefix(u.Path, "/") && !strings.HasPrefix(e.baseURL.Path, "/") {
 		resolved.Path = strings.TrimPrefix(resolved.Path, "/")
 	}
 
-- 
2.43.0


From 004afa6a10702ad6a754bd26deeaf436c3500d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:32 +0000
Subject: [PATCH 32/56] fix: close the vdisc object once it is downloaded

---
 pkg/vdisc/loader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/vdisc/loader.go b/pkg/vdisc/loader.go
index e20bd09..2ff95cc 100644
--- a/pkg/vdisc/loader.go
+++ b/pkg/vdisc/loader.go
@@ -169,6 +169,7 @@ func downloadMemoryMapped(url string) ([]byte, io.Closer, error) {
 	if err != nil {
 		return nil, nil, err
 	}
+	defer res.Close()
 
 	r := io.NewSectionReader(res, 0, res.Size())
 
-- 
2.43.0


From 7356f96b15eb6ace39e4904d364579a8374692c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:50:38 +0000
Subject: [PATCH 33/56] fix: report a damaged gzip header of a vdisc

---
 pkg/vdisc/loader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/vdisc/loader.go b/pkg/vdisc/loader.go
index 2ff95cc..02084a9 100644
--- a/pkg/vdisc/loader.go
+++ b/pkg/vdisc/loader.go
@@ -185,7 +185,10 @@ func downloadMemoryMapped(url string) ([]byte, io.Closer, error) {
 
 	var src io.Reader
 	if bytes.Equal(hdr, []byte{0x1f, 0x8b, 0x08, 0x00}) {
-		src, _ = gzip.NewReader(br)
+		src, err = gzip.NewReader(br)
+		if err != nil {
+			return nil, nil, err
+		}
 	} else {
 		src = br
 	}
-- 
2.43.0


From eff1dce7ce9f3d9d96572d848ff8d0d48bae29cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:51:05 +0000
Subject: [PATCH 34/56] fix: report a vdisc without a root

---
 pkg/vdisc/loader.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/vdisc/loader.go b/pkg/vdisc/loader.go
index 02084a9..db01a40 100644
--- a/pkg/vdisc/loader.go
+++ b/pkg/vdisc/loader.go
@@ -63,6 +63,16 @@ func Load(url string, cache caching.Cache) (VDisc, error) {
 	}
 	msg.TraverseLimit = math.MaxUint64
 
+	seg, err := msg.Segment(0)
+	if err != nil {
+		mmapHandle.Close()
+		return nil, err
+	}
+	if len(seg.Data()) < 8 {
+		mmapHandle.Close()
+		return nil, fmt.Errorf("no root in vdisc %q", url)
+	}
+
 	root, err := vdisc_types.ReadRootVDisc(msg)
 	if err != nil {
 		mmapHandle.Close()
-- 
2.43.0


From 3b8679b9e5c7280be208b6eea1de1fa0e54b421d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:12:54 +0000
Subject: [PATCH 35/56] fix: give every context setting of the remote drivers a
 key of its own

---
 pkg/storage/http/context.go  |  8 +++++---
 pkg/storage/s3/context.go    |  8 +++++---
 pkg/storage/swift/context.go | 10 ++++++----
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/pkg/storage/http/context.go b/pkg/storage/http/context.go
index b6f8e74..ec3159d 100644
--- a/pkg/storage/http/context.go
+++ b/pkg/storage/http/context.go
@@ -19,9 +19,11 @@ import (
 	"time"
 )
 
-var (
-	ctxAuthzKey   int
-	ctxTimeoutKey int
+type ctxKey int
+
+const (
+	ctxAuthzKey ctxKey = iota
+	ctxTimeoutKey
 )
 
 func CtxWithAuthz(ctx context.Context, authz string) context.Context {
diff --git a/pkg/storage/s3/context.go b/pkg/storage/s3/context.go
index b734dae..fcb2674 100644
--- a/pkg/storage/s3/context.go
+++ b/pkg/storage/s3/context.go
@@ -21,9 +21,11 @@ import (
 	"github.com/aws/aws-sdk-go/aws/credentials"
 )
 
-var (
-	ctxCredentialsKey int
-	ctxTimeoutKey     int
+type ctxKey int
+
+const (
+	ctxCredentialsKey ctxKey = iota
+	ctxTimeoutKey
 )
 
 func CtxWithCredentials(ctx context.Context, creds *credentials.Credentials) context.Context {
diff --git a/pkg/storage/swift/context.go b/pkg/storage/swift/context.go
index 9aaf364..f575da3 100644
--- a/pkg/storage/swift/context.go
+++ b/pkg/storage/swift/context.go
@@ -19,10 +19,12 @@ import (
 	"time"
 )
 
-var (
-	ctxCredentialsKey int
-	ctxRegionKey      int
-	ctxTimeoutKey     int
+type ctxKey int
+
+const (
+	ctxCredentialsKey ctxKey = iota
+	ctxRegionKey
+	ctxTimeoutKey
 )
 
 func CtxWithCredentials(ctx context.Context, creds *SwiftCreds) context.Context {
-- 
2.43.0


From 97ca473bf71613f8b82ddc827031e02c72167347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:12:55 +0000
Subject: [PATCH 36/56] fix: store the region of a swift context under its key

---
 pkg/storage/swift/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/swift/context.go b/pkg/storage/swift/context.go
index f575da3..d4a2aa6 100644
--- a/pkg/storage/swift/context.go
+++ b/pkg/storage/swift/context.go
@@ -46,7 +46,7 @@ func TimeoutFromCtx(ctx context.Context) (*time.Duration, bool) {
 }
 
 func CtxWithRegion(ctx context.Context, region string) context.Context {
-	return context.WithValue(ctx, ctxTimeoutKey, region)
+	return context.WithValue(ctx, ctxRegionKey, region)
 }
 
 func RegionFromCtx(ctx context.Context) (string, bool) {
-- 
2.43.0


From 323dbfd1e12c97ee3a8faf1341cd60ffacdaec59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:27 +0000
Subject: [PATCH 37/56] fix: report an oversized content range instead of
 panicking

---
 pkg/storage/http/object.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/http/object.go b/pkg/storage/http/object.go
index 71b1ec1..5d0eff6 100644
--- a/pkg/storage/http/object.go
+++ b/pkg/storage/http/object.go
@@ -144,7 +144,7 @@ func (o *object) ReadAt(p []byte, off int64) (n int, err error) {
 		return
 	}
 
-	if safecast.Uint64ToInt64(contentRange.Len()) != resp.ContentLength {
+	if resp.ContentLength < 0 || contentRange.Len() != safecast.Int64ToUint64(resp.ContentLength) {
 		err = fmt.Errorf("http get %q: mismatch: Content-Range total %d, Content-Length %d", o.url, contentRange.Total, resp.ContentLength)
 		return
 	}
-- 
2.43.0


From 9c2109e1c26ccee4aaf7932449d5cf1d43c320b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:20:27 +0000
Subject: [PATCH 38/56] fix: do not report an empty answer as the end of an
 http object

---
 pkg/storage/http/object.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/storage/http/object.go b/pkg/storage/http/object.go
index 5d0eff6..28b2017 100644
--- a/pkg/storage/http/object.go
+++ b/pkg/storage/http/object.go
@@ -155,6 +155,10 @@ func (o *object) ReadAt(p []byte, off int64) (n int, err error) {
 	}
 
 	n, err = io.ReadFull(resp.Body, p[:resp.ContentLength])
+	if err == io.EOF {
+		// an empty body is not the end of the object
+		err = io.ErrUnexpectedEOF
+	}
 	if err == nil && safecast.IntToUint64(n) < contentRange.Len() {
 		err = fmt.Errorf("http get %q: Content-Length=%d, read=%d, %s", o.url, resp.ContentLength, n, io.ErrUnexpectedEOF)
 		return
-- 
2.43.0


From 5cef695d5214b51cb69398a1a46cd872324fd67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:24:11 +0000
Subject: [PATCH 39/56] fix: start retrying with the configured interval

---
 pkg/httputil/retry.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/httputil/retry.go b/pkg/httputil/retry.go
index f17c43e..5e55c9c 100644
--- a/pkg/httputil/retry.go
+++ b/pkg/httputil/retry.go
@@ -50,6 +50,7 @@ func retry(doFn retryFunc, options ...RetryOptions) {
 		if options[0].InitialInterval != 0 {
 			b.InitialInterval = options[0].InitialInterval
 		}
+		b.Reset()
 	}
 	for {
 		retry := doFn()
-- 
2.43.0


From b2afaa3a08bd56033842cd07d2d7c2b8a4259d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:24:14 +0000
Subject: [PATCH 40/56] fix: release the answers of failed attempts before
 retrying

---
 pkg/httputil/retry.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkg/httputil/retry.go b/pkg/httputil/retry.go
index 5e55c9c..bdeea16 100644
--- a/pkg/httputil/retry.go
+++ b/pkg/httputil/retry.go
@@ -15,6 +15,8 @@
 package httputil
 
 import (
+	"io"
+	"io/ioutil"
 	"net/http"
 	"time"
 
@@ -22,6 +24,9 @@ import (
 	"go.uber.org/zap"
 )
 
+// maxDiscard limits how much of an answer is read before giving it up.
+const maxDiscard = 64 << 10
+
 type RetryOptions struct {
 	InitialInterval time.Duration
 	MaxInterval     time.Duration
@@ -38,7 +43,9 @@ func WithRetries(base http.RoundTripper, options ...RetryOptions) http.RoundTrip
 
 type retryFunc func() (retry bool)
 
-func retry(doFn retryFunc, options ...RetryOptions) {
+// retry calls doFn until it needs no retry or the time is over. Before
+// doFn is called again, nextFn is called.
+func retry(doFn retryFunc, nextFn func(), options ...RetryOptions) {
 	b := backoff.NewExponentialBackOff()
 	if len(options) > 0 {
 		if options[0].MaxElapsedTime != 0 {
@@ -58,6 +65,7 @@ func retry(doFn retryFunc, options ...RetryOptions) {
 		if !retry || delay == backoff.Stop {
 			return
 		}
+		nextFn()
 		time.Sleep(delay)
 	}
 }
@@ -79,6 +87,12 @@ func (r *retryingRoundTripper) RoundTrip(req *http.Request) (resp *http.Response
 			}
 		}
 		return
+	}, func() {
+		// the answer is given up, let the connection be reused
+		if err == nil {
+			io.Copy(ioutil.Discard, io.LimitReader(resp.Body, maxDiscard))
+			resp.Body.Close()
+		}
 	}, r.opts)
 	return
 }
-- 
2.43.0


From c792e6b73541829404d90b846fb3cf65eaab3016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:24:33 +0000
Subject: [PATCH 41/56] fix: send the request body again when retrying

---
 pkg/httputil/retry.go | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/pkg/httputil/retry.go b/pkg/httputil/retry.go
index bdeea16..f041557 100644
--- a/pkg/httputil/retry.go
+++ b/pkg/httputil/retry.go
@@ -76,8 +76,22 @@ type retryingRoundTripper struct {
 }
 
 func (r *retryingRoundTripper) RoundTrip(req *http.Request) (resp *http.Response, err error) {
+	hasBody := req.Body != nil && req.Body != http.NoBody
+	sent := false
 	retry(func() (retry bool) {
-		resp, err = r.rt.RoundTrip(req)
+		attempt := req
+		if hasBody && sent {
+			// the body has been read by the previous attempt
+			body, bodyErr := req.GetBody()
+			if bodyErr != nil {
+				resp, err = nil, bodyErr
+				return false
+			}
+			attempt = req.WithContext(req.Context())
+			attempt.Body = body
+		}
+		sent = true
+		resp, err = r.rt.RoundTrip(attempt)
 		retry = err != nil || resp.StatusCode >= 500 || resp.StatusCode == 429
 		if retry {
 			if err != nil {
@@ -86,6 +100,10 @@ func (r *retryingRoundTripper) RoundTrip(req *http.Request) (resp *http.Response
 				warnf("retrying %s: http %d\n", req.URL.String(), resp.StatusCode)
 			}
 		}
+		if hasBody && req.GetBody == nil {
+			// the body cannot be sent again
+			retry = false
+		}
 		return
 	}, func() {
 		// the answer is given up, let the connection be reused
-- 
2.43.0


From b83d4e36df0252a68a44ef61e2d6c4bb82f1b443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:48 +0000
Subject: [PATCH 42/56] fix: do not panic when a round robin host is evicted

---
 pkg/httputil/rr.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/httputil/rr.go b/pkg/httputil/rr.go
index 79cb3e4..679f16b 100644
--- a/pkg/httputil/rr.go
+++ b/pkg/httputil/rr.go
@@ -166,6 +166,7 @@ func newHostRoundRobinTransport(host string, cfg RoundRobinTransportConfig) *hos
 		host: host,
 		cfg:  cfg,
 		rand: rand.New(rand.NewSource(time.Now().UnixNano())),
+		done: make(chan interface{}),
 	}
 	// ensure Resolve() has been run at least once
 	t.Resolve()
-- 
2.43.0


From a7b806b88d470d515b982696cd276e616ed7e1ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:25:52 +0000
Subject: [PATCH 43/56] fix: dial the IPv6 addresses of a round robin host

---
 pkg/httputil/rr.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkg/httputil/rr.go b/pkg/httputil/rr.go
index 679f16b..c0f7508 100644
--- a/pkg/httputil/rr.go
+++ b/pkg/httputil/rr.go
@@ -22,7 +22,6 @@ import (
 	"math/rand"
 	"net"
 	"net/http"
-	"strings"
 	"sync"
 	"sync/atomic"
 	"time"
@@ -289,6 +288,9 @@ func (d *staticIPDialer) Dial(network string, addr string) (conn net.Conn, err e
 }
 
 func (d *staticIPDialer) DialContext(ctx context.Context, network string, addr string) (conn net.Conn, err error) {
-	separator := strings.LastIndex(addr, ":")
-	return d.dial(ctx, network, d.ipaddr+addr[separator:])
+	_, port, err := net.SplitHostPort(addr)
+	if err != nil {
+		return nil, err
+	}
+	return d.dial(ctx, network, net.JoinHostPort(d.ipaddr, port))
 }
-- 
2.43.0


From c5f9ac8607f8c7da4a3f913598084cf85bff6583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:32:33 +0000
Subject: [PATCH 44/56] fix: do not send a request whose signing failed

---
 pkg/s3util/signer.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/s3util/signer.go b/pkg/s3util/signer.go
index d119aae..34abff2 100644
--- a/pkg/s3util/signer.go
+++ b/pkg/s3util/signer.go
@@ -122,7 +122,8 @@ func (s *signer) RoundTrip(req *http.Request) (*http.Response, error) {
 		debugln("Signing request with no body...")
 		_, err = s.v4.Sign(req, nil, "s3", s.region, t)
 	default:
-		d, err := ioutil.ReadAll(req.Body)
+		var d []byte
+		d, err = ioutil.ReadAll(req.Body)
 		if err != nil {
 			return nil, err
 		}
-- 
2.43.0


From eab947385f54419eff950d6dfb9e632b368a4b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:33:55 +0000
Subject: [PATCH 45/56] fix: upload a stream from its position

---
 pkg/s3util/uploader.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkg/s3util/uploader.go b/pkg/s3util/uploader.go
index 70657da..7f9886f 100644
--- a/pkg/s3util/uploader.go
+++ b/pkg/s3util/uploader.go
@@ -98,7 +98,9 @@ type uploader struct {
 
 	in *S3UploadInput
 
-	readerPos int64 // current reader position
+	readerStart int64 // position of the reader when the upload started
+
+	readerPos int64 // current reader position, from readerStart
 	totalSize int64 // set to -1 if the size is not known
 
 	bufferPool sync.Pool
@@ -159,6 +161,13 @@ func (u *uploader) initSize() {
 		}
 		u.totalSize = n
 
+		start, err := r.Seek(0, io.SeekCurrent)
+		if err != nil {
+			u.totalSize = -1
+			return
+		}
+		u.readerStart = start
+
 		// Try to adjust partSize if it is too small and account for
 		// integer division truncation.
 		if u.totalSize/u.cfg.PartSize >= int64(u.cfg.MaxUploadParts) {
@@ -191,7 +200,7 @@ func (u *uploader) nextReader() (readerAtSeeker, int, []byte, error) {
 				n = bytesLeft
 			}
 		}
-		reader := io.NewSectionReader(r, u.readerPos, n)
+		reader := io.NewSectionReader(r, u.readerStart+u.readerPos, n)
 		u.readerPos += n
 
 		return reader, int(n), nil, err
-- 
2.43.0


From b9784c8bf3d14cd9e75bc1421fc1a576d639662d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:46 +0000
Subject: [PATCH 46/56] fix: do not commit an s3 object whose upload failed

---
 pkg/storage/s3/writer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index 0b43593..5e562a4 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -91,6 +91,7 @@ func (ow *objectWriter) ReadFromContext(ctx context.Context, r io.Reader, counte
 			u.ProgressCounter = counter
 		})
 		if err != nil {
+			ow.err = err
 			return err
 		}
 		if resp.VersionID != nil {
-- 
2.43.0


From e865337971a3233114820cc84fe4f62ac9547db1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:37:46 +0000
Subject: [PATCH 47/56] fix: start the s3 upload before waiting for it

---
 pkg/storage/s3/writer.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index 5e562a4..c7fa29e 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -113,7 +113,7 @@ func (ow *objectWriter) ReadFrom(r io.Reader) (int64, error) {
 func (ow *objectWriter) Write(b []byte) (int, error) {
 	if atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStatePiped) {
 		ow.pipeReader, ow.pipeWriter = io.Pipe()
-		go ow.startPiped()
+		ow.startPiped()
 	} else if atomic.LoadInt32(&ow.state) == writerStateDirect {
 		return 0, fmt.Errorf("can't mix ReadFrom and Write")
 	}
@@ -124,7 +124,7 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 	if atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStatePiped) {
 		// Nothing written yet, start the writer now to produce a zero-byte file.
 		ow.pipeReader, ow.pipeWriter = io.Pipe()
-		go ow.startPiped()
+		ow.startPiped()
 	}
 	if atomic.LoadInt32(&ow.state) == writerStatePiped {
 		ow.pipeWriter.Close()
-- 
2.43.0


From 8f10f921fe786e07486c7aaae04ff3742d0d8a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:38:05 +0000
Subject: [PATCH 48/56] fix: do not commit an aborted s3 object

---
 pkg/storage/s3/writer.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/storage/s3/writer.go b/pkg/storage/s3/writer.go
index c7fa29e..e2e25e1 100644
--- a/pkg/storage/s3/writer.go
+++ b/pkg/storage/s3/writer.go
@@ -34,6 +34,7 @@ const (
 	writerStateOpened int32 = iota
 	writerStatePiped
 	writerStateDirect
+	writerStateAborted
 )
 
 func NewObjectWriter(svc s3iface.S3API, bucket, key, canonicalURL string) driver.ObjectWriter {
@@ -116,6 +117,8 @@ func (ow *objectWriter) Write(b []byte) (int, error) {
 		ow.startPiped()
 	} else if atomic.LoadInt32(&ow.state) == writerStateDirect {
 		return 0, fmt.Errorf("can't mix ReadFrom and Write")
+	} else if atomic.LoadInt32(&ow.state) == writerStateAborted {
+		return 0, fmt.Errorf("write on aborted ObjectWriter")
 	}
 	return ow.pipeWriter.Write(b)
 }
@@ -131,6 +134,10 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 		ow.wg.Wait()
 	}
 
+	if atomic.LoadInt32(&ow.state) == writerStateAborted {
+		return nil, driver.CommitOnAbortedObjectWriter
+	}
+
 	if ow.err != nil {
 		return nil, ow.err
 	}
@@ -138,6 +145,9 @@ func (ow *objectWriter) Commit() (driver.CommitInfo, error) {
 }
 
 func (ow *objectWriter) Abort() {
+	if atomic.CompareAndSwapInt32(&ow.state, writerStateOpened, writerStateAborted) {
+		return
+	}
 	if atomic.LoadInt32(&ow.state) == writerStatePiped {
 		// TODO: log error
 		ow.pipeWriter.CloseWithError(errors.New("abort file creation"))
-- 
2.43.0


From 6ab27bf9258067bdccdda49d9d3569da91cd8063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:40:55 +0000
Subject: [PATCH 49/56] fix: pass the version marker to the next page of a
 listing

---
 pkg/s3util/listbucket.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/s3util/listbucket.go b/pkg/s3util/listbucket.go
index 5b8809e..c1f3d3e 100644
--- a/pkg/s3util/listbucket.go
+++ b/pkg/s3util/listbucket.go
@@ -91,7 +91,7 @@ func ListBucket(client *http.Client, url string, callback ListBucketCallback) er
 		nextUrl := url
 		if nextVersionId != nil || nextKey != nil {
 			if nextKey != nil && nextVersionId != nil {
-				nextUrl = fmt.Sprintf("%s&key-marker=%s&verion-id-marker%s", url, stdurl.QueryEscape(*nextKey), stdurl.QueryEscape(*nextVersionId))
+				nextUrl = fmt.Sprintf("%s&key-marker=%s&version-id-marker=%s", url, stdurl.QueryEscape(*nextKey), stdurl.QueryEscape(*nextVersionId))
 			} else if nextKey != nil {
 				nextUrl = fmt.Sprintf("%s&key-marker=%s", url, stdurl.QueryEscape(*nextKey))
 			} else if nextVersionId != nil {
-- 
2.43.0


From cfc06255854c8863687cb92a4255550b23c2ef8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:58:20 +0000
Subject: [PATCH 50/56] fix: do not panic when an unknown file handle is
 released

---
 pkg/isofuse/file.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/isofuse/file.go b/pkg/isofuse/file.go
index 53ff241..48a1cf3 100644
--- a/pkg/isofuse/file.go
+++ b/pkg/isofuse/file.go
@@ -60,9 +60,9 @@ func (fs *isoFS) ReleaseFileHandle(ctx context.Context, op *fuseops.ReleaseFileH
 	obj, ok := fs.fileHandles[op.Handle]
 	if !ok {
 		fs.logger.Warn("release of unknown file handle", zap.Uint64("handle", uint64(op.Handle)))
-	} else {
-		delete(fs.fileHandles, op.Handle)
+		return fuse.EINVAL
 	}
+	delete(fs.fileHandles, op.Handle)
 	if err := obj.Close(); err != nil {
 		fs.logger.Error("close file handle", zap.Uint64("handle", uint64(op.Handle)), zap.Error(err))
 	}
-- 
2.43.0


From 0a42beaafc244c894f5553a37b5b370c83049586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:21:31 +0000
Subject: [PATCH 51/56] fix: use the credentials of the context for swift
 uploads

---
 pkg/storage/swift/swift.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkg/storage/swift/swift.go b/pkg/storage/swift/swift.go
index c8b3980..c3a90f0 100644
--- a/pkg/storage/swift/swift.go
+++ b/pkg/storage/swift/swift.go
@@ -62,7 +62,7 @@ func (d *Driver) Create(ctx context.Context, url string) (driver.ObjectWriter, e
 		return nil, err
 	}
 
-	creds := credentials.NewCredentials(NewSwiftEnvProvider(parsed.Account))
+	creds := credentials.NewCredentials(d.newProvider(ctx, parsed.Account))
 
 	region, ok := RegionFromCtx(ctx)
 	if !ok {
@@ -206,12 +206,7 @@ func (d *Driver) newClient(ctx context.Context, account string) *http.Client {
 		c.Timeout = 30 * time.Second
 	}
 
-	var prov credentials.Provider
-	if creds, ok := CredentialsFromCtx(ctx); ok {
-		prov = NewSwiftCtxProvider(account, creds)
-	} else {
-		prov = NewSwiftEnvProvider(account)
-	}
+	prov := d.newProvider(ctx, account)
 
 	region, ok := RegionFromCtx(ctx)
 	if !ok {
@@ -222,6 +217,13 @@ func (d *Driver) newClient(ctx context.Context, account string) *http.Client {
 	return c
 }
 
+func (d *Driver) newProvider(ctx context.Context, account string) credentials.Provider {
+	if creds, ok := CredentialsFromCtx(ctx); ok {
+		return NewSwiftCtxProvider(account, creds)
+	}
+	return NewSwiftEnvProvider(account)
+}
+
 type parsedURL struct {
 	URL       *stdurl.URL
 	Account   string
-- 
2.43.0


From 3170d63a3aaf3eb6c12a205b17351ed4105fc3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:21:31 +0000
Subject: [PATCH 52/56] fix: reach s3 buckets whose location is reported as
 empty

---
 pkg/storage/s3/region.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/s3/region.go b/pkg/storage/s3/region.go
index cf52c12..a19b9ca 100644
--- a/pkg/storage/s3/region.go
+++ b/pkg/storage/s3/region.go
@@ -25,6 +25,7 @@ import (
 
 	"github.com/aws/aws-sdk-go/aws/ec2metadata"
 	"github.com/aws/aws-sdk-go/aws/session"
+	"github.com/aws/aws-sdk-go/service/s3"
 )
 
 const DefaultRegion = "us-east-1"
@@ -97,7 +98,8 @@ func getBucketRegion(c *http.Client, bucketName string) regionPromise {
 			return "", err
 		}
 
-		return res.Location, nil
+		// Buckets in us-east-1 have an empty location.
+		return s3.NormalizeBucketLocation(res.Location), nil
 	})
 }
 
-- 
2.43.0


From 358b91ee7212e1d217f738ae81a5ac10bd73892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:21:31 +0000
Subject: [PATCH 53/56] fix: do not remember a failed lookup of a bucket region

---
 pkg/storage/s3/s3.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/storage/s3/s3.go b/pkg/storage/s3/s3.go
index 40ff199..0e91b2e 100644
--- a/pkg/storage/s3/s3.go
+++ b/pkg/storage/s3/s3.go
@@ -216,7 +216,16 @@ func (d *Driver) getBucketRegion(bucketName string) (string, error) {
 	}
 	d.mu.Unlock()
 
-	return rp.Apply()
+	region, err := rp.Apply()
+	if err != nil {
+		// Look the region up again next time.
+		d.mu.Lock()
+		if d.bucketRegionCache[bucketName] == rp {
+			delete(d.bucketRegionCache, bucketName)
+		}
+		d.mu.Unlock()
+	}
+	return region, err
 }
 
 func (d *Driver) newClient(ctx context.Context, bucketRegion string) *http.Client {
-- 
2.43.0


From ffee657f69bdeadafdf64e25fac4fbdafc6b95ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:21:31 +0000
Subject: [PATCH 54/56] fix: list the container of a swift directory

---
 pkg/s3util/listbucket.go   | 31 ++++++++++++++++++++++++++-----
 pkg/storage/swift/swift.go |  2 +-
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/pkg/s3util/listbucket.go b/pkg/s3util/listbucket.go
index c1f3d3e..bbb298f 100644
--- a/pkg/s3util/listbucket.go
+++ b/pkg/s3util/listbucket.go
@@ -62,28 +62,49 @@ type ListBucketPage struct {
 type ListBucketCallback func(page *ListBucketPage) error
 
 func ListBucket(client *http.Client, url string, callback ListBucketCallback) error {
-	v := stdurl.Values{}
-	v.Set("delimiter", "/")
-
 	u, err := stdurl.Parse(url)
 	if err != nil {
 		return err
 	}
 
 	dirpath := u.Path
+	u.Path = "/"
+	return listBucket(client, u, dirpath, callback)
+}
+
+// ListBucketPathStyle lists a directory of a bucket that is named by the
+// first element of the URL's path rather than by its host.
+func ListBucketPathStyle(client *http.Client, url string, callback ListBucketCallback) error {
+	u, err := stdurl.Parse(url)
+	if err != nil {
+		return err
+	}
+
+	parts := strings.SplitN(strings.TrimPrefix(u.Path, "/"), "/", 2)
+	dirpath := ""
+	if len(parts) > 1 {
+		dirpath = parts[1]
+	}
+	u.Path = "/" + parts[0]
+	return listBucket(client, u, dirpath, callback)
+}
+
+func listBucket(client *http.Client, u *stdurl.URL, dirpath string, callback ListBucketCallback) error {
+	v := stdurl.Values{}
+	v.Set("delimiter", "/")
+
 	if strings.HasPrefix(dirpath, "/") {
 		dirpath = dirpath[1:]
 	}
 	if !strings.HasSuffix(dirpath, "/") {
 		dirpath += "/"
 	}
-	u.Path = "/"
 	if dirpath != "/" {
 		v.Set("prefix", dirpath)
 	}
 
 	u.RawQuery = "versions&" + v.Encode()
-	url = u.String()
+	url := u.String()
 
 	var nextVersionId *string
 	var nextKey *string
diff --git a/pkg/storage/swift/swift.go b/pkg/storage/swift/swift.go
index c3a90f0..9c44f87 100644
--- a/pkg/storage/swift/swift.go
+++ b/pkg/storage/swift/swift.go
@@ -124,7 +124,7 @@ func (d *Driver) Readdir(ctx context.Context, url string) ([]os.FileInfo, error)
 	c := d.newClient(ctx, parsed.Account)
 
 	var results []os.FileInfo
-	err = s3util.ListBucket(c, parsed.URL.String(), func(page *s3util.ListBucketPage) error {
+	err = s3util.ListBucketPathStyle(c, parsed.URL.String(), func(page *s3util.ListBucketPage) error {
 		for _, entry := range page.Version {
 			if !entry.IsLatest {
 				continue
-- 
2.43.0


From 2334b702551667fdf38be29e4e63321e871f8225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:55:10 +0000
Subject: [PATCH 55/56] fix: keep a depth-first visit from overwriting
 directories it has yet to read

---
 pkg/storage/driver/visitor.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/storage/driver/visitor.go b/pkg/storage/driver/visitor.go
index 3abbc85..6e5354d 100644
--- a/pkg/storage/driver/visitor.go
+++ b/pkg/storage/driver/visitor.go
@@ -116,7 +116,7 @@ func Visit(ctx context.Context, drvr Readdirer, root string, visitor Visitor) er
 		if depthFirst {
 			// If in depth-first mode, we want to keep grabbing the top of the stack and process only that each iteration.
 			amt := len(nextPaths) - minI(len(nextPaths), maxWorkers)
-			paths = nextPaths[amt:]
+			paths = append(paths, nextPaths[amt:]...)
 			nextPaths = nextPaths[:amt]
 		} else {
 			paths = nextPaths
-- 
2.43.0


From a4a91318d306549d2de0d6cb09d73bdb9b44df87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:00:38 +0000
Subject: [PATCH 56/56] fix: report an output file of cp that cannot be closed

---
 pkg/vdisc/cli/cp.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/vdisc/cli/cp.go b/pkg/vdisc/cli/cp.go
index bfc7d4a..2f41835 100644
--- a/pkg/vdisc/cli/cp.go
+++ b/pkg/vdisc/cli/cp.go
@@ -63,5 +63,8 @@ func (cmd *CpCmd) Run(globals *Globals) error {
 		return err
 	}
 
-	return nil
+	if cmd.Out == "-" {
+		return nil
+	}
+	return out.Close()
 }
-- 
2.43.0

