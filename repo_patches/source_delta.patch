From 1c2d6b090b0e919cbf686c56295bb2d370e458ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:19 +0000
Subject: [PATCH 01/24] fix: parser must not panic on identifiers it can not
 resolve

pkger.Open(name) crashed the tool if name is declared in another file
(no ast.Object), or is a constant with an implicitly repeated value.
---
 parser/source.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/parser/source.go b/parser/source.go
index be58036..80217ff 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -35,7 +35,8 @@ func (p *ParsedSource) Parse() error {
 
 func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 	s = node.Name
-	if node.Obj.Kind != ast.Con {
+	// Obj is nil if the identifier isn't declared in this file
+	if node.Obj == nil || node.Obj.Kind != ast.Con {
 		return
 	}
 	// As per ast package a Con object is always a *ValueSpec,
@@ -45,7 +46,10 @@ func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 		// as in `const a, b = "a", "b"`.
 		for i, v := range x.Names {
 			if v.Name == node.Name {
-				s = p.valueNode(x.Values[i])
+				// there is no value if the expression is repeated implicitly
+				if i < len(x.Values) {
+					s = p.valueNode(x.Values[i])
+				}
 				break
 			}
 		}
-- 
2.43.0


From fd1361864c647b06eb4e8331a16a8d8da52c5281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:47 +0000
Subject: [PATCH 02/24] fix: Stuff must report a failed write

The error of the final write was dropped, a full disk produced a
truncated pkged.go and exit status 0.
---
 pkging/pkgutil/stuff.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/pkgutil/stuff.go b/pkging/pkgutil/stuff.go
index 0fbf02d..1169a30 100644
--- a/pkging/pkgutil/stuff.go
+++ b/pkging/pkgutil/stuff.go
@@ -57,5 +57,5 @@ func Stuff(w io.Writer, c here.Info, decls parser.Decls) error {
 	}
 
 	_, err = w.Write(b)
-	return nil
+	return err
 }
-- 
2.43.0


From 346cf5cdc802d497aed7c3cff7fd77ca680539e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:55 +0000
Subject: [PATCH 03/24] fix: stdos MkdirAll must use the parsed name

MkdirAll("app:/x") created the directory "app:/x".
---
 pkging/stdos/stdos.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index b811702..42259d7 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -91,7 +91,7 @@ func (f *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
-	return os.MkdirAll(filepath.Join(info.Dir, p), perm)
+	return os.MkdirAll(filepath.Join(info.Dir, pt.Name), perm)
 }
 
 // Open opens the named file for reading. If successful, methods on the returned file can be used for reading; the associated file descriptor has mode O_RDONLY.
-- 
2.43.0


From 3b3d30c91998daa4a2ee1b3cc9cfcb93c8d08513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:05 +0000
Subject: [PATCH 04/24] fix: parsed names must not climb out of their package

here.Info.Parse cleans the path before it turns backslashes into
slashes: Open("/..\\..\\etc/passwd") left the module's directory.
---
 pkging/mem/mem.go     | 8 +++++++-
 pkging/stdos/stdos.go | 9 ++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 1590e3e..1a0af85 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -49,7 +49,13 @@ func (f *Pkger) Info(p string) (here.Info, error) {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	return f.Here.Parse(p)
+	pt, err := f.Here.Parse(p)
+	if err != nil {
+		return pt, err
+	}
+	// names are rooted at the package, ".." must not climb out of it
+	pt.Name = path.Clean("/" + pt.Name)
+	return pt, nil
 }
 
 // Remove removes the named file or (empty) directory.
diff --git a/pkging/stdos/stdos.go b/pkging/stdos/stdos.go
index 42259d7..97b2545 100644
--- a/pkging/stdos/stdos.go
+++ b/pkging/stdos/stdos.go
@@ -3,6 +3,7 @@ package stdos
 import (
 	"fmt"
 	"os"
+	"path"
 	"path/filepath"
 	"strings"
 
@@ -130,7 +131,13 @@ func (fx *Pkger) Open(name string) (pkging.File, error) {
 
 // Parse the string in here.Path format.
 func (f *Pkger) Parse(p string) (here.Path, error) {
-	return f.Here.Parse(p)
+	pt, err := f.Here.Parse(p)
+	if err != nil {
+		return pt, err
+	}
+	// names are rooted at the package, ".." must not climb out of it
+	pt.Name = path.Clean("/" + pt.Name)
+	return pt, nil
 }
 
 // Stat returns a FileInfo describing the named file.
-- 
2.43.0


From 9adf4abb5be1add60b84a0377166181ddcfa1b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:15 +0000
Subject: [PATCH 05/24] fix: File.Open must stay below the file it is called on

A name with backslashes left the served directory, a directory of
another package was looked up in the current one (stdos), and
"/public" below "/public" was answered with the parent (mem).
---
 pkging/mem/file.go   |  8 +++-----
 pkging/stdos/file.go | 10 ++++++++--
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 2d4d244..0677531 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -173,11 +173,9 @@ func (f *File) Open(name string) (http.File, error) {
 		return nil, err
 	}
 
-	if pt == f.path {
-		return f, nil
-	}
-
-	pt.Name = path.Join(f.Path().Name, pt.Name)
+	// name is relative to f, ".." must not climb out of f
+	pt.Pkg = f.path.Pkg
+	pt.Name = path.Join(f.path.Name, path.Clean("/"+pt.Name))
 
 	di, err := f.pkging.Open(pt.String())
 	if err != nil {
diff --git a/pkging/stdos/file.go b/pkging/stdos/file.go
index 35845cf..18326ee 100644
--- a/pkging/stdos/file.go
+++ b/pkging/stdos/file.go
@@ -4,6 +4,7 @@ import (
 	"net/http"
 	"os"
 	"path"
+	"strings"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/pkging"
@@ -45,8 +46,13 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
 func (f *File) Open(name string) (http.File, error) {
-	fp := path.Join(f.Path().Name, name)
-	f2, err := f.pkging.Open(fp)
+	// name is relative to f, ".." must not climb out of f
+	name = path.Clean("/" + strings.Replace(name, "\\", "/", -1))
+	pt := here.Path{
+		Pkg:  f.path.Pkg,
+		Name: path.Join(f.path.Name, name),
+	}
+	f2, err := f.pkging.Open(pt.String())
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 01401f57e485411d53653a19edfeb4d32645184a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:01 +0000
Subject: [PATCH 06/24] fix: mem RemoveAll must keep siblings and other
 packages

RemoveAll("/a") removed "/ab", and "/a" of every other package.
---
 pkging/mem/mem.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 1a0af85..3d452aa 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -81,7 +81,7 @@ func (fx *Pkger) RemoveAll(name string) error {
 	}
 
 	fx.files.Range(func(key here.Path, file pkging.File) bool {
-		if strings.HasPrefix(key.Name, pt.Name) {
+		if within(pt, key) {
 			fx.files.Delete(key)
 		}
 		return true
@@ -90,6 +90,17 @@ func (fx *Pkger) RemoveAll(name string) error {
 	return nil
 }
 
+// within returns true if pt is root, or is below it
+func within(root, pt here.Path) bool {
+	if root.Pkg != pt.Pkg {
+		return false
+	}
+	if root.Name == "/" || root.Name == pt.Name {
+		return true
+	}
+	return strings.HasPrefix(pt.Name, root.Name+"/")
+}
+
 // Create creates the named file with mode 0666 (before umask) - It's actually 0644, truncating it if it already exists. If successful, methods on the returned File can be used for I/O; the associated file descriptor has mode O_RDWR.
 func (fx *Pkger) Create(name string) (pkging.File, error) {
 	fx.MkdirAll("/", 0755)
-- 
2.43.0


From 381ae29b80c3a809832e9bd93f125363abdf3e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:09 +0000
Subject: [PATCH 07/24] fix: mem Walk must not visit, or skip, siblings

Walk("/a") visited "/ab", SkipDir for "/a" skipped "/ab" and was
forgotten with the next SkipDir.
---
 pkging/mem/mem.go | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 3d452aa..d942553 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -101,6 +101,15 @@ func within(root, pt here.Path) bool {
 	return strings.HasPrefix(pt.Name, root.Name+"/")
 }
 
+func withinAny(roots []here.Path, pt here.Path) bool {
+	for _, root := range roots {
+		if within(root, pt) {
+			return true
+		}
+	}
+	return false
+}
+
 // Create creates the named file with mode 0666 (before umask) - It's actually 0644, truncating it if it already exists. If successful, methods on the returned File can be used for I/O; the associated file descriptor has mode O_RDWR.
 func (fx *Pkger) Create(name string) (pkging.File, error) {
 	fx.MkdirAll("/", 0755)
@@ -230,15 +239,9 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 		return err
 	}
 
-	skip := "!"
+	var skip []here.Path
 	for _, k := range keys {
-		if k.Pkg != pt.Pkg {
-			continue
-		}
-		if !strings.HasPrefix(k.Name, pt.Name) {
-			continue
-		}
-		if strings.HasPrefix(k.Name, skip) {
+		if !within(pt, k) || withinAny(skip, k) {
 			continue
 		}
 
@@ -256,8 +259,11 @@ func (f *Pkger) Walk(p string, wf filepath.WalkFunc) error {
 
 		err = wf(k.String(), fi, nil)
 		if err == filepath.SkipDir {
-
-			skip = k.Name
+			// skip the rest of the directory
+			if !fi.IsDir() {
+				k.Name = path.Dir(k.Name)
+			}
+			skip = append(skip, k)
 			continue
 		}
 
-- 
2.43.0


From 3c0167dbb151f06d41337b26c1960bbe02ec5e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:40 +0000
Subject: [PATCH 08/24] fix: reading an empty mem File must return io.EOF

Read failed with "unable to read", so ioutil.ReadAll of an empty
embedded file was an error. Seek ignored its arguments.
---
 pkging/mem/file.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 0677531..045dbcf 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -31,7 +31,7 @@ type File struct {
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
 func (f *File) Seek(ofpkginget int64, whence int) (int64, error) {
-	if len(f.data) > 0 && f.reader == nil {
+	if f.reader == nil && !f.isDir() {
 		f.reader = bytes.NewReader(f.data)
 	}
 
@@ -70,7 +70,7 @@ func (f *File) Close() error {
 
 // Read reads up to len(b) bytes from the File. It returns the number of bytes read and any error encountered. At end of file, Read returns 0, io.EOF.
 func (f *File) Read(p []byte) (int, error) {
-	if len(f.data) > 0 && f.reader == nil {
+	if f.reader == nil && !f.isDir() {
 		f.reader = bytes.NewReader(f.data)
 	}
 
@@ -81,6 +81,10 @@ func (f *File) Read(p []byte) (int, error) {
 	return 0, fmt.Errorf("unable to read %s", f.Name())
 }
 
+func (f *File) isDir() bool {
+	return f.info != nil && f.info.IsDir()
+}
+
 // Write writes len(b) bytes to the File. It returns the number of bytes written and an error, if any. Write returns a non-nil error when n != len(b).
 func (f *File) Write(b []byte) (int, error) {
 	if f.writer == nil {
-- 
2.43.0


From 00bbcdd7a4eb806d4d9673c78404e1929b4e5efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:48 +0000
Subject: [PATCH 09/24] fix: concurrent first use of a map must not lose
 entries

The sync.Once was created without synchronisation: two goroutines could
each run their own, and one of the two maps was dropped with what had
been stored in it. Infos.MarshalJSON panicked on an unused map.
---
 internal/maps/files.go | 5 +----
 internal/maps/infos.go | 7 ++-----
 2 files changed, 3 insertions(+), 9 deletions(-)

diff --git a/internal/maps/files.go b/internal/maps/files.go
index 3b3b6ac..c0a003e 100644
--- a/internal/maps/files.go
+++ b/internal/maps/files.go
@@ -17,13 +17,10 @@ import (
 // value: pkging.File
 type Files struct {
 	data *sync.Map
-	once *sync.Once
+	once sync.Once
 }
 
 func (m *Files) Data() *sync.Map {
-	if m.once == nil {
-		m.once = &sync.Once{}
-	}
 	m.once.Do(func() {
 		if m.data == nil {
 			m.data = &sync.Map{}
diff --git a/internal/maps/infos.go b/internal/maps/infos.go
index 0eed02f..76f2ab2 100644
--- a/internal/maps/infos.go
+++ b/internal/maps/infos.go
@@ -16,13 +16,10 @@ import (
 // value: here.Info
 type Infos struct {
 	data *sync.Map
-	once *sync.Once
+	once sync.Once
 }
 
 func (m *Infos) Data() *sync.Map {
-	if m.once == nil {
-		m.once = &sync.Once{}
-	}
 	m.once.Do(func() {
 		if m.data == nil {
 			m.data = &sync.Map{}
@@ -33,7 +30,7 @@ func (m *Infos) Data() *sync.Map {
 
 func (m *Infos) MarshalJSON() ([]byte, error) {
 	mm := map[string]interface{}{}
-	m.data.Range(func(key, value interface{}) bool {
+	m.Data().Range(func(key, value interface{}) bool {
 		mm[fmt.Sprintf("%s", key)] = value
 		return true
 	})
-- 
2.43.0


From 7e6497b31652e02c8a1babaf6671b69d858d3226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:55 +0000
Subject: [PATCH 10/24] fix: the mode of a mem directory must have os.ModeDir

FileInfo.IsDir() was true, FileInfo.Mode().IsDir() false.
---
 pkging/mem/mem.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index d942553..400cef6 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -174,7 +174,7 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 			Details: pkging.Details{
 				IsDir:   true,
 				Name:    name,
-				Mode:    perm,
+				Mode:    perm | os.ModeDir,
 				ModTime: pkging.ModTime(time.Now()),
 			},
 		},
-- 
2.43.0


From 36f675b958f4df52bf0b85e5536b832a5137e58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:04 +0000
Subject: [PATCH 11/24] fix: mem MkdirAll must do nothing for an existing
 directory

It replaced the directory, replaced a file with a directory, and made
the parents of "other:/a/b" in the current package.
---
 pkging/mem/mem.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 400cef6..b1d7ffe 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -154,16 +154,25 @@ func (fx *Pkger) MkdirAll(p string, perm os.FileMode) error {
 	if err != nil {
 		return err
 	}
-	dir, name := path.Split(pt.Name)
 
-	if dir != "/" {
-		if err := fx.MkdirAll(dir, perm); err != nil {
+	if fl, ok := fx.files.Load(pt); ok {
+		fi, err := fl.Stat()
+		if err != nil {
 			return err
 		}
+		if !fi.IsDir() {
+			return &os.PathError{Op: "mkdir", Path: pt.String(), Err: fmt.Errorf("not a directory")}
+		}
+		return nil
 	}
 
-	if dir == "/" && name == "" {
-		dir = filepath.Base(fx.Here.Dir)
+	dir, name := path.Split(pt.Name)
+
+	if dir != "/" {
+		parent := here.Path{Pkg: pt.Pkg, Name: dir}
+		if err := fx.MkdirAll(parent.String(), perm); err != nil {
+			return err
+		}
 	}
 
 	f := &File{
-- 
2.43.0


From 1aa64b04bcfe01eeb3583fe6aabb8a3ecf8e2481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:34 +0000
Subject: [PATCH 12/24] fix: mem Create must not replace a directory

Create("/dir") replaced the directory with a file, and the parent was
looked up in the current package, and could be a file.
---
 pkging/mem/mem.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index b1d7ffe..84f71e9 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -101,6 +101,11 @@ func within(root, pt here.Path) bool {
 	return strings.HasPrefix(pt.Name, root.Name+"/")
 }
 
+func isDir(f pkging.File) bool {
+	fi, err := f.Stat()
+	return err == nil && fi.IsDir()
+}
+
 func withinAny(roots []here.Path, pt here.Path) bool {
 	for _, root := range roots {
 		if within(root, pt) {
@@ -123,10 +128,15 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		return nil, err
 	}
 
-	dir := filepath.Dir(pt.Name)
-	if dir != "/" {
-		if _, err := fx.Stat(dir); err != nil {
-			return nil, err
+	if fl, ok := fx.files.Load(pt); pt.Name == "/" || ok && isDir(fl) {
+		return nil, &os.PathError{Op: "create", Path: pt.String(), Err: fmt.Errorf("is a directory")}
+	}
+
+	dir := here.Path{Pkg: pt.Pkg, Name: path.Dir(pt.Name)}
+	if dir.Name != "/" {
+		fl, ok := fx.files.Load(dir)
+		if !ok || !isDir(fl) {
+			return nil, &os.PathError{Op: "create", Path: pt.String(), Err: fmt.Errorf("no such directory %s", dir)}
 		}
 	}
 
@@ -135,7 +145,7 @@ func (fx *Pkger) Create(name string) (pkging.File, error) {
 		path: pt,
 		info: &pkging.FileInfo{
 			Details: pkging.Details{
-				Name:    filepath.Base(name),
+				Name:    path.Base(pt.Name),
 				Mode:    0644,
 				ModTime: pkging.ModTime(time.Now()),
 			},
-- 
2.43.0


From 8e6f5ed60cacf8747d0ec87b97de0689497bba85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:45 +0000
Subject: [PATCH 13/24] fix: mem Remove must refuse a directory that is not
 empty

It dropped the directory and left its files behind, without a parent.
---
 pkging/mem/mem.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkging/mem/mem.go b/pkging/mem/mem.go
index 84f71e9..65511bb 100644
--- a/pkging/mem/mem.go
+++ b/pkging/mem/mem.go
@@ -69,6 +69,15 @@ func (fx *Pkger) Remove(name string) error {
 		return &os.PathError{"remove", pt.String(), fmt.Errorf("no such file or directory")}
 	}
 
+	empty := true
+	fx.files.Range(func(key here.Path, file pkging.File) bool {
+		empty = key == pt || !within(pt, key)
+		return empty
+	})
+	if !empty {
+		return &os.PathError{"remove", pt.String(), fmt.Errorf("directory not empty")}
+	}
+
 	fx.files.Delete(pt)
 	return nil
 }
-- 
2.43.0


From ebaa226da7287bde40e1656b7ef7a9d00b49e0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:55 +0000
Subject: [PATCH 14/24] fix: UnmarshalJSON must restore the paths that were
 marshaled

Parsing the keys again could change them: with the module in /app,
/app/app/app/x is "app:/app/x", which is parsed as "app:/x".
---
 pkging/mem/embed.go | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/pkging/mem/embed.go b/pkging/mem/embed.go
index a7086ed..6022698 100644
--- a/pkging/mem/embed.go
+++ b/pkging/mem/embed.go
@@ -60,12 +60,7 @@ func (p *Pkger) UnmarshalJSON(b []byte) error {
 	}
 
 	p.files = &maps.Files{}
-	for k, v := range y.Files {
-		pt, err := p.Parse(k)
-		if err != nil {
-			return err
-		}
-
+	for _, v := range y.Files {
 		f := &File{
 			Here:   v.Here,
 			info:   v.Info,
@@ -73,7 +68,7 @@ func (p *Pkger) UnmarshalJSON(b []byte) error {
 			data:   v.Data,
 			parent: v.Parent,
 		}
-		p.files.Store(pt, f)
+		p.files.Store(v.Path, f)
 	}
 	return nil
 }
-- 
2.43.0


From ceb70117228dabe688779daa48928bfc9cab1565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:35 +0000
Subject: [PATCH 15/24] fix: mem Readdir must list the children of the
 directory, once

Readdir(n) returned the same entries over and over and never io.EOF,
and it listed the files of directories that are not embedded themselves.
---
 pkging/mem/file.go | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index 045dbcf..c52f3ba 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -27,6 +27,7 @@ type File struct {
 	writer *bytes.Buffer
 	reader io.Reader
 	pkging pkging.Pkger
+	listed int // entries returned by Readdir
 }
 
 // Seek sets the offset for the next Read or Write on file to offset, interpreted according to whence: 0 means relative to the origin of the file, 1 means relative to the current offset, and 2 means relative to the end. It returns the new offset and an error, if any.
@@ -128,30 +129,24 @@ func (f File) String() string {
 // If n <= 0, Readdir returns all the FileInfo from the directory in a single slice. In this case, if Readdir succeeds (reads all the way to the end of the directory), it returns the slice and a nil error. If it encounters an error before the end of the directory, Readdir returns the FileInfo read until that point and a non-nil error.
 func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 	var infos []os.FileInfo
-	root := f.Path().String()
-	err := f.pkging.Walk(root, func(path string, info os.FileInfo, err error) error {
+	root := f.Path()
+	err := f.pkging.Walk(root.String(), func(name string, info os.FileInfo, err error) error {
 		if err != nil {
 			return err
 		}
 
-		if count > 0 && len(infos) == count {
-			return io.EOF
-		}
-
-		if root == path {
-			return nil
-		}
-
-		pt, err := f.pkging.Parse(path)
+		pt, err := f.pkging.Parse(name)
 		if err != nil {
 			return err
 		}
-		if pt.Name == f.parent.Name {
+
+		// only what is directly below root
+		if pt.Name == root.Name || path.Dir(pt.Name) != root.Name {
 			return nil
 		}
 
 		infos = append(infos, info)
-		if info.IsDir() && path != root {
+		if info.IsDir() {
 			return filepath.SkipDir
 		}
 
@@ -159,15 +154,23 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 	})
 
 	if err != nil {
-		if _, ok := err.(*os.PathError); ok {
-			return infos, nil
+		return nil, err
+	}
+
+	if f.listed > len(infos) {
+		f.listed = len(infos)
+	}
+	infos = infos[f.listed:]
+	if count > 0 {
+		if len(infos) == 0 {
+			return nil, io.EOF
 		}
-		if err != io.EOF {
-			return nil, err
+		if len(infos) > count {
+			infos = infos[:count]
 		}
 	}
+	f.listed += len(infos)
 	return infos, nil
-
 }
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
-- 
2.43.0


From 1593ece38c69c5f728c5ead811ef6dbe9572fcea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:48 +0000
Subject: [PATCH 16/24] fix: a walked file belongs to the package that is
 walked

It was resolved with here.Dir of the directory visited last, and here
has one entry for all directories without Go files: files of another
module got an absolute path in the wrong module.
---
 parser/walk.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/parser/walk.go b/parser/walk.go
index eed6d91..918373a 100644
--- a/parser/walk.go
+++ b/parser/walk.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"go/token"
 	"os"
+	gopath "path"
 	"path/filepath"
 	"strings"
 
@@ -63,20 +64,8 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 			return err
 		}
 
-		if info.IsDir() {
-			her, err = here.Dir(path)
-			if err != nil {
-				return err
-			}
-		}
-
 		n := strings.TrimPrefix(path, her.Module.Dir)
 
-		pt, err := her.Parse(n)
-		if err != nil {
-			return err
-		}
-
 		if _, ok := virtual[n]; ok {
 			if info.IsDir() {
 				return filepath.SkipDir
@@ -85,8 +74,12 @@ func (d WalkDecl) Files(virtual map[string]string) ([]*File, error) {
 		}
 
 		files = append(files, &File{
-			Abs:  path,
-			Path: pt,
+			Abs: path,
+			// the package is the one that is walked, that's how the file is opened
+			Path: here.Path{
+				Pkg:  pt.Pkg,
+				Name: gopath.Clean("/" + filepath.ToSlash(n)),
+			},
 			Here: her,
 		})
 		return nil
-- 
2.43.0


From 33d472dd421713ebff782edec3676266f200e7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:13 +0000
Subject: [PATCH 17/24] fix: embed files under the path they are opened with

Stuff added files by their name on disk: a file of another module was
embedded as "app:/go/pkg/mod/other/file" and could not be opened as
"other:/file". Adding directories recursively also embedded the files
that decls.Files leaves out.
---
 pkging/mem/add.go       | 29 +++++++++++++++++++++++++++++
 pkging/pkgutil/stuff.go |  6 +-----
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/pkging/mem/add.go b/pkging/mem/add.go
index a77379a..7bd6644 100644
--- a/pkging/mem/add.go
+++ b/pkging/mem/add.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"io"
 	"os"
+	"path"
 	"path/filepath"
 
 	"github.com/markbates/pkger/here"
@@ -102,3 +103,31 @@ func (fx *Pkger) Add(files ...*os.File) error {
 
 	return nil
 }
+
+// AddAs copies the file, or the directory without its contents, into the
+// *Pkger as pt. Unlike Add it isn't limited to the files of the current module.
+func (fx *Pkger) AddAs(pt here.Path, her here.Info, f *os.File) error {
+	info, err := f.Stat()
+	if err != nil {
+		return err
+	}
+
+	pt.Name = path.Clean("/" + pt.Name)
+	mf := &File{
+		Here:   her,
+		info:   pkging.NewFileInfo(info),
+		path:   pt,
+		pkging: fx,
+	}
+
+	if !info.IsDir() {
+		bb := &bytes.Buffer{}
+		if _, err := io.Copy(bb, f); err != nil {
+			return err
+		}
+		mf.data = bb.Bytes()
+	}
+
+	fx.files.Store(mf.Path(), mf)
+	return nil
+}
diff --git a/pkging/pkgutil/stuff.go b/pkging/pkgutil/stuff.go
index 1169a30..1cd13a5 100644
--- a/pkging/pkgutil/stuff.go
+++ b/pkging/pkgutil/stuff.go
@@ -34,11 +34,7 @@ func Stuff(w io.Writer, c here.Info, decls parser.Decls) error {
 			}
 			defer df.Close()
 
-			if err := pkg.Add(df); err != nil {
-				return err
-			}
-
-			return err
+			return pkg.AddAs(pf.Path, pf.Here, df)
 		}()
 
 		if err != nil {
-- 
2.43.0


From fdbd9da648d16d497e8d0cd082312797103224a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:36 +0000
Subject: [PATCH 18/24] fix: packaging must not leave a broken pkged.go behind

On an error the partial file stayed and broke the build, errors of
writing it were dropped, and a panic was reported as success.
---
 cmd/pkger/cmds/pack.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/cmd/pkger/cmds/pack.go b/cmd/pkger/cmds/pack.go
index d91e4cf..b1e5038 100644
--- a/cmd/pkger/cmds/pack.go
+++ b/cmd/pkger/cmds/pack.go
@@ -1,8 +1,10 @@
 package cmds
 
 import (
+	"bytes"
 	"flag"
 	"fmt"
+	"io/ioutil"
 	"os"
 	"path/filepath"
 	"sort"
@@ -123,7 +125,7 @@ func (e *packCmd) Flags() *flag.FlagSet {
 	return e.FlagSet
 }
 
-func Package(info here.Info, out string, decls parser.Decls) error {
+func Package(info here.Info, out string, decls parser.Decls) (err error) {
 	c, err := here.Dir(filepath.Dir(out))
 	if err != nil {
 		return err
@@ -131,17 +133,15 @@ func Package(info here.Info, out string, decls parser.Decls) error {
 
 	os.RemoveAll(out)
 	defer func() {
-		if err := recover(); err != nil {
+		if r := recover(); r != nil {
+			err = fmt.Errorf("%v", r)
+		}
+		if err != nil {
 			os.RemoveAll(out)
 		}
 	}()
 
-	f, err := os.Create(out)
-	if err != nil {
-		return err
-	}
-	defer f.Close()
-
+	f := &bytes.Buffer{}
 	fmt.Fprintf(f, "// Code generated by pkger; DO NOT EDIT.\n\n")
 	fmt.Fprintf(f, "// +build !skippkger\n\n")
 	fmt.Fprintf(f, "package %s\n\n", c.Name)
@@ -155,5 +155,5 @@ func Package(info here.Info, out string, decls parser.Decls) error {
 
 	fmt.Fprintf(f, "`)))\n")
 
-	return nil
+	return ioutil.WriteFile(out, f.Bytes(), 0666)
 }
-- 
2.43.0


From a52062875201e0cd77f3440d5611ded2814df643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:32 +0000
Subject: [PATCH 19/24] fix: opening through an in-memory directory handle
 takes the name as it is

mem.File.Open parsed the name like a path of a package, so a name such as
"/x:/y" opened the entry "/x" of the directory.
---
 pkging/mem/file.go | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pkging/mem/file.go b/pkging/mem/file.go
index c52f3ba..7037465 100644
--- a/pkging/mem/file.go
+++ b/pkging/mem/file.go
@@ -8,6 +8,7 @@ import (
 	"os"
 	"path"
 	"path/filepath"
+	"strings"
 	"time"
 
 	"github.com/markbates/pkger/here"
@@ -175,14 +176,12 @@ func (f *File) Readdir(count int) ([]os.FileInfo, error) {
 
 // Open implements the http.FileSystem interface. A FileSystem implements access to a collection of named files. The elements in a file path are separated by slash ('/', U+002F) characters, regardless of host operating system convention.
 func (f *File) Open(name string) (http.File, error) {
-	pt, err := f.Here.Parse(name)
-	if err != nil {
-		return nil, err
-	}
-
 	// name is relative to f, ".." must not climb out of f
-	pt.Pkg = f.path.Pkg
-	pt.Name = path.Join(f.path.Name, path.Clean("/"+pt.Name))
+	name = path.Clean("/" + strings.Replace(name, "\\", "/", -1))
+	pt := here.Path{
+		Pkg:  f.path.Pkg,
+		Name: path.Join(f.path.Name, name),
+	}
 
 	di, err := f.pkging.Open(pt.String())
 	if err != nil {
-- 
2.43.0


From 0333ea3d929acbf4fb2242c000b67e5ed755d1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:25 +0000
Subject: [PATCH 20/24] fix: rehydrating from null is an error, not a panic

---
 pkging/mem/embed.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkging/mem/embed.go b/pkging/mem/embed.go
index 6022698..49b23a0 100644
--- a/pkging/mem/embed.go
+++ b/pkging/mem/embed.go
@@ -2,6 +2,7 @@ package mem
 
 import (
 	"encoding/json"
+	"errors"
 
 	"github.com/markbates/pkger/here"
 	"github.com/markbates/pkger/internal/maps"
@@ -52,6 +53,9 @@ func (p *Pkger) UnmarshalJSON(b []byte) error {
 	if err := json.Unmarshal(b, &y); err != nil {
 		return err
 	}
+	if y == nil {
+		return errors.New("there is no filesystem in null")
+	}
 
 	p.Here = y.Here
 	p.infos = &maps.Infos{}
-- 
2.43.0


From e9e9fe085580d482b7a13d3e33af0e297e9773b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:48 +0000
Subject: [PATCH 21/24] fix: constants declared by each other don't overflow
 the parser's stack

---
 parser/source.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/parser/source.go b/parser/source.go
index 80217ff..1d701af 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -33,12 +33,17 @@ func (p *ParsedSource) Parse() error {
 	return p.err
 }
 
-func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
+func (p *ParsedSource) valueIdent(node *ast.Ident, seen map[*ast.Object]bool) (s string) {
 	s = node.Name
 	// Obj is nil if the identifier isn't declared in this file
 	if node.Obj == nil || node.Obj.Kind != ast.Con {
 		return
 	}
+	// a constant that is declared by itself has no value
+	if seen[node.Obj] {
+		return
+	}
+	seen[node.Obj] = true
 	// As per ast package a Con object is always a *ValueSpec,
 	// but double-checking to avoid panics
 	if x, ok := node.Obj.Decl.(*ast.ValueSpec); ok {
@@ -48,7 +53,7 @@ func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 			if v.Name == node.Name {
 				// there is no value if the expression is repeated implicitly
 				if i < len(x.Values) {
-					s = p.valueNode(x.Values[i])
+					s = p.valueNode(x.Values[i], seen)
 				}
 				break
 			}
@@ -57,19 +62,19 @@ func (p *ParsedSource) valueIdent(node *ast.Ident) (s string) {
 	return
 }
 
-func (p *ParsedSource) valueNode(node ast.Node) string {
+func (p *ParsedSource) valueNode(node ast.Node, seen map[*ast.Object]bool) string {
 	var s string
 	switch x := node.(type) {
 	case *ast.BasicLit:
 		s = x.Value
 	case *ast.Ident:
-		s = p.valueIdent(x)
+		s = p.valueIdent(x, seen)
 	}
 	return s
 }
 
 func (p *ParsedSource) value(node ast.Node) (string, error) {
-	s := p.valueNode(node)
+	s := p.valueNode(node, map[*ast.Object]bool{})
 	return strconv.Unquote(s)
 }
 
-- 
2.43.0


From d8b00e8fb08cf17ab967bf70241742848fcbeaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:15 +0000
Subject: [PATCH 22/24] fix: calls below a call that can't be resolved are
 declarations, too

---
 parser/source.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/parser/source.go b/parser/source.go
index 1d701af..d18baf1 100644
--- a/parser/source.go
+++ b/parser/source.go
@@ -166,33 +166,33 @@ func (p *ParsedSource) parse() error {
 
 		if len(ce.Args) < 1 {
 			p.err = fmt.Errorf("declarations require at least one argument")
-			return false
+			return true
 		}
 
 		n := ce.Args[0]
 		val, err := p.value(n)
 		if err != nil {
 			p.err = fmt.Errorf("%s: %s", err, n)
-			return false
+			return true
 		}
 
 		info, err := here.Dir(filepath.Dir(p.Abs))
 		if err != nil {
 			p.err = fmt.Errorf("%s: %s", err, p.Abs)
-			return false
+			return true
 		}
 
 		pt, err := info.Parse(val)
 		if err != nil {
 			p.err = fmt.Errorf("%s: %s", err, p.Abs)
-			return false
+			return true
 		}
 
 		if pt.Pkg != info.Module.Path {
 			info, err = here.Package(pt.Pkg)
 			if err != nil {
 				p.err = fmt.Errorf("%s: %s", err, p.Abs)
-				return false
+				return true
 			}
 		}
 
-- 
2.43.0


From 3ba806dd2b344ed0799be7f12d5caf3be500f68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:17 +0000
Subject: [PATCH 23/24] fix: no old pkged.go is left behind when the output
 directory can't be resolved

---
 cmd/pkger/cmds/pack.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmd/pkger/cmds/pack.go b/cmd/pkger/cmds/pack.go
index b1e5038..7120e64 100644
--- a/cmd/pkger/cmds/pack.go
+++ b/cmd/pkger/cmds/pack.go
@@ -126,11 +126,6 @@ func (e *packCmd) Flags() *flag.FlagSet {
 }
 
 func Package(info here.Info, out string, decls parser.Decls) (err error) {
-	c, err := here.Dir(filepath.Dir(out))
-	if err != nil {
-		return err
-	}
-
 	os.RemoveAll(out)
 	defer func() {
 		if r := recover(); r != nil {
@@ -141,6 +136,11 @@ func Package(info here.Info, out string, decls parser.Decls) (err error) {
 		}
 	}()
 
+	c, err := here.Dir(filepath.Dir(out))
+	if err != nil {
+		return err
+	}
+
 	f := &bytes.Buffer{}
 	fmt.Fprintf(f, "// Code generated by pkger; DO NOT EDIT.\n\n")
 	fmt.Fprintf(f, "// +build !skippkger\n\n")
-- 
2.43.0


From 0c4a0752e011450d75b6fac831ceaf2d3ffc60e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:16 +0000
Subject: [PATCH 24/24] fix: list leaves out the temporary files that aren't
 packaged, either

---
 cmd/pkger/cmds/list.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmd/pkger/cmds/list.go b/cmd/pkger/cmds/list.go
index ab3598a..b756fd7 100644
--- a/cmd/pkger/cmds/list.go
+++ b/cmd/pkger/cmds/list.go
@@ -7,6 +7,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/markbates/pkger"
 	"github.com/markbates/pkger/parser"
@@ -58,7 +59,13 @@ func (e *listCmd) Exec(args []string) error {
 	if err != nil {
 		return err
 	}
-	jay.Files = files
+	for _, f := range files {
+		// packaging leaves those out, too
+		if strings.HasSuffix(f.Abs, ".tmp") {
+			continue
+		}
+		jay.Files = append(jay.Files, f)
+	}
 
 	if e.json {
 		bb := &bytes.Buffer{}
-- 
2.43.0

