// The in-memory filesystem (pkging/mem).
implied pkging.File: *mem.File
implied http.File: *mem.File, *stdos.File
implied pkging.Pkger: *mem.Pkger
implied io.Reader: *bytes.Reader
implied io.Seeker: *bytes.Reader

func (*mem.Pkger).Parse(f, p) (pt, err)
  tags C21
  requires f != nil
  ensures [rejected exactly when the module rejects it] err == hereParseErr(f.Here, p)
  ensures [the path depends on the name and the module only, and is the same on disk] err == nil ==> pt == resolve(f.Here, p)
  ensures [rooted, cleaned and free of ".." elements] err == nil ==> prefix("/", pt.Name) && Clean(pt.Name) == pt.Name && !contains(pt.Name + "/", "/../") && canonical(pt.Name)
func (*stdos.Pkger).Parse(f, p) (pt, err)
  tags C21
  requires f != nil
  ensures [rejected exactly when the module rejects it] err == hereParseErr(f.Here, p)
  ensures [the path depends on the name and the module only, and is the same in memory] err == nil ==> pt == resolve(f.Here, p)
  ensures [rooted, cleaned and free of ".." elements] err == nil ==> prefix("/", pt.Name) && Clean(pt.Name) == pt.Name && !contains(pt.Name + "/", "/../") && canonical(pt.Name)

define entryOk(k any, v any) bool = k is gh.Path && v is *mem.File && (v as *mem.File) != nil && box((v as *mem.File).path) == k && allocated(v as *mem.File) && (v as *mem.File).info != nil && allocated((v as *mem.File).info) && canonical((v as *mem.File).path.Name)
define memOk(fx *mem.Pkger) bool = fx != nil && fx.files != nil && fx.infos != nil && (fx.infos.data == nil || allocated(fx.infos.data) && fx.infos.data != fx.files.data) && filesOk(fx.files) && infosOk(fx.infos) && (forall k any {fcontent(fx.files)[k]} :: fcontent(fx.files)[k] != absent ==> entryOk(k, fcontent(fx.files)[k]))
// the table of files stays the same object once it exists
define keptTable(fx *mem.Pkger) bool = old(fx.files.data) == nil && (fx.files.data == nil || fresh(fx.files.data)) || fx.files.data == old(fx.files.data)
define stored(fx *mem.Pkger, pt gh.Path) *mem.File = fcontent(fx.files)[box(pt)] as *mem.File
define has_(fx *mem.Pkger, pt gh.Path) bool = fcontent(fx.files)[box(pt)] != absent

// open handles
define handleOk(f *mem.File) bool = f != nil && f.info != nil && (f.reader != nil ==> f.reader is *bytes.Reader && (f.reader as *bytes.Reader) != nil && (f.reader as *bytes.Reader).content == bytes(f.data) && 0 <= (f.reader as *bytes.Reader).pos)
define offset(f *mem.File) int = if f.reader == nil then 0 else (f.reader as *bytes.Reader).pos
define left(f *mem.File) int = if offset(f) >= len(bytes(f.data)) then 0 else len(bytes(f.data)) - offset(f)

func (*mem.File).Read(f, p) (n, err)
  tags C05, C06
  requires handleOk(f) && !f.info.Details.IsDir
  requires [the buffer is not the storage of the file] ref(p) == 0 || ref(p) != ref(f.data)
  modifies f.reader, *(f.reader as *bytes.Reader), bytes(p)
  ensures [no more bytes than fit and are left] 0 <= n && n <= len(p) && n <= old(left(f))
  ensures [some, if there are] len(p) > 0 && old(left(f)) > 0 ==> n > 0
  ensures [the bytes at the offset, in order] substr(bytes(p), 0, n) == substr(bytes(f.data), old(offset(f)), n)
  ensures [the offset advances by the bytes read] offset(f) == old(offset(f)) + n
  ensures [io.EOF at the end, otherwise no error] err == (if old(offset(f)) >= len(bytes(f.data)) then io.EOF else nil)
  ensures [a reader of its own] handleOk(f) && (f.reader == old(f.reader) || fresh(f.reader as *bytes.Reader))

func (*mem.File).Seek(f, off, whence) (r, err)
  tags C05, C06
  requires handleOk(f) && !f.info.Details.IsDir
  modifies f.reader, *(f.reader as *bytes.Reader)
  let target = if whence == 0 then off else if whence == 1 then old(offset(f)) + off else len(bytes(f.data)) + off
  ensures [seeking moves to exactly the requested offset] 0 <= whence && whence <= 2 && target >= 0 ==> err == nil && r == target && offset(f) == target
  ensures [an impossible offset is an error and moves nothing] !(0 <= whence && whence <= 2 && target >= 0) ==> err != nil && offset(f) == old(offset(f))
  ensures [a reader of its own] handleOk(f) && (f.reader == old(f.reader) || fresh(f.reader as *bytes.Reader))

func (*mem.File).Write(f, b) (n, err)
  tags C05, C06
  requires handleOk(f)
  modifies f.writer, *f.writer
  ensures [all bytes are taken] n == len(b) && err == nil
  ensures [appended to what was written before] f.writer != nil && *f.writer == (if old(f.writer) == nil then "" else old(*f.writer)) + old(bytes(b))
  ensures [a writer of its own] f.writer == old(f.writer) || fresh(f.writer)

func (*mem.File).Close(f) (err)
  tags C05, C06
  requires handleOk(f)
  modifies f.reader, f.writer, f.data, f.info, *f.info
  ensures [closed] err == nil && f.reader == nil && f.writer == nil && (f.info == old(f.info) || fresh(f.info)) && handleOk(f)
  ensures [the content is what was written] old(f.writer) != nil ==> bytes(f.data) == old(*f.writer) && f.info.Details.Size == len(old(*f.writer))
  ensures [the rest of the metadata stays] f.info.Details.Name == old(f.info.Details.Name) && f.info.Details.Mode == old(f.info.Details.Mode) && f.info.Details.IsDir == old(f.info.Details.IsDir)
  ensures [without a write nothing changes] old(f.writer) == nil ==> f.data == old(f.data) && *f.info == old(*f.info)

// every stored entry has metadata of its own
define infosApart(fx *mem.Pkger) bool = forall k any, l any {fcontent(fx.files)[k], fcontent(fx.files)[l]} :: fcontent(fx.files)[k] != absent && fcontent(fx.files)[l] != absent && k != l ==> (fcontent(fx.files)[k] as *mem.File).info != (fcontent(fx.files)[l] as *mem.File).info
define sameTables(fx *mem.Pkger) bool = fx.files == old(fx.files) && fx.infos == old(fx.infos) && fcontent(fx.files) == old(fcontent(fx.files)) && icontent(fx.infos) == old(icontent(fx.infos))

func (*mem.Pkger).Open(fx, name) (r, err)
  tags C05, C06, C21
  requires memOk(fx)
  let pt = resolve(fx.Here, name)
  modifies fx.files.data, fx.files.once when !fx.files.once
  ensures [opens exactly the entry of the resolved path] err == nil <==> hereParseErr(fx.Here, name) == nil && old(has_(fx, pt))
  ensures [a new handle] err == nil ==> r is *mem.File && (r as *mem.File) != nil && fresh(r as *mem.File) && (r as *mem.File).reader == nil && (r as *mem.File).writer == nil && (r as *mem.File).listed == 0
  ensures [with the content stored at that moment] err == nil ==> bytes((r as *mem.File).data) == bytes(old(stored(fx, pt).data)) && handleOk(r as *mem.File)
  ensures [with a copy of the metadata stored at that moment] err == nil ==> fresh((r as *mem.File).info) && (r as *mem.File).info.Details == old(stored(fx, pt).info.Details)
  ensures [under its path] err == nil ==> (r as *mem.File).path == pt && (r as *mem.File).Here == old(stored(fx, pt).Here) && (r as *mem.File).pkging == box(fx)
  ensures [the filesystem stays] memOk(fx) && keptTable(fx) && fcontent(fx.files) == old(fcontent(fx.files))

func mem.New(info) (r, err)
  tags C03, C07, C21
  ensures [an empty filesystem of the module] err == nil && memOk(r) && infosApart(r) && r.Here == info && fcontent(r.files) == emptymap(any) && icontent(r.infos) == upd(emptymap(any), info.ImportPath, info)
  ensures [storage of its own] err == nil ==> fresh(r) && fresh(r.files) && fresh(r.infos) && (r.files.data == nil || fresh(r.files.data)) && (r.infos.data == nil || fresh(r.infos.data)) && r.files.data != r.infos.data
func (*mem.Pkger).Current(f) (r, err)
  tags C07
  requires f != nil
  ensures [the current module] err == nil && r == f.Here
func (*mem.Pkger).Info(f, p) (r, err)
  tags C07
  requires f != nil && f.infos != nil && infosOk(f.infos)
  modifies f.infos.data, f.infos.once when !f.infos.once
  ensures [known packages only] err == nil <==> icontent(f.infos)[p] != absent
  ensures [the info of the package] err == nil ==> box(r) == icontent(f.infos)[p]
  ensures [nothing changes] icontent(f.infos) == old(icontent(f.infos)) && infosOk(f.infos) && (f.infos.data == old(f.infos.data) || old(f.infos.data) == nil && fresh(f.infos.data))
func (*mem.Pkger).Stat(fx, name) (r, err)
  tags C07, C21
  requires memOk(fx)
  let pt = resolve(fx.Here, name)
  modifies fx.files.data, fx.files.once when !fx.files.once
  ensures [of exactly the entry of the resolved path] err == nil <==> hereParseErr(fx.Here, name) == nil && old(has_(fx, pt))
  ensures [its metadata] err == nil ==> r is *pkging.FileInfo && (r as *pkging.FileInfo).Details == old(stored(fx, pt).info.Details)
  ensures [nothing changes] memOk(fx) && keptTable(fx) && fcontent(fx.files) == old(fcontent(fx.files))

define isDirAt(fx *mem.Pkger, pt gh.Path) bool = stored(fx, pt).info.Details.IsDir

func (*mem.Pkger).Remove(fx, name) (err)
  tags C07
  requires memOk(fx)
  let pt = resolve(fx.Here, name)
  modifies fx.files.data, fx.files.once when !fx.files.once
  modifies *fx.files.data
  ensures [fails if there is no such entry] err == nil ==> hereParseErr(fx.Here, name) == nil && old(has_(fx, pt))
  ensures [fails if the directory is not empty] err == nil ==> forall k any {old(fcontent(fx.files))[k]} :: old(fcontent(fx.files))[k] != absent && withinKey(pt, k) ==> k == box(pt)
  ensures [otherwise succeeds] hereParseErr(fx.Here, name) == nil && old(has_(fx, pt)) && (forall k any {old(fcontent(fx.files))[k]} :: old(fcontent(fx.files))[k] != absent && withinKey(pt, k) ==> k == box(pt)) ==> err == nil
  ensures [deletes exactly the named entry] err == nil ==> fcontent(fx.files) == upd(old(fcontent(fx.files)), pt, absent)
  ensures [a failed operation changes nothing] err != nil ==> fcontent(fx.files) == old(fcontent(fx.files))
  ensures [a well-formed filesystem] memOk(fx) && keptTable(fx)
  iter Range
    bind empty bool
    invariant [going on means nothing else is below so far] empty == start(empty) && (forall k any {$visited[k]} :: $visited[k] && withinKey(pt, k) ==> k == box(pt))
    invariant [the table stays] fcontent(fx.files) == $start
  iter Range
    bind below int
    invariant [going on means nothing else is below so far] below == start(below) && (forall k any {$visited[k]} :: $visited[k] && withinKey(pt, k) ==> k == box(pt))
    invariant [the table stays] fcontent(fx.files) == $start
  loop
    bind $seq []gh.Path
    invariant [nothing else is below so far] forall i int {$seq[i]} :: 0 <= i && i < $n && i < len($seq) && within(pt, $seq[i]) ==> $seq[i] == pt
    invariant [the table stays] fcontent(fx.files) == old(fcontent(fx.files)) && fx.files.once && fx.files.data != nil

func (*mem.Pkger).RemoveAll(fx, name) (err)
  tags C07
  requires memOk(fx)
  let pt = resolve(fx.Here, name)
  modifies fx.files.data, fx.files.once when !fx.files.once
  modifies *fx.files.data
  ensures [fails only for a bad name] err == nil <==> hereParseErr(fx.Here, name) == nil
  ensures [deletes exactly the path and what lies below it] err == nil ==> forall k any {fcontent(fx.files)[k]} :: fcontent(fx.files)[k] == (if withinKey(pt, k) then absent else old(fcontent(fx.files))[k])
  ensures [a failed operation changes nothing] err != nil ==> fcontent(fx.files) == old(fcontent(fx.files))
  ensures [a well-formed filesystem] memOk(fx) && keptTable(fx)
  iter Range
    bind gone []gh.Path
    invariant [exactly what is to be deleted, so far] (forall i int {gone[i]} :: 0 <= i && i < len(gone) ==> within(pt, gone[i])) && (forall k gh.Path {$visited[box(k)]} :: $visited[box(k)] && within(pt, k) ==> exists i int :: 0 <= i && i < len(gone) && gone[i] == k)
    invariant [storage of its own] gone == nil || fresh(gone)
    invariant [the table stays] fcontent(fx.files) == $start && fx.files.once && fx.files.data != nil
  iter Range
    invariant [deleted so far] forall k any {fcontent(fx.files)[k]} :: fcontent(fx.files)[k] == (if $visited[k] && withinKey(pt, k) then absent else $start[k])
    ghost d = fx.files.data
    invariant [the table itself stays] fx.files.once && fx.files.data != nil && fx.files.data == d
  loop
    bind $seq []gh.Path
    invariant [deleted so far] forall i int {$seq[i]} :: 0 <= i && i < $n && i < len($seq) && within(pt, $seq[i]) ==> fcontent(fx.files)[box($seq[i])] == absent
    invariant [nothing else is] forall k any {fcontent(fx.files)[k]} :: fcontent(fx.files)[k] == old(fcontent(fx.files))[k] || fcontent(fx.files)[k] == absent && withinKey(pt, k)
    ghost t = fx.files.data
    invariant [the table itself stays] fx.files.once && fx.files.data != nil && fx.files.data == t

// every entry lies in a stored directory (directly below the root: in the package)
define closed(fx *mem.Pkger) bool = forall k any {fcontent(fx.files)[k]} :: fcontent(fx.files)[k] != absent && (k as gh.Path).Name != "/" && PDir((k as gh.Path).Name) != "/" ==> has_(fx, parentOf(k as gh.Path)) && isDirAt(fx, parentOf(k as gh.Path))
// a new directory with the permissions perm under the path k
define newDir(v any, k gh.Path, perm int) bool = v is *mem.File && fresh(v as *mem.File) && fresh((v as *mem.File).info) && (v as *mem.File).path == k && (v as *mem.File).info.Details.IsDir && (v as *mem.File).info.Details.Mode == perm | os.ModeDir && (v as *mem.File).info.Details.Name == Split1(k.Name) && (v as *mem.File).reader == nil && (v as *mem.File).writer == nil && (v as *mem.File).info.Details.Size == 0

func (*mem.Pkger).MkdirAll(fx, p, perm) (err)
  tags C07
  requires memOk(fx) && infosApart(fx)
  let pt = resolve(fx.Here, p)
  requires [a plain name] hereParseErr(fx.Here, p) == nil ==> plain(fx.Here, pt)
  modifies fx.files.data, fx.files.once when !fx.files.once
  modifies *fx.files.data
  ensures [fails only for a bad name or if something on the path is not a directory] err != nil ==> hereParseErr(fx.Here, p) != nil || exists k any {old(fcontent(fx.files))[k]} :: old(fcontent(fx.files))[k] != absent && onPath(k, pt) && !old(stored(fx, k as gh.Path).info.Details.IsDir)
  ensures [a failed operation changes nothing] err != nil ==> fcontent(fx.files) == old(fcontent(fx.files))
  ensures [what is stored stays] forall k any {fcontent(fx.files)[k]} :: old(fcontent(fx.files))[k] != absent ==> fcontent(fx.files)[k] == old(fcontent(fx.files))[k]
  ensures [adds only missing directories on the path] forall k any {fcontent(fx.files)[k]} :: old(fcontent(fx.files))[k] == absent && fcontent(fx.files)[k] != absent ==> onPath(k, pt) && newDir(fcontent(fx.files)[k], k as gh.Path, perm)
  ensures [the path is a directory] err == nil ==> has_(fx, pt) && isDirAt(fx, pt)
  ensures [parents are directories] old(closed(fx)) ==> closed(fx)
  ensures [a well-formed filesystem] memOk(fx) && keptTable(fx) && infosApart(fx)

func (*mem.Pkger).Create(fx, name) (r, err)
  tags C05, C06, C07, C21
  requires memOk(fx) && infosApart(fx)
  let pt = resolve(fx.Here, name)
  let top = resolve(fx.Here, "/")
  let dir = mk gh.Path{Pkg: pt.Pkg, Name: PDir(pt.Name)}
  let possible = hereParseErr(fx.Here, name) == nil && old(icontent(fx.infos))[pt.Pkg] != absent && pt.Name != "/" && !(old(has_(fx, pt)) && old(isDirAt(fx, pt))) && (dir.Name == "/" || old(has_(fx, dir)) && old(isDirAt(fx, dir)))
  modifies fx.files.data, fx.files.once when !fx.files.once
  modifies fx.infos.data, fx.infos.once when !fx.infos.once
  modifies *fx.files.data
  ensures [succeeds exactly for a file of a known package in an existing directory] err == nil <==> possible
  ensures [the new file is stored under its path] err == nil ==> r is *mem.File && fcontent(fx.files)[box(pt)] == r && fresh(r as *mem.File) && (r as *mem.File).path == pt && (r as *mem.File).pkging == box(fx)
  ensures [of its package] err == nil ==> box((r as *mem.File).Here) == old(icontent(fx.infos))[pt.Pkg]
  ensures [it is an empty regular file] err == nil ==> bytes((r as *mem.File).data) == "" && fresh((r as *mem.File).info) && !(r as *mem.File).info.Details.IsDir && (r as *mem.File).info.Details.Size == 0 && (r as *mem.File).info.Details.Mode == 420 && (r as *mem.File).info.Details.Name == PBase(pt.Name)
  ensures [an open handle] err == nil ==> handleOk(r as *mem.File) && (r as *mem.File).reader == nil && (r as *mem.File).writer == nil
  ensures [nothing else changes, except for the root entry of the module] forall k any {fcontent(fx.files)[k]} :: (err == nil ==> k != box(pt)) && (k != box(top) || old(fcontent(fx.files))[k] != absent) ==> fcontent(fx.files)[k] == old(fcontent(fx.files))[k]
  ensures [the root entry is a directory] fcontent(fx.files)[box(top)] == old(fcontent(fx.files))[box(top)] || newDir(fcontent(fx.files)[box(top)], top, 493)
  ensures [the root entry is there] err == nil && hereParseErr(fx.Here, "/") == nil ==> has_(fx, top)
  ensures [parents are directories] old(closed(fx)) ==> closed(fx)
  ensures [a well-formed filesystem] memOk(fx) && keptTable(fx) && infosApart(fx) && icontent(fx.infos) == old(icontent(fx.infos))

// Walking
fun WalkCb(ref, string, any, any, World) any = "fn:filepath.WalkFunc.0"
fun WalkCb_w(ref, string, any, any, World) World = "fn:filepath.WalkFunc.w"
define skipped(skip []gh.Path, k gh.Path) bool = exists j int {skip[j]} :: 0 <= j && j < len(skip) && within(skip[j], k)
// what a callback gets to see of a new copy of the metadata of the entry
define copied(f *mem.File) any = box(mk pkging.FileInfo{Details: f.info.Details})
define dirOf(fx *mem.Pkger, k gh.Path) gh.Path = if isDirAt(fx, k) then k else parentOf(k)

func mem.within(root, pt) (r)
  tags C08
  ensures [root, or below it in the same package] r == within(root, pt)
func mem.withinAny(roots, pt) (r)
  tags C08
  ensures [below one of them] r == skipped(roots, pt)
  loop
    bind roots []gh.Path, found bool
    invariant [below one of the ones before] 0 <= $n && $n <= len(roots) && (found <==> exists j int {roots[j]} :: 0 <= j && j < $n && within(roots[j], pt))
  loop
    bind roots []gh.Path
    invariant [not below the ones before] forall j int {roots[j]} :: 0 <= j && j < $n ==> !within(roots[j], pt)

func (*mem.Pkger).Walk(f, p, wf) (err)
  tags C08
  requires memOk(f) && wf != nil
  let pt = resolve(f.Here, p)
  modifies f.files.data, f.files.once when !f.files.once
  modifies world(cb)
  ensures [a bad name is an error, without any callback] hereParseErr(f.Here, p) != nil ==> err == hereParseErr(f.Here, p) && world(cb) == old(world(cb))
  ensures [the filesystem stays] memOk(f) && keptTable(f) && fcontent(f.files) == old(fcontent(f.files))
  loop
    bind $seq []gh.Path, skip []gh.Path
    invariant [all entries] forall k gh.Path {old(fcontent(f.files))[box(k)]} :: old(fcontent(f.files))[box(k)] != absent ==> exists i int :: 0 <= i && i < len($seq) && $seq[i] == k
    invariant [nothing but entries] forall i int {$seq[i]} :: 0 <= i && i < len($seq) ==> old(fcontent(f.files))[box($seq[i])] != absent
    invariant [each once] forall i int, j int {$seq[i], $seq[j]} :: 0 <= i && i < j && j < len($seq) ==> $seq[i] != $seq[j]
    invariant [in ascending order of the full path] forall i int, j int {$seq[i], $seq[j]} :: 0 <= i && i < j && j < len($seq) ==> pathStr($seq[i]) <= pathStr($seq[j])
    invariant [no callback before the first entry] $n == 0 ==> world(cb) == old(world(cb)) && len(skip) == 0
    invariant [not beyond the entries] 0 <= $n && $n <= len($seq)
    invariant [the filesystem stays] memOk(f) && keptTable(f) && fcontent(f.files) == old(fcontent(f.files))
    step [entries outside the root or below a skipped directory get no callback] !within(pt, $seq[$n - 1]) || old(skipped(skip, $seq[$n - 1])) ==> world(cb) == old(world(cb)) && skip == old(skip)
    step [every other entry gets one callback, with its path, a snapshot of its metadata and no error] within(pt, $seq[$n - 1]) && !old(skipped(skip, $seq[$n - 1])) ==> world(cb) == WalkCb_w(wf, pathStr($seq[$n - 1]), copied(stored(f, $seq[$n - 1])), nil, old(world(cb))) && (WalkCb(wf, pathStr($seq[$n - 1]), copied(stored(f, $seq[$n - 1])), nil, old(world(cb))) == nil && skip == old(skip) || WalkCb(wf, pathStr($seq[$n - 1]), copied(stored(f, $seq[$n - 1])), nil, old(world(cb))) == filepath.SkipDir && len(skip) == len(old(skip)) + 1 && skip[len(old(skip))] == dirOf(f, $seq[$n - 1]))
    step [what is skipped stays skipped] forall j int {skip[j]} :: 0 <= j && j < len(old(skip)) ==> skip[j] == old(skip[j])
    leave [the walk stops early only if a callback returns another error, which is returned] within(pt, $seq[$n]) && !skipped(skip, $seq[$n]) && world(cb) == WalkCb_w(wf, pathStr($seq[$n]), copied(stored(f, $seq[$n])), nil, old(world(cb))) && $ret0 == WalkCb(wf, pathStr($seq[$n]), copied(stored(f, $seq[$n])), nil, old(world(cb))) && $ret0 != nil && $ret0 != filepath.SkipDir
    done [otherwise every entry was visited and there is no error] $n == len($seq) && $ret0 == nil && world(cb) == old(world(cb))
  loop
    bind $seq []gh.Path, k gh.Path
    invariant [not below the ones before] forall j int {$seq[j]} :: 0 <= j && j < $n && j < len($seq) ==> !within($seq[j], k)

// Reading directories
define childOf(dir gh.Path, k gh.Path) bool = k.Pkg == dir.Pkg && k.Name != dir.Name && PDir(k.Name) == dir.Name
// the entries directly below a directory, in the order of their paths
// a table holds finitely many entries
fun finite(array(any, any)) bool
fun nChildren(array(any, any), gh.Path) int
fun child(array(any, any), gh.Path, int) gh.Path
fun childIndex(array(any, any), gh.Path, gh.Path) int
axiom [the children of a directory can be counted] forall c array(any, any), d gh.Path {nChildren(c, d)} :: 0 <= nChildren(c, d)
axiom [each of them is a stored child] forall c array(any, any), d gh.Path, i int {child(c, d, i)} :: finite(c) && 0 <= i && i < nChildren(c, d) ==> c[box(child(c, d, i))] != absent && childOf(d, child(c, d, i)) && childIndex(c, d, child(c, d, i)) == i
axiom [in order] forall c array(any, any), d gh.Path, i int, j int {child(c, d, i), child(c, d, j)} :: finite(c) && 0 <= i && i < j && j < nChildren(c, d) ==> pathStr(child(c, d, i)) <= pathStr(child(c, d, j))
axiom [there are no others] forall c array(any, any), d gh.Path, k gh.Path {c[box(k)], childIndex(c, d, k)} :: finite(c) && c[box(k)] != absent && childOf(d, k) ==> 0 <= childIndex(c, d, k) && childIndex(c, d, k) < nChildren(c, d) && child(c, d, childIndex(c, d, k)) == k
lemma [children have different names] forall c array(any, any), d gh.Path, i int, j int {child(c, d, i), child(c, d, j)} :: finite(c) && 0 <= i && i < j && j < nChildren(c, d) && canonical(child(c, d, i).Name) && canonical(child(c, d, j).Name) ==> pathStr(child(c, d, i)) != pathStr(child(c, d, j))
lemma [nothing below a child is a child] forall a string, b string {PDir(a), PDir(b)} :: canonical(a) && canonical(b) && a != "/" && b != "/" && PDir(a) == PDir(b) ==> !prefix(a + "/", b)

define isChildInfo(fi any, f *mem.File) bool = fi is *pkging.FileInfo && fresh(fi as *pkging.FileInfo) && (fi as *pkging.FileInfo).Details == f.info.Details

func (*mem.File).Readdir(f, count) (r, err)
  tags C09
  requires f != nil && f.listed >= 0 && f.pkging is *mem.Pkger
  let fx = f.pkging as *mem.Pkger
  requires memOk(fx) && canonical(f.path.Name)
  requires [a table holds finitely many entries] finite(fcontent(fx.files))
  requires [plain names] plain(fx.Here, f.path) && forall k gh.Path {fcontent(fx.files)[box(k)]} :: fcontent(fx.files)[box(k)] != absent ==> plain(fx.Here, k)
  let c = old(fcontent(fx.files))
  let all = nChildren(c, f.path)
  let first = if old(f.listed) > all then all else old(f.listed)
  modifies fx.files.data, fx.files.once when !fx.files.once
  modifies f.listed
  ensures [at the end a positive count gives io.EOF] count > 0 && first == all ==> err == io.EOF && len(r) == 0
  ensures [otherwise there is no error] count <= 0 || first < all ==> err == nil
  ensures [as many of the remaining entries as asked for] err == nil ==> len(r) == (if count > 0 && count < all - first then count else all - first)
  ensures [the next children, in order] err == nil ==> forall i int {r[i]} :: 0 <= i && i < len(r) ==> isChildInfo(r[i], stored(fx, child(c, f.path, first + i)))
  ensures [the end stays the end] err == io.EOF ==> f.listed >= all
  ensures [the next call goes on from there] err == nil ==> f.listed == first + len(r)
  ensures [the filesystem stays] memOk(fx) && keptTable(fx) && fcontent(fx.files) == old(fcontent(fx.files))
  loop
    bind $seq []gh.Path, skip []gh.Path, infos []os.FileInfo
    invariant [all entries] forall k gh.Path {old(fcontent(fx.files))[box(k)]} :: old(fcontent(fx.files))[box(k)] != absent ==> exists i int :: 0 <= i && i < len($seq) && $seq[i] == k
    invariant [nothing but entries] forall i int {$seq[i]} :: 0 <= i && i < len($seq) ==> old(fcontent(fx.files))[box($seq[i])] != absent
    invariant [each once] forall i int, j int {$seq[i], $seq[j]} :: 0 <= i && i < j && j < len($seq) ==> $seq[i] != $seq[j]
    invariant [in ascending order of the full path] forall i int, j int {$seq[i], $seq[j]} :: 0 <= i && i < j && j < len($seq) ==> pathStr($seq[i]) <= pathStr($seq[j])
    invariant [not beyond the entries] 0 <= $n && $n <= len($seq)
    invariant [the children so far] 0 <= len(infos) && len(infos) <= nChildren(c, f.path) && forall i int {child(c, f.path, i)} :: 0 <= i && i < len(infos) ==> isChildInfo(infos[i], stored(fx, child(c, f.path, i)))
    invariant [exactly the children among the entries before] forall i int {$seq[i]} :: 0 <= i && i < len($seq) && childOf(f.path, $seq[i]) ==> (i < $n <==> childIndex(c, f.path, $seq[i]) < len(infos))
    invariant [the next child is still to come] len(infos) < nChildren(c, f.path) ==> exists i int :: $n <= i && i < len($seq) && $seq[i] == child(c, f.path, len(infos))
    invariant [only children are skipped] forall j int {skip[j]} :: 0 <= j && j < len(skip) ==> childOf(f.path, skip[j]) && childIndex(c, f.path, skip[j]) < len(infos)  && c[box(skip[j])] != absent
    invariant [own storage] (ref(infos) == 0 || fresh(infos)) && (ref(skip) == 0 || fresh(skip))
    invariant [the filesystem stays] memOk(fx) && keptTable(fx) && fcontent(fx.files) == old(fcontent(fx.files))

// What a handle shows of itself
func (mem.File).Stat(f) (r, err)
  tags C05, C06
  ensures [its metadata, or an error without] (f.info == nil ==> r == nil && err == os.ErrNotExist) && (f.info != nil ==> err == nil && r == box(f.info))
func (mem.File).Path(f) (r)
  tags C05, C21
  ensures [the path it was opened as] r == f.path
func (mem.File).Info(f) (r)
  tags C05
  ensures [the package it belongs to] r == f.Here
func (mem.File).Name(f) (r)
  tags C05
  ensures [its path as text] r == pathStr(f.path)
func (*mem.File).isDir(f) (r)
  tags C05
  requires f != nil
  ensures [a directory] r == (f.info != nil && f.info.Details.IsDir)
