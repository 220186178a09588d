// Packaging (pkging/pkgutil/stuff.go).
// the last write to somebody's writer
fun Written(World) string
fun Written_to(World) any
fun Written_before(World) World
fun Written_err(World) any
extern (io.Writer).Write(w, b) (n, err)
  trust implementations of the interface: a short write is an error
  modifies world(out)
  modifies *(w as *bytes.Buffer) when w is *bytes.Buffer
  ensures [into a buffer] w is *bytes.Buffer ==> err == nil && *(w as *bytes.Buffer) == old(*(w as *bytes.Buffer)) + old(bytes(b))
  ensures Written(world(out)) == old(bytes(b)) && Written_to(world(out)) == w && Written_before(world(out)) == old(world(out)) && Written_err(world(out)) == err

define sent(W World) string = gunzip(unhex(Written(W)))

// what the disk holds at a place
fun DiskData(string) string
fun DiskInfo(string) pkging.Details
define opened(a string, W World) ref = OsOpen(a, os.O_RDONLY, 0, W)
define openedW(a string, W World) World = OsOpen_w(a, os.O_RDONLY, 0, W)
define wanted(f *parser.File) bool = !suffix(".tmp", f.Abs)
define declaredAs(f *parser.File) gh.Path = mk gh.Path{Pkg: f.Path.Pkg, Name: Clean("/" + f.Path.Name)}
// the entry e holds what is on disk where the file f is
define heldCopy(e *mem.File, f *parser.File) bool = e.Here == f.Here && e.info.Details == DiskInfo(f.Abs) && (DiskInfo(f.Abs).IsDir || bytes(e.data) == DiskData(f.Abs))
define textOf(s string, f *parser.File) bool = jFHere(s, keyOf(declaredAs(f))) == infoVal(f.Here) && jInfoSet(s, keyOf(declaredAs(f))) && (DiskInfo(f.Abs).IsDir || jData(s, keyOf(declaredAs(f))) == DiskData(f.Abs)) && jName(s, keyOf(declaredAs(f))) == DiskInfo(f.Abs).Name && jSize(s, keyOf(declaredAs(f))) == DiskInfo(f.Abs).Size && jMode(s, keyOf(declaredAs(f))) == DiskInfo(f.Abs).Mode && jIsDir(s, keyOf(declaredAs(f))) == DiskInfo(f.Abs).IsDir && (regular(typed(time.Time, DiskInfo(f.Abs).ModTime)) ==> jInstant(s, keyOf(declaredAs(f))) == instant(typed(time.Time, DiskInfo(f.Abs).ModTime)))

define diskStays() bool = forall a string, V World {OsOpen(a, os.O_RDONLY, 0, V)} :: OsOpen_err(a, os.O_RDONLY, 0, V) == nil ==> (OsFStat_err(opened(a, V), openedW(a, V)) == nil ==> details(OsFStat(opened(a, V), openedW(a, V))) == DiskInfo(a) && FI_IsDir(OsFStat(opened(a, V), openedW(a, V))) == DiskInfo(a).IsDir) && (OsRead_err(opened(a, V), openedW(a, V)) == nil ==> OsRead(opened(a, V), openedW(a, V)) == DiskData(a))
define pathsDiffer() bool = forall k gh.Path, l gh.Path {keyOf(k), keyOf(l)} :: canonical(k.Name) && canonical(l.Name) && keyOf(k) == keyOf(l) ==> k == l

// the payload consists of the wanted ones of the files
define allOf(s string, fl []*parser.File) bool = forall i int {fl[i]} :: 0 <= i && i < len(fl) && wanted(fl[i]) ==> inText(s, declaredAs(fl[i]))
define onlyOf(s string, fl []*parser.File) bool = forall k string {jHas(s, k)} :: jHas(s, k) ==> exists i int {fl[i]} :: 0 <= i && i < len(fl) && wanted(fl[i]) && jPath(s, k) == declaredAs(fl[i]) && textOf(s, fl[i])
define holds(s string, fl []*parser.File) bool = namedByPaths(s) && allOf(s, fl) && onlyOf(s, fl)

func pkgutil.Stuff(w, c, decls) (err)
  tags C03
  let fl = DeclFiles(decls, old(world(disk)))
  requires w != nil
  requires [the disk stays as it is while packaging] diskStays()
  requires [different paths are written differently] pathsDiffer()
  maypanic
  modifies world(disk), world(walk), world(out), world(cb)
  modifies *(w as *bytes.Buffer) when w is *bytes.Buffer
  ensures [a failure to resolve is reported] DeclErr(decls, old(world(disk))) != nil ==> err != nil
  ensures [written once, completely] err == nil ==> Written_to(world(out)) == w && Written_err(world(out)) == nil && Written_before(world(out)) == old(world(out)) && wholePayload(Written(world(out)))
  ensures [into a buffer] err == nil && w is *bytes.Buffer ==> *(w as *bytes.Buffer) == old(*(w as *bytes.Buffer)) + Written(world(out))
  ensures [for the module] err == nil ==> jHere(sent(world(out))) == infoVal(c)
  ensures [every entry is a declared file] err == nil ==> namedByPaths(sent(world(out))) && onlyOf(sent(world(out)), fl)
  ensures [every declared file has its entry] err == nil ==> allOf(sent(world(out)), fl)
  loop
    bind files []*parser.File
    bind pkg *mem.Pkger
    invariant [a well-formed filesystem] memOk(pkg) && pkg.Here == c && fresh(pkg) && fresh(pkg.files) && fresh(pkg.infos) && (pkg.files.data == nil || fresh(pkg.files.data)) && (pkg.infos.data == nil || fresh(pkg.infos.data))
    invariant [no further] $n <= len(files)
    invariant [every declared file so far] forall i int {files[i]} :: 0 <= i && i < $n && wanted(files[i]) ==> has_(pkg, declaredAs(files[i]))
    invariant [nothing else] forall pt gh.Path {fcontent(pkg.files)[box(pt)]} :: has_(pkg, pt) ==> exists i int {files[i]} :: 0 <= i && i < $n && wanted(files[i]) && pt == declaredAs(files[i]) && heldCopy(stored(pkg, pt), files[i])
    step [going on means that nothing has failed] wanted(files[$n - 1]) ==> OsOpen_err(files[$n - 1].Abs, os.O_RDONLY, 0, old(world(disk))) == nil
    leave [stopping early is an error] $ret0 != nil
