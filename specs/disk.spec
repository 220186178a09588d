// The disk (pkging/stdos).
fun herePackage(string) gh.Info
fun herePackageErr(string) any
extern here.Package(p) (info, err)
  trust gobuffalo/here: the information of a package is a function of its import path (computed once and cached)
  ensures info == herePackage(p) && err == herePackageErr(p)

// changes of the disk, apart from what reading leaves behind: the last one
fun Ch_op(World) string
fun Ch_name(World) string
fun Ch_data(World) string
fun Ch_err(World) any
fun Ch_before(World) World
define change(op string, name string, err any, A World, B World) bool = Ch_op(B) == op && Ch_name(B) == name && Ch_err(B) == err && Ch_before(B) == A
// between the two nothing but the named place has been changed
fun onlyAt(string, World, World) bool
axiom [nothing in between] forall n string, W World {onlyAt(n, W, W)} :: onlyAt(n, W, W)
axiom [one change more] forall n string, A World, B World {onlyAt(n, A, B)} :: onlyAt(n, A, Ch_before(B)) && Ch_name(B) == n ==> onlyAt(n, A, B)
axiom [one after the other] forall n string, A World, B World, C World {onlyAt(n, A, B), onlyAt(n, B, C)} :: onlyAt(n, A, B) && onlyAt(n, B, C) ==> onlyAt(n, A, C)

// operations of the operating system: results and effects are functions of the
// arguments and of all that happened on the disk before
fun OsOpen(string, int, int, World) ref
fun OsOpen_err(string, int, int, World) any
fun OsOpen_w(string, int, int, World) World
extern os.OpenFile(name, flag, perm) (f, err)
  trust os: opening acts on the named file only
  modifies world(disk)
  modifies world(changes) when flag != os.O_RDONLY
  ensures f == OsOpen(name, flag, perm, old(world(disk))) && err == OsOpen_err(name, flag, perm, old(world(disk))) && world(disk) == OsOpen_w(name, flag, perm, old(world(disk))) && (err == nil ==> f != nil && fresh(f))
  ensures flag != os.O_RDONLY ==> change("OpenFile", name, err, old(world(changes)), world(changes))
extern os.Open(name) (f, err)
  trust os: Open is OpenFile for reading
  modifies world(disk)
  ensures f == OsOpen(name, os.O_RDONLY, 0, old(world(disk))) && err == OsOpen_err(name, os.O_RDONLY, 0, old(world(disk))) && world(disk) == OsOpen_w(name, os.O_RDONLY, 0, old(world(disk))) && (err == nil ==> f != nil && fresh(f))
extern os.Create(name) (f, err)
  trust os: Create is OpenFile for reading and writing that creates or truncates the file, with mode 0666 before umask
  modifies world(disk)
  modifies world(changes)
  ensures f == OsOpen(name, os.O_RDWR | os.O_CREATE | os.O_TRUNC, 438, old(world(disk))) && err == OsOpen_err(name, os.O_RDWR | os.O_CREATE | os.O_TRUNC, 438, old(world(disk))) && world(disk) == OsOpen_w(name, os.O_RDWR | os.O_CREATE | os.O_TRUNC, 438, old(world(disk))) && (err == nil ==> f != nil && fresh(f))
  ensures change("OpenFile", name, err, old(world(changes)), world(changes))
fun OsFStat(ref, World) any
fun OsFStat_err(ref, World) any
extern (*os.File).Stat(f) (fi, err)
  trust os: metadata is a function of the open file and what happened on the disk
  ensures fi == OsFStat(f, world(disk)) && err == OsFStat_err(f, world(disk)) && (err == nil ==> fi != nil && !(fi is *pkging.FileInfo))
fun OsClose_err(ref, World) any
fun OsClose_w(ref, World) World
extern (*os.File).Close(f) (err)
  trust os: closing acts on the open file only
  modifies world(disk)
  ensures err == OsClose_err(f, old(world(disk))) && world(disk) == OsClose_w(f, old(world(disk)))
fun OsStat(string, World) any
fun OsStat_err(string, World) any
extern os.Stat(name) (fi, err)
  trust os: metadata is a function of the name and what happened on the disk
  ensures fi == OsStat(name, world(disk)) && err == OsStat_err(name, world(disk)) && (err == nil ==> fi != nil && !(fi is *pkging.FileInfo))
fun OsMkdirAll_err(string, int, World) any
fun OsMkdirAll_w(string, int, World) World
extern os.MkdirAll(name, perm) (err)
  trust os: acts on the named directory and its parents only
  modifies world(disk)
  modifies world(changes)
  ensures err == OsMkdirAll_err(name, perm, old(world(disk))) && world(disk) == OsMkdirAll_w(name, perm, old(world(disk)))
  ensures change("MkdirAll", name, err, old(world(changes)), world(changes))
fun OsRemove_err(string, World) any
fun OsRemove_w(string, World) World
extern os.Remove(name) (err)
  trust os: acts on the named file only
  modifies world(disk)
  modifies world(changes)
  ensures err == OsRemove_err(name, old(world(disk))) && world(disk) == OsRemove_w(name, old(world(disk)))
  ensures change("Remove", name, err, old(world(changes)), world(changes))
fun OsRemoveAll_err(string, World) any
fun OsRemoveAll_w(string, World) World
extern os.RemoveAll(name) (err)
  trust os: acts on the named file and what lies below it only
  modifies world(disk)
  modifies world(changes)
  ensures err == OsRemoveAll_err(name, old(world(disk))) && world(disk) == OsRemoveAll_w(name, old(world(disk)))
  ensures change("RemoveAll", name, err, old(world(changes)), world(changes))

fun OsWriteFile_err(string, string, int, World) any
fun OsWriteFile_w(string, string, int, World) World
extern ioutil.WriteFile(name, data, perm) (err)
  trust os: acts on the named file only; without an error it holds exactly the data
  modifies world(disk), world(changes)
  ensures err == OsWriteFile_err(name, bytes(data), perm, old(world(disk))) && world(disk) == OsWriteFile_w(name, bytes(data), perm, old(world(disk)))
  ensures change("WriteFile", name, err, old(world(changes)), world(changes)) && Ch_data(world(changes)) == bytes(data)
extern os.WriteFile(name, data, perm) (err)
  trust os: acts on the named file only; without an error it holds exactly the data
  modifies world(disk), world(changes)
  ensures err == OsWriteFile_err(name, bytes(data), perm, old(world(disk))) && world(disk) == OsWriteFile_w(name, bytes(data), perm, old(world(disk)))
  ensures change("WriteFile", name, err, old(world(changes)), world(changes)) && Ch_data(world(changes)) == bytes(data)

axiom [joining canonical names] forall a string, b string {Join2(a, b)} :: canonical(a) && canonical(b) ==> canonical(Join2(a, b)) && (Join2(a, b) == a || prefix((if a == "/" then "/" else a + "/"), Join2(a, b)))

define diskOk(fx *stdos.Pkger) bool = fx != nil && fx.infos != nil && infosOk(fx.infos)
// the information of a package: what is known, otherwise what is found
define infoAny(fx *stdos.Pkger, p string) any = if icontent(fx.infos)[p] != absent then icontent(fx.infos)[p] else box(herePackage(p))
define infoErr(fx *stdos.Pkger, p string) any = if icontent(fx.infos)[p] != absent then nil else herePackageErr(p)
define dirOfPkg(fx *stdos.Pkger, p string) string = (infoAny(fx, p) as gh.Info).Dir
// the one location a path stands for
define location(fx *stdos.Pkger, pt gh.Path) string = join(dirOfPkg(fx, pt.Pkg), pt.Name)
define inside(dir string, loc string) bool = canonical(dir) ==> loc == dir || prefix((if dir == "/" then "/" else dir + "/"), loc)
// does the name lead anywhere
define leads(fx *stdos.Pkger, name string) bool = hereParseErr(fx.Here, name) == nil && infoErr(fx, resolve(fx.Here, name).Pkg) == nil

func (*stdos.Pkger).Info(f, p) (info, err)
  tags C10
  requires diskOk(f)
  modifies f.infos.data, f.infos.once when !f.infos.once
  modifies *f.infos.data
  ensures [known or found] err == old(infoErr(f, p)) && (err == nil ==> box(info) == old(infoAny(f, p)))
  ensures [the table stays] f.infos.once && f.infos.data != nil && (f.infos.data == old(f.infos.data) || old(f.infos.data) == nil && fresh(f.infos.data))
  ensures [nothing known is lost or changed] diskOk(f) && forall q any {icontent(f.infos)[q]} :: icontent(f.infos)[q] == (if q == box(p) && err == nil then old(infoAny(f, p)) else old(icontent(f.infos))[q])

func (*stdos.Pkger).Remove(fx, name) (err)
  tags C10
  requires diskOk(fx)
  let pt = resolve(fx.Here, name)
  let loc = old(location(fx, pt))
  modifies world(disk), world(changes)
  modifies fx.infos.data, fx.infos.once when !fx.infos.once
  modifies *fx.infos.data
  ensures [a name that leads nowhere is an error, without any effect] old(!leads(fx, name)) ==> err != nil && world(disk) == old(world(disk))
  ensures [acts once, on exactly the location of the path; failures are reported] old(leads(fx, name)) ==> world(disk) == OsRemove_w(loc, old(world(disk))) && err == OsRemove_err(loc, old(world(disk)))
  ensures [never outside the directory of the package] inside(old(dirOfPkg(fx, pt.Pkg)), loc)

func (*stdos.Pkger).RemoveAll(fx, name) (err)
  tags C10
  requires diskOk(fx)
  let pt = resolve(fx.Here, name)
  let loc = old(location(fx, pt))
  modifies world(disk), world(changes)
  modifies fx.infos.data, fx.infos.once when !fx.infos.once
  modifies *fx.infos.data
  ensures [a name that leads nowhere is an error, without any effect] old(!leads(fx, name)) ==> err != nil && world(disk) == old(world(disk))
  ensures [acts once, on exactly the location of the path; failures are reported] old(leads(fx, name)) ==> world(disk) == OsRemoveAll_w(loc, old(world(disk))) && err == OsRemoveAll_err(loc, old(world(disk)))
  ensures [never outside the directory of the package] inside(old(dirOfPkg(fx, pt.Pkg)), loc)

func (*stdos.Pkger).MkdirAll(fx, name, perm) (err)
  tags C10
  requires diskOk(fx)
  let pt = resolve(fx.Here, name)
  let loc = old(location(fx, pt))
  modifies world(disk), world(changes)
  modifies fx.infos.data, fx.infos.once when !fx.infos.once
  modifies *fx.infos.data
  ensures [a name that leads nowhere is an error, without any effect] old(!leads(fx, name)) ==> err != nil && world(disk) == old(world(disk))
  ensures [acts once, on exactly the location of the path; failures are reported] old(leads(fx, name)) ==> world(disk) == OsMkdirAll_w(loc, perm, old(world(disk))) && err == OsMkdirAll_err(loc, perm, old(world(disk)))
  ensures [never outside the directory of the package] inside(old(dirOfPkg(fx, pt.Pkg)), loc)

func (*stdos.Pkger).Stat(fx, name) (r, err)
  tags C10
  requires diskOk(fx)
  let pt = resolve(fx.Here, name)
  let loc = old(location(fx, pt))
  modifies fx.infos.data, fx.infos.once when !fx.infos.once
  modifies *fx.infos.data
  ensures [a name that leads nowhere is an error] old(!leads(fx, name)) ==> err != nil
  ensures [the metadata of exactly the location of the path; failures are reported] old(leads(fx, name)) ==> err == OsStat_err(loc, world(disk)) && (err == nil ==> r is *pkging.FileInfo && fresh(r as *pkging.FileInfo) && (r as *pkging.FileInfo).Details == details(OsStat(loc, world(disk))))
  ensures [never outside the directory of the package] inside(old(dirOfPkg(fx, pt.Pkg)), loc)

define diskHandle(r any, fx *stdos.Pkger, pt gh.Path, her any, of ref, w World) bool = r is *stdos.File && fresh(r as *stdos.File) && (r as *stdos.File).File == of && (r as *stdos.File).path == pt && box((r as *stdos.File).her) == her && (r as *stdos.File).pkging == box(fx) && fresh((r as *stdos.File).info) && (r as *stdos.File).info.Details == details(OsFStat(of, w))

func (*stdos.Pkger).Open(fx, name) (r, err)
  tags C10, C11
  requires diskOk(fx)
  let pt = resolve(fx.Here, name)
  let loc = old(location(fx, pt))
  let W0 = old(world(disk))
  let W1 = OsOpen_w(loc, os.O_RDONLY, 0, W0)
  let of = OsOpen(loc, os.O_RDONLY, 0, W0)
  modifies world(disk)
  modifies fx.infos.data, fx.infos.once when !fx.infos.once
  modifies *fx.infos.data
  ensures [a name that leads nowhere is an error, without any effect] old(!leads(fx, name)) ==> err != nil && world(disk) == W0
  ensures [opens exactly the location of the path for reading] old(leads(fx, name)) && OsOpen_err(loc, os.O_RDONLY, 0, W0) != nil ==> err == OsOpen_err(loc, os.O_RDONLY, 0, W0) && world(disk) == W1
  ensures [a failure to get the metadata is reported] old(leads(fx, name)) && OsOpen_err(loc, os.O_RDONLY, 0, W0) == nil && OsFStat_err(of, W1) != nil ==> err == OsFStat_err(of, W1)
  ensures [otherwise it succeeds with a handle of that file] old(leads(fx, name)) && OsOpen_err(loc, os.O_RDONLY, 0, W0) == nil && OsFStat_err(of, W1) == nil ==> err == nil && world(disk) == W1 && diskHandle(r, fx, pt, old(infoAny(fx, pt.Pkg)), of, W1)
  ensures [never outside the directory of the package] inside(old(dirOfPkg(fx, pt.Pkg)), loc)
  ensures [what is known stays] diskOk(fx)

func (*stdos.Pkger).Create(fx, name) (r, err)
  tags C10
  requires diskOk(fx)
  let pt = resolve(fx.Here, name)
  let loc = old(location(fx, pt))
  let W0 = old(world(disk))
  let W1 = OsOpen_w(loc, os.O_RDWR | os.O_CREATE | os.O_TRUNC, 438, W0)
  let of = OsOpen(loc, os.O_RDWR | os.O_CREATE | os.O_TRUNC, 438, W0)
  let e1 = OsOpen_err(loc, os.O_RDWR | os.O_CREATE | os.O_TRUNC, 438, W0)
  modifies world(disk), world(changes)
  modifies fx.infos.data, fx.infos.once when !fx.infos.once
  modifies *fx.infos.data
  ensures [a name that leads nowhere is an error, without any effect] old(!leads(fx, name)) ==> err != nil && world(disk) == W0
  ensures [creates exactly the location of the path] old(leads(fx, name)) && e1 != nil ==> err == e1 && world(disk) == W1
  ensures [a failure to get the metadata is reported] old(leads(fx, name)) && e1 == nil && OsFStat_err(of, W1) != nil ==> err == OsFStat_err(of, W1)
  ensures [otherwise it succeeds with a handle of that file] old(leads(fx, name)) && e1 == nil && OsFStat_err(of, W1) == nil ==> err == nil && world(disk) == W1 && diskHandle(r, fx, pt, old(infoAny(fx, pt.Pkg)), of, W1)
  ensures [never outside the directory of the package] inside(old(dirOfPkg(fx, pt.Pkg)), loc)

// Handles: the metadata of the file when it was opened, its path and its package
fun OsReaddir(ref, int, World) []os.FileInfo
fun OsReaddir_err(ref, int, World) any
fun OsReaddir_w(ref, int, World) World
extern (*os.File).Readdir(f, n) (r, err)
  trust os: listing acts on the open directory only
  modifies world(disk)
  ensures r == OsReaddir(f, n, old(world(disk))) && err == OsReaddir_err(f, n, old(world(disk))) && world(disk) == OsReaddir_w(f, n, old(world(disk)))

func (*stdos.File).Stat(f) (r, err)
  tags C10, C15
  requires f != nil && f.File != nil
  modifies f.info
  ensures [what was found when it was opened, or what is found now] err == nil ==> old(f.info) != nil && r == box(old(f.info)) || r is *pkging.FileInfo && fresh(r as *pkging.FileInfo) && (r as *pkging.FileInfo).Details == details(OsFStat(f.File, world(disk)))
  ensures [a failure is one of the disk] err != nil ==> err == OsFStat_err(f.File, world(disk))
  ensures [no success without metadata] err == nil ==> r is *pkging.FileInfo && (r as *pkging.FileInfo) != nil

func (*stdos.File).Close(f) (err)
  tags C10
  requires f != nil && f.File != nil
  modifies world(disk)
  ensures [closes the open file; a failure is reported] err == OsClose_err(f.File, old(world(disk))) && world(disk) == OsClose_w(f.File, old(world(disk)))

func (*stdos.File).Readdir(f, count) (r, err)
  tags C10
  requires f != nil && f.File != nil
  modifies world(disk)
  ensures [lists the open directory; a failure is reported] r == OsReaddir(f.File, count, old(world(disk))) && err == OsReaddir_err(f.File, count, old(world(disk))) && world(disk) == OsReaddir_w(f.File, count, old(world(disk)))

func (*stdos.File).Path(f) (r)
  tags C10, C21
  requires f != nil
  ensures [the path it was opened as] r == f.path

func (*stdos.File).Info(f) (r)
  tags C10
  requires f != nil
  ensures [the package it was opened in] r == f.her

func (stdos.File).Name(f) (r)
  tags C10
  ensures [its path as text] r == pathStr(f.path)

func stdos.New(her) (r, err)
  tags C10, C21
  ensures [a new filesystem of the module] err == nil && r != nil && fresh(r) && r.Here == her && fresh(r.infos)
  ensures [which knows its own package, and no other] icontent(r.infos) == upd(emptymap(any), her.ImportPath, her)

func (*stdos.Pkger).Current(f) (r, err)
  tags C10, C21
  requires f != nil
  ensures [its module] err == nil && r == f.Here

func (*stdos.File).Open(f, name) (r, err)
  tags C11
  requires f != nil && f.pkging is *stdos.Pkger
  let fx = f.pkging as *stdos.Pkger
  requires diskOk(fx) && canonical(f.path.Name)
  let target = mk gh.Path{Pkg: f.path.Pkg, Name: join(f.path.Name, Clean("/" + replaceall(name, "\\", "/")))}
  requires [a plain name] plain(fx.Here, target)
  let leadsOn = old(infoErr(fx, target.Pkg)) == nil
  let loc = old(location(fx, target))
  let W0 = old(world(disk))
  let W1 = OsOpen_w(loc, os.O_RDONLY, 0, W0)
  let of = OsOpen(loc, os.O_RDONLY, 0, W0)
  modifies world(disk)
  modifies fx.infos.data, fx.infos.once when !fx.infos.once
  modifies *fx.infos.data
  ensures [never leaves the directory or the package] within(f.path, target) && canonical(target.Name)
  ensures [a name that leads nowhere is an error] !leadsOn ==> err != nil && world(disk) == W0
  ensures [opens exactly the location of the name below the directory, for reading] leadsOn && OsOpen_err(loc, os.O_RDONLY, 0, W0) != nil ==> err == OsOpen_err(loc, os.O_RDONLY, 0, W0) && world(disk) == W1
  ensures [a failure to get the metadata is reported] leadsOn && OsOpen_err(loc, os.O_RDONLY, 0, W0) == nil && OsFStat_err(of, W1) != nil ==> err == OsFStat_err(of, W1)
  ensures [otherwise it succeeds with a handle of that entry] leadsOn && OsOpen_err(loc, os.O_RDONLY, 0, W0) == nil && OsFStat_err(of, W1) == nil ==> err == nil && world(disk) == W1 && diskHandle(r, fx, target, old(infoAny(fx, target.Pkg)), of, W1)

func (*mem.File).Open(f, name) (r, err)
  tags C11
  requires f != nil && f.pkging is *mem.Pkger
  let fx = f.pkging as *mem.Pkger
  requires memOk(fx) && canonical(f.path.Name)
  let target = mk gh.Path{Pkg: f.path.Pkg, Name: join(f.path.Name, Clean("/" + replaceall(name, "\\", "/")))}
  requires [a plain name] plain(fx.Here, target)
  modifies fx.files.data, fx.files.once when !fx.files.once
  ensures [never leaves the directory or the package] within(f.path, target) && canonical(target.Name)
  ensures [opens exactly the entry of the name below the directory] err == nil <==> old(has_(fx, target))
  ensures [a new handle of that entry] err == nil ==> r is *mem.File && fresh(r as *mem.File) && (r as *mem.File).path == target && (r as *mem.File).pkging == box(fx) && (r as *mem.File).Here == old(stored(fx, target).Here)
  ensures [at the start, nothing written] err == nil ==> (r as *mem.File).reader == nil && (r as *mem.File).writer == nil && (r as *mem.File).listed == 0
  ensures [with a copy of its metadata] err == nil ==> fresh((r as *mem.File).info) && (r as *mem.File).info.Details == old(stored(fx, target).info.Details)
  ensures [with the content of the file] err == nil && !old(isDirAt(fx, target)) ==> bytes((r as *mem.File).data) == old(bytes(stored(fx, target).data)) && handleOk(r as *mem.File)
  ensures [the filesystem stays] memOk(fx) && keptTable(fx) && fcontent(fx.files) == old(fcontent(fx.files))

// Walking the disk
fun Walked_root(World) string
fun Walked_err(World) any
fun Walked_before(World) World
// an import path that the module reads as such in front of the absolute path of a file
fun importPath(string) bool
axiom [import paths are read as such] forall i gh.Info, p string, abs string {hereParse(i, p + ":" + abs)} :: importPath(p) && canonical(abs) ==> hereParse(i, p + ":" + abs).Pkg == p
axiom [import paths can be read] forall i gh.Info, p string, abs string {hereParseErr(i, p + ":" + abs)} :: importPath(p) && canonical(abs) ==> hereParseErr(i, p + ":" + abs) == nil
define reported(pkg string, dir string, file string) string = pathStr(mk gh.Path{Pkg: pkg, Name: replaceall(trimprefix(file, dir), "\\", "/")})
define copyOf(fi any) any = box(mk pkging.FileInfo{Details: details(fi)})

func (*stdos.Pkger).Walk(f, p, wf) (err)
  tags C12
  requires diskOk(f) && wf != nil
  let pt = resolve(f.Here, p)
  let loc = old(location(f, pt))
  let dir = old(dirOfPkg(f, pt.Pkg))
  requires [the directories of packages are absolute] canonical(dir)
  requires [packages have import paths] old(leads(f, p)) ==> importPath(pt.Pkg)
  modifies world(cb), world(walk)
  modifies f.infos.data, f.infos.once when !f.infos.once
  modifies *f.infos.data
  ensures [a name that leads nowhere is an error, without any callback] old(!leads(f, p)) ==> err != nil && world(cb) == old(world(cb)) && world(walk) == old(world(walk))
  ensures [walks once, exactly the location of the path] old(leads(f, p)) ==> Walked_root(world(walk)) == loc && Walked_before(world(walk)) == old(world(walk))
  ensures [how the walk ends is the result] old(leads(f, p)) ==> err == Walked_err(world(walk))
  ensures [what is known stays] diskOk(f)
  iter Walk
    ghost d = f.infos.data
    invariant [the table itself stays] f.infos.once && f.infos.data != nil && f.infos.data == d
    invariant [the package stays known] diskOk(f) && infoErr(f, pt.Pkg) == nil && infoAny(f, pt.Pkg) == old(infoAny(f, pt.Pkg))
    invariant [no callback before the first file] $n == 0 ==> world(cb) == old(world(cb))
    step [errors of the traversal are passed on] $err != nil ==> $ret == $err && world(cb) == old(world(cb))
    step [every file gets one callback, with its path in the package, a copy of its metadata and no error] $err == nil ==> world(cb) == WalkCb_w(wf, reported(pt.Pkg, dir, $path), copyOf($info), nil, old(world(cb)))
    step [what the callback returns is passed on] $err == nil ==> $ret == WalkCb(wf, reported(pt.Pkg, dir, $path), copyOf($info), nil, old(world(cb)))
