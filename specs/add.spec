// Copying files of the disk into memory (pkging/mem/add.go).
fun OsName(ref) string
extern (*os.File).Name(f) (r)
  trust os: the name the file was opened with
  ensures r == OsName(f)
fun OsRead(ref, World) string
fun OsRead_err(ref, World) any
fun OsRead_w(ref, World) World
extern io.Copy[*bytes.Buffer,*os.File](dst, src) (n, err)
  trust io, os: everything from the offset to the end of the file, or an error
  modifies *dst, world(disk)
  ensures err == OsRead_err(src, old(world(disk))) && world(disk) == OsRead_w(src, old(world(disk)))
  ensures err == nil ==> *dst == old(*dst) + OsRead(src, old(world(disk)))
extern (*bytes.Buffer).ReadFrom[*os.File](dst, src) (n, err)
  trust io, os: everything from the offset to the end of the file, or an error
  modifies *dst, world(disk)
  ensures err == OsRead_err(src, old(world(disk))) && world(disk) == OsRead_w(src, old(world(disk)))
  ensures err == nil ==> *dst == old(*dst) + OsRead(src, old(world(disk)))
extern io.ReadAll[*os.File](src) (b, err)
  trust io, os: everything from the offset to the end of the file, or an error
  modifies world(disk)
  ensures err == OsRead_err(src, old(world(disk))) && world(disk) == OsRead_w(src, old(world(disk))) && fresh(b)
  ensures err == nil ==> bytes(b) == OsRead(src, old(world(disk)))
extern ioutil.ReadAll[*os.File](src) (b, err)
  trust io, os: everything from the offset to the end of the file, or an error
  modifies world(disk)
  ensures err == OsRead_err(src, old(world(disk))) && world(disk) == OsRead_w(src, old(world(disk))) && fresh(b)
  ensures err == nil ==> bytes(b) == OsRead(src, old(world(disk)))
fun hereDir(string) gh.Info
fun hereDirErr(string) any
extern here.Dir(p) (info, err)
  trust gobuffalo/here: the information of a directory is a function of its name (computed once and cached)
  ensures info == hereDir(p) && err == hereDirErr(p)
fun FDir(string) string
extern filepath.Dir(p) (r)
  trust path/filepath
  ensures r == FDir(p)

// what is stored under the path is a copy of the file with the metadata fi
define copyStored(fx *mem.Pkger, pt gh.Path, fi any) bool = fcontent(fx.files)[box(pt)] is *mem.File && fresh(stored(fx, pt)) && stored(fx, pt).path == pt && stored(fx, pt).pkging == box(fx) && stored(fx, pt).info != nil && fresh(stored(fx, pt).info) && stored(fx, pt).info.Details == details(fi) && stored(fx, pt).reader == nil && stored(fx, pt).writer == nil

func (*mem.Pkger).AddAs(fx, pt, her, f) (err)
  tags C03, C04
  requires memOk(fx) && f != nil
  let W = old(world(disk))
  let fi = OsFStat(f, W)
  let at = mk gh.Path{Pkg: pt.Pkg, Name: Clean("/" + pt.Name)}
  modifies world(disk)
  modifies fx.files.data, fx.files.once when !fx.files.once
  modifies *fx.files.data
  ensures [any failure is reported] err == nil <==> OsFStat_err(f, W) == nil && (FI_IsDir(fi) || OsRead_err(f, W) == nil)
  ensures [a copy of the metadata under the path] err == nil ==> copyStored(fx, at, fi)
  ensures [all bytes read from the file] err == nil && !FI_IsDir(fi) ==> bytes(stored(fx, at).data) == OsRead(f, W)
  ensures [with the given package] err == nil ==> stored(fx, at).Here == her
  ensures [nothing else changes] forall k any {fcontent(fx.files)[k]} :: k != box(at) || err != nil ==> fcontent(fx.files)[k] == old(fcontent(fx.files))[k]
  ensures [a well-formed filesystem] memOk(fx) && keptTable(fx) && (old(infosApart(fx)) ==> infosApart(fx))

func (*mem.Pkger).Add(fx, files) (err)
  tags C04
  requires memOk(fx) && forall i int {files[i]} :: 0 <= i && i < len(files) ==> files[i] != nil
  modifies world(disk), world(walk)
  modifies fx.files.data, fx.files.once when !fx.files.once
  modifies *fx.files.data
  ensures [a well-formed filesystem] memOk(fx) && keptTable(fx)
  loop
    bind files []*os.File
    invariant [a well-formed filesystem] memOk(fx) && keptTable(fx)
    invariant [no further] $n <= len(files)
    step [going on means that nothing has failed] OsFStat_err(files[$n - 1], old(world(disk))) == nil && hereParseErr(fx.Here, OsName(files[$n - 1])) == nil && hereDirErr(if FI_IsDir(OsFStat(files[$n - 1], old(world(disk)))) then OsName(files[$n - 1]) else FDir(OsName(files[$n - 1]))) == nil
    step [a copy of the metadata of a regular file under its path] !FI_IsDir(OsFStat(files[$n - 1], old(world(disk)))) ==> copyStored(fx, resolve(fx.Here, OsName(files[$n - 1])), OsFStat(files[$n - 1], old(world(disk))))
    step [all bytes read from a regular file] !FI_IsDir(OsFStat(files[$n - 1], old(world(disk)))) ==> OsRead_err(files[$n - 1], old(world(disk))) == nil && bytes(stored(fx, resolve(fx.Here, OsName(files[$n - 1]))).data) == OsRead(files[$n - 1], old(world(disk)))
    step [nothing else for a regular file] !FI_IsDir(OsFStat(files[$n - 1], old(world(disk)))) ==> world(walk) == old(world(walk)) && forall k any {fcontent(fx.files)[k]} :: k != box(resolve(fx.Here, OsName(files[$n - 1]))) ==> fcontent(fx.files)[k] == old(fcontent(fx.files))[k]
    step [a directory is walked once, from its name, without an error] FI_IsDir(OsFStat(files[$n - 1], old(world(disk)))) ==> Walked_root(world(walk)) == OsName(files[$n - 1]) && Walked_before(world(walk)) == old(world(walk)) && Walked_err(world(walk)) == nil
    leave [stopping early is an error] $ret0 != nil
    done [after the last file there is none] $n == len(files) && $ret0 == nil
  iter Walk
    invariant [a well-formed filesystem] memOk(fx) && keptTable(fx)
    step [an error of the traversal is passed on] $err != nil ==> $ret == $err
    step [a copy of the metadata under the path] $ret == nil ==> $err == nil && hereParseErr(fx.Here, $path) == nil && copyStored(fx, resolve(fx.Here, $path), $info)
    step [all bytes of a file, read from its start] $ret == nil && !FI_IsDir($info) ==> OsOpen_err($path, os.O_RDONLY, 0, old(world(disk))) == nil && OsRead_err(OsOpen($path, os.O_RDONLY, 0, old(world(disk))), OsOpen_w($path, os.O_RDONLY, 0, old(world(disk)))) == nil && bytes(stored(fx, resolve(fx.Here, $path)).data) == OsRead(OsOpen($path, os.O_RDONLY, 0, old(world(disk))), OsOpen_w($path, os.O_RDONLY, 0, old(world(disk))))
    step [nothing else changes] forall k any {fcontent(fx.files)[k]} :: k != box(resolve(fx.Here, $path)) || $ret != nil ==> fcontent(fx.files)[k] == old(fcontent(fx.files))[k]
