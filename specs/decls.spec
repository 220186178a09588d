// What declarations stand for (parser/decl.go, open.go, walk.go, ...).
// the last resolution of a declaration, as the history of the disk tells it
fun FiledBy(World) any
fun FiledWith(World) array(string, opt(string))
fun FiledBefore(World) World
fun FiledList(World) []*parser.File
fun FiledErr(World) any
extern (parser.Filer).Files(d, virtual) (files, err)
  trust implementations of the interface: every declaration of this module is verified against this contract, others are assumed to satisfy it
  maypanic
  modifies world(disk), world(walk)
  ensures FiledBy(world(disk)) == d && FiledWith(world(disk)) == mapof(virtual) && FiledBefore(world(disk)) == old(world(disk)) && FiledList(world(disk)) == files && FiledErr(world(disk)) == err
  ensures err == nil ==> forall i int {files[i]} :: 0 <= i && i < len(files) ==> files[i] != nil && allocated(files[i])
fun Virtuals(any) []string
extern (parser.Virtualer).VirtualPaths(d) (r)
  trust implementations of the interface: a function of the declaration
  ensures r == Virtuals(d)
define virtualOf(d any, k string) bool = implements(d, parser.Virtualer) && exists i int {Virtuals(d)[i]} :: 0 <= i && i < len(Virtuals(d)) && Virtuals(d)[i] == k

define isFiler(d any) bool = implements(d, parser.Filer)
define filed(W World, k string) bool = exists i int {FiledList(W)[i]} :: 0 <= i && i < len(FiledList(W)) && FiledList(W)[i].Abs == k
define filedAs(W World, f *parser.File) bool = exists i int {FiledList(W)[i]} :: 0 <= i && i < len(FiledList(W)) && FiledList(W)[i] == f

fun DeclFiles(parser.Decls, World) []*parser.File
fun DeclErr(parser.Decls, World) any
func (parser.Decls).Files(decls) (files, err)
  tags C03, C17
  maypanic
  modifies world(disk), world(walk)
  names files DeclFiles(decls, old(world(disk)))
  names err DeclErr(decls, old(world(disk)))
  ensures [one entry per file on disk] err == nil ==> forall i int, j int {files[i], files[j]} :: 0 <= i && i < j && j < len(files) ==> files[i].Abs != files[j].Abs
  ensures [sorted by path] err == nil ==> forall i int, j int {files[i], files[j]} :: 0 <= i && i < j && j < len(files) ==> pathStr(files[i].Path) <= pathStr(files[j].Path)
  ensures [no missing entries] err == nil ==> forall i int {files[i]} :: 0 <= i && i < len(files) ==> files[i] != nil
  loop
    bind decls parser.Decls
    bind m map[string]*parser.File
    bind v map[string]string
    invariant [entries by their place on disk] forall k string {has(m, k)} :: has(m, k) ==> m[k] != nil && allocated(m[k]) && m[k].Abs == k
    leave [stopping early is an error] $ret1 != nil
    step [a declaration without files changes nothing but what is virtual] !isFiler(decls[$n - 1]) ==> world(disk) == old(world(disk)) && mapof(m) == old(mapof(m))
    step [its files are resolved once, against what is virtual by then] isFiler(decls[$n - 1]) ==> FiledBy(world(disk)) == decls[$n - 1] && FiledBefore(world(disk)) == old(world(disk)) && FiledErr(world(disk)) == nil && forall k string {FiledWith(world(disk))[k]} {old(has(v, k))} :: issome(FiledWith(world(disk))[k]) == (old(has(v, k)) || virtualOf(decls[$n - 1], k))
    step [virtual from then on: what was, the virtual paths, the files] forall k string {has(v, k)} {old(has(v, k))} :: has(v, k) == (old(has(v, k)) || virtualOf(decls[$n - 1], k) || isFiler(decls[$n - 1]) && filed(world(disk), k))
    step [the union of the files] forall k string {has(m, k)} {old(has(m, k))} :: has(m, k) == (old(has(m, k)) || isFiler(decls[$n - 1]) && filed(world(disk), k))
    step [as they were resolved] forall k string {has(m, k)} {old(has(m, k))} :: has(m, k) ==> old(has(m, k)) && m[k] == old(m[k]) || isFiler(decls[$n - 1]) && filedAs(world(disk), m[k])
  loop
    bind $seq []string
    bind v map[string]string
    ghost before = mapof(v)
    invariant [no further] $n <= len($seq)
    invariant [the virtual paths so far] forall k string {has(v, k)} {before[k]} :: has(v, k) == (issome(before[k]) || exists i int {$seq[i]} :: 0 <= i && i < $n && $seq[i] == k)
  loop
    bind $seq []*parser.File
    bind m map[string]*parser.File
    bind v map[string]string
    ghost before = mapof(v)
    invariant [no further] $n <= len($seq)
    ghost had = mapof(m)
    invariant [entries by their place on disk] forall k string {has(m, k)} :: has(m, k) ==> m[k] != nil && allocated(m[k]) && m[k].Abs == k
    invariant [the virtual paths so far] forall k string {has(v, k)} {before[k]} :: has(v, k) == (issome(before[k]) || exists i int {$seq[i]} :: 0 <= i && i < $n && $seq[i].Abs == k)
    invariant [as they were resolved] forall k string {has(m, k)} {had[k]} :: has(m, k) ==> issome(had[k]) && m[k] == unopt(had[k]) || exists i int {$seq[i]} :: 0 <= i && i < $n && $seq[i] == m[k]
    invariant [the files so far] forall k string {has(m, k)} {had[k]} :: has(m, k) == (issome(had[k]) || exists i int {$seq[i]} :: 0 <= i && i < $n && $seq[i].Abs == k)
  loop
    bind $map map[string]*parser.File
    bind files []*parser.File
    invariant [those visited so far] forall i int {files[i]} :: 0 <= i && i < len(files) ==> files[i] != nil && allocated(files[i]) && $visited[files[i].Abs] && has($map, files[i].Abs) && $map[files[i].Abs] == files[i]
    invariant [storage of its own] files == nil || fresh(files)
    invariant [each of them] forall k string {$visited[k]} :: $visited[k] ==> exists i int {files[i]} :: 0 <= i && i < len(files) && files[i] == $map[k]
    invariant [one entry per file on disk] forall i int, j int {files[i], files[j]} :: 0 <= i && i < j && j < len(files) ==> files[i].Abs != files[j].Abs
    done [all of them] forall k string {has($map, k)} :: has($map, k) ==> exists i int {$ret0[i]} :: 0 <= i && i < len($ret0) && $ret0[i] == $map[k]
    invariant [entries by their place on disk] forall k string {has($map, k)} :: has($map, k) ==> $map[k] != nil && allocated($map[k]) && $map[k].Abs == k

sentinel filepath.SkipDir
fun WalkFiles(*parser.File, array(string, opt(string)), World) []*parser.File
// the files that lie below the virtual ones are left out with them
func (parser.WalkDecl).Files(d, virtual) (files, err)
  tags C03, C17
  requires d.file != nil
  let root = Join2(d.file.Here.Module.Dir, d.file.Path.Name)
  modifies world(walk)
  names files WalkFiles(d.file, mapof(virtual), old(world(walk)))
  ensures [walks once, exactly what the path names] Walked_root(world(walk)) == root && Walked_before(world(walk)) == old(world(walk))
  ensures [how the walk ends is the result] err == Walked_err(world(walk))
  ensures [no missing entries] err == nil ==> forall i int {files[i]} :: 0 <= i && i < len(files) ==> files[i] != nil && allocated(files[i])
  iter Walk
    bind files []*parser.File
    invariant [no missing entries] forall i int {files[i]} :: 0 <= i && i < len(files) ==> files[i] != nil && fresh(files[i])
    step [errors of the traversal are passed on] $err != nil ==> $ret == $err
    step [the files so far stay] len(files) >= old(len(files)) && forall i int {files[i]} {old(files[i])} :: 0 <= i && i < old(len(files)) ==> files[i] == old(files[i]) && files[i].Abs == old(files[i].Abs) && files[i].Path == old(files[i].Path) && files[i].Here == old(files[i].Here)
    step [virtual files and directories are left out] $err == nil && has(virtual, trimprefix($path, d.file.Here.Module.Dir)) ==> len(files) == old(len(files)) && $ret == (if FI_IsDir($info) then filepath.SkipDir else nil)
    step [everything else is in, under the package that is walked] $err == nil && !has(virtual, trimprefix($path, d.file.Here.Module.Dir)) ==> $ret == nil && len(files) == old(len(files)) + 1 && files[len(files) - 1].Abs == $path && files[len(files) - 1].Here == d.file.Here && files[len(files) - 1].Path == mk gh.Path{Pkg: d.file.Path.Pkg, Name: Clean("/" + trimprefix($path, d.file.Here.Module.Dir))}

func (parser.OpenDecl).Files(d, virtual) (files, err)
  tags C03, C17
  requires d.file != nil
  let fp = Join2(d.file.Here.Module.Dir, d.file.Path.Name)
  modifies world(walk)
  names files OpenFiles(d.file, d.value, mapof(virtual), old(world(walk)))
  names err OpenErr(d.file, d.value, mapof(virtual), old(world(walk)))
  ensures [virtual ones stand for nothing] old(has(virtual, d.value)) ==> err == nil && len(files) == 0 && world(walk) == old(world(walk))
  ensures [a missing file is an error] !old(has(virtual, d.value)) && OsStat_err(fp, old(world(disk))) != nil ==> err != nil
  ensures [a file stands for itself] !old(has(virtual, d.value)) && OsStat_err(fp, old(world(disk))) == nil && !FI_IsDir(OsStat(fp, old(world(disk)))) ==> err == nil && len(files) == 1 && files[0] == d.file && world(walk) == old(world(walk))
  ensures [a directory for what walking it gives] !old(has(virtual, d.value)) && OsStat_err(fp, old(world(disk))) == nil && FI_IsDir(OsStat(fp, old(world(disk)))) ==> files == WalkFiles(d.file, old(mapof(virtual)), old(world(walk))) && Walked_root(world(walk)) == fp && Walked_before(world(walk)) == old(world(walk)) && err == Walked_err(world(walk))
  ensures [no missing entries] err == nil ==> forall i int {files[i]} :: 0 <= i && i < len(files) ==> files[i] != nil && allocated(files[i])
fun OpenFiles(*parser.File, string, array(string, opt(string)), World) []*parser.File
fun OpenErr(*parser.File, string, array(string, opt(string)), World) any

func (parser.StatDecl).Files(d, virtual) (files, err)
  tags C03, C17
  requires d.file != nil
  modifies world(walk)
  ensures [like opening it] files == OpenFiles(d.file, d.value, old(mapof(virtual)), old(world(walk))) && err == OpenErr(d.file, d.value, old(mapof(virtual)), old(world(walk)))
  ensures [no missing entries] err == nil ==> forall i int {files[i]} :: 0 <= i && i < len(files) ==> files[i] != nil && allocated(files[i])
func (parser.HTTPDecl).Files(d, virtual) (files, err)
  tags C03, C17
  requires d.file != nil
  modifies world(walk)
  ensures [like opening it] files == OpenFiles(d.file, d.value, old(mapof(virtual)), old(world(walk))) && err == OpenErr(d.file, d.value, old(mapof(virtual)), old(world(walk)))
  ensures [no missing entries] err == nil ==> forall i int {files[i]} :: 0 <= i && i < len(files) ==> files[i] != nil && allocated(files[i])
func (parser.IncludeDecl).Files(d, virtual) (files, err)
  tags C03, C17
  requires d.file != nil
  modifies world(walk)
  ensures [like opening it] files == OpenFiles(d.file, d.value, old(mapof(virtual)), old(world(walk))) && err == OpenErr(d.file, d.value, old(mapof(virtual)), old(world(walk)))
  ensures [no missing entries] err == nil ==> forall i int {files[i]} :: 0 <= i && i < len(files) ==> files[i] != nil && allocated(files[i])
func (parser.CreateDecl).VirtualPaths(d) (r)
  tags C03, C17
  ensures [the path that is created] len(r) == 1 && r[0] == d.value
func (parser.MkdirAllDecl).VirtualPaths(d) (r)
  tags C03, C17
  ensures [the path that is created] len(r) == 1 && r[0] == d.value

// What a declaration shows of itself
func (parser.MkdirAllDecl).File(d) (r, err)
  tags C16
  ensures [the file it resolves to] (d.file == nil ==> r == nil && err == os.ErrNotExist) && (d.file != nil ==> r == d.file && err == nil)
func (parser.MkdirAllDecl).Position(d) (r, err)
  tags C16
  ensures [where it is] r == d.pos && err == nil
func (parser.MkdirAllDecl).Value(d) (r, err)
  tags C16
  ensures [the name as written] r == d.value && (d.value == "" ==> err == os.ErrNotExist) && (d.value != "" ==> err == nil)
func (parser.CreateDecl).File(d) (r, err)
  tags C16
  ensures [the file it resolves to] (d.file == nil ==> r == nil && err == os.ErrNotExist) && (d.file != nil ==> r == d.file && err == nil)
func (parser.CreateDecl).Position(d) (r, err)
  tags C16
  ensures [where it is] r == d.pos && err == nil
func (parser.CreateDecl).Value(d) (r, err)
  tags C16
  ensures [the name as written] r == d.value && (d.value == "" ==> err == os.ErrNotExist) && (d.value != "" ==> err == nil)
func (parser.IncludeDecl).File(d) (r, err)
  tags C16
  ensures [the file it resolves to] (d.file == nil ==> r == nil && err == os.ErrNotExist) && (d.file != nil ==> r == d.file && err == nil)
func (parser.IncludeDecl).Position(d) (r, err)
  tags C16
  ensures [where it is] r == d.pos && err == nil
func (parser.IncludeDecl).Value(d) (r, err)
  tags C16
  ensures [the name as written] r == d.value && (d.value == "" ==> err == os.ErrNotExist) && (d.value != "" ==> err == nil)
func (parser.StatDecl).File(d) (r, err)
  tags C16
  ensures [the file it resolves to] (d.file == nil ==> r == nil && err == os.ErrNotExist) && (d.file != nil ==> r == d.file && err == nil)
func (parser.StatDecl).Position(d) (r, err)
  tags C16
  ensures [where it is] r == d.pos && err == nil
func (parser.StatDecl).Value(d) (r, err)
  tags C16
  ensures [the name as written] r == d.value && (d.value == "" ==> err == os.ErrNotExist) && (d.value != "" ==> err == nil)
func (parser.OpenDecl).File(d) (r, err)
  tags C16
  ensures [the file it resolves to] (d.file == nil ==> r == nil && err == os.ErrNotExist) && (d.file != nil ==> r == d.file && err == nil)
func (parser.OpenDecl).Position(d) (r, err)
  tags C16
  ensures [where it is] r == d.pos && err == nil
func (parser.OpenDecl).Value(d) (r, err)
  tags C16
  ensures [the name as written] r == d.value && (d.value == "" ==> err == os.ErrNotExist) && (d.value != "" ==> err == nil)
func (parser.HTTPDecl).File(d) (r, err)
  tags C16
  ensures [the file it resolves to] (d.file == nil ==> r == nil && err == os.ErrNotExist) && (d.file != nil ==> r == d.file && err == nil)
func (parser.HTTPDecl).Position(d) (r, err)
  tags C16
  ensures [where it is] r == d.pos && err == nil
func (parser.HTTPDecl).Value(d) (r, err)
  tags C16
  ensures [the name as written] r == d.value && (d.value == "" ==> err == os.ErrNotExist) && (d.value != "" ==> err == nil)
func (parser.WalkDecl).File(d) (r, err)
  tags C16
  ensures [the file it resolves to] (d.file == nil ==> r == nil && err == os.ErrNotExist) && (d.file != nil ==> r == d.file && err == nil)
func (parser.WalkDecl).Position(d) (r, err)
  tags C16
  ensures [where it is] r == d.pos && err == nil
func (parser.WalkDecl).Value(d) (r, err)
  tags C16
  ensures [the name as written] r == d.value && (d.value == "" ==> err == os.ErrNotExist) && (d.value != "" ==> err == nil)
