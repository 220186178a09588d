// The JSON form of an in-memory filesystem (pkging/mem/embed.go), as functions
// of the text.

// the value an Info stands for, its lists of strings included (nothing in the
// module writes into those lists)
fun infoVal(gh.Info) sort(InfoVal)
fun jErr(string) any
fun jNull(string) bool
fun jHere(string) sort(InfoVal)
fun jKnows(string, string) bool
fun jInfo(string, string) sort(InfoVal)
fun jHas(string, string) bool
fun jFHere(string, string) sort(InfoVal)
fun jPath(string, string) gh.Path
fun jParent(string, string) gh.Path
fun jData(string, string) string
fun jInfoSet(string, string) bool
fun jName(string, string) string
fun jSize(string, string) int64
fun jMode(string, string) fs.FileMode
fun jIsDir(string, string) bool
fun jInstant(string, string) int

carried {C02, C03} embed.Data, embed.File, pkging.FileInfo, pkging.Details, gh.Info, gh.Module, gh.Path with pkging.ModTime

// the metadata under the key k of the text s
define written(s string, k string, d pkging.Details) bool = jName(s, k) == d.Name && jSize(s, k) == d.Size && jMode(s, k) == d.Mode && jIsDir(s, k) == d.IsDir && (regular(typed(time.Time, d.ModTime)) ==> jInstant(s, k) == instant(typed(time.Time, d.ModTime)))
define readBack(s string, k string, d pkging.Details) bool = jName(s, k) == d.Name && jSize(s, k) == d.Size && jMode(s, k) == d.Mode && jIsDir(s, k) == d.IsDir && jInstant(s, k) == instant(typed(time.Time, d.ModTime))

extern json.Marshal[embed.Data](v) (b, err)
  trust encoding/json: carries the fields of a struct, strings being valid UTF-8; modification times by their own methods
  ensures err == nil ==> fresh(b) && !jNull(bytes(b)) && jHere(bytes(b)) == infoVal(v.Here)
  ensures err == nil ==> forall k string {jKnows(bytes(b), k)} {has(v.Infos, k)} :: jKnows(bytes(b), k) == has(v.Infos, k) && (has(v.Infos, k) ==> jInfo(bytes(b), k) == infoVal(v.Infos[k]))
  ensures err == nil ==> forall k string {jHas(bytes(b), k)} {has(v.Files, k)} :: jHas(bytes(b), k) == has(v.Files, k) && (has(v.Files, k) ==> jFHere(bytes(b), k) == infoVal(v.Files[k].Here) && jPath(bytes(b), k) == v.Files[k].Path && jParent(bytes(b), k) == v.Files[k].Parent && jData(bytes(b), k) == bytes(v.Files[k].Data) && jInfoSet(bytes(b), k) == (v.Files[k].Info != nil) && (v.Files[k].Info != nil ==> written(bytes(b), k, v.Files[k].Info.Details)))
  ensures err == nil && (forall k string {has(v.Files, k)} :: has(v.Files, k) && v.Files[k].Info != nil ==> regular(typed(time.Time, v.Files[k].Info.Details.ModTime))) ==> jErr(bytes(b)) == nil

define decoded(s string, d embed.Data) bool = infoVal(d.Here) == jHere(s) && (forall k string {jKnows(s, k)} {has(d.Infos, k)} :: jKnows(s, k) == has(d.Infos, k) && (has(d.Infos, k) ==> jInfo(s, k) == infoVal(d.Infos[k]))) && (forall k string {jHas(s, k)} {has(d.Files, k)} :: jHas(s, k) == has(d.Files, k) && (has(d.Files, k) ==> jFHere(s, k) == infoVal(d.Files[k].Here) && jPath(s, k) == d.Files[k].Path && jParent(s, k) == d.Files[k].Parent && jData(s, k) == bytes(d.Files[k].Data) && jInfoSet(s, k) == (d.Files[k].Info != nil) && (d.Files[k].Info != nil ==> fresh(d.Files[k].Info) && readBack(s, k, d.Files[k].Info.Details))))
extern json.Unmarshal[**embed.Data](data, v) (err)
  trust encoding/json: carries the fields of a struct; null leaves a nil pointer
  requires [decoded into an empty value] v != nil && (*v == nil || (**v).Here == zero(gh.Info) && (forall k string {has((**v).Infos, k)} :: !has((**v).Infos, k)) && (forall k string {has((**v).Files, k)} :: !has((**v).Files, k)))
  modifies *v, **v, mapof((**v).Infos), mapof((**v).Files)
  ensures err == jErr(old(bytes(data)))
  ensures err == nil && jNull(old(bytes(data))) ==> *v == nil
  ensures err == nil && !jNull(old(bytes(data))) ==> *v != nil && (*v == old(*v) || fresh(*v)) && decoded(old(bytes(data)), **v)
extern json.Unmarshal[*embed.Data](data, v) (err)
  trust encoding/json: carries the fields of a struct; null changes nothing
  requires [decoded into an empty value] v != nil && (*v).Here == zero(gh.Info) && (forall k string {has((*v).Infos, k)} :: !has((*v).Infos, k)) && (forall k string {has((*v).Files, k)} :: !has((*v).Files, k))
  modifies *v, mapof((*v).Infos), mapof((*v).Files)
  ensures err == jErr(old(bytes(data)))
  ensures err == nil && jNull(old(bytes(data))) ==> *v == old(*v)
  ensures err == nil && !jNull(old(bytes(data))) ==> decoded(old(bytes(data)), *v)

// the text s and the filesystem fx hold the same
define sameEntry(s string, pt gh.Path, f *mem.File) bool = jFHere(s, keyOf(pt)) == infoVal(f.Here) && jParent(s, keyOf(pt)) == f.parent && jData(s, keyOf(pt)) == bytes(f.data) && jInfoSet(s, keyOf(pt))
define sameMeta(s string, pt gh.Path, f *mem.File) bool = jName(s, keyOf(pt)) == f.info.Details.Name && jSize(s, keyOf(pt)) == f.info.Details.Size && jMode(s, keyOf(pt)) == f.info.Details.Mode && jIsDir(s, keyOf(pt)) == f.info.Details.IsDir
define sameTime(s string, pt gh.Path, f *mem.File) bool = jInstant(s, keyOf(pt)) == instant(typed(time.Time, f.info.Details.ModTime))
define regularTime(f *mem.File) bool = regular(typed(time.Time, f.info.Details.ModTime))
// the text names every entry by its path
fun wellFormed(string) bool
define namedByPaths(s string) bool = forall k string {jHas(s, k)} :: jHas(s, k) ==> k == keyOf(jPath(s, k)) && jInfoSet(s, k) && canonical(jPath(s, k).Name)
axiom [a well-formed text names every entry by its path] forall s string, k string {wellFormed(s), jHas(s, k)} :: wellFormed(s) && jHas(s, k) ==> k == keyOf(jPath(s, k)) && jInfoSet(s, k) && canonical(jPath(s, k).Name)
axiom [and such a text is well formed] forall s string {wellFormed(s)} :: namedByPaths(s) ==> wellFormed(s)
define inText(s string, pt gh.Path) bool = jHas(s, keyOf(pt)) && jPath(s, keyOf(pt)) == pt
define sameModule(s string, fx *mem.Pkger) bool = jHere(s) == infoVal(fx.Here)
define samePackages(s string, fx *mem.Pkger) bool = forall k string {jKnows(s, k)} {icontent(fx.infos)[box(k)]} :: jKnows(s, k) == (icontent(fx.infos)[box(k)] != absent) && (jKnows(s, k) ==> jInfo(s, k) == infoVal(icontent(fx.infos)[box(k)] as gh.Info))
define samePaths(s string, fx *mem.Pkger) bool = forall pt gh.Path {fcontent(fx.files)[box(pt)]} {jHas(s, keyOf(pt))} :: has_(fx, pt) == inText(s, pt)

func (*mem.Pkger).MarshalJSON(p) (b, err)
  tags C02, C03
  requires memOk(p)
  requires [different paths are written differently] forall k gh.Path, l gh.Path {fcontent(p.files)[box(k)], fcontent(p.files)[box(l)]} :: has_(p, k) && has_(p, l) && keyOf(k) == keyOf(l) ==> k == l
  modifies p.files.data, p.files.once when !p.files.once
  modifies p.infos.data, p.infos.once when !p.infos.once
  modifies world(cb)
  ensures [the current module] err == nil ==> sameModule(bytes(b), p)
  ensures [the known packages] err == nil ==> samePackages(bytes(b), p)
  ensures [exactly the paths of the filesystem] err == nil ==> namedByPaths(bytes(b)) && samePaths(bytes(b), p)
  ensures [with contents and package] err == nil ==> forall pt gh.Path {fcontent(p.files)[box(pt)]} {jHas(bytes(b), keyOf(pt))} :: has_(p, pt) ==> sameEntry(bytes(b), pt, stored(p, pt))
  ensures [with metadata] err == nil ==> forall pt gh.Path {fcontent(p.files)[box(pt)]} {jHas(bytes(b), keyOf(pt))} :: has_(p, pt) ==> sameMeta(bytes(b), pt, stored(p, pt)) && (regularTime(stored(p, pt)) ==> sameTime(bytes(b), pt, stored(p, pt)))
  ensures [the result can be read back] err == nil && (forall k gh.Path {fcontent(p.files)[box(k)]} :: has_(p, k) ==> regularTime(stored(p, k))) ==> jErr(bytes(b)) == nil && !jNull(bytes(b))
  ensures [the filesystem stays] memOk(p) && p.Here == old(p.Here) && fcontent(p.files) == old(fcontent(p.files)) && icontent(p.infos) == old(icontent(p.infos))
  iter Range
    bind files map[string]embed.File
    invariant [of the entries] forall pt gh.Path {$visited[box(pt)]} :: $visited[box(pt)] ==> has_(p, pt)
    invariant [written so far] forall pt gh.Path {$visited[box(pt)]} :: $visited[box(pt)] ==> has(files, keyOf(pt)) && files[keyOf(pt)] == mk embed.File{Info: stored(p, pt).info, Here: stored(p, pt).Here, Path: pt, Data: stored(p, pt).data, Parent: stored(p, pt).parent}
    invariant [nothing else] forall k string {has(files, k)} :: has(files, k) ==> keyOf(files[k].Path) == k && $visited[box(files[k].Path)]
    invariant [the filesystem stays] memOk(p) && fcontent(p.files) == old(fcontent(p.files)) && icontent(p.infos) == old(icontent(p.infos))
  iter Range
    bind infos map[string]gh.Info
    invariant [of the packages] forall k string {$visited[box(k)]} :: $visited[box(k)] ==> icontent(p.infos)[box(k)] != absent
    invariant [written so far] forall k string {has(infos, k)} {$visited[box(k)]} :: has(infos, k) == $visited[box(k)] && (has(infos, k) ==> infos[k] == (icontent(p.infos)[box(k)] as gh.Info))
    invariant [the filesystem stays] memOk(p) && fcontent(p.files) == old(fcontent(p.files)) && icontent(p.infos) == old(icontent(p.infos))

func (*mem.Pkger).UnmarshalJSON(p, b) (err)
  tags C02
  requires p != nil
  let s = old(bytes(b))
  modifies p.Here, p.infos, p.files
  ensures [an error exactly for a malformed payload] err == nil <==> jErr(s) == nil && !jNull(s)
  ensures [an error changes nothing] err != nil ==> p.Here == old(p.Here) && p.infos == old(p.infos) && p.files == old(p.files)
  ensures [the current module] err == nil ==> sameModule(s, p)
  ensures [the known packages] err == nil ==> samePackages(s, p)
  ensures [exactly the paths of the text] err == nil && wellFormed(s) ==> samePaths(s, p)
  ensures [with contents and package] err == nil && wellFormed(s) ==> forall pt gh.Path {fcontent(p.files)[box(pt)]} {jHas(s, keyOf(pt))} :: has_(p, pt) ==> sameEntry(s, pt, stored(p, pt))
  ensures [with metadata] err == nil && wellFormed(s) ==> forall pt gh.Path {fcontent(p.files)[box(pt)]} {jHas(s, keyOf(pt))} :: has_(p, pt) ==> sameMeta(s, pt, stored(p, pt)) && sameTime(s, pt, stored(p, pt))
  ensures [a well-formed filesystem] err == nil && wellFormed(s) ==> memOk(p)
  loop
    bind $map map[string]gh.Info
    invariant [restored so far] forall k string {$visited[k]} {icontent(p.infos)[box(k)]} :: (icontent(p.infos)[box(k)] != absent) == $visited[k] && ($visited[k] ==> has($map, k) && icontent(p.infos)[box(k)] == box($map[k]))
    invariant [other tables stay] forall m *sync.Map {*m} :: m != nil && !fresh(m) ==> *m == old(*m)
    invariant [a table of its own] p.infos != nil && fresh(p.infos) && infosOk(p.infos) && (p.infos.data == nil || fresh(p.infos.data))
  loop
    bind $map map[string]embed.File
    invariant [restored so far] wellFormed(s) ==> forall pt gh.Path {$visited[keyOf(pt)]} {fcontent(p.files)[box(pt)]} :: has_(p, pt) == ($visited[keyOf(pt)] && inText(s, pt))
    invariant [files of their own] wellFormed(s) ==> forall pt gh.Path {fcontent(p.files)[box(pt)]} :: has_(p, pt) ==> fcontent(p.files)[box(pt)] is *mem.File && stored(p, pt) != nil && allocated(stored(p, pt)) && stored(p, pt).path == pt && fresh(stored(p, pt))
    invariant [with the package] wellFormed(s) ==> forall pt gh.Path {fcontent(p.files)[box(pt)]} :: has_(p, pt) ==> stored(p, pt).Here == $map[keyOf(pt)].Here
    invariant [with contents] wellFormed(s) ==> forall pt gh.Path {fcontent(p.files)[box(pt)]} :: has_(p, pt) ==> stored(p, pt).data == $map[keyOf(pt)].Data
    invariant [with the parent] wellFormed(s) ==> forall pt gh.Path {fcontent(p.files)[box(pt)]} :: has_(p, pt) ==> stored(p, pt).parent == $map[keyOf(pt)].Parent
    invariant [with metadata] wellFormed(s) ==> forall pt gh.Path {fcontent(p.files)[box(pt)]} :: has_(p, pt) ==> stored(p, pt).info == $map[keyOf(pt)].Info && stored(p, pt).info != nil && allocated(stored(p, pt).info)
    ghost known = icontent(p.infos)
    invariant [the packages stay] icontent(p.infos) == known && p.infos != nil && fresh(p.infos) && infosOk(p.infos) && (p.infos.data == nil || fresh(p.infos.data))
    invariant [other tables stay] forall m *sync.Map {*m} :: m != nil && !fresh(m) ==> *m == old(*m)
    invariant [tables of its own] p.files != nil && fresh(p.files) && filesOk(p.files) && (p.files.data == nil || fresh(p.files.data) && p.files.data != p.infos.data)

define sameEntries(s string, fx *mem.Pkger) bool = forall pt gh.Path {fcontent(fx.files)[box(pt)]} {jHas(s, keyOf(pt))} :: has_(fx, pt) ==> sameEntry(s, pt, stored(fx, pt)) && sameMeta(s, pt, stored(fx, pt))
define sameTimes(s string, fx *mem.Pkger) bool = forall pt gh.Path {fcontent(fx.files)[box(pt)]} {jHas(s, keyOf(pt))} :: has_(fx, pt) ==> sameTime(s, pt, stored(fx, pt))

extern json.Unmarshal[*mem.Pkger](data, p) (err)
  trust encoding/json: what is not JSON at all is an error; otherwise the work is done by UnmarshalJSON of the value
  requires p != nil
  let s = old(bytes(data))
  modifies p.Here, p.infos, p.files
  ensures err == nil <==> jErr(s) == nil && !jNull(s)
  ensures err == nil ==> sameModule(s, p) && samePackages(s, p)
  ensures err == nil && wellFormed(s) ==> samePaths(s, p) && sameEntries(s, p) && sameTimes(s, p) && memOk(p)

func mem.UnmarshalEmbed(in) (p, err)
  tags C02
  let s = gunzip(unhex(old(bytes(in))))
  ensures [an error exactly for a malformed payload] err == nil <==> wholePayload(old(bytes(in))) && jErr(s) == nil && !jNull(s)
  ensures [an error yields no filesystem] err != nil ==> p == nil
  ensures [a new filesystem] err == nil ==> p != nil && fresh(p)
  ensures [of the module and with the packages of the payload] err == nil ==> sameModule(s, p) && samePackages(s, p)
  ensures [exactly the paths of the payload] err == nil && wellFormed(s) ==> samePaths(s, p) && memOk(p)
  ensures [with contents, metadata and package] err == nil && wellFormed(s) ==> sameEntries(s, p) && sameTimes(s, p)
