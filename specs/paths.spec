// Names and paths.
fun hereParse(gh.Info, string) gh.Path
fun hereParseErr(gh.Info, string) any
fun Clean(string) string = "path.Clean"
fun PDir(string) string = "path.Dir"
fun PBase(string) string = "path.Base"
fun Split0(string) string = "path.Split.0"
fun Split1(string) string = "path.Split.1"
fun Join2(string, string) string = "path.Join2"
axiom [path.Join] forall a string, b string {Join2(a, b)} :: Join2(a, b) == (if a == "" then (if b == "" then "" else Clean(b)) else Clean(a + "/" + b))
axiom [path.Join below the root] forall b string {Join2("/", b)} :: Join2("/", b) == Clean("/" + b)
// a canonical name is rooted, cleaned and free of ".." elements
fun canonical(string) bool

extern (gh.Info).Parse(i, p) (pt, err)
  trust gobuffalo/here: parsing is a function of the module and the name
  ensures pt == hereParse(i, p) && err == hereParseErr(i, p)

axiom [path.Clean of a rooted name is canonical] forall s string {Clean("/" + s)} :: canonical(Clean("/" + s))
axiom [path.Clean keeps canonical names] forall s string {canonical(s)} :: canonical(s) ==> prefix("/", s) && Clean(s) == s && Clean("/" + s) == s && !contains(s + "/", "/../")
axiom [the parent of a canonical name is canonical] forall s string {canonical(s), PDir(s)} :: canonical(s) ==> canonical(PDir(s))
axiom [path.Dir of a canonical name] forall s string {PDir(s), canonical(s)} :: canonical(s) && s != "/" ==> len(PDir(s)) < len(s) && s == (if PDir(s) == "/" then "/" else PDir(s) + "/") + PBase(s) && len(PBase(s)) > 0 && !contains(PBase(s), "/")
axiom [path.Dir of the root] PDir("/") == "/" && canonical("/")
axiom [path.Split of a canonical name] forall s string {Split0(s), canonical(s)} :: canonical(s) && s != "/" ==> Split0(s) == (if PDir(s) == "/" then "/" else PDir(s) + "/") && Split1(s) == PBase(s)
axiom [the last element is what path.Split splits off] forall s string {Split1(s)} :: canonical(s) && s != "/" ==> Split1(s) == PBase(s)
axiom [path.Split of the root] Split0("/") == "/" && Split1("/") == ""
axiom [cleaning a trailing slash] forall s string {Clean(s + "/")} :: canonical(s) ==> Clean(s + "/") == s

// where a name points to
define resolve(i gh.Info, p string) gh.Path = mk gh.Path{Pkg: hereParse(i, p).Pkg, Name: Clean("/" + hereParse(i, p).Name)}

// root is pt, or pt lies below it in the same package
define within(root gh.Path, pt gh.Path) bool = root.Pkg == pt.Pkg && (root.Name == "/" || root.Name == pt.Name || prefix(root.Name + "/", pt.Name))
define withinKey(root gh.Path, k any) bool = k is gh.Path && within(root, k as gh.Path)
// k is pt or a directory on the way to it
define onPath(k any, pt gh.Path) bool = k is gh.Path && (k as gh.Path).Pkg == pt.Pkg && canonical((k as gh.Path).Name) && ((k as gh.Path).Name == pt.Name || (k as gh.Path).Name != "/" && prefix((k as gh.Path).Name + "/", pt.Name))
axiom [what is above the parent is above] forall n string, m string {prefix(n + "/", PDir(m))} :: canonical(m) && m != "/" && prefix(n + "/", PDir(m)) ==> prefix(n + "/", m)
axiom [what is above is the parent or above it] forall n string, m string {prefix(n + "/", m), PDir(m)} :: canonical(n) && canonical(m) && m != "/" && prefix(n + "/", m) ==> n == PDir(m) || prefix(n + "/", PDir(m))
lemma [nothing is above the root] forall n string {prefix(n + "/", "/")} :: canonical(n) ==> !prefix(n + "/", "/")
axiom [the parent is above] forall m string {canonical(m), PDir(m)} :: canonical(m) && PDir(m) != "/" ==> prefix(PDir(m) + "/", m)

// plain: the module gives the path back when it parses the path, or the path
// of a directory above it, in its printed form (no "pkg:" inside of names, no
// name that starts with the directory of the module)
fun plain(gh.Info, gh.Path) bool
define parentOf(pt gh.Path) gh.Path = mk gh.Path{Pkg: pt.Pkg, Name: PDir(pt.Name)}
define parentSlash(pt gh.Path) gh.Path = mk gh.Path{Pkg: pt.Pkg, Name: Split0(pt.Name)}
axiom [plain paths round trip] forall i gh.Info, pt gh.Path {plain(i, pt)} :: plain(i, pt) && canonical(pt.Name) ==> hereParseErr(i, pathStr(pt)) == nil && resolve(i, pathStr(pt)) == pt
axiom [and so do their parents] forall i gh.Info, pt gh.Path {plain(i, pt), PDir(pt.Name)} :: plain(i, pt) && canonical(pt.Name) ==> plain(i, parentOf(pt)) && hereParseErr(i, pathStr(parentOf(pt))) == nil && resolve(i, pathStr(parentOf(pt))) == parentOf(pt)
axiom [with a slash at the end, too] forall i gh.Info, pt gh.Path {plain(i, pt), Split0(pt.Name)} :: plain(i, pt) && canonical(pt.Name) ==> hereParseErr(i, pathStr(parentSlash(pt))) == nil && resolve(i, pathStr(parentSlash(pt))) == parentOf(pt)
axiom [the root is plain] forall i gh.Info {hereParse(i, "/")} :: hereParseErr(i, "/") == nil && resolve(i, "/").Name == "/" && plain(i, resolve(i, "/"))
