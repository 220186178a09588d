// Finding declarations in source files (parser/source.go, parser.go).
import ast "go/ast"
import token "go/token"

// the text of a literal without its quotes
fun Unq(string) string
fun UnqErr(string) any
extern strconv.Unquote(s) (t, err)
  trust strconv: what isn't quoted is an error
  ensures t == Unq(s) && err == UnqErr(s)
axiom [what isn't quoted is an error] forall s string {UnqErr(s)} :: UnqErr(s) == nil ==> len(s) >= 2 && (prefix("\"", s) || prefix("'", s) || prefix("`", s))

// what go/parser makes of a file
fun syntaxNode(any) bool
axiom [nodes exist] forall n any {syntaxNode(n)} :: syntaxNode(n) ==> n != nil && (n is *ast.CallExpr ==> (n as *ast.CallExpr) != nil) && (n is *ast.SelectorExpr ==> (n as *ast.SelectorExpr) != nil) && (n is *ast.Ident ==> (n as *ast.Ident) != nil) && (n is *ast.BasicLit ==> (n as *ast.BasicLit) != nil)
define syntaxTree() bool = (forall c *ast.CallExpr {c.Fun} :: syntaxNode(c.Fun)) && (forall c *ast.CallExpr, i int {c.Args[i]} :: 0 <= i && i < len(c.Args) ==> syntaxNode(c.Args[i])) && (forall s *ast.SelectorExpr {s.X} :: syntaxNode(s.X)) && (forall s *ast.SelectorExpr {s.Sel} :: s.Sel != nil) && (forall v *ast.ValueSpec, i int {v.Values[i]} :: 0 <= i && i < len(v.Values) ==> syntaxNode(v.Values[i])) && (forall v *ast.ValueSpec, i int {v.Names[i]} :: 0 <= i && i < len(v.Names) ==> v.Names[i] != nil) && (forall o *ast.Object {o.Decl} :: o.Decl is *ast.ValueSpec ==> (o.Decl as *ast.ValueSpec) != nil) && (forall n *ast.Ident {n.Name} :: !prefix("\"", n.Name) && !prefix("'", n.Name) && !prefix("`", n.Name))

fun NodeValue(any, array(*ast.Object, opt(bool)), World) string
fun IdentValue(*ast.Ident, array(*ast.Object, opt(bool)), World) string

// a constant that can be looked up: declared in the file, and not by itself
define isConst(n *ast.Ident) bool = n.Obj != nil && n.Obj.Kind == ast.Con
define declaredAt(n *ast.Ident, i int) bool = n.Obj.Decl is *ast.ValueSpec && 0 <= i && i < len((n.Obj.Decl as *ast.ValueSpec).Names) && (n.Obj.Decl as *ast.ValueSpec).Names[i].Name == n.Name && forall j int {(n.Obj.Decl as *ast.ValueSpec).Names[j]} :: 0 <= j && j < i ==> (n.Obj.Decl as *ast.ValueSpec).Names[j].Name != n.Name

define specOf(n *ast.Ident) *ast.ValueSpec = n.Obj.Decl as *ast.ValueSpec
define seenIn(S array(*ast.Object, opt(bool)), o *ast.Object) bool = S[o] == some(true)
// the text of what is written out
define literal(n any) bool = n is *ast.BasicLit
define constant(n any) bool = n is *ast.Ident && isConst(n as *ast.Ident)
define constantAt(n any, i int) bool = constant(n) && declaredAt(n as *ast.Ident, i) && i < len(specOf(n as *ast.Ident).Values)

func (*parser.ParsedSource).valueIdent(p, node, seen) (s)
  tags C16
  requires node != nil && seen != nil && syntaxTree()
  modifies mapof(seen), world(ast)
  names s IdentValue(node, old(mapof(seen)), old(world(ast)))
  ensures [what is no constant of this file stands for itself] !isConst(node) ==> s == node.Name
  ensures [neither is one that is declared by itself] isConst(node) && old(seenIn(mapof(seen), node.Obj)) ==> s == node.Name
  ensures [a constant stands for what it is declared with] isConst(node) && !old(seenIn(mapof(seen), node.Obj)) ==> forall i int {specOf(node).Values[i]} :: declaredAt(node, i) && i < len(specOf(node).Values) ==> s == NodeValue(specOf(node).Values[i], upd(old(mapof(seen)), node.Obj, some(true)), old(world(ast)))
  ensures [the text of a literal] isConst(node) && !old(seenIn(mapof(seen), node.Obj)) ==> forall i int {specOf(node).Values[i]} :: declaredAt(node, i) && i < len(specOf(node).Values) && literal(specOf(node).Values[i]) ==> s == (specOf(node).Values[i] as *ast.BasicLit).Value
  ensures [without a value it stands for itself] isConst(node) && !old(seenIn(mapof(seen), node.Obj)) && !(exists i int {specOf(node).Names[i]} :: declaredAt(node, i) && i < len(specOf(node).Values)) ==> s == node.Name
  loop
    invariant [no name so far] forall j int {specOf(node).Names[j]} :: 0 <= j && j < $n ==> specOf(node).Names[j].Name != node.Name
    invariant [nothing found so far] s == node.Name && world(ast) == old(world(ast)) && mapof(seen) == upd(old(mapof(seen)), node.Obj, some(true))

func (*parser.ParsedSource).valueNode(p, node, seen) (s)
  tags C16
  requires syntaxNode(node) && seen != nil && syntaxTree()
  modifies mapof(seen), world(ast)
  names s NodeValue(node, old(mapof(seen)), old(world(ast)))
  ensures [the text of a literal] literal(node) ==> s == (node as *ast.BasicLit).Value
  ensures [a name stands for its constant] node is *ast.Ident ==> s == IdentValue(node as *ast.Ident, old(mapof(seen)), old(world(ast)))
  ensures [what is no constant of this file stands for itself] node is *ast.Ident && !constant(node) ==> s == (node as *ast.Ident).Name
  ensures [a constant declared with a literal] constant(node) && !old(seenIn(mapof(seen), (node as *ast.Ident).Obj)) ==> forall i int {specOf(node as *ast.Ident).Values[i]} :: declaredAt(node as *ast.Ident, i) && i < len(specOf(node as *ast.Ident).Values) && literal(specOf(node as *ast.Ident).Values[i]) ==> s == (specOf(node as *ast.Ident).Values[i] as *ast.BasicLit).Value
  ensures [nothing else is static] !literal(node) && !(node is *ast.Ident) ==> s == ""

fun ArgValue(any, World) string
fun ArgErr(any, World) any
func (*parser.ParsedSource).value(p, node) (s, err)
  tags C16
  requires syntaxNode(node) && syntaxTree()
  modifies world(ast)
  names s ArgValue(node, old(world(ast)))
  names err ArgErr(node, old(world(ast)))
  ensures [a literal, without its quotes] literal(node) ==> s == Unq((node as *ast.BasicLit).Value) && err == UnqErr((node as *ast.BasicLit).Value)
  ensures [a constant declared with a literal] constant(node) ==> forall i int {specOf(node as *ast.Ident).Values[i]} :: declaredAt(node as *ast.Ident, i) && i < len(specOf(node as *ast.Ident).Values) && literal(specOf(node as *ast.Ident).Values[i]) ==> s == Unq((specOf(node as *ast.Ident).Values[i] as *ast.BasicLit).Value) && err == UnqErr((specOf(node as *ast.Ident).Values[i] as *ast.BasicLit).Value)
  ensures [any other name has no value] node is *ast.Ident && !constant(node) ==> err != nil
  ensures [anything else has no value] !literal(node) && !(node is *ast.Ident) ==> err != nil

// the kinds of declarations
define kindOf(name string, d any) bool = name == "MkdirAll" && d is parser.MkdirAllDecl || name == "Create" && d is parser.CreateDecl || name == "Include" && d is parser.IncludeDecl || name == "Stat" && d is parser.StatDecl || name == "Open" && d is parser.OpenDecl || name == "Dir" && d is parser.HTTPDecl || name == "Walk" && d is parser.WalkDecl
define declFile(d any) *parser.File = if d is parser.MkdirAllDecl then (d as parser.MkdirAllDecl).file else if d is parser.CreateDecl then (d as parser.CreateDecl).file else if d is parser.IncludeDecl then (d as parser.IncludeDecl).file else if d is parser.StatDecl then (d as parser.StatDecl).file else if d is parser.OpenDecl then (d as parser.OpenDecl).file else if d is parser.HTTPDecl then (d as parser.HTTPDecl).file else (d as parser.WalkDecl).file
define declValue(d any) string = if d is parser.MkdirAllDecl then (d as parser.MkdirAllDecl).value else if d is parser.CreateDecl then (d as parser.CreateDecl).value else if d is parser.IncludeDecl then (d as parser.IncludeDecl).value else if d is parser.StatDecl then (d as parser.StatDecl).value else if d is parser.OpenDecl then (d as parser.OpenDecl).value else if d is parser.HTTPDecl then (d as parser.HTTPDecl).value else (d as parser.WalkDecl).value
define declPos(d any) token.Position = if d is parser.MkdirAllDecl then (d as parser.MkdirAllDecl).pos else if d is parser.CreateDecl then (d as parser.CreateDecl).pos else if d is parser.IncludeDecl then (d as parser.IncludeDecl).pos else if d is parser.StatDecl then (d as parser.StatDecl).pos else if d is parser.OpenDecl then (d as parser.OpenDecl).pos else if d is parser.HTTPDecl then (d as parser.HTTPDecl).pos else (d as parser.WalkDecl).pos
define kind(name string) bool = name == "MkdirAll" || name == "Create" || name == "Include" || name == "Stat" || name == "Open" || name == "Dir" || name == "Walk"

// a call of pkger.name with an argument
define selectorOf(n any) *ast.SelectorExpr = (n as *ast.CallExpr).Fun as *ast.SelectorExpr
define declares(n any) bool = n is *ast.CallExpr && (n as *ast.CallExpr).Fun is *ast.SelectorExpr && selectorOf(n).X is *ast.Ident && (selectorOf(n).X as *ast.Ident).Name == "pkger" && kind(selectorOf(n).Sel.Name) && len((n as *ast.CallExpr).Args) >= 1
define calledName(n any) string = selectorOf(n).Sel.Name
define argOf(n any) any = (n as *ast.CallExpr).Args[0]

fun NodePos(any) token.Pos
fun PositionOf(*token.FileSet, token.Pos) token.Position
extern (ast.Expr).Pos(n) (r)
  trust go/ast: where a node is doesn't change
  ensures r == NodePos(n)
extern (ast.Node).Pos(n) (r)
  trust go/ast: where a node is doesn't change
  ensures r == NodePos(n)
extern (*token.FileSet).Position(s, p) (r)
  trust go/token
  ensures r == PositionOf(s, p)

// the module of the file, and the path a value stands for there
define sourceInfo(p *parser.ParsedSource) gh.Info = hereDir(FDir(p.Abs))
define moduleOf(i gh.Info, pt gh.Path) gh.Info = if pt.Pkg != i.Module.Path then herePackage(pt.Pkg) else i
define resolvesIn(i gh.Info, v string) bool = hereParseErr(i, v) == nil && (hereParse(i, v).Pkg != i.Module.Path ==> herePackageErr(hereParse(i, v).Pkg) == nil)
define resolves(p *parser.ParsedSource, v string) bool = hereDirErr(FDir(p.Abs)) == nil && resolvesIn(sourceInfo(p), v)

define declCount(p *parser.ParsedSource, k string) int = if has(p.decls, k) then len(p.decls[k]) else 0
define found(p *parser.ParsedSource, n any, W World) bool = declares(n) && ArgErr(argOf(n), W) == nil && resolves(p, ArgValue(argOf(n), W))
define lastOf(p *parser.ParsedSource, k string) any = p.decls[k][len(p.decls[k]) - 1]
func (*parser.ParsedSource).parse(p) (err)
  tags C16
  requires p.Ast != nil && syntaxNode(box(p.Ast)) && syntaxTree() && p.FileSet != nil
  modifies p.decls, p.err, world(ast)
  ensures [what can't be resolved is no failure] err == nil
  ensures [a table of its own] p.decls != nil && fresh(p.decls)
  ensures [by their kinds] byKinds(p.decls)
  iter Visit
    invariant [a table of its own] p.decls != nil && fresh(p.decls)
    invariant [storage of its own] forall k string {p.decls[k]} :: has(p.decls, k) ==> p.decls[k] == nil || fresh(p.decls[k])
    invariant [by their kinds] byKinds(p.decls)
    step [the traversal goes on everywhere] $ret
    step [everything else declares nothing] !declares($node) ==> mapof(p.decls) == old(mapof(p.decls))
    step [neither does what has no value] declares($node) && ArgErr(argOf($node), old(world(ast))) != nil ==> mapof(p.decls) == old(mapof(p.decls))
    step [or what can't be resolved] declares($node) && ArgErr(argOf($node), old(world(ast))) == nil && !resolves(p, ArgValue(argOf($node), old(world(ast)))) ==> mapof(p.decls) == old(mapof(p.decls))
    step [one declaration more of the kind that is called] found(p, $node, old(world(ast))) ==> declCount(p, calledName($node)) == old(declCount(p, calledName($node))) + 1 && kindOf(calledName($node), lastOf(p, calledName($node)))
    step [those found before stay] found(p, $node, old(world(ast))) ==> (forall k string {has(p.decls, k)} {old(has(p.decls, k))} :: k != calledName($node) ==> has(p.decls, k) == old(has(p.decls, k)) && (has(p.decls, k) ==> p.decls[k] == old(p.decls[k]))) && forall i int {p.decls[calledName($node)][i]} :: 0 <= i && i < old(declCount(p, calledName($node))) ==> p.decls[calledName($node)][i] == old(p.decls[calledName($node)][i])
    step [with its value and its position] found(p, $node, old(world(ast))) ==> declValue(lastOf(p, calledName($node))) == ArgValue(argOf($node), old(world(ast))) && declPos(lastOf(p, calledName($node))) == PositionOf(p.FileSet, NodePos(argOf($node)))
    step [and the path it resolves to] found(p, $node, old(world(ast))) ==> declFile(lastOf(p, calledName($node))).Path == hereParse(sourceInfo(p), ArgValue(argOf($node), old(world(ast)))) && declFile(lastOf(p, calledName($node))).Here == moduleOf(sourceInfo(p), declFile(lastOf(p, calledName($node))).Path) && declFile(lastOf(p, calledName($node))).Abs == Join2(declFile(lastOf(p, calledName($node))).Here.Module.Dir, declFile(lastOf(p, calledName($node))).Path.Name)

// one source file: parsed once
define byKinds(m map[string]parser.Decls) bool = (forall k string {m[k]} :: has(m, k) ==> m[k] == nil || allocated(m[k])) && forall k string, i int {m[k][i]} :: has(m, k) && 0 <= i && i < len(m[k]) ==> kindOf(k, m[k][i]) && declFile(m[k][i]) != nil && allocated(declFile(m[k][i]))
define readySource(p *parser.ParsedSource) bool = p.Ast != nil && syntaxNode(box(p.Ast)) && p.FileSet != nil
func (*parser.ParsedSource).Parse(p) (err)
  tags C16
  requires readySource(p) && syntaxTree()
  modifies p.decls, p.err, p.once when !p.once
  modifies world(ast) when !p.once
  ensures [what can't be resolved is no failure] !old(p.once) ==> err == nil && p.decls != nil && fresh(p.decls) && byKinds(p.decls)
  ensures [parsed once] p.once && err == p.err
func (*parser.ParsedSource).DeclsMap(p) (m, err)
  tags C16
  requires readySource(p) && syntaxTree()
  modifies p.decls, p.err, p.once when !p.once
  modifies world(ast) when !p.once
  ensures [what has been found] m == p.decls && err == p.err && p.once
  ensures [what can't be resolved is no failure] !old(p.once) ==> err == nil && m != nil && fresh(m) && byKinds(m)

func parser.NewInclude(her, inc) (d, err)
  tags C16
  ensures [what can't be resolved is an error] hereParseErr(her, inc) != nil ==> err != nil
  ensures [the path it resolves to] err == nil ==> d.value == inc && d.file != nil && fresh(d.file) && d.file.Path == hereParse(her, inc)
  ensures [in the module of its package] err == nil ==> d.file.Here == (if d.file.Path.Pkg != her.ImportPath then herePackage(d.file.Path.Pkg) else her) && d.file.Abs == Join2(d.file.Here.Module.Dir, d.file.Path.Name)

func parser.New(her) (p, err)
  tags C16
  ensures [a parser of its own] err == nil && p != nil && fresh(p) && p.Info == her && p.decls != nil && fresh(p.decls) && len(p.includes) == 0 && !p.once

define rankOf(d any) int = if d is parser.MkdirAllDecl then 0 else if d is parser.CreateDecl then 1 else if d is parser.IncludeDecl then 2 else if d is parser.StatDecl then 3 else if d is parser.OpenDecl then 4 else if d is parser.HTTPDecl then 5 else 6
define rankName(k string) int = if k == "MkdirAll" then 0 else if k == "Create" then 1 else if k == "Include" then 2 else if k == "Stat" then 3 else if k == "Open" then 4 else if k == "Dir" then 5 else if k == "Walk" then 6 else 7

func (*parser.Parser).parseIncludes(p) (err)
  tags C16
  requires p.decls != nil && byKinds(p.decls)
  modifies mapof(p.decls)
  ensures [by their kinds] byKinds(p.decls)
  ensures [nothing but what is included] forall k string {has(p.decls, k)} {old(has(p.decls, k))} :: k != "Include" ==> has(p.decls, k) == old(has(p.decls, k)) && (has(p.decls, k) ==> p.decls[k] == old(p.decls[k]))
  ensures [everything that is to be included] err == nil ==> countIn(p.decls, "Include") == old(countIn(p.decls, "Include")) + len(p.includes)
  loop
    invariant [by their kinds] byKinds(p.decls)
    invariant [nothing but what is included] forall k string {has(p.decls, k)} {old(has(p.decls, k))} :: k != "Include" ==> has(p.decls, k) == old(has(p.decls, k)) && (has(p.decls, k) ==> p.decls[k] == old(p.decls[k]))
    invariant [no further] $n <= len(p.includes)
    invariant [one by one] countIn(p.decls, "Include") == old(countIn(p.decls, "Include")) + $n
    step [its declaration is the last one] lastIn(p.decls, "Include") is parser.IncludeDecl && declValue(lastIn(p.decls, "Include")) == p.includes[$n - 1] && declFile(lastIn(p.decls, "Include")).Path == hereParse(p.Info, p.includes[$n - 1])
define countIn(m map[string]parser.Decls, k string) int = if has(m, k) then len(m[k]) else 0
define lastIn(m map[string]parser.Decls, k string) any = m[k][len(m[k]) - 1]

define before(m map[string]parser.Decls, k string) int = (if rankName(k) > 0 then countIn(m, "MkdirAll") else 0) + (if rankName(k) > 1 then countIn(m, "Create") else 0) + (if rankName(k) > 2 then countIn(m, "Include") else 0) + (if rankName(k) > 3 then countIn(m, "Stat") else 0) + (if rankName(k) > 4 then countIn(m, "Open") else 0) + (if rankName(k) > 5 then countIn(m, "Dir") else 0)
func (*parser.Parser).Decls(p) (decls, err)
  tags C16, C18
  requires syntaxTree()
  modifies p.decls, world(ast), world(walk), world(disk)
  ensures [by kind, virtual ones first] err == nil ==> forall i int, j int {decls[i], decls[j]} :: 0 <= i && i < j && j < len(decls) ==> rankOf(decls[i]) <= rankOf(decls[j])
  ensures [all of them] err == nil ==> len(decls) == countIn(p.decls, "MkdirAll") + countIn(p.decls, "Create") + countIn(p.decls, "Include") + countIn(p.decls, "Stat") + countIn(p.decls, "Open") + countIn(p.decls, "Dir") + countIn(p.decls, "Walk")
  ensures [each kind as a whole, in the order in which they were found] err == nil ==> forall k string, i int {p.decls[k][i]} :: kind(k) && has(p.decls, k) && 0 <= i && i < len(p.decls[k]) ==> decls[before(p.decls, k) + i] == p.decls[k][i]

// go/parser
import goparser "go/parser"
extern goparser.ParseFile(fset, filename, src, mode) (f, err)
  trust go/parser: without an error there is a syntax tree
  ensures err != io.EOF
  ensures err == nil ==> f != nil && fresh(f) && syntaxNode(box(f)) && syntaxTree()
fun ParsedDir(string, World) map[string]*ast.Package
extern goparser.ParseDir(fset, path, filter, mode) (pkgs, err)
  trust go/parser: without an error there is a syntax tree for each file
  modifies world(ast)
  ensures err == nil ==> syntaxTree() && pkgs != nil && fresh(pkgs) && forall k string {has(pkgs, k)} :: has(pkgs, k) ==> pkgs[k] != nil && fresh(pkgs[k]) && forall n string {has(pkgs[k].Files, n)} :: has(pkgs[k].Files, n) ==> pkgs[k].Files[n] != nil && syntaxNode(box(pkgs[k].Files[n]))
extern token.NewFileSet() (r)
  trust go/token
  ensures r != nil && fresh(r)
extern ioutil.ReadFile(name) (b, err)
  trust os

func (*parser.Parser).ParseSource(p, source, mode) (r, err)
  tags C16
  ensures [a source that can be searched] err == nil ==> r != nil && fresh(r) && readySource(r) && !r.once && r.Source == source && syntaxTree()

define readySources(srcs []*parser.ParsedSource) bool = forall i int {srcs[i]} :: 0 <= i && i < len(srcs) ==> srcs[i] != nil && fresh(srcs[i]) && readySource(srcs[i]) && !srcs[i].once && forall j int {srcs[j]} :: 0 <= j && j < i ==> srcs[j] != srcs[i]
func (*parser.Parser).ParseFile(p, abs, mode) (r, err)
  tags C16
  ensures [a source that can be searched] err == nil ==> r != nil && fresh(r) && readySource(r) && !r.once && syntaxTree() && r.Abs == abs
func (*parser.Parser).ParseDir(p, abs, mode) (srcs, err)
  tags C16
  modifies world(ast)
  ensures [sources that can be searched] err == nil ==> syntaxTree() && readySources(srcs)
  loop
    bind $map map[string]*ast.Package
    bind srcs []*parser.ParsedSource
    invariant [sources that can be searched] readySources(srcs) && (srcs == nil || fresh(srcs))
    invariant [one for every file so far] forall k string, n string {$map[k].Files[n]} :: $visited[k] && has($map[k].Files, n) ==> searchedIn(srcs, n, $map[k].Files[n])
    done [one for every file] forall k string, n string {$map[k].Files[n]} :: has($map, k) && has($map[k].Files, n) ==> searchedIn($ret0, n, $map[k].Files[n])
  loop
    bind $map map[string]*ast.File
    bind srcs []*parser.ParsedSource
    invariant [sources that can be searched] readySources(srcs) && (srcs == nil || fresh(srcs))
    invariant [the sources so far stay] start(len(srcs)) <= len(srcs) && forall i int {srcs[i]} {start(srcs[i])} :: 0 <= i && i < start(len(srcs)) ==> srcs[i] == start(srcs[i]) && srcs[i].Abs == start(srcs[i].Abs) && srcs[i].Ast == start(srcs[i].Ast)
    invariant [one for every file so far] forall n string {$map[n]} :: $visited[n] ==> searchedIn(srcs, n, $map[n])
define searchedIn(srcs []*parser.ParsedSource, n string, f *ast.File) bool = exists i int {srcs[i]} :: 0 <= i && i < len(srcs) && srcs[i].Abs == n && srcs[i].Ast == f

fun FBase(string) string
extern filepath.Base(p) (r)
  trust path/filepath
  ensures r == FBase(p)
define ignored(p string) bool = exists i int {parser.defaultIgnoredFolders[i]} :: 0 <= i && i < len(parser.defaultIgnoredFolders) && prefix(parser.defaultIgnoredFolders[i], FBase(p))

func (*parser.Parser).parse(p) (err)
  tags C16
  requires syntaxTree()
  modifies p.decls, world(ast), world(walk), world(disk)
  ensures [by their kinds] err == nil ==> p.decls != nil && fresh(p.decls) && byKinds(p.decls) && syntaxTree()
  iter Walk
    invariant [by their kinds] p.decls != nil && fresh(p.decls) && byKinds(p.decls)
    step [errors of the traversal are passed on] $err != nil ==> $ret == $err
    step [files are searched with their directories] $err == nil && !FI_IsDir($info) ==> $ret == nil && mapof(p.decls) == old(mapof(p.decls))
    step [some directories are left out] $err == nil && FI_IsDir($info) && ignored($path) ==> $ret == filepath.SkipDir && mapof(p.decls) == old(mapof(p.decls))
    step [a directory that can't be searched is an error] $err == nil && FI_IsDir($info) && !ignored($path) ==> $ret != filepath.SkipDir
  loop
    bind $seq []string
    invariant [no further] $n <= len($seq)
    invariant [not ignored so far] forall i int {$seq[i]} :: 0 <= i && i < $n ==> !prefix($seq[i], base)
  loop
    bind $seq []*parser.ParsedSource
    invariant [no further] $n <= len($seq)
    invariant [by their kinds] p.decls != nil && fresh(p.decls) && byKinds(p.decls)
    invariant [those ahead haven't been searched] forall i int {$seq[i]} :: $n <= i && i < len($seq) ==> readySource($seq[i]) && !$seq[i].once
    step [all of its declarations are added] forall k string {p.decls[k]} {$seq[$n - 1].decls[k]} :: countIn(p.decls, k) == old(countIn(p.decls, k)) + countIn($seq[$n - 1].decls, k)
  loop
    bind $map map[string]parser.Decls
    ghost had = mapof(p.decls)
    invariant [by their kinds] p.decls != nil && fresh(p.decls) && byKinds(p.decls)
    invariant [those so far] forall k string {p.decls[k]} {$visited[k]} :: countIn(p.decls, k) == (if issome(had[k]) then len(unopt(had[k])) else 0) + (if $visited[k] then countIn($map, k) else 0)

func (*parser.Parser).Parse(p) (err)
  tags C16
  requires syntaxTree()
  modifies p.decls, p.err, p.once when !p.once
  modifies world(ast), world(walk), world(disk) when !p.once
  ensures [searched once] p.once && err == p.err
  ensures [by their kinds] !old(p.once) && err == nil ==> p.decls != nil && byKinds(p.decls)
func (*parser.Parser).DeclsMap(p) (m, err)
  tags C16
  requires syntaxTree()
  modifies p.decls, p.err, p.once when !p.once
  modifies world(ast), world(walk), world(disk) when !p.once
  ensures [what has been found] m == p.decls && err == p.err && p.once
  ensures [by their kinds] !old(p.once) && err == nil ==> m != nil && byKinds(m)

fun ParseDecls(gh.Info, []string, World) parser.Decls
fun ParseErr(gh.Info, []string, World) any
func parser.Parse(her, includes) (decls, err)
  tags C16, C18, C20
  requires syntaxTree()
  modifies world(ast), world(walk), world(disk)
  names decls ParseDecls(her, includes, old(world(ast)))
  names err ParseErr(her, includes, old(world(ast)))
  ensures [by kind, virtual ones first] err == nil ==> forall i int, j int {decls[i], decls[j]} :: 0 <= i && i < j && j < len(decls) ==> rankOf(decls[i]) <= rankOf(decls[j])
