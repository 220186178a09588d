// The commands (cmd/pkger/cmds).
import flag "flag"
import json "encoding/json"
ghostfield flag.FlagSet.named string

// what has been parsed by a set of flags
fun FlagArgs(*flag.FlagSet, World) []string
fun Flags_w(*flag.FlagSet, []string, World) World
extern (*flag.FlagSet).Parse(f, args) (err)
  trust flag: acts on what the flags are bound to, and on nothing else
  requires f != nil
  modifies world(flags), every(cmds.packCmd.help), every(cmds.packCmd.out), every(cmds.packCmd.include), every(cmds.listCmd.help), every(cmds.listCmd.json), every(cmds.listCmd.include), every(cmds.parseCmd.help), every(cmds.parseCmd.json), every(cmds.pathCmd.help), every(cmds.pathCmd.json), every(cmds.serveCmd.excludes)
  ensures world(flags) == Flags_w(f, args, old(world(flags)))
extern (*flag.FlagSet).Args(f) (r)
  trust flag: what is left when the flags have been parsed
  requires f != nil
  ensures r == FlagArgs(f, world(flags))
extern (*flag.FlagSet).Name(f) (r)
  trust flag
  requires f != nil
  ensures r == f.named

// any command
fun CmdName(any) string
fun Cmd_who(World) any
fun Cmd_args(World) []string
fun Cmd_err(World) any
fun Cmd_before(World) World
extern (cmds.command).Name(c) (r)
  trust implementations of the interface: every command of this module is verified against this contract
  modifies every(cmds.infoCmd.FlagSet), every(cmds.listCmd.FlagSet), every(cmds.parseCmd.FlagSet), every(cmds.pathCmd.FlagSet), every(cmds.serveCmd.FlagSet), every(cmds.statCmd.FlagSet), every(flag.FlagSet.Usage), every(cmds.listCmd.json), every(cmds.parseCmd.help), every(cmds.pathCmd.help)
  ensures r == CmdName(c)
extern (cmds.command).Flags(c) (r)
  trust implementations of the interface: every command of this module is verified against this contract
  modifies every(cmds.infoCmd.FlagSet), every(cmds.listCmd.FlagSet), every(cmds.parseCmd.FlagSet), every(cmds.pathCmd.FlagSet), every(cmds.serveCmd.FlagSet), every(cmds.statCmd.FlagSet), every(flag.FlagSet.Usage), every(cmds.listCmd.json), every(cmds.parseCmd.help), every(cmds.pathCmd.help)
  ensures r != nil
extern (cmds.command).Exec(c, args) (err)
  trust any effect, but none on the commands themselves
  maypanic
  modifies world(cmd), world(flags), *pkger.gil, world(fsys), world(ast), world(disk), world(walk), world(out), world(cb), world(changes), world(stdout), world(enc), world(served)
  ensures Cmd_who(world(cmd)) == c && Cmd_args(world(cmd)) == args && Cmd_err(world(cmd)) == err && Cmd_before(world(cmd)) == old(world(cmd))

func cmds.Usage(w, f) (r)
  tags C20
  ensures [something to call] r != nil

define asksForHelp(args []string) bool = exists i int {args[i]} :: 1 <= i && i < len(args) && args[i] == "-h"
define firstNamed(subs []cmds.command, k string, i int) bool = 0 <= i && i < len(subs) && CmdName(subs[i]) == k && forall j int {subs[j]} :: 0 <= j && j < i ==> CmdName(subs[j]) != k
define known(subs []cmds.command, k string) bool = exists i int {subs[i]} :: 0 <= i && i < len(subs) && CmdName(subs[i]) == k
define nothingRun(W World, V World, C World, D World) bool = W == V && C == D

define afterFirst(a []string, r []string) bool = len(a) == len(r) - 1 && forall i int {a[i]} :: 0 <= i && i < len(a) ==> a[i] == r[i + 1]

fun RouteErr(*cmds.packCmd, []string, World) any
func (*cmds.packCmd).Route(e, args) (err)
  tags C20
  let I = inForce(pkger.current, pkger.disk)
  let rest = FlagArgs(e.FlagSet, Flags_w(e.FlagSet, args, world(flags)))
  requires e.FlagSet != nil && e.FlagSet.Usage != nil
  requires forall i int {e.subs[i]} :: 0 <= i && i < len(e.subs) ==> e.subs[i] != nil
  requires *pkger.gil == 0 && I != nil && syntaxTree() && diskStays() && pathsDiffer()
  maypanic
  modifies world(cmd), world(flags), *pkger.gil, world(fsys), world(ast), world(disk), world(walk), world(out), world(cb), world(changes), world(stdout), world(enc), world(served), every(cmds.packCmd.help), every(cmds.packCmd.out), every(cmds.packCmd.include), every(cmds.listCmd.help), every(cmds.listCmd.json), every(cmds.listCmd.include), every(cmds.parseCmd.help), every(cmds.parseCmd.json), every(cmds.pathCmd.help), every(cmds.pathCmd.json), every(cmds.infoCmd.FlagSet), every(cmds.listCmd.FlagSet), every(cmds.parseCmd.FlagSet), every(cmds.pathCmd.FlagSet), every(cmds.serveCmd.FlagSet), every(cmds.statCmd.FlagSet), every(flag.FlagSet.Usage), every(cmds.listCmd.json), every(cmds.parseCmd.help), every(cmds.pathCmd.help), every(cmds.serveCmd.excludes)
  names err RouteErr(e, args, old(world(flags)))
  ensures [help: nothing is run] e.help ==> err == nil && nothingRun(old(world(cmd)), world(cmd), old(world(changes)), world(changes))
  ensures [no command is named: packaging, nothing else] !e.help && len(rest) == 0 ==> err == PackErr(e, old(world(fsys))) && world(cmd) == old(world(cmd))
  ensures [an unknown one is an error, nothing is run] !e.help && len(rest) > 0 && !known(e.subs, rest[0]) ==> err != nil && nothingRun(old(world(cmd)), world(cmd), old(world(changes)), world(changes))
  ensures [the one that is named is run once, with the rest, its error is returned] !e.help && len(rest) > 0 && !asksForHelp(rest) ==> forall i int {e.subs[i]} :: firstNamed(e.subs, rest[0], i) ==> Cmd_who(world(cmd)) == e.subs[i] && Cmd_before(world(cmd)) == old(world(cmd)) && afterFirst(Cmd_args(world(cmd)), rest) && err == Cmd_err(world(cmd))
  ensures [or not at all if it is asked for help] !e.help && len(rest) > 0 && known(e.subs, rest[0]) && asksForHelp(rest) ==> err == nil && nothingRun(old(world(cmd)), world(cmd), old(world(changes)), world(changes))
  loop
    bind k string
    invariant [no further] $n <= len(e.subs)
    invariant [none of those so far] forall j int {e.subs[j]} :: 0 <= j && j < $n ==> CmdName(e.subs[j]) != k
    leave [only for the one that is named] CmdName(e.subs[$n]) == k
  loop
    bind $seq []string
    bind k string
    invariant [no further] $n <= len($seq)
    invariant [over what follows the name] len($seq) == len(rest) - 1 && (forall j int {$seq[j]} :: 0 <= j && j < len($seq) ==> $seq[j] == rest[j + 1]) && forall j int {rest[j]} :: 1 <= j && j < len(rest) ==> rest[j] == $seq[j - 1]
    invariant [no request for help so far] forall j int {$seq[j]} :: 0 <= j && j < $n ==> $seq[j] != "-h"

// what is encoded
ghostfield json.Encoder.to any
fun Enc_v(World) any
fun Enc_text(World) string
extern json.NewEncoder(w) (r)
  trust encoding/json
  ensures fresh(r) && r != nil && r.to == w
extern (*json.Encoder).SetIndent(enc, prefix, indent)
  trust encoding/json: changes nothing but the layout
  requires enc != nil
extern (*json.Encoder).Encode(enc, v) (err)
  trust encoding/json: encodes the value as it is, or writes nothing and returns an error
  requires enc != nil
  modifies world(enc), world(stdout)
  modifies *(enc.to as *bytes.Buffer) when enc.to is *bytes.Buffer
  ensures Enc_v(world(enc)) == v
  ensures enc.to is *bytes.Buffer ==> world(stdout) == old(world(stdout)) && (err == nil ==> *(enc.to as *bytes.Buffer) == old(*(enc.to as *bytes.Buffer)) + Enc_text(world(enc)))
  ensures enc.to == box(os.Stdout) && err == nil ==> world(stdout) == printw(Enc_text(world(enc)), old(world(stdout)))
extern (*os.File).Write(f, b) (n, err)
  trust os: a short write is an error
  requires f != nil
  modifies world(stdout)
  ensures f == os.Stdout && err == nil ==> world(stdout) == printw(old(bytes(b)), old(world(stdout)))

// what is printed
fun printw(string, World) World = "print.w"
fun argV(any) string = "fmt.arg%v"
axiom [a path is printed as its String method says] forall p gh.Path {argV(box(p))} :: argV(box(p)) == pathStr(p)
axiom [a string is printed as it is] forall s string {argV(box(s))} :: argV(box(s)) == s
define listed(l []*parser.File, fl []*parser.File) bool = (forall i int {l[i]} :: 0 <= i && i < len(l) ==> exists j int {fl[j]} :: 0 <= j && j < len(fl) && l[i] == fl[j] && wanted(fl[j])) && (forall j int {fl[j]} :: 0 <= j && j < len(fl) && wanted(fl[j]) ==> exists i int {l[i]} :: 0 <= i && i < len(l) && l[i] == fl[j])
define asListed(l []*parser.File, info gh.Info, inc []string, A World) bool = exists W World {DeclFiles(ParseDecls(info, inc, A), W)} :: DeclErr(ParseDecls(info, inc, A), W) == nil && listed(l, DeclFiles(ParseDecls(info, inc, A), W))

func (*cmds.listCmd).Exec(e, args) (err)
  tags C20
  let I = inForce(pkger.current, pkger.disk)
  let info = Pk_Current(I, world(fsys))
  let A = world(ast)
  let P = world(stdout)
  requires e.FlagSet != nil && e.FlagSet.Usage != nil && *pkger.gil == 0 && I != nil && syntaxTree() && os.Stdout != nil
  maypanic
  modifies world(flags), *pkger.gil, world(fsys), world(ast), world(disk), world(walk), world(out), world(cb), world(changes), world(stdout), world(enc), every(cmds.packCmd.help), every(cmds.packCmd.out), every(cmds.packCmd.include), every(cmds.listCmd.help), every(cmds.listCmd.json), every(cmds.listCmd.include), every(cmds.parseCmd.help), every(cmds.parseCmd.json), every(cmds.pathCmd.help), every(cmds.pathCmd.json), every(cmds.serveCmd.excludes)
  ensures [help: nothing else] e.help ==> err == nil && world(changes) == old(world(changes)) && world(stdout) == old(world(stdout))
  ensures [without a module nothing is listed] !e.help && Pk_Current_err(I, old(world(fsys))) != nil ==> err == Pk_Current_err(I, old(world(fsys))) && world(stdout) == old(world(stdout))
  ensures [what can't be searched is an error] !e.help && Pk_Current_err(I, old(world(fsys))) == nil && ParseErr(info, e.include, A) != nil ==> err == ParseErr(info, e.include, A) && world(stdout) == old(world(stdout))
  ensures [as JSON: exactly what is packaged] !e.help && e.json && err == nil ==> Enc_v(world(enc)) is struct { ImportPath string, Files []*parser.File } && asListed((Enc_v(world(enc)) as struct { ImportPath string, Files []*parser.File }).Files, info, e.include, A) && world(stdout) == printw(Enc_text(world(enc)), old(world(stdout)))
  loop
    bind files []*parser.File
    bind jay struct { ImportPath string, Files []*parser.File }
    invariant [no further] $n <= len(files)
    invariant [storage of its own] jay.Files == nil || fresh(jay.Files)
    invariant [nothing that isn't packaged] forall i int {jay.Files[i]} :: 0 <= i && i < len(jay.Files) ==> exists j int {files[j]} :: 0 <= j && j < $n && jay.Files[i] == files[j] && wanted(files[j])
    invariant [everything that is] forall j int {files[j]} :: 0 <= j && j < $n && wanted(files[j]) ==> exists i int {jay.Files[i]} :: 0 <= i && i < len(jay.Files) && jay.Files[i] == files[j]
    invariant [once] forall i int, j int {jay.Files[i], jay.Files[j]} :: 0 <= i && i < j && j < len(jay.Files) ==> jay.Files[i].Abs != jay.Files[j].Abs
  loop
    bind $seq []*parser.File
    invariant [no further] $n <= len($seq)
    invariant [exactly what is packaged] asListed($seq, info, e.include, A)
    invariant [once] forall i int, j int {$seq[i], $seq[j]} :: 0 <= i && i < j && j < len($seq) ==> $seq[i].Abs != $seq[j].Abs
    invariant [after the path of the module] start(world(stdout)) == printw(info.ImportPath + "\n", P)
    done [nothing more] world(stdout) == old(world(stdout)) && $ret0 == nil
    step [one line for each] world(stdout) == printw(" > " + argV(box($seq[$n - 1].Path)) + "\n", old(world(stdout)))

// the commands and their names
extern flag.NewFlagSet(name, h) (r)
  trust flag
  ensures fresh(r) && r != nil && r.named == name
extern (*flag.FlagSet).BoolVar(f, p, name, value, usage)
  trust flag: the flag has its default value until flags are parsed
  requires f != nil && p != nil
  modifies *p
  ensures *p == value
extern (*flag.FlagSet).StringVar(f, p, name, value, usage)
  trust flag: the flag has its default value until flags are parsed
  requires f != nil && p != nil
  modifies *p
  ensures *p == value
extern (*flag.FlagSet).Var(f, value, name, usage)
  trust flag
  requires f != nil && value != nil
axiom [the name of the command] forall e *cmds.infoCmd {CmdName(box(e))} :: CmdName(box(e)) == "info"
func (*cmds.infoCmd).Flags(e) (r)
  tags C20
  requires e.FlagSet == nil || e.FlagSet.named == "info"
  modifies e.FlagSet
  ensures [its own] r != nil && r == e.FlagSet && r.named == "info" && (old(e.FlagSet) != nil ==> r == old(e.FlagSet))
func (*cmds.infoCmd).Name(e) (r)
  tags C20
  requires e.FlagSet == nil || e.FlagSet.named == "info"
  modifies e.FlagSet
  ensures [what it is called by] r == CmdName(box(e)) && e.FlagSet != nil && e.FlagSet.named == "info"
axiom [the name of the command] forall e *cmds.listCmd {CmdName(box(e))} :: CmdName(box(e)) == "list"
func (*cmds.listCmd).Flags(e) (r)
  tags C20
  requires e.FlagSet == nil || e.FlagSet.named == "list"
  modifies e.FlagSet, e.json, every(flag.FlagSet.Usage)
  ensures [its own] r != nil && r == e.FlagSet && r.named == "list" && (old(e.FlagSet) != nil ==> r == old(e.FlagSet))
func (*cmds.listCmd).Name(e) (r)
  tags C20
  requires e.FlagSet == nil || e.FlagSet.named == "list"
  modifies e.FlagSet, e.json, every(flag.FlagSet.Usage)
  ensures [what it is called by] r == CmdName(box(e)) && e.FlagSet != nil && e.FlagSet.named == "list"
axiom [the name of the command] forall e *cmds.parseCmd {CmdName(box(e))} :: CmdName(box(e)) == "parse"
func (*cmds.parseCmd).Flags(e) (r)
  tags C20
  requires e.FlagSet == nil || e.FlagSet.named == "parse"
  modifies e.FlagSet, e.help
  ensures [its own] r != nil && r == e.FlagSet && r.named == "parse" && (old(e.FlagSet) != nil ==> r == old(e.FlagSet))
func (*cmds.parseCmd).Name(e) (r)
  tags C20
  requires e.FlagSet == nil || e.FlagSet.named == "parse"
  modifies e.FlagSet, e.help
  ensures [what it is called by] r == CmdName(box(e)) && e.FlagSet != nil && e.FlagSet.named == "parse"
axiom [the name of the command] forall e *cmds.pathCmd {CmdName(box(e))} :: CmdName(box(e)) == "path"
func (*cmds.pathCmd).Flags(e) (r)
  tags C20
  requires e.FlagSet == nil || e.FlagSet.named == "path"
  modifies e.FlagSet, e.help
  ensures [its own] r != nil && r == e.FlagSet && r.named == "path" && (old(e.FlagSet) != nil ==> r == old(e.FlagSet))
func (*cmds.pathCmd).Name(e) (r)
  tags C20
  requires e.FlagSet == nil || e.FlagSet.named == "path"
  modifies e.FlagSet, e.help
  ensures [what it is called by] r == CmdName(box(e)) && e.FlagSet != nil && e.FlagSet.named == "path"
axiom [the name of the command] forall e *cmds.serveCmd {CmdName(box(e))} :: CmdName(box(e)) == "serve"
func (*cmds.serveCmd).Flags(e) (r)
  tags C20
  requires e.FlagSet == nil || e.FlagSet.named == "serve"
  modifies e.FlagSet
  ensures [its own] r != nil && r == e.FlagSet && r.named == "serve" && (old(e.FlagSet) != nil ==> r == old(e.FlagSet))
func (*cmds.serveCmd).Name(e) (r)
  tags C20
  requires e.FlagSet == nil || e.FlagSet.named == "serve"
  modifies e.FlagSet
  ensures [what it is called by] r == CmdName(box(e)) && e.FlagSet != nil && e.FlagSet.named == "serve"
axiom [the name of the command] forall e *cmds.statCmd {CmdName(box(e))} :: CmdName(box(e)) == "stat"
func (*cmds.statCmd).Flags(e) (r)
  tags C20
  requires e.FlagSet == nil || e.FlagSet.named == "stat"
  modifies e.FlagSet
  ensures [its own] r != nil && r == e.FlagSet && r.named == "stat" && (old(e.FlagSet) != nil ==> r == old(e.FlagSet))
func (*cmds.statCmd).Name(e) (r)
  tags C20
  requires e.FlagSet == nil || e.FlagSet.named == "stat"
  modifies e.FlagSet
  ensures [what it is called by] r == CmdName(box(e)) && e.FlagSet != nil && e.FlagSet.named == "stat"

define hasCmd(subs []cmds.command, n string) bool = exists i int {subs[i]} :: 0 <= i && i < len(subs) && CmdName(subs[i]) == n
func cmds.New() (c, err)
  tags C20
  modifies every(cmds.infoCmd.FlagSet), every(cmds.listCmd.FlagSet), every(cmds.parseCmd.FlagSet), every(cmds.pathCmd.FlagSet), every(cmds.serveCmd.FlagSet), every(cmds.statCmd.FlagSet), every(flag.FlagSet.Usage), every(cmds.listCmd.json), every(cmds.parseCmd.help), every(cmds.pathCmd.help)
  ensures [ready to be used] err == nil && c != nil && fresh(c) && c.FlagSet != nil && c.FlagSet.Usage != nil && c.FlagSet.named == "pkger"
  ensures [no missing entries] forall i int {c.subs[i]} :: 0 <= i && i < len(c.subs) ==> c.subs[i] != nil
  ensures [every command is there] len(c.subs) == 6 && hasCmd(c.subs, "info") && hasCmd(c.subs, "list") && hasCmd(c.subs, "parse") && hasCmd(c.subs, "path") && hasCmd(c.subs, "serve") && hasCmd(c.subs, "stat")

func main.run() (err)
  tags C20
  requires *pkger.gil == 0 && inForce(pkger.current, pkger.disk) != nil && syntaxTree() && diskStays() && pathsDiffer() && len(os.Args) > 0
  maypanic
  modifies world(cmd), world(flags), *pkger.gil, world(fsys), world(ast), world(disk), world(walk), world(out), world(cb), world(changes), world(stdout), world(enc), world(served), every(cmds.packCmd.help), every(cmds.packCmd.out), every(cmds.packCmd.include), every(cmds.listCmd.help), every(cmds.listCmd.include), every(cmds.parseCmd.json), every(cmds.pathCmd.json), every(cmds.serveCmd.excludes), every(cmds.infoCmd.FlagSet), every(cmds.listCmd.FlagSet), every(cmds.parseCmd.FlagSet), every(cmds.pathCmd.FlagSet), every(cmds.serveCmd.FlagSet), every(cmds.statCmd.FlagSet), every(flag.FlagSet.Usage), every(cmds.listCmd.json), every(cmds.parseCmd.help), every(cmds.pathCmd.help)
  ensures [the error of the command that is run for the arguments] exists c *cmds.packCmd, a []string {RouteErr(c, a, old(world(flags)))} :: err == RouteErr(c, a, old(world(flags))) && afterFirst(a, os.Args)

// the other commands: nothing that fails is passed over
func (*cmds.infoCmd).Exec(r, args) (err)
  tags C20
  let I = inForce(pkger.current, pkger.disk)
  requires *pkger.gil == 0 && I != nil
  modifies *pkger.gil, world(fsys), world(enc), world(stdout)
  ensures [without arguments: the current directory] len(args) == 0 && Pk_Info_err(I, ".", old(world(fsys))) != nil ==> err == Pk_Info_err(I, ".", old(world(fsys)))
  loop
    bind $seq []string
    invariant [no further] $n <= len($seq)
    invariant [the lock is free] *pkger.gil == 0
    invariant [what is asked for] len(args) == 0 ==> len($seq) == 1 && $seq[0] == "." && ($n == 0 ==> world(fsys) == F0)
    step [going on means that nothing has failed] Pk_Info_err(I, $seq[$n - 1], old(world(fsys))) == nil && Enc_v(world(enc)) == box(Pk_Info(I, $seq[$n - 1], old(world(fsys))))
    leave [stopping early is an error] $ret0 != nil
  let F0 = world(fsys)

func (*cmds.pathCmd).Exec(c, args) (err)
  tags C20
  let I = inForce(pkger.current, pkger.disk)
  let rest = FlagArgs(c.FlagSet, Flags_w(c.FlagSet, args, world(flags)))
  requires c.FlagSet != nil && c.FlagSet.Usage != nil && *pkger.gil == 0 && I != nil
  maypanic
  modifies *pkger.gil, world(fsys), world(enc), world(stdout), world(cb), world(out), world(flags), every(cmds.packCmd.help), every(cmds.packCmd.out), every(cmds.packCmd.include), every(cmds.listCmd.help), every(cmds.listCmd.json), every(cmds.listCmd.include), every(cmds.parseCmd.help), every(cmds.parseCmd.json), every(cmds.pathCmd.help), every(cmds.pathCmd.json), every(cmds.serveCmd.excludes)
  ensures [nothing to look up is an error] !c.help && len(rest) == 0 ==> err != nil && world(stdout) == old(world(stdout))
  ensures [what is found is printed] !c.help && err == nil ==> Enc_v(world(enc)) is map[string]gh.Path && world(stdout) == printw(Enc_text(world(enc)), old(world(stdout))) && forall i int {rest[i]} :: 0 <= i && i < len(rest) ==> has((Enc_v(world(enc)) as map[string]gh.Path), rest[i])
  loop
    bind $seq []string
    bind paths map[string]gh.Path
    invariant [no further] $n <= len($seq)
    invariant [the lock is free] *pkger.gil == 0
    invariant [what is asked for] $seq == rest && fresh(paths) && paths != nil
    invariant [each of them so far] forall i int {rest[i]} :: 0 <= i && i < $n ==> has(paths, rest[i])
    step [going on means that nothing has failed] Pk_Parse_err(I, $seq[$n - 1], old(world(fsys))) == nil && has(paths, $seq[$n - 1]) && paths[$seq[$n - 1]] == Pk_Parse(I, $seq[$n - 1], old(world(fsys)))
    leave [stopping early is an error] $ret0 != nil

func (*cmds.parseCmd).Exec(c, args) (err)
  tags C20
  requires c.FlagSet != nil && c.FlagSet.Usage != nil && syntaxTree()
  maypanic
  modifies world(ast), world(walk), world(disk), world(enc), world(stdout), world(cb), world(out), world(flags), every(cmds.packCmd.help), every(cmds.packCmd.out), every(cmds.packCmd.include), every(cmds.listCmd.help), every(cmds.listCmd.json), every(cmds.listCmd.include), every(cmds.parseCmd.help), every(cmds.parseCmd.json), every(cmds.pathCmd.help), every(cmds.pathCmd.json), every(cmds.serveCmd.excludes)
  loop
    bind $seq []string
    invariant [no further] $n <= len($seq)
    step [going on means that nothing has failed] ($seq[$n - 1] == "." ==> hereDirErr(".") == nil && ParseErr(hereDir("."), nil, old(world(ast))) == nil) && ($seq[$n - 1] != "." ==> herePackageErr($seq[$n - 1]) == nil && ParseErr(herePackage($seq[$n - 1]), nil, old(world(ast))) == nil)
    leave [stopping early is an error] $ret0 != nil

fun File_Stat(any, World) fs.FileInfo = "pkging.File.Stat.0"
fun File_Stat_err(any, World) any = "pkging.File.Stat.1"
fun File_Stat_w(any, World) World = "pkging.File.Stat.w"
fun File_Readdir(any, int, World) []fs.FileInfo = "pkging.File.Readdir.0"
fun File_Readdir_err(any, int, World) any = "pkging.File.Readdir.1"
fun File_Readdir_w(any, int, World) World = "pkging.File.Readdir.w"
fun File_Path(any, World) gh.Path = "pkging.File.Path.0"
define metadata(i any) bool = i != nil && (i is *pkging.FileInfo ==> (i as *pkging.FileInfo) != nil)
define lineOf(i any) string = argV(box(mk pkging.FileInfo{Details: details(i)})) + "\n"
define statOf(I any, p string, F World) any = File_Stat(Pk_Open(I, p, F), Pk_Open_w(I, p, F))
define statErr(I any, p string, F World) any = File_Stat_err(Pk_Open(I, p, F), Pk_Open_w(I, p, F))
define afterStat(I any, p string, F World) World = File_Stat_w(Pk_Open(I, p, F), Pk_Open_w(I, p, F))
define entriesOf(I any, p string, F World) []fs.FileInfo = File_Readdir(Pk_Open(I, p, F), -1, afterStat(I, p, F))
define dirErr(I any, p string, F World) any = File_Readdir_err(Pk_Open(I, p, F), -1, afterStat(I, p, F))
func (*cmds.statCmd).Exec(e, args) (err)
  tags C20
  let I = inForce(pkger.current, pkger.disk)
  let F0 = world(fsys)
  requires *pkger.gil == 0 && I != nil
  requires [implementations return a file when they report no error] forall i any, p string, W World {Pk_Open(i, p, W)} :: Pk_Open_err(i, p, W) == nil ==> Pk_Open(i, p, W) != nil
  requires [implementations return metadata when they report no error] forall f any, W World {File_Stat(f, W)} :: File_Stat_err(f, W) == nil ==> metadata(File_Stat(f, W))
  requires [implementations list metadata] forall f any, c int, W World, i int {File_Readdir(f, c, W)[i]} :: File_Readdir_err(f, c, W) == nil && 0 <= i && i < len(File_Readdir(f, c, W)) ==> metadata(File_Readdir(f, c, W)[i])
  modifies *pkger.gil, world(fsys), world(stdout)
  ensures [without arguments: the current directory] len(args) == 0 && Pk_Open_err(I, ".", F0) != nil ==> err == Pk_Open_err(I, ".", F0) && world(stdout) == old(world(stdout))
  loop
    bind $seq []string
    invariant [no further] $n <= len($seq)
    invariant [the lock is free] *pkger.gil == 0
    invariant [what is asked for] (len(args) == 0 ==> len($seq) == 1 && $seq[0] == ".") && (len(args) > 0 ==> $seq == args) && ($n == 0 ==> world(fsys) == F0 && world(stdout) == old(world(stdout)))
    step [going on means that nothing has failed] Pk_Open_err(I, $seq[$n - 1], old(world(fsys))) == nil && statErr(I, $seq[$n - 1], old(world(fsys))) == nil && (details(statOf(I, $seq[$n - 1], old(world(fsys)))).IsDir ==> dirErr(I, $seq[$n - 1], old(world(fsys))) == nil)
    step [a file: one line, what it reports] !details(statOf(I, $seq[$n - 1], old(world(fsys)))).IsDir ==> world(stdout) == printw(lineOf(statOf(I, $seq[$n - 1], old(world(fsys)))), old(world(stdout)))
    leave [stopping early is an error] $ret0 != nil
  loop
    bind $seq []fs.FileInfo
    invariant [no further] $n <= len($seq)
    invariant [over the entries of a directory, all of them] exists p string, W World {Pk_Open(I, p, W)} :: $seq == entriesOf(I, p, W) && dirErr(I, p, W) == nil
    step [one line for each, what it reports] world(stdout) == printw(lineOf($seq[$n - 1]), old(world(stdout)))

import http "net/http"
fun HttpFiles(any) any
fun Served(World) any
fun Served_err(World) any
fun Served_w(World, World, any) World
extern http.FileServer(root) (r)
  trust net/http
  ensures r == HttpFiles(root) && r != nil
extern http.ListenAndServe(addr, handler) (err)
  trust net/http: serves with the handler until that fails
  modifies world(served), world(fsys)
  ensures Served(world(served)) == handler && err != nil && err == Served_err(world(served))
func (*cmds.serveCmd).Exec(e, args) (err)
  tags C20
  let I = inForce(pkger.current, pkger.disk)
  let F0 = world(fsys)
  let p = if len(args) == 0 then "." else args[0]
  requires *pkger.gil == 0 && I != nil
  requires [implementations return a file when they report no error] forall i any, p string, W World {Pk_Open(i, p, W)} :: Pk_Open_err(i, p, W) == nil ==> Pk_Open(i, p, W) != nil
  modifies *pkger.gil, world(fsys), world(stdout), world(served)
  ensures [what can't be opened is an error, nothing is served] Pk_Open_err(I, p, F0) != nil ==> err == Pk_Open_err(I, p, F0) && world(served) == old(world(served)) && world(stdout) == old(world(stdout))
  ensures [the first argument is what is served] Pk_Open_err(I, p, F0) == nil ==> Served(world(served)) == HttpFiles(Pk_Open(I, p, F0)) && err == Served_err(world(served))
