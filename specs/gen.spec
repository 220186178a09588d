// The command that generates pkged.go (cmd/pkger/cmds/pack.go).
define goFile(name string, payload string) string = "// Code generated by pkger; DO NOT EDIT.\n\n// +build !skippkger\n\npackage " + name + "\n\nimport (\n\t\"github.com/markbates/pkger\"\n\t\"github.com/markbates/pkger/pkging/mem\"\n)\n\nvar _ = pkger.Apply(mem.UnmarshalEmbed([]byte(`" + payload + "`)))\n"

func cmds.Package(info, out, decls) (err)
  tags C18
  requires diskStays() && pathsDiffer()
  modifies world(disk), world(walk), world(out), world(cb), world(changes)
  ensures [nothing but the output is written or removed] onlyAt(out, old(world(changes)), world(changes))
  ensures [without the information of the directory there is an error] hereDirErr(FDir(out)) != nil ==> err != nil
  ensures [success: a Go file of the package of its directory, completely written last] err == nil ==> Ch_op(world(changes)) == "WriteFile" && Ch_name(world(changes)) == out && Ch_err(world(changes)) == nil && Ch_data(world(changes)) == goFile(hereDir(FDir(out)).Name, Written(world(out))) && wholePayload(Written(world(out)))
  ensures [failure: the output is removed last] err != nil ==> Ch_op(world(changes)) == "RemoveAll" && Ch_name(world(changes)) == out
  ensures [the payload is for the module] err == nil ==> jHere(sent(world(out))) == infoVal(info)
  ensures [it holds what is declared, nothing else] err == nil ==> exists W World {DeclFiles(decls, W)} :: holds(sent(world(out)), DeclFiles(decls, W))

fun PackErr(*cmds.packCmd, World) any
// the command: only the output in the directory of the current module
func (*cmds.packCmd).Exec(e, args) (err)
  tags C18, C20
  let I = inForce(pkger.current, pkger.disk)
  let info = Pk_Current(I, world(fsys))
  let out = Join2(Join2(info.Dir, e.out), "pkged.go")
  requires *pkger.gil == 0 && I != nil && syntaxTree() && diskStays() && pathsDiffer()
  modifies *pkger.gil, world(fsys), world(ast), world(disk), world(walk), world(out), world(cb), world(changes)
  names err PackErr(e, old(world(fsys)))
  ensures [without a module nothing happens] Pk_Current_err(I, old(world(fsys))) != nil ==> err == Pk_Current_err(I, old(world(fsys))) && world(changes) == old(world(changes))
  ensures [nothing but the output is written or removed] onlyAt(out, old(world(changes)), world(changes))
  ensures [what is declared is searched for once, failures are passed on] Pk_Current_err(I, old(world(fsys))) == nil && ParseErr(info, e.include, old(world(ast))) != nil ==> err == ParseErr(info, e.include, old(world(ast)))
  ensures [failure: the output is removed last] Pk_Current_err(I, old(world(fsys))) == nil && err != nil ==> Ch_op(world(changes)) == "RemoveAll" && Ch_name(world(changes)) == out
  ensures [success: a Go file of the package of its directory, completely written last] err == nil ==> Ch_op(world(changes)) == "WriteFile" && Ch_name(world(changes)) == out && Ch_err(world(changes)) == nil && Ch_data(world(changes)) == goFile(hereDir(FDir(out)).Name, Written(world(out))) && wholePayload(Written(world(out)))
  ensures [the payload is for the module] err == nil ==> jHere(sent(world(out))) == infoVal(info)
  ensures [it holds what is declared or included, nothing else] err == nil ==> exists W World {DeclFiles(ParseDecls(info, e.include, old(world(ast))), W)} :: holds(sent(world(out)), DeclFiles(ParseDecls(info, e.include, old(world(ast))), W))
