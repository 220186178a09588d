// The package level API.
guard pkger.current by pkger.gil
fun hereCurrent() gh.Info
fun hereCurrentErr() any

extern here.Current() (info, err)
  trust the current module is computed once and cached by gobuffalo/here
  ensures info == hereCurrent() && err == hereCurrentErr()

func pkger.init()
  tags C14
  requires !pkger.init$guard && pkger.current == nil
  modifies *
  ensures [the default implementation is the disk of the current module] pkger.disk is *stdos.Pkger && pkger.disk != nil && (pkger.disk as *stdos.Pkger) != nil && (pkger.disk as *stdos.Pkger).Here == hereCurrent()
  ensures [nothing is applied at the start] pkger.current == nil
  ensures [the lock starts free] pkger.gil != nil && *pkger.gil == 0

define inForce(c any, d any) any = if c == nil then d else c

func pkger.impl() (r)
  tags C14
  requires *pkger.gil == 0
  ensures [the implementation in force] r == inForce(pkger.current, pkger.disk)
  ensures [the lock is released] *pkger.gil == 0
  modifies *pkger.gil

func pkger.Apply(pkg, err) (r)
  tags C14
  requires *pkger.gil == 0
  modifies pkger.current, *pkger.gil
  panics [an error is given] err != nil
  onpanic [nothing changes] pkger.current == old(pkger.current) && *pkger.gil == 0
  ensures [layered over the earlier ones] r == nil && pkger.current == box(mk pkging.withPkger{base: pkg, parent: old(pkger.current)})
  ensures [the lock is released] *pkger.gil == 0

func pkger.Parse(p) (pt, err)
  tags C14
  let I = inForce(pkger.current, pkger.disk)
  let W0 = world(fsys)
  requires *pkger.gil == 0 && I != nil
  modifies world(fsys), *pkger.gil
  ensures [Parse: results returned unchanged] pt == Pk_Parse(I, p, W0) && err == Pk_Parse_err(I, p, W0)
  ensures [Parse: carried out exactly once] world(fsys) == Pk_Parse_w(I, p, W0) && *pkger.gil == 0

func pkger.Current() (pt, err)
  tags C14
  let I = inForce(pkger.current, pkger.disk)
  let W0 = world(fsys)
  requires *pkger.gil == 0 && I != nil
  modifies world(fsys), *pkger.gil
  ensures [Current: results returned unchanged] pt == Pk_Current(I, W0) && err == Pk_Current_err(I, W0)
  ensures [Current: carried out exactly once] world(fsys) == Pk_Current_w(I, W0) && *pkger.gil == 0

func pkger.Info(p) (pt, err)
  tags C14
  let I = inForce(pkger.current, pkger.disk)
  let W0 = world(fsys)
  requires *pkger.gil == 0 && I != nil
  modifies world(fsys), *pkger.gil
  ensures [Info: results returned unchanged] pt == Pk_Info(I, p, W0) && err == Pk_Info_err(I, p, W0)
  ensures [Info: carried out exactly once] world(fsys) == Pk_Info_w(I, p, W0) && *pkger.gil == 0

func pkger.Create(p) (pt, err)
  tags C14
  let I = inForce(pkger.current, pkger.disk)
  let W0 = world(fsys)
  requires *pkger.gil == 0 && I != nil
  modifies world(fsys), *pkger.gil
  ensures [Create: results returned unchanged] pt == Pk_Create(I, p, W0) && err == Pk_Create_err(I, p, W0)
  ensures [Create: carried out exactly once] world(fsys) == Pk_Create_w(I, p, W0) && *pkger.gil == 0

func pkger.Open(p) (pt, err)
  tags C14
  let I = inForce(pkger.current, pkger.disk)
  let W0 = world(fsys)
  requires *pkger.gil == 0 && I != nil
  modifies world(fsys), *pkger.gil
  ensures [Open: results returned unchanged] pt == Pk_Open(I, p, W0) && err == Pk_Open_err(I, p, W0)
  ensures [Open: carried out exactly once] world(fsys) == Pk_Open_w(I, p, W0) && *pkger.gil == 0

func pkger.Stat(p) (pt, err)
  tags C14
  let I = inForce(pkger.current, pkger.disk)
  let W0 = world(fsys)
  requires *pkger.gil == 0 && I != nil
  modifies world(fsys), *pkger.gil
  ensures [Stat: results returned unchanged] pt == Pk_Stat(I, p, W0) && err == Pk_Stat_err(I, p, W0)
  ensures [Stat: carried out exactly once] world(fsys) == Pk_Stat_w(I, p, W0) && *pkger.gil == 0

func pkger.MkdirAll(p, perm) (err)
  tags C14
  let I = inForce(pkger.current, pkger.disk)
  let W0 = world(fsys)
  requires *pkger.gil == 0 && I != nil
  modifies world(fsys), *pkger.gil
  ensures [MkdirAll: results returned unchanged] err == Pk_MkdirAll_err(I, p, perm, W0)
  ensures [MkdirAll: carried out exactly once] world(fsys) == Pk_MkdirAll_w(I, p, perm, W0) && *pkger.gil == 0

func pkger.Walk(p, wf) (err)
  tags C14
  let I = inForce(pkger.current, pkger.disk)
  let W0 = world(fsys)
  requires *pkger.gil == 0 && I != nil
  modifies world(fsys), *pkger.gil, world(cb)
  ensures [Walk: results returned unchanged] err == Pk_Walk_err(I, p, wf, W0)
  ensures [Walk: carried out exactly once] world(fsys) == Pk_Walk_w(I, p, wf, W0) && *pkger.gil == 0

func pkger.Remove(p) (err)
  tags C14
  let I = inForce(pkger.current, pkger.disk)
  let W0 = world(fsys)
  requires *pkger.gil == 0 && I != nil
  modifies world(fsys), *pkger.gil
  ensures [Remove: results returned unchanged] err == Pk_Remove_err(I, p, W0)
  ensures [Remove: carried out exactly once] world(fsys) == Pk_Remove_w(I, p, W0) && *pkger.gil == 0

func pkger.RemoveAll(p) (err)
  tags C14
  let I = inForce(pkger.current, pkger.disk)
  let W0 = world(fsys)
  requires *pkger.gil == 0 && I != nil
  modifies world(fsys), *pkger.gil
  ensures [RemoveAll: results returned unchanged] err == Pk_RemoveAll_err(I, p, W0)
  ensures [RemoveAll: carried out exactly once] world(fsys) == Pk_RemoveAll_w(I, p, W0) && *pkger.gil == 0

func (pkger.Dir).Open(d, name) (f, err)
  tags C14
  let I = inForce(pkger.current, pkger.disk)
  let W0 = world(fsys)
  let e0 = Pk_Open_err(I, d, W0)
  let f0 = Pk_Open(I, d, W0)
  let W1 = Pk_Open_w(I, d, W0)
  requires *pkger.gil == 0 && I != nil
  requires [an open that succeeds gives a file] e0 == nil ==> f0 != nil
  modifies world(fsys), *pkger.gil
  ensures [Dir: a failed open is reported] e0 != nil ==> f == nil && err == e0 && world(fsys) == W1
  ensures [Dir: the name is opened through the directory handle] e0 == nil ==> f == File_Open(f0, name, W1) && err == File_Open_err(f0, name, W1) && world(fsys) == File_Open_w(f0, name, W1)

func pkger.Include(name) (r)
  tags C14
  ensures [Include returns its argument] r == name
