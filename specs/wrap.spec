// The layered implementation (pkging.Wrap) and the opaque interface it works on.
import gh "github.com/gobuffalo/here"
opaque pkging.Pkger world fsys
opaque pkging.File world fsys
opaque http.File world fsys
opaque filepath.WalkFunc world cb

fun Pk_Parse(any, string, World) gh.Path = "pkging.Pkger.Parse.0"
fun Pk_Parse_err(any, string, World) any = "pkging.Pkger.Parse.1"
fun Pk_Parse_w(any, string, World) World = "pkging.Pkger.Parse.w"
fun Pk_Current(any, World) gh.Info = "pkging.Pkger.Current.0"
fun Pk_Current_err(any, World) any = "pkging.Pkger.Current.1"
fun Pk_Current_w(any, World) World = "pkging.Pkger.Current.w"
fun Pk_Info(any, string, World) gh.Info = "pkging.Pkger.Info.0"
fun Pk_Info_err(any, string, World) any = "pkging.Pkger.Info.1"
fun Pk_Info_w(any, string, World) World = "pkging.Pkger.Info.w"
fun Pk_Create(any, string, World) pkging.File = "pkging.Pkger.Create.0"
fun Pk_Create_err(any, string, World) any = "pkging.Pkger.Create.1"
fun Pk_Create_w(any, string, World) World = "pkging.Pkger.Create.w"
fun Pk_Open(any, string, World) pkging.File = "pkging.Pkger.Open.0"
fun Pk_Open_err(any, string, World) any = "pkging.Pkger.Open.1"
fun Pk_Open_w(any, string, World) World = "pkging.Pkger.Open.w"
fun Pk_Stat(any, string, World) fs.FileInfo = "pkging.Pkger.Stat.0"
fun Pk_Stat_err(any, string, World) any = "pkging.Pkger.Stat.1"
fun Pk_Stat_w(any, string, World) World = "pkging.Pkger.Stat.w"
fun Pk_MkdirAll_err(any, string, fs.FileMode, World) any = "pkging.Pkger.MkdirAll.0"
fun Pk_MkdirAll_w(any, string, fs.FileMode, World) World = "pkging.Pkger.MkdirAll.w"
fun Pk_Walk_err(any, string, filepath.WalkFunc, World) any = "pkging.Pkger.Walk.0"
fun Pk_Walk_w(any, string, filepath.WalkFunc, World) World = "pkging.Pkger.Walk.w"
fun Pk_Remove_err(any, string, World) any = "pkging.Pkger.Remove.0"
fun Pk_Remove_w(any, string, World) World = "pkging.Pkger.Remove.w"
fun Pk_RemoveAll_err(any, string, World) any = "pkging.Pkger.RemoveAll.0"
fun Pk_RemoveAll_w(any, string, World) World = "pkging.Pkger.RemoveAll.w"
fun File_Open(any, string, World) http.File = "pkging.File.Open.0"
fun File_Open_err(any, string, World) any = "pkging.File.Open.1"
fun File_Open_w(any, string, World) World = "pkging.File.Open.w"

func pkging.Wrap(parent, with) (r)
  tags C13, C14
  ensures [the new implementation is layered over the old one] r == box(mk pkging.withPkger{base: with, parent: parent})

func (pkging.withPkger).Parse(w, p) (pt, err)
  tags C13
  requires w.base != nil
  let W0 = world(fsys)
  let e0 = Pk_Parse_err(w.base, p, W0)
  let W1 = Pk_Parse_w(w.base, p, W0)
  modifies world(fsys)
  ensures [Parse: the upper result if it succeeds] e0 == nil ==> err == nil && pt == Pk_Parse(w.base, p, W0)
  ensures [Parse: the lower layer is consulted only when the upper one fails] e0 == nil ==> world(fsys) == W1
  ensures [Parse: otherwise exactly the lower result] e0 != nil && w.parent != nil ==> pt == Pk_Parse(w.parent, p, W1) && err == Pk_Parse_err(w.parent, p, W1) && world(fsys) == Pk_Parse_w(w.parent, p, W1)
  ensures [Parse: no lower layer] e0 != nil && w.parent == nil ==> pt == Pk_Parse(w.base, p, W0) && err == e0 && world(fsys) == W1

func (pkging.withPkger).Current(w) (pt, err)
  tags C13
  requires w.base != nil
  let W0 = world(fsys)
  let e0 = Pk_Current_err(w.base, W0)
  let W1 = Pk_Current_w(w.base, W0)
  modifies world(fsys)
  ensures [Current: the upper result if it succeeds] e0 == nil ==> err == nil && pt == Pk_Current(w.base, W0)
  ensures [Current: the lower layer is consulted only when the upper one fails] e0 == nil ==> world(fsys) == W1
  ensures [Current: otherwise exactly the lower result] e0 != nil && w.parent != nil ==> pt == Pk_Current(w.parent, W1) && err == Pk_Current_err(w.parent, W1) && world(fsys) == Pk_Current_w(w.parent, W1)
  ensures [Current: no lower layer] e0 != nil && w.parent == nil ==> pt == Pk_Current(w.base, W0) && err == e0 && world(fsys) == W1

func (pkging.withPkger).Info(w, p) (pt, err)
  tags C13
  requires w.base != nil
  let W0 = world(fsys)
  let e0 = Pk_Info_err(w.base, p, W0)
  let W1 = Pk_Info_w(w.base, p, W0)
  modifies world(fsys)
  ensures [Info: the upper result if it succeeds] e0 == nil ==> err == nil && pt == Pk_Info(w.base, p, W0)
  ensures [Info: the lower layer is consulted only when the upper one fails] e0 == nil ==> world(fsys) == W1
  ensures [Info: otherwise exactly the lower result] e0 != nil && w.parent != nil ==> pt == Pk_Info(w.parent, p, W1) && err == Pk_Info_err(w.parent, p, W1) && world(fsys) == Pk_Info_w(w.parent, p, W1)
  ensures [Info: no lower layer] e0 != nil && w.parent == nil ==> pt == Pk_Info(w.base, p, W0) && err == e0 && world(fsys) == W1

func (pkging.withPkger).Create(w, p) (pt, err)
  tags C13
  requires w.base != nil
  let W0 = world(fsys)
  let e0 = Pk_Create_err(w.base, p, W0)
  let W1 = Pk_Create_w(w.base, p, W0)
  modifies world(fsys)
  ensures [Create: the upper result if it succeeds] e0 == nil ==> err == nil && pt == Pk_Create(w.base, p, W0)
  ensures [Create: the lower layer is consulted only when the upper one fails] e0 == nil ==> world(fsys) == W1
  ensures [Create: otherwise exactly the lower result] e0 != nil && w.parent != nil ==> pt == Pk_Create(w.parent, p, W1) && err == Pk_Create_err(w.parent, p, W1) && world(fsys) == Pk_Create_w(w.parent, p, W1)
  ensures [Create: no lower layer] e0 != nil && w.parent == nil ==> pt == Pk_Create(w.base, p, W0) && err == e0 && world(fsys) == W1

func (pkging.withPkger).Open(w, p) (pt, err)
  tags C13
  requires w.base != nil
  let W0 = world(fsys)
  let e0 = Pk_Open_err(w.base, p, W0)
  let W1 = Pk_Open_w(w.base, p, W0)
  modifies world(fsys)
  ensures [Open: the upper result if it succeeds] e0 == nil ==> err == nil && pt == Pk_Open(w.base, p, W0)
  ensures [Open: the lower layer is consulted only when the upper one fails] e0 == nil ==> world(fsys) == W1
  ensures [Open: otherwise exactly the lower result] e0 != nil && w.parent != nil ==> pt == Pk_Open(w.parent, p, W1) && err == Pk_Open_err(w.parent, p, W1) && world(fsys) == Pk_Open_w(w.parent, p, W1)
  ensures [Open: no lower layer] e0 != nil && w.parent == nil ==> pt == Pk_Open(w.base, p, W0) && err == e0 && world(fsys) == W1

func (pkging.withPkger).Stat(w, p) (pt, err)
  tags C13
  requires w.base != nil
  let W0 = world(fsys)
  let e0 = Pk_Stat_err(w.base, p, W0)
  let W1 = Pk_Stat_w(w.base, p, W0)
  modifies world(fsys)
  ensures [Stat: the upper result if it succeeds] e0 == nil ==> err == nil && pt == Pk_Stat(w.base, p, W0)
  ensures [Stat: the lower layer is consulted only when the upper one fails] e0 == nil ==> world(fsys) == W1
  ensures [Stat: otherwise exactly the lower result] e0 != nil && w.parent != nil ==> pt == Pk_Stat(w.parent, p, W1) && err == Pk_Stat_err(w.parent, p, W1) && world(fsys) == Pk_Stat_w(w.parent, p, W1)
  ensures [Stat: no lower layer] e0 != nil && w.parent == nil ==> pt == Pk_Stat(w.base, p, W0) && err == e0 && world(fsys) == W1

func (pkging.withPkger).MkdirAll(w, p, perm) (err)
  tags C13
  requires w.base != nil
  let W0 = world(fsys)
  let e0 = Pk_MkdirAll_err(w.base, p, perm, W0)
  let W1 = Pk_MkdirAll_w(w.base, p, perm, W0)
  modifies world(fsys)
  ensures [MkdirAll: the first error stops and is returned] e0 != nil ==> err == e0 && world(fsys) == W1
  ensures [MkdirAll: then applied to the lower layer] e0 == nil && w.parent != nil ==> err == Pk_MkdirAll_err(w.parent, p, perm, W1) && world(fsys) == Pk_MkdirAll_w(w.parent, p, perm, W1)
  ensures [MkdirAll: no lower layer] e0 == nil && w.parent == nil ==> err == nil && world(fsys) == W1

func (pkging.withPkger).Walk(w, p, wf) (err)
  tags C13
  requires w.base != nil
  let W0 = world(fsys)
  let e0 = Pk_Walk_err(w.base, p, wf, W0)
  let W1 = Pk_Walk_w(w.base, p, wf, W0)
  modifies world(fsys), world(cb)
  ensures [Walk: the first error stops and is returned] e0 != nil ==> err == e0 && world(fsys) == W1
  ensures [Walk: then applied to the lower layer] e0 == nil && w.parent != nil ==> err == Pk_Walk_err(w.parent, p, wf, W1) && world(fsys) == Pk_Walk_w(w.parent, p, wf, W1)
  ensures [Walk: no lower layer] e0 == nil && w.parent == nil ==> err == nil && world(fsys) == W1

func (pkging.withPkger).Remove(w, p) (err)
  tags C13
  requires w.base != nil
  let W0 = world(fsys)
  let e0 = Pk_Remove_err(w.base, p, W0)
  let W1 = Pk_Remove_w(w.base, p, W0)
  modifies world(fsys)
  ensures [Remove: the first error stops and is returned] e0 != nil ==> err == e0 && world(fsys) == W1
  ensures [Remove: then applied to the lower layer] e0 == nil && w.parent != nil ==> err == Pk_Remove_err(w.parent, p, W1) && world(fsys) == Pk_Remove_w(w.parent, p, W1)
  ensures [Remove: no lower layer] e0 == nil && w.parent == nil ==> err == nil && world(fsys) == W1

func (pkging.withPkger).RemoveAll(w, p) (err)
  tags C13
  requires w.base != nil
  let W0 = world(fsys)
  let e0 = Pk_RemoveAll_err(w.base, p, W0)
  let W1 = Pk_RemoveAll_w(w.base, p, W0)
  modifies world(fsys)
  ensures [RemoveAll: the first error stops and is returned] e0 != nil ==> err == e0 && world(fsys) == W1
  ensures [RemoveAll: then applied to the lower layer] e0 == nil && w.parent != nil ==> err == Pk_RemoveAll_err(w.parent, p, W1) && world(fsys) == Pk_RemoveAll_w(w.parent, p, W1)
  ensures [RemoveAll: no lower layer] e0 == nil && w.parent == nil ==> err == nil && world(fsys) == W1
