// Shared tables (internal/maps).
guard maps.Files.data once maps.Files.once
guard maps.Infos.data once maps.Infos.once

define pathStr(p gh.Path) = (if p.Pkg == "" then "" else p.Pkg + ":") + (if p.Name == "" then "/" else p.Name)
// the printed form, as it is
fun keyOf(gh.Path) string
extern (gh.Path).String(p) (r)
  trust gobuffalo/here: package and name separated by a colon
  ensures r == keyOf(p)
  ensures r == pathStr(p)

// the content of a table; the table under the zero value is empty
define fcontent(m *maps.Files) = if m.data == nil then emptymap(any) else *m.data
define icontent(m *maps.Infos) = if m.data == nil then emptymap(any) else *m.data
define filesOk(m *maps.Files) bool = (m.once ==> m.data != nil) && (forall k any {fcontent(m)[k]} :: fcontent(m)[k] != absent ==> k is gh.Path && fcontent(m)[k] != nil && implements(fcontent(m)[k], pkging.File))
define infosOk(m *maps.Infos) bool = (m.once ==> m.data != nil) && (forall k any {icontent(m)[k]} :: icontent(m)[k] != absent ==> k is string && icontent(m)[k] is gh.Info)

func (*maps.Files).Data(m) (r)
  tags C19
  requires m.once ==> m.data != nil
  modifies m.data, m.once when !m.once
  ensures [there is one underlying map] r != nil && r == m.data && m.once
  ensures [it is never replaced] old(m.data) != nil ==> r == old(m.data)
  ensures [a new one is empty] old(m.data) == nil ==> fresh(r) && *r == emptymap(any)
  ensures [the content stays] fcontent(m) == old(fcontent(m))
func (*maps.Infos).Data(m) (r)
  tags C19
  requires m.once ==> m.data != nil
  modifies m.data, m.once when !m.once
  ensures [there is one underlying map] r != nil && r == m.data && m.once
  ensures [it is never replaced] old(m.data) != nil ==> r == old(m.data)
  ensures [a new one is empty] old(m.data) == nil ==> fresh(r) && *r == emptymap(any)
  ensures [the content stays] icontent(m) == old(icontent(m))

func (*maps.Files).Store(m, key, value)
  tags C19
  requires m.once ==> m.data != nil
  modifies m.data, m.once when !m.once
  modifies *m.data
  ensures [Store acts on exactly the given key] fcontent(m) == upd(old(fcontent(m)), key, value)
  ensures [the underlying map is never replaced] m.once && m.data != nil && (old(m.data) == nil && fresh(m.data) || m.data == old(m.data))
func (*maps.Files).Delete(m, key)
  tags C19
  requires m.once ==> m.data != nil
  modifies m.data, m.once when !m.once
  modifies *m.data
  ensures [Delete acts on exactly the given key] fcontent(m) == upd(old(fcontent(m)), key, absent)
  ensures [the underlying map is never replaced] m.once && m.data != nil && (old(m.data) == nil && fresh(m.data) || m.data == old(m.data))
func (*maps.Files).Load(m, key) (v, ok)
  tags C19
  requires m.once ==> m.data != nil
  modifies m.data, m.once when !m.once
  ensures [Load finds exactly what is stored under the key] ok <==> (fcontent(m)[key] != absent && implements(fcontent(m)[key], pkging.File))
  ensures [Load gives what is stored] ok ==> v == fcontent(m)[key]
  ensures [nothing without success] !ok ==> v == nil
  ensures [the content stays] fcontent(m) == old(fcontent(m))
  ensures [the underlying map is never replaced] m.once && m.data != nil && (old(m.data) == nil && fresh(m.data) || m.data == old(m.data))
func (*maps.Files).Range(m, f)
  tags C19
  requires filesOk(m) && f != nil
  modifies m.data, m.once when !m.once
  modifies world(cb)
  ensures [the content stays] fcontent(m) == old(fcontent(m))
  ensures [the underlying map is never replaced] m.once && m.data != nil && (old(m.data) == nil && fresh(m.data) || m.data == old(m.data))
  iter Range
    invariant [no callback before the first entry] $n == 0 ==> world(cb) == old(world(cb))
    step [every entry gets one callback, which tells to stop or go on] world(cb) == FilesCb_w(f, $key as gh.Path, $val, old(world(cb))) && $cont == FilesCb(f, $key as gh.Path, $val, old(world(cb)))
fun FilesCb(ref, gh.Path, any, World) bool = "fn:func(gh.Path,pkging.File,->bool).0"
fun FilesCb_w(ref, gh.Path, any, World) World = "fn:func(gh.Path,pkging.File,->bool).w"
func (*maps.Files).Keys(m) (keys)
  tags C19
  requires filesOk(m)
  modifies m.data, m.once when !m.once
  ensures [only keys of the table] forall i int {keys[i]} :: 0 <= i && i < len(keys) ==> fcontent(m)[keys[i]] != absent
  ensures [all keys of the table] forall k gh.Path {fcontent(m)[box(k)]} :: fcontent(m)[box(k)] != absent ==> exists i int :: 0 <= i && i < len(keys) && keys[i] == k
  ensures [each key once] forall i int, j int {keys[i], keys[j]} :: 0 <= i && i < j && j < len(keys) ==> keys[i] != keys[j]
  ensures [ascending order] forall i int, j int {keys[i], keys[j]} :: 0 <= i && i < j && j < len(keys) ==> pathStr(keys[i]) <= pathStr(keys[j])
  ensures [the content stays] fcontent(m) == old(fcontent(m))
  ensures [the underlying map is never replaced] m.once && m.data != nil && (old(m.data) == nil && fresh(m.data) || m.data == old(m.data))
  iter Range
    bind keys []gh.Path
    invariant [the collected keys are the visited ones] forall k gh.Path {$visited[box(k)]} :: $visited[box(k)] <==> exists i int :: 0 <= i && i < len(keys) && keys[i] == k
    invariant [each once] forall i int, j int {keys[i], keys[j]} :: 0 <= i && i < j && j < len(keys) ==> keys[i] != keys[j]
    invariant [visited ones are stored] forall i int {keys[i]} :: 0 <= i && i < len(keys) ==> fcontent(m)[keys[i]] != absent
    invariant [own storage] ref(keys) == 0 || fresh(keys)
func (*maps.Infos).Store(m, key, value)
  tags C19
  requires m.once ==> m.data != nil
  modifies m.data, m.once when !m.once
  modifies *m.data
  ensures [Store acts on exactly the given key] icontent(m) == upd(old(icontent(m)), key, value)
  ensures [the underlying map is never replaced] m.once && m.data != nil && (old(m.data) == nil && fresh(m.data) || m.data == old(m.data))
func (*maps.Infos).Delete(m, key)
  tags C19
  requires m.once ==> m.data != nil
  modifies m.data, m.once when !m.once
  modifies *m.data
  ensures [Delete acts on exactly the given key] icontent(m) == upd(old(icontent(m)), key, absent)
  ensures [the underlying map is never replaced] m.once && m.data != nil && (old(m.data) == nil && fresh(m.data) || m.data == old(m.data))
func (*maps.Infos).Load(m, key) (v, ok)
  tags C19
  requires m.once ==> m.data != nil
  modifies m.data, m.once when !m.once
  ensures [Load finds exactly what is stored under the key] ok <==> (icontent(m)[key] != absent && icontent(m)[key] is gh.Info)
  ensures [Load gives what is stored] ok ==> box(v) == icontent(m)[key]
  ensures [nothing without success] !ok ==> v == zero(gh.Info)
  ensures [the content stays] icontent(m) == old(icontent(m))
  ensures [the underlying map is never replaced] m.once && m.data != nil && (old(m.data) == nil && fresh(m.data) || m.data == old(m.data))
func (*maps.Infos).Range(m, f)
  tags C19
  requires infosOk(m) && f != nil
  modifies m.data, m.once when !m.once
  modifies world(cb)
  ensures [the content stays] icontent(m) == old(icontent(m))
  ensures [the underlying map is never replaced] m.once && m.data != nil && (old(m.data) == nil && fresh(m.data) || m.data == old(m.data))
  iter Range
    invariant [no callback before the first entry] $n == 0 ==> world(cb) == old(world(cb))
    step [every entry gets one callback, which tells to stop or go on] world(cb) == InfosCb_w(f, $key as string, $val as gh.Info, old(world(cb))) && $cont == InfosCb(f, $key as string, $val as gh.Info, old(world(cb)))
func (*maps.Infos).Keys(m) (keys)
  tags C19
  requires infosOk(m)
  modifies m.data, m.once when !m.once
  ensures [only keys of the table] forall i int {keys[i]} :: 0 <= i && i < len(keys) ==> icontent(m)[keys[i]] != absent
  ensures [all keys of the table] forall k string {icontent(m)[box(k)]} :: icontent(m)[box(k)] != absent ==> exists i int :: 0 <= i && i < len(keys) && keys[i] == k
  ensures [each key once] forall i int, j int {keys[i], keys[j]} :: 0 <= i && i < j && j < len(keys) ==> keys[i] != keys[j]
  ensures [ascending order] forall i int, j int {keys[i], keys[j]} :: 0 <= i && i < j && j < len(keys) ==> keys[i] <= keys[j]
  ensures [the content stays] icontent(m) == old(icontent(m))
  ensures [the underlying map is never replaced] m.once && m.data != nil && (old(m.data) == nil && fresh(m.data) || m.data == old(m.data))
  iter Range
    bind keys []string
    invariant [the collected keys are the visited ones] forall k string {$visited[box(k)]} :: $visited[box(k)] <==> exists i int :: 0 <= i && i < len(keys) && keys[i] == k
    invariant [each once] forall i int, j int {keys[i], keys[j]} :: 0 <= i && i < j && j < len(keys) ==> keys[i] != keys[j]
    invariant [visited ones are stored] forall i int {keys[i]} :: 0 <= i && i < len(keys) ==> icontent(m)[keys[i]] != absent
    invariant [own storage] ref(keys) == 0 || fresh(keys)
fun InfosCb(ref, string, gh.Info, World) bool = "fn:func(string,gh.Info,->bool).0"
fun InfosCb_w(ref, string, gh.Info, World) World = "fn:func(string,gh.Info,->bool).w"
