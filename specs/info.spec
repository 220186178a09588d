// Metadata snapshots.
dispatch fs.FileInfo: *pkging.FileInfo
opaque fs.FileInfo pure
fun FI_Name(any) string = "fs.FileInfo.Name.0"
fun FI_Size(any) int64 = "fs.FileInfo.Size.0"
fun FI_Mode(any) fs.FileMode = "fs.FileInfo.Mode.0"
fun FI_ModTime(any) time.Time = "fs.FileInfo.ModTime.0"
fun FI_IsDir(any) bool = "fs.FileInfo.IsDir.0"
fun FI_Sys(any) any = "fs.FileInfo.Sys.0"

// details is what any file metadata reports
define details(i any) pkging.Details = if i is *pkging.FileInfo then (i as *pkging.FileInfo).Details else mk pkging.Details{Name: FI_Name(i), Size: FI_Size(i), Mode: FI_Mode(i), ModTime: typed(pkging.ModTime, FI_ModTime(i)), IsDir: FI_IsDir(i), Sys: FI_Sys(i)}

func pkging.NewFileInfo(info) (r)
  tags C15
  requires info != nil && (info is *pkging.FileInfo ==> (info as *pkging.FileInfo) != nil)
  ensures [the snapshot reports what its source reports] r.Details == old(details(info))
  ensures [the snapshot is independent of its source] r != nil && fresh(r)

func (*pkging.FileInfo).Name(f) (r)
  tags C15
  ensures [Name] r == f.Details.Name
func (*pkging.FileInfo).Size(f) (r)
  tags C15
  ensures [Size] r == f.Details.Size
func (*pkging.FileInfo).Mode(f) (r)
  tags C15
  ensures [Mode] r == f.Details.Mode
func (*pkging.FileInfo).ModTime(f) (r)
  tags C15
  ensures [ModTime] r == f.Details.ModTime
func (*pkging.FileInfo).IsDir(f) (r)
  tags C15
  ensures [IsDir] r == f.Details.IsDir
func (*pkging.FileInfo).Sys(f) (r)
  tags C15
  ensures [Sys] r == f.Details.Sys

// Modification times as JSON
fun Format(time.Time, string) string = "(time.Time).Format"
fun jsonStr(string) string
fun jsonTime(string) time.Time
fun jsonTimeErr(string) any
fun instant(time.Time) int
fun regular(time.Time) bool

extern json.Marshal[string](v) (b, err)
  trust encoding/json: a string is always encoded
  ensures err == nil && bytes(b) == jsonStr(v) && fresh(b)

extern json.Unmarshal[*time.Time](data, v) (err)
  trust encoding/json, time: decoding a time is a function of the text
  modifies *v
  ensures err == jsonTimeErr(bytes(data)) && (err == nil ==> *v == jsonTime(bytes(data)))

axiom [RFC 3339 with nanoseconds is lossless for times of the years 0 to 9999 with a zone offset of whole minutes] forall t time.Time :: regular(t) ==> jsonTimeErr(jsonStr(Format(t, time.RFC3339Nano))) == nil && instant(jsonTime(jsonStr(Format(t, time.RFC3339Nano)))) == instant(t)

func (pkging.ModTime).MarshalJSON(m) (b, err)
  tags C15
  ensures [the instant is written with nanoseconds] err == nil && bytes(b) == jsonStr(Format(typed(time.Time, m), time.RFC3339Nano))

func (*pkging.ModTime).UnmarshalJSON(m, b) (err)
  tags C15
  modifies *m
  ensures [what was written is read back to the nanosecond] forall t time.Time :: regular(t) && old(bytes(b)) == jsonStr(Format(t, time.RFC3339Nano)) ==> err == nil && instant(typed(time.Time, *m)) == instant(t)
  ensures [an error is reported and changes nothing] jsonTimeErr(old(bytes(b))) != nil ==> err == jsonTimeErr(old(bytes(b))) && *m == old(*m)
