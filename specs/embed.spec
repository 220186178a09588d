// The payload codec and the library functions it is made of.
// A string stands for a sequence of bytes.
ghostfield gzip.Writer.under any
ghostfield gzip.Writer.data string
ghostfield gzip.Writer.base string
ghostfield gzip.Writer.out string
ghostfield gzip.Writer.closed bool
ghostfield gzip.Reader.stream string

fun hexOf(string) string
fun unhex(string) string
fun hexErr(string) any
fun lowerHex(string) bool
fun gunzip(string) string
fun gunzipErr(string) any
fun gzHeadErr(string) any

define wholeGzip(s string) bool = gzHeadErr(s) == nil && gunzipErr(s) == nil
define wholePayload(s string) bool = hexErr(s) == nil && wholeGzip(unhex(s))

axiom [hexadecimal encoding is lossless and lower case] forall s string {hexOf(s)} :: hexErr(hexOf(s)) == nil && unhex(hexOf(s)) == s && lowerHex(hexOf(s)) && len(hexOf(s)) == 2 * len(s)
axiom [decoded hexadecimal data is half as long] forall s string {unhex(s)} :: hexErr(s) == nil ==> 2 * len(unhex(s)) == len(s)

extern hex.DecodedLen(x) (r)
  trust encoding/hex
  ensures 2 * r <= x && x < 2 * r + 2
extern hex.EncodedLen(n) (r)
  trust encoding/hex
  ensures r == 2 * n
extern hex.Decode(dst, src) (n, err)
  trust encoding/hex: an error for anything but pairs of hexadecimal digits
  requires [the destination is large enough] 2 * len(dst) + 1 >= len(src)
  modifies bytes(dst)
  ensures err == hexErr(old(bytes(src))) && len(bytes(dst)) == len(dst)
  ensures err == nil ==> 2 * n == len(src) && prefix(unhex(old(bytes(src))), bytes(dst))
extern hex.DecodeString(s) (r, err)
  trust encoding/hex
  ensures err == hexErr(s) && fresh(r)
  ensures err == nil ==> bytes(r) == unhex(s)
extern hex.EncodeToString(src) (r)
  trust encoding/hex
  ensures r == hexOf(bytes(src))
extern hex.Encode(dst, src) (n)
  trust encoding/hex
  requires [the destination is large enough] len(dst) >= 2 * len(src)
  modifies bytes(dst)
  ensures n == 2 * len(src) && len(bytes(dst)) == len(dst) && prefix(hexOf(old(bytes(src))), bytes(dst))

extern gzip.NewWriter[*bytes.Buffer](w) (z)
  trust compress/gzip
  ensures fresh(z) && z != nil && z.under == box(w) && z.data == "" && z.base == *w && z.out == *w && !z.closed
extern gzip.NewWriterLevel[*bytes.Buffer](w, level) (z, err)
  trust compress/gzip
  ensures -2 <= level && level <= 9 ==> err == nil && fresh(z) && z != nil && z.under == box(w) && z.data == "" && z.base == *w && z.out == *w && !z.closed
extern (*gzip.Writer).Write(z, p) (n, err)
  trust compress/gzip: into a bytes.Buffer, writing cannot fail
  requires [the writer works on a buffer nobody else writes to] z.under is *bytes.Buffer && *(z.under as *bytes.Buffer) == z.out && !z.closed
  modifies z.data, z.out, *(z.under as *bytes.Buffer)
  ensures err == nil && n == len(p) && z.data == old(z.data) + bytes(p) && z.out == *(z.under as *bytes.Buffer)
extern (*gzip.Writer).Flush(z) (err)
  trust compress/gzip: into a bytes.Buffer, writing cannot fail
  requires [the writer works on a buffer nobody else writes to] z.under is *bytes.Buffer && *(z.under as *bytes.Buffer) == z.out && !z.closed
  modifies z.out, *(z.under as *bytes.Buffer)
  ensures err == nil && z.out == *(z.under as *bytes.Buffer)
extern (*gzip.Writer).Close(z) (err)
  trust compress/gzip: closing completes the stream; into a bytes.Buffer, writing cannot fail
  requires [the writer works on a buffer nobody else writes to] z.under is *bytes.Buffer && *(z.under as *bytes.Buffer) == z.out
  modifies z.out, z.closed, *(z.under as *bytes.Buffer)
  ensures err == nil && z.closed && z.out == *(z.under as *bytes.Buffer)
  ensures old(z.closed) ==> z.out == old(z.out)
  ensures !old(z.closed) && z.base == "" ==> wholeGzip(z.out) && gunzip(z.out) == z.data

extern gzip.NewReader[*bytes.Reader](r) (z, err)
  trust compress/gzip
  modifies *r
  ensures err == gzHeadErr(old(substr(r.content, r.pos, len(r.content) - r.pos)))
  ensures err == nil ==> fresh(z) && z != nil && z.stream == old(substr(r.content, r.pos, len(r.content) - r.pos))
extern gzip.NewReader[*bytes.Buffer](r) (z, err)
  trust compress/gzip
  modifies *r
  ensures err == gzHeadErr(old(*r))
  ensures err == nil ==> fresh(z) && z != nil && z.stream == old(*r)
extern (*gzip.Reader).Close(z) (err)
  trust compress/gzip
extern io.Copy[*bytes.Buffer,*gzip.Reader](dst, src) (n, err)
  trust io, compress/gzip: everything up to the end of the stream, or the error met; the error is nil exactly for a complete stream
  requires src != nil
  modifies *dst, src.stream
  ensures err == gunzipErr(old(src.stream))
  ensures err == nil ==> *dst == old(*dst) + gunzip(old(src.stream))
extern (*bytes.Buffer).ReadFrom[*gzip.Reader](dst, src) (n, err)
  trust io, compress/gzip
  requires src != nil
  modifies *dst, src.stream
  ensures err == gunzipErr(old(src.stream))
  ensures err == nil ==> *dst == old(*dst) + gunzip(old(src.stream))
extern io.ReadAll[*gzip.Reader](src) (b, err)
  trust io, compress/gzip
  requires src != nil
  modifies src.stream
  ensures err == gunzipErr(old(src.stream)) && fresh(b)
  ensures err == nil ==> bytes(b) == gunzip(old(src.stream))
extern ioutil.ReadAll[*gzip.Reader](src) (b, err)
  trust io, compress/gzip
  requires src != nil
  modifies src.stream
  ensures err == gunzipErr(old(src.stream)) && fresh(b)
  ensures err == nil ==> bytes(b) == gunzip(old(src.stream))

func embed.Encode(b) (r, err)
  tags C01, C03
  ensures [the encoded form is complete and well formed] err == nil && wholePayload(bytes(r))
  ensures [decoding yields the bytes that were encoded] gunzip(unhex(bytes(r))) == old(bytes(b))
  ensures [lower-case hexadecimal digits only] lowerHex(bytes(r))

func embed.Decode(src) (r, err)
  tags C01
  ensures [success only for a complete, well-formed encoding] err == nil <==> wholePayload(old(bytes(src)))
  ensures [all of the data it holds] err == nil ==> bytes(r) == gunzip(unhex(old(bytes(src))))
