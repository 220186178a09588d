package oracle

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"testing"
	"time"

	"github.com/markbates/pkger/pkging"
)

type info struct {
	name string
	size int64
	mode os.FileMode
	mod  time.Time
	dir  bool
	sys  interface{}
}

func (i *info) Name() string       { return i.name }
func (i *info) Size() int64        { return i.size }
func (i *info) Mode() os.FileMode  { return i.mode }
func (i *info) ModTime() time.Time { return i.mod }
func (i *info) IsDir() bool        { return i.dir }
func (i *info) Sys() interface{}   { return i.sys }

func sameInfo(a, b os.FileInfo) string {
	x := []interface{}{a.Name(), a.Size(), a.Mode(), a.ModTime(), a.IsDir(), a.Sys()}
	y := []interface{}{b.Name(), b.Size(), b.Mode(), b.ModTime(), b.IsDir(), b.Sys()}
	n := []string{"name", "size", "mode", "modification time", "directory flag", "system value"}
	for i := range x {
		if !reflect.DeepEqual(x[i], y[i]) {
			return fmt.Sprintf("%s %v, want %v", n[i], x[i], y[i])
		}
	}
	return ""
}

func TestVerifC15(t *testing.T) {
	r := rng()
	names := []string{"", "a", "/a/b.txt", "a\\b", ".", "..", "x y", "\xff", "ä", "a//b", "/", "m:/x"}
	sizes := []int64{0, 1, -1, 4096, 4097, 1 << 31, 1<<32 + 1, math.MaxInt64, math.MinInt64}
	modes := []os.FileMode{0, 0644, 0755, 0777, os.ModeDir, os.ModeDir | 0755, os.ModeSymlink | 0777, os.ModeSetuid | 0755, os.ModeSticky | os.ModeDir | 0777, os.ModeNamedPipe, os.ModeDevice | os.ModeCharDevice, os.ModeIrregular, math.MaxUint32}
	zones := []*time.Location{time.UTC, time.FixedZone("a", 3600), time.FixedZone("b", -5*3600-1800), time.FixedZone("c", 14*3600)}
	times := []time.Time{{}, time.Unix(0, 0).UTC(), time.Unix(1, 1).UTC(), time.Unix(1e9, 999999999).UTC(), time.Now(), time.Date(9999, 12, 31, 23, 59, 59, 999999999, time.UTC), time.Date(2000, 2, 29, 0, 0, 0, 100, zones[1])}
	syss := []interface{}{nil, 1, "x", &struct{ A int }{3}, []byte("q")}
	for i := 0; i < budget(3000, 40000); i++ {
		tm := times[r.Intn(len(times))]
		if i%2 == 0 {
			tm = time.Unix(r.Int63n(200e9)-30e9, r.Int63n(1e9)).In(zones[r.Intn(len(zones))])
		}
		src := &info{names[r.Intn(len(names))], sizes[r.Intn(len(sizes))], modes[r.Intn(len(modes))], tm, r.Intn(2) == 0, syss[r.Intn(len(syss))]}
		c := step("snapshot of %+v", *src)
		keep := *src
		if m := guard(func() {
			s := pkging.NewFileInfo(src)
			*src = info{"changed", 77, 1, time.Unix(7, 7), !src.dir, "other"}
			if d := sameInfo(s, &keep); d != "" {
				fail(t, "%s: %s", c, d)
			}
			s2 := pkging.NewFileInfo(s)
			s.Details = pkging.Details{Name: "changed", Size: 5}
			if d := sameInfo(s2, &keep); d != "" {
				fail(t, "%s: second snapshot: %s", c, d)
			}
		}); m != "" {
			fail(t, "%s: %s", c, m)
		}
		if y := tm.UTC().Year(); y < 1 || y > 9998 {
			continue
		}
		c = step("JSON round trip of %s", tm.Format(time.RFC3339Nano))
		b, err := json.Marshal(pkging.ModTime(tm))
		var back pkging.ModTime
		if err == nil {
			err = json.Unmarshal(b, &back)
		}
		if err != nil || !time.Time(back).Equal(tm) {
			fail(t, "%s: gives %s (%v, %s)", c, time.Time(back).Format(time.RFC3339Nano), err, b)
		}
		if t.Failed() {
			return
		}
	}
	for _, b := range []string{`""`, `1`, `"x"`, `{}`, `[`, `"2020-13-01T00:00:00Z"`, `"2020-01-01"`} {
		c := step("decoding %s", b)
		at := pkging.ModTime(time.Unix(5, 6))
		if err := (&at).UnmarshalJSON([]byte(b)); err == nil || !time.Time(at).Equal(time.Unix(5, 6)) {
			fail(t, "%s: error %v, value %v", c, err, time.Time(at))
		}
	}
	// a file and a directory on disk
	d := os.Getenv("VERIF_SCRATCH")
	os.WriteFile(filepath.Join(d, "f"), []byte("12345"), 0640)
	for _, n := range []string{"f", ""} {
		fi, err := os.Stat(filepath.Join(d, n))
		if err != nil {
			t.Fatal(err)
		}
		c := step("snapshot of a %v on disk", fi.Mode())
		if x := sameInfo(pkging.NewFileInfo(fi), fi); x != "" {
			fail(t, "%s: %s", c, x)
		}
	}
}
