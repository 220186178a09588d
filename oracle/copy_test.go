package oracle

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"sort"

	"github.com/markbates/pkger/pkging/mem"
)

// onDisk is what a copy has to look like
type onDisk struct {
	fi   os.FileInfo
	data []byte
}

// contents of a filesystem in memory
func contents(fs *mem.Pkger) (map[string]onDisk, string) {
	r := map[string]onDisk{}
	var bad string
	b, err := fs.MarshalJSON()
	if err != nil {
		return nil, "MarshalJSON: " + err.Error()
	}
	var d struct {
		Files map[string]json.RawMessage `json:"files"`
	}
	if err := json.Unmarshal(b, &d); err != nil {
		return nil, "the encoding can't be read: " + err.Error()
	}
	for k := range d.Files {
		f, err := fs.Open(k)
		if err != nil {
			return nil, fmt.Sprintf("Open(%q): %v", k, err)
		}
		fi, err := f.Stat()
		if err != nil {
			return nil, fmt.Sprintf("Stat of %q: %v", k, err)
		}
		e := onDisk{fi: fi}
		if !fi.IsDir() {
			e.data, err = ioutil.ReadAll(f)
			if err != nil {
				bad = fmt.Sprintf("reading %q: %v", k, err)
			}
		}
		f.Close()
		r[k] = e
	}
	return r, bad
}

func differs(got map[string]onDisk, want map[string]onDisk) string {
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("there is %q", k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		g, ok := got[k]
		w := want[k]
		if !ok {
			return fmt.Sprintf("there is no %q", k)
		}
		if !bytes.Equal(g.data, w.data) {
			return fmt.Sprintf("%q has %d bytes %.60q, want %d bytes %.60q", k, len(g.data), g.data, len(w.data), w.data)
		}
		if d := sameInfo(g.fi, w.fi, false); d != "" {
			return fmt.Sprintf("%q: %s", k, d)
		}
	}
	return ""
}
