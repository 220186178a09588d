package oracle

import (
	"bytes"
	"compress/gzip"
	"encoding/hex"
	"io"
	"strings"
	"testing"

	"github.com/markbates/pkger/pkging/embed"
)

// reference decodes with the standard library
func reference(s []byte) ([]byte, error) {
	b, err := hex.DecodeString(string(s))
	if err != nil {
		return nil, err
	}
	r, err := gzip.NewReader(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	return io.ReadAll(r)
}

func short(b []byte) string {
	if len(b) > 60 {
		return string(b[:40]) + "..." + string(b[len(b)-10:])
	}
	return string(b)
}

func TestVerifC01(t *testing.T) {
	r := rng()
	gen := func(i int) []byte {
		n := []int{0, 1, 2, 3, 7, 100, 4095, 4096, 4097, 32768, 65535, 65536, 65537, 100000, 300000, 1 << 20, 1<<20 + 7}
		k := n[i%len(n)]
		if i >= 3*len(n) {
			k = r.Intn(5000)
		}
		b := make([]byte, k)
		switch i / len(n) % 3 {
		case 0:
			r.Read(b)
		case 1:
			for j := range b {
				b[j] = byte(j * j / 300)
			}
		}
		return b
	}
	check := func(c string, enc []byte) bool {
		want, werr := reference(enc)
		var got []byte
		var err error
		keep := append([]byte{}, enc...)
		if m := guard(func() { got, err = embed.Decode(enc) }); m != "" {
			fail(t, "%s: %s", c, m)
			return false
		}
		if (err == nil) != (werr == nil) {
			fail(t, "%s: Decode error %v, a complete decoder says %v", c, err, werr)
			return false
		}
		if err == nil && !bytes.Equal(got, want) {
			fail(t, "%s: Decode gives %d bytes, the payload holds %d", c, len(got), len(want))
			return false
		}
		if !bytes.Equal(keep, enc) {
			fail(t, "%s: Decode changed its input", c)
			return false
		}
		return true
	}
	var prev, prevData []byte
	for i := 0; i < budget(120, 600); i++ {
		in := gen(i)
		keep := append([]byte{}, in...)
		c := step("Encode of %d bytes (case %d, seed %s)", len(in), i, "VERIF_SEED")
		var enc []byte
		var err error
		if m := guard(func() { enc, err = embed.Encode(in) }); m != "" || err != nil {
			fail(t, "%s: %s %v", c, m, err)
			return
		}
		if strings.Trim(string(enc), "0123456789abcdef") != "" || !bytes.Equal(in, keep) {
			fail(t, "%s: not lower-case hexadecimal, or the input was changed: %s", c, short(enc))
			return
		}
		dec, err := embed.Decode(enc)
		if err != nil || !bytes.Equal(dec, in) {
			fail(t, "%s: decoding gives %d bytes, %v", c, len(dec), err)
			return
		}
		if want, err := reference(enc); err != nil || !bytes.Equal(want, in) {
			fail(t, "%s: the standard library does not decode it: %d bytes, %v", c, len(want), err)
			return
		}
		if prev != nil {
			if again, err := embed.Decode(prev); err != nil || !bytes.Equal(again, prevData) {
				fail(t, "%s: an earlier encoding changed", c)
				return
			}
		}
		prev, prevData = enc, in
		if len(enc) > 20000 {
			for k := 0; k < 6; k++ {
				n := []int{len(enc) - 2, len(enc) - 1, len(enc) - 16, len(enc) / 2 &^ 1, 40, len(enc) - 18}[k]
				if !check(step("%s, cut to %d of %d", c, n, len(enc)), enc[:n:n]) {
					return
				}
			}
			continue
		}
		for n := 0; n < len(enc); n += 1 + len(enc)/60 {
			if !check(step("%s, cut to %d of %d", c, n, len(enc)), enc[:n:n]) {
				return
			}
		}
		for k := 0; k < 60; k++ {
			m := append([]byte{}, enc...)
			p := r.Intn(len(m))
			if k < 16 {
				p = len(m) - 1 - k
			} else if k < 40 {
				p = (k - 16) % len(m)
			}
			m[p] = "0123456789abcdefABCDEFgx \n\x00"[r.Intn(27)]
			if !check(step("%s, byte %d set to %q", c, p, m[p]), m) {
				return
			}
		}
		var cat []byte
		cat = append(append(cat, enc...), enc...)
		for _, x := range [][]byte{cat, append(append([]byte{}, enc...), "00"...), append(append([]byte{}, enc...), '0'), append(append([]byte{}, enc...), "1f8b"...), []byte(strings.ToUpper(string(enc))), append([]byte{' '}, enc...), append(append([]byte{}, enc...), '\n'), append(append([]byte{}, enc...), "zz"...)} {
			if !check(step("%s, variant of %d bytes ending in %q", c, len(x), x[len(x)-3:]), x) {
				return
			}
		}
	}
	for _, s := range []string{"", "0", "00", "1f8b", "zz", "1f8b08", "1f8b0800000000000000", "hello"} {
		if !check(step("Decode of %q", s), []byte(s)) {
			return
		}
	}
}
