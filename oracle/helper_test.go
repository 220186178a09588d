package oracle

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"time"
)

var (
	cases    int
	failing  bool
	started  = time.Now()
	caseFile *os.File
)

// step records the case that is being executed.  When the time is up the run
// ends with what it has found so far: it is bounded by time, too.
func step(f string, a ...interface{}) string {
	s := fmt.Sprintf(f, a...)
	cases++
	if p := os.Getenv("VERIF_CASE"); p != "" {
		if caseFile == nil {
			caseFile, _ = os.Create(p)
		}
		caseFile.Truncate(0)
		caseFile.WriteAt([]byte(s), 0)
	}
	if cases%16 == 0 {
		if n, _ := strconv.Atoi(os.Getenv("VERIF_SOFT")); n > 0 && time.Since(started) > time.Duration(n)*time.Second {
			fmt.Printf("CASES: %d\nthe time is up\n", cases)
			if failing {
				os.Exit(1)
			}
			os.Exit(0)
		}
	}
	return s
}

func fail(t *testing.T, f string, a ...interface{}) {
	t.Helper()
	failing = true
	t.Errorf("FAILING-INPUT: "+f, a...)
}

func rng() *rand.Rand {
	n, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	return rand.New(rand.NewSource(n))
}

func long() bool { return os.Getenv("VERIF_LONG") != "" }

func budget(short, lng int) int {
	if long() {
		return lng
	}
	return short
}

// guard turns a panic into an error text
func guard(f func()) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			msg = fmt.Sprintf("panic: %v", e)
		}
	}()
	f()
	return ""
}

func TestMain(m *testing.M) {
	c := m.Run()
	fmt.Printf("CASES: %d\n", cases)
	os.Exit(c)
}

// dict are the string constants of the code under test
func dict() []string {
	var r []string
	b, _ := os.ReadFile(os.Getenv("VERIF_DICT"))
	json.Unmarshal(b, &r)
	return r
}

// word is a name element that is worth trying
func word(r *rand.Rand) string {
	if d := dictWords(); len(d) > 0 && r.Intn(3) == 0 {
		return d[r.Intn(len(d))]
	}
	w := []string{"a", "b", "ab", "a.txt", "A", "a b", "ä", "a.", ".a", "..a", "a~", "0", "a-b", "a_test.go", "index.html", "x.tmp", "vendor"}
	return w[r.Intn(len(w))]
}

var dictCache []string

// dictWords are the constants that can be part of a name
func dictWords() []string {
	if dictCache == nil {
		dictCache = []string{"a"}
		for _, s := range dict() {
			ok := len(s) > 0 && len(s) < 24
			for _, c := range s {
				if c <= ' ' || c == ':' || c == '\\' || c == '%' || c == '/' || c == 127 {
					ok = false
				}
			}
			if ok && s != "." && s != ".." {
				dictCache = append(dictCache, s)
			}
		}
	}
	return dictCache
}
