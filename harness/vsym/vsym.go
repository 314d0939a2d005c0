// Package vsym is the harness interface of the solver-based checks.  Under the
// symbolic executor every function below is intercepted: inputs are fresh
// solver variables.  Compiled natively, the same functions replay one recorded
// assignment against the real code.
package vsym

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math"
	"os"
	"reflect"
	"runtime/debug"
	"strconv"
	"strings"
	"time"
)

type stop struct{ status, label string }

var cur struct {
	in  []string
	pos int
	obs []string
	end *stop // the first stop: code under test may recover from it
}

func halt(status, label string) {
	s := stop{status, label}
	if cur.end == nil {
		cur.end = &s
	}
	panic(s)
}

func next() string {
	if cur.pos >= len(cur.in) {
		halt("diverged", "inputs exhausted")
	}
	s := cur.in[cur.pos]
	cur.pos++
	return s
}

func num() uint64 {
	s := next()
	v, err := strconv.ParseUint(s, 10, 64)
	if err != nil {
		halt("diverged", "expected a number, got "+s)
	}
	return v
}

// Bool is an arbitrary boolean.
func Bool() bool { return num() != 0 }

// Byte is an arbitrary byte.
func Byte() byte { return byte(num()) }

// Int is an arbitrary int in [lo,hi].
func Int(lo, hi int) int { return int(num()) }

// Int64 is an arbitrary int64 in [lo,hi].
func Int64(lo, hi int64) int64 { return int64(num()) }

// Uint64 is an arbitrary uint64 in [lo,hi].
func Uint64(lo, hi uint64) uint64 { return num() }

// Float64 is an arbitrary float64 (any bit pattern).
func Float64() float64 { return math.Float64frombits(num()) }

// Choice is an arbitrary int in [0,n), concrete on each path.
func Choice(n int) int { return int(num()) }

// String is an arbitrary byte string of min..max bytes.
func String(min, max int) string {
	s := next()
	if !strings.HasPrefix(s, "s") {
		halt("diverged", "expected a string")
	}
	b, err := hex.DecodeString(s[1:])
	if err != nil {
		halt("diverged", err.Error())
	}
	return string(b)
}

// StringOf is an arbitrary string over the bytes of alphabet.
func StringOf(alphabet string, min, max int) string { return String(min, max) }

// Assume restricts the inputs.
func Assume(b bool) {
	if !b {
		halt("assume", "")
	}
}

// Assert states the property.
func Assert(b bool, label string) {
	if !b {
		halt("assert", label)
	}
}

// Observe records a value that must agree between the encoding and the real code.
func Observe(label string, v any) { cur.obs = append(cur.obs, label+"="+render(reflect.ValueOf(v))) }

func render(v reflect.Value) string {
	switch v.Kind() {
	case reflect.Invalid:
		return "nil"
	case reflect.Bool:
		if v.Bool() {
			return "1"
		}
		return "0"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		u := uint64(v.Int())
		if s := v.Type().Bits(); s < 64 {
			u &= 1<<uint(s) - 1
		}
		return strconv.FormatUint(u, 10)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return strconv.FormatUint(v.Uint(), 10)
	case reflect.Float64:
		return strconv.FormatUint(math.Float64bits(v.Float()), 10)
	case reflect.String:
		return fmt.Sprintf("%x", v.String())
	case reflect.Interface:
		return render(v.Elem())
	case reflect.Slice:
		s := "["
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				s += " "
			}
			s += render(v.Index(i))
		}
		return s + "]"
	}
	return "?"
}

// Cover marks a point that must be reachable.
func Cover(label string) {}

// Thorough tells whether the deeper bounds are in force.
func Thorough() bool { return os.Getenv("VSYM_TIER") == "thorough" }

// Symbolic tells the executor from the native replay.
func Symbolic() bool { return false }

// MapOrder makes the iteration order of maps up to n entries arbitrary, for
// the next forks iterations.
func MapOrder(n, forks int) {}

// Init runs a package's initialiser (native: already done).
func Init(path string) {}

// Setenv sets an environment variable.
func Setenv(k, v string) { os.Setenv(k, v) }

// Elapse lets time pass.
func Elapse(d time.Duration) { time.Sleep(d) }

// Bound picks a bound per tier.
func Bound(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// And, Or, Implies, Ite, StrEq: connectives that do not fork.
func And(bs ...bool) bool {
	for _, b := range bs {
		if !b {
			return false
		}
	}
	return true
}

func Or(bs ...bool) bool {
	for _, b := range bs {
		if b {
			return true
		}
	}
	return false
}

func Implies(a, b bool) bool { return !a || b }

func Ite(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func IteU(c bool, a, b uint64) uint64 {
	if c {
		return a
	}
	return b
}

func StrEq(a, b string) bool { return a == b }

// FloatSame is bit equality of floats (one NaN).
func FloatSame(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || (a != a && b != b)
}

type request struct {
	H  string   `json:"h"`
	In []string `json:"in"`
}

type result struct {
	I      int      `json:"i"`
	Status string   `json:"status"`
	Label  string   `json:"label"`
	Obs    []string `json:"obs"`
}

// Main replays the requests of the file named by VSYM_REPLAY.
func Main(hs map[string]func()) {
	debug.SetMaxStack(256 << 20)
	f, err := os.ReadFile(os.Getenv("VSYM_REPLAY"))
	if err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	var reqs []request
	if err := json.Unmarshal(f, &reqs); err != nil {
		fmt.Println(err)
		os.Exit(4)
	}
	from, _ := strconv.Atoi(os.Getenv("VSYM_FROM"))
	out := bufio.NewWriter(os.Stdout)
	emit := func(r result) {
		b, _ := json.Marshal(r)
		fmt.Fprintf(out, "VSYM %s\n", b)
		out.Flush()
	}
	for i := from; i < len(reqs); i++ {
		fmt.Fprintf(out, "VSYM-START %d\n", i)
		out.Flush()
		h := hs[reqs[i].H]
		if h == nil {
			emit(result{I: i, Status: "missing"})
			continue
		}
		done := make(chan result, 1)
		go func() { done <- one(i, reqs[i].In, h) }()
		select {
		case r := <-done:
			emit(r)
		case <-time.After(10 * time.Second):
			emit(result{I: i, Status: "timeout"})
			os.Exit(3)
		}
	}
}

func one(i int, in []string, h func()) (r result) {
	cur.in, cur.pos, cur.obs, cur.end = in, 0, nil, nil
	r = result{I: i, Status: "ok"}
	defer func() {
		r.Obs = cur.obs
		x := recover()
		if cur.end != nil {
			r.Status, r.Label = cur.end.status, cur.end.label
			return
		}
		if x != nil {
			if s, ok := x.(stop); ok {
				r.Status, r.Label = s.status, s.label
				return
			}
			r.Status, r.Label = "panic", fmt.Sprint(x)
		}
		if r.Status == "ok" && cur.pos != len(cur.in) {
			r.Status, r.Label = "diverged", "inputs left over"
		}
	}()
	h()
	return
}

// Linear tells the executor that sums and differences dominate the queries of
// this harness (chooses how the solver treats bit vectors; no meaning natively).
func Linear() {}
