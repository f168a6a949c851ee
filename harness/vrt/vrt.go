// Package vrt is the harness run-time. Under the symbolic executor its
// functions are intercepted; compiled natively they replay one assignment of
// the inputs, read from the file named by VERIF_REPLAY.
package vrt

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strconv"
	"sync"
	"time"
)

type input struct {
	Name string `json:"name"`
	W    int    `json:"w"`
	V    uint64 `json:"v"`
}

type replayFile struct {
	Harness string   `json:"harness"`
	Tier    string   `json:"tier"`
	Inputs  []input  `json:"inputs"`
	Gates   []string `json:"gates"`
}

var (
	mu       sync.Mutex
	cur      replayFile
	pos      int
	gatePos  int
	gateCond = sync.NewCond(&mu)
	tab      = map[string]func(){}
	start    = time.Now()
	stress   int
	racing   bool // looking for data races, in any order
	idle     int // goroutines before the harness
)

// Register makes a harness available to Main.
func Register(name string, f func()) { tab[name] = f }

func say(format string, args ...interface{}) {
	fmt.Fprintf(os.Stdout, "VERIF-"+format+"\n", args...)
}

// Main runs the harness named in the replay file.
func Main() {
	data, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err != nil {
		say("ERROR %v", err)
		os.Exit(9)
	}
	var all replayFile
	if err := json.Unmarshal(data, &all); err != nil {
		say("ERROR %v", err)
		os.Exit(9)
	}
	cur = all
	cur.Inputs = nil
	for _, in := range all.Inputs {
		if in.Name != "sched" {
			cur.Inputs = append(cur.Inputs, in)
		}
	}
	f := tab[cur.Harness]
	if f == nil {
		names := []string{}
		for n := range tab {
			names = append(names, n)
		}
		sort.Strings(names)
		say("ERROR no harness %s in %v", cur.Harness, names)
		os.Exit(9)
	}
	// a schedule that gates cannot enforce is looked for by repetition
	stress, _ = strconv.Atoi(os.Getenv("VERIF_STRESS"))
	racing = os.Getenv("VERIF_RACE") != ""
	until := time.Now().Add(15 * time.Second)
	if racing {
		until = time.Now().Add(4 * time.Second)
	}
	for i := 0; i == 0 || i < stress && time.Now().Before(until); i++ {
		mu.Lock()
		pos, gatePos, start, idle = 0, 0, time.Now(), runtime.NumGoroutine()
		mu.Unlock()
		f()
	}
	say("DONE")
}

func next(name string, w int) uint64 {
	mu.Lock()
	defer mu.Unlock()
	if pos >= len(cur.Inputs) {
		// inputs beyond the recorded assignment are unconstrained
		pos++
		return 0
	}
	in := cur.Inputs[pos]
	pos++
	if in.Name != name || in.W != w {
		say("DIVERGED want %s/%d have %s/%d at %d", name, w, in.Name, in.W, pos-1)
		os.Exit(8)
	}
	return in.V
}

func Bool(name string) bool  { return next(name, 0) != 0 }
func U8(name string) uint8   { return uint8(next(name, 8)) }
func U16(name string) uint16 { return uint16(next(name, 16)) }
func U32(name string) uint32 { return uint32(next(name, 32)) }
func U64(name string) uint64 { return next(name, 64) }
func I64(name string) int64  { return int64(next(name, 64)) }
func I32(name string) int32  { return int32(next(name, 32)) }
func I16(name string) int16  { return int16(next(name, 16)) }
func I8(name string) int8    { return int8(next(name, 8)) }
func Int(name string) int    { return int(next(name, 64)) }

// Bits returns an arbitrary value of n bits.
func Bits(name string, n int) uint64 { return next(name, n) }

func bitLen(v uint64) int {
	n := 0
	for v != 0 {
		n++
		v >>= 1
	}
	return n
}

// Range returns an arbitrary value in [lo, hi].
func Range(name string, lo, hi int) int {
	if lo == hi {
		return lo
	}
	return lo + int(next(name, bitLen(uint64(hi-lo))))
}

// Choose returns an arbitrary value in [0, n); one path per value.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(next(name, bitLen(uint64(n-1))))
}

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name, 8))
	}
	return b
}

// String returns a string of n arbitrary bytes.
func String(name string, n int) string { return string(Bytes(name, n)) }

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		say("ASSUME-FAILED")
		os.Exit(7)
	}
}

// Assert states the property.
func Assert(c bool, label string) {
	if !c {
		say("ASSERT-FAILED %s", label)
		os.Exit(6)
	}
}

// Cover marks a point that at least one path has to reach.
func Cover(label string) { mu.Lock(); say("COVER %s", label); mu.Unlock() }

// Observe records values for the comparison of the encoding with the native
// execution.
func Observe(label string, vals ...interface{}) {
	mu.Lock()
	defer mu.Unlock()
	s := label
	for _, v := range vals {
		s += " " + render(v)
	}
	say("OBS %s", s)
}

func render(v interface{}) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return fmt.Sprint(x)
	case int, int8, int16, int32, int64, uint, uint8, uint16, uint32, uint64:
		return fmt.Sprint(x)
	case string:
		return strconv.Quote(x)
	case []byte:
		return fmt.Sprintf("%x", x)
	}
	return "obj"
}

// Param is a bound: q in the quick tier, t in the thorough tier.
func Param(name string, q, t int) int {
	if cur.Tier == "thorough" {
		return t
	}
	return q
}

// Symbolic reports whether the symbolic executor runs the harness.
func Symbolic() bool { return false }

// Concretize makes the executor continue with one concrete value per path.
func Concretize(x int) int { return x }

// Pick returns the value of x, which lies in [lo, hi], by bisection.
func Pick(x, lo, hi int) int {
	for lo < hi {
		mid := lo + (hi-lo)/2
		if Decide(x <= mid) {
			hi = mid
		} else {
			lo = mid + 1
		}
	}
	return lo
}

// Decide forks on a condition instead of merging.
func Decide(c bool) bool { return c }

// Preempt lets the scheduler switch threads n times at synchronisation
// operations.
func Preempt(n int) {}

func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

func IteU8(c bool, a, b uint8) uint8 {
	if c {
		return a
	}
	return b
}

func And(a, b bool) bool     { return a && b }
func Or(a, b bool) bool      { return a || b }
func Implies(a, b bool) bool { return !a || b }

func EqBytes(a, b []byte) bool  { return string(a) == string(b) }
func EqString(a, b string) bool { return a == b }

// Gate is a scheduling point of the environment: the executor explores every
// order in which waiting threads pass their gates; the replay enforces it.
func Gate(name string) {
	if racing {
		time.Sleep(50 * time.Microsecond)
		return
	}
	mu.Lock()
	defer mu.Unlock()
	timeout := false
	t := time.AfterFunc(3*time.Second, func() {
		mu.Lock()
		timeout = true
		gateCond.Broadcast()
		mu.Unlock()
	})
	defer t.Stop()
	for gatePos < len(cur.Gates) && cur.Gates[gatePos] != name && !timeout {
		gateCond.Wait()
	}
	// let the threads released before this one run until they block
	mu.Unlock()
	time.Sleep(20 * time.Millisecond)
	mu.Lock()
	if gatePos < len(cur.Gates) && cur.Gates[gatePos] == name {
		gatePos++
	}
	gateCond.Broadcast()
}

// Settle waits until every other goroutine is blocked.
func Settle() {
	if stress > 0 {
		time.Sleep(200 * time.Microsecond)
		return
	}
	time.Sleep(60 * time.Millisecond)
}

// Others is the number of goroutines that the harness has left behind.
func Others() int {
	n := runtime.NumGoroutine() - idle
	for i := 0; i < 100 && n > 0; i++ {
		time.Sleep(time.Millisecond)
		n = runtime.NumGoroutine() - idle
	}
	return n
}

// Scratch is a directory for the harness.
func Scratch() string { return os.Getenv("VERIF_SCRATCH") }

// Elapsed is the time since the start, on the virtual clock in the executor.
func Elapsed() time.Duration { return time.Since(start) }

// Stop ends the path.
func Stop() {
	say("DONE")
	os.Exit(0)
}

// Setup runs a function that takes no inputs; the executor runs it only once.
// It has to come before anything that changes package variables.
func Setup(f func() interface{}) interface{} { return f() }

// Panics runs f and reports whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}
