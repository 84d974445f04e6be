//go:build go1.22

// Package vh is the shared part of the verification harness: it reads behaviours
// generated from the TLA+ specifications, runs each against the real code and
// reports where an observation differs from the one the specification prescribes.
package vh

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strconv"
	"sync"
	"testing"
	"time"
)

// Step is one step of a behaviour: "a" names the action, "o" is the expected observation.
type Step map[string]any

func (s Step) A() string        { return s.S("a") }
func (s Step) S(k string) string { v, _ := s[k].(string); return v }
func (s Step) I(k string) int {
	switch v := s[k].(type) {
	case float64:
		return int(v)
	case json.Number:
		n, _ := v.Int64()
		return int(n)
	}
	return 0
}
func (s Step) B(k string) bool { v, _ := s[k].(bool); return v }
func (s Step) L(k string) []any {
	v, _ := s[k].([]any)
	return v
}
func (s Step) Bytes(k string) []byte { return Bytes(s[k]) }
func (s Step) M(k string) Step       { m, _ := s[k].(map[string]any); return Step(m) }
func (s Step) Has(k string) bool     { _, ok := s[k]; return ok }

// Bytes turns a JSON array of numbers into bytes.
func Bytes(v any) []byte {
	l, _ := v.([]any)
	res := make([]byte, len(l))
	for i, x := range l {
		f, _ := x.(float64)
		res[i] = byte(f)
	}
	return res
}

// Wire expands a byte string of the specification (runs [byte, count], see Wire.tla).
func Wire(v any) []byte {
	l, _ := v.([]any)
	res := []byte{}
	for _, x := range l {
		r := x.([]any)
		b, n := int(r[0].(float64)), int(r[1].(float64))
		for k := 0; k < n; k++ {
			if b < 256 {
				res = append(res, byte(b))
			} else {
				res = append(res, byte((b-256+k)%251))
			}
		}
	}
	return res
}

func (s Step) Wire(k string) []byte { return Wire(s[k]) }

// Short describes a byte string without printing all of a long one.
func Short(b []byte) string {
	if len(b) <= 64 {
		return fmt.Sprintf("%d:%x", len(b), b)
	}
	h := fnv.New64a()
	h.Write(b)
	return fmt.Sprintf("%d:%x..%x#%x", len(b), b[:24], b[len(b)-8:], h.Sum64())
}

// Ints turns bytes into a JSON-comparable list of numbers.
func Ints(b []byte) []int {
	res := make([]int, len(b))
	for i, x := range b {
		res[i] = int(x)
	}
	return res
}

// Norm brings any value into the form JSON decoding gives.
func Norm(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("unmarshalable: %v", err)
	}
	var r any
	if err := json.Unmarshal(b, &r); err != nil {
		return string(b)
	}
	return r
}

// Equal compares two values by their canonical JSON form.
func Equal(a, b any) bool {
	x, _ := json.Marshal(Norm(a))
	y, _ := json.Marshal(Norm(b))
	return bytes.Equal(x, y)
}

var (
	mu   sync.Mutex
	outf *os.File
)

func emit(m map[string]any) {
	b, err := json.Marshal(m)
	if err != nil {
		b = []byte(fmt.Sprintf(`{"t":%q,"i":%v,"ok":false,"d":"unmarshalable result"}`, m["t"], m["i"]))
	}
	mu.Lock()
	defer mu.Unlock()
	outf.Write(append(b, '\n'))
}

var cur int

// Restart reports a mismatch for the current behaviour and ends the process, because
// the behaviour left the process in a state in which the next one cannot run.
func Restart(detail any) {
	emit(map[string]any{"t": "E", "i": cur, "ok": false, "d": detail})
	os.Exit(4)
}

// Hang reports that the current behaviour did not come to an end.
func Hang(detail any) {
	emit(map[string]any{"t": "H", "i": cur, "d": detail})
	os.Exit(3)
}

// Seed of this run.
func Seed() int64 {
	n, _ := strconv.ParseInt(os.Getenv("VH_SEED"), 10, 64)
	return n
}

// Rand gives a generator that depends on the seed of the run and the behaviour number.
func Rand(i int) *rand.Rand { return rand.New(rand.NewSource(Seed()*1000003 + int64(i))) }

// Cur is the number of the behaviour being replayed.
func Cur() int { return cur }

// Limit is the time after which a behaviour counts as hanging.
var Limit = 40 * time.Second

// Main replays every behaviour of the input with run.  run returns nil if the real
// code did what the specification prescribes, otherwise a description.
func Main(t *testing.T, run func(t *testing.T, raw []byte) (detail any, extra any)) {
	in := os.Getenv("VH_IN")
	if in == "" {
		t.Skip("no input")
	}
	start, _ := strconv.Atoi(os.Getenv("VH_START"))
	only := -1
	if o := os.Getenv("VH_ONLY"); o != "" {
		only, _ = strconv.Atoi(o)
	}
	f, err := os.Open(in)
	if err != nil {
		t.Fatal(err)
	}
	defer f.Close()
	outf, err = os.OpenFile(os.Getenv("VH_OUT"), os.O_APPEND|os.O_WRONLY|os.O_CREATE, 0o644)
	if err != nil {
		t.Fatal(err)
	}
	rd := bufio.NewReaderSize(f, 1<<20)
	for i := 0; ; i++ {
		line, err := rd.ReadBytes('\n')
		if len(bytes.TrimSpace(line)) == 0 {
			if err != nil {
				break
			}
			continue
		}
		if i < start || (only >= 0 && i != only) {
			if err != nil {
				break
			}
			continue
		}
		cur = i
		emit(map[string]any{"t": "B", "i": i})
		idx := i
		wd := time.AfterFunc(Limit, func() {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			emit(map[string]any{"t": "H", "i": idx, "d": map[string]any{"hang": string(buf[:min(n, 6000)])}})
			os.Exit(3)
		})
		d, x := run(t, line)
		wd.Stop()
		m := map[string]any{"t": "E", "i": i, "ok": d == nil}
		if d != nil {
			m["d"] = d
		}
		if x != nil {
			m["x"] = x
		}
		emit(m)
		if err != nil {
			break
		}
	}
	emit(map[string]any{"t": "END"})
}

// Steps decodes a behaviour that is a list of steps.
func Steps(raw []byte) []Step {
	var l []Step
	if err := json.Unmarshal(raw, &l); err != nil {
		panic("vh: bad behaviour: " + err.Error())
	}
	return l
}

// RunSteps executes steps one by one and compares the observation of each.
func RunSteps(raw []byte, exec func(i int, s Step) any) any {
	for i, s := range Steps(raw) {
		got := Guard(func() any { return exec(i, s) })
		if want, ok := s["o"]; ok && !Equal(want, got) {
			return map[string]any{"index": i, "step": s, "want": want, "got": Norm(got)}
		}
	}
	return nil
}

// RunStepsOf executes steps; exec gets what the specification prescribes and returns nil or what is different.
func RunStepsOf(raw []byte, exec func(i int, s, o Step) any) any {
	for i, s := range Steps(raw) {
		if got := Guard(func() any { return exec(i, s, s.M("o")) }); got != nil {
			return map[string]any{"index": i, "step": s, "want": s["o"], "got": Norm(got)}
		}
	}
	return nil
}

var waits = [][]byte{[]byte("[chan "), []byte("[select"), []byte("[sync."), []byte("[semacquire"), []byte("[finalizer wait"), []byte("[cleanup wait")}

func blocked(line []byte) bool {
	for _, w := range waits {
		if bytes.Contains(line, w) {
			return true
		}
	}
	return false
}

var stackBuf = make([]byte, 1<<20)

// Quiet waits until every other goroutine is blocked (also on mutexes, which synctest.Wait would wait for).
func Quiet() {
	for {
		time.Sleep(20 * time.Microsecond)
		b := stackBuf[:runtime.Stack(stackBuf, true)]
		busy := false
		for n := 0; ; n++ {
			i := bytes.Index(b, []byte("goroutine "))
			if i < 0 {
				break
			}
			b = b[i:]
			l := b
			if e := bytes.IndexByte(b, '\n'); e >= 0 {
				l, b = b[:e], b[e:]
			} else {
				b = nil
			}
			if n > 0 && !blocked(l) {
				busy = true
				break
			}
			if e := bytes.Index(b, []byte("\n\n")); e >= 0 {
				b = b[e:]
			} else {
				break
			}
		}
		if !busy {
			return
		}
	}
}

// Guard turns a panic of the calling goroutine into an observation.
func Guard(f func() any) (res any) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 4096)
			n := runtime.Stack(buf, false)
			res = map[string]any{"panic": fmt.Sprint(r), "stack": string(buf[:n])}
		}
	}()
	return f()
}

// Again runs one behaviour in a process of its own.
func Again(test string, raw []byte) any {
	dir, err := os.MkdirTemp("", "vh")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	in, out := filepath.Join(dir, "in"), filepath.Join(dir, "out")
	if err := os.WriteFile(in, append(bytes.TrimSpace(raw), '\n'), 0o644); err != nil {
		panic(err)
	}
	c := exec.Command(os.Args[0], "-test.run", "^"+test+"$", "-test.count=1")
	c.Env = append(os.Environ(), "VH_CHILD=1", "VH_START=0", "VH_ONLY=", "VH_IN="+in, "VH_OUT="+out)
	msg, err := c.CombinedOutput()
	b, _ := os.ReadFile(out)
	for _, l := range bytes.Split(b, []byte("\n")) {
		var m map[string]any
		if json.Unmarshal(l, &m) == nil && m["t"] == "E" {
			if m["ok"] == true {
				return nil
			}
			return m["d"]
		}
	}
	return map[string]any{"process": fmt.Sprint(err), "output": string(msg[max(0, len(msg)-2000):])}
}
