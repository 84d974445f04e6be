//go:build go1.22

package uuid_test

import (
	"bytes"
	"encoding/binary"
	"errors"
	"math/rand"
	"os"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/types/uuid"
)

func arr(v any) []int { return vh.Ints(vh.Bytes(v)) }

func TestForms(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		s := vh.Steps(raw)[0]
		text := string(s.Bytes("s"))
		w := s.M("want")
		want := map[string]any{"ok": w.B("ok"), "len": w.B("len")}
		if w.B("ok") {
			want["id"] = arr(w["id"])
		}
		res := func(id uuid.UUID, err error) any {
			m := map[string]any{"ok": err == nil, "len": uuid.IsInvalidLengthError(err)}
			if err == nil {
				m["id"] = vh.Ints(id[:])
			}
			return m
		}
		var base uuid.UUID
		copy(base[:], s.Bytes("b"))
		checks := []struct {
			name string
			f    func() any
			want any
		}{
			{"Parse", func() any { return res(uuid.Parse(text)) }, want},
			{"ParseBytes", func() any { return res(uuid.ParseBytes([]byte(text))) }, want},
			{"UnmarshalText", func() any {
				id := uuid.UUID{1, 2, 3}
				err := id.UnmarshalText([]byte(text))
				if err != nil && id != (uuid.UUID{1, 2, 3}) {
					return "value changed although the text was refused"
				}
				return res(id, err)
			}, want},
			{"MustParse", func() any {
				ok := true
				func() {
					defer func() {
						if recover() != nil {
							ok = false
						}
					}()
					uuid.MustParse(text)
				}()
				return ok
			}, w.B("ok")},
			{"String", func() any { return base.String() }, string(s.Bytes("text"))},
			{"URN", func() any { return base.URN() }, string(s.Bytes("urn"))},
			{"MarshalText", func() any { b, err := base.MarshalText(); return []any{string(b), err == nil} }, []any{string(s.Bytes("text")), true}},
			{"MarshalBinary", func() any { b, err := base.MarshalBinary(); return []any{vh.Ints(b), err == nil} }, []any{arr(s["b"]), true}},
			{"FromBytes", func() any { return res(uuid.FromBytes(base[:])) }, map[string]any{"ok": true, "len": false, "id": arr(s["b"])}},
			{"FromBytes15", func() any { _, err := uuid.FromBytes(base[:15]); return err == nil }, false},
			{"FromBytes17", func() any { _, err := uuid.FromBytes(append(base[:], 0)); return err == nil }, false},
			{"FromBytes0", func() any { _, err := uuid.FromBytes(nil); return err == nil }, false},
			{"Time", func() any {
				var b [8]byte
				binary.BigEndian.PutUint64(b[:], uint64(base.Time()))
				return vh.Ints(b[:])
			}, arr(s["time"])},
			{"ClockSequence", func() any { return base.ClockSequence() }, s.I("clock")},
			{"Version", func() any { return int(base.Version()) }, s.I("version")},
			{"Variant", func() any { return base.Variant().String() }, s.S("variant")},
		}
		for _, c := range checks {
			got := vh.Guard(c.f)
			if !vh.Equal(got, c.want) {
				return map[string]any{"call": c.name, "text": text, "got": vh.Norm(got), "want": c.want}, nil
			}
		}
		return nil, nil
	})
}

// source is a random source of which every byte is known by its place.
type source struct {
	mu     sync.Mutex
	data   []byte
	pos    int
	failAt int // place at which it fails once, -1 never
	chunk  int
	failed bool
	rng    *rand.Rand
}

func newSource(seed int64) *source {
	return &source{failAt: -1, rng: rand.New(rand.NewSource(seed))}
}

var errSource = errors.New("source failed")

func (s *source) Read(b []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := len(b)
	if s.chunk > 0 && n > s.chunk {
		n = s.chunk
	}
	var err error
	if s.failAt >= 0 && s.pos+n > s.failAt {
		n = max(0, s.failAt-s.pos)
		s.failAt = -1
		s.failed = true
		err = errSource
	}
	for len(s.data) < s.pos+n {
		s.data = append(s.data, byte(s.rng.Intn(256)))
	}
	copy(b[:n], s.data[s.pos:s.pos+n])
	s.pos += n
	return n, err
}

// find returns where in the source the bits of id come from.
func (s *source) find(id uuid.UUID) int {
	s.mu.Lock()
	defer s.mu.Unlock()
	for p := 0; p+16 <= s.pos; p++ {
		w := s.data[p : p+16]
		if bytes.Equal(w[:6], id[:6]) && w[6]&0x0f == id[6]&0x0f && w[7] == id[7] && w[8]&0x3f == id[8]&0x3f && bytes.Equal(w[9:], id[9:]) {
			return p
		}
	}
	return -1
}

type draw struct {
	Ok     bool `json:"ok"`
	Failed bool `json:"failed"`
	Pos    int  `json:"pos"`
	V4     bool `json:"v4"`
	Nil    bool `json:"nil"`
}

func one(src *source) (d draw, panicked any) {
	src.mu.Lock()
	src.failed = false
	src.mu.Unlock()
	var id uuid.UUID
	var err error
	p := vh.Guard(func() any {
		id, err = uuid.NewRandom()
		return nil
	})
	if p != nil {
		return d, p
	}
	src.mu.Lock()
	d.Failed = src.failed
	src.mu.Unlock()
	d.Ok = err == nil
	d.Nil = id == uuid.UUID{}
	d.Pos = -1
	if d.Ok {
		d.Pos = src.find(id)
		d.V4 = id.Version() == 4 && id.Variant() == uuid.RFC4122
	}
	return d, nil
}

func TestRand(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		uuid.DisableRandPool()
		src := newSource(vh.Seed()*7 + int64(vh.Cur()))
		uuid.SetRand(src)
		defer uuid.SetRand(nil)
		defer uuid.DisableRandPool()
		ds := []draw{}
		for _, s := range vh.Steps(raw) {
			switch s.A() {
			case "enable":
				uuid.EnableRandPool()
			case "disable":
				uuid.DisableRandPool()
			case "fail":
				src.failAt = src.pos + s.I("n")
			case "chunk":
				src.chunk = s.I("n")
			case "draw":
				for k := 0; k < s.I("n"); k++ {
					d, p := one(src)
					if p != nil {
						return map[string]any{"step": s, "got": p}, nil
					}
					ds = append(ds, d)
				}
			}
		}
		return nil, ds
	})
}

func TestRandConc(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		st := vh.Steps(raw)[0]
		uuid.DisableRandPool()
		if st.B("pool") {
			uuid.EnableRandPool()
		}
		src := newSource(int64(st.I("seed")))
		uuid.SetRand(src)
		defer uuid.SetRand(nil)
		defer uuid.DisableRandPool()
		var wg sync.WaitGroup
		th := make([][]uuid.UUID, 4)
		for k := range th {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 12; i++ {
					if id, err := uuid.NewRandom(); err == nil {
						th[k] = append(th[k], id)
					}
				}
			}()
		}
		wg.Wait()
		ds := []draw{}
		for _, l := range th {
			if len(l) != 12 {
				return map[string]any{"reason": "a draw failed although the source did not"}, nil
			}
			for _, id := range l {
				ds = append(ds, draw{Ok: true, Pos: src.find(id), V4: id.Version() == 4 && id.Variant() == uuid.RFC4122})
			}
		}
		return nil, ds
	})
}

// fixed delivers the same two bytes over and over.
type fixed [2]byte

func (f fixed) Read(b []byte) (int, error) {
	for i := range b {
		b[i] = f[i%2]
	}
	return len(b), nil
}

// TestClock: within a bubble the clock starts at a fixed moment and moves only when told to.
func TestClock(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (res any, _ any) {
		steps := vh.Steps(raw)
		if steps[0].A() == "fresh" && os.Getenv("VH_CHILD") == "" {
			return vh.Again("TestClock", raw), nil
		}
		defer uuid.SetRand(nil)
		i := 0
		for i < len(steps) {
			synctest.Test(t, func(t *testing.T) {
				base := time.Now()
				for first := true; i < len(steps); i++ {
					s := steps[i]
					if s.A() == "back" && !first {
						return // a new bubble starts at the beginning again
					}
					first = false
					got := vh.Guard(func() any {
						switch s.A() {
						case "set":
							if i == 0 {
								uuid.SetClockSequence(s.I("s") + 77) // whatever was there before is forgotten
							}
							uuid.SetClockSequence(s.I("s"))
						case "fresh":
							uuid.SetRand(fixed{byte(s.I("s") >> 8), byte(s.I("s"))})
						case "random":
							uuid.SetRand(fixed{byte(s.I("s") >> 8), byte(s.I("s"))})
							uuid.SetClockSequence(-1)
						case "tick":
							time.Sleep(time.Duration(s.I("d")) * 100)
						case "show":
							return []any{uuid.ClockSequence()}
						case "get":
							tm, seq, err := uuid.GetTime()
							if err != nil {
								return err.Error()
							}
							sec, ns := tm.UnixTime()
							if time.Unix(sec, ns) != time.Unix(time.Now().Unix(), int64(time.Now().Nanosecond())) {
								return map[string]any{"time": time.Unix(sec, ns).String(), "now": time.Now().String()}
							}
							if int64(tm) != time.Now().UnixNano()/100+0x01B21DD213814000 {
								return map[string]any{"time": int64(tm)}
							}
							if seq&0xc000 != 0x8000 {
								return map[string]any{"sequence": seq}
							}
							return []any{time.Unix(sec, ns).Sub(base).Nanoseconds() / 100, int(seq & 0x3fff)}
						}
						return []any{}
					})
					if !vh.Equal(got, s["o"]) {
						res = map[string]any{"index": i, "step": s, "want": s["o"], "got": vh.Norm(got)}
						i = len(steps)
						return
					}
				}
			})
		}
		return
	})
}
