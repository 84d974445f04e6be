//go:build go1.22

package lookup

import (
	"context"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
)

type stream struct {
	id  uint32
	obj int
}

func (s *stream) Context() context.Context { return context.Background() }
func (s *stream) StreamID() uint32         { return s.id }
func (s *stream) OnNext(payload.Payload)   {}
func (s *stream) OnComplete()              {}
func (s *stream) OnError(error)            {}

// spec number -> stream number
var idOf = []uint32{0, 1, 0x7fffffff, 2, 0x40000001, 5, 7, 9}

func get(l *proxy.Lookup, k int) int {
	s, ok := l.Get(idOf[k])
	if !ok {
		if s != nil {
			return -2
		}
		return 0
	}
	if s == nil {
		return -1
	}
	return s.(*stream).obj
}

func TestReplay(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		var l proxy.Lookup
		return vh.RunSteps(raw, func(i int, s vh.Step) any {
			switch s.A() {
			case "add":
				l.Add(&stream{idOf[s.I("id")], s.I("obj")})
			case "remove":
				l.Remove(idOf[s.I("id")])
			}
			n := len(s.M("o").L("get"))
			g := make([]int, n)
			for k := 1; k <= n; k++ {
				g[k-1] = get(&l, k)
			}
			return map[string]any{"get": g, "size": l.Size(), "empty": l.IsEmpty()}
		}), nil
	})
}

type ev struct {
	seq int64
	m   map[string]any
}

// TestRecord runs concurrent programs (the input gives threads and operations per
// thread) and returns the recorded calls and returns in their real-time order.
func TestRecord(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		st := vh.Steps(raw)[0]
		threads, ops, own := st.I("threads"), st.I("ops"), st.I("own")
		rng := rand.New(rand.NewSource(int64(st.I("seed"))))
		var l proxy.Lookup
		var seq int64
		logs := make([][]ev, threads+1)
		var wg sync.WaitGroup
		start := make(chan struct{})
		var objs int64
		for th := 1; th <= threads; th++ {
			r := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func(th int) {
				defer wg.Done()
				log := make([]ev, 0, ops*2)
				live := make([]bool, own)
				do := func(op string, id int, obj int, f func() int) {
					log = append(log, ev{atomic.AddInt64(&seq, 1), map[string]any{"k": "call", "th": th, "op": op, "id": id, "obj": obj}})
					res := f()
					log = append(log, ev{atomic.AddInt64(&seq, 1), map[string]any{"k": "ret", "th": th, "res": res}})
				}
				<-start
				for i := 0; i < ops; i++ {
					if r.Intn(3) == 0 {
						runtime.Gosched()
					}
					mine := r.Intn(own)
					id := (th-1)*own + mine + 1
					any := r.Intn(threads*own) + 1
					switch c := r.Intn(8); {
					case c < 3:
						if !live[mine] {
							o := int(atomic.AddInt64(&objs, 1))
							do("add", id, o, func() int { l.Add(&stream{uint32(id), o}); return 0 })
							live[mine] = true
						} else {
							do("remove", id, 0, func() int { l.Remove(uint32(id)); return 0 })
							live[mine] = false
						}
					case c < 6:
						do("get", any, 0, func() int {
							s, ok := l.Get(uint32(any))
							if !ok {
								return 0
							}
							return s.(*stream).obj
						})
					case c == 6:
						do("size", 0, 0, func() int { return l.Size() })
					default:
						do("empty", 0, 0, func() int {
							if l.IsEmpty() {
								return 1
							}
							return 0
						})
					}
				}
				logs[th] = log
			}(th)
		}
		close(start)
		wg.Wait()
		all := make([]map[string]any, seq)
		for _, lg := range logs {
			for _, e := range lg {
				all[e.seq-1] = e.m
			}
		}
		return nil, all
	})
}
