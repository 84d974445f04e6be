//go:build go1.22

package small

import (
	"math/rand"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/nanobus/iota/go/internal/buffer"
	"github.com/nanobus/iota/go/internal/zzverif/vh"
)

func TestQueue(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		q := buffer.NewUnbounded[int]()
		return vh.RunSteps(raw, func(i int, s vh.Step) any {
			switch s.A() {
			case "put":
				return q.Put(s.I("v"))
			case "load":
				q.Load()
				return 0
			case "dispose":
				q.Dispose()
				return 0
			case "recv":
				select {
				case v, ok := <-q.Get():
					if !ok {
						return []any{"closed", 0}
					}
					return []any{"item", v}
				default:
					return []any{"empty", 0}
				}
			case "drain":
				items := []int{}
				for k := 0; k < 50; k++ {
					q.Load()
					select {
					case v, ok := <-q.Get():
						if !ok {
							return map[string]any{"items": items, "closed": true}
						}
						items = append(items, v)
					default:
					}
				}
				return map[string]any{"items": items, "closed": false}
			}
			return nil
		}), nil
	})
}

// TestQueueConc: producers, a disposer and the consumer on threads of their own; the
// consumer reads and loads as the receive loop of a connection does.
func TestQueueConc(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (res any, extra any) {
		synctest.Test(t, func(t *testing.T) {
			st := vh.Steps(raw)[0]
			rng := rand.New(rand.NewSource(int64(st.I("seed"))))
			q := buffer.NewUnbounded[int]()
			var mu sync.Mutex
			ev := []map[string]any{}
			rec := func(m map[string]any) { mu.Lock(); ev = append(ev, m); mu.Unlock() }
			prod, per := 1+rng.Intn(4), 1+rng.Intn(6)
			go func() {
				for v := range q.Get() {
					rec(map[string]any{"k": "recv", "v": v, "th": 100})
					q.Load()
				}
				rec(map[string]any{"k": "closed", "th": 100})
			}()
			for p := 1; p <= prod; p++ {
				r := rand.New(rand.NewSource(rng.Int63()))
				go func() {
					for k := 1; k <= per; k++ {
						for j := r.Intn(3); j > 0; j-- {
							runtime.Gosched()
						}
						v := p*100 + k
						rec(map[string]any{"k": "call", "th": p, "op": "put", "v": v})
						ok := q.Put(v)
						rec(map[string]any{"k": "ret", "th": p, "res": ok})
					}
				}()
			}
			for d := 0; d < 2; d++ { // disposing twice is harmless
				r := rand.New(rand.NewSource(rng.Int63()))
				go func() {
					for j := r.Intn(20); j > 0; j-- {
						runtime.Gosched()
					}
					rec(map[string]any{"k": "call", "th": 50 + d, "op": "dispose", "v": 0})
					q.Dispose()
					rec(map[string]any{"k": "ret", "th": 50 + d, "res": true})
				}()
			}
			synctest.Wait()
			mu.Lock()
			extra = ev
			if ev[len(ev)-1]["k"] != "closed" && !hasClosed(ev) {
				res = map[string]any{"reason": "the consumer is never told that the queue closed", "events": ev}
				vh.Restart(res)
			}
			mu.Unlock()
		})
		return
	})
}

func hasClosed(ev []map[string]any) bool {
	for _, e := range ev {
		if e["k"] == "closed" {
			return true
		}
	}
	return false
}
