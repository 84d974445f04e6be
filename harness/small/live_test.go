//go:build go1.22

package small

import (
	"math"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"

	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/invoke"
)

// table hides the instance type.
type table struct {
	put    func(obj int) uint64
	get    func(h uint64) int
	remove func(h uint64) int
}

func mk[T any](to func(int) T, from func(T) int) table {
	l := invoke.NewLiveInstances[T]()
	r := func(v T, ok bool) int {
		if !ok {
			var zero T
			if from(v) != from(zero) {
				return -1
			}
			return 0
		}
		return from(v)
	}
	return table{
		put:    func(o int) uint64 { return l.Put(to(o)) },
		get:    func(h uint64) int { return r(l.Get(h)) },
		remove: func(h uint64) int { return r(l.Remove(h)) },
	}
}

type iface interface{ n() int }
type impl struct{ v int }

func (i *impl) n() int { return i.v }

type big struct {
	v   int
	pad [40000]byte
}

func tables() []table {
	return []table{
		mk(func(o int) int { return o }, func(v int) int { return v }),
		mk(func(o int) iface { return &impl{o} }, func(v iface) int {
			if v == nil {
				return 0
			}
			return v.n()
		}),
		mk(func(o int) big { return big{v: o} }, func(v big) int { return v.v }),
	}
}

// none holds instances without any state: all that can be told is whether they are there.
func none() table {
	l := invoke.NewLiveInstances[struct{}]()
	b := func(_ struct{}, ok bool) int {
		if ok {
			return 1
		}
		return 0
	}
	return table{
		put:    func(int) uint64 { return l.Put(struct{}{}) },
		get:    func(h uint64) int { return b(l.Get(h)) },
		remove: func(h uint64) int { return b(l.Remove(h)) },
	}
}

func TestLive(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		for ti, tb := range append(tables(), none()) {
			presence := ti == 3
			hs := []uint64{}
			objs := []int{}
			live := map[uint64]int{} // handle -> slot
			exp := func(slot, want int) int {
				if s, ok := live[hs[slot-1]]; ok && want == 0 && s != slot {
					return objs[s-1] // the number names another instance by now
				}
				return want
			}
			gc := vh.Cur()%64 == 0
			for i, s := range vh.Steps(raw) {
				o := s.M("o")
				got := vh.Guard(func() any {
					res := 0
					switch s.A() {
					case "put":
						h := tb.put(s.I("obj"))
						hs, objs = append(hs, h), append(objs, s.I("obj"))
						if _, dup := live[h]; dup {
							return "handle of a live instance given out again"
						}
						live[h] = len(hs)
					case "remove":
						k := s.I("k")
						if other, ok := live[hs[k-1]]; ok && other != k {
							return "skip"
						}
						res = tb.remove(hs[k-1])
						delete(live, hs[k-1])
					case "unknown":
						h := uint64(0)
						switch s.S("u") {
						case "max":
							h = math.MaxUint64
						case "near":
							h = 12345677
							for _, x := range hs {
								h = x + 1
							}
							for {
								if _, used := live[h]; !used {
									break
								}
								h++
							}
						}
						if s.S("op") == "get" {
							res = tb.get(h)
						} else {
							res = tb.remove(h)
						}
					}
					if gc {
						runtime.GC()
					}
					get := []int{}
					for k := range hs {
						get = append(get, tb.get(hs[k]))
					}
					return map[string]any{"get": get, "res": res}
				})
				if got == "skip" {
					break
				}
				want := []int{}
				for k, w := range o.L("get") {
					want = append(want, exp(k+1, int(w.(float64))))
				}
				wres := o.I("res")
				if presence {
					for k := range want {
						want[k] = min(want[k], 1)
					}
					wres = min(wres, 1)
				}
				w := map[string]any{"get": want, "res": wres}
				if !vh.Equal(w, got) {
					return map[string]any{"index": i, "step": s, "want": w, "got": vh.Norm(got), "table": ti}, nil
				}
			}
		}
		return nil, nil
	})
}

func TestLiveConc(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		st := vh.Steps(raw)[0]
		rng := rand.New(rand.NewSource(int64(st.I("seed"))))
		threads, ops := st.I("threads"), st.I("ops")
		l := invoke.NewLiveInstances[int]()
		type ev struct {
			seq int64
			m   map[string]any
		}
		var seq, objs int64
		var mu sync.Mutex
		known := []uint64{0}
		logs := make([][]ev, threads)
		hmap := map[uint64]int{}
		var wg sync.WaitGroup
		for th := 0; th < threads; th++ {
			r := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				var log []ev
				var own []uint64
				pick := func() uint64 {
					if len(own) > 0 && r.Intn(2) == 0 {
						return own[r.Intn(len(own))]
					}
					mu.Lock()
					defer mu.Unlock()
					return known[r.Intn(len(known))]
				}
				for k := 0; k < ops; k++ {
					if r.Intn(3) == 0 {
						runtime.Gosched()
					}
					m := map[string]any{"k": "call", "th": th + 1, "obj": 0}
					log = append(log, ev{atomic.AddInt64(&seq, 1), m})
					res, hd := 0, uint64(0)
					switch r.Intn(4) {
					case 0:
						o := int(atomic.AddInt64(&objs, 1))
						m["op"], m["obj"] = "put", o
						hd = l.Put(o)
						own = append(own, hd)
						mu.Lock()
						known = append(known, hd)
						mu.Unlock()
					case 1:
						m["op"], hd = "remove", pick()
						res, _ = l.Remove(hd)
					default:
						m["op"], hd = "get", pick()
						res, _ = l.Get(hd)
					}
					m["hd"] = hd
					log = append(log, ev{atomic.AddInt64(&seq, 1), map[string]any{"k": "ret", "th": th + 1, "res": res}})
				}
				logs[th] = log
			}()
		}
		wg.Wait()
		all := make([]map[string]any, seq)
		for _, lg := range logs {
			for _, e := range lg {
				all[e.seq-1] = e.m
			}
		}
		for _, m := range all {
			if hd, ok := m["hd"].(uint64); ok {
				if _, seen := hmap[hd]; !seen {
					hmap[hd] = len(hmap) + 1
				}
				m["hd"] = hmap[hd]
			}
		}
		return nil, all
	})
}
