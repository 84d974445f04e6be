//go:build go1.22 && !wasi

package rx

import (
	"math/rand"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// rec records the events of one execution in their real-time order.
type rec struct {
	mu sync.Mutex
	ev []map[string]any
}

func (r *rec) add(m map[string]any) {
	r.mu.Lock()
	r.ev = append(r.ev, m)
	r.mu.Unlock()
}
func (r *rec) call(th int, op string, v int, f func()) {
	r.add(map[string]any{"k": "call", "th": th, "op": op, "v": v})
	f()
	r.add(map[string]any{"k": "ret", "th": th})
}

func jitter(g *rand.Rand) {
	for i := g.Intn(4); i > 0; i-- {
		runtime.Gosched()
	}
}

// TestConc runs concurrent programs against a publisher and returns the recorded events.
func TestConc(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (res any, extra any) {
		synctest.Test(t, func(t *testing.T) {
			st := vh.Steps(raw)[0]
			g := rand.New(rand.NewSource(int64(st.I("seed"))))
			if st.S("kind") == "mono" {
				extra = concMono(g)
			} else {
				extra = concFlux(g)
			}
		})
		return nil, extra
	})
}

type thread func(th int, g *rand.Rand)

func run(g *rand.Rand, ths []thread) {
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i, f := range ths {
		lg := rand.New(rand.NewSource(g.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			jitter(lg)
			f(i+1, lg)
		}()
	}
	close(start)
	wg.Wait()
	synctest.Wait()
}

func concFlux(g *rand.Rand) any {
	r := &rec{ev: []map[string]any{}}
	p := flux.NewProcessor[int]()
	var f flux.Flux[int] = p
	mapped := g.Intn(2) == 0
	if mapped {
		f = flux.Map[int, int](p, func(v int) (int, error) {
			if v == 9 {
				return 0, errBad
			}
			return v, nil
		})
	}
	noreq := g.Intn(2) == 0
	sub := flux.Subscribe[int]{
		OnNext:     func(v int) { r.add(map[string]any{"k": "next", "v": v}) },
		OnComplete: func() { r.add(map[string]any{"k": "complete"}) },
		OnError:    func(error) { r.add(map[string]any{"k": "error"}) },
		Finally:    func(s rx.SignalType) { r.add(map[string]any{"k": "finally", "sig": sigName(s)}) },
		NoRequest:  true,
	}
	if !noreq {
		sub.NoRequest = false
		sub.OnRequest = func(rx.Subscription) {}
	}
	ready := make(chan struct{})
	attached := make(chan struct{})
	attach := func() {
		defer close(attached)
		p.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) { r.add(map[string]any{"k": "demand", "v": n}) },
			Cancel:  func() {},
		})
	}
	listeners := g.Intn(4)
	early := g.Intn(2) == 0
	concSub := g.Intn(2) == 0
	var ths []thread
	doSub := func() { f.Subscribe(sub); close(ready) }
	if early {
		attach()
	} else {
		ths = append(ths, func(th int, g *rand.Rand) { attach() })
	}
	if concSub {
		ths = append(ths, func(th int, g *rand.Rand) { doSub() })
	} else {
		doSub()
	}
	prod := g.Intn(4)
	pushes := g.Intn(3)
	ths = append(ths, func(th int, g *rand.Rand) {
		<-ready
		<-attached // values handed over before attaching count against the demand passed on
		for i := 1; i <= pushes; i++ {
			r.call(th, "push", i, func() { p.Next(i) })
			jitter(g)
		}
		switch prod {
		case 0:
			r.call(th, "complete", 0, p.Complete)
		case 1:
			r.call(th, "error", 0, func() { p.Error(errBoom) })
		case 2:
			if mapped {
				r.call(th, "push", 9, func() { p.Next(9) })
			}
		}
	})
	if g.Intn(2) == 0 {
		ths = append(ths, func(th int, g *rand.Rand) {
			<-ready
			jitter(g)
			r.call(th, "cancel", 0, func() { f.Subscription().Cancel() })
		})
	}
	if g.Intn(4) == 0 {
		ths = append(ths, func(th int, g *rand.Rand) {
			<-ready
			r.call(th, "error", 0, func() { p.Error(errBoom) })
		})
	}
	for k := g.Intn(3); k > 0; k-- {
		n := g.Intn(3) + 1
		ths = append(ths, func(th int, g *rand.Rand) {
			<-ready
			for i := 0; i < n; i++ {
				a := g.Intn(3) + 1
				r.call(th, "request", a, func() { f.Subscription().Request(a) })
			}
		})
	}
	for id := 1; id <= listeners; id++ {
		ths = append(ths, func(th int, g *rand.Rand) {
			jitter(g)
			// Some listeners register before the subscription, most around the end.
			if g.Intn(4) != 0 {
				<-ready
			}
			f.Notify(func(s rx.SignalType) { r.add(map[string]any{"k": "told", "v": id, "sig": sigName(s)}) })
		})
	}
	g.Shuffle(len(ths), func(i, j int) { ths[i], ths[j] = ths[j], ths[i] })
	run(g, ths)
	return map[string]any{"ev": r.ev, "listeners": listeners, "map": mapped, "attached": true, "strict": true}
}

func concMono(g *rand.Rand) any {
	r := &rec{ev: []map[string]any{}}
	p := mono.NewProcessor[int]()
	var m mono.Mono[int] = p
	if g.Intn(2) == 0 {
		m = mono.Map[int, int](p, func(v int) (int, error) { return v, nil })
	}
	sub := mono.Subscribe[int]{
		OnSuccess: func(v int) { r.add(map[string]any{"k": "complete"}) },
		OnError:   func(error) { r.add(map[string]any{"k": "error"}) },
		Finally:   func(s rx.SignalType) { r.add(map[string]any{"k": "finally", "sig": sigName(s)}) },
	}
	listeners := g.Intn(4)
	ths := []thread{func(th int, g *rand.Rand) { m.Subscribe(sub) }}
	if g.Intn(4) != 0 {
		ths = append(ths, func(th int, g *rand.Rand) { r.call(th, "success", 1, func() { p.Success(1) }) })
	}
	if g.Intn(2) == 0 {
		ths = append(ths, func(th int, g *rand.Rand) { r.call(th, "error", 0, func() { p.Error(errBoom) }) })
	}
	for id := 1; id <= listeners; id++ {
		ths = append(ths, func(th int, g *rand.Rand) {
			jitter(g)
			m.Notify(func(s rx.SignalType) { r.add(map[string]any{"k": "told", "v": id, "sig": sigName(s)}) })
		})
	}
	g.Shuffle(len(ths), func(i, j int) { ths[i], ths[j] = ths[j], ths[i] })
	run(g, ths)
	// The outcome may be decided by the subscribe call that comes after the signal.
	return map[string]any{"ev": hoist(r.ev), "listeners": listeners, "map": false, "attached": false, "strict": false}
}

// hoist keeps the signals of a mono pending until the end: a value that comes before the
// subscription is kept by the processor and delivered inside Subscribe.
func hoist(ev []map[string]any) []map[string]any {
	res := []map[string]any{}
	for _, e := range ev {
		if e["k"] == "ret" {
			continue
		}
		res = append(res, e)
	}
	return res
}
