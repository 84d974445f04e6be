//go:build go1.22

package flow

import (
	"errors"
	"math/rand"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/await"
	"github.com/nanobus/iota/go/rx/flow"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

var errBoom = errors.New("boom")

// task is an awaited item of our own: it runs once asked to.
type task struct {
	mu    sync.Mutex
	now   bool
	asked bool
	done  bool
	cbs   []rx.FnFinally
}

func (a *task) Async() {
	a.mu.Lock()
	a.asked = true
	now := a.now
	a.mu.Unlock()
	if now {
		a.finish()
	}
}
func (a *task) Notify(fn rx.FnFinally) {
	a.mu.Lock()
	if a.done {
		a.mu.Unlock()
		fn(rx.SignalComplete)
		return
	}
	a.cbs = append(a.cbs, fn)
	a.mu.Unlock()
}
func (a *task) finish() {
	a.mu.Lock()
	if a.done {
		a.mu.Unlock()
		return
	}
	a.done = true
	cbs := a.cbs
	a.cbs = nil
	a.mu.Unlock()
	for _, fn := range cbs {
		fn(rx.SignalComplete)
	}
}

type item struct {
	kind string
	aw   await.Awaitable
	fin  func(how string)
	ask  func() int
}

// spy wraps an awaitable so that we see whether it was asked to run.
type spy struct {
	await.Awaitable
	mu    sync.Mutex
	asked int
}

func (s *spy) Async() {
	s.mu.Lock()
	s.asked = 1
	s.mu.Unlock()
	s.Awaitable.Async()
}

func newItem(kind string) *item {
	it := &item{kind: kind}
	var base await.Awaitable
	switch kind {
	case "proc":
		p := mono.NewProcessor[int]()
		p.Subscribe(mono.Subscribe[int]{})
		base = p
		it.fin = func(how string) {
			if how == "error" {
				p.Error(errBoom)
			} else {
				p.Success(1)
			}
		}
	case "fproc":
		p := flux.NewProcessor[int]()
		p.Subscribe(flux.Subscribe[int]{})
		base = p
		it.fin = func(how string) {
			p.Next(1)
			if how == "error" {
				p.Error(errBoom)
			} else {
				p.Complete()
			}
		}
	case "lazy":
		t := &task{}
		base, it.fin = t, func(string) { t.finish() }
	case "now":
		t := &task{now: true}
		base, it.fin = t, func(string) {}
	case "just":
		base, it.fin = mono.Just(1), func(string) {}
	case "err":
		base, it.fin = mono.Error[int](errBoom), func(string) {}
	}
	s := &spy{Awaitable: base}
	it.aw = s
	it.ask = func() int { s.mu.Lock(); defer s.mu.Unlock(); return s.asked }
	return it
}

// add gives a flow its steps: one by one, all at once, or first some that another
// flow begins with too.
func add[T any](f *flow.Flow[T], fns []flow.StepFn, way int) {
	switch way % 4 {
	case 0:
		for _, fn := range fns {
			f.Steps(fn)
		}
	case 1:
		f.Steps(fns...)
	default:
		k := (way / 4) % (len(fns) + 1)
		common := append(make([]flow.StepFn, 0, len(fns)+4), fns[:k]...)
		strange := func() (await.Group, error) { return nil, errStrange }
		other := flow.New[T]()
		if way%4 == 2 {
			other.Steps(common...)
			f.Steps(common...).Steps(fns[k:]...)
		} else {
			f.Steps(common...).Steps(fns[k:]...)
			other.Steps(common...)
		}
		other.Steps(strange).Steps(strange, strange)
	}
}

var errStrange = errors.New("step of another flow")

type world struct {
	mu  sync.Mutex
	log []any
}

func (w *world) L(e ...any) {
	w.mu.Lock()
	w.log = append(w.log, e)
	w.mu.Unlock()
}
func (w *world) take() []any {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.log
	w.log = nil
	if l == nil {
		l = []any{}
	}
	return l
}

func build(pub string, items []*item, steps []any, w *world) func() {
	f := flow.New[int]()
	var fns []flow.StepFn
	for k, x := range steps {
		st := vh.Step(x.(map[string]any))
		n := k + 1
		fns = append(fns, func() (await.Group, error) {
			w.L("step", n)
			if i := st.I("fin"); i > 0 {
				items[i-1].fin("complete")
			}
			if st.B("val") {
				f.Next(n)
			}
			var g []await.Awaitable
			for _, i := range st.L("aw") {
				g = append(g, items[int(i.(float64))-1].aw)
			}
			switch st.S("k") {
			case "fail":
				return nil, errBoom
			case "ferror":
				return f.Error(errBoom)
			case "end":
				return f.End()
			case "final":
				var r await.Group
				var err error
				if pub == "mono" {
					r, err = f.Success(n)
				} else {
					r, err = f.Complete()
				}
				if len(g) == 0 {
					return r, err
				}
			}
			return await.All(g...)
		})
	}
	add(f, fns, vh.Cur())
	return func() {
		fin := func(s rx.SignalType) {
			w.L("finally", map[rx.SignalType]string{rx.SignalComplete: "complete", rx.SignalError: "error", rx.SignalCancel: "cancel"}[s])
		}
		if pub == "mono" {
			f.Mono().Subscribe(mono.Subscribe[int]{OnSuccess: func(v int) { w.L("success", v) }, OnError: func(e error) { w.L("error", e.Error()) }, Finally: fin})
		} else {
			f.Flux().Subscribe(flux.Subscribe[int]{OnNext: func(v int) { w.L("next", v) }, OnComplete: func() { w.L("complete") },
				OnError: func(e error) { w.L("error", e.Error()) }, Finally: fin})
		}
	}
}

func TestFlow(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (res any, _ any) {
		synctest.Test(t, func(t *testing.T) {
			w := &world{}
			var items []*item
			var start func()
			res = vh.RunSteps(raw, func(i int, s vh.Step) any {
				switch s.A() {
				case "cfg":
					for _, k := range s.L("items") {
						items = append(items, newItem(k.(string)))
					}
					start = build(s.S("pub"), items, s.L("steps"), w)
					return nil
				case "subscribe":
					start()
				case "finish":
					items[s.I("i")-1].fin(s.S("how"))
				}
				synctest.Wait()
				asked := []any{}
				if len(s.M("o").L("asked")) > 0 {
					for _, it := range items {
						asked = append(asked, it.ask())
					}
				}
				return map[string]any{"log": w.take(), "asked": asked}
			})
		})
		return
	})
}

// TestConc: the awaited items finish on threads of their own.
func TestConc(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (res any, extra any) {
		synctest.Test(t, func(t *testing.T) {
			g := rand.New(rand.NewSource(int64(vh.Steps(raw)[0].I("seed"))))
			kinds := []string{"proc", "fproc", "lazy"}
			n, ns := 1+g.Intn(5), 2+g.Intn(4)
			var items []*item
			for i := 0; i < n; i++ {
				items = append(items, newItem(kinds[g.Intn(3)]))
			}
			var mu sync.Mutex
			ev := []any{}
			rec := func(k string, i int) { mu.Lock(); ev = append(ev, map[string]any{"k": k, "i": i}); mu.Unlock() }
			f := flow.New[int]()
			steps := [][]int{}
			var fns []flow.StepFn
			for k := 0; k < ns; k++ {
				aw := []int{}
				if k < ns-1 {
					for j := g.Intn(4); j > 0; j-- {
						aw = append(aw, 1+g.Intn(n))
					}
				}
				steps = append(steps, aw)
				no := k + 1
				fns = append(fns, func() (await.Group, error) {
					rec("step", no)
					if no == ns {
						return f.Success(no)
					}
					grp := await.Group{}
					for _, i := range aw {
						grp = append(grp, items[i-1].aw)
					}
					return grp, nil
				})
			}
			add(f, fns, g.Intn(64))
			release := make(chan struct{})
			for i := range items {
				seed := g.Int63()
				go func() {
					r := rand.New(rand.NewSource(seed))
					<-release
					for k := r.Intn(4); k > 0; k-- {
						runtime.Gosched()
					}
					rec("fin", i+1)
					items[i].fin("complete")
				}()
			}
			sub := func() {
				f.Mono().Subscribe(mono.Subscribe[int]{OnSuccess: func(v int) { rec("success", v) }})
			}
			if g.Intn(2) == 0 {
				sub()
				close(release)
			} else {
				close(release)
				sub()
			}
			synctest.Wait()
			extra = map[string]any{"steps": steps, "ev": ev}
		})
		return
	})
}
