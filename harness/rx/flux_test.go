//go:build go1.22

package rx

import (
	"errors"
	"fmt"
	"math"
	"sort"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transform"
)

var errBoom = errors.New("boom")
var errBad = errors.New("bad")

const unlimited = 1000000

func sigName(s rx.SignalType) string {
	switch s {
	case rx.SignalComplete:
		return "complete"
	case rx.SignalCancel:
		return "cancel"
	case rx.SignalError:
		return "error"
	}
	return fmt.Sprint("signal-", int(s))
}

func errName(err error) string {
	if err == nil {
		return ""
	}
	return err.Error()
}

// amount brings demand into the numbers of the specification.
func amount(n int) int {
	if n > 1<<30 {
		return n - math.MaxInt32 + unlimited
	}
	return n
}

func tx(v int) (int, error) {
	if v == 9 {
		return 0, errBad
	}
	return v + 100, nil
}

type reaction struct {
	on, do string
	k, n   int
	used   bool
}

type logs struct {
	mu sync.Mutex
	s  []any
	p  []int
	l  [][]any
	b  []any
}

func (l *logs) S(e ...any) { l.mu.Lock(); l.s = append(l.s, e); l.mu.Unlock() }
func (l *logs) P(n int)    { l.mu.Lock(); l.p = append(l.p, n); l.mu.Unlock() }
func (l *logs) L(id int, sig rx.SignalType) {
	l.mu.Lock()
	l.l = append(l.l, []any{id, sigName(sig)})
	l.mu.Unlock()
}
func (l *logs) take() map[string]any {
	l.mu.Lock()
	defer l.mu.Unlock()
	sort.Ints(l.p)
	m := map[string]any{"s": orEmpty(l.s), "p": append([]int{}, l.p...), "l": sorted(vh.Norm(l.l)), "b": append([]any{}, l.b...)}
	l.s, l.p, l.l = nil, nil, nil
	return m
}
func orEmpty(x []any) []any {
	if x == nil {
		return []any{}
	}
	return x
}

// sorted orders what different listeners were told by listener (their relative order is not part of the property).
func sorted(v any) []any {
	x, _ := v.([]any)
	res := append([]any{}, x...)
	sort.SliceStable(res, func(i, j int) bool {
		return fmt.Sprint(res[i].([]any)[0]) < fmt.Sprint(res[j].([]any)[0])
	})
	return res
}

type world struct {
	logs
	react []*reaction
	f     flux.Flux[int]
	proc  flux.Processor[int]
	inner mono.Processor[int]
	src   string
	asks  []any
	cnt   int
	blk   bool
}

func (w *world) do(on string, k int) {
	for _, r := range w.react {
		if r.on == on && r.k == k && !r.used {
			r.used = true
			switch r.do {
			case "request":
				w.f.Subscription().Request(r.n)
			case "cancel":
				w.f.Subscription().Cancel()
			case "complete":
				if w.src == "proc" {
					w.proc.Complete()
				}
			case "error":
				if w.src == "proc" {
					w.proc.Error(errBoom)
				}
			case "push":
				if w.src == "proc" {
					w.proc.Next(5)
				}
			case "notify":
				w.notify(100 + r.n)
			}
			return
		}
	}
}

func (w *world) notify(id int) {
	w.f.Notify(func(sig rx.SignalType) {
		w.L(id, sig)
		w.do("notify", id)
	})
}

func (w *world) cfg(s vh.Step) {
	w.src = s.S("src")
	for _, x := range s.L("react") {
		r := vh.Step(x.(map[string]any))
		w.react = append(w.react, &reaction{on: r.S("on"), k: r.I("k"), do: r.S("do"), n: r.I("n")})
	}
	var vals []int
	for _, v := range s.L("vals") {
		vals = append(vals, int(v.(float64)))
	}
	switch w.src {
	case "proc":
		w.proc = flux.NewProcessor[int]()
		w.f = w.proc
	case "slice":
		w.f = flux.FromSlice(vals)
	case "batch":
		w.f = flux.Create(func(sink flux.Sink[int]) {
			sink.OnSubscribe(flux.OnSubscribe{Request: flux.SliceResponse(sink, vals), Cancel: func() { w.P(-1) }})
		})
	case "m2f":
		w.inner = mono.NewProcessor[int]()
		w.f = transform.MonoToFlux[int](w.inner)
	case "err":
		w.f = flux.Error[int](errBoom)
	case "sync":
		w.f = flux.Create(func(sink flux.Sink[int]) {
			sink.Next(1)
			sink.Next(2)
			sink.Complete()
		})
	case "synerr":
		w.f = flux.Create(func(sink flux.Sink[int]) {
			sink.Next(1)
			sink.Error(errBoom)
		})
	}
	if s.B("map") {
		w.f = flux.Map(w.f, tx)
	}
}

func (w *world) sub(c vh.Step) flux.Subscribe[int] {
	asks := c.M("asks")
	sub := flux.Subscribe[int]{
		OnNext: func(v int) {
			w.S("next", v)
			w.cnt++
			w.do("next", w.cnt)
		},
		OnComplete: func() { w.S("complete"); w.do("complete", 1) },
		OnError:    func(err error) { w.S("error", errName(err)); w.do("error", 1) },
		Finally:    func(sig rx.SignalType) { w.S("finally", sigName(sig)); w.do("finally", 1) },
		NoRequest:  asks.S("k") == "optout",
	}
	if asks.S("k") == "ask" {
		w.asks = asks.L("l")
		sub.OnRequest = func(s rx.Subscription) {
			w.S("ask")
			k := 0
			if len(w.asks) > 0 {
				k = int(w.asks[0].(float64))
				w.asks = w.asks[1:]
			}
			if k > 0 {
				s.Request(k)
			} else if k < 0 {
				s.Cancel()
			}
		}
	}
	return sub
}

func TestFlux(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (res any, _ any) {
		synctest.Test(t, func(t *testing.T) {
			steps := vh.Steps(raw)
			w := &world{}
			w.b = []any{"none"}
			w.cfg(steps[0])
			for i, s := range steps[1:] {
				got := vh.Guard(func() any {
					switch s.A() {
					case "subscribe":
						w.f.Subscribe(w.sub(steps[0]))
					case "block":
						w.block(steps[0])
					case "attach":
						w.proc.OnSubscribe(flux.OnSubscribe{
							Request: func(n int) { w.P(amount(n)) },
							Cancel:  func() { w.P(-1) },
						})
					case "push":
						w.proc.Next(s.I("v"))
					case "complete":
						w.proc.Complete()
					case "error":
						w.proc.Error(errBoom)
					case "request":
						w.f.Subscription().Request(s.I("n"))
					case "cancel":
						w.f.Subscription().Cancel()
					case "notify":
						w.notify(s.I("id"))
					case "inner":
						switch s.S("r") {
						case "v":
							w.inner.Success(7)
						case "b":
							w.inner.Success(9)
						case "e":
							w.inner.Error(errBoom)
						}
					}
					synctest.Wait()
					return w.take()
				})
				want := s["o"].(map[string]any)
				want["l"] = sorted(want["l"])
				if w.src != "proc" && w.src != "batch" {
					// nothing of these publishers' producers can be seen
					want["p"] = []any{}
				} else if w.src == "batch" {
					want["p"] = onlyCancels(want["p"])
				}
				if !vh.Equal(want, got) {
					res = map[string]any{"index": i + 1, "step": s, "want": want, "got": vh.Norm(got), "cfg": steps[0]}
					vh.Restart(res)
				}
			}
			w.release()
			synctest.Wait()
		})
		return
	})
}

func onlyCancels(v any) []any {
	x, _ := v.([]any)
	res := []any{}
	for _, n := range x {
		if n.(float64) < 0 {
			res = append(res, n)
		}
	}
	return res
}

// release lets a blocked caller go, so that the bubble can end.
func (w *world) release() {
	defer func() { recover() }()
	if w.blk && w.src != "err" {
		w.react = nil
		if s := w.f.Subscription(); s != nil {
			s.Cancel()
		}
	}
}
