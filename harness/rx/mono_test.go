//go:build go1.22

package rx

import (
	"testing"
	"testing/synctest"

	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transform"
)

type mworld struct {
	logs
	react []*reaction
	m     mono.Mono[int]
	proc  mono.Processor[int]
	sink  mono.Sink[int]
	inner flux.Processor[int]
	src   string
	ended bool
	blk   bool
}

func (w *mworld) do(on string, k int) {
	for _, r := range w.react {
		if r.on == on && r.k == k && !r.used {
			r.used = true
			switch r.do {
			case "success":
				if w.src == "proc" {
					w.proc.Success(5)
				}
			case "error":
				if w.src == "proc" {
					w.proc.Error(errBoom)
				}
			case "notify":
				w.notify(100 + r.n)
			}
			return
		}
	}
}

func (w *mworld) notify(id int) {
	w.m.Notify(func(sig rx.SignalType) {
		w.L(id, sig)
		w.do("notify", id)
	})
}

// voidToInt makes the void value comparable (0), without the transformation of the behaviour.
func voidToInt(struct{}) (int, error) { return 0, nil }

func (w *mworld) cfg(s vh.Step) {
	w.src = s.S("src")
	for _, x := range s.L("react") {
		r := vh.Step(x.(map[string]any))
		w.react = append(w.react, &reaction{on: r.S("on"), k: r.I("k"), do: r.S("do"), n: r.I("n")})
	}
	jv := s.I("jv")
	switch w.src {
	case "just":
		w.m = mono.Just(jv)
	case "err":
		w.m = mono.Error[int](errBoom)
	case "proc":
		p := mono.NewProcessor[int]()
		w.proc, w.m = p, p
	case "create":
		w.m = mono.Create(func(sink mono.Sink[int]) { w.sink = sink })
	case "sync":
		w.m = mono.Create(func(sink mono.Sink[int]) { sink.Success(jv) })
	case "synerr":
		w.m = mono.Create(func(sink mono.Sink[int]) { sink.Error(errBoom) })
	case "f2m":
		w.inner = flux.NewProcessor[int]()
		w.m = transform.FluxToMono[int](w.inner)
	case "f2v":
		w.inner = flux.NewProcessor[int]()
		w.m = mono.Map(transform.FluxToVoid[int](w.inner), voidToInt)
	}
	if s.B("map") {
		w.m = mono.Map(w.m, tx)
	}
}

func (w *mworld) sub() mono.Subscribe[int] {
	return mono.Subscribe[int]{
		OnSuccess: func(v int) { w.S("success", v); w.do("success", 1) },
		OnError:   func(err error) { w.S("error", errName(err)); w.do("error", 1) },
		Finally:   func(sig rx.SignalType) { w.S("finally", sigName(sig)); w.do("finally", 1) },
	}
}

func TestMono(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (res any, _ any) {
		synctest.Test(t, func(t *testing.T) {
			steps := vh.Steps(raw)
			w := &mworld{}
			w.b = []any{"none"}
			w.cfg(steps[0])
			for i, s := range steps[1:] {
				want := s["o"].(map[string]any)
				got := vh.Guard(func() any {
					switch s.A() {
					case "subscribe":
						w.m.Subscribe(w.sub())
					case "block":
						w.block()
					case "success":
						w.proc.Success(s.I("v"))
					case "error":
						w.proc.Error(errBoom)
					case "sinksuccess":
						w.sink.Success(s.I("v"))
					case "sinkerror":
						w.sink.Error(errBoom)
					case "cancel":
						w.sink.(interface{ Cancel() }).Cancel()
					case "inext":
						w.inner.Next(s.I("v"))
					case "icomplete":
						w.inner.Complete()
					case "ierror":
						w.inner.Error(errBoom)
					case "notify":
						w.notify(s.I("id"))
					}
					synctest.Wait()
					m := w.take()
					delete(m, "p")
					g := []any{}
					if wg, _ := want["g"].([]any); len(wg) > 0 {
						v, err := w.m.Get()
						if err != nil {
							v = 0
						}
						g = []any{v, errName(err)}
					}
					m["g"] = g
					return m
				})
				want["l"] = sorted(want["l"])
				if !vh.Equal(want, got) {
					res = map[string]any{"index": i + 1, "step": s, "want": want, "got": vh.Norm(got), "cfg": steps[0]}
					vh.Restart(res)
				}
			}
			w.release()
			synctest.Wait()
		})
		return
	})
}

func (w *mworld) release() {
	defer func() { recover() }()
	if w.blk {
		w.react = nil
		if w.proc != nil {
			w.proc.Success(1)
		}
		if w.sink != nil {
			w.sink.Success(1)
		}
		if w.inner != nil {
			w.inner.Complete()
		}
	}
}
