//go:build go1.22

package engine

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// the contexts which handlers run with (Contexts.tla)

type ctxKey struct{}

const connOwner = 99

type ctxCall struct {
	end    endpoint
	form   string
	id     uint32
	cancel context.CancelFunc
	until  time.Time
	f      flux.Flux[payload.Payload]
	sink   flux.Sink[payload.Payload]
}

type ctxAsk struct {
	end   endpoint
	form  string
	id    uint32
	gate  chan struct{}
	ctx   context.Context
	calls int
	sink  flux.Sink[payload.Payload]
	msink mono.Sink[payload.Payload]
}

type contexts struct {
	mu    sync.Mutex
	rnd   *rand.Rand
	kind  string // host, client, server, guest
	ends  map[int]endpoint
	base  uint32
	calls map[int]*ctxCall
	asks  map[int]*ctxAsk
	real  map[[2]int]uint32 // stream number by instance and number of the specification
	conn  context.CancelFunc
	until time.Time
	errs  []string
}

func (w *contexts) owner(k int, until time.Time) (context.Context, context.CancelFunc) {
	ctx, cancel := context.WithDeadline(context.WithValue(context.Background(), ctxKey{}, k), until)
	return ctx, cancel
}

func newContexts(kind string, rnd *rand.Rand) *contexts {
	w := &contexts{kind: kind, rnd: rnd, ends: map[int]endpoint{}, calls: map[int]*ctxCall{}, asks: map[int]*ctxAsk{}, real: map[[2]int]uint32{}}
	w.base = 2 * []uint32{0, 0, 0, 1000, 1 << 23, 1<<30 - 1000}[rnd.Intn(6)]
	w.until = time.Now().Add(time.Duration(1+connOwner) * time.Hour)
	var ctx context.Context
	ctx, w.conn = w.owner(connOwner, w.until)
	for i := 1; i <= 2; i++ {
		w.ends[i] = newCtxEnd(kind, ctx, w)
	}
	theWorld = w
	return w
}

func (w *contexts) called(ctx context.Context, form string, p payload.Payload) *ctxAsk {
	md, at := p.Metadata(), 0
	if (form == "rs" || form == "rc") || w.kind == "host" {
		at = 8
	}
	j := 0
	if len(p.Data()) == 1 {
		j = int(p.Data()[0])
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	a := w.asks[j]
	if a == nil || a.form != form || len(md) < at {
		w.errs = append(w.errs, fmt.Sprintf("a handler for %s was called with data %v, metadata %v", form, p.Data(), md))
		return &ctxAsk{gate: make(chan struct{})}
	}
	a.ctx = ctx
	a.calls++
	return a
}

func (w *contexts) rr(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	a := w.called(ctx, "rr", p)
	return mono.Create(func(sink mono.Sink[payload.Payload]) { a.msink = sink })
}
func (w *contexts) fnf(ctx context.Context, p payload.Payload) {
	if a := w.called(ctx, "fnf", p); gated {
		<-a.gate
	}
}
func (w *contexts) rs(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	return w.publish(w.called(ctx, "rs", p))
}
func (w *contexts) rc(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	a := w.called(ctx, "rc", p)
	in.Subscribe(flux.Subscribe[payload.Payload]{})
	return w.publish(a)
}
func (w *contexts) publish(a *ctxAsk) flux.Flux[payload.Payload] {
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		a.sink = sink
		sink.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {}})
	})
}

// parent gives the number which a request names as its parent.
func (w *contexts) parent(i, n int) uint32 {
	if n == 0 {
		return 0
	}
	if id, ok := w.real[[2]int{i, n}]; ok {
		return id
	}
	used := map[uint32]bool{0: true}
	var l []uint32
	for k, id := range w.real {
		if k[0] == i {
			used[id] = true
		}
		// numbers which look like one in use
		var b [4]byte
		binary.LittleEndian.PutUint32(b[:], id)
		l = append(l, 1<<31|id, id<<8, id<<16, id<<24, id>>1, id>>8, binary.BigEndian.Uint32(b[:]), id+2, id^1)
	}
	l = append(l, uint32(5000+n), 1<<32-1, 1<<31, uint32(n), opNumber)
	sort.Slice(l, func(x, y int) bool { return l[x] < l[y] })
	for {
		if id := l[w.rnd.Intn(len(l))]; !used[id] {
			return id
		}
	}
}

// frame gives the frame of a step of the peer, if it is one.
func (w *contexts) frame(s vh.Step) (endpoint, []byte) {
	arg := s.M("arg")
	enc := func(id uint32, t string) []byte {
		switch t {
		case "next":
			return encode(&frames.Payload{StreamID: id, Data: []byte("v"), Next: true})
		case "last":
			return encode(&frames.Payload{StreamID: id, Data: []byte("v"), Next: true, Complete: true})
		case "complete":
			return encode(&frames.Payload{StreamID: id, Complete: true})
		case "error":
			return encode(&frames.Error{StreamID: id, Data: "no"})
		}
		return encode(&frames.Cancel{StreamID: id})
	}
	switch {
	case s.A() == "answer":
		k := w.calls[arg.I("k")]
		return k.end, enc(k.id, arg.S("t"))
	case s.A() == "feed" && arg.S("t") == "refuse":
		k := w.calls[arg.I("k")]
		return k.end, enc(k.id, "cancel")
	case s.A() == "frame":
		a := w.asks[arg.I("j")]
		return a.end, enc(a.id, arg.S("t"))
	case s.A() == "ask":
		i, n := arg.I("i"), arg.I("n")
		parent := w.parent(i, arg.I("p"))
		a := &ctxAsk{end: w.ends[i], form: arg.S("f"), id: w.base + uint32(n), gate: make(chan struct{}, 1)}
		if a.end.Odd() {
			a.id++
		}
		if w.kind == "guest" {
			if guestIDs += 2; guestIDs > 0x70000000 {
				guestIDs = 100
			}
			a.id = guestIDs
		}
		md := opMeta(opNumber, parent, make([]byte, w.rnd.Intn(3)*w.rnd.Intn(60)))
		w.rnd.Read(md[8:])
		w.mu.Lock()
		w.asks[arg.I("j")], w.real[[2]int{i, n}] = a, a.id
		w.mu.Unlock()
		return a.end, encode(&frames.RequestPayload{FrameType: types[a.form], StreamID: a.id, Metadata: md, Data: []byte{byte(arg.I("j"))}, InitialN: 1})
	}
	return nil, nil
}

func (w *contexts) act(s vh.Step) {
	arg := s.M("arg")
	switch s.A() {
	case "call":
		n := arg.I("k")
		k := &ctxCall{end: w.ends[arg.I("i")], form: arg.S("f"), until: time.Now().Add(time.Duration(n) * time.Hour)}
		w.calls[n] = k
		var ctx context.Context
		ctx, k.cancel = w.owner(n, k.until)
		p := payload.New([]byte("call"), opMeta(0, 0, nil))
		by := k.end.Caller()
		switch k.form {
		case "rr":
			by.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{})
		case "fnf":
			by.FireAndForget(ctx, p)
		case "rs":
			k.f = by.RequestStream(ctx, p)
		case "rc":
			k.f = by.RequestChannel(ctx, p, flux.Create(func(sink flux.Sink[payload.Payload]) {
				k.sink = sink
				sink.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {}})
			}))
		}
		if k.f != nil {
			k.f.Subscribe(flux.Subscribe[payload.Payload]{})
		}
		vh.Quiet()
		for try := 0; k.id == 0 && try < 50; try++ {
			if try > 0 {
				time.Sleep(10 * time.Millisecond)
			}
			for _, b := range k.end.Sent() {
				if f, err := decode(b); err == nil {
					if r, ok := f.(*frames.RequestPayload); ok {
						k.id = r.StreamID
					}
				}
			}
		}
		if k.id == 0 {
			w.errs = append(w.errs, "the request of a call has not left")
		}
		w.real[[2]int{arg.I("i"), arg.I("n")}] = k.id
	case "feed":
		w.calls[arg.I("k")].sink.Complete()
	case "cancel":
		w.calls[arg.I("k")].f.Subscription().Cancel()
	case "expire":
		if k := arg.I("k"); k == connOwner {
			w.conn()
		} else {
			w.calls[k].cancel()
		}
	case "tell":
		if a := w.asks[arg.I("j")]; a.sink != nil {
			a.sink.Next(payload.New([]byte("v")))
		}
	case "end":
		a, bad := w.asks[arg.I("j")], arg.S("t") == "error"
		switch {
		case a.form == "fnf":
			a.gate <- struct{}{}
		case a.form == "rr" && a.msink != nil && bad:
			a.msink.Error(errors.New("no"))
		case a.form == "rr" && a.msink != nil:
			a.msink.Success(payload.New([]byte("v")))
		case a.sink != nil && bad:
			a.sink.Error(errors.New("no"))
		case a.sink != nil:
			a.sink.Complete()
		}
	}
}

// tells is what the context of a request tells.
func (w *contexts) tells(j, own int) (res string) {
	w.mu.Lock()
	defer w.mu.Unlock()
	a := w.asks[j]
	if a.ctx == nil || a.calls != 1 {
		return fmt.Sprintf("%d: its handler was called %d times", j, a.calls)
	}
	k, _ := a.ctx.Value(ctxKey{}).(int)
	until, limited := a.ctx.Deadline()
	switch own {
	case 0:
		if limited {
			res += " has a deadline"
		}
	case connOwner:
		if !limited || !until.Equal(w.until) {
			res += " has another deadline than the connection"
		}
	default:
		if !limited || !until.Equal(w.calls[own].until) {
			res += " has another deadline than the caller's"
		}
	}
	if s, ok := proxy.FromContext(a.ctx); w.kind != "host" && (a.form == "rr" || a.form == "fnf") && (!ok || s.StreamID() != a.id) {
		res += " does not tell the number of the request"
	}
	done := a.ctx.Err() != nil
	select {
	case <-a.ctx.Done():
		if !done {
			res += " is done without an error"
		}
	default:
		if done {
			res += " is cancelled but not done"
		}
	}
	return fmt.Sprintf("%d: own=%d done=%v%s", j, k, done, res)
}

func (w *contexts) run(steps []vh.Step, burst bool) any {
	for i := 0; i < len(steps); {
		// what the peer does in a row may arrive at once
		first := i
		crash := vh.Guard(func() any {
			to, b := w.frame(steps[i])
			if to == nil {
				w.act(steps[i])
				i++
				return nil
			}
			bufs := [][]byte{b}
			for i++; burst && i < len(steps); i++ {
				if steps[i].M("arg").Has("i") && w.ends[steps[i].M("arg").I("i")] != to {
					break
				}
				if steps[i].A() != "ask" && steps[i].A() != "answer" && steps[i].A() != "frame" {
					break
				}
				next, b := w.frame(steps[i])
				if next != to {
					// another instance: everything before has to arrive first
					to.Deliver(bufs...)
					vh.Quiet()
					to, bufs = next, nil
				}
				bufs = append(bufs, b)
			}
			to.Deliver(bufs...)
			return nil
		})
		vh.Quiet()
		if i == first {
			i++
		}
		s := steps[i-1]
		var want []string
		own := map[int]int{}
		for _, x := range s.L("o") {
			y := vh.Step(x.(map[string]any))
			o := y.I("own")
			own[y.I("j")] = o
			if w.kind == "guest" {
				own[y.I("j")], o = 0, 0 // a module has no connection
			}
			want = append(want, fmt.Sprintf("%d: own=%d done=%v", y.I("j"), o, y.B("done")))
		}
		sort.Strings(want)
		var got []string
		for try := 0; try < 4; try++ {
			if try > 0 {
				time.Sleep(30 * time.Millisecond)
			}
			got = nil
			for j, o := range own {
				got = append(got, w.tells(j, o))
			}
			sort.Strings(got)
			if crash != nil {
				got = append(got, fmt.Sprint(crash))
			}
			w.mu.Lock()
			got = append(got, w.errs...)
			w.mu.Unlock()
			if vh.Equal(want, got) {
				break
			}
		}
		if !vh.Equal(want, got) {
			return map[string]any{"index": i - 1, "step": s, "want": want, "got": got}
		}
	}
	return nil
}

// settle lets everything that is still under way end.
func (w *contexts) settle() any {
	for _, k := range w.calls {
		if k.form != "fnf" {
			k.end.Deliver(encode(&frames.Error{StreamID: k.id, Data: "over"}))
		}
		k.cancel()
	}
	for _, a := range w.asks {
		select {
		case a.gate <- struct{}{}:
		default:
		}
		if a.msink != nil {
			a.msink.Success(payload.New(nil))
		}
		if a.form == "rs" || a.form == "rc" {
			a.end.Deliver(encode(&frames.Cancel{StreamID: a.id}))
		}
	}
	vh.Quiet()
	w.conn()
	for _, e := range w.ends {
		e.Close()
	}
	return nil
}

func TestContexts(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		hostSide()
		for _, kind := range strings.Split(os.Getenv("ENDS"), ",") {
			w := newContexts(kind, vh.Rand(vh.Cur()))
			bad := w.run(vh.Steps(raw), os.Getenv("BURST") != "")
			if m, ok := bad.(map[string]any); ok {
				m["end"] = kind
				vh.Restart(bad)
			}
			if bad != nil {
				return bad, nil
			}
			if e := vh.Guard(w.settle); e != nil {
				vh.Restart(map[string]any{"what": "after the behaviour", "step": map[string]any{"a": "settle"}, "got": e, "end": kind})
			}
		}
		return nil, nil
	})
}
