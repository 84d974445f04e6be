//go:build go1.22

package engine

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

const opNumber = 3

// the world in which the handlers of the process run at the moment
var theWorld interface {
	rr(context.Context, payload.Payload) mono.Mono[payload.Payload]
	fnf(context.Context, payload.Payload)
	rs(context.Context, payload.Payload) flux.Flux[payload.Payload]
	rc(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload]
}

func registerGlobal() {
	for i := 0; i < opNumber; i++ {
		invoke.ExportRequestResponse("x", fmt.Sprint(i), func(context.Context, payload.Payload) mono.Mono[payload.Payload] {
			panic("another operation was called")
		})
		invoke.ExportFireAndForget("x", fmt.Sprint(i), func(context.Context, payload.Payload) { panic("another operation was called") })
		invoke.ExportRequestStream("x", fmt.Sprint(i), func(context.Context, payload.Payload) flux.Flux[payload.Payload] {
			panic("another operation was called")
		})
		invoke.ExportRequestChannel("x", fmt.Sprint(i), func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			panic("another operation was called")
		})
	}
	invoke.ExportRequestResponse("x", "op", func(c context.Context, p payload.Payload) mono.Mono[payload.Payload] { return theWorld.rr(c, p) })
	invoke.ExportFireAndForget("x", "op", func(c context.Context, p payload.Payload) { theWorld.fnf(c, p) })
	invoke.ExportRequestStream("x", "op", func(c context.Context, p payload.Payload) flux.Flux[payload.Payload] { return theWorld.rs(c, p) })
	invoke.ExportRequestChannel("x", "op", func(c context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		return theWorld.rc(c, p, in)
	})
}

// slot is one stream of a behaviour.
type slot struct {
	name, kind string
	id         uint32
	pv         string
	base       int
	gate       chan string
	sink       flux.Sink[payload.Payload]
	msink      mono.Sink[payload.Payload]
	input      flux.Flux[payload.Payload]
	m          mono.Mono[payload.Payload]
	f          flux.Flux[payload.Payload]
	cancelled  bool
}

type ev struct {
	e string
	v int
}

type world struct {
	end   endpoint
	rnd   *rand.Rand
	mu    sync.Mutex
	slots map[string]*slot
	asked map[int]*slot // incoming request by its value
	evs   map[string][]ev
	ids   map[uint32]*slot
	errs  []string
	next  uint32
	step  int
	over  bool
	wrap  bool            // the numbers repeat behind a stream that is still open
	held  map[string]bool // the streams that are open
}

func (w *world) event(who, e string, v int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	l := w.evs[who]
	if e == "req" && len(l) > 0 && l[len(l)-1].e == "req" {
		l[len(l)-1].v += v
		return
	}
	w.evs[who] = append(l, ev{e, v})
}

func (w *world) wrong(format string, a ...any) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.errs = append(w.errs, fmt.Sprintf(format, a...))
}

// called is what every handler does first.
func (w *world) called(kind string, p payload.Payload) *slot {
	skip := 0
	if w.end.Full(kind) {
		skip = 8
	}
	v := valueOf(p.Data(), p.Metadata(), skip)
	w.mu.Lock()
	s := w.asked[v]
	w.mu.Unlock()
	if s == nil || s.kind != kind {
		w.wrong("a handler for %s was called with value %d, data %s, metadata %s", kind, v, vh.Short(p.Data()), vh.Short(p.Metadata()))
		return nil
	}
	w.event(s.name+":h", "call", v)
	return s
}

func (w *world) rr(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	s := w.called("rr", p)
	if s == nil {
		return mono.Error[payload.Payload](errors.New("lost"))
	}
	w.wait(s)
	switch s.pv {
	case "error":
		return mono.Error[payload.Payload](errors.New(errText(s.base)))
	case "slice":
		return mono.Just(value(s.base))
	}
	return mono.Create(func(sink mono.Sink[payload.Payload]) { s.msink = sink })
}

func (w *world) fnf(_ context.Context, p payload.Payload) {
	if s := w.called("fnf", p); s != nil {
		w.wait(s)
	}
}

// wait is where handlers stay until they are to return.
func (w *world) wait(s *slot) {
	if gated {
		s.pv = <-s.gate
		w.mu.Lock()
		s.base = w.step
		w.mu.Unlock()
	}
}

func (w *world) rs(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	s := w.called("rs", p)
	if s == nil {
		return flux.Error[payload.Payload](errors.New("lost"))
	}
	return w.answer(s)
}

func (w *world) rc(_ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	s := w.called("rc", p)
	if s == nil {
		return flux.Error[payload.Payload](errors.New("lost"))
	}
	s.input = in
	return w.answer(s)
}

func (w *world) answer(s *slot) flux.Flux[payload.Payload] {
	w.wait(s)
	return w.publisher(s, ":p")
}

func (w *world) publisher(s *slot, who string) flux.Flux[payload.Payload] {
	switch s.pv {
	case "create":
		return flux.Create(func(sink flux.Sink[payload.Payload]) {
			s.sink = sink
			sink.OnSubscribe(flux.OnSubscribe{
				Request: func(n int) { w.event(s.name+who, "req", n) },
				Cancel:  func() { w.event(s.name+who, "cancel", 0) },
			})
		})
	case "error":
		return flux.Error[payload.Payload](errors.New(errText(s.base)))
	case "slice":
		return flux.FromSlice([]payload.Payload{value(1000*s.base + 1), value(1000*s.base + 2), value(1000*s.base + 3)})
	}
	return nil
}

func (w *world) observe(s *slot, who string) flux.Subscribe[payload.Payload] {
	return flux.Subscribe[payload.Payload]{
		OnNext:     func(p payload.Payload) { w.event(s.name+who, "next", valueOf(p.Data(), p.Metadata(), 0)) },
		OnComplete: func() { w.event(s.name+who, "complete", 0) },
		OnError:    func(err error) { w.event(s.name+who, "error", errOf(err.Error())) },
		NoRequest:  true,
	}
}

// unused is a stream number that nobody uses.
func (w *world) unused() uint32 { return 0x7fff0000 + uint32(w.rnd.Intn(0xffff)) }

func (w *world) frame(s *slot, id uint32, arg vh.Step, v int) frames.Frame {
	switch arg.S("t") {
	case "reqn":
		return &frames.RequestN{StreamID: id, N: uint32(arg.I("n"))}
	case "cancel":
		return &frames.Cancel{StreamID: id}
	case "next":
		return &frames.Payload{StreamID: id, Data: data(v), Metadata: meta(v), Next: true}
	case "complete":
		return &frames.Payload{StreamID: id, Complete: true}
	case "last":
		return &frames.Payload{StreamID: id, Data: data(v), Metadata: meta(v), Next: true, Complete: true}
	case "error":
		return &frames.Error{StreamID: id, Code: 0x201, Data: errFits(v)}
	}
	panic("frame " + arg.S("t"))
}

var guestIDs uint32 = 100 // stream numbers stay taken for the life of a guest

// arrives gives the frame that a step of the peer lets arrive.
func (w *world) arrives(s vh.Step, v int) []byte {
	name := s.S("s")
	switch s.A() {
	case "preq":
		arg := s.M("arg")
		if guestIDs += 2 * uint32(1+w.rnd.Intn(3)); guestIDs > 0x70000000 {
			guestIDs = 100
		}
		id := guestIDs
		if !w.end.Odd() {
			id++
		}
		sl := &slot{name: name, kind: arg.S("k"), id: id, pv: arg.S("pv"), base: v, gate: make(chan string, 1)}
		op, md := uint32(opNumber), []byte(nil)
		switch arg.S("bad") {
		case "op":
			op = []uint32{opNumber + 1, 1 << 31, 1<<32 - 1}[w.rnd.Intn(3)]
			md = opMeta(op, 0, meta(v))
		case "md":
			md = opMeta(op, 0, nil)[:v%8]
		default:
			md = opMeta(op, 0, meta(v))
		}
		w.mu.Lock()
		w.slots[name], w.asked[v], w.ids[id] = sl, sl, sl
		w.mu.Unlock()
		return encode(&frames.RequestPayload{FrameType: types[sl.kind], StreamID: id, Metadata: md, Data: asking(v), InitialN: uint32(arg.I("n"))})
	case "pframe":
		sl := w.slots[name]
		id := sl.id
		if id == 0 {
			id = w.unused() // its request has not been sent, so no frame can mean it
		}
		return encode(w.frame(sl, id, s.M("arg"), v))
	case "punknown":
		return encode(w.frame(nil, w.unused(), s.M("arg"), v))
	}
	return nil
}

// tooBig is a payload that no frame can carry: by a little or by a lot, in its data or in its metadata.
func tooBig(v int) payload.Payload {
	// header 6, length of the metadata 3, length of the frame 3
	n := []int{16*1024 - 8, 16*1024 + 1, 40000, 1 << 20}[v%4]
	if v%3 == 0 {
		return payload.New([]byte("x"), make([]byte, n))
	}
	return payload.New(make([]byte, n), nil)
}

func (w *world) act(s vh.Step, v int) {
	sl := w.slots[s.S("s")]
	arg := s.M("arg")
	switch s.A() {
	case "down":
		w.end.Down(arg.S("cause"))
	case "return":
		sl.gate <- arg.S("pv")
	case "hnext":
		if sl.sink != nil {
			sl.sink.Next(value(v))
		}
	case "hbig":
		if sl.kind == "rr" {
			sl.msink.Success(tooBig(v))
		} else if sl.sink != nil {
			sl.sink.Next(tooBig(v))
		}
	case "ibig":
		sl.sink.Next(tooBig(v))
	case "hcomplete":
		if sl.sink != nil {
			sl.sink.Complete()
		}
	case "hsuccess":
		sl.msink.Success(value(v))
	case "herror":
		if sl.kind == "rr" {
			sl.msink.Error(errors.New(errText(v)))
		} else if sl.sink != nil {
			sl.sink.Error(errors.New(errText(v)))
		}
	case "hinsub":
		sl.input.Subscribe(w.observe(sl, ":i"))
	case "hinreq":
		if sub := sl.input.Subscription(); sub != nil {
			sub.Request(arg.I("n"))
		}
	case "hincancel":
		if sub := sl.input.Subscription(); sub != nil {
			sub.Cancel()
		}
	case "creq":
		sl = &slot{name: s.S("s"), kind: arg.S("k"), pv: arg.S("pv"), base: v}
		w.mu.Lock()
		w.slots[sl.name] = sl
		w.asked[v] = sl
		w.mu.Unlock()
		w.wrapAround(sl)
		p := payload.New(asking(v), opMeta(7, 0, meta(v)))
		if sl.pv == "big" {
			p = payload.New(tooBig(v).Data(), opMeta(7, 0, tooBig(v).Metadata()))
		}
		ctx := context.Background()
		switch sl.kind {
		case "rr":
			sl.m = w.end.Caller().RequestResponse(ctx, p)
		case "fnf":
			w.end.Caller().FireAndForget(ctx, p)
		case "rs":
			sl.f = w.end.Caller().RequestStream(ctx, p)
		case "rc":
			sl.f = w.end.Caller().RequestChannel(ctx, p, w.publisher(sl, ":q"))
		}
		told := func(sig rx.SignalType) {
			w.event(sl.name+":n", map[rx.SignalType]string{rx.SignalComplete: "complete", rx.SignalError: "error", rx.SignalCancel: "cancel"}[sig], 0)
		}
		if sl.m != nil {
			sl.m.Notify(told)
		} else if sl.f != nil {
			sl.f.Notify(told)
		}
	case "cawait":
		if sl.kind == "rr" {
			sl.m.Async()
		} else {
			sl.f.Async()
		}
	case "csub":
		if sl.kind == "rr" {
			sl.m.Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) {
					if len(p.Data()) == 0 && len(p.Metadata()) == 0 {
						w.event(sl.name+":s", "empty", 0)
					} else {
						w.event(sl.name+":s", "next", valueOf(p.Data(), p.Metadata(), 0))
					}
				},
				OnError: func(err error) { w.event(sl.name+":s", "error", errOf(err.Error())) },
			})
		} else {
			o := w.observe(sl, ":s")
			o.NoRequest = !arg.B("auto")
			sl.f.Subscribe(o)
		}
	case "cdemand":
		sl.f.Subscription().Request(arg.I("n"))
	case "ccancel":
		sl.f.Subscription().Cancel()
	case "inext":
		sl.sink.Next(value(v))
	case "icomplete":
		sl.sink.Complete()
	case "ierror":
		sl.sink.Error(errors.New(errText(v)))
	default:
		panic("action " + s.A())
	}
}

// wrapAround makes the numbers of own requests start again, up to the one that is used by the latest
// request, if that is still open, as when 2^30 requests were made meanwhile.
func (w *world) wrapAround(next *slot) {
	var last *slot
	for _, s := range w.asked {
		if s == next || s.gate != nil {
			continue
		}
		if s.id == 0 {
			return // has a number that is not known
		}
		if last == nil || s.id > last.id {
			last = s
		}
	}
	if !w.wrap || last == nil || !w.held[last.name] {
		return
	}
	w.wrap = false
	turn := uint64(1)<<30 + uint64(last.id/2)
	if last.id&1 == 0 {
		turn--
	}
	x := reflect.ValueOf(w.end.Caller()).Elem()
	for i := 0; i < x.NumField(); i++ {
		f, t := x.Field(i), x.Type().Field(i)
		if f.Kind() == reflect.Uint64 && (t.Name == "streamIDs" || strings.HasSuffix(t.Type.Name(), "StreamIDs")) {
			atomic.StoreUint64((*uint64)(f.Addr().UnsafePointer()), turn)
			wrapped++
		}
	}
}

var wrapped int

// left gives what the endpoint sent, by stream.
func (w *world) left() map[string][]fr {
	res := map[string][]fr{}
	for _, b := range w.end.Sent() {
		f, err := decode(b)
		if err != nil {
			w.wrong("a frame that left cannot be read: %v %s", err, vh.Short(b))
			continue
		}
		if int(f.Size()) != len(b) {
			w.wrong("a frame of %d bytes left in %d", f.Size(), len(b))
		}
		x := fr{}
		id := f.GetStreamID()
		switch t := f.(type) {
		case *frames.RequestPayload:
			x.t, x.k, x.v = "req", kindOf(t.FrameType), valueOf(t.Data, t.Metadata, 8)
			if x.k == "rs" || x.k == "rc" {
				x.n = int(t.InitialN)
			}
			sl := w.asked[x.v]
			if x.v > 0 && string(t.Metadata[:8]) != string(opMeta(7, 0, nil)) {
				w.wrong("request metadata %x", t.Metadata[:8])
			}
			if sl == nil || w.ids[id] != nil && w.ids[id] != sl || id&1 == 1 != w.end.Odd() {
				w.wrong("request on stream %d with value %d", id, x.v)
				continue
			}
			w.ids[id] = sl
			sl.id = id
		case *frames.Payload:
			switch {
			case t.Next && t.Complete:
				x.t = "last"
			case t.Next:
				x.t = "next"
			case t.Complete:
				x.t = "complete"
			default:
				x.t = "nothing"
			}
			if t.Next {
				x.v = valueOf(t.Data, t.Metadata, 0)
			}
		case *frames.Error:
			x.t, x.v = "error", errOf(t.Data)
		case *frames.RequestN:
			x.t, x.n = "reqn", int(t.N)
		case *frames.Cancel:
			x.t = "cancel"
		default:
			w.wrong("unexpected frame %T", f)
		}
		if sl := w.ids[id]; sl != nil {
			x.s = sl.name
		} else {
			x.s = fmt.Sprint("stream ", id)
		}
		res[x.s] = append(res[x.s], x)
	}
	return res
}

// common is a value as it can be told from others.
func common(e string, v int) int {
	switch e {
	case "next", "last":
		return same(v)
	case "error":
		return sameErr(v)
	}
	return v
}

// expect gathers what the specification prescribes for some steps in a row.
func (w *world) expect(steps []vh.Step) (out map[string][]fr, evs map[string][]ev) {
	out, evs = map[string][]fr{}, map[string][]ev{}
	mono := map[string]bool{} // whose subscribers see a value only
	for n, s := range w.slots {
		mono[n+":s"] = s.kind == "rr"
	}
	for _, s := range steps {
		o := s.M("o")
		for _, x := range o.L("out") {
			f := vh.Step(x.(map[string]any))
			out[f.S("s")] = append(out[f.S("s")], fr{s: f.S("s"), t: f.S("t"), k: f.S("k"), v: common(f.S("t"), f.I("v")), n: f.I("n")})
		}
		for _, x := range o.L("ev") {
			f := vh.Step(x.(map[string]any))
			who := f.S("w")
			l := evs[who]
			if f.S("e") == "req" && len(l) > 0 && l[len(l)-1].e == "req" {
				l[len(l)-1].v += f.I("v")
			} else {
				x := ev{f.S("e"), common(f.S("e"), f.I("v"))}
				if x.e == "next" && x.v == oneVoid && mono[who] {
					x = ev{"empty", 0}
				}
				evs[who] = append(l, x)
			}
		}
	}
	return
}

func sameFrames(want, got map[string][]fr) bool {
	for k, g := range got {
		if len(g) != len(want[k]) {
			return false
		}
	}
	for k, l := range want {
		g := got[k]
		if len(g) != len(l) {
			return false
		}
		for i, x := range l {
			y := g[i]
			if x.t == "error" && x.v == 0 {
				y.v = 0
			}
			if x != y {
				return false
			}
		}
	}
	return true
}

func sameEvents(want, got map[string][]ev) bool {
	for k, g := range got {
		if len(g) > 0 && len(want[k]) == 0 {
			return false
		}
	}
	for k, l := range want {
		g := got[k]
		if len(l) == 1 && l[0].e == "stopped" {
			// a publisher that is not wanted any more may be cancelled, or never be subscribed
			if len(g) > 1 || len(g) == 1 && g[0].e != "cancel" {
				return false
			}
			continue
		}
		if !reflect.DeepEqual(l, g) {
			return false
		}
	}
	return true
}

func show(out map[string][]fr, evs map[string][]ev) any {
	return map[string]any{"frames": fmt.Sprint(out), "events": fmt.Sprint(evs)}
}

func ends() []string {
	if e := os.Getenv("ENDS"); e != "" {
		return strings.Split(e, ",")
	}
	return []string{"guest"}
}

// group splits a behaviour into parts after each of which the endpoint comes to rest: single steps, or runs of
// frames that arrive directly one behind the other.
func group(steps []vh.Step, burst bool) (res [][]vh.Step) {
	frame := func(s vh.Step) bool { return s.A() == "preq" || s.A() == "pframe" || s.A() == "punknown" }
	for i := 0; i < len(steps); {
		j := i + 1
		asked := map[string]bool{}
		for burst && frame(steps[i]) && j < len(steps) && frame(steps[j]) {
			// demand may be passed on while the next frame is handled: what ends the stream is not put behind it
			t := steps[j-1].M("arg").S("t")
			if t == "reqn" || steps[j-1].M("arg").S("bad") != "" {
				asked[steps[j-1].S("s")] = true
			}
			if t := steps[j].M("arg").S("t"); asked[steps[j].S("s")] && (t == "cancel" || t == "error") {
				break
			}
			j++
		}
		res = append(res, steps[i:j])
		i = j
	}
	return
}

func (w *world) run(steps []vh.Step, burst bool) (bad any) {
	fail := func(what string, i int, g []vh.Step, want, got any) any {
		return map[string]any{"what": what, "index": i, "step": map[string]any{"a": g[len(g)-1].A(), "n": len(g), "last": g[len(g)-1]}, "want": want, "got": got}
	}
	v := 0
	if n := len(steps); n > 0 && steps[n-1].A() == "end" {
		steps = steps[:n-1]
	}
	for _, g := range group(steps, burst) {
		var bufs [][]byte
		for _, s := range g {
			v++
			w.mu.Lock()
			w.step = v
			w.mu.Unlock()
			if b := w.arrives(s, v); b != nil {
				bufs = append(bufs, b)
			}
		}
		var crash any
		done := make(chan bool)
		go func() {
			defer close(done)
			crash = vh.Guard(func() any {
				if bufs != nil {
					w.end.Deliver(bufs...)
				} else {
					w.act(g[0], v)
				}
				return nil
			})
		}()
		synctest.Wait()
		select {
		case <-done:
		default:
			return fail("stuck", v, g, "it returns", "the call does not return")
		}
		if crash != nil {
			return fail("panic", v, g, nil, crash)
		}
		out := w.left()
		for _, s := range g {
			if w.over = w.over || s.A() == "down"; w.over {
				out = map[string][]fr{} // what left unseen is no matter any more
			}
		}
		w.mu.Lock()
		evs, errs := w.evs, w.errs
		w.evs = map[string][]ev{}
		w.mu.Unlock()
		if len(errs) > 0 {
			return fail("wrong", v, g, nil, errs)
		}
		wout, wev := w.expect(g)
		if !sameFrames(wout, out) || !sameEvents(wev, evs) {
			return fail("observed", v, g, show(wout, wev), show(out, evs))
		}
		held := map[string]bool{}
		for _, x := range g[len(g)-1].M("o").L("held") {
			held[x.(string)] = true
		}
		w.held = held
		if k := w.end.Kept(); k > len(held) {
			return fail("streams kept", v, g, len(held), k)
		}
		for n, sl := range w.slots {
			if h, known := w.end.Held(sl.id); sl.id != 0 && known && h && !held[n] {
				return fail("stream kept", v, g, fmt.Sprint(n, " has ended"), fmt.Sprint("stream ", sl.id, " is still kept"))
			}
		}
	}
	return nil
}

// settle ends everything that is still under way and closes the endpoint.
func (w *world) settle() any {
	for _, s := range w.slots {
		if s.gate == nil {
			if s.f != nil && s.f.Subscription() != nil {
				s.f.Subscription().Cancel()
			}
			continue
		}
		select {
		case s.gate <- "error":
		default:
		}
		synctest.Wait()
		if s.kind == "rr" && s.msink != nil {
			s.msink.Success(value(1))
		}
		if s.kind == "rs" || s.kind == "rc" {
			w.end.Deliver(encode(&frames.Cancel{StreamID: s.id}))
		}
		synctest.Wait()
	}
	done := make(chan bool)
	go func() {
		w.end.Close()
		close(done)
	}()
	synctest.Wait()
	select {
	case <-done:
		return nil
	default:
		return "closing does not return although every request has ended"
	}
}

func TestEngine(t *testing.T) {
	burst := os.Getenv("BURST") != ""
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		steps := vh.Steps(raw)
		var bad any
		for _, name := range ends() {
			rnd := vh.Rand(vh.Cur())
			hostSide()
			shift, voids = rnd.Intn(84), true
			synctest.Test(t, func(t *testing.T) {
				w := &world{rnd: rnd, wrap: rnd.Intn(2) == 0, slots: map[string]*slot{}, asked: map[int]*slot{}, ids: map[uint32]*slot{}, evs: map[string][]ev{}}
				theWorld = w
				w.end = newEnd(name, rnd, w)
				bad = w.run(steps, burst)
				if bad != nil {
					bad.(map[string]any)["endpoint"] = name
					vh.Restart(bad)
				}
				if e := vh.Guard(w.settle); e != nil {
					vh.Restart(map[string]any{"what": "after the behaviour", "endpoint": name, "step": map[string]any{"a": "settle"}, "got": e})
				}
			})
			if bad != nil {
				break
			}
		}
		return bad, nil
	})
}
