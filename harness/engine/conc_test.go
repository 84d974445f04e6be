//go:build go1.22 && !wasi

package engine

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// Everything happens at once: a peer whose frames arrive one after the other, handlers, publishers, subscribers.
// What was seen of each direction of each stream is recorded and given to EngineTrace.tla.

type rec struct {
	E string `json:"e"`
	V int    `json:"v"`
}

// half is one direction of a stream.
type half struct {
	name string
	log  []rec
	tok  chan int // demand for whoever produces the values
	stop chan bool
	once sync.Once
}

type cw struct {
	end    endpoint
	mu     sync.Mutex
	halfs  []*half
	byID   map[uint32]*cstream
	byVal  map[int]*cstream
	queue  chan func()
	direct bool // a frame has been handled when its delivery returns
	rnd    *rand.Rand
	wg     sync.WaitGroup
	bad    []string
	seen   int
	busy   int
}

type cstream struct {
	w        *cw
	id       uint32
	kind     string
	base     int
	incoming bool
	send     *half // values the endpoint sends
	recv     *half // values the endpoint receives
	reqSent  bool
	rng      *rand.Rand
	plan     plan
	answers  int
	calls    int
	m        mono.Mono[payload.Payload]
	outcome  []rec
}

type plan struct {
	values, inValues      int
	end, inEnd            string // complete, error, open
	peerCancel, ownCancel int    // after how many steps of the side that cancels, -1 never
	dem                   []int
	inDem                 []int
	twoAsk                bool
}

// ended says which end has arrived, if any.
func ended(h *half) string {
	for _, r := range h.log {
		if r.E == "arrcomplete" || r.E == "arrerror" {
			return r.E
		}
	}
	return ""
}

func (h *half) put(e string, v int) { h.log = append(h.log, rec{e, v}) }

func (w *cw) put(h *half, e string, v int) {
	if h == nil {
		return
	}
	w.mu.Lock()
	h.put(e, v)
	w.mu.Unlock()
}

func (h *half) halt() { h.once.Do(func() { close(h.stop) }) }

func (w *cw) half(name string) *half {
	h := &half{name: name, tok: make(chan int, 4096), stop: make(chan bool)}
	w.mu.Lock()
	w.halfs = append(w.halfs, h)
	w.mu.Unlock()
	return h
}

func (s *cstream) pause() {
	for n := rand.Intn(4); n > 0; n-- {
		runtime.Gosched()
	}
}

// out is called for each frame that leaves.
func (w *cw) out(b []byte) {
	f, err := decode(b)
	w.mu.Lock()
	defer w.mu.Unlock()
	if err != nil {
		w.bad = append(w.bad, err.Error())
		return
	}
	id := f.GetStreamID()
	s := w.byID[id]
	if r, ok := f.(*frames.RequestPayload); ok {
		v := valueOf(r.Data, r.Metadata, 8)
		s = w.byVal[v]
		if s == nil || s.incoming || s.reqSent {
			w.bad = append(w.bad, fmt.Sprintf("request %d on stream %d", v, id))
			return
		}
		s.reqSent, s.id = true, id
		w.byID[id] = s
		if s.recv != nil {
			s.recv.put("dem", int(r.InitialN))
			s.recv.tok <- int(r.InitialN)
		}
		w.wg.Add(1)
		go s.peerAnswers()
		return
	}
	if s == nil {
		w.bad = append(w.bad, fmt.Sprintf("%T on unknown stream %d", f, id))
		return
	}
	switch t := f.(type) {
	case *frames.Payload:
		v := -1
		if t.Next {
			v = valueOf(t.Data, t.Metadata, 0)
		}
		if s.kind == "rr" || s.kind == "fnf" {
			s.answers++
			s.outcome = append(s.outcome, rec{fmt.Sprintf("payload%v%v", t.Next, t.Complete), v})
			return
		}
		if s.send == nil {
			w.bad = append(w.bad, fmt.Sprintf("payload on stream %d which has no values to send", id))
			return
		}
		if t.Next {
			s.send.put("onext", v)
		}
		if t.Complete {
			s.send.put("ocomplete", 0)
		}
	case *frames.Error:
		if s.kind == "rr" || s.kind == "fnf" {
			s.answers++
			s.outcome = append(s.outcome, rec{"error", errOf(t.Data)})
			return
		}
		if s.send != nil {
			s.send.put("oerror", errOf(t.Data))
		}
	case *frames.RequestN:
		if s.recv == nil {
			w.bad = append(w.bad, fmt.Sprintf("demand on stream %d", id))
			return
		}
		s.recv.put("dem", int(t.N))
		s.recv.tok <- int(t.N)
	case *frames.Cancel:
		if s.recv == nil {
			w.bad = append(w.bad, fmt.Sprintf("cancel on stream %d", id))
			return
		}
		s.recv.put("ocancel", 0)
		s.recv.halt()
	}
}

// arrive queues a frame for the endpoint; before and after are recorded around its handling.
func (w *cw) arrive(f frames.Frame, before, after func()) {
	b := encode(f)
	w.queue <- func() {
		if before != nil {
			w.mu.Lock()
			before()
			w.mu.Unlock()
		}
		w.end.Deliver(b)
		if after != nil && w.direct {
			w.mu.Lock()
			after()
			w.mu.Unlock()
		}
	}
}

// peerAnswers plays the responder of an outgoing request.
func (s *cstream) peerAnswers() {
	w, p := s.w, s.plan
	defer w.wg.Done()
	switch s.kind {
	case "fnf":
		return
	case "rr":
		s.pause()
		v := s.base*1000 + 1
		switch p.end {
		case "complete":
			w.arrive(&frames.Payload{StreamID: s.id, Data: data(v), Metadata: meta(v), Next: true, Complete: true}, nil, nil)
		case "error":
			w.arrive(&frames.Error{StreamID: s.id, Data: errFits(v)}, nil, nil)
		default:
			w.arrive(&frames.Payload{StreamID: s.id, Data: data(v), Metadata: meta(v), Next: true}, nil, nil)
			w.arrive(&frames.Payload{StreamID: s.id, Complete: true}, nil, nil)
		}
		w.arrive(&frames.Payload{StreamID: s.id, Data: data(v + 1), Metadata: meta(v + 1), Next: true, Complete: true}, nil, nil)
		return
	}
	if s.send != nil {
		w.wg.Add(1)
		go s.peerDemands(s.send, p.inDem, p.peerCancel)
	}
	s.produceFrames(s.recv, p.values, p.end)
}

// peerDemands sends demand for what the endpoint sends.
func (s *cstream) peerDemands(h *half, dem []int, cancelAt int) {
	w := s.w
	defer w.wg.Done()
	for i, n := range dem {
		if i == cancelAt {
			break
		}
		s.pause()
		n := n
		w.arrive(&frames.RequestN{StreamID: s.id, N: uint32(n)}, func() { h.put("arrdem", n) }, nil)
	}
	if cancelAt >= 0 {
		other := s.recv
		w.arrive(&frames.Cancel{StreamID: s.id}, func() {
			h.put("stop", 0)
			if s.incoming && other != nil {
				other.put("arrcomplete", 0)
			}
		}, func() { h.put("stopped", 0) })
	}
}

// produceFrames sends values to the endpoint as far as they were asked for.
func (s *cstream) produceFrames(h *half, values int, end string) {
	w := s.w
	have, v := 0, s.base*1000+500
	for i := 0; i < values; i++ {
		for have == 0 {
			select {
			case n := <-h.tok:
				have += n
			case <-h.stop:
				return
			}
		}
		have--
		v++
		s.pause()
		x := v
		w.arrive(&frames.Payload{StreamID: s.id, Data: data(x), Metadata: meta(x), Next: true}, func() { h.put("arrnext", x) }, nil)
	}
	other := s.send
	switch end {
	case "complete":
		w.arrive(&frames.Payload{StreamID: s.id, Complete: true}, func() { h.put("arrcomplete", 0) }, nil)
	case "error":
		w.arrive(&frames.Error{StreamID: s.id, Data: errFits(v)}, func() {
			h.put("arrerror", v)
			if !s.incoming && other != nil {
				other.put("stop", 0)
			}
		}, func() {
			if !s.incoming && other != nil {
				other.put("stopped", 0)
			}
		})
	}
}

// publisher is the publisher behind what the endpoint sends.
func (s *cstream) publisher(h *half, values int, end string) flux.Flux[payload.Payload] {
	w := s.w
	tok, gone := make(chan int, 4096), make(chan bool)
	var once sync.Once
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		w.wg.Add(1)
		go func() {
			defer w.wg.Done()
			have, v := 0, s.base*1000
			for i := 0; i < values; i++ {
				for have == 0 {
					select {
					case n := <-tok:
						have += n
					case <-gone:
						return
					case <-h.stop:
						return
					}
				}
				have--
				v++
				s.pause()
				w.put(h, "pub", v)
				sink.Next(value(v))
			}
			s.pause()
			switch end {
			case "complete":
				w.put(h, "hcomplete", 0)
				sink.Complete()
			case "error":
				w.mu.Lock()
				h.put("herror", v)
				if s.incoming && s.recv != nil {
					s.recv.put("drop", 0)
				}
				w.mu.Unlock()
				sink.Error(errors.New(errText(v)))
			}
		}()
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(n int) { w.put(h, "preq", n); tok <- n },
			Cancel:  func() { w.put(h, "pcancel", 0); once.Do(func() { close(gone) }) },
		})
	})
}

// consume subscribes to what the endpoint receives.
func (s *cstream) consume(f flux.Flux[payload.Payload], h *half, dem []int, two bool, cancelAt int) {
	w := s.w
	f.Subscribe(flux.Subscribe[payload.Payload]{
		OnNext:     func(p payload.Payload) { w.put(h, "see", valueOf(p.Data(), p.Metadata(), 0)) },
		OnComplete: func() { w.put(h, "seecomplete", 0) },
		OnError:    func(err error) { w.put(h, "seeerror", errOf(err.Error())) },
		NoRequest:  true,
	})
	ask := func(l []int) {
		for _, n := range l {
			for k := rand.Intn(4); k > 0; k-- {
				runtime.Gosched()
			}
			w.put(h, "ask", n)
			f.Subscription().Request(n)
		}
	}
	if cancelAt >= 0 && cancelAt < len(dem) {
		dem = dem[:cancelAt]
	}
	if two && len(dem) > 1 {
		a := dem[:len(dem)/2]
		w.wg.Add(1)
		go func() { defer w.wg.Done(); ask(a) }()
		dem = dem[len(dem)/2:]
	}
	ask(dem)
	if cancelAt >= 0 {
		s.pause()
		other := s.send
		w.mu.Lock()
		h.put("quit", 0)
		if !s.incoming && other != nil {
			switch ended(h) {
			case "":
				other.put("stop", 0)
			case "arrcomplete":
				other.put("may", 0)
			}
		}
		w.mu.Unlock()
		f.Subscription().Cancel()
		w.mu.Lock()
		h.put("quitted", 0)
		// when the responses had ended by then the cancel may have meant nothing: a complete leaves what is
		// sent alone, an error stops it itself
		if !s.incoming && other != nil {
			switch ended(h) {
			case "":
				other.put("stopped", 0)
			case "arrcomplete":
				other.put("may", 0)
			}
		}
		w.mu.Unlock()
	}
}

func (w *cw) find(kind string, p payload.Payload) *cstream {
	skip := 0
	if w.end.Full(kind) {
		skip = 8
	}
	v := valueOf(p.Data(), p.Metadata(), skip)
	w.mu.Lock()
	defer w.mu.Unlock()
	s := w.byVal[v]
	if s == nil || s.kind != kind || !s.incoming {
		w.bad = append(w.bad, fmt.Sprintf("handler of %s called with %d", kind, v))
		return nil
	}
	s.calls++
	return s
}

// handlers of a program
func (w *cw) rr(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
	s := w.find("rr", p)
	if s == nil {
		return mono.Error[payload.Payload](errors.New("lost"))
	}
	s.pause()
	v := s.base*1000 + 1
	if s.plan.end == "error" {
		return mono.Error[payload.Payload](errors.New(errText(v)))
	}
	return mono.Create(func(sink mono.Sink[payload.Payload]) {
		w.wg.Add(1)
		go func() { defer w.wg.Done(); s.pause(); sink.Success(value(v)) }()
	})
}
func (w *cw) fnf(_ context.Context, p payload.Payload) { w.find("fnf", p) }
func (w *cw) rs(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] {
	s := w.find("rs", p)
	if s == nil {
		return flux.Error[payload.Payload](errors.New("lost"))
	}
	s.pause()
	return s.publisher(s.send, s.plan.values, s.plan.end)
}
func (w *cw) rc(_ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
	s := w.find("rc", p)
	if s == nil {
		return flux.Error[payload.Payload](errors.New("lost"))
	}
	s.pause()
	if s.plan.twoAsk {
		w.wg.Add(1)
		go func() { defer w.wg.Done(); s.consume(in, s.recv, s.plan.inDem, false, s.plan.ownCancel) }()
	} else {
		s.consume(in, s.recv, s.plan.inDem, false, s.plan.ownCancel)
	}
	return s.publisher(s.send, s.plan.values, s.plan.end)
}

func (w *cw) plan(rng *rand.Rand) plan {
	e := []string{"complete", "complete", "error", "open"}
	dem := func() (l []int) {
		for n := 1 + rng.Intn(4); n > 0; n-- {
			l = append(l, 1+rng.Intn(3))
		}
		return
	}
	at := func() int {
		if rng.Intn(3) > 0 {
			return -1
		}
		return rng.Intn(4)
	}
	return plan{values: rng.Intn(6), inValues: rng.Intn(6), end: e[rng.Intn(4)], inEnd: e[rng.Intn(4)], peerCancel: at(), ownCancel: at(),
		dem: dem(), inDem: dem(), twoAsk: rng.Intn(2) == 0}
}

func (w *cw) start(n int, incoming bool, kind string) {
	s := &cstream{w: w, kind: kind, base: n, incoming: incoming, rng: rand.New(rand.NewSource(w.rnd.Int63()))}
	s.plan = w.plan(s.rng)
	name := fmt.Sprintf("%s%d%v", kind, n, incoming)
	if kind == "rs" || kind == "rc" {
		if incoming || kind == "rc" {
			s.send = w.half(name + "send")
		}
		if !incoming || kind == "rc" {
			s.recv = w.half(name + "recv")
		}
	}
	w.mu.Lock()
	w.byVal[n] = s
	if incoming {
		guestIDs += 2
		s.id = guestIDs
		if !w.end.Odd() {
			s.id++
		}
		w.byID[s.id] = s
	}
	w.mu.Unlock()
	w.wg.Add(1)
	p := s.plan
	go func() {
		defer w.wg.Done()
		s.pause()
		if incoming {
			f := &frames.RequestPayload{FrameType: types[kind], StreamID: s.id, Metadata: opMeta(opNumber, 0, meta(n)), Data: data(n), InitialN: uint32(p.dem[0])}
			w.arrive(f, func() {
				if s.send != nil {
					s.send.put("arrdem", p.dem[0])
				}
			}, nil)
			if kind == "rs" || kind == "rc" {
				if kind == "rc" {
					w.wg.Add(1)
					go func() { defer w.wg.Done(); s.produceFrames(s.recv, p.inValues, p.inEnd) }()
				}
				w.wg.Add(1)
				s.peerDemands(s.send, p.dem[1:], p.peerCancel)
			}
			return
		}
		ctx, pl := context.Background(), payload.New(data(n), opMeta(7, 0, meta(n)))
		switch kind {
		case "rr":
			s.m = w.end.Caller().RequestResponse(ctx, pl)
			s.m.Subscribe(mono.Subscribe[payload.Payload]{
				OnSuccess: func(p payload.Payload) {
					w.mu.Lock()
					s.outcome = append(s.outcome, rec{"value", valueOf(p.Data(), p.Metadata(), 0)})
					w.mu.Unlock()
				},
				OnError: func(err error) {
					w.mu.Lock()
					s.outcome = append(s.outcome, rec{"error", errOf(err.Error())})
					w.mu.Unlock()
				},
			})
		case "fnf":
			w.end.Caller().FireAndForget(ctx, pl)
		case "rs":
			s.consume(w.end.Caller().RequestStream(ctx, pl), s.recv, p.dem, p.twoAsk, p.ownCancel)
		case "rc":
			s.consume(w.end.Caller().RequestChannel(ctx, pl, s.publisher(s.send, p.inValues, p.inEnd)), s.recv, p.dem, p.twoAsk, p.ownCancel)
		}
	}()
}

func TestConc(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		st := vh.Steps(raw)[0]
		var bad any
		var traces []any
		hostSide()
		synctest.Test(t, func(t *testing.T) {
			w := &cw{rnd: rand.New(rand.NewSource(int64(st.I("seed")))), byID: map[uint32]*cstream{}, byVal: map[int]*cstream{}, queue: make(chan func(), 4096)}
			theWorld = w
			w.end = concEnd(st.S("end"), w)
			w.direct = st.S("end") != "host"
			go func() {
				for f := range w.queue {
					f()
				}
			}()
			kinds := []string{"rr", "fnf", "rs", "rc", "rs", "rc"}
			for i := 0; i < 6; i++ {
				w.start(i+1, w.rnd.Intn(2) == 0, kinds[w.rnd.Intn(len(kinds))])
			}
			synctest.Wait()
			w.mu.Lock()
			if len(w.bad) > 0 {
				bad = map[string]any{"what": "wrong", "got": w.bad}
			}
			for v, s := range w.byVal {
				// requests with a single answer, or none
				want := 1
				if s.kind == "fnf" {
					want = 0
				}
				if s.incoming && s.calls != 1 {
					bad = map[string]any{"what": "handler calls", "kind": s.kind, "v": v, "got": s.calls}
				}
				if s.kind == "rr" || s.kind == "fnf" {
					ok := len(s.outcome) == want
					if ok && want == 1 {
						x := s.outcome[0]
						ok = x.V == v*1000+1 && (x.E == "error") == (s.plan.end == "error") && (x.E == "error" || x.E == "value" || x.E == "payloadtruetrue")
					}
					if !ok {
						bad = map[string]any{"what": "answers", "kind": s.kind, "incoming": s.incoming, "v": v, "got": fmt.Sprint(s.outcome), "plan": s.plan.end}
					}
				}
			}
			for _, h := range w.halfs {
				h.put("rest", 0)
				k := "recv"
				if h.name[len(h.name)-4:] == "send" {
					k = "send"
				}
				traces = append(traces, map[string]any{"k": k, "name": h.name, "log": append([]rec{}, h.log...)})
			}
			if bad != nil {
				w.mu.Unlock()
				vh.Restart(bad)
			}
			w.mu.Unlock()
			// let go of everything
			for _, h := range w.halfs {
				h.halt()
			}
			for _, s := range w.byVal {
				if s.incoming && (s.kind == "rs" || s.kind == "rc") {
					w.arrive(&frames.Cancel{StreamID: s.id}, nil, nil)
				}
			}
			synctest.Wait()
			close(w.queue)
			w.wg.Wait()
			done := make(chan bool)
			go func() { w.end.Close(); close(done) }()
			synctest.Wait()
			select {
			case <-done:
			default:
				vh.Restart(map[string]any{"what": "closing does not return although every request has ended", "log": traces})
			}
		})
		return bad, traces
	})
}
