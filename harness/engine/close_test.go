//go:build go1.22 && !wasi

package engine

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"runtime"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// the host of a module while it is closed (HostClose.tla)

type creq struct {
	name, kind string
	id         uint32
	gate       chan string
	sink       flux.Sink[payload.Payload]
	msink      mono.Sink[payload.Payload]
}

type closing struct {
	m      *module
	mu     sync.Mutex
	rnd    *rand.Rand
	reqs   map[string]*creq
	byVal  map[int]*creq
	byID   map[uint32]*creq
	evs    []string
	closed map[int]bool
	closes int
}

func (c *closing) event(s, e string) {
	c.mu.Lock()
	c.evs = append(c.evs, s+" "+e)
	c.mu.Unlock()
}

func (c *closing) called(p payload.Payload) *creq {
	v := valueOf(p.Data(), p.Metadata(), 8)
	c.mu.Lock()
	r := c.byVal[v]
	c.mu.Unlock()
	if r == nil {
		c.event(fmt.Sprint("value ", v), "call")
		return &creq{gate: make(chan string)}
	}
	c.event(r.name, "call")
	return r
}

func (c *closing) publish(r *creq) flux.Flux[payload.Payload] {
	if <-r.gate == "error" {
		return flux.Error[payload.Payload](errors.New("no"))
	}
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		r.sink = sink
		sink.OnSubscribe(flux.OnSubscribe{
			Request: func(int) {},
			Cancel:  func() { c.event(r.name, "cancel") },
		})
	})
}

func newClosing(rnd *rand.Rand) *closing {
	c := &closing{m: newModule(), rnd: rnd, reqs: map[string]*creq{}, byVal: map[int]*creq{}, byID: map[uint32]*creq{}, closed: map[int]bool{}}
	c.m.i.SetRequestResponseHandler(opNumber, func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
		r := c.called(p)
		return mono.Create(func(sink mono.Sink[payload.Payload]) { r.msink = sink })
	})
	c.m.i.SetFireAndForgetHandler(opNumber, func(_ context.Context, p payload.Payload) { c.called(p) })
	c.m.i.SetRequestStreamHandler(opNumber, func(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] {
		return c.publish(c.called(p))
	})
	c.m.i.SetRequestChannelHandler(opNumber, func(_ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
		r := c.called(p)
		in.Subscribe(flux.Subscribe[payload.Payload]{})
		return c.publish(r)
	})
	return c
}

func (c *closing) step(s vh.Step, v int) {
	arg, r := s.M("arg"), c.reqs[s.S("s")]
	switch s.A() {
	case "arrive":
		r = &creq{name: s.S("s"), kind: arg.S("k"), id: uint32(2*v - 1), gate: make(chan string, 1)}
		c.reqs[r.name], c.byVal[v], c.byID[r.id] = r, r, r
		op, md := uint32(opNumber), []byte(nil)
		if arg.S("b") == "op" {
			op = []uint32{0, opNumber + 1, 1<<32 - 1}[c.rnd.Intn(3)]
		}
		md = opMeta(op, 0, meta(v))
		if arg.S("b") == "md" {
			md = md[:c.rnd.Intn(8)]
		}
		b := encode(&frames.RequestPayload{FrameType: types[r.kind], StreamID: r.id, Metadata: md, Data: data(v), InitialN: 1})
		if arg.S("b") == "dec" {
			// the length of the metadata is beyond the end of the frame
			at := frames.FrameHeaderLen
			if r.kind == "rs" || r.kind == "rc" {
				at += 4
			}
			b = b[:at+2]
		}
		c.m.Deliver(b)
	case "return":
		r.gate <- arg.S("w")
	case "end":
		w := arg.S("w")
		if r.kind == "rr" {
			switch w {
			case "complete":
				r.msink.Success(value(v))
			case "error":
				r.msink.Error(errors.New(errText(v)))
			case "big":
				r.msink.Success(tooBig(v))
			}
		} else if r.sink != nil {
			switch w {
			case "complete":
				r.sink.Complete()
			case "error":
				r.sink.Error(errors.New(errText(v)))
			case "big":
				r.sink.Next(tooBig(v))
			}
		}
	case "frame":
		switch arg.S("t") {
		case "cancel":
			c.m.Deliver(encode(&frames.Cancel{StreamID: r.id}))
		case "complete":
			c.m.Deliver(encode(&frames.Payload{StreamID: r.id, Complete: true}))
		case "error":
			c.m.Deliver(encode(&frames.Error{StreamID: r.id, Data: errFits(v)}))
		}
	case "send":
		ctx, p := context.Background(), payload.New(data(v), opMeta(0, 0, meta(v)))
		fail := func(error) { c.event("", "failed") }
		switch arg.S("w") {
		case "fnf":
			c.m.i.FireAndForget(ctx, p)
		case "rr":
			c.m.i.RequestResponse(ctx, p).Subscribe(mono.Subscribe[payload.Payload]{OnError: fail})
		case "rs":
			f := c.m.i.RequestStream(ctx, p)
			f.Subscribe(flux.Subscribe[payload.Payload]{OnError: fail, NoRequest: true})
			f.Subscription().Request(1)
		case "frame":
			c.m.i.SendFrame(&frames.Payload{StreamID: 4000, Data: data(v), Next: true})
		}
	case "close":
		n := arg.I("c")
		c.closes++
		go func() {
			c.m.i.Close()
			c.mu.Lock()
			c.closed[n] = true
			c.mu.Unlock()
		}()
	}
}

func (c *closing) out() (res []string) {
	for _, b := range c.m.Sent() {
		f, err := decode(b)
		if err != nil {
			res = append(res, err.Error())
			continue
		}
		s, t := "", fmt.Sprintf("%T", f)
		if r := c.byID[f.GetStreamID()]; r != nil {
			s = r.name
		}
		switch x := f.(type) {
		case *frames.Payload:
			t = "payload"
			if s != "" && x.Next && x.Complete {
				t = "last"
			} else if s != "" && x.Complete {
				t = "complete"
			}
		case *frames.Error:
			t = "error"
		case *frames.RequestPayload:
			t = "req"
		case *frames.RequestN:
			continue // demand for a channel's input
		}
		res = append(res, s+" "+t)
	}
	sort.Strings(res)
	return
}

func (c *closing) run(steps []vh.Step) any {
	for i, s := range steps {
		crash := vh.Guard(func() any { c.step(s, i+1); return nil })
		vh.Quiet()
		want, got := map[string]any{}, map[string]any{}
		var o, e []string
		var cl []int
		for _, x := range s.M("o").L("out") {
			y := vh.Step(x.(map[string]any))
			o = append(o, y.S("s")+" "+y.S("t"))
		}
		stopped := map[string]bool{}
		for _, x := range s.M("o").L("ev") {
			y := vh.Step(x.(map[string]any))
			if y.S("e") == "stopped" {
				stopped[y.S("s")] = true
				continue
			}
			e = append(e, y.S("s")+" "+y.S("e"))
		}
		for _, x := range s.M("o").L("closed") {
			cl = append(cl, int(x.(float64)))
		}
		sort.Strings(o)
		sort.Strings(e)
		sort.Ints(cl)
		want["out"], want["ev"], want["closed"] = fmt.Sprint(o), fmt.Sprint(e), fmt.Sprint(cl)
		var ge, gout []string
		for try := 0; try < 4; try++ {
			if try > 0 {
				time.Sleep(30 * time.Millisecond)
			}
			c.mu.Lock()
			for _, x := range c.evs {
				// a publisher that is not wanted any more may be cancelled or not
				if n := len(x) - len(" cancel"); n > 0 && x[n:] == " cancel" && stopped[x[:n]] {
					continue
				}
				ge = append(ge, x)
			}
			c.evs = nil
			var gc []int
			for x := range c.closed {
				gc = append(gc, x)
			}
			c.mu.Unlock()
			gout = append(gout, c.out()...)
			sort.Strings(gout)
			sort.Strings(ge)
			sort.Ints(gc)
			got["out"], got["ev"], got["closed"] = fmt.Sprint(gout), fmt.Sprint(ge), fmt.Sprint(gc)
			if crash != nil {
				got["crash"] = crash
			}
			if vh.Equal(want, got) {
				break
			}
		}
		if !vh.Equal(want, got) {
			return map[string]any{"index": i, "step": s, "want": want, "got": got}
		}
	}
	return nil
}

func (c *closing) settle() any {
	for _, r := range c.reqs {
		select {
		case r.gate <- "error":
		default:
		}
		vh.Quiet()
		if r.msink != nil {
			r.msink.Success(value(1))
		}
		c.m.Deliver(encode(&frames.Cancel{StreamID: r.id}))
		vh.Quiet()
	}
	go func() {
		c.m.i.Close()
		c.mu.Lock()
		c.closed[99] = true
		c.mu.Unlock()
	}()
	vh.Quiet()
	for try := 0; try < 4; try++ {
		c.mu.Lock()
		n := len(c.closed)
		c.mu.Unlock()
		if n == c.closes+1 {
			return nil
		}
		time.Sleep(30 * time.Millisecond)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.closed) != c.closes+1 {
		return fmt.Sprintf("only %d of %d calls of Close have returned although every request has ended", len(c.closed), c.closes+1)
	}
	return nil
}

func TestClose(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		var bad any
		hostSide()
		c := newClosing(vh.Rand(vh.Cur()))
		bad = c.run(vh.Steps(raw))
		if bad != nil {
			vh.Restart(bad)
		}
		if e := vh.Guard(c.settle); e != nil {
			vh.Restart(map[string]any{"what": "after the behaviour", "step": map[string]any{"a": "settle"}, "got": e})
		}
		return bad, nil
	})
}

// TestCloseConc: requests arrive, end and are cancelled and Close is called, all at once (HostCloseTrace.tla).
func TestCloseConc(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		st := vh.Steps(raw)[0]
		var log []rec
		hostSide()
		func() {
			rnd := rand.New(rand.NewSource(int64(st.I("seed"))))
			var mu sync.Mutex
			put := func(e string, v int) {
				mu.Lock()
				log = append(log, rec{e, v})
				mu.Unlock()
			}
			pause := func() {
				for n := rand.Intn(5); n > 0; n-- {
					runtime.Gosched()
				}
			}
			m := newModule()
			var wg sync.WaitGroup
			fin := func(v int, f func()) {
				go func() {
					pause()
					put("end", v)
					f()
					put("ended", v)
				}()
			}
			ends := map[int]int{}
			get := func(v int) int { mu.Lock(); defer mu.Unlock(); return ends[v] }
			m.i.SetRequestResponseHandler(opNumber, func(_ context.Context, p payload.Payload) mono.Mono[payload.Payload] {
				v := valueOf(p.Data(), p.Metadata(), 8)
				return mono.Create(func(sink mono.Sink[payload.Payload]) {
					fin(v, func() {
						if get(v)%2 == 0 {
							sink.Success(value(v))
						} else {
							sink.Error(errors.New("no"))
						}
					})
				})
			})
			stream := func(p payload.Payload) flux.Flux[payload.Payload] {
				v := valueOf(p.Data(), p.Metadata(), 8)
				return flux.Create(func(sink flux.Sink[payload.Payload]) {
					sink.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {}})
					fin(v, func() {
						if get(v)%2 == 0 {
							sink.Complete()
						} else {
							sink.Error(errors.New("no"))
						}
					})
				})
			}
			m.i.SetRequestStreamHandler(opNumber, func(_ context.Context, p payload.Payload) flux.Flux[payload.Payload] { return stream(p) })
			m.i.SetRequestChannelHandler(opNumber, func(_ context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
				return stream(p)
			})
			kinds := []string{"rr", "rs", "rc"}
			for k := 1; k <= 2+rnd.Intn(4); k++ {
				v, kind, can := k, kinds[rnd.Intn(3)], rnd.Intn(3) == 0
				mu.Lock()
				ends[v] = rnd.Intn(4)
				mu.Unlock()
				bad := rnd.Intn(6) == 0
				wg.Add(1)
				go func() {
					defer wg.Done()
					pause()
					op := uint32(opNumber)
					if bad {
						op = 77
					}
					put("arrive", v)
					if bad {
						put("end", v)
					}
					m.HandOver(join([][]byte{encode(&frames.RequestPayload{FrameType: types[kind], StreamID: uint32(2*v - 1), Metadata: opMeta(op, 0, meta(v)), Data: data(v), InitialN: 1})}), uint32(len(join([][]byte{encode(&frames.RequestPayload{FrameType: types[kind], StreamID: uint32(2*v - 1), Metadata: opMeta(op, 0, meta(v)), Data: data(v), InitialN: 1})}))))
					put("arrived", v)
					if can && kind != "rr" && !bad {
						pause()
						put("end", v)
						m.Deliver(encode(&frames.Cancel{StreamID: uint32(2*v - 1)}))
					}
				}()
			}
			for k := 1; k <= 1+rnd.Intn(3); k++ {
				k := k
				go func() {
					for n := rand.Intn(12); n > 0; n-- {
						runtime.Gosched()
					}
					put("close", k)
					m.i.Close()
					put("closed", k)
				}()
			}
			for k := 0; k < rnd.Intn(3); k++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					pause()
					m.i.FireAndForget(context.Background(), payload.New(nil, opMeta(0, 0, nil)))
				}()
			}
			wg.Wait()
			vh.Quiet()
			for try := 0; try < 5; try++ {
				mu.Lock()
				open := 0
				for _, r := range log {
					switch r.E {
					case "close":
						open++
					case "closed":
						open--
					}
				}
				mu.Unlock()
				if open == 0 {
					break
				}
				time.Sleep(30 * time.Millisecond)
			}
			put("rest", 0)
			done := make(chan bool)
			go func() { m.i.Close(); close(done) }()
			select {
			case <-done:
			case <-time.After(3 * time.Second):
				vh.Restart(map[string]any{"what": "Close does not return although every request has ended", "log": log})
			}
		}()
		return nil, []any{map[string]any{"log": log}}
	})
}
