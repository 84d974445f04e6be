//go:build go1.22

package engine

import (
	"context"
	"fmt"
	"os"
	"strconv"
	"testing"
	"testing/synctest"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
)

// shared buffers between host and module (HandOver.tla)

type buffers interface {
	endpoint
	HandOver(all []byte, said uint32)
	OnReceive(func()) // what the other side does while it handles the next frame
	Grow()
}

func pattern(v, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(v*37 + i*i + i)
	}
	return b
}

// frameOf makes a frame of exactly n bytes: no frame at all for less than a header and a value.
func frameOf(stream uint32, v, n int) []byte {
	if n < frames.FrameHeaderLen {
		return pattern(v, n)
	}
	f := &frames.Payload{StreamID: stream, Next: true}
	if n < frames.FrameHeaderLen+3+8 {
		f.Data = pattern(v, n-frames.FrameHeaderLen)
	} else {
		md := (n - frames.FrameHeaderLen - 3) / 3
		f.Metadata, f.Data = pattern(v+1, md), pattern(v, n-frames.FrameHeaderLen-3-md)
	}
	b := encode(f)
	if len(b) != n {
		panic(fmt.Sprintf("frame of %d bytes instead of %d", len(b), n))
	}
	return b
}

type handover struct {
	end    buffers
	stream uint32
	id     int            // of the next frame
	in     map[int]handed // handed over, by number
	order  []int          // numbers still expected or not
	sent   map[int]int    // size of frames sent, by number
	got    []int          // seen by the subscriber
	errs   []string
	out    []int
	refuse int
	onSee  func(idx int)
}

type handed struct{ idx, n, v int }

// request makes a request of exactly n bytes in its frame.
func request(v, n int) payload.Payload {
	md := (n - frames.FrameHeaderLen - 3 - 8) / 2
	if md < 0 {
		panic("request too small")
	}
	return payload.New(pattern(v, n-frames.FrameHeaderLen-3-8-md), opMeta(uint32(v), 0, pattern(v+1, md)))
}

func (w *handover) send(n int) {
	w.id++
	v := w.id
	w.sent[v] = n
	p := request(v, n)
	if v%2 == 0 {
		w.end.Caller().FireAndForget(context.Background(), p)
		return
	}
	w.end.Caller().RequestResponse(context.Background(), p).Subscribe(mono.Subscribe[payload.Payload]{
		OnError: func(error) { w.refuse++ },
	})
}

// left takes what the other side received.
func (w *handover) left(b []byte) {
	f, err := decode(b)
	if err != nil {
		w.errs = append(w.errs, "received "+vh.Short(b)+": "+err.Error())
		return
	}
	r, ok := f.(*frames.RequestPayload)
	if !ok {
		if _, ok := f.(*frames.Error); !ok {
			w.errs = append(w.errs, fmt.Sprintf("received %T", f))
		}
		return
	}
	v := 0
	if len(r.Metadata) >= 8 {
		v = int(r.Metadata[0])<<24 | int(r.Metadata[1])<<16 | int(r.Metadata[2])<<8 | int(r.Metadata[3])
	}
	n, ok := w.sent[v]
	if !ok || n != len(b) {
		w.errs = append(w.errs, fmt.Sprintf("received a frame of %d bytes, number %d", len(b), v))
		return
	}
	p := request(v, n)
	if string(p.Data()) != string(r.Data) || string(p.Metadata()) != string(r.Metadata) {
		w.errs = append(w.errs, fmt.Sprintf("a frame of %d bytes was changed: %s", n, vh.Short(b)))
	}
	delete(w.sent, v)
	w.out = append(w.out, n)
}

// hand gives the bytes of a hand-over.
func (w *handover) hand(l []int) (all []byte) {
	for k, n := range l {
		w.id++
		w.in[w.id] = handed{k + 1, n, w.id}
		w.order = append(w.order, w.id)
		b := frameOf(w.stream, w.id, n)
		all = append(all, byte(n>>16), byte(n>>8), byte(n))
		all = append(all, b...)
	}
	return
}

func (w *handover) see(p payload.Payload) {
	n := frames.FrameHeaderLen + len(p.Data())
	if len(p.Metadata()) > 0 {
		n += 3 + len(p.Metadata())
	}
	for k, v := range w.order {
		x := w.in[v]
		if x.n != n {
			continue
		}
		f := &frames.Payload{}
		b := frameOf(w.stream, v, n)
		h := frames.ParseFrameHeader(b)
		f.Decode(&h, b[frames.FrameHeaderLen:])
		if string(f.Data) == string(p.Data()) && string(f.Metadata) == string(p.Metadata()) {
			w.order = append(w.order[:k:k], w.order[k+1:]...)
			w.got = append(w.got, x.idx)
			if w.onSee != nil {
				w.onSee(x.idx)
			}
			return
		}
	}
	w.errs = append(w.errs, fmt.Sprintf("saw %d bytes which nobody handed over: %s %s", n, vh.Short(p.Data()), vh.Short(p.Metadata())))
}

func ints(l []any) []int {
	res := make([]int, len(l))
	for i, x := range l {
		res[i] = int(x.(float64))
	}
	return res
}

func (w *handover) step(s vh.Step) {
	arg := s.M("arg")
	l := ints(arg.L("l"))
	switch s.A() {
	case "grow":
		w.end.Grow()
	case "in":
		at, n := arg.I("at"), arg.I("n")
		if at > 0 {
			w.onSee = func(idx int) {
				if idx == at {
					w.send(n)
				}
			}
		}
		all := w.hand(l)
		said, last := len(all), l[len(l)-1]
		switch arg.S("cut") {
		case "len":
			said -= last + 1 + w.id%2
		case "body":
			said -= 1 + (w.id % last)
		case "more":
			if said+2+w.id%40 <= w.capIn() {
				said += 2 + w.id%40
			}
		case "beyond":
			said = []int{w.capIn() + 1, w.capIn() + 5000, 10 << 20, 1<<32 - 1}[w.id%4]
		}
		w.end.HandOver(all, uint32(said))
	case "out":
		if len(l) > 0 {
			all := w.hand(l)
			w.end.OnReceive(func() { w.end.HandOver(all, uint32(len(all))) })
		}
		w.send(arg.I("n"))
	}
}

func (w *handover) capIn() int {
	n, err := strconv.Atoi(os.Getenv("CAPIN"))
	if err != nil {
		return bufSize
	}
	return n
}

func TestHandOver(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (bad any, _ any) {
		hostSide()
		synctest.Test(t, func(t *testing.T) {
			w := &handover{end: newBuffers(), in: map[int]handed{}, sent: map[int]int{}, id: 10 * (vh.Cur() % 100)}
			// a stream through which everything handed over is seen
			f := w.end.Caller().RequestStream(context.Background(), payload.New(nil, opMeta(1, 0, nil)))
			f.Subscribe(flux.Subscribe[payload.Payload]{
				OnNext:     w.see,
				OnComplete: func() { w.errs = append(w.errs, "the stream was completed") },
				OnError:    func(err error) { w.errs = append(w.errs, "the stream failed: "+err.Error()) },
				NoRequest:  true,
			})
			f.Subscription().Request(1 << 20)
			synctest.Wait()
			for _, b := range w.end.Sent() {
				if r, err := decode(b); err == nil {
					w.stream = r.GetStreamID()
				}
			}
			for i, s := range vh.Steps(raw) {
				w.got, w.out, w.refuse, w.onSee, w.order = nil, nil, 0, nil, nil
				w.sent = map[int]int{}
				w.end.OnReceive(nil)
				crash := vh.Guard(func() any { w.step(s); return nil })
				synctest.Wait()
				for _, b := range w.end.Sent() {
					w.left(b)
				}
				o := s.M("o")
				want := map[string]any{"got": fmt.Sprint(ints(o.L("got"))), "out": fmt.Sprint(ints(o.L("out")))}
				got := map[string]any{"got": fmt.Sprint(w.got), "out": fmt.Sprint(w.out)}
				// requests without an answer are refused silently
				if o.I("refused") != w.refuse && w.id%2 == 1 && s.A() == "out" && len(s.M("arg").L("l")) == 0 {
					want["refused"], got["refused"] = o.I("refused"), w.refuse
				}
				if s.M("arg").S("cut") == "beyond" && len(w.got) == 0 && len(w.out) == 0 {
					got["got"], got["out"] = want["got"], want["out"] // refused as a whole
				}
				if crash != nil {
					got["crash"] = crash
				}
				if len(w.errs) > 0 {
					got["errors"] = w.errs
				}
				if !vh.Equal(want, got) {
					bad = map[string]any{"index": i, "step": s, "want": want, "got": got}
					vh.Restart(bad)
				}
			}
			w.end.Deliver(encode(&frames.Payload{StreamID: w.stream, Complete: true}))
			w.errs = nil
			synctest.Wait()
			done := make(chan bool)
			go func() { w.end.Close(); close(done) }()
			time.Sleep(time.Second)
		})
		return bad, nil
	})
}
