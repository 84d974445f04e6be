//go:build go1.22

package sock

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/transport/rsocket"
)

// wire is the network of a connection under test: Read hands out the chunks it is given, Write keeps what it takes.
type wire struct {
	mu     sync.Mutex
	more   *sync.Cond
	in     []chunk
	part   []byte // the rest of a chunk larger than the reader asked for
	partE  error
	ended  error // what Read says from now on
	closed int
	out    []byte
	limit  int // bytes Write takes (-1: all)
	onOut  func([]byte)
	fails  int
	onShut func()
}

type chunk struct {
	b   []byte
	err error
}

func newWire() *wire {
	w := &wire{limit: -1}
	w.more = sync.NewCond(&w.mu)
	return w
}

// put gives Read something to hand out: bytes, an error, or both at once.
func (w *wire) put(b []byte, err error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.in = append(w.in, chunk{append([]byte(nil), b...), err})
	w.more.Broadcast()
}

func (w *wire) Read(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for {
		if w.closed > 0 {
			return 0, &net.OpError{Op: "read", Net: "tcp", Err: net.ErrClosed}
		}
		if w.ended != nil {
			return 0, w.ended
		}
		if len(w.in) > 0 {
			c := w.in[0]
			n := copy(p, c.b)
			if n < len(c.b) {
				w.in[0].b = c.b[n:]
				return n, nil
			}
			w.in = w.in[1:]
			w.ended = c.err
			return n, c.err
		}
		w.more.Wait()
	}
}

func (w *wire) Write(p []byte) (int, error) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.closed > 0 {
		return 0, &net.OpError{Op: "write", Net: "tcp", Err: net.ErrClosed}
	}
	n := len(p)
	if w.limit >= 0 && n > w.limit && w.fails == 0 {
		n = w.limit
		w.fails++
		w.limit = -1 // a fault of the moment: what follows would go through
		w.out = append(w.out, p[:n]...)
		return n, errors.New("wire fault")
	}
	if w.limit >= 0 {
		w.limit -= n
	}
	if w.onOut != nil {
		w.onOut(p)
	} else {
		w.out = append(w.out, p...)
	}
	return n, nil
}

func (w *wire) Close() error {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.closed++
	if w.onShut != nil {
		w.onShut()
	}
	w.more.Broadcast()
	return nil
}

func (w *wire) closes() int { w.mu.Lock(); defer w.mu.Unlock(); return w.closed }
func (w *wire) sent() []byte {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]byte(nil), w.out...)
}
func (*wire) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (*wire) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (*wire) SetDeadline(t time.Time) error      { return nil }
func (*wire) SetReadDeadline(t time.Time) error  { return nil }
func (*wire) SetWriteDeadline(t time.Time) error { return nil }

func encode(f frames.Frame) []byte {
	b := make([]byte, f.Size())
	f.Encode(b)
	return b
}

// nothing is a handler that does nothing.
type nothing struct{}

func (nothing) SetFrameSender(func(frames.Frame) error) {}
func (nothing) HandleFrame(frames.Frame) error          { return nil }

// TestWire: chunks arrive, frames are read (SockWire.tla).
func TestWire(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (bad any, _ any) {
		synctest.Test(t, func(t *testing.T) {
			var items [][]byte
			var stream []byte
			w := newWire()
			tp := rsocket.NewTransport(rsocket.NewTCPConn(w), nothing{}, false)
			defer synctest.Wait()
			defer tp.Close()
			var mu sync.Mutex
			var got []frames.Frame
			end := "open"
			go func() {
				e := vh.Guard(func() any {
					for {
						f, err := tp.Connection().Read()
						mu.Lock()
						if err == io.EOF {
							end = "eof"
						} else if err != nil {
							end = "err"
						} else {
							got = append(got, f)
						}
						mu.Unlock()
						if err != nil {
							return nil
						}
					}
				})
				if e != nil {
					mu.Lock()
					end = fmt.Sprint(e)
					mu.Unlock()
				}
			}()
			bad = vh.RunStepsOf(raw, func(i int, s vh.Step, o vh.Step) any {
				if s.A() == "sent" {
					for _, x := range s.L("items") {
						x := vh.Step(x.(map[string]any))
						b := x.Wire("w")
						items = append(items, b[3:])
						stream = append(stream, b...)
					}
					return nil
				}
				n := s.I("n")
				var err error
				if s.B("eof") {
					err = io.EOF
				}
				w.put(stream[:n], err)
				stream = stream[n:]
				synctest.Wait()
				mu.Lock()
				defer mu.Unlock()
				if len(got) != o.I("got") {
					return map[string]any{"got": len(got), "end": end}
				}
				// also the frames read long ago still say what they said
				for k, f := range got {
					if b := encode(f); !bytes.Equal(b, items[k]) {
						return map[string]any{"frame": k, "is": vh.Short(b), "sent": vh.Short(items[k])}
					}
				}
				if x := o.S("end"); x != end && !(x == "any" && (end == "eof" || end == "err")) {
					return map[string]any{"end": end}
				}
				return nil
			})
		})
		return
	})
}

func quad(v any) uint32 { return binary.BigEndian.Uint32(vh.Bytes(v)) }

var reqTypes = map[string]frames.FrameType{
	"rr": frames.FrameTypeRequestResponse, "fnf": frames.FrameTypeRequestFNF,
	"rs": frames.FrameTypeRequestStream, "rc": frames.FrameTypeRequestChannel,
}

func build(f vh.Step) frames.Frame {
	sid := uint32(f.I("sid"))
	switch k := f.S("k"); k {
	case "rr", "fnf", "rs", "rc":
		return &frames.RequestPayload{FrameType: reqTypes[k], StreamID: sid, Metadata: f.Wire("md"), Data: f.Wire("data"), Follows: f.B("follows"), Complete: f.B("complete"), InitialN: quad(f["n"])}
	case "payload":
		return &frames.Payload{StreamID: sid, Metadata: f.Wire("md"), Data: f.Wire("data"), Follows: f.B("follows"), Complete: f.B("complete"), Next: f.B("next")}
	case "cancel":
		return &frames.Cancel{StreamID: sid}
	case "error":
		return &frames.Error{StreamID: sid, Code: frames.ErrCode(quad(f["code"])), Data: string(f.Wire("data"))}
	}
	panic("kind")
}

// TestSend: frames are sent, the wire may fail (SockSend.tla).
func TestSend(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		w := newWire()
		tp := rsocket.NewTransport(rsocket.NewTCPConn(w), nothing{}, false)
		defer tp.Close()
		var all []byte
		return vh.RunStepsOf(raw, func(i int, s vh.Step, o vh.Step) any {
			var err error
			switch s.A() {
			case "wire":
				if n := s.I("fault"); n > 0 {
					w.limit = n - 1
				}
				return nil
			case "flush":
				err = tp.Flush()
			case "send":
				f := build(s.M("f"))
				if n := f.Size(); n <= 0xffffff || f.Type() == frames.FrameTypeError {
					all = append(all, s.Wire("w")...)
				}
				err = tp.Send(f, s.B("flush"))
			}
			if x := o.S("ok"); x == "yes" && err != nil || x == "no" && err == nil {
				return map[string]any{"err": fmt.Sprint(err)}
			}
			out := w.sent()
			if len(out) < o.I("min") || len(out) > o.I("max") || !bytes.Equal(out, all[:len(out)]) {
				return map[string]any{"wire": vh.Short(out), "all": vh.Short(all)}
			}
			return nil
		}), nil
	})
}

type rec struct {
	E string `json:"e"`
	S int    `json:"s"`
	K int    `json:"k"`
}

// TestSendConc: several senders at once; what reaches the wire and when (SockTrace.tla).
func TestSendConc(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		rnd := rand.New(rand.NewSource(int64(vh.Steps(raw)[0].I("seed"))))
		var mu sync.Mutex
		var log []rec
		put := func(e string, s, k int) {
			mu.Lock()
			log = append(log, rec{e, s, k})
			mu.Unlock()
		}
		// the wire tells whole frames as they come to be on it
		var rest []byte
		want := map[[2]int][]byte{}
		w := newWire()
		w.onOut = func(b []byte) {
			rest = append(rest, b...)
			mu.Lock()
			defer mu.Unlock()
			for len(rest) >= 3 {
				n := int(rest[0])<<16 | int(rest[1])<<8 | int(rest[2])
				if len(rest) < 3+n {
					return
				}
				f := rest[3 : 3+n]
				s, k := 0, 0
				if n >= 10 {
					s, k = int(f[3]), int(f[9])
				}
				if x, ok := want[[2]int{s, k}]; !ok || !bytes.Equal(x, f) {
					log = append(log, rec{"garbage", s, k})
				} else {
					log = append(log, rec{"wire", s, k})
				}
				rest = rest[3+n:]
			}
		}
		tp := rsocket.NewTransport(rsocket.NewTCPConn(w), nothing{}, false)
		senders, each := 2+rnd.Intn(3), 1+rnd.Intn(3)
		type job struct {
			f      frames.Frame
			flush  bool
			flush2 bool
		}
		jobs := make([][]job, senders+1)
		sizes := []int{0, 1, 20, 300, 4000, 8170, 8176, 8180, 8183, 8184, 8190, 9000, 20000}
		for s := 1; s <= senders; s++ {
			for k := 1; k <= each; k++ {
				data := bytes.Repeat([]byte{byte(16*s + k)}, 4+sizes[rnd.Intn(len(sizes))])
				copy(data, []byte{0, 0, 0, byte(k)})
				f := &frames.Payload{StreamID: uint32(s), Data: data, Next: true}
				want[[2]int{s, k}] = encode(f)
				jobs[s] = append(jobs[s], job{f, rnd.Intn(3) > 0, rnd.Intn(3) == 0})
			}
		}
		pause := func() {
			for n := rand.Intn(4); n > 0; n-- {
				runtime.Gosched()
			}
		}
		var wg sync.WaitGroup
		for s := 1; s <= senders; s++ {
			s := s
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k, j := range jobs[s] {
					pause()
					e := "sent"
					if j.flush {
						e = "flushed"
					}
					put("send", s, k+1)
					if err := tp.Send(j.f, j.flush); err != nil {
						e = "failed"
					}
					put(e, s, k+1)
					if j.flush2 {
						e = "flushed"
						if err := tp.Flush(); err != nil {
							e = "failed"
						}
						put(e, s, k+1)
					}
				}
			}()
		}
		wg.Wait()
		if err := tp.Flush(); err != nil {
			put("failed", 0, 0)
		}
		if len(rest) > 0 {
			put("garbage", 0, len(rest))
		}
		put("rest", 0, 0)
		tp.Close()
		return nil, map[string]any{"log": log}
	})
}
