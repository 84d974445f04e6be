//go:build go1.22

package sock

import (
	"context"
	"errors"
	"io"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/transport/rsocket"
)

var errHandler = errors.New("handler refuses")
var errRead = errors.New("connection reset by peer")

// scripted is the handler of a transport: what it does with a frame is decided by what the frame says.
type scripted struct {
	mu      sync.Mutex
	done    []int
	busy    int
	release chan bool
	open    bool // nothing blocks any more
	sender  func(frames.Frame) error
	overlap bool
}

func (h *scripted) SetFrameSender(f func(frames.Frame) error) { h.sender = f }

func (h *scripted) HandleFrame(f frames.Frame) error {
	var what byte
	var id int
	switch v := f.(type) {
	case *frames.Setup:
		what, id = v.Data[0], int(v.Data[1])
	case *frames.RequestPayload:
		what, id = v.Data[0], int(v.Data[1])
	}
	h.mu.Lock()
	h.done = append(h.done, id)
	if h.busy > 0 {
		h.overlap = true
	}
	if what == 'b' && !h.open {
		h.busy++
		h.mu.Unlock()
		ok := <-h.release
		h.mu.Lock()
		h.busy--
		h.mu.Unlock()
		if !ok {
			return errHandler
		}
		return nil
	}
	h.mu.Unlock()
	if what == 'f' {
		return errHandler
	}
	return nil
}

func item(k string, id int) []byte {
	var b []byte
	switch k {
	case "setup", "setupfail", "setupblock":
		w := map[string]byte{"setup": 'o', "setupfail": 'f', "setupblock": 'b'}[k]
		b = encode(&frames.Setup{MajorVersion: 0, MinorVersion: 2, Data: []byte{w, byte(id)}})
	case "req", "fail", "block":
		w := map[string]byte{"req": 'o', "fail": 'f', "block": 'b'}[k]
		b = encode(&frames.RequestPayload{FrameType: frames.FrameTypeRequestFNF, StreamID: uint32(id), Data: []byte{w, byte(id)}})
	case "badsetup":
		b = []byte{0, 0, 0, 0, 4, 0, 0, 0}
	case "unknown":
		b = []byte{0, 0, 0, 1, 63 << 2, 0, 'o', byte(id)}
	case "keepalive":
		b = []byte{0, 0, 0, 0, 3 << 2, 128, 0, 0, 0, 0, 0, 0, 0, 0}
	case "short":
		b = []byte{0, 0, 0, 1, 16}
	case "zero":
	default:
		panic(k)
	}
	return append([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
}

type ev = map[string]any

// TestRun: scripts of inputs to a transport; what was seen at rest is recorded for SockRun.tla.
func TestRun(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		var log []ev
		var bad any
		synctest.Test(t, func(t *testing.T) {
			steps := vh.Steps(raw)
			server := steps[0].S("r") == "server"
			log = append(log, ev{"a": "role", "r": steps[0].S("r")})
			w := newWire()
			h := &scripted{release: make(chan bool)}
			var tp *rsocket.Transport
			if server {
				tp = rsocket.NewTransport(rsocket.NewTCPConn(w), h, true)
			} else {
				tp = rsocket.NewTCPClientTransport(w, h)
			}
			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			var mu sync.Mutex
			res, waited := "running", false
			go func() {
				r := "nil"
				if e := vh.Guard(func() any {
					err := tp.Start(ctx)
					switch {
					case errors.Is(err, errHandler):
						r = "handler"
					case errors.Is(err, context.Canceled):
						r = "ctx"
					case err != nil:
						r = "err"
					}
					return nil
				}); e != nil {
					r = "panic"
				}
				mu.Lock()
				res = r
				mu.Unlock()
			}()
			go func() {
				tp.WaitUntilReady()
				mu.Lock()
				waited = true
				mu.Unlock()
			}()
			n := 0
			rest := func() {
				synctest.Wait()
				mu.Lock()
				h.mu.Lock()
				e := ev{"a": "rest", "done": append([]int{}, h.done...), "busy": h.busy > 0, "res": res, "waited": waited, "closes": w.closes()}
				if h.overlap {
					e["busy"] = "twice"
				}
				h.mu.Unlock()
				mu.Unlock()
				log = append(log, e)
			}
			rest()
			for _, s := range steps[1:] {
				switch s.A() {
				case "put":
					log = append(log, ev{"a": "put", "items": s["items"], "end": s.S("end")})
					var b []byte
					for _, k := range s.L("items") {
						n++
						b = append(b, item(k.(string), n)...)
					}
					var err error
					switch s.S("end") {
					case "eof":
						err = io.EOF
					case "bad":
						err = errRead
					}
					if err != nil && n%2 == 1 { // the end by itself
						if len(b) > 0 {
							w.put(b, nil)
						}
						w.put(nil, err)
					} else {
						w.put(b, err)
					}
				case "release":
					log = append(log, ev{"a": "release", "w": s.S("w")})
					select {
					case h.release <- s.S("w") == "ok":
					default:
					}
				case "close":
					log = append(log, ev{"a": "close"})
					_ = tp.Close()
				case "ctx":
					log = append(log, ev{"a": "ctx"})
					cancel()
				}
				rest()
			}
			log = append(log, ev{"a": "finish"})
			h.mu.Lock()
			h.open = true
			h.mu.Unlock()
			select {
			case h.release <- true:
			default:
			}
			_ = tp.Close()
			rest()
			if res == "running" {
				// what still waits would keep the bubble from ending
				bad = map[string]any{"what": "the run does not end", "log": log}
				vh.Restart(bad)
			}
		})
		return bad, map[string]any{"log": log}
	})
}
