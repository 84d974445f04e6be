//go:build go1.22

package sock

import (
	"context"
	"errors"
	"io"
	"math/rand"
	"net"
	"runtime"
	"strconv"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/transport/rsocket"
)

// listener hands out the connections it is given.
type listener struct {
	mu     sync.Mutex
	more   *sync.Cond
	q      []any
	late   net.Conn
	closed int
}

func newListener() *listener {
	l := &listener{}
	l.more = sync.NewCond(&l.mu)
	return l
}
func (l *listener) give(x any) {
	l.mu.Lock()
	l.q = append(l.q, x)
	l.more.Broadcast()
	l.mu.Unlock()
}
func (l *listener) Accept() (net.Conn, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	for {
		if l.closed > 0 {
			if c := l.late; c != nil {
				l.late = nil
				return c, nil
			}
			return nil, &net.OpError{Op: "accept", Net: "tcp", Err: net.ErrClosed}
		}
		if len(l.q) > 0 {
			x := l.q[0]
			l.q = l.q[1:]
			if err, ok := x.(error); ok {
				return nil, err
			}
			return x.(net.Conn), nil
		}
		l.more.Wait()
	}
}
func (l *listener) Close() error {
	l.mu.Lock()
	l.closed++
	l.more.Broadcast()
	l.mu.Unlock()
	return nil
}
func (l *listener) Addr() net.Addr { return &net.TCPAddr{} }

func framed(f frames.Frame) []byte {
	b := encode(f)
	return append([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
}

// outs names the frames on a wire.
func outs(b []byte) []string {
	res := []string{}
	for len(b) >= 9 {
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		h := frames.ParseFrameHeader(b[3:])
		switch h.Type() {
		case frames.FrameTypeError:
			res = append(res, "e")
		case frames.FrameTypeRequestFNF:
			res = append(res, "r")
		default:
			res = append(res, h.String())
		}
		b = b[3+n:]
	}
	if len(b) > 0 {
		res = append(res, "garbage")
	}
	return res
}

// TestServer: a server with connections (SockServer.tla).
func TestServer(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (bad any, _ any) {
		synctest.Test(t, func(t *testing.T) {
			l := newListener()
			nol := false
			srv := rsocket.NewTCPServerTransport(func(context.Context) (net.Listener, error) {
				if nol {
					return nil, errors.New("no listener")
				}
				return l, nil
			}, nil)
			var mu sync.Mutex
			conns := map[int]*wire{}
			told := map[int]int{}
			callers := map[int]invoke.Caller{}
			end := make(chan struct{})
			setups := 0 // the connection set up last: connections are set up one by one
			srv.Accept(func(ctx context.Context, caller invoke.Caller, onClose func(*rsocket.Transport)) {
				mu.Lock()
				told[setups]++
				callers[setups] = caller
				mu.Unlock()
				<-end // an acceptor may take its time
			})
			ctx, cancel := context.WithCancel(context.Background())
			state := "idle"
			ids := map[int]int{}
			bad = vh.RunStepsOf(raw, func(i int, s vh.Step, o vh.Step) any {
				x := s.I("c")
				w := conns[x]
				switch s.A() {
				case "listen", "nolistener":
					nol = s.A() == "nolistener"
					note := make(chan bool, 1)
					go func() {
						e := vh.Guard(func() any {
							err := srv.Listen(ctx, note)
							mu.Lock()
							defer mu.Unlock()
							state = "returned"
							if err != nil {
								state = "failed"
							}
							return nil
						})
						if e != nil {
							mu.Lock()
							state = "panic"
							mu.Unlock()
						}
					}()
					synctest.Wait()
					select {
					case ok := <-note:
						mu.Lock()
						if ok && state == "idle" {
							state = "listening"
						}
						if ok && nol {
							state = "told of a listener"
						}
						mu.Unlock()
					default:
					}
				case "close":
					_ = srv.Close()
				case "ctx":
					cancel()
				case "late":
					w = newWire()
					conns[x] = w
					l.mu.Lock()
					l.late = w
					l.mu.Unlock()
					_ = srv.Close()
				case "accepterror":
					l.give(errors.New("too many open files"))
				case "connect":
					w = newWire()
					conns[x] = w
					l.give(net.Conn(w))
				case "setup":
					mu.Lock()
					setups = x
					mu.Unlock()
					w.put(framed(&frames.Setup{MajorVersion: 0, MinorVersion: 2, Data: operations.Table{}.ToBytes()}), nil)
				case "request":
					ids[x] += 2
					w.put(framed(&frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: uint32(ids[x] - 1), Metadata: []byte{0, 0, 0, 99, 0, 0, 0, 0}, Data: []byte("x"), InitialN: 1}), nil)
				case "call":
					mu.Lock()
					k := callers[x]
					mu.Unlock()
					if k == nil {
						return "no caller"
					}
					k.FireAndForget(ctx, payload.New([]byte("y"), []byte{0, 0, 0, 1, 0, 0, 0, 0}))
				case "garbage":
					w.put([]byte{0, 0, 2, 1, 1}, nil)
				case "eof":
					w.put(nil, io.EOF)
				}
				synctest.Wait()
				mu.Lock()
				defer mu.Unlock()
				cs := map[string]any{}
				for k := range o.L("conns") {
					n := k + 1
					m := map[string]any{"told": told[n], "closes": 0, "out": []string{}}
					if w := conns[n]; w != nil {
						m["closes"] = w.closes()
						m["out"] = outs(w.sent())
					}
					cs[strconv.Itoa(n)] = m
				}
				l.mu.Lock()
				defer l.mu.Unlock()
				list := []any{}
				for k := range o.L("conns") {
					list = append(list, cs[strconv.Itoa(k+1)])
				}
				got := map[string]any{"listen": state, "lclosed": l.closed, "conns": list}
				if !vh.Equal(o, got) {
					return got
				}
				return nil
			})
			close(end)
			cancel()
			_ = srv.Close()
			synctest.Wait()
			if bad != nil {
				vh.Restart(bad)
			}
		})
		return
	})
}

// TestServerConc: everything at once (SockServerTrace.tla).
func TestServerConc(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		type rec struct {
			E string `json:"e"`
			X int    `json:"x"`
		}
		var log []rec
		synctest.Test(t, func(t *testing.T) {
			rnd := rand.New(rand.NewSource(int64(vh.Steps(raw)[0].I("seed"))))
			var mu sync.Mutex
			put := func(e string, x int) {
				mu.Lock()
				log = append(log, rec{e, x})
				mu.Unlock()
			}
			pause := func() {
				for n := rand.Intn(6); n > 0; n-- {
					runtime.Gosched()
				}
			}
			l := newListener()
			srv := rsocket.NewTCPServerTransport(func(context.Context) (net.Listener, error) { return l, nil }, nil)
			srv.Accept(func(ctx context.Context, caller invoke.Caller, onClose func(*rsocket.Transport)) {
				// which connection this is, its frame tells
				caller.FireAndForget(ctx, payload.New([]byte("y"), []byte{0, 0, 0, 1, 0, 0, 0, 0}))
			})
			ctx, cancel := context.WithCancel(context.Background())
			note := make(chan bool, 1)
			go func() {
				_ = srv.Listen(ctx, note)
				put("end", 0)
			}()
			<-note
			var wg sync.WaitGroup
			for x := 1; x <= 1+rnd.Intn(4); x++ {
				x, how := x, rnd.Intn(6)
				w := newWire()
				put("conn", x)
				w.onShut = func() { put("shut", x) }
				w.onOut = func(b []byte) {
					for _, f := range outs(b) {
						if f == "r" {
							put("told", x)
						} else if f != "e" {
							put(f, x)
						}
					}
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					pause()
					l.give(net.Conn(w))
					pause()
					if how > 0 {
						put("setup", x)
						w.put(framed(&frames.Setup{MajorVersion: 0, MinorVersion: 2, Data: operations.Table{}.ToBytes()}), nil)
						pause()
					}
					for n := how % 3; n > 0; n-- {
						w.put(framed(&frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: uint32(2*n + 1), Metadata: []byte{0, 0, 0, 99, 0, 0, 0, 0}, InitialN: 1}), nil)
						pause()
					}
					switch how {
					case 2:
						w.put(nil, io.EOF)
					case 3:
						w.put([]byte{0, 0, 2, 1, 1}, nil)
					}
				}()
			}
			for k := rnd.Intn(3); k >= 0; k-- {
				k := k
				wg.Add(1)
				go func() {
					defer wg.Done()
					pause()
					pause()
					if k == 0 {
						cancel()
					} else {
						_ = srv.Close()
					}
				}()
			}
			wg.Wait()
			synctest.Wait()
			// a connection still waiting to be accepted is the listener's, not the server's
			l.mu.Lock()
			for _, x := range l.q {
				_ = x.(net.Conn).Close()
			}
			l.mu.Unlock()
			synctest.Wait()
			put("rest", 0)
		})
		return nil, map[string]any{"log": log}
	})
}
