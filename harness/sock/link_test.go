//go:build go1.22

package sock

import (
	"context"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/tls"
	"crypto/x509"
	"crypto/x509/pkix"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/rsocket"
)

// programs that serve each other over real sockets (Link.tla)

type whoKey struct{}

var patience = 15 * time.Second

// question is one request.
type question struct {
	id     int
	kind   string
	held   bool
	gate   chan struct{}
	data   []byte
	mu     sync.Mutex
	served []string
	any    chan struct{} // closed when it has been served
	got    []string
	end    chan string // "done" or "error ..."
}

type linkWorld struct {
	mu  sync.Mutex
	qs  map[int]*question
	rnd *rand.Rand
}

var link *linkWorld

func (w *linkWorld) find(p payload.Payload, at int) *question {
	if len(p.Data()) < 4 || len(p.Metadata()) != at+2 {
		return nil
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	q := w.qs[int(binary.BigEndian.Uint32(p.Data()))]
	if q == nil || string(q.data) != string(p.Data()) || string(p.Metadata()[at:]) != "md" {
		return nil
	}
	return q
}

func (q *question) serve(ctx context.Context, kind, op string) string {
	who, _ := ctx.Value(whoKey{}).(string)
	if q == nil {
		return "unknown question"
	}
	s := who + " " + kind + " " + op
	q.mu.Lock()
	q.served = append(q.served, s)
	if len(q.served) == 1 {
		close(q.any)
	}
	q.mu.Unlock()
	return s
}

func (q *question) wait() {
	if q != nil && q.held {
		<-q.gate
	}
}

func pay(s string, n int) payload.Payload { return payload.New([]byte(fmt.Sprint(s, " ", n))) }

func offer(op string) {
	switch op[1] {
	case '1':
		invoke.ExportRequestResponse("link", op[:1], func(ctx context.Context, p payload.Payload) mono.Mono[payload.Payload] {
			q := link.find(p, 0)
			s := q.serve(ctx, "rr", op[:1])
			return mono.Create(func(sink mono.Sink[payload.Payload]) { q.wait(); sink.Success(pay(s, 0)) })
		})
	case '2':
		invoke.ExportFireAndForget("link", op[:1], func(ctx context.Context, p payload.Payload) { link.find(p, 0).serve(ctx, "fnf", op[:1]) })
	case '3':
		invoke.ExportRequestStream("link", op[:1], func(ctx context.Context, p payload.Payload) flux.Flux[payload.Payload] {
			q := link.find(p, 8)
			s := q.serve(ctx, "rs", op[:1])
			return flux.Create(func(sink flux.Sink[payload.Payload]) {
				sink.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {}})
				sink.Next(pay(s, 0))
				go func() { q.wait(); sink.Next(pay(s, 1)); sink.Next(pay(s, 2)); sink.Complete() }()
			})
		})
	case '4':
		invoke.ExportRequestChannel("link", op[:1], func(ctx context.Context, p payload.Payload, in flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			s := link.find(p, 8).serve(ctx, "rc", op[:1])
			return flux.Create(func(sink flux.Sink[payload.Payload]) {
				sink.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {}})
				in.Subscribe(flux.Subscribe[payload.Payload]{
					OnNext:     func(v payload.Payload) { sink.Next(payload.New([]byte(s + " " + string(v.Data())))) },
					OnComplete: sink.Complete,
					OnError:    sink.Error,
				})
			})
		})
	}
}

func init() {
	if os.Getenv("LINK") == "" {
		return
	}
	for _, op := range []string{"z1", "a1", "b1", "b2", "z2", "a2", "a3", "b3", "z3", "b4", "a4", "z4"} {
		offer(op)
	}
}

// ask puts a question and says how it went.
func (w *linkWorld) ask(c invoke.Caller, index uint32, kind string, held bool) *question {
	w.mu.Lock()
	id := len(w.qs) + 1
	q := &question{id: id, kind: kind, held: held, gate: make(chan struct{}), any: make(chan struct{}), end: make(chan string, 4)}
	q.data = make([]byte, 4+[]int{0, 1, 100, 4000, 8179, 8192, 20000, 100000}[w.rnd.Intn(8)])
	w.rnd.Read(q.data)
	binary.BigEndian.PutUint32(q.data, uint32(id))
	w.qs[id] = q
	w.mu.Unlock()
	md := make([]byte, 8, 10)
	binary.BigEndian.PutUint32(md, index)
	p := payload.New(q.data, append(md, "md"...))
	fin := func(s string) {
		select {
		case q.end <- s:
		default:
		}
	}
	next := func(v payload.Payload) {
		q.mu.Lock()
		q.got = append(q.got, string(v.Data()))
		q.mu.Unlock()
	}
	bg := context.Background()
	sub := flux.Subscribe[payload.Payload]{OnNext: next, OnComplete: func() { fin("done") }, OnError: func(err error) { fin("error") }}
	go func() {
		if e := vh.Guard(func() any {
			switch kind {
			case "rr":
				c.RequestResponse(bg, p).Subscribe(mono.Subscribe[payload.Payload]{
					OnSuccess: func(v payload.Payload) { next(v); fin("done") },
					OnError:   func(err error) { fin("error") },
				})
			case "fnf":
				c.FireAndForget(bg, p)
				fin("sent")
			case "rs":
				c.RequestStream(bg, p).Subscribe(sub)
			case "rc":
				in := flux.Create(func(sink flux.Sink[payload.Payload]) {
					sink.OnSubscribe(flux.OnSubscribe{Request: func(int) {}, Cancel: func() {}})
					sink.Next(payload.New([]byte("0")))
					go func() {
						q.wait()
						sink.Next(payload.New([]byte("1")))
						sink.Next(payload.New([]byte("2")))
						sink.Complete()
					}()
				})
				c.RequestChannel(bg, p, in).Subscribe(sub)
			}
			return nil
		}); e != nil {
			fin(fmt.Sprint("panic ", e))
		}
	}()
	return q
}

// fate waits for the outcome of a question.
func (q *question) fate() string {
	if q.kind == "fnf" {
		select {
		case <-q.any:
		case <-time.After(patience):
			return "never served"
		}
	}
	select {
	case s := <-q.end:
		return s
	case <-time.After(patience):
		return "nothing"
	}
}

func (q *question) check(who, op string) any {
	f := q.fate()
	q.mu.Lock()
	defer q.mu.Unlock()
	s := who + " " + q.kind + " " + op
	if fmt.Sprint(q.served) != fmt.Sprint([]string{s}) {
		return map[string]any{"question": q.kind, "served by": q.served, "want": s, "end": f}
	}
	if q.kind == "fnf" {
		return nil
	}
	want := []string{s + " 0"}
	if q.kind != "rr" {
		want = append(want, s+" 1", s+" 2")
	}
	if f != "done" || strings.Join(q.got, "|") != strings.Join(want, "|") {
		return map[string]any{"question": q.kind, "answers": q.got, "want": want, "end": f}
	}
	return nil
}

func (q *question) fails() any {
	if q.kind == "fnf" {
		select {
		case s := <-q.end:
			if s != "sent" {
				return map[string]any{"question": "fnf", "end": s}
			}
		case <-time.After(patience):
			return map[string]any{"question": "fnf", "end": "never returns"}
		}
		return nil
	}
	if f := q.fate(); f != "error" {
		return map[string]any{"question": q.kind, "of a side that is gone": f, "want": "error"}
	}
	return nil
}

func selfSigned() (*tls.Config, *tls.Config) {
	key, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	tpl := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: "link"}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(24 * time.Hour),
		DNSNames: []string{"link"}, IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageDigitalSignature | x509.KeyUsageCertSign}
	der, err := x509.CreateCertificate(crand.Reader, tpl, tpl, &key.PublicKey, key)
	if err != nil {
		panic(err)
	}
	cert, _ := x509.ParseCertificate(der)
	pool := x509.NewCertPool()
	pool.AddCert(cert)
	return &tls.Config{Certificates: []tls.Certificate{{Certificate: [][]byte{der}, PrivateKey: key}}}, &tls.Config{RootCAs: pool, ServerName: "link"}
}

type joined struct {
	h      *handler.Handler
	down   invoke.Caller
	tp     *rsocket.Transport
	cancel context.CancelFunc
	ended  chan error
	who    string
}

func swapped(l operations.Table) operations.Table {
	l = append(operations.Table{}, l...)
	for k, op := range l {
		switch op.Operation {
		case "a":
			l[k].Operation = "b"
		case "b":
			l[k].Operation = "a"
		}
	}
	return l
}

// TestLink: programs joined over sockets.
func TestLink(t *testing.T) {
	dir := t.TempDir()
	network, addr := "unix", filepath.Join(dir, "s")
	var stls, ctls *tls.Config
	mode := os.Getenv("LINK")
	switch mode {
	case "tcp", "tls":
		network = "tcp"
		ip := net.IPv4(127, byte(2+os.Getpid()%200), byte(os.Getpid()>>8), byte(1+os.Getpid()%250))
		l, err := net.Listen("tcp", ip.String()+":0")
		if err != nil {
			t.Fatal(err)
		}
		addr = l.Addr().String()
		_ = l.Close()
		if mode == "tls" {
			stls, ctls = selfSigned()
		}
	}
	os.Setenv("RSOCKET_NETWORK", network)
	os.Setenv("RSOCKET_ADDRESS", addr)
	if mode == "default" {
		network, addr = "tcp", "127.0.0.1:7878"
		os.Unsetenv("RSOCKET_NETWORK")
		os.Unsetenv("RSOCKET_ADDRESS")
	}
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		if mode == "default" { // somebody else may use the address
			l, err := net.Listen("tcp", ":7878")
			if err != nil {
				return nil, nil
			}
			_ = l.Close()
		}
		rnd := vh.Rand(vh.Cur())
		w := &linkWorld{qs: map[int]*question{}, rnd: rnd}
		link = w
		burst := rnd.Intn(2) == 0
		var srv rsocket.ServerTransport
		var stop context.CancelFunc
		var listened chan error
		accepted := make(chan invoke.Caller, 64)
		gen, njoin := 0, 0
		c := map[int]*joined{}
		up := map[int]bool{}
		held := map[string]*question{}
		var strangers []net.Conn
		var later []func() any
		settle := func() any {
			var bad any
			for _, f := range later {
				if d := f(); d != nil && bad == nil {
					bad = d
				}
			}
			later = nil
			return bad
		}
		newServer := func() rsocket.ServerTransport {
			acc := func(ctx context.Context, caller invoke.Caller, onClose func(*rsocket.Transport)) { accepted <- caller }
			if mode == "tls" {
				s := rsocket.NewTCPServerTransport(rsocket.NewTCPListenerFactory(network, addr, stls), nil)
				s.Accept(acc)
				return s
			}
			return rsocket.NewServer(acc)
		}
		listen := func(name string) (rsocket.ServerTransport, context.CancelFunc, chan error, bool, any) {
			ctx, cancel := context.WithCancel(context.WithValue(context.Background(), whoKey{}, name))
			s := newServer()
			note := make(chan bool, 1)
			res := make(chan error, 1)
			go func() { res <- s.Listen(ctx, note) }()
			select {
			case ok := <-note:
				return s, cancel, res, ok, nil
			case <-time.After(patience):
				return s, cancel, res, false, "nobody is told how the listening went"
			}
		}
		ended := func(ch chan error) (error, bool) {
			select {
			case err := <-ch:
				return err, true
			case <-time.After(patience):
				return nil, false
			}
		}
		failed := func(l []any) any {
			for _, x := range l {
				k := fmt.Sprint(x)
				q := held[k]
				delete(held, k)
				f := q.fate()
				close(q.gate)
				if f != "error" {
					return map[string]any{"pending request": k, "kind": q.kind, "end": f, "want": "error"}
				}
			}
			return nil
		}
		step := func(s vh.Step) any {
			i := s.I("i")
			switch s.A() {
			case "listen":
				x, cancel, res, ok, bad := listen(fmt.Sprint("server", gen+1))
				if bad != nil {
					return bad
				}
				if ok != (s.S("o") == "on") {
					return map[string]any{"listening": ok}
				}
				if ok {
					gen++
					srv, stop, listened = x, cancel, res
					break
				}
				err, over := ended(res)
				cancel()
				_ = x.Close()
				if !over || err == nil {
					return map[string]any{"refused listener returned": over, "error": err}
				}
			case "join":
				njoin++
				j := &joined{who: fmt.Sprint("client", njoin), ended: make(chan error, 1)}
				ctx, cancel := context.WithCancel(context.WithValue(context.Background(), whoKey{}, j.who))
				j.cancel = cancel
				j.h = rsocket.Handler(ctx)
				if s.S("f") == "connect" && mode != "tls" {
					go func() { j.ended <- rsocket.Connect(j.h) }()
				} else {
					var err error
					if mode == "tls" {
						var conn net.Conn
						if conn, err = rsocket.NewConnWithAddr(ctx, network, addr, ctls); err == nil {
							j.tp = rsocket.NewTCPClientTransport(conn, j.h)
						}
					} else {
						j.tp, err = rsocket.NewClient(ctx, j.h)
					}
					if err == nil {
						table := invoke.GetOperationsTable()
						if s.S("t") == "swap" {
							table = swapped(table)
						}
						err = j.tp.Send(&frames.Setup{MajorVersion: 0, MinorVersion: 2, Data: table.ToBytes()}, true)
						if err != nil {
							_ = j.tp.Close()
						}
					}
					if err != nil {
						j.ended <- err
					} else {
						go func() { j.ended <- j.tp.Start(ctx) }()
					}
				}
				if s.S("o") == "refused" {
					err, over := ended(j.ended)
					cancel()
					if !over || err == nil {
						return map[string]any{"joined nobody, returned": over, "error": err}
					}
					break
				}
				select {
				case j.down = <-accepted:
				case err := <-j.ended:
					return map[string]any{"join ended": fmt.Sprint(err)}
				case <-time.After(patience):
					return "joined, but the server's acceptor was not called"
				}
				c[i], up[i] = j, true
			case "ask", "hold":
				j := c[i]
				var to invoke.Caller = j.down
				who := j.who
				var index uint32
				if s.S("d") == "up" {
					to, who = j.h, fmt.Sprint("server", gen)
					for _, op := range invoke.GetOperationsTable() {
						if op.Operation == s.S("op") && op.Type == map[string]operations.RequestType{"rr": operations.RequestResponse, "fnf": operations.FireAndForget,
							"rs": operations.RequestStream, "rc": operations.RequestChannel}[s.S("k")] {
							index = op.Index
						}
					}
				} else {
					index = map[string]func(string, string) uint32{"rr": to.ImportRequestResponse, "fnf": to.ImportFireAndForget, "rs": to.ImportRequestStream, "rc": to.ImportRequestChannel}[s.S("k")]("link", s.S("op"))
				}
				q := w.ask(to, index, s.S("k"), s.A() == "hold")
				switch {
				case s.A() == "hold":
					held[fmt.Sprint([]any{float64(i), s.S("d")})] = q
					select {
					case <-q.any:
					case <-time.After(patience):
						return map[string]any{"request never served": s.S("k")}
					}
				case s.S("o") == "error":
					later = append(later, q.fails)
				default:
					later = append(later, func() any { return q.check(who, s.S("o")) })
				}
			case "answer":
				k := fmt.Sprint([]any{float64(i), s.S("d")})
				q := held[k]
				delete(held, k)
				who := c[i].who
				if s.S("d") == "up" {
					who = fmt.Sprint("server", gen)
				}
				close(q.gate)
				later = append(later, func() any { return q.check(who, s.S("o")) })
			case "leave":
				j := c[i]
				up[i] = false
				if s.S("how") == "close" {
					_ = j.tp.Close()
				} else {
					j.cancel()
				}
				if _, over := ended(j.ended); !over {
					return "the client left, but its run goes on"
				}
				return failed(s.L("fails"))
			case "stop":
				if s.S("how") == "close" {
					_ = srv.Close()
				} else {
					stop()
				}
				err, over := ended(listened)
				if !over || err != nil {
					return map[string]any{"Listen of the stopped server returned": over, "error": fmt.Sprint(err)}
				}
				stop()
				srv = nil
				for _, x := range s.L("ends") {
					i := int(x.(float64))
					up[i] = false
					if _, over := ended(c[i].ended); !over {
						return map[string]any{"the server has stopped, but the run goes on of client": i}
					}
				}
				for _, x := range strangers {
					_ = x.SetReadDeadline(time.Now().Add(patience))
					if _, err := io.Copy(io.Discard, x); err != nil && strings.Contains(err.Error(), "timeout") {
						return "the server has stopped, but the connection of a stranger is open"
					}
					_ = x.Close()
				}
				strangers = nil
				return failed(s.L("fails"))
			case "stranger":
				x, err := net.Dial(network, addr)
				if err != nil {
					return map[string]any{"a stranger cannot connect": err.Error()}
				}
				switch s.S("w") {
				case "garbage":
					_, _ = x.Write([]byte{0, 0, 8, 0, 0, 0, 1, 63 << 2, 0, 1, 2})
				case "request":
					_, _ = x.Write(framed(&frames.RequestPayload{FrameType: frames.FrameTypeRequestResponse, StreamID: 1, Data: []byte("x"), Metadata: make([]byte, 8)}))
				case "half":
					_, _ = x.Write([]byte{0, 0, 40, 0, 0, 0, 0, 4, 0}[:1+rnd.Intn(9)])
					strangers = append(strangers, x)
					return nil
				case "silent":
					strangers = append(strangers, x)
					return nil
				case "gone":
					_ = x.Close()
					return nil
				}
				_ = x.SetReadDeadline(time.Now().Add(patience))
				_, err = io.Copy(io.Discard, x)
				_ = x.Close()
				if err != nil && strings.Contains(err.Error(), "timeout") {
					return "the server keeps the connection of a stranger"
				}
			}
			return nil
		}
		var bad any
		steps := vh.Steps(raw)
		for n, s := range steps {
			if !(burst && (s.A() == "ask" || s.A() == "answer" || s.A() == "hold")) {
				if bad = settle(); bad != nil {
					bad = map[string]any{"before step": n, "d": bad}
					break
				}
			}
			if d := step(s); d != nil {
				bad = map[string]any{"step": n, "a": s, "d": d}
				break
			}
			if !burst {
				if d := settle(); d != nil {
					bad = map[string]any{"step": n, "a": s, "d": d}
					break
				}
			}
			var l []int
			for i, u := range up {
				if u {
					l = append(l, i)
				}
			}
			sort.Ints(l)
			for _, i := range l {
				select {
				case err := <-c[i].ended:
					bad = map[string]any{"step": n, "a": s, "client": i, "its run has ended": fmt.Sprint(err)}
				default:
				}
			}
			if srv != nil {
				select {
				case err := <-listened:
					bad = map[string]any{"step": n, "a": s, "the server has ended": fmt.Sprint(err)}
				default:
				}
			}
			if bad != nil {
				break
			}
		}
		if bad == nil {
			bad = settle()
		}
		for _, q := range held {
			close(q.gate)
		}
		if srv != nil {
			_ = srv.Close()
			stop()
			if bad == nil {
				if _, over := ended(listened); !over {
					bad = "Listen does not return"
				}
			}
		}
		for _, j := range c {
			j.cancel()
			if j.tp != nil {
				_ = j.tp.Close()
			}
		}
		for _, x := range strangers {
			_ = x.Close()
		}
		if bad == nil && len(accepted) > 0 {
			bad = map[string]any{"the acceptor was called": len(accepted), "times": "for nobody"}
		}
		for _, q := range w.qs {
			q.mu.Lock()
			if len(q.served) > 1 && bad == nil {
				bad = map[string]any{"served more than once": q.served}
			}
			q.mu.Unlock()
		}
		if bad != nil {
			patience = time.Second // established: do not wait as long for every other history
		}
		return bad, nil
	})
}
