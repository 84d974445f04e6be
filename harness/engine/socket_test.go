//go:build go1.22 && !wasi

package engine

import (
	"context"
	"fmt"
	"io"
	"math/rand"
	"net"
	"reflect"
	"sync"
	"time"
	"unsafe"

	"github.com/tetratelabs/wazero"
	"github.com/tetratelabs/wazero/api"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/proxy"
	"github.com/nanobus/iota/go/transport/rsocket"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

// field returns the first field of a structure with the type T, whatever its name.
func field[T any](p any) (res []*T) {
	v := reflect.ValueOf(p).Elem()
	want := reflect.TypeOf((*T)(nil)).Elem()
	for i := 0; i < v.NumField(); i++ {
		if v.Field(i).Type() == want {
			res = append(res, (*T)(unsafe.Pointer(v.Field(i).UnsafeAddr())))
		}
	}
	return
}

func heldIn(p any, id uint32) (held, known bool) {
	l := field[proxy.Lookup](p)
	for _, x := range l {
		if _, ok := x.Get(id); ok {
			return true, true
		}
	}
	return false, len(l) == 2
}

func keptIn(p any) int {
	n := 0
	l := field[proxy.Lookup](p)
	for _, x := range l {
		n += x.Size()
	}
	if len(l) != 2 {
		return -1
	}
	return n
}

// peer is a socket peer (package handler).
type peer struct {
	h    *handler.Handler
	mode handler.Mode
	mu   sync.Mutex
	out  [][]byte
	sink func([]byte)
}

func newPeer(mode handler.Mode) *peer { return newPeerIn(context.Background(), mode) }

func newPeerIn(ctx context.Context, mode handler.Mode) *peer {
	p := &peer{h: handler.New(ctx, mode), mode: mode}
	p.h.SetFrameSender(func(f frames.Frame) error {
		if _, ok := f.(*frames.Error); !ok && f.Size() > 16*1024-3 {
			return fmt.Errorf("frame of %d bytes refused", f.Size())
		}
		b := encode(f)
		if p.sink != nil {
			p.sink(b)
			return nil
		}
		p.mu.Lock()
		p.out = append(p.out, b)
		p.mu.Unlock()
		return nil
	})
	return p
}

func (p *peer) Deliver(bufs ...[]byte) {
	for _, b := range bufs {
		f, err := decode(append([]byte(nil), b...))
		if err != nil {
			continue
		}
		if err := p.h.HandleFrame(f); err != nil {
			panic("HandleFrame: " + err.Error())
		}
	}
}
func (p *peer) Sent() [][]byte {
	p.mu.Lock()
	defer p.mu.Unlock()
	o := p.out
	p.out = nil
	return o
}
func (p *peer) Caller() invoke.Caller       { return p.h }
func (p *peer) Odd() bool                   { return p.mode == handler.ClientMode }
func (p *peer) Full(k string) bool          { return k == "rs" || k == "rc" }
func (p *peer) Held(id uint32) (bool, bool) { return heldIn(p.h, id) }
func (p *peer) Kept() int                   { return keptIn(p.h) }
func (p *peer) Down(string)                 { panic("no connection") }
func (p *peer) Close()                      { p.h.Close() }

// module is the host's side of a module; the module itself is played by the harness.
type module struct {
	i    *host.Instance
	ctx  context.Context // carries the instance, as every call into the module does
	mem  []byte
	mu   sync.Mutex
	out  [][]byte
	sink func([]byte) // gets what leaves at once
	on   func()       // is called while the next frame is handled
	big  []uint32
}

const (
	sendAt, recvAt = 64 * 1024, 128 * 1024
	bufSize        = 16 * 1024
)

var hostFns struct {
	once                 sync.Once
	rt                   wazero.Runtime
	mu                   sync.Mutex
	send, initBuf, opLst api.Function
}

// hostSide gives the functions which the host offers to modules.
func hostSide() {
	hostFns.once.Do(func() {
		h, err := host.New(context.Background())
		if err != nil {
			panic(err)
		}
		rts := field[wazero.Runtime](h)
		if len(rts) != 1 {
			panic("no runtime in the host")
		}
		m := (*rts[0]).Module("wasmrs")
		hostFns.rt = *rts[0]
		hostFns.send, hostFns.initBuf, hostFns.opLst = m.ExportedFunction("__send"), m.ExportedFunction("__init_buffers"), m.ExportedFunction("__op_list")
	})
}

type fakeMemory struct {
	api.Memory
	m *module
}

func (f fakeMemory) Size() uint32 { return uint32(len(f.m.mem)) }
func (f fakeMemory) Read(off, n uint32) ([]byte, bool) {
	if uint64(off)+uint64(n) > uint64(len(f.m.mem)) {
		return nil, false
	}
	return f.m.mem[off : off+n : off+n], true
}

type fakeModule struct {
	api.Module
	m *module
}

type fakeFn struct {
	api.Function
	call func(ctx context.Context, params ...uint64) ([]uint64, error)
}

func (f fakeFn) Call(ctx context.Context, params ...uint64) ([]uint64, error) {
	return f.call(ctx, params...)
}

func (f fakeModule) Memory() api.Memory { return fakeMemory{m: f.m} }
func (f fakeModule) ExportedFunction(name string) api.Function {
	switch name {
	case "__wasmrs_init":
		return fakeFn{call: f.m.init}
	case "__wasmrs_send":
		return fakeFn{call: f.m.receive}
	case "__wasmrs_op_list_request":
		return fakeFn{call: func(ctx context.Context, _ ...uint64) ([]uint64, error) { return nil, nil }}
	}
	return nil
}

func newModule() *module { return newModuleIn(context.Background()) }

func newModuleIn(ctx context.Context) *module {
	hostSide()
	m := &module{mem: make([]byte, 160*1024)}
	i, err := host.NewInstance(ctx, fakeModule{m: m})
	if err != nil {
		panic(err)
	}
	m.i = i
	return m
}

func hostCall(f api.Function, ctx context.Context, params ...uint64) {
	if _, err := f.Call(ctx, params...); err != nil {
		panic("host function: " + err.Error())
	}
}

func (m *module) init(ctx context.Context, params ...uint64) ([]uint64, error) {
	m.ctx = ctx
	hostCall(hostFns.initBuf, ctx, sendAt, recvAt)
	return nil, nil
}

// receive is the module's side of a hand-over by the host.
func (m *module) receive(ctx context.Context, params ...uint64) ([]uint64, error) {
	n := int(params[0])
	m.mu.Lock()
	defer m.mu.Unlock()
	if n > bufSize {
		m.big = append(m.big, uint32(n))
		return nil, nil
	}
	if m.sink != nil {
		for _, b := range split(m.mem[sendAt : sendAt+n]) {
			m.sink(b)
		}
		return nil, nil
	}
	l := split(m.mem[sendAt : sendAt+n])
	m.out = append(m.out, l...)
	if on := m.on; on != nil {
		m.on = nil
		on()
		// what was handed over stays as it is while it is handled
		if k := split(m.mem[sendAt : sendAt+n]); len(k) != len(l) || string(join(k)) != string(join(l)) {
			m.out = append(m.out, []byte("the buffer was written to while its frame was handled"))
		}
	}
	for i := range m.mem[sendAt : sendAt+bufSize] {
		m.mem[sendAt+i] = 0xee
	}
	return nil, nil
}

func split(b []byte) (res [][]byte) {
	for len(b) >= 3 {
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		if n > len(b)-3 {
			return append(res, append([]byte(nil), b...))
		}
		res = append(res, append([]byte(nil), b[3:3+n]...))
		b = b[3+n:]
	}
	if len(b) > 0 {
		res = append(res, append([]byte(nil), b...))
	}
	return
}

func join(bufs [][]byte) (res []byte) {
	for _, b := range bufs {
		n := len(b)
		res = append(res, byte(n>>16), byte(n>>8), byte(n))
		res = append(res, b...)
	}
	return
}

// HandOver gives bytes to the host through the shared buffer.
func (m *module) HandOver(all []byte, said uint32) {
	hostFns.mu.Lock()
	defer hostFns.mu.Unlock()
	copy(m.mem[recvAt:], all)
	hostCall(hostFns.send, m.ctx, uint64(said))
	for i := range m.mem[recvAt : recvAt+bufSize] {
		m.mem[recvAt+i] = 0xdd
	}
}

func (m *module) Deliver(bufs ...[]byte) {
	for len(bufs) > 0 {
		n := 1
		for n < len(bufs) && len(join(bufs[:n+1])) <= bufSize {
			n++
		}
		all := join(bufs[:n])
		m.HandOver(all, uint32(len(all)))
		bufs = bufs[n:]
	}
}
func (m *module) Sent() [][]byte {
	m.mu.Lock()
	defer m.mu.Unlock()
	o := m.out
	m.out = nil
	return o
}
func (m *module) Caller() invoke.Caller       { return m.i }
func (m *module) Odd() bool                   { return false }
func (m *module) Full(k string) bool          { return true }
func (m *module) Held(id uint32) (bool, bool) { return heldIn(m.i, id) }
func (m *module) Kept() int                   { return keptIn(m.i) }
func (m *module) Down(string)                 { m.i.Close() }
func (m *module) Close()                      { m.i.Close() }

// OnReceive sets what the module does while it handles the next frame.
func (m *module) OnReceive(f func()) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.on = f
}

// Grow moves the memory of the module.
func (m *module) Grow() {
	m.mu.Lock()
	defer m.mu.Unlock()
	old := m.mem
	m.mem = append(append([]byte(nil), old...), make([]byte, 64*1024)...)
	for i := range old {
		old[i] = 0xcc
	}
}

func newBuffers() buffers { return newModule() }

const gated = true

// concEnd makes an endpoint for the concurrent programs.
func concEnd(name string, w *cw) endpoint {
	switch name {
	case "client", "server":
		p := newPeer(map[string]handler.Mode{"client": handler.ClientMode, "server": handler.ServerMode}[name])
		p.sink = w.out
		return p
	}
	m := newModule()
	m.sink = w.out
	m.i.SetRequestResponseHandler(opNumber, w.rr)
	m.i.SetFireAndForgetHandler(opNumber, w.fnf)
	m.i.SetRequestStreamHandler(opNumber, w.rs)
	m.i.SetRequestChannelHandler(opNumber, w.rc)
	return m
}

func init() {
	registerGlobal()
}

func newEnd(name string, rnd *rand.Rand, w *world) endpoint {
	switch name {
	case "client":
		return newPeer(handler.ClientMode)
	case "server":
		return newPeer(handler.ServerMode)
	case "netclient":
		return newNet(handler.ClientMode)
	case "netserver":
		return newNet(handler.ServerMode)
	}
	m := newModule()
	m.i.SetRequestResponseHandler(opNumber, w.rr)
	m.i.SetFireAndForgetHandler(opNumber, w.fnf)
	m.i.SetRequestStreamHandler(opNumber, w.rs)
	m.i.SetRequestChannelHandler(opNumber, w.rc)
	return m
}

// net is a socket peer at the end of a real connection.
type netEnd struct {
	peer
	tp     *rsocket.Transport
	far    net.Conn
	cancel func()
}

func newNet(mode handler.Mode) *netEnd {
	ctx, cancel := context.WithCancel(context.Background())
	near, far := net.Pipe()
	n := &netEnd{peer: peer{h: handler.New(ctx, mode), mode: mode}, far: far, cancel: cancel}
	n.tp = rsocket.NewTransport(rsocket.NewTCPConn(near), n.h, mode == handler.ServerMode)
	go n.tp.Start(ctx)
	if mode == handler.ServerMode {
		far.Write(join([][]byte{encode(&frames.Setup{MajorVersion: 1, MimeMetadata: "a", MimeData: "b", Data: operations.Table{}.ToBytes()})}))
	}
	go func() {
		for {
			b := make([]byte, 3)
			if _, err := io.ReadFull(far, b); err != nil {
				return
			}
			b = make([]byte, int(b[0])<<16|int(b[1])<<8|int(b[2]))
			if _, err := io.ReadFull(far, b); err != nil {
				return
			}
			n.mu.Lock()
			n.out = append(n.out, b)
			n.mu.Unlock()
		}
	}()
	return n
}

func (n *netEnd) Deliver(bufs ...[]byte) { n.far.Write(join(bufs)) }
func (n *netEnd) Down(cause string) {
	switch cause {
	case "eof":
		n.far.Close()
	case "close":
		n.tp.Close()
	case "ctx":
		n.cancel()
	case "bad":
		n.far.Write([]byte{0, 0, 6, 0, 0, 0, 1, 0xfc, 0}) // no frame has this type
	}
}
func (n *netEnd) Close() {
	n.cancel()
	n.tp.Close()
	n.far.Close()
}

// newCtxEnd makes an endpoint with a context of its own.
func newCtxEnd(kind string, ctx context.Context, w *contexts) endpoint {
	if kind != "host" {
		return newPeerIn(ctx, map[string]handler.Mode{"client": handler.ClientMode, "server": handler.ServerMode}[kind])
	}
	// the context an instance is made with says nothing about its requests
	made, cancel := context.WithTimeout(context.WithValue(context.Background(), ctxKey{}, 98), time.Minute)
	defer cancel()
	m := newModuleIn(made)
	m.i.SetRequestResponseHandler(opNumber, w.rr)
	m.i.SetFireAndForgetHandler(opNumber, w.fnf)
	m.i.SetRequestStreamHandler(opNumber, w.rs)
	m.i.SetRequestChannelHandler(opNumber, w.rc)
	return m
}
