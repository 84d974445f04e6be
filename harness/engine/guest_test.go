//go:build go1.22 && wasi

package engine

import (
	"context"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"unsafe"

	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
)

// inModule is the guest's side of a module; the host is played by the harness.
type inModule struct {
	in, out []byte
	sent    [][]byte
	on      func() // is called while the next frame is handled
}

var (
	theModule *inModule
	once      sync.Once
)

const bufSize = 16 * 1024

var capIn, capOut = envInt("CAPIN", bufSize), envInt("CAPOUT", bufSize)

func envInt(name string, def int) int {
	if n, err := strconv.Atoi(os.Getenv(name)); err == nil {
		return n
	}
	return def
}

func newModule() *inModule {
	once.Do(func() {
		theModule = &inModule{}
		guest.VInitBuffers = func(g, h uintptr) {
			theModule.in = unsafe.Slice((*byte)(unsafe.Pointer(g)), capIn)
			theModule.out = unsafe.Slice((*byte)(unsafe.Pointer(h)), capOut)
		}
		guest.VHostSend = func(n uint32) {
			if int(n) > capOut {
				panic("hand-over beyond the buffer")
			}
			l := split(theModule.out[:n])
			theModule.sent = append(theModule.sent, l...)
			if on := theModule.on; on != nil {
				theModule.on = nil
				on()
				if k := split(theModule.out[:n]); len(k) != len(l) || string(k[0]) != string(l[0]) {
					theModule.sent = append(theModule.sent, []byte("the buffer was written to while its frame was handled"))
				}
			}
			for i := range theModule.out {
				theModule.out[i] = 0xee
			}
		}
		guest.Init(uint32(capIn), uint32(capOut), 1<<20)
	})
	theModule.sent, theModule.on = nil, nil
	return theModule
}

func split(b []byte) (res [][]byte) {
	for len(b) >= 3 {
		n := int(b[0])<<16 | int(b[1])<<8 | int(b[2])
		if n > len(b)-3 {
			return append(res, append([]byte(nil), b...))
		}
		res = append(res, append([]byte(nil), b[3:3+n]...))
		b = b[3+n:]
	}
	return
}

func (m *inModule) HandOver(all []byte, said uint32) {
	copy(m.in, all)
	guest.GuestSend(said)
	for i := range m.in {
		m.in[i] = 0xdd
	}
}

// OnReceive sets what the host does while it handles the next frame.
func (m *inModule) OnReceive(f func()) { m.on = f }
func (m *inModule) Grow()              {}

func newBuffers() buffers { return newModule() }

func (m *inModule) Deliver(bufs ...[]byte) {
	var all []byte
	flush := func() {
		if len(all) > 0 {
			m.HandOver(all, uint32(len(all)))
			all = nil
		}
	}
	for _, b := range bufs {
		n := len(b)
		if len(all)+3+n > capIn {
			flush()
		}
		all = append(append(all, byte(n>>16), byte(n>>8), byte(n)), b...)
	}
	flush()
}
func (m *inModule) Sent() [][]byte              { o := m.sent; m.sent = nil; return o }
func (m *inModule) Caller() invoke.Caller       { return guest.HostInvoker }
func (m *inModule) Odd() bool                   { return true }
func (m *inModule) Full(k string) bool          { return k == "rs" || k == "rc" }
func (m *inModule) Held(id uint32) (bool, bool) { return false, false }
func (m *inModule) Kept() int                   { return -1 }
func (m *inModule) Down(string)                 { panic("a guest has no end") }
func (m *inModule) Close()                      {}

const gated = false

func init() {
	registerGlobal()
}

func newEnd(name string, rnd *rand.Rand, w *world) endpoint { return newModule() }

func hostSide() {}

func newCtxEnd(kind string, ctx context.Context, w *contexts) endpoint { return newModule() }
