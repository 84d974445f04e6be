//go:build go1.22

package mesh

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"testing"
	"testing/synctest"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

// failing makes a module of the guest that fails as m says, and its operations.
func failing(tag string, m vh.Step) ([]byte, operations.Table) {
	b := append([]byte(nil), guest()...)
	conf := b[bytes.Index(b, []byte("zzverif-mesh-con")):][:4096]
	for k := 16; k < 86; k++ {
		conf[k] = 0
	}
	copy(conf[16:20], tag)
	var t operations.Table
	for j, l := range m.L("hows") {
		for k, how := range l.([]any) {
			conf[22+16*j+k] = byte(how.(float64))
			t = append(t, operations.Operation{Index: uint32(k), Type: operations.RequestType(j + 1), Direction: operations.Export, Namespace: "n", Operation: fmt.Sprint("o", k)})
		}
	}
	conf[22+13], conf[22+14] = 3, 4
	ops := t.ToBytes()
	binary.BigEndian.PutUint16(conf[20:], uint16(len(ops)))
	copy(conf[86:], ops)
	conf[4095] = byte(m.I("bad"))
	if m.I("bad") == 14 {
		t = nil
	}
	return b, t
}

// shaped makes a module by hand: which functions it exports, of what kind.
func shaped(m vh.Step) []byte {
	sec := func(id byte, body ...byte) []byte { return append([]byte{id, byte(len(body))}, body...) }
	// types: 0 (i32,i32,i32)->i32, 1 (i32)->i32, 2 ()->(), 3 (i32)->()
	b := []byte{0, 'a', 's', 'm', 1, 0, 0, 0}
	b = append(b, sec(1, 5, 0x60, 3, 0x7f, 0x7f, 0x7f, 1, 0x7f, 0x60, 1, 0x7f, 1, 0x7f, 0x60, 0, 0, 0x60, 1, 0x7f, 0, 0x60, 2, 0x7f, 0x7f, 0)...)
	const op = "__op_list"
	imp := append([]byte{1, 6}, "wasmrs"...)
	imp = append(append(append(imp, byte(len(op))), op...), 0, 4)
	b = append(b, sec(2, imp...)...)
	var funcs, exports, code []byte
	n, e := 0, 0
	fn := func(name, how string, typ byte, ret bool, body ...byte) {
		if how == "none" {
			return
		}
		e++
		exports = append(exports, byte(len(name)))
		exports = append(exports, name...)
		if how == "global" {
			exports = append(exports, 3, 0)
			return
		}
		if how == "params" {
			typ, body = 3, nil
			if name == "__wasmrs_send" {
				typ = 2
			}
		} else if how == "trap" {
			body = []byte{0} // unreachable
		} else if ret {
			body = append(body, 0x41, 1)
		}
		n++
		exports = append(exports, 0, byte(n))
		funcs = append(funcs, typ)
		code = append(code, byte(len(body)+2), 0)
		code = append(append(code, body...), 0x0b)
	}
	fn("__wasmrs_init", m.S("init"), 0, true)
	fn("__wasmrs_send", m.S("send"), 1, true)
	// the list: 12 bytes at 16
	fn("__wasmrs_op_list_request", m.S("list"), 2, false, 0x41, 16, 0x41, 12, 0x10, 0)
	b = append(b, sec(3, append([]byte{byte(n)}, funcs...)...)...)
	if m.B("mem") {
		b = append(b, sec(5, 1, 0, 1)...)
	}
	b = append(b, sec(6, 1, 0x7f, 0, 0x41, 0, 0x0b)...)
	b = append(b, sec(7, append([]byte{byte(e)}, exports...)...)...)
	b = append(b, sec(10, append([]byte{byte(n)}, code...)...)...)
	if m.B("mem") {
		list := operations.Table{}.ToBytes()
		b = append(b, sec(11, append([]byte{1, 0, 0x41, 16, 0x0b, byte(len(list))}, list...)...)...)
	}
	return b
}

type loaded struct {
	i     *host.Instance
	tag   string
	ops   operations.Table
	m     vh.Step
	shape bool
}

// TestModules: Modules.tla.
func TestModules(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (bad any, _ any) {
		synctest.Test(t, func(t *testing.T) {
			rnd := vh.Rand(vh.Cur())
			ctx := context.Background()
			hosts := map[int]*host.Host{}
			compiled := map[string]*host.Module{}
			var insts []*loaded
			var held []*reply
			var texts []string // what each held one would answer
			var was []int
			loads := 0
			direct := func(x *loaded, kind int, op byte) *reply {
				p := payload.New([]byte("d"), []byte{0, 0, 0, op, 0, 0, 0, 0})
				r := &reply{items: []string{}}
				switch kind {
				case 1:
					return r.mono(x.i.RequestResponse(ctx, p))
				case 2:
					x.i.FireAndForget(ctx, p)
					return r
				case 3:
					return r.flux(x.i.RequestStream(ctx, p))
				}
				return r.flux(x.i.RequestChannel(ctx, p, inputs()))
			}
			opOf := func(x *loaded, k, how int) byte {
				if x.shape {
					return 0
				}
				var at []byte
				for n, v := range x.m.L("hows")[k-1].([]any) {
					if int(v.(float64)) == how {
						at = append(at, byte(n))
					}
				}
				return at[rnd.Intn(len(at))]
			}
			bad = vh.RunStepsOf(raw, func(i int, s vh.Step, o vh.Step) any {
				arg := s.M("arg")
				want := o.M("ret")
				ret := map[string]any{"e": "", "items": []any{}}
				var x *loaded
				if s.A() != "inst" {
					x = insts[arg.I("x")-1]
				}
				switch s.A() {
				case "inst":
					h := hosts[arg.I("host")]
					if h == nil {
						var err error
						if h, err = host.New(ctx); err != nil {
							panic(err)
						}
						hosts[arg.I("host")] = h
					}
					loads++
					x = &loaded{tag: fmt.Sprint("t", loads), m: arg.M("m"), shape: arg.B("shape")}
					var source []byte
					if x.shape {
						source = shaped(x.m)
					} else {
						// instances of one module, or of two that are alike
						key := fmt.Sprint(arg.I("host"), x.m)
						if rnd.Intn(2) == 0 {
							x.tag = "same"
						}
						source, x.ops = failing(x.tag, x.m)
						if x.tag == "same" && compiled[key] != nil {
							source = nil
						}
					}
					key := fmt.Sprint(arg.I("host"), x.m)
					m := compiled[key]
					if source != nil {
						var err error
						if m, err = h.Compile(ctx, source); err != nil {
							return "compile: " + err.Error()
						}
						if x.tag == "same" {
							compiled[key] = m
						}
					}
					var err error
					x.i, err = m.Instantiate(ctx)
					switch {
					case err == nil && x.i != nil:
						ret["e"] = "ok"
						if want.S("e") != "ok" {
							return "a module that cannot be used was accepted"
						}
						if !vh.Equal(append(operations.Table{}, x.ops...), append(operations.Table{}, x.i.Operations()...)) {
							return map[string]any{"operations": x.i.Operations(), "want": x.ops}
						}
						insts = append(insts, x)
					case err != nil && x.i == nil:
						ret["e"] = "error"
						if want.S("e") != "error" {
							return "instantiate: " + err.Error()
						}
					default:
						return "instantiate: " + fmt.Sprint(x.i, err)
					}
				case "call":
					op := opOf(x, arg.I("k"), arg.I("how"))
					r := direct(x, arg.I("k"), op)
					synctest.Wait()
					r.mu.Lock()
					l := []any{}
					for _, v := range r.items {
						pre := fmt.Sprintf("%s.%d.%d:", x.tag, arg.I("k"), op)
						if len(v) > len(pre) && v[:len(pre)] == pre {
							if v = v[len(pre):]; v == "d" {
								v = "f"
							}
						}
						l = append(l, v)
					}
					ret["items"] = l
					switch len(r.ends) {
					case 0:
					case 1:
						ret["e"] = r.ends[0]
					default:
						ret["e"] = fmt.Sprint(r.ends)
					}
					r.mu.Unlock()
					if want.S("e") == "" && ret["e"] == "" {
						held = append(held, r)
						texts = append(texts, x.tag+".1.99:")
						was = append(was, len(r.items))
					}
				case "fnf":
					direct(x, 2, opOf(x, 2, arg.I("how")))
				case "release":
					direct(x, 1, 13)
				case "close":
					done := make(chan bool)
					go func() { x.i.Close(); close(done) }()
					synctest.Wait()
					select {
					case <-done:
					default:
						return "close waits"
					}
				}
				synctest.Wait()
				done := []any{}
				for k := range o.L("done") { // of those held back before
					r := held[k]
					r.mu.Lock()
					v := ""
					if r.ends != nil {
						v = fmt.Sprint(r.ends, r.items[was[k]:])
						if len(r.ends) == 1 && r.ends[0] == "error" && len(r.items) == was[k] {
							v = "error"
						} else if len(r.ends) == 1 && r.ends[0] == "ok" && len(r.items) == was[k]+1 && r.items[was[k]] == texts[k] {
							v = "ok"
						}
						if v == o.L("done")[k] {
							r.ends, was[k] = nil, len(r.items) // told once
						}
					}
					r.mu.Unlock()
					done = append(done, v)
				}
				st := []any{}
				probes := make([]*reply, len(insts))
				for k, x := range insts {
					if !x.shape {
						probes[k] = direct(x, 1, 14)
					}
				}
				synctest.Wait()
				for k, r := range probes {
					v := -2
					if r != nil {
						v = -3
						if len(r.ends) == 1 && r.ends[0] == "error" {
							v = -1
						} else if len(r.ends) == 1 && len(r.items) == 1 {
							v = -4
							fmt.Sscanf(r.items[0], insts[k].tag+".1.14:%d", &v)
						}
					}
					st = append(st, v)
				}
				if res := (map[string]any{"ret": ret, "done": done, "st": st}); !vh.Equal(map[string]any(o), res) {
					return res
				}
				return nil
			})
			for _, x := range insts {
				go x.i.Close()
			}
			time.Sleep(time.Minute)
			synctest.Wait()
			if bad != nil {
				vh.Restart(bad)
			}
		})
		return
	})
}

// inputs is a channel's input: 1, 2, end.
func inputs() flux.Flux[payload.Payload] {
	return flux.Create(func(sink flux.Sink[payload.Payload]) {
		sent := 0
		sink.OnSubscribe(flux.OnSubscribe{Request: func(n int) {
			for ; n > 0 && sent < 2; n-- {
				sent++
				sink.Next(payload.New([]byte(fmt.Sprint(sent))))
			}
			if sent == 2 {
				sent++
				sink.Complete()
			}
		}, Cancel: func() {}})
	})
}
