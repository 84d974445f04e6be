//go:build go1.22

package optable

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"runtime"
	"sort"
	"testing"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/guest"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
)

func show(t operations.Table) []any {
	res := []any{}
	for _, o := range t {
		res = append(res, map[string]any{"type": o.Type, "dir": o.Direction, "idx": vh.Ints(binary.BigEndian.AppendUint32(nil, o.Index)), "ns": vh.Short([]byte(o.Namespace)), "name": vh.Short([]byte(o.Operation))})
	}
	return res
}

func want(l []any) []any {
	res := []any{}
	for _, x := range l {
		o := vh.Step(x.(map[string]any))
		res = append(res, map[string]any{"type": o["type"], "dir": o["dir"], "idx": o["idx"], "ns": vh.Short(o.Wire("ns")), "name": vh.Short(o.Wire("name"))})
	}
	return res
}

func TestTable(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		s := vh.Steps(raw)[0]
		wire := s.Wire("wire")
		fail := func(what string, got, exp any) (any, any) {
			return map[string]any{"what": what, "case": s, "got": got, "want": exp}, nil
		}
		var tab operations.Table
		res := false
		for _, x := range s.L("t") {
			o := vh.Step(x.(map[string]any))
			res = res || o.I("res") > 0
			tab = append(tab, operations.Operation{Index: binary.BigEndian.Uint32(o.Bytes("idx")), Type: operations.RequestType(o.I("type")), Direction: operations.Direction(o.I("dir")),
				Namespace: string(o.Wire("ns")), Operation: string(o.Wire("name"))})
		}
		if s.A() == "none" && !res {
			if got := vh.Guard(func() any { return vh.Short(tab.ToBytes()) }); got != vh.Short(wire) {
				return fail("encode", got, vh.Short(wire))
			}
		}
		room := append(append([]byte(nil), wire...), bytes.Repeat([]byte{0}, 70)...)[:len(wire)]
		d := s.M("dec")
		var exp any = map[string]any{"ok": false}
		if d.B("ok") {
			exp = want(d.L("ops"))
		}
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		var back operations.Table
		got := vh.Guard(func() any {
			r, err := operations.FromBytes(room)
			if err != nil {
				return map[string]any{"ok": false}
			}
			back = r
			return show(r)
		})
		runtime.ReadMemStats(&b)
		bad := vh.Norm(map[string]any{"ok": false})
		if !vh.Equal(got, exp) && !(s.A() == "set" && vh.Equal(got, bad)) {
			return fail("decode", got, exp)
		}
		if used, lim := b.TotalAlloc-a.TotalAlloc, uint64(64*1024+64*len(wire)); s.A() != "none" && used > lim {
			return fail("allocated out of proportion", used, lim)
		}
		// names do not change when the buffer is used again
		for i := range room {
			room[i] = 0x55
		}
		if back != nil && !vh.Equal(show(back), exp) && s.A() != "set" {
			return fail("decoded table shares memory with its input", show(back), exp)
		}
		// a peer resolves what the list exports
		if s.A() == "none" && d.B("ok") {
			h := handler.New(context.Background(), handler.ServerMode)
			h.SetFrameSender(func(frames.Frame) error { return nil })
			if err := h.HandleFrame(&frames.Setup{Data: wire}); err != nil {
				return fail("setup frame", err.Error(), nil)
			}
			for _, o := range tab {
				if o.Direction != operations.Export || o.Type < 1 || o.Type > 4 {
					continue
				}
				no := []func(string, string) uint32{h.ImportRequestResponse, h.ImportFireAndForget, h.ImportRequestStream, h.ImportRequestChannel}[o.Type-1](o.Namespace, o.Operation)
				ok := false
				for _, p := range tab {
					ok = ok || (p.Direction == o.Direction && p.Type == o.Type && p.Namespace == o.Namespace && p.Operation == o.Operation && p.Index == no)
				}
				if !ok {
					return fail("peer resolves "+o.Type.String()+" "+vh.Short([]byte(o.Namespace))+" "+vh.Short([]byte(o.Operation)), no, o.Index)
				}
			}
		}
		return nil, nil
	})
}

var kinds = []string{"rr", "fnf", "rs", "rc"}

// call runs the handler behind a number and says which one answered.
func call(k string, no uint32) (hid int, err any) {
	answered = 0
	err = vh.Guard(func() any {
		ctx, p := context.Background(), payload.New(nil)
		switch k {
		case "rr":
			if f := invoke.GetRequestResponseHandler(no); f != nil {
				f(ctx, p)
			}
		case "fnf":
			if f := invoke.GetFireAndForgetHandler(no); f != nil {
				f(ctx, p)
			}
		case "rs":
			if f := invoke.GetRequestStreamHandler(no); f != nil {
				f(ctx, p)
			}
		case "rc":
			if f := invoke.GetRequestChannelHandler(no); f != nil {
				f(ctx, p, nil)
			}
		}
		return nil
	})
	return answered, err
}

var answered int

func export(k, ns, name string, hid int) {
	switch k {
	case "rr":
		invoke.ExportRequestResponse(ns, name, func(context.Context, payload.Payload) mono.Mono[payload.Payload] { answered = hid; return nil })
	case "fnf":
		invoke.ExportFireAndForget(ns, name, func(context.Context, payload.Payload) { answered = hid })
	case "rs":
		invoke.ExportRequestStream(ns, name, func(context.Context, payload.Payload) flux.Flux[payload.Payload] { answered = hid; return nil })
	case "rc":
		invoke.ExportRequestChannel(ns, name, func(context.Context, payload.Payload, flux.Flux[payload.Payload]) flux.Flux[payload.Payload] {
			answered = hid
			return nil
		})
	}
}

type importer interface {
	ImportRequestResponse(namespace, operation string) uint32
	ImportFireAndForget(namespace, operation string) uint32
	ImportRequestStream(namespace, operation string) uint32
	ImportRequestChannel(namespace, operation string) uint32
}

var viaHost = &host.Instance{}

func imp(k, ns, name string, route int) uint32 {
	var i importer = guest.HostInvoker
	if route == 1 {
		i = viaHost
	}
	switch route {
	case 0, 1:
		return map[string]func(string, string) uint32{"rr": i.ImportRequestResponse, "fnf": i.ImportFireAndForget, "rs": i.ImportRequestStream, "rc": i.ImportRequestChannel}[k](ns, name)
	}
	return map[string]func(string, string) uint32{"rr": invoke.ImportRequestResponse, "fnf": invoke.ImportFireAndForget, "rs": invoke.ImportRequestStream, "rc": invoke.ImportRequestChannel}[k](ns, name)
}

func sorted(l []any) []string {
	res := []string{}
	for _, x := range l {
		res = append(res, fmt.Sprint(vh.Norm(x)))
	}
	sort.Strings(res)
	return res
}

func TestReg(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		// registrations stay for the life of the process: every behaviour uses names of its own
		pre := fmt.Sprintf("b%d.", vh.Cur())
		nos := map[string]int{}     // kind and number -> order of first appearance
		count := map[string]int{}   // kind -> how many
		steps := vh.Steps(raw)
		for i, s := range steps {
			k, ns, name := s.S("k"), pre+s.S("ns"), s.S("name")
			fail := func(what string, got, exp any) (any, any) {
				return map[string]any{"what": what, "index": i, "step": s, "got": got, "want": exp}, nil
			}
			order := func(k string, no uint32) int {
				key := fmt.Sprint(k, no)
				if nos[key] == 0 {
					count[k]++
					nos[key] = count[k]
				}
				return nos[key]
			}
			if s.A() == "export" {
				export(k, ns, name, s.I("hid"))
			} else if no := imp(k, ns, name, (i+vh.Cur())%3); order(k, no) != s.I("no") {
				return fail("number of the import", no, s.I("no"))
			}
			// through the encoded list, as another program sees it
			tab, err := operations.FromBytes(invoke.GetOperationsTable().ToBytes())
			if err != nil {
				return fail("decode own list", err.Error(), nil)
			}
			exps, imps := []any{}, []any{}
			h := handler.New(context.Background(), handler.ClientMode)
			h.SetFrameSender(func(frames.Frame) error { return nil })
			h.HandleFrame(&frames.Setup{Data: invoke.GetOperationsTable().ToBytes()})
			for _, o := range tab {
				if len(o.Namespace) < len(pre) || o.Namespace[:len(pre)] != pre {
					continue
				}
				kind := "?"
				if o.Type >= 1 && o.Type <= 4 {
					kind = kinds[o.Type-1]
				}
				if o.Direction == operations.Export {
					hid, err := call(kind, o.Index)
					exps = append(exps, map[string]any{"k": kind, "ns": o.Namespace[len(pre):], "name": o.Operation, "hid": hid})
					if err != nil {
						return fail("calling a handler", err, nil)
					}
					no := map[string]func(string, string) uint32{"rr": h.ImportRequestResponse, "fnf": h.ImportFireAndForget, "rs": h.ImportRequestStream, "rc": h.ImportRequestChannel}[kind](o.Namespace, o.Operation)
					reached, _ := call(kind, no)
					ok := false
					for _, x := range s.L("exps") {
						e := vh.Step(x.(map[string]any))
						ok = ok || (e.S("k") == kind && pre+e.S("ns") == o.Namespace && e.S("name") == o.Operation && e.I("hid") == reached)
					}
					if !ok {
						return fail("peer resolved an export to another handler", map[string]any{"k": kind, "ns": o.Namespace, "name": o.Operation, "handler": reached}, nil)
					}
				} else if o.Direction == operations.Import {
					imps = append(imps, map[string]any{"k": kind, "ns": o.Namespace[len(pre):], "name": o.Operation, "no": order(kind, o.Index)})
				}
			}
			if g, w := sorted(exps), sorted(s.L("exps")); !vh.Equal(g, w) {
				return fail("exported operations", g, w)
			}
			if g, w := sorted(imps), sorted(s.L("imps")); !vh.Equal(g, w) {
				return fail("imported operations", g, w)
			}
		}
		// numbers nobody registered under reach no handler
		for _, k := range kinds {
			if hid, err := call(k, 1<<31-1); hid != 0 || err != nil {
				return map[string]any{"what": "unknown number", "kind": k, "got": hid, "err": err}, nil
			}
		}
		return nil, nil
	})
}
