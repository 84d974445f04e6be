//go:build go1.22

package mesh

import (
	"bytes"
	"context"
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"sync"
	"testing"
	"testing/synctest"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/operations"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx/flux"
	"github.com/nanobus/iota/go/rx/mono"
	"github.com/nanobus/iota/go/transport/wasmrs/host"
	"github.com/nanobus/iota/go/transport/wasmrs/mesh"
)

var guest = sync.OnceValue(func() []byte {
	b, err := os.ReadFile(os.Getenv("VH_GUEST"))
	if err != nil {
		panic(err)
	}
	return b
})

// module makes a module of the guest: m lists its exports and imports.
func module(tag string, m vh.Step, rnd *rand.Rand) []byte {
	b := append([]byte(nil), guest()...)
	conf := b[bytes.Index(b, []byte("zzverif-mesh-con")):][:4096]
	for k := 16; k < 86; k++ {
		conf[k] = 0
	}
	copy(conf[16:20], tag)
	var t operations.Table
	add := func(l []any, dir operations.Direction) {
		for _, x := range l {
			o := vh.Step(x.(map[string]any))
			name := o.S("n")
			dot := bytes.IndexByte([]byte(name), '.')
			index := uint32(o.I("i"))
			if dir == operations.Import && index >= 200 {
				index += 0xffffff10 // the largest numbers
			}
			t = append(t, operations.Operation{Index: index, Type: operations.RequestType(o.I("k")), Direction: dir, Namespace: name[:dot], Operation: name[dot+1:]})
			if dir == operations.Export {
				conf[22+16*(o.I("k")-1)+o.I("i")] = byte(o.I("how"))
			}
		}
	}
	add(m.L("ex"), operations.Export)
	add(m.L("im"), operations.Import)
	if rnd != nil {
		rnd.Shuffle(len(t), func(i, j int) { t[i], t[j] = t[j], t[i] })
	}
	conf[22+13], conf[22+14] = 3, 4
	ops := t.ToBytes()
	binary.BigEndian.PutUint16(conf[20:], uint16(len(ops)))
	copy(conf[86:], ops)
	return b
}

// holds tells whether an operation of the module holds its answers back.
func holds(m vh.Step) bool {
	for _, x := range m.L("ex") {
		if vh.Step(x.(map[string]any)).I("how") == 2 {
			return true
		}
	}
	return false
}

// reply collects what a call answers.
type reply struct {
	mu    sync.Mutex
	items []string
	ends  []string
}

func (r *reply) next(p payload.Payload) {
	r.mu.Lock()
	r.items = append(r.items, string(p.Data()))
	r.mu.Unlock()
}
func (r *reply) end(how string) {
	r.mu.Lock()
	r.ends = append(r.ends, how)
	r.mu.Unlock()
}
func (r *reply) mono(m mono.Mono[payload.Payload]) *reply {
	if m == nil {
		r.end("nothing")
		return r
	}
	m.Subscribe(mono.Subscribe[payload.Payload]{
		OnSuccess: func(p payload.Payload) { r.next(p); r.end("ok") },
		OnError:   func(error) { r.end("error") },
	})
	return r
}
func (r *reply) flux(f flux.Flux[payload.Payload]) *reply {
	if f == nil {
		r.end("nothing")
		return r
	}
	f.Subscribe(flux.Subscribe[payload.Payload]{
		OnNext:     r.next,
		OnComplete: func() { r.end("ok") },
		OnError:    func(error) { r.end("error") },
	})
	return r
}

// caller has what a mesh and an instance have in common.
func call(m *mesh.Mesh, n string, k int, p payload.Payload) *reply {
	ctx := context.Background()
	r := &reply{items: []string{}}
	dot := bytes.IndexByte([]byte(n), '.')
	ns, op := n[:dot], n[dot+1:]
	switch k {
	case 1:
		return r.mono(m.RequestResponse(ctx, ns, op, p))
	case 3:
		return r.flux(m.RequestStream(ctx, ns, op, p))
	case 4:
		return r.flux(m.RequestChannel(ctx, ns, op, p, inputs()))
	default:
		m.FireAndForget(ctx, ns, op, p)
		return r
	}
}

// metadata of callers: what it contains is up to them
func metadata(k int) []byte {
	return [][]byte{nil, {9, 9}, {9, 9, 9, 9}, {0, 0, 0, 7, 0, 0, 0, 0}, {0, 0, 0, 7, 0, 0, 0, 0, 1, 2, 3, 4}}[k%5]
}

// TestMesh: Mesh.tla.
func TestMesh(t *testing.T) {
	dir, err := os.MkdirTemp("", "zzverif-mesh")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	vh.Main(t, func(t *testing.T, raw []byte) (bad any, _ any) {
		synctest.Test(t, func(t *testing.T) {
			rnd := vh.Rand(vh.Cur())
			ctx := context.Background()
			m := mesh.New()
			var insts []*host.Instance
			var held []*reply
			file := func(f int) string { return filepath.Join(dir, fmt.Sprintf("m%d-%d.wasm", os.Getpid(), f)) }
			defer func() {
				for f := 1; f < 10; f++ {
					os.Remove(file(f))
				}
			}()
			direct := func(i *host.Instance, op byte) *reply {
				r := &reply{}
				return r.mono(i.RequestResponse(ctx, payload.New([]byte("x"), []byte{0, 0, 0, op, 0, 0, 0, 0})))
			}
			bad = vh.RunStepsOf(raw, func(i int, s vh.Step, o vh.Step) any {
				arg := s.M("arg")
				done := []any{}
				before := make([]int, len(held))
				for k, r := range held {
					before[k] = len(r.ends)
				}
				switch s.A() {
				case "load":
					mod := arg.M("m")
					f := file(arg.I("f"))
					if err := os.WriteFile(f, module(arg.S("tag"), mod, rnd), 0o600); err != nil {
						panic(err)
					}
					if !holds(mod) && rnd.Intn(4) == 0 {
						if err := m.LoadModules(ctx, f); err != nil {
							return "load: " + err.Error()
						}
						insts = append(insts, nil)
					} else {
						inst, err := m.LoadModule(ctx, f)
						if err != nil {
							return "load: " + err.Error()
						}
						insts = append(insts, inst)
					}
				case "bad":
					f := file(arg.I("f"))
					fs := []string{f}
					switch arg.S("w") {
					case "missing":
						os.Remove(f)
					case "garbage":
						os.WriteFile(f, []byte("no module"), 0o600)
					case "empty":
						os.WriteFile(f, []byte{0, 'a', 's', 'm', 1, 0, 0, 0}, 0o600)
					case "first":
						os.Remove(f)
						os.WriteFile(file(9), module("bad", vh.Step{"ex": []any{map[string]any{"n": "x.f", "k": 1.0, "i": 0.0, "how": 1.0}}}, nil), 0o600)
						fs = append(fs, file(9))
					}
					if len(fs) == 1 && i%2 == 0 {
						if inst, err := m.LoadModule(ctx, f); err == nil || inst != nil {
							return "a bad file was loaded"
						}
					} else if err := m.LoadModules(ctx, fs...); err == nil {
						return "a bad file was loaded"
					}
				case "fnf":
					call(m, arg.S("n"), 2, payload.New([]byte("x"), metadata(i)))
				case "hold":
					held = append(held, call(m, arg.S("n"), 1, payload.New([]byte("x"), metadata(i))))
				case "release":
					direct(insts[arg.I("x")-1], 13)
				case "tick":
					time.Sleep(time.Duration(arg.I("d")) * time.Second)
				}
				synctest.Wait()
				for k, x := range o.L("done") { // what became of the calls held back
					text := ""
					if r := held[k]; len(r.ends) > before[k] {
						text = "?" + fmt.Sprint(r.ends, r.items)
						if len(r.ends) == 1 && r.ends[0] == "ok" && len(r.items) == 1 {
							text = r.items[0]
						} else if len(r.ends) == 1 && r.ends[0] == "error" && len(r.items) == 0 {
							text = "error"
						}
					}
					done = append(done, x)
					if !slices.Contains(x.([]any), any(text)) {
						done[k] = text
					}
				}
				// all operations, and all instances
				type probe struct {
					r  *reply
					md []byte
				}
				var calls []probe
				for k, x := range o.L("calls") {
					c := vh.Step(x.(map[string]any))
					var p probe
					if c.S("e") != "hold" {
						p.md = append([]byte(nil), metadata(i+k)...)
						var given []byte
						if metadata(i+k) != nil {
							given = p.md
						}
						p.r = call(m, c.S("n"), c.I("k"), payload.New([]byte(fmt.Sprint("d", i)), given))
					}
					calls = append(calls, p)
				}
				var counts []*reply
				for _, x := range insts {
					if x == nil {
						counts = append(counts, nil)
						continue
					}
					counts = append(counts, direct(x, 14))
				}
				synctest.Wait()
				var got []any
				for k, x := range o.L("calls") {
					c := vh.Step(x.(map[string]any))
					e, items := "hold", []string{}
					if r := calls[k].r; r != nil {
						e, items = fmt.Sprint(r.ends), r.items
						if len(r.ends) == 1 {
							e = r.ends[0]
						}
						if !bytes.Equal(calls[k].md, metadata(i+k)) {
							e = "changed the caller's metadata"
						}
					}
					got = append(got, map[string]any{"n": c.S("n"), "k": c.I("k"), "e": e, "items": items})
				}
				dirs := []any{}
				for k, r := range counts {
					want := int(o.L("dir")[k].(float64))
					if r == nil {
						dirs = append(dirs, want)
						continue
					}
					v := -2
					if len(r.ends) == 1 && r.ends[0] == "error" {
						v = -1
					} else if len(r.ends) == 1 && len(r.items) == 1 {
						v = 999
						fmt.Sscanf(r.items[0][bytes.IndexByte([]byte(r.items[0]), ':')+1:], "%d", &v)
					}
					dirs = append(dirs, v)
				}
				if res := (map[string]any{"calls": got, "dir": dirs, "done": done}); !vh.Equal(map[string]any{"calls": o["calls"], "dir": o["dir"], "done": o["done"]}, res) {
					return res
				}
				return nil
			})
			for _, x := range insts {
				if x != nil {
					direct(x, 13)
				}
			}
			synctest.Wait()
			m.Close()
			time.Sleep(time.Minute)
			synctest.Wait()
			if bad != nil {
				vh.Restart(bad)
			}
			runtime.KeepAlive(insts)
		})
		return
	})
}

// TestMeshConc: calls while modules are loaded (MeshTrace.tla).
func TestMeshConc(t *testing.T) {
	dir, err := os.MkdirTemp("", "zzverif-mesh")
	if err != nil {
		t.Fatal(err)
	}
	defer os.RemoveAll(dir)
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		type rec struct {
			E string `json:"e"`
			C int    `json:"c"`
			V string `json:"v"`
		}
		log := []rec{}
		synctest.Test(t, func(t *testing.T) {
			rnd := rand.New(rand.NewSource(int64(vh.Steps(raw)[0].I("seed"))))
			ctx := context.Background()
			m := mesh.New()
			var mu sync.Mutex
			put := func(e string, c int, v string) {
				mu.Lock()
				log = append(log, rec{e, c, v})
				mu.Unlock()
			}
			op := func(n string, i, how int) map[string]any {
				return map[string]any{"n": n, "k": 1.0, "i": float64(i), "how": float64(how)}
			}
			load := func(f, tag string, mod vh.Step) {
				f = filepath.Join(dir, f)
				if err := os.WriteFile(f, module(tag, mod, nil), 0o600); err != nil {
					panic(err)
				}
				if err := m.LoadModules(ctx, f); err != nil {
					put("error "+err.Error(), 0, "")
				}
			}
			relay := vh.Step{"ex": []any{op("y.f", 3, 16+2)}, "im": []any{op("x.f", 2, 0)}}
			stop := make(chan struct{})
			var wg, lg sync.WaitGroup
			caller := func(c int, name string) {
				defer wg.Done()
				n := c * 1000
				for {
					select {
					case <-stop:
						return
					default:
					}
					n++
					put("call", n, name)
					res := make(chan string, 4)
					m.RequestResponse(ctx, name[:1], name[2:], payload.New([]byte("d"))).Subscribe(mono.Subscribe[payload.Payload]{
						OnSuccess: func(p payload.Payload) { res <- string(p.Data()) },
						OnError:   func(error) { res <- "" },
					})
					v := <-res
					// the instance behind the relay, if there is one
					if k := bytes.IndexByte([]byte(v), '>'); k >= 0 {
						v = v[k+1:]
					}
					if k := bytes.IndexByte([]byte(v), '.'); k >= 0 {
						v = v[:k]
					}
					put("answer", n, v)
					if rand.Intn(2) == 0 {
						time.Sleep(time.Duration(rand.Intn(900)) * time.Millisecond)
					}
				}
			}
			if rnd.Intn(3) > 0 {
				load("b.wasm", "r1", relay)
				relay = nil
			}
			for c := 1; c <= 3; c++ {
				wg.Add(1)
				go caller(c, []string{"x.f", "y.f"}[c%2])
			}
			lg.Add(2)
			go func() {
				defer lg.Done()
				last, n := "none", 3+rand.Intn(3)
				for v := 1; v <= n; v++ {
					tag := fmt.Sprint("v", v)
					mod := vh.Step{"ex": []any{op("x.f", v, 1)}}
					is := tag
					if last != "none" && rand.Intn(5) == 0 {
						mod, is = vh.Step{"ex": []any{op("x.g", v, 1)}}, "none"
					}
					put("load", 0, is)
					load("a.wasm", tag, mod)
					put("loaded", 0, is)
					last = is
					if rand.Intn(3) == 0 {
						time.Sleep(time.Duration(rand.Intn(8)) * time.Second)
					}
				}
			}()
			go func() {
				defer lg.Done()
				if relay != nil {
					load("b.wasm", "r1", relay)
				}
				put("relay", 0, "")
				for k := rand.Intn(3); k > 0; k-- {
					load("b.wasm", "r2", vh.Step{"ex": []any{op("y.f", 1, 16)}, "im": []any{op("x.f", 0, 0)}})
				}
			}()
			lg.Wait()
			close(stop)
			wg.Wait()
			m.Close()
			time.Sleep(time.Minute)
			synctest.Wait()
		})
		return nil, log
	})
}
