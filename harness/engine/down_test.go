//go:build go1.22 && !wasi

package engine

import (
	"context"
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"testing"
	"testing/synctest"

	"github.com/nanobus/iota/go/handler"
	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/rx"
	"github.com/nanobus/iota/go/rx/flux"
)

// downCall makes one request and reports what its caller saw: every value, and one end.
func downCall(end endpoint, rnd *rand.Rand, v int) (seen []string) {
	p := payload.New([]byte(fmt.Sprintf("d%d.", v)), opMeta(7, 0, nil))
	ctx := context.Background()
	kind := rnd.Intn(3)
	if kind == 0 {
		x, err := end.Caller().RequestResponse(ctx, p).Block()
		if err != nil {
			return []string{"error"}
		}
		return []string{"next " + string(x.Data()), "complete"}
	}
	done := make(chan struct{})
	var mu sync.Mutex
	told := func(e string) {
		mu.Lock()
		seen = append(seen, e)
		mu.Unlock()
	}
	var f flux.Flux[payload.Payload]
	if kind == 1 {
		f = end.Caller().RequestStream(ctx, p)
	} else {
		f = end.Caller().RequestChannel(ctx, p, flux.FromSlice([]payload.Payload{p, p, p}))
	}
	f.Notify(func(s rx.SignalType) { close(done) })
	f.Subscribe(flux.Subscribe[payload.Payload]{
		OnNext:     func(x payload.Payload) { told("next " + string(x.Data())) },
		OnComplete: func() { told("complete") },
		OnError:    func(error) { told("error") },
	})
	<-done
	mu.Lock()
	defer mu.Unlock()
	return seen
}

// TestDown lets many callers make requests while the connection ends.
func TestDown(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (bad any, tr any) {
		s := vh.Steps(raw)[0]
		hostSide()
		synctest.Test(t, func(t *testing.T) {
			rnd := rand.New(rand.NewSource(int64(s.I("seed"))))
			var end endpoint
			switch s.S("end") {
			case "host":
				end = newModule()
			case "netclient":
				end = newNet(handler.ClientMode)
			default:
				end = newNet(handler.ServerMode)
			}
			var wg sync.WaitGroup
			var mu sync.Mutex
			seen := map[int][]string{}
			for c := 0; c < 6; c++ {
				wg.Add(1)
				r := rand.New(rand.NewSource(rnd.Int63()))
				go func() {
					defer wg.Done()
					for j := 0; j < 1+r.Intn(4); j++ {
						v := c*10 + j
						x := downCall(end, r, v)
						mu.Lock()
						seen[v] = x
						mu.Unlock()
					}
				}()
			}
			stop := make(chan struct{})
			peer := make(chan struct{})
			pr := rand.New(rand.NewSource(rnd.Int63()))
			go func() { // the other side answers some
				defer close(peer)
				r := pr
				for {
					select {
					case <-stop:
						return
					default:
					}
					for _, b := range end.Sent() {
						f, err := decode(b)
						q, ok := f.(*frames.RequestPayload)
						if err != nil || !ok || r.Intn(3) == 0 {
							continue
						}
						func() {
							defer func() { recover() }()
							end.Deliver(encode(&frames.Payload{StreamID: q.StreamID, Data: q.Data, Next: true, Complete: true}))
						}()
					}
					runtime.Gosched()
				}
			}()
			for k := rnd.Intn(400); k > 0; k-- {
				runtime.Gosched()
			}
			end.Down([]string{"eof", "close", "ctx", "bad"}[rnd.Intn(4)])
			close(stop)
			<-peer
			all := make(chan struct{})
			go func() { wg.Wait(); close(all) }()
			synctest.Wait()
			select {
			case <-all:
			default:
				bad = map[string]any{"what": "callers wait for ever after the end of the connection", "case": s, "ended": fmt.Sprint(seen)}
				vh.Restart(bad)
			}
			for v, x := range seen {
				own := fmt.Sprintf("next d%d.", v)
				if fmt.Sprint(x) != fmt.Sprint([]string{own, "complete"}) && fmt.Sprint(x) != "[error]" && fmt.Sprint(x) != fmt.Sprint([]string{own, "error"}) {
					bad = map[string]any{"what": "outcome of a request", "value": v, "seen": x}
				}
			}
			if k := end.Kept(); k > 0 {
				bad = map[string]any{"what": "streams kept after the end", "n": k}
			}
			end.Close()
		})
		return bad, nil
	})
}
