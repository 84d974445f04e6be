//go:build go1.22

package small

import (
	"math/rand"
	"runtime"
	"sync"
	"testing"

	"github.com/nanobus/iota/go/internal/socket"
	"github.com/nanobus/iota/go/internal/zzverif/vh"
)

type idRun struct {
	ID uint32 `json:"id"`
	N  int    `json:"n"`
	Fl bool   `json:"fl"`
}

// runs compresses numbers handed out one after the other.
type runs []idRun

func (r *runs) add(id uint32, fl bool) {
	if n := len(*r); n > 0 {
		l := &(*r)[n-1]
		if l.Fl == fl && uint64(id) == uint64(l.ID)+2*uint64(l.N) {
			l.N++
			return
		}
	}
	if len(*r) < 200 { // a broken generator would fill the memory
		*r = append(*r, idRun{id, 1, fl})
	}
}


// TestIDs hands out "skip" numbers on one thread and then "ops" on each of "threads".
func TestIDs(t *testing.T) {
	vh.Limit *= 10
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		st := vh.Steps(raw)[0]
		side := st.S("side")
		var ids socket.StreamID
		next := func() (uint32, bool) { return 0, false }
		if side == "client" {
			p := new(socket.ClientStreamIDs)
			ids, next = p, p.Next
		} else {
			p := new(socket.ServerStreamIDs)
			ids, next = p, p.Next
		}
		var first runs
		var lastID uint32
		for i := st.I("skip"); i > 0; i-- {
			id, fl := next()
			first.add(id, fl)
			lastID = id
		}
		if st.I("threads") == 0 {
			return nil, map[string]any{"side": side, "start": 0, "second": false, "th": []any{first}}
		}
		// concurrent callers take single numbers
		th := make([][]idRun, st.I("threads"))
		var wg sync.WaitGroup
		rng := rand.New(rand.NewSource(int64(st.I("seed"))))
		start := make(chan struct{})
		for k := range th {
			r := rand.New(rand.NewSource(rng.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for i := 0; i < st.I("ops"); i++ {
					if r.Intn(4) == 0 {
						runtime.Gosched()
					}
					id, fl := ids.Next()
					th[k] = append(th[k], idRun{id, 1, fl})
				}
			}()
		}
		close(start)
		wg.Wait()
		return nil, map[string]any{"side": side, "start": lastID, "second": false, "th": th}
	})
}
