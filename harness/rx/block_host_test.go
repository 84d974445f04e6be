//go:build go1.22 && !wasi

package rx

import "github.com/nanobus/iota/go/internal/zzverif/vh"

func (w *world) block(c vh.Step) {
	w.blk = true
	w.mu.Lock()
	w.b = []any{"waiting"}
	w.mu.Unlock()
	go func() {
		res := vh.Guard(func() any { return errName(w.f.Block(w.sub(c))) })
		w.mu.Lock()
		w.b = []any{"ret", res}
		w.mu.Unlock()
	}()
}

func (w *mworld) block() {
	w.blk = true
	w.mu.Lock()
	w.b = []any{"waiting"}
	w.mu.Unlock()
	go func() {
		var v int
		res := vh.Guard(func() any {
			var err error
			v, err = w.m.Block()
			if err != nil {
				v = 0
			}
			return errName(err)
		})
		w.mu.Lock()
		w.b = []any{"ret", v, res}
		w.mu.Unlock()
	}()
}
