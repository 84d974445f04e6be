//go:build go1.22 && wasi

package rx

import "github.com/nanobus/iota/go/internal/zzverif/vh"

func (w *world) block(c vh.Step) {}

func (w *mworld) block() {}
