//go:build go1.22

package small

import (
	"bytes"
	"testing"

	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/invoke"
)

func TestPortIO(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		s := vh.Steps(raw)[0]
		wire := s.Wire("wire")
		m := invoke.PortIO{Port: string(s.Wire("port")), Data: s.Wire("data"), Next: s.B("next"), Complete: s.B("complete")}
		if s.A() == "round" {
			got := vh.Guard(func() any { return vh.Short(m.Encode()) })
			if got != vh.Short(wire) {
				return map[string]any{"what": "encode", "case": s, "got": got, "want": vh.Short(wire)}, nil
			}
			// messages encoded one after the other do not share memory
			a := m.Encode()
			b := m.Encode()
			for i := range a {
				a[i] = 0xee
			}
			if !bytes.Equal(b, wire) {
				return map[string]any{"what": "two encodings share memory", "case": s}, nil
			}
		}
		f := invoke.Flags(s.I("bits"))
		if m.Next {
			f |= invoke.FlagNext
		}
		if m.Complete {
			f |= invoke.FlagComplete
		}
		if got := f.String(); got != s.S("text") || f.Check(invoke.FlagNext) != m.Next || f.Check(invoke.FlagComplete) != m.Complete {
			return map[string]any{"what": "markers", "case": s, "got": got}, nil
		}
		d := s.M("dec")
		keep := append([]byte(nil), wire...)
		got := vh.Guard(func() any {
			r := invoke.PortIO{Port: "old", Data: []byte("old"), Next: !m.Next, Complete: !m.Complete}
			if err := r.Decode(wire); err != nil {
				return map[string]any{"ok": false}
			}
			return map[string]any{"ok": true, "next": r.Next, "complete": r.Complete, "port": vh.Short([]byte(r.Port)), "data": vh.Short(r.Data)}
		})
		want := map[string]any{"ok": d.B("ok")}
		if d.B("ok") {
			want["next"], want["complete"] = d.B("next"), d.B("complete")
			want["port"], want["data"] = vh.Short(d.Wire("port")), vh.Short(d.Wire("data"))
		}
		if !vh.Equal(got, want) {
			return map[string]any{"what": "decode", "case": s, "got": vh.Norm(got), "want": want}, nil
		}
		if !bytes.Equal(keep, wire) {
			return map[string]any{"what": "decode changed its input", "case": s}, nil
		}
		return nil, nil
	})
}
