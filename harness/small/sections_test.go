//go:build go1.22

package small

import (
	"bytes"
	"runtime"
	"testing"
	"unicode/utf8"

	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/transport/wasmrs/customsections"
)

func TestSections(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		s := vh.Steps(raw)[0]
		wire := s.Wire("wire")
		room := append(append([]byte(nil), wire...), bytes.Repeat([]byte{0}, 70)...)[:len(wire)]
		d := s.M("dec")
		all := [][]byte{[]byte("a"), []byte("ab"), []byte(""), []byte("zz")}
		valid := true
		for _, x := range d.L("secs") {
			m := vh.Step(x.(map[string]any))
			all = append(all, m.Wire("name"))
			valid = valid && utf8.Valid(m.Wire("name"))
		}
		// everything wanted, one name wanted, nothing wanted
		wanted := [][]string{{}, {"a"}, {"", "ab"}}
		w := []string{}
		for _, n := range all {
			w = append(w, string(n))
		}
		wanted = append(wanted, w)
		for _, names := range wanted {
			var exp any = map[string]any{"ok": false}
			if d.B("ok") && valid {
				m := map[string]any{}
				for _, x := range d.L("secs") {
					y := vh.Step(x.(map[string]any))
					n := string(y.Wire("name"))
					for _, k := range names {
						if k == n {
							m[n] = vh.Short(y.Wire("body"))
						}
					}
				}
				exp = m
			}
			var a, b runtime.MemStats
			runtime.ReadMemStats(&a)
			got := vh.Guard(func() any {
				r, err := customsections.Read(room, names...)
				if err != nil {
					return map[string]any{"ok": false}
				}
				m := map[string]any{}
				for k, v := range r {
					m[k] = vh.Short(v.Data)
					if v.Name != k {
						m[k] = "named " + v.Name
					}
				}
				return m
			})
			runtime.ReadMemStats(&b)
			if !vh.Equal(got, exp) && !(s.A() == "set" && vh.Equal(got, map[string]any{"ok": false})) {
				return map[string]any{"what": "read sections", "case": s, "names": names, "got": got, "want": exp}, nil
			}
			if used, lim := b.TotalAlloc-a.TotalAlloc, uint64(64*1024+64*len(wire)); used > lim {
				return map[string]any{"what": "allocated out of proportion", "case": s, "names": names, "got": used, "want": lim}, nil
			}
		}
		return nil, nil
	})
}
