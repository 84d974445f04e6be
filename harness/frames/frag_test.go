//go:build go1.22

package frames

import (
	"bytes"
	"fmt"
	"testing"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/vh"
)

func pattern(s, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte((s + i*7 + i/251) % 256)
	}
	return b
}

// at says where part is in whole, given where it should be.
func at(whole, part []byte, off int) int {
	if off+len(part) > len(whole) || !bytes.Equal(whole[off:off+len(part)], part) {
		return -1
	}
	return off
}

func kindName(t frames.FrameType) string {
	for n, k := range reqTypes {
		if k == t {
			return n
		}
	}
	return "?"
}

func describe(fr []frames.Frame, md, data []byte) []any {
	res := []any{}
	mo, do := 0, 0
	for _, f := range fr {
		m := map[string]any{"size": f.Size(), "sid": f.GetStreamID(), "n": 0, "next": false}
		var pm, pd []byte
		switch v := f.(type) {
		case *frames.RequestPayload:
			pm, pd = v.Metadata, v.Data
			m["k"], m["n"], m["follows"], m["complete"] = kindName(v.FrameType), v.InitialN, v.Follows, v.Complete
		case *frames.Payload:
			pm, pd = v.Metadata, v.Data
			m["k"], m["follows"], m["complete"], m["next"] = "payload", v.Follows, v.Complete, v.Next
		default:
			m["k"], m["follows"], m["complete"] = fmt.Sprintf("%T", f), false, false
		}
		m["moff"], m["mlen"], m["doff"], m["dlen"] = at(md, pm, mo), len(pm), at(data, pd, do), len(pd)
		mo += len(pm)
		do += len(pd)
		res = append(res, m)
	}
	return res
}

func TestFrag(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		s := vh.Steps(raw)[0]
		md, data := pattern(3, s.I("md")), pattern(100, s.I("data"))
		var f frames.Fragmentable
		if k := s.S("k"); k == "payload" {
			f = &frames.Payload{StreamID: uint32(s.I("sid")), Metadata: md, Data: data, Next: s.B("next"), Complete: s.B("complete")}
		} else {
			f = &frames.RequestPayload{FrameType: reqTypes[k], StreamID: uint32(s.I("sid")), Metadata: md, Data: data, Complete: s.B("complete"), InitialN: uint32(s.I("n"))}
		}
		var fr []frames.Frame
		// a splitting that does not make progress would go on until memory is used up
		if p := vh.Guard(func() any { fr = f.Fragment(uint32(s.I("max"))); return nil }); p != nil {
			return map[string]any{"what": "split", "case": s, "got": p}, nil
		}
		tr := append([]any{s}, describe(fr, md, data)...)
		// and the same after each fragment went over the wire
		var back []frames.Frame
		for _, x := range fr {
			buf := make([]byte, x.Size())
			if p := vh.Guard(func() any { x.Encode(buf); return nil }); p != nil {
				return map[string]any{"what": "encode a fragment", "case": s, "got": p}, nil
			}
			h := frames.ParseFrameHeader(buf)
			y := dirty(h.Type())
			if y == nil || y.Decode(&h, buf[6:]) != nil {
				return map[string]any{"what": "a fragment does not decode", "case": s}, nil
			}
			back = append(back, y)
		}
		tr2 := append([]any{s}, describe(back, md, data)...)
		if !bytes.Equal(md, pattern(3, s.I("md"))) || !bytes.Equal(data, pattern(100, s.I("data"))) {
			return map[string]any{"what": "splitting changed the contents", "case": s}, nil
		}
		return nil, []any{tr, tr2}
	})
}
