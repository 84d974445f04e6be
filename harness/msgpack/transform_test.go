//go:build go1.22

package msgpack

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"strconv"
	"testing"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/invoke"
	mp "github.com/nanobus/iota/go/msgpack"
	"github.com/nanobus/iota/go/payload"
	"github.com/nanobus/iota/go/transform"
)

type (
	n32 int32
	n64 int64
	u64 uint64
	g32 float32
	g64 float64
	txt string
)

// tf is one transform with the type of its values hidden.
type tf struct {
	enc func(v any) (payload.Payload, error)
	dec func(p payload.Payload) (any, error)
}

// wrap makes a tf of a transform; the value comes as the widest type of its kind.
func wrap[T any](e func(T) (payload.Payload, error), d func(payload.Payload) (T, error)) tf {
	return tf{func(v any) (payload.Payload, error) {
		t, ok := conv[T](v)
		if !ok {
			return nil, errors.New("cannot be given")
		}
		return e(t)
	}, func(p payload.Payload) (any, error) { x, err := d(p); return x, err }}
}

func of[T any](t transform.Transform[T]) tf { return wrap(t.Encode, t.Decode) }

// derived is for transforms of types derived from a basic one.
func derived[B, T any](to func(B) T, from func(T) B, e func(T) (payload.Payload, error), d func(payload.Payload) (T, error)) tf {
	return wrap(func(b B) (payload.Payload, error) { return e(to(b)) }, func(p payload.Payload) (B, error) { x, err := d(p); return from(x), err })
}

type dyn struct{ v any }

func (c *dyn) Encode(w mp.Writer) error       { w.WriteAny(c.v); return w.Err() }
func (c *dyn) Decode(r mp.Reader) (err error) { c.v, err = r.ReadAny(); return err }

func listOf[T any](e func(mp.Writer, T), d func(mp.Reader) (T, error)) tf {
	enc, dec := transform.SliceEncode(e), transform.SliceDecode(d)
	return wrap(func(l []any) (payload.Payload, error) {
		t := []T{}
		for _, x := range l {
			t = append(t, x.(T))
		}
		return enc(t)
	}, func(p payload.Payload) (r []any, err error) {
		t, err := dec(p)
		for _, x := range t {
			r = append(r, x)
		}
		return r, err
	})
}

var (
	namedEnc  = transform.MapEncode(mp.Writer.WriteString, mp.Writer.WriteInt64)
	namedDec  = transform.MapDecode(mp.Reader.ReadString, mp.Reader.ReadInt64)
	digitsEnc = transform.ToStringEncode(func(v any) string { return strconv.Itoa(v.(int)) })
	digitsDec = transform.ToStringDecode(strconv.Atoi)
)

var transforms = map[string]tf{
	"String": of(transform.String), "Int": of(transform.Int), "Int64": of(transform.Int64), "Int32": of(transform.Int32), "Int16": of(transform.Int16), "Int8": of(transform.Int8),
	"Uint": of(transform.Uint), "Uint64": of(transform.Uint64), "Uint32": of(transform.Uint32), "Uint16": of(transform.Uint16), "Uint8": of(transform.Uint8),
	"Float64": of(transform.Float64), "Float32": of(transform.Float32), "Bytes": of(transform.Bytes), "Bool": of(transform.Bool),
	"Any":       {transform.Any.Encode, transform.Any.Decode},
	"Int32Of":   derived(func(b int32) n32 { return n32(b) }, func(t n32) int32 { return int32(t) }, transform.Int32Encode[n32], transform.Int32Decode[n32]),
	"Int64Of":   derived(func(b int64) n64 { return n64(b) }, func(t n64) int64 { return int64(t) }, transform.Int64Encode[n64], transform.Int64Decode[n64]),
	"Uint64Of":  derived(func(b uint64) u64 { return u64(b) }, func(t u64) uint64 { return uint64(t) }, transform.Uint64Encode[u64], transform.Uint64Decode[u64]),
	"Float32Of": derived(func(b float32) g32 { return g32(b) }, func(t g32) float32 { return float32(t) }, transform.Float32Encode[g32], transform.Float32Decode[g32]),
	"Float64Of": derived(func(b float64) g64 { return g64(b) }, func(t g64) float64 { return float64(t) }, transform.Float64Encode[g64], transform.Float64Decode[g64]),
	"StringOf":  derived(func(b string) txt { return txt(b) }, func(t txt) string { return string(t) }, transform.StringEncode[txt], transform.StringDecode[txt]),
	"Codec": {func(v any) (payload.Payload, error) { return transform.CodecEncode(&dyn{v}) }, func(p payload.Payload) (any, error) {
		var d dyn
		err := transform.CodecDecode(p, &d)
		return d.v, err
	}},
	"MsgPack": {func(v any) (payload.Payload, error) { return transform.MsgPackEncode(dyn{v}) }, func(p payload.Payload) (any, error) {
		d, err := transform.MsgPackDecode[dyn](p)
		return d.v, err
	}},
	"Strings": listOf(mp.Writer.WriteString, mp.Reader.ReadString),
	"Numbers": listOf(mp.Writer.WriteInt64, mp.Reader.ReadInt64),
	"Named": wrap(func(m map[any]any) (payload.Payload, error) {
		t := map[string]int64{}
		for k, v := range m {
			t[k.(string)] = v.(int64)
		}
		return namedEnc(t)
	}, func(p payload.Payload) (map[any]any, error) {
		t, err := namedDec(p)
		r := map[any]any{}
		for k, v := range t {
			r[k] = v
		}
		return r, err
	}),
	"Digits": {digitsEnc, func(p payload.Payload) (any, error) {
		x, err := digitsDec(p)
		return x, err
	}},
	"Void": {func(any) (payload.Payload, error) { return transform.Void.Encode(struct{}{}) }, func(p payload.Payload) (any, error) { return transform.Void.Decode(p) }},
	"Time": of(transform.Time),
}

func carry(s vh.Step) any {
	for _, n := range s.L("by") {
		name := n.(string)
		t := transforms[name]
		fail := func(what string, x any) any {
			return map[string]any{"what": what, "transform": name, "value": vh.Short([]byte(fmt.Sprint(s["v"]))), "wire": vh.Short(s.Wire("wire")), "got": fmt.Sprint(x)}
		}
		v := goVal(s["v"])
		p, err := t.enc(v)
		if err != nil {
			return fail("refused", err)
		}
		if len(p.Metadata()) > 0 || !same(s, p.Data()) {
			return fail("payload", fmt.Sprint(vh.Short(p.Data()), vh.Short(p.Metadata())))
		}
		keep := append([]byte(nil), p.Data()...)
		q, err := t.enc(v)
		if err != nil {
			return fail("refused the second time", err)
		}
		for i := range q.Data() {
			q.Data()[i] = 0xee
		}
		if !bytes.Equal(keep, p.Data()) {
			return fail("two payloads share memory", nil)
		}
		for _, in := range []payload.Payload{p, payload.New(keep, []byte("metadata"))} {
			x, err := t.dec(in)
			if err != nil {
				return fail("its own payload", err)
			}
			if got := canonGo(x); !vh.Equal(got, canon(s["v"])) {
				return fail("value", got)
			}
		}
	}
	return nil
}

func say(s vh.Step) any {
	wire := s.Wire("wire")
	outs := s.M("o")
	for name, t := range transforms {
		o := outs.M(name)
		if o == nil {
			o = vh.Step{"r": "err"}
		}
		keep := append([]byte(nil), wire...)
		v, err := t.dec(payload.New(behind(wire), []byte{1, 2}))
		fail := func(what string) any {
			return map[string]any{"what": what, "transform": name, "wire": vh.Short(wire), "want": o, "got": fmt.Sprint(vh.Short([]byte(fmt.Sprint(v))), err)}
		}
		switch r := o.S("r"); {
		case r == "void" && err != nil, r == "val" && err != nil:
			return fail("refused")
		case r == "err" && err == nil:
			return fail("accepted")
		case (r == "val" || r == "maybe") && err == nil:
			if got := canonGo(v); !vh.Equal(got, canon(o["v"])) {
				return fail("value")
			}
		}
		if !bytes.Equal(keep, wire) {
			return fail("changed its input")
		}
	}
	return nil
}

func digits(s vh.Step) any {
	t := transforms["Digits"]
	v, err := t.dec(payload.New(s.Wire("wire")))
	if (err == nil) != s.B("ok") || s.B("ok") && v != s.I("n") {
		return map[string]any{"what": "number from its text", "case": s, "got": fmt.Sprint(v, err)}
	}
	if s.B("ok") {
		p, err := t.enc(s.I("n"))
		if err != nil || !bytes.Equal(p.Data(), s.Wire("wire")) {
			return map[string]any{"what": "text of a number", "case": s, "got": fmt.Sprint(p, err)}
		}
	}
	return nil
}

func handles(s vh.Step) any {
	live := invoke.NewLiveInstances[*int]()
	enc := transform.InterfaceEncode(live)
	var objs []*int
	var ps []payload.Payload
	for i := 0; i < s.I("n"); i++ {
		objs = append(objs, &i)
		p, err := enc(objs[i])
		if err != nil {
			return map[string]any{"what": "handle", "got": err.Error()}
		}
		ps = append(ps, p)
	}
	for i, p := range ps {
		h, err := transform.Uint64.Decode(p)
		if err != nil || len(p.Metadata()) > 0 {
			return map[string]any{"what": "handle read", "i": i, "got": fmt.Sprint(err, p.Metadata())}
		}
		o, ok := live.Get(h)
		if !ok || o != objs[i] {
			return map[string]any{"what": "object of a handle", "i": i, "handle": h}
		}
	}
	return nil
}

// timeCase is a time with its text.
func timeCase(s vh.Step) any {
	at := s.M("at")
	x := time.Unix(int64(at.I("day"))*86400+int64(at.I("sec")), int64(at.I("ns"))).In(time.FixedZone("z", s.I("off")))
	p, err := transform.Time.Encode(x)
	if err != nil {
		return map[string]any{"what": "time refused", "case": s, "got": err.Error()}
	}
	if text := s.Bytes("text"); len(text) > 0 && !bytes.Equal(p.Data(), strWire(text)) || len(p.Metadata()) > 0 {
		return map[string]any{"what": "payload of a time", "case": s, "got": string(p.Data())}
	}
	y, err := transform.Time.Decode(p)
	if err != nil || !y.Equal(x) {
		return map[string]any{"what": "time", "case": s, "got": fmt.Sprint(y, err)}
	}
	if _, off := y.Zone(); s.I("off")%60 == 0 && off != s.I("off") {
		return map[string]any{"what": "zone of a time", "case": s, "got": off}
	}
	return nil
}

func strWire(text []byte) []byte {
	switch n := len(text); {
	case n < 32:
		return append([]byte{0xa0 | byte(n)}, text...)
	case n < 256:
		return append([]byte{0xd9, byte(n)}, text...)
	default:
		return append(binary.BigEndian.AppendUint16([]byte{0xda}, uint16(n)), text...)
	}
}

func TestTransform(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		s := vh.Steps(raw)[0]
		var res any
		if got := vh.Guard(func() any {
			switch s.A() {
			case "carry":
				res = carry(s)
			case "say":
				res = say(s)
			case "digits":
				res = digits(s)
			case "handles":
				res = handles(s)
			case "time":
				res = timeCase(s)
			case "bad":
				if y, err := transform.Time.Decode(payload.New(strWire(s.Bytes("text")))); err == nil {
					res = map[string]any{"what": "accepted as a time", "text": string(s.Bytes("text")), "got": y.String()}
				}
			default:
				res = map[string]any{"what": "case " + s.A()}
			}
			return nil
		}); got != nil {
			return map[string]any{"what": "panic", "case": vh.Short(raw), "got": got}, nil
		}
		return res, nil
	})
}
