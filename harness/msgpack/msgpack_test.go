//go:build go1.22

// Package msgpack replays MessagePack values and byte strings of the specification
// (MsgPack.tla) into the writers and readers of package msgpack.
package msgpack

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"reflect"
	"runtime"
	"sort"
	"testing"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/vh"
	mp "github.com/nanobus/iota/go/msgpack"
)

// ------------------------------------------------------------ values

func num(s vh.Step) uint64 { return binary.BigEndian.Uint64(s.Bytes("b")) }

// canon brings a value of the specification into a comparable form.
func canon(v any) any {
	s := vh.Step(v.(map[string]any))
	switch s.S("k") {
	case "nil":
		return "nil"
	case "bool":
		return s.B("t")
	case "i":
		return fmt.Sprintf("n%d", int64(num(s)))
	case "u", "n", "asize", "msize":
		return fmt.Sprintf("n%d", num(s))
	case "f32":
		return fmt.Sprintf("f32:%x", s.Bytes("b"))
	case "f64":
		return fmt.Sprintf("f64:%x", s.Bytes("b"))
	case "str":
		return "s" + vh.Short(s.Wire("s"))
	case "bin":
		return "b" + vh.Short(s.Wire("s"))
	case "time":
		return fmt.Sprintf("t%d.%d", int64(num(s)), s.I("ns"))
	case "arr":
		r := []any{}
		for _, x := range s.L("l") {
			r = append(r, canon(x))
		}
		return r
	case "rep":
		r := make([]any, s.I("n"))
		for i := range r {
			r[i] = canon(s["v"])
		}
		return r
	case "map":
		r := []string{}
		for _, x := range s.L("l") {
			p := x.([]any)
			r = append(r, fmt.Sprintf("%v=%v", canon(p[0]), canon(p[1])))
		}
		sort.Strings(r)
		return map[string]any{"map": r}
	}
	return "?" + s.S("k")
}

func timeOf(sec int64, ns int) time.Time { return time.Unix(sec, int64(ns)) }

func canonGo(v any) any {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return x
	case int8, int16, int32, int64, int, uint8, uint16, uint32, uint64, uint:
		return fmt.Sprintf("n%d", x)
	case float32:
		return fmt.Sprintf("f32:%08x", math.Float32bits(x))
	case float64:
		return fmt.Sprintf("f64:%016x", math.Float64bits(x))
	case string:
		return "s" + vh.Short([]byte(x))
	case []byte:
		return "b" + vh.Short(x)
	case time.Time:
		return fmt.Sprintf("t%d.%d", x.Unix(), x.Nanosecond())
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.Pointer:
		if rv.IsNil() {
			return "nil"
		}
		return canonGo(rv.Elem().Interface())
	case reflect.Slice:
		r := []any{}
		for i := 0; i < rv.Len(); i++ {
			r = append(r, canonGo(rv.Index(i).Interface()))
		}
		return r
	case reflect.Map:
		r := []string{}
		for _, k := range rv.MapKeys() {
			r = append(r, fmt.Sprintf("%v=%v", canonGo(k.Interface()), canonGo(rv.MapIndex(k).Interface())))
		}
		sort.Strings(r)
		return map[string]any{"map": r}
	}
	return fmt.Sprintf("?%T", v)
}

// goVal is the value as the dynamic writer takes it (numbers in their widest type).
func goVal(v any) any {
	s := vh.Step(v.(map[string]any))
	switch s.S("k") {
	case "nil":
		return nil
	case "bool":
		return s.B("t")
	case "i":
		return int64(num(s))
	case "u":
		return num(s)
	case "f32":
		return math.Float32frombits(binary.BigEndian.Uint32(s.Bytes("b")))
	case "f64":
		return math.Float64frombits(num(s))
	case "str":
		return string(s.Wire("s"))
	case "bin":
		return s.Wire("s")
	case "time":
		return timeOf(int64(num(s)), s.I("ns"))
	case "arr":
		r := []any{}
		for _, x := range s.L("l") {
			r = append(r, goVal(x))
		}
		return r
	case "rep":
		r := make([]any, s.I("n"))
		for i := range r {
			r[i] = goVal(s["v"])
		}
		return r
	case "asize", "msize":
		return uint32(num(s))
	case "map":
		r := map[any]any{}
		for _, x := range s.L("l") {
			p := x.([]any)
			r[goVal(p[0])] = goVal(p[1])
		}
		return r
	}
	panic("value")
}

// ------------------------------------------------------------ writers

type way struct {
	name  string
	write func(w mp.Writer)
	bytes func() ([]byte, error)
	read  func(d *mp.Decoder) (any, error)
}

type codec struct {
	w   func(mp.Writer)
	r   func(mp.Reader) (any, error)
	got any
	err error
}

func (c *codec) Encode(w mp.Writer) error { c.w(w); return w.Err() }
func (c *codec) Decode(r mp.Reader) error { c.got, c.err = c.r(r); return c.err }

func pt[T any](v T) *T { return &v }

// scalar gives the ways a typed writer offers.
func scalar[T any](name string, v T, w func(mp.Writer, T), wn func(mp.Writer, *T), tb func(T) ([]byte, error),
	r func(*mp.Decoder) (T, error), rn func(*mp.Decoder) (*T, error)) []way {
	rd := func(d *mp.Decoder) (any, error) { x, err := r(d); return x, err }
	rdn := func(d *mp.Decoder) (any, error) { x, err := rn(d); return x, err }
	l := []way{
		{name, func(x mp.Writer) { w(x, v) }, nil, rd},
		{name + "?", func(x mp.Writer) { wn(x, &v) }, nil, rdn},
		{name + " any", func(x mp.Writer) { x.WriteAny(v) }, func() ([]byte, error) { return mp.AnyToBytes(v) }, rdn},
	}
	if tb != nil {
		l = append(l, way{name + " bytes", nil, func() ([]byte, error) { return tb(v) }, rd})
	}
	return l
}

func ints(n int64) (l []way) {
	if n >= math.MinInt8 && n <= math.MaxInt8 {
		l = append(l, scalar("i8", int8(n), mp.Writer.WriteInt8, mp.Writer.WriteNillableInt8, mp.I8ToBytes, (*mp.Decoder).ReadInt8, (*mp.Decoder).ReadNillableInt8)...)
	}
	if n >= math.MinInt16 && n <= math.MaxInt16 {
		l = append(l, scalar("i16", int16(n), mp.Writer.WriteInt16, mp.Writer.WriteNillableInt16, mp.I16ToBytes, (*mp.Decoder).ReadInt16, (*mp.Decoder).ReadNillableInt16)...)
	}
	if n >= math.MinInt32 && n <= math.MaxInt32 {
		l = append(l, scalar("i32", int32(n), mp.Writer.WriteInt32, mp.Writer.WriteNillableInt32, mp.I32ToBytes, (*mp.Decoder).ReadInt32, (*mp.Decoder).ReadNillableInt32)...)
	}
	l = append(l, scalar("i64", n, mp.Writer.WriteInt64, mp.Writer.WriteNillableInt64, mp.I64ToBytes, (*mp.Decoder).ReadInt64, (*mp.Decoder).ReadNillableInt64)...)
	return append(l, way{"int any", func(x mp.Writer) { x.WriteAny(int(n)) }, nil, func(d *mp.Decoder) (any, error) { return d.ReadAny() }})
}

func uints(n uint64) (l []way) {
	if n <= math.MaxUint8 {
		l = append(l, scalar("u8", uint8(n), mp.Writer.WriteUint8, mp.Writer.WriteNillableUint8, mp.U8ToBytes, (*mp.Decoder).ReadUint8, (*mp.Decoder).ReadNillableUint8)...)
	}
	if n <= math.MaxUint16 {
		l = append(l, scalar("u16", uint16(n), mp.Writer.WriteUint16, mp.Writer.WriteNillableUint16, mp.U16ToBytes, (*mp.Decoder).ReadUint16, (*mp.Decoder).ReadNillableUint16)...)
	}
	if n <= math.MaxUint32 {
		l = append(l, scalar("u32", uint32(n), mp.Writer.WriteUint32, mp.Writer.WriteNillableUint32, mp.U32ToBytes, (*mp.Decoder).ReadUint32, (*mp.Decoder).ReadNillableUint32)...)
	}
	l = append(l, scalar("u64", n, mp.Writer.WriteUint64, mp.Writer.WriteNillableUint64, mp.U64ToBytes, (*mp.Decoder).ReadUint64, (*mp.Decoder).ReadNillableUint64)...)
	return append(l, way{"uint any", func(x mp.Writer) { x.WriteAny(uint(n)) }, nil, func(d *mp.Decoder) (any, error) { return d.ReadAny() }})
}

func anyWay(name string, v any) way {
	return way{name, func(x mp.Writer) { x.WriteAny(v) }, func() ([]byte, error) { return mp.AnyToBytes(v) }, func(d *mp.Decoder) (any, error) { return d.ReadAny() }}
}

// typed slices and maps
func slice[T any](l []any) (any, bool) {
	r := []T{}
	for _, x := range l {
		c, ok := conv[T](x)
		if !ok {
			return nil, false
		}
		r = append(r, c)
	}
	return r, true
}

// conv turns a value into a narrower type if it keeps it.
func conv[T any](x any) (t T, ok bool) {
	if v, ok := x.(T); ok {
		return v, true
	}
	rv := reflect.ValueOf(&t).Elem()
	switch n := x.(type) {
	case int64:
		if rv.Kind() >= reflect.Int && rv.Kind() <= reflect.Int64 && !rv.OverflowInt(n) {
			rv.SetInt(n)
			return t, true
		}
	case uint64:
		if rv.Kind() >= reflect.Uint && rv.Kind() <= reflect.Uint64 && !rv.OverflowUint(n) {
			rv.SetUint(n)
			return t, true
		}
	}
	return t, false
}

func mapOf[K comparable, V any](m map[any]any) (any, bool) {
	r := map[K]V{}
	for k, v := range m {
		c, ok := conv[K](k)
		if !ok {
			return nil, false
		}
		d, ok := conv[V](v)
		if !ok {
			if v != nil {
				return nil, false
			}
			if _, iface := any(new(V)).(*any); !iface {
				return nil, false
			}
		}
		r[c] = d
	}
	return r, true
}

// one writes any value through the narrowest typed writer, dyn through the dynamic one.
func one(w mp.Writer, v any) {
	s := vh.Step(v.(map[string]any))
	switch s.S("k") {
	case "nil":
		w.WriteNil()
	case "arr":
		mp.WriteSlice(w, s.L("l"), func(w mp.Writer, x any) { one(w, x) })
	case "map":
		w.WriteMapSize(uint32(len(s.L("l"))))
		for _, x := range s.L("l") {
			p := x.([]any)
			one(w, p[0])
			one(w, p[1])
		}
	default:
		ways(s)[0].write(w)
	}
}

func readOne(r mp.Reader) (any, error) { return r.ReadAny() }

func ways(s vh.Step) (l []way) {
	switch s.S("k") {
	case "asize":
		return []way{{"list size", func(w mp.Writer) { w.WriteArraySize(uint32(num(s))) }, nil, func(d *mp.Decoder) (any, error) { return d.ReadArraySize() }}}
	case "msize":
		return []way{{"map size", func(w mp.Writer) { w.WriteMapSize(uint32(num(s))) }, nil, func(d *mp.Decoder) (any, error) { return d.ReadMapSize() }}}
	}
	v := goVal(map[string]any(s))
	rd := func(d *mp.Decoder) (any, error) { return d.ReadAny() }
	switch s.S("k") {
	case "nil":
		nilRead := func(d *mp.Decoder) (any, error) {
			ok, err := d.IsNextNil()
			if !ok {
				return "not nil", err
			}
			return nil, err
		}
		for name, f := range map[string]func(mp.Writer){
			"nil": mp.Writer.WriteNil, "any nil": func(w mp.Writer) { w.WriteAny(nil) },
			"bool?": func(w mp.Writer) { w.WriteNillableBool(nil) }, "string?": func(w mp.Writer) { w.WriteNillableString(nil) },
			"i8?": func(w mp.Writer) { w.WriteNillableInt8(nil) }, "i16?": func(w mp.Writer) { w.WriteNillableInt16(nil) },
			"i32?": func(w mp.Writer) { w.WriteNillableInt32(nil) }, "i64?": func(w mp.Writer) { w.WriteNillableInt64(nil) },
			"u8?": func(w mp.Writer) { w.WriteNillableUint8(nil) }, "u16?": func(w mp.Writer) { w.WriteNillableUint16(nil) },
			"u32?": func(w mp.Writer) { w.WriteNillableUint32(nil) }, "u64?": func(w mp.Writer) { w.WriteNillableUint64(nil) },
			"f32?": func(w mp.Writer) { w.WriteNillableFloat32(nil) }, "f64?": func(w mp.Writer) { w.WriteNillableFloat64(nil) },
			"time?": func(w mp.Writer) { w.WriteNillableTime(nil) }, "bin?": func(w mp.Writer) { w.WriteNillableByteArray(nil) },
		} {
			l = append(l, way{name, f, nil, nilRead}, way{name + " read", f, nil, rd})
		}
		nn := func(f func(*mp.Decoder) (any, error)) { l = append(l, way{"nillable reader", mp.Writer.WriteNil, nil, f}) }
		nn(func(d *mp.Decoder) (any, error) { x, err := d.ReadNillableBool(); return x, err })
		nn(func(d *mp.Decoder) (any, error) { x, err := d.ReadNillableInt8(); return x, err })
		nn(func(d *mp.Decoder) (any, error) { x, err := d.ReadNillableInt16(); return x, err })
		nn(func(d *mp.Decoder) (any, error) { x, err := d.ReadNillableInt32(); return x, err })
		nn(func(d *mp.Decoder) (any, error) { x, err := d.ReadNillableInt64(); return x, err })
		nn(func(d *mp.Decoder) (any, error) { x, err := d.ReadNillableUint8(); return x, err })
		nn(func(d *mp.Decoder) (any, error) { x, err := d.ReadNillableUint16(); return x, err })
		nn(func(d *mp.Decoder) (any, error) { x, err := d.ReadNillableUint32(); return x, err })
		nn(func(d *mp.Decoder) (any, error) { x, err := d.ReadNillableUint64(); return x, err })
		nn(func(d *mp.Decoder) (any, error) { x, err := d.ReadNillableFloat32(); return x, err })
		nn(func(d *mp.Decoder) (any, error) { x, err := d.ReadNillableFloat64(); return x, err })
		nn(func(d *mp.Decoder) (any, error) { x, err := d.ReadNillableString(); return x, err })
		nn(func(d *mp.Decoder) (any, error) { x, err := d.ReadNillableTime(); return x, err })
		nn(func(d *mp.Decoder) (any, error) {
			x, err := d.ReadNillableByteArray()
			if x != nil {
				return "not nil", err
			}
			return nil, err
		})
		nn(func(d *mp.Decoder) (any, error) {
			x, err := mp.DecodeNillable[codec2](d)
			if x != nil {
				return "not nil", err
			}
			return nil, err
		})
		return l
	case "bool":
		l = scalar("bool", v.(bool), mp.Writer.WriteBool, mp.Writer.WriteNillableBool, mp.BoolToBytes, (*mp.Decoder).ReadBool, (*mp.Decoder).ReadNillableBool)
	case "i":
		l = ints(v.(int64))
	case "u":
		l = uints(v.(uint64))
	case "f32":
		l = scalar("f32", v.(float32), mp.Writer.WriteFloat32, mp.Writer.WriteNillableFloat32, mp.F32ToBytes, (*mp.Decoder).ReadFloat32, (*mp.Decoder).ReadNillableFloat32)
	case "f64":
		l = scalar("f64", v.(float64), mp.Writer.WriteFloat64, mp.Writer.WriteNillableFloat64, mp.F64ToBytes, (*mp.Decoder).ReadFloat64, (*mp.Decoder).ReadNillableFloat64)
	case "str":
		l = scalar("str", v.(string), mp.Writer.WriteString, mp.Writer.WriteNillableString, mp.StringToBytes, (*mp.Decoder).ReadString, (*mp.Decoder).ReadNillableString)
	case "time":
		l = scalar("time", v.(time.Time), mp.Writer.WriteTime, mp.Writer.WriteNillableTime, mp.TimeToBytes, (*mp.Decoder).ReadTime, (*mp.Decoder).ReadNillableTime)
		l = append(l, scalar("utc", v.(time.Time).UTC(), mp.Writer.WriteTime, mp.Writer.WriteNillableTime, mp.TimeToBytes, (*mp.Decoder).ReadTime, (*mp.Decoder).ReadNillableTime)...)
		z := v.(time.Time).In(time.FixedZone("z", -12345))
		l = append(l, scalar("zone", z, mp.Writer.WriteTime, mp.Writer.WriteNillableTime, mp.TimeToBytes, (*mp.Decoder).ReadTime, (*mp.Decoder).ReadNillableTime)...)
	case "bin":
		b := v.([]byte)
		l = []way{
			{"bin", func(w mp.Writer) { w.WriteByteArray(b) }, func() ([]byte, error) { return mp.BytesToBytes(b) }, func(d *mp.Decoder) (any, error) { return d.ReadByteArray() }},
			{"bin?", func(w mp.Writer) { w.WriteNillableByteArray(b) }, nil, func(d *mp.Decoder) (any, error) { return d.ReadNillableByteArray() }},
			anyWay("bin any", b),
		}
	case "arr", "rep":
		a := v.([]any)
		raw := s.L("l")
		for i := 0; s.S("k") == "rep" && i < len(a); i++ {
			raw = append(raw, s["v"])
		}
		l = append(l, anyWay("arr any", a),
			way{"slice", func(w mp.Writer) { mp.WriteSlice(w, raw, func(w mp.Writer, x any) { one(w, x) }) },
				func() ([]byte, error) { return mp.SliceToBytes(raw, func(w mp.Writer, x any) { one(w, x) }) },
				func(d *mp.Decoder) (any, error) { return mp.ReadSlice(d, readOne) }},
			way{"arr size", func(w mp.Writer) {
				w.WriteArraySize(uint32(len(raw)))
				for _, x := range raw {
					one(w, x)
				}
			}, nil, func(d *mp.Decoder) (any, error) {
				n, err := d.ReadArraySize()
				r := []any{}
				for i := 0; i < int(n) && err == nil; i++ {
					var x any
					x, err = d.ReadAny()
					r = append(r, x)
				}
				return r, err
			}})
		for name, f := range map[string]func([]any) (any, bool){
			"[]string": slice[string], "[]time": slice[time.Time], "[]bool": slice[bool], "[]int": slice[int], "[]int8": slice[int8], "[]int16": slice[int16],
			"[]int32": slice[int32], "[]int64": slice[int64], "[]uint": slice[uint], "[]uint16": slice[uint16], "[]uint32": slice[uint32], "[]uint64": slice[uint64],
		} {
			if t, ok := f(a); ok {
				l = append(l, anyWay(name, t))
			}
		}
	case "map":
		m := v.(map[any]any)
		raw := s.L("l")
		if len(m) != len(raw) {
			panic("duplicate keys")
		}
		l = append(l, anyWay("map any", m), way{"map size", func(w mp.Writer) { one(w, map[string]any(s)) }, nil, func(d *mp.Decoder) (any, error) {
			n, err := d.ReadMapSize()
			r := map[any]any{}
			for i := 0; i < int(n) && err == nil; i++ {
				var k, x any
				if k, err = d.ReadAny(); err == nil {
					x, err = d.ReadAny()
					r[k] = x
				}
			}
			return r, err
		}})
		for name, f := range map[string]func(map[any]any) (any, bool){
			"map[string]string": mapOf[string, string], "map[string]any": mapOf[string, any], "map[int]any": mapOf[int, any], "map[int8]any": mapOf[int8, any],
			"map[int16]any": mapOf[int16, any], "map[int32]any": mapOf[int32, any], "map[int64]any": mapOf[int64, any], "map[uint]any": mapOf[uint, any],
			"map[uint8]any": mapOf[uint8, any], "map[uint16]any": mapOf[uint16, any], "map[uint32]any": mapOf[uint32, any], "map[uint64]any": mapOf[uint64, any],
		} {
			if t, ok := f(m); ok {
				l = append(l, anyWay(name, t))
			}
		}
		if t, ok := mapOf[string, any](m); ok {
			vs := map[string]any{}
			for _, x := range raw {
				p := x.([]any)
				vs[goVal(p[0]).(string)] = p[1]
			}
			l = append(l, way{"map", func(w mp.Writer) { mp.WriteMap(w, vs, mp.Writer.WriteString, func(w mp.Writer, x any) { one(w, x) }) },
				func() ([]byte, error) {
					return mp.MapToBytes(vs, mp.Writer.WriteString, func(w mp.Writer, x any) { one(w, x) })
				},
				func(d *mp.Decoder) (any, error) { return mp.ReadMap(d, mp.Reader.ReadString, readOne) }})
			_ = t
		}
		if t, ok := mapOf[int64, any](m); ok {
			l = append(l, way{"map64", func(w mp.Writer) { mp.WriteMap(w, t.(map[int64]any), mp.Writer.WriteInt64, func(w mp.Writer, x any) { w.WriteAny(x) }) }, nil,
				func(d *mp.Decoder) (any, error) { return mp.ReadMap(d, mp.Reader.ReadInt64, readOne) }})
		}
	}
	w0 := l[0].write
	c := func() *codec { return &codec{w: w0} }
	if s.S("k") == "rep" {
		return l
	}
	l = append(l,
		way{"codec", nil, func() ([]byte, error) { return mp.ToBytes(c()) }, rd},
		way{"codec any", func(w mp.Writer) { w.WriteAny(c()) }, func() ([]byte, error) { return mp.AnyToBytes(c()) }, rd},
		way{"decode", w0, nil, func(d *mp.Decoder) (any, error) { x, err := mp.Decode[codec2](d); return x.got, err }},
		way{"decode?", w0, nil, func(d *mp.Decoder) (any, error) {
			x, err := mp.DecodeNillable[codec2](d)
			if x == nil {
				return "nil codec", err
			}
			return x.got, err
		}})
	return l
}

type codec2 struct{ got any }

func (c *codec2) Encode(w mp.Writer) error       { w.WriteAny(c.got); return w.Err() }
func (c *codec2) Decode(r mp.Reader) (err error) { c.got, err = r.ReadAny(); return err }

// same compares what was written with the encoding, maps in any order of their entries.
func same(s vh.Step, got []byte) bool {
	want := s.Wire("wire")
	if len(s.L("parts")) < 2 {
		return bytes.Equal(got, want)
	}
	h := s.Wire("head")
	if !bytes.HasPrefix(got, h) || len(got) != len(want) {
		return false
	}
	got = got[len(h):]
	parts := [][]byte{}
	for _, p := range s.L("parts") {
		parts = append(parts, vh.Wire(p))
	}
	for len(got) > 0 {
		hit := -1
		for i, p := range parts {
			if bytes.HasPrefix(got, p) {
				hit = i
				break
			}
		}
		if hit < 0 {
			return false
		}
		got = got[len(parts[hit]):]
		parts = append(parts[:hit], parts[hit+1:]...)
	}
	return len(parts) == 0
}

// guarded gives a buffer of n bytes with bytes behind it that must not change.
func guarded(n int) (buf []byte, intact func() bool) {
	all := bytes.Repeat([]byte{0xa5}, n+64)
	return all[16 : 16+n], func() bool {
		for i, b := range all {
			if (i < 16 || i >= 16+n) && b != 0xa5 {
				return false
			}
		}
		return true
	}
}

func write(s vh.Step) any {
	size := s.I("size")
	want := canon(s["v"])
	for _, w := range ways(s.M("v")) {
		fail := func(what string, x any) any {
			return map[string]any{"what": what, "writer": w.name, "value": vh.Short([]byte(fmt.Sprint(s["v"]))), "wire": vh.Short(s.Wire("wire")), "got": fmt.Sprint(x)}
		}
		var out []byte
		if w.write != nil {
			sz := mp.NewSizer()
			w.write(&sz)
			if int(sz.Len()) != size || sz.Err() != nil {
				return fail("announced size", sz.Len())
			}
			buf, intact := guarded(size)
			e := mp.NewEncoder(buf)
			w.write(&e)
			if e.Err() != nil || !intact() {
				return fail("writing", e.Err())
			}
			if !same(s, buf) {
				return fail("bytes written", vh.Short(buf))
			}
			out = buf
			// the rest of a longer buffer stays as it was
			buf, intact = guarded(size + 40)
			for i := range buf {
				buf[i] = 0x5a
			}
			e = mp.NewEncoder(buf)
			w.write(&e)
			if e.Err() != nil || !intact() || !same(s, buf[:size]) || !bytes.Equal(buf[size:], bytes.Repeat([]byte{0x5a}, 40)) {
				return fail("bytes written into a longer buffer", vh.Short(buf))
			}
			cuts := []int{}
			for c := 0; c < size && c < 24; c++ {
				cuts = append(cuts, c)
			}
			for _, c := range []int{size / 2, size - 3, size - 2, size - 1} {
				if c >= 24 {
					cuts = append(cuts, c)
				}
			}
			if s.M("v").S("k") == "rep" {
				cuts = []int{size - 1}
			}
			for _, c := range cuts {
				buf, intact = guarded(c)
				e = mp.NewEncoder(buf)
				w.write(&e)
				if e.Err() == nil {
					return fail("no error for a buffer that is too small", c)
				}
				if !intact() {
					return fail("wrote outside the buffer", c)
				}
			}
		}
		if w.bytes != nil {
			b, err := w.bytes()
			if err != nil || len(b) != size || !same(s, b) {
				return fail("bytes made", fmt.Sprint(vh.Short(b), err))
			}
			out = b
		}
		in := append(append([]byte(nil), out...), 0x2a)
		d := mp.NewDecoder(in)
		v, err := w.read(&d)
		if err != nil || d.Err() != nil {
			return fail("reading back", err)
		}
		if got := canonGo(v); !vh.Equal(got, want) {
			return fail("value read back", got)
		}
		if n, err := d.ReadInt64(); err != nil || n != 0x2a {
			return fail("bytes consumed", fmt.Sprint(n, err))
		}
		if k := s.M("v").S("k"); k == "asize" || k == "msize" {
			continue
		}
		d = mp.NewDecoder(in)
		if err := d.Skip(); err != nil {
			return fail("skipping", err)
		}
		if n, err := d.ReadInt64(); err != nil || n != 0x2a {
			return fail("bytes skipped", fmt.Sprint(n, err))
		}
	}
	return nil
}

// ------------------------------------------------------------ readers

type reader struct {
	kind string
	null bool
	read func(d *mp.Decoder) (any, error)
}

func rds[T any](kind string, r func(*mp.Decoder) (T, error), rn func(*mp.Decoder) (*T, error)) []reader {
	return []reader{{kind, false, func(d *mp.Decoder) (any, error) { x, err := r(d); return x, err }}, {kind, true, func(d *mp.Decoder) (any, error) { x, err := rn(d); return x, err }}}
}

var readers []reader

func init() {
	add := func(l []reader) { readers = append(readers, l...) }
	add(rds("bool", (*mp.Decoder).ReadBool, (*mp.Decoder).ReadNillableBool))
	add(rds("i8", (*mp.Decoder).ReadInt8, (*mp.Decoder).ReadNillableInt8))
	add(rds("i16", (*mp.Decoder).ReadInt16, (*mp.Decoder).ReadNillableInt16))
	add(rds("i32", (*mp.Decoder).ReadInt32, (*mp.Decoder).ReadNillableInt32))
	add(rds("i64", (*mp.Decoder).ReadInt64, (*mp.Decoder).ReadNillableInt64))
	add(rds("u8", (*mp.Decoder).ReadUint8, (*mp.Decoder).ReadNillableUint8))
	add(rds("u16", (*mp.Decoder).ReadUint16, (*mp.Decoder).ReadNillableUint16))
	add(rds("u32", (*mp.Decoder).ReadUint32, (*mp.Decoder).ReadNillableUint32))
	add(rds("u64", (*mp.Decoder).ReadUint64, (*mp.Decoder).ReadNillableUint64))
	add(rds("f32", (*mp.Decoder).ReadFloat32, (*mp.Decoder).ReadNillableFloat32))
	add(rds("f64", (*mp.Decoder).ReadFloat64, (*mp.Decoder).ReadNillableFloat64))
	add(rds("str", (*mp.Decoder).ReadString, (*mp.Decoder).ReadNillableString))
	add(rds("time", (*mp.Decoder).ReadTime, (*mp.Decoder).ReadNillableTime))
	r := func(kind string, null bool, f func(*mp.Decoder) (any, error)) { readers = append(readers, reader{kind, null, f}) }
	r("bin", false, func(d *mp.Decoder) (any, error) { return d.ReadByteArray() })
	r("bin", true, func(d *mp.Decoder) (any, error) {
		x, err := d.ReadNillableByteArray()
		if x == nil {
			return nil, err
		}
		return x, err
	})
	r("any", false, func(d *mp.Decoder) (any, error) { return d.ReadAny() })
	r("skip", false, func(d *mp.Decoder) (any, error) { return nil, d.Skip() })
	r("nextnil", false, func(d *mp.Decoder) (any, error) { return d.IsNextNil() })
	r("arrsize", false, func(d *mp.Decoder) (any, error) { return d.ReadArraySize() })
	r("mapsize", false, func(d *mp.Decoder) (any, error) { return d.ReadMapSize() })
}

// check compares one read with the outcome the specification gives.
func check(o vh.Step, v any, err error, d *mp.Decoder, wire []byte, before int, skip bool) string {
	r := o.S("r")
	if err != nil {
		if r == "val" {
			return "error: " + err.Error()
		}
		return ""
	}
	if r == "err" {
		return fmt.Sprintf("no error but %v", canonGo(v))
	}
	if r == "free" {
		return ""
	}
	if !skip {
		if got := canonGo(v); !vh.Equal(got, canon(o["v"])) {
			return fmt.Sprintf("value %v, not %v", got, canon(o["v"]))
		}
	}
	return consumed(d, wire, before+o.I("n"))
}

// consumed checks that the reader stands at byte n: what it says next is what the bytes from there say.
func consumed(d *mp.Decoder, wire []byte, n int) string {
	c := *d
	ref := mp.NewDecoder(wire[n:])
	for i := 0; i < 3; i++ {
		v, err := c.ReadAny()
		x, rerr := ref.ReadAny()
		if (err == nil) != (rerr == nil) || (err == nil && !vh.Equal(canonGo(v), canonGo(x))) {
			return fmt.Sprintf("does not stand at byte %d: next %v %v, there %v %v", n, v, err, x, rerr)
		}
		if err != nil {
			break
		}
	}
	// the number of bytes left
	c, ref = *d, mp.NewDecoder(wire[n:])
	for i := 0; i < 70000; i++ {
		a, err := c.IsNextNil()
		b, rerr := ref.IsNextNil()
		if a != b || (err == nil) != (rerr == nil) {
			return fmt.Sprintf("does not stand at byte %d", n)
		}
		if err != nil || !a {
			break
		}
	}
	return ""
}

func alloc(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func behind(wire []byte) []byte {
	all := append(append([]byte(nil), wire...), bytes.Repeat([]byte{0xc0}, 300)...)
	return all[:len(wire)]
}

// keyOne reads a key of one type, as the dynamic reader knows it.
func keyOne[K any](r mp.Reader) (k K, err error) {
	x, err := readOne(r)
	if err != nil {
		return k, err
	}
	k, ok := x.(K)
	if !ok {
		return k, fmt.Errorf("key %T", x)
	}
	return k, nil
}

func limit(n int) uint64 { return uint64(65536 + 512*n) }

func read(s vh.Step) any {
	wire := s.Wire("wire")
	outs := s.M("o")
	in := behind(wire)
	for _, r := range readers {
		o := outs.M(r.kind)
		if o == nil {
			o = vh.Step{"r": "err"}
		}
		if r.null && len(wire) > 0 && wire[0] == 0xc0 {
			o = vh.Step{"r": "val", "v": map[string]any{"k": "nil"}, "n": 1.0}
		}
		d := mp.NewDecoder(in)
		var v any
		var err error
		got := vh.Guard(func() any {
			v, err = r.read(&d)
			return nil
		})
		if got != nil {
			return map[string]any{"what": "panic", "reader": r.kind, "nillable": r.null, "wire": vh.Short(wire), "got": got}
		}
		if bad := check(o, v, err, &d, in, 0, r.kind == "skip"); bad != "" {
			return map[string]any{"what": bad, "reader": r.kind, "nillable": r.null, "wire": vh.Short(wire), "want": o}
		}
		// what lies behind the input makes no difference
		all := append(append([]byte(nil), wire...), bytes.Repeat([]byte{1}, 300)...)
		d = mp.NewDecoder(all[:len(wire)])
		if x, xerr := r.read(&d); (err == nil) != (xerr == nil) || !vh.Equal(canonGo(v), canonGo(x)) {
			return map[string]any{"what": "read beyond the input", "reader": r.kind, "nillable": r.null, "wire": vh.Short(wire), "got": fmt.Sprint(canonGo(v), err, canonGo(x), xerr)}
		}
		if n := o.I("n"); o.S("r") == "val" && (r.kind != "nextnil" || n > 0) {
			// with numbers behind the value the next one read is the first of them
			d = mp.NewDecoder(append(append([]byte(nil), wire[:n]...), 33, 34, 35, 36, 37, 38, 39, 40))
			x, xerr := r.read(&d)
			if xerr != nil || !vh.Equal(canonGo(v), canonGo(x)) {
				return map[string]any{"what": "value depends on what follows it", "reader": r.kind, "nillable": r.null, "wire": vh.Short(wire), "got": fmt.Sprint(canonGo(x), xerr)}
			}
			if k, kerr := d.ReadInt64(); kerr != nil || k != 33 {
				return map[string]any{"what": "bytes consumed", "reader": r.kind, "nillable": r.null, "wire": vh.Short(wire), "next": fmt.Sprint(k-33, kerr)}
			}
		}
	}
	// lists and maps read with typed readers, and memory
	var bad any
	m := alloc(func() {
		got := vh.Guard(func() any {
			for _, r := range readers {
				d := mp.NewDecoder(in)
				r.read(&d)
			}
			d := mp.NewDecoder(in)
			l, err := mp.ReadSlice(&d, readOne)
			if err == nil && !vh.Equal(outs.M("any")["r"], "free") && outs.M("any").S("r") == "val" && outs.M("any").M("v").S("k") == "arr" {
				if !vh.Equal(canonGo(l), canon(outs.M("any")["v"])) {
					return "list read differs"
				}
			}
			// a list or map that is no value (cut short, an element that is none) is reported
			none := outs.M("any") == nil && len(wire) < 2000
			if none && err == nil && len(wire) > 0 && wire[0] != 0xc0 {
				return fmt.Sprint("list read where there is none: ", canonGo(l))
			}
			d = mp.NewDecoder(in)
			if m, err := mp.ReadMap(&d, keyOne[string], readOne); none && err == nil && len(wire) > 0 && wire[0] != 0xc0 {
				return fmt.Sprint("map read where there is none: ", canonGo(m))
			} else if err == nil && outs.M("any").S("r") == "val" && outs.M("any").M("v").S("k") == "map" {
				if !vh.Equal(canonGo(m), canon(outs.M("any")["v"])) {
					return "map read differs"
				}
			}
			d = mp.NewDecoder(in)
			if m, err := mp.ReadMap(&d, keyOne[int64], readOne); none && err == nil && len(wire) > 0 && wire[0] != 0xc0 {
				return fmt.Sprint("map read where there is none: ", canonGo(m))
			}
			d = mp.NewDecoder(in)
			mp.ReadSlice(&d, mp.Reader.ReadInt8)
			d = mp.NewDecoder(in)
			mp.ReadSlice(&d, func(r mp.Reader) ([1024]byte, error) { var b [1024]byte; _, err := r.ReadInt8(); return b, err })
			d = mp.NewDecoder(in)
			mp.ReadMap(&d, mp.Reader.ReadString, readOne)
			d = mp.NewDecoder(in)
			mp.ReadMap(&d, mp.Reader.ReadInt64, mp.Reader.ReadBool)
			return nil
		})
		bad = got
	})
	if bad != nil {
		return map[string]any{"what": "lists and maps", "wire": vh.Short(wire), "got": bad}
	}
	if m > 26*limit(len(wire)) {
		return map[string]any{"what": "memory out of proportion", "wire": vh.Short(wire), "bytes": m}
	}
	return nil
}

func session(s vh.Step) any {
	wire := s.Wire("wire")
	in := behind(wire)
	d := mp.NewDecoder(in)
	for i, x := range s.L("steps") {
		st := vh.Step(x.(map[string]any))
		for _, r := range readers {
			if r.kind != st.S("k") || r.null {
				continue
			}
			var v any
			var err error
			before := 0
			if i > 0 {
				before = vh.Step(s.L("steps")[i-1].(map[string]any)).I("at")
			}
			if got := vh.Guard(func() any { v, err = r.read(&d); return nil }); got != nil {
				return map[string]any{"what": "panic", "step": i, "wire": vh.Short(wire), "got": got}
			}
			if bad := check(st.M("o"), v, err, &d, in, before, r.kind == "skip"); bad != "" {
				return map[string]any{"what": bad, "step": i, "reader": r.kind, "wire": vh.Short(wire)}
			}
			break
		}
	}
	return nil
}

func writes(s vh.Step) any {
	n := s.I("cap")
	for _, dyn := range []bool{false, true} {
		buf, intact := guarded(n)
		e := mp.NewEncoder(buf)
		at := 0
		for i, x := range s.L("steps") {
			st := vh.Step(x.(map[string]any))
			if dyn {
				e.WriteAny(goVal(st["v"]))
			} else {
				one(&e, st["v"])
			}
			if (e.Err() != nil) != st.B("err") {
				return map[string]any{"what": "error", "step": i, "case": s, "got": fmt.Sprint(e.Err())}
			}
			if !intact() {
				return map[string]any{"what": "wrote outside the buffer", "step": i, "case": s}
			}
			if !st.B("err") {
				w := st.Wire("wire")
				if !bytes.Equal(buf[at:at+len(w)], w) {
					return map[string]any{"what": "bytes", "step": i, "case": s}
				}
				at += len(w)
			}
		}
	}
	return nil
}

// hostile sizes
func deep(s vh.Step) any {
	unit := s.Bytes("unit")
	in := bytes.Repeat(unit, max(s.I("n"), 1))
	if s.A() == "head" {
		in = unit
	}
	whole := s.A() == "deep" && s.B("whole")
	if whole {
		in = append(in, 0xc0)
	}
	for _, k := range []string{"skip", "any", "str", "bin", "time", "arrsize", "mapsize"} {
		for _, r := range readers {
			if r.kind != k || r.null {
				continue
			}
			in := behind(in)
			d := mp.NewDecoder(in)
			var err error
			var v any
			var bad any
			m := alloc(func() { bad = vh.Guard(func() any { v, err = r.read(&d); return nil }) })
			if bad != nil {
				return map[string]any{"what": "panic", "reader": k, "case": s, "got": bad}
			}
			if m > limit(len(in)) {
				return map[string]any{"what": "memory out of proportion", "reader": k, "case": s, "bytes": m}
			}
			if k == "skip" || k == "any" {
				if !whole && err == nil {
					return map[string]any{"what": "no error", "reader": k, "case": s}
				}
				if whole && err != nil && (k == "skip" || s.I("n") <= 1000) {
					return map[string]any{"what": "error", "reader": k, "case": s, "got": err.Error()}
				}
				if whole && err == nil {
					if bad := consumed(&d, in, len(in)); bad != "" {
						return map[string]any{"what": bad, "reader": k, "case": s}
					}
				}
			}
			_ = v
		}
	}
	return nil
}

func TestMsgPack(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		s := vh.Steps(raw)[0]
		var res any
		if got := vh.Guard(func() any {
			switch s.A() {
			case "write":
				res = write(s)
			case "read":
				res = read(s)
			case "rs":
				res = session(s)
			case "ws":
				res = writes(s)
			default:
				res = deep(s)
			}
			return nil
		}); got != nil {
			return map[string]any{"what": "panic", "case": vh.Short(raw), "got": got}, nil
		}
		return res, nil
	})
}
