//go:build go1.22

package msgpack

import (
	"errors"
	"fmt"
	"strconv"
	"testing"
	"time"

	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/msgpack/convert"
)

type (
	str  string
	flag bool
	i8   int8
	u32  uint32
	f64  float64
	blob []byte
)

var errGiven = errors.New("given")

// obs describes what a converter returned.
func obs[T any](v T, err error, kind func(T) string) any {
	e := "own"
	if err == nil {
		e = "no"
	} else if errors.Is(err, errGiven) {
		e = "given"
	}
	return map[string]any{"err": e, "val": kind(v)}
}

func one2[T comparable](some T) func(T) string {
	return func(v T) string {
		var zero T
		if v == zero {
			return "zero"
		}
		if v == some {
			return "some"
		}
		return fmt.Sprintf("other %v", v)
	}
}

func ptr2[T comparable](some T) func(*T) string {
	f := one2(some)
	return func(v *T) string {
		if v == nil {
			return "nil"
		}
		return f(*v)
	}
}

func pick[T any](val string, zero, some T) T {
	if val == "some" {
		return some
	}
	return zero
}

func pickPtr[T any](val string, zero, some T) *T {
	if val == "nil" {
		return nil
	}
	v := pick(val, zero, some)
	return &v
}

func num2[T, I interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~float32 | ~float64
}](n int) func(nillable bool, val string, err error) any {
	return func(nillable bool, val string, err error) any {
		if nillable {
			v, e := convert.NillableNumeric[T](pickPtr(val, 0, I(n)), err)
			return obs(v, e, ptr2(T(n)))
		}
		v, e := convert.Numeric[T](pick(val, 0, I(n)), err)
		return obs(v, e, one2(T(n)))
	}
}

var nums = []func(bool, string, error) any{
	num2[i8, int64](-128), num2[i8, int8](127), num2[int16, int32](-32768), num2[u32, uint64](1<<32 - 1), num2[uint8, uint8](255), num2[f64, float32](-3), num2[float32, float64](1 << 20),
	num2[int, int64](-1), num2[int64, int](1<<62 + 1), num2[uint64, uint64](1 << 62), num2[int32, float64](77), num2[uint16, uint32](65535),
}

func parse(s string) (int, error) { return strconv.Atoi(s) }

func convCase(name, val string, err error) []any {
	tm := time.Unix(1700000000, 5).UTC()
	text := map[string]string{"zero": "0001-01-01T00:00:00Z", "some": "2023-11-14T22:13:20.000000005Z", "bad": "2023-11-14 22:13"}[val]
	tkind := func(t time.Time) string {
		switch {
		case t.IsZero():
			return "zero"
		case t.Equal(tm):
			return "some"
		}
		return "other " + t.String()
	}
	var tp *string
	if val != "nil" {
		tp = &text
	}
	num := map[string]string{"zero": "0", "some": "12", "bad": "x"}[val]
	var np *string
	if val != "nil" {
		np = &num
	}
	var r []any
	add := func(x any) { r = append(r, x) }
	switch name {
	case "String":
		v, e := convert.String[str](pick(val, "", "ab"), err)
		add(obs(v, e, one2(str("ab"))))
	case "NillableString":
		v, e := convert.NillableString[str](pickPtr(val, "", "ab"), err)
		add(obs(v, e, ptr2(str("ab"))))
	case "Bool":
		v, e := convert.Bool[flag](pick(val, false, true), err)
		add(obs(v, e, one2(flag(true))))
	case "NillableBool":
		v, e := convert.NillableBool[flag](pickPtr(val, false, true), err)
		add(obs(v, e, ptr2(flag(true))))
	case "Numeric", "NillableNumeric":
		for _, f := range nums {
			add(f(name != "Numeric", val, err))
		}
	case "ByteArray":
		var in []byte
		if val != "nil" {
			in = pick(val, []byte{}, []byte("ab"))
		}
		v, e := convert.ByteArray[blob](in, err)
		add(obs(v, e, func(b blob) string {
			switch {
			case b == nil:
				return "nil"
			case len(b) == 0:
				return "zero"
			case string(b) == "ab":
				return "some"
			}
			return "other"
		}))
	case "StringToTime":
		v, e := convert.StringToTime(text, err)
		add(obs(v, e, tkind))
	case "StringToTimePtr":
		v, e := convert.StringToTimePtr(tp, err)
		add(obs(v, e, func(t *time.Time) string {
			if t == nil {
				return "nil"
			}
			return tkind(*t)
		}))
	case "Parse":
		v, e := convert.Parse(parse)(num, err)
		add(obs(v, e, one2(12)))
	case "NillableParse":
		v, e := convert.NillableParse(parse)(np, err)
		add(obs(v, e, ptr2(12)))
	case "Format":
		v := convert.Format(func(n *int) string { return strconv.Itoa(*n) })(pickPtr(val, 0, 12))
		add(obs(v, nil, func(s *string) string {
			switch {
			case s == nil:
				return "nil"
			case *s == "0":
				return "zero"
			case *s == "12":
				return "some"
			}
			return "other"
		}))
	case "TimeToStringPtr":
		v := convert.TimeToStringPtr(pickPtr(val, time.Time{}, tm))
		add(obs(v, nil, func(s *string) string {
			switch {
			case s == nil:
				return "nil"
			case *s == text:
				return val
			}
			return "other " + *s
		}))
	}
	return r
}

func TestConvert(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		s := vh.Steps(raw)[0]
		bad := func(what string, got any) any { return map[string]any{"what": what, "case": s, "got": got} }
		switch s.A() {
		case "conv":
			var err error
			if s.B("err") {
				err = errGiven
			}
			got := vh.Guard(func() any { return convCase(s.S("conv"), s.S("val"), err) })
			l, ok := got.([]any)
			if !ok {
				return bad("panic", got), nil
			}
			want := s.M("o")
			for _, g := range l {
				m := g.(map[string]any)
				if m["err"] != want.S("err") {
					return bad("error", g), nil
				}
				// no value: nil or the zero value
				if want.S("val") == "none" && m["val"] != "nil" && (m["val"] != "zero" || ptrConv[s.S("conv")]) || want.S("val") != "none" && m["val"] != want.S("val") {
					return bad("value", g), nil
				}
			}
			return nil, nil
		case "time":
			at := s.M("at")
			sec := int64(at.I("day"))*86400 + int64(at.I("sec"))
			x := time.Unix(sec, int64(at.I("ns"))).In(time.FixedZone("z", s.I("off")))
			text := string(s.Bytes("text"))
			var res any
			if got := vh.Guard(func() any {
				a := convert.TimeToString(x)
				b := convert.TimeToStringPtr(&x)
				if b == nil || *b != a || (text != "" && a != text) {
					res = bad("text", a)
					return nil
				}
				y, err := convert.StringToTime(a, nil)
				if err != nil || !y.Equal(x) {
					res = bad("round trip", fmt.Sprint(a, y, err))
					return nil
				}
				z, err := convert.StringToTimePtr(&a, nil)
				if err != nil || z == nil || !z.Equal(x) {
					res = bad("round trip of a pointer", fmt.Sprint(a, z, err))
				}
				return nil
			}); got != nil {
				return bad("panic", got), nil
			}
			return res, nil
		case "bad":
			text := string(s.Bytes("text"))
			var res any
			if got := vh.Guard(func() any {
				y, err := convert.StringToTime(text, nil)
				if err == nil || !y.IsZero() {
					res = bad("accepted "+text, fmt.Sprint(y, err))
				}
				z, err := convert.StringToTimePtr(&text, nil)
				if err == nil || z != nil {
					res = bad("accepted pointer "+text, fmt.Sprint(z, err))
				}
				return nil
			}); got != nil {
				return bad("panic", got), nil
			}
			return res, nil
		}
		return bad("unknown case", nil), nil
	})
}

// converters whose result can be nil give nil when they have no value
var ptrConv = map[string]bool{"NillableString": true, "NillableBool": true, "NillableNumeric": true, "ByteArray": true, "StringToTimePtr": true, "NillableParse": true}
