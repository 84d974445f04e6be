//go:build go1.22

package engine

import (
	"encoding/binary"
	"fmt"
	"strings"
	"unicode/utf8"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/invoke"
	"github.com/nanobus/iota/go/payload"
)

// endpoint is one of the three endpoints under test, seen from its peer.
type endpoint interface {
	// Deliver lets frames arrive one directly behind the other.
	Deliver(bufs ...[]byte)
	// Sent returns the frames that left since the last call.
	Sent() [][]byte
	Caller() invoke.Caller
	// Own tells whether the endpoint numbers its own requests odd.
	Odd() bool
	// Full tells whether handlers of that kind see the metadata with the numbers in front.
	Full(kind string) bool
	// Held tells whether the endpoint still keeps the stream (known is false if it cannot tell).
	Held(id uint32) (held, known bool)
	// Kept gives the number of streams the endpoint keeps, or -1.
	Kept() int
	// Down ends its connection in one of several ways.
	Down(cause string)
	// Close ends it.
	Close()
}

// fr is a frame in terms of the specification.
type fr struct {
	s, t, k string
	v, n    int
}

func (f fr) String() string { return fmt.Sprintf("%s %s v=%d n=%d %s", f.s, f.t, f.v, f.n, f.k) }

func encode(f frames.Frame) []byte {
	b := make([]byte, f.Size())
	f.Encode(b)
	return b
}

// decode parses a frame without the code of any endpoint.
func decode(b []byte) (frames.Frame, error) {
	if len(b) < frames.FrameHeaderLen {
		return nil, fmt.Errorf("%d bytes are not a frame", len(b))
	}
	h := frames.ParseFrameHeader(b)
	var f frames.Frame
	switch h.Type() {
	case frames.FrameTypeSetup:
		f = &frames.Setup{}
	case frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel:
		f = &frames.RequestPayload{}
	case frames.FrameTypeRequestN:
		f = &frames.RequestN{}
	case frames.FrameTypeCancel:
		f = &frames.Cancel{}
	case frames.FrameTypePayload:
		f = &frames.Payload{}
	case frames.FrameTypeError:
		f = &frames.Error{}
	default:
		return nil, fmt.Errorf("frame type %d", h.Type())
	}
	return f, f.Decode(&h, b[frames.FrameHeaderLen:])
}

// Values are small mostly, some have kilobytes, some no metadata, some no data, and some (voids) neither.
// Which ones they are changes with shift.
var (
	shift int
	voids bool
)

func pad(v int) int {
	switch (v + shift) % 7 {
	case 3:
		return 3000
	case 5:
		return 300
	}
	return 0
}

func hollow(v int) bool { return (v+shift)%4 == 2 }
func bare(v int) bool   { return (v+shift)%3 == 0 && (voids || !hollow(v)) }

// void is a value with nothing in it.
func void(v int) bool { return hollow(v) && bare(v) }

// oneVoid stands for any of them.
const oneVoid = -9

func same(v int) int {
	if void(v) {
		return oneVoid
	}
	return v
}

func data(v int) []byte {
	if hollow(v) {
		return nil
	}
	b := []byte(fmt.Sprintf("d%d.", v))
	for i := 0; i < pad(v); i++ {
		b = append(b, byte(v+i*i))
	}
	return b
}

func meta(v int) []byte {
	if bare(v) {
		return nil
	}
	return append([]byte(fmt.Sprintf("m%d.", v)), 0, 255, byte(v))
}

// asking is the data of a request: it can be told apart.
func asking(v int) []byte {
	if void(v) {
		return []byte(fmt.Sprintf("d%d.", v))
	}
	return data(v)
}

func value(v int) payload.Payload { return payload.New(data(v), meta(v)) }

// valueOf recognises a payload made by value (or a request), with skip bytes more in front of its metadata.
func valueOf(d, m []byte, skip int) int {
	if len(m) < skip {
		return -2
	}
	m = m[skip:]
	if len(d) == 0 && len(m) == 0 {
		return oneVoid
	}
	v := 0
	if n, _ := fmt.Sscanf(string(d), "d%d.", &v); n != 1 {
		if n, _ := fmt.Sscanf(string(m), "m%d.", &v); n != 1 {
			return -1
		}
	}
	if string(d) != string(data(v)) && !(void(v) && string(d) == string(asking(v))) || string(m) != string(meta(v)) {
		return -2
	}
	return v
}

// Some errors have no text, some have more than a buffer holds.
func errText(v int) string {
	if voids && (v+shift)%9 == 7 {
		return ""
	}
	if (v+shift)%7 == 2 {
		return fmt.Sprintf("e%d", v) + longText
	}
	return fmt.Sprintf("e%d", v)
}

var longText = strings.Repeat("–!", 17000/4)

// errFits is the text of an error that comes from the other side.
func errFits(v int) string {
	s := errText(v)
	for n := len(s); n > 16000; n = len(s) {
		s = s[:16000]
		for !utf8.ValidString(s) {
			s = s[:len(s)-1]
		}
	}
	return s
}

func sameErr(v int) int {
	if v != 0 && errText(v) == "" {
		return oneVoid
	}
	return v
}

func errOf(s string) int {
	v := 0
	if voids && s == "" {
		return oneVoid
	}
	if n, _ := fmt.Sscanf(s, "e%d", &v); n != 1 {
		return 0
	}
	t := errText(v)
	if s != t && !(len(t) > 16000 && len(s) > 15000 && strings.HasPrefix(t, s) && utf8.ValidString(s)) {
		return 0
	}
	return v
}

var types = map[string]frames.FrameType{"rr": frames.FrameTypeRequestResponse, "fnf": frames.FrameTypeRequestFNF,
	"rs": frames.FrameTypeRequestStream, "rc": frames.FrameTypeRequestChannel}

func kindOf(t frames.FrameType) string {
	for k, x := range types {
		if x == t {
			return k
		}
	}
	return "?"
}

// opMeta is the metadata of a request: which operation, during which other request, and what the caller added.
func opMeta(op, parent uint32, rest []byte) []byte {
	b := binary.BigEndian.AppendUint32(nil, op)
	b = binary.BigEndian.AppendUint32(b, parent)
	return append(b, rest...)
}
