//go:build go1.22

package frames

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"runtime"
	"testing"
	"time"

	"github.com/nanobus/iota/go/internal/frames"
	"github.com/nanobus/iota/go/internal/zzverif/vh"
	"github.com/nanobus/iota/go/transport/rsocket"
)

func quad(v any) uint32 {
	b := vh.Bytes(v)
	return binary.BigEndian.Uint32(b)
}
func unquad(v uint32) []int { return vh.Ints(binary.BigEndian.AppendUint32(nil, v)) }

var reqTypes = map[string]frames.FrameType{
	"rr": frames.FrameTypeRequestResponse, "fnf": frames.FrameTypeRequestFNF,
	"rs": frames.FrameTypeRequestStream, "rc": frames.FrameTypeRequestChannel,
}

// build makes the frame the specification describes.
func build(f vh.Step) frames.Frame {
	sid := uint32(f.I("sid"))
	ms := func(k string) time.Duration { return time.Duration(quad(f[k])) * time.Millisecond }
	switch k := f.S("k"); k {
	case "setup":
		return &frames.Setup{MajorVersion: uint16(f.I("major")), MinorVersion: uint16(f.I("minor")), TimeBetweenKeepalive: ms("ka"), MaxLifetime: ms("ml"),
			Token: f.Wire("token"), MimeMetadata: string(f.Wire("mmime")), MimeData: string(f.Wire("dmime")), Metadata: f.Wire("md"), Data: f.Wire("data"), Lease: f.B("lease")}
	case "rr", "fnf", "rs", "rc":
		return &frames.RequestPayload{FrameType: reqTypes[k], StreamID: sid, Metadata: f.Wire("md"), Data: f.Wire("data"), Follows: f.B("follows"), Complete: f.B("complete"), InitialN: quad(f["n"])}
	case "payload":
		return &frames.Payload{StreamID: sid, Metadata: f.Wire("md"), Data: f.Wire("data"), Follows: f.B("follows"), Complete: f.B("complete"), Next: f.B("next")}
	case "reqn":
		return &frames.RequestN{StreamID: sid, N: quad(f["n"])}
	case "cancel":
		return &frames.Cancel{StreamID: sid}
	case "error":
		return &frames.Error{StreamID: sid, Code: frames.ErrCode(quad(f["code"])), Data: string(f.Wire("data"))}
	}
	panic("kind")
}

// show is the content of a frame, short enough to print.
func show(f frames.Frame) any {
	sh := func(b []byte) string { return vh.Short(b) }
	ms := func(d time.Duration) any {
		if d < 0 || d%time.Millisecond != 0 || d/time.Millisecond > 1<<32-1 {
			return d.String()
		}
		return unquad(uint32(d / time.Millisecond))
	}
	switch v := f.(type) {
	case *frames.Setup:
		return map[string]any{"k": "setup", "major": v.MajorVersion, "minor": v.MinorVersion, "ka": ms(v.TimeBetweenKeepalive), "ml": ms(v.MaxLifetime), "token": sh(v.Token),
			"mmime": sh([]byte(v.MimeMetadata)), "dmime": sh([]byte(v.MimeData)), "md": sh(v.Metadata), "data": sh(v.Data), "lease": v.Lease}
	case *frames.RequestPayload:
		k := "?"
		for n, t := range reqTypes {
			if t == v.FrameType {
				k = n
			}
		}
		return map[string]any{"k": k, "sid": v.StreamID, "md": sh(v.Metadata), "data": sh(v.Data), "follows": v.Follows, "complete": v.Complete, "n": unquad(v.InitialN)}
	case *frames.Payload:
		return map[string]any{"k": "payload", "sid": v.StreamID, "md": sh(v.Metadata), "data": sh(v.Data), "follows": v.Follows, "complete": v.Complete, "next": v.Next}
	case *frames.RequestN:
		return map[string]any{"k": "reqn", "sid": v.StreamID, "n": unquad(v.N)}
	case *frames.Cancel:
		return map[string]any{"k": "cancel", "sid": v.StreamID}
	case *frames.Error:
		return map[string]any{"k": "error", "sid": v.StreamID, "code": unquad(uint32(v.Code)), "data": sh([]byte(v.Data))}
	}
	return fmt.Sprintf("%T", f)
}

// want is the content the specification expects of a decoded frame.
func want(d vh.Step) any {
	if !d.B("ok") {
		return map[string]any{"ok": false}
	}
	m := map[string]any{}
	for k, v := range d {
		switch k {
		case "ok":
		case "md", "data", "token", "mmime", "dmime":
			m[k] = vh.Short(vh.Wire(v))
		default:
			m[k] = v
		}
	}
	return m
}

// dirty gives a frame object of the kind in the bytes whose fields already hold something else.
func dirty(t frames.FrameType) frames.Frame {
	junk := []byte("junk")
	switch t {
	case frames.FrameTypeSetup:
		return &frames.Setup{MajorVersion: 9, MinorVersion: 9, TimeBetweenKeepalive: 9, MaxLifetime: 9, Token: junk, MimeMetadata: "x", MimeData: "y", Metadata: junk, Data: junk, Lease: true}
	case frames.FrameTypeRequestResponse, frames.FrameTypeRequestFNF, frames.FrameTypeRequestStream, frames.FrameTypeRequestChannel:
		return &frames.RequestPayload{FrameType: 99, StreamID: 99, Metadata: junk, Data: junk, Follows: true, Complete: true, InitialN: 99}
	case frames.FrameTypePayload:
		return &frames.Payload{StreamID: 99, Metadata: junk, Data: junk, Follows: true, Complete: true, Next: true}
	case frames.FrameTypeRequestN:
		return &frames.RequestN{StreamID: 99, N: 99}
	case frames.FrameTypeCancel:
		return &frames.Cancel{StreamID: 99}
	case frames.FrameTypeError:
		return &frames.Error{StreamID: 99, Code: 99, Data: "junk"}
	}
	return nil
}

// decode reads a frame the way every endpoint does: header first, then the body by its type.
func decode(b []byte) any {
	return vh.Guard(func() any {
		if len(b) < frames.FrameHeaderLen {
			return map[string]any{"ok": false} // the header itself is missing: endpoints check this themselves
		}
		h := frames.ParseFrameHeader(b)
		f := dirty(h.Type())
		if f == nil {
			return map[string]any{"ok": false}
		}
		if err := f.Decode(&h, b[frames.FrameHeaderLen:]); err != nil {
			return map[string]any{"ok": false}
		}
		return show(f)
	})
}

// conn delivers fixed bytes, then the end.
type conn struct{ io.Reader }

func (conn) Write(b []byte) (int, error)        { return len(b), nil }
func (conn) Close() error                       { return nil }
func (conn) LocalAddr() net.Addr                { return &net.TCPAddr{} }
func (conn) RemoteAddr() net.Addr               { return &net.TCPAddr{} }
func (conn) SetDeadline(t time.Time) error      { return nil }
func (conn) SetReadDeadline(t time.Time) error  { return nil }
func (conn) SetWriteDeadline(t time.Time) error { return nil }

// viaTCP reads the same bytes as one frame of a connection.
func viaTCP(b []byte) any {
	return vh.Guard(func() any {
		buf := append([]byte{byte(len(b) >> 16), byte(len(b) >> 8), byte(len(b))}, b...)
		f, err := rsocket.NewTCPConn(conn{bytes.NewReader(buf)}).Read()
		if err != nil || f == nil {
			return map[string]any{"ok": false}
		}
		return show(f)
	})
}

func allocs(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

func TestFrames(t *testing.T) {
	vh.Main(t, func(t *testing.T, raw []byte) (any, any) {
		s := vh.Steps(raw)[0]
		wire := s.Wire("wire")
		fail := func(what string, got, exp any) (any, any) {
			return map[string]any{"what": what, "case": s, "got": got, "want": exp}, nil
		}
		if s.A() == "none" {
			f := build(s.M("f"))
			before := show(f)
			if f.Size() != uint32(len(wire)) {
				return fail("size", f.Size(), len(wire))
			}
			if f.GetStreamID() != uint32(s.I("sid")) || int(f.Type()) != s.I("type") {
				return fail("type or stream", []any{f.GetStreamID(), f.Type()}, nil)
			}
			// into a buffer that holds something else and goes on behind the frame
			buf := bytes.Repeat([]byte{0xee}, len(wire)+64)
			if p := vh.Guard(func() any { f.Encode(buf); return nil }); p != nil {
				return fail("encode", p, nil)
			}
			if !bytes.Equal(buf[:len(wire)], wire) {
				k := 0
				for buf[k] == wire[k] {
					k++
				}
				return fail("encode", fmt.Sprintf("%s first difference at %d", vh.Short(buf[:len(wire)]), k), vh.Short(wire))
			}
			if !bytes.Equal(buf[len(wire):], bytes.Repeat([]byte{0xee}, 64)) {
				return fail("encode wrote behind the frame", vh.Short(buf[len(wire):]), nil)
			}
			exact := make([]byte, len(wire))
			if p := vh.Guard(func() any { f.Encode(exact); return nil }); p != nil || !bytes.Equal(exact, wire) {
				return fail("encode into exact buffer", p, nil)
			}
			if !vh.Equal(before, show(f)) {
				return fail("encode changed the frame", show(f), before)
			}
			h := frames.ParseFrameHeader(wire)
			if h.StreamID() != uint32(s.I("sid")) || int(h.Type()) != s.I("type") || int(h.Flag()) != s.I("flags") {
				return fail("header", h.String(), nil)
			}
			h2 := frames.NewFrameHeader(uint32(s.I("sid")), frames.FrameType(s.I("type")), frames.FrameFlag(s.I("flags")))
			var hb bytes.Buffer
			frames.WriteFrameHeader(&hb, uint32(s.I("sid")), frames.FrameType(s.I("type")), frames.FrameFlag(s.I("flags")))
			if !bytes.Equal(h2.Bytes(), wire[:6]) || !bytes.Equal(hb.Bytes(), wire[:6]) {
				return fail("built header", h2.String(), nil)
			}
		}
		// the input ends where it ends, even if memory goes on behind it
		room := append(append([]byte(nil), wire...), bytes.Repeat([]byte{0x01}, 70)...)[:len(wire)]
		exp := want(s.M("dec"))
		var got, tcp any
		var used, usedT uint64
		if s.A() == "none" {
			got = decode(room)
			if len(wire) < 1<<24 {
				tcp = viaTCP(wire)
			}
		} else {
			used = allocs(func() { got = decode(room) })
			usedT = allocs(func() { tcp = viaTCP(wire) })
		}
		lenient := s.A() == "set" // other bytes: an error is always an answer
		bad := vh.Norm(map[string]any{"ok": false})
		if !vh.Equal(got, exp) && !(lenient && vh.Equal(got, bad)) {
			return fail("decode", got, exp)
		}
		if tcp != nil && !vh.Equal(tcp, exp) && !(lenient && vh.Equal(tcp, bad)) {
			return fail("decode through a connection", tcp, exp)
		}
		if lim := uint64(64*1024 + 64*len(wire)); used > lim || usedT > lim {
			return fail("allocated out of proportion", []uint64{used, usedT}, lim)
		}
		return nil, nil
	})
}
