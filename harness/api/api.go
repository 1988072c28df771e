// Package api maps the reference messages of package wire to the exported API
// of the code under test.
package api

import (
	"bytes"
	"fmt"
	"reflect"
	"slices"

	"ninepverif/wire"

	p "github.com/Harvey-OS/ninep/protocol"
)

func q(x wire.Qid) p.QID   { return p.QID{Type: x.Type, Version: x.Vers, Path: x.Path} }
func unq(x p.QID) wire.Qid { return wire.Qid{Type: x.Type, Vers: x.Version, Path: x.Path} }
func qs(x []wire.Qid) []p.QID {
	r := []p.QID{}
	for _, v := range x {
		r = append(r, q(v))
	}
	return r
}
func unqs(x []p.QID) []wire.Qid {
	r := []wire.Qid{}
	for _, v := range x {
		r = append(r, unq(v))
	}
	return r
}
func strs(x []string) []string { return append([]string{}, x...) }

// Bytes copies, and never returns nil.
func Bytes(x []byte) []byte { return append([]byte{}, x...) }

func u8(a any) uint8   { return a.(uint8) }
func u16(a any) uint16 { return a.(uint16) }
func u32(a any) uint32 { return a.(uint32) }
func u64(a any) uint64 { return a.(uint64) }
func s(a any) string   { return a.(string) }
func by(a any) []byte  { return a.([]byte) }

// Marshal encodes with the code under test.
func Marshal(b *bytes.Buffer, m wire.Msg) {
	t, f := p.Tag(m.Tag), m.F
	switch m.Type {
	case wire.Tversion:
		p.MarshalTversionPkt(b, t, p.MaxSize(u32(f[0])), s(f[1]))
	case wire.Rversion:
		p.MarshalRversionPkt(b, t, p.MaxSize(u32(f[0])), s(f[1]))
	case wire.Tattach:
		p.MarshalTattachPkt(b, t, p.FID(u32(f[0])), p.FID(u32(f[1])), s(f[2]), s(f[3]))
	case wire.Rattach:
		p.MarshalRattachPkt(b, t, q(f[0].(wire.Qid)))
	case wire.Rerror:
		p.MarshalRerrorPkt(b, t, s(f[0]))
	case wire.Tflush:
		p.MarshalTflushPkt(b, t, p.Tag(u16(f[0])))
	case wire.Rflush:
		p.MarshalRflushPkt(b, t)
	case wire.Twalk:
		p.MarshalTwalkPkt(b, t, p.FID(u32(f[0])), p.FID(u32(f[1])), f[2].([]string))
	case wire.Rwalk:
		p.MarshalRwalkPkt(b, t, qs(f[0].([]wire.Qid)))
	case wire.Topen:
		p.MarshalTopenPkt(b, t, p.FID(u32(f[0])), p.Mode(u8(f[1])))
	case wire.Ropen:
		p.MarshalRopenPkt(b, t, q(f[0].(wire.Qid)), p.MaxSize(u32(f[1])))
	case wire.Tcreate:
		p.MarshalTcreatePkt(b, t, p.FID(u32(f[0])), s(f[1]), p.Perm(u32(f[2])), p.Mode(u8(f[3])))
	case wire.Rcreate:
		p.MarshalRcreatePkt(b, t, q(f[0].(wire.Qid)), p.MaxSize(u32(f[1])))
	case wire.Tread:
		p.MarshalTreadPkt(b, t, p.FID(u32(f[0])), p.Offset(u64(f[1])), p.Count(u32(f[2])))
	case wire.Rread:
		p.MarshalRreadPkt(b, t, by(f[0]))
	case wire.Twrite:
		p.MarshalTwritePkt(b, t, p.FID(u32(f[0])), p.Offset(u64(f[1])), by(f[2]))
	case wire.Rwrite:
		p.MarshalRwritePkt(b, t, p.Count(u32(f[0])))
	case wire.Tclunk:
		p.MarshalTclunkPkt(b, t, p.FID(u32(f[0])))
	case wire.Rclunk:
		p.MarshalRclunkPkt(b, t)
	case wire.Tremove:
		p.MarshalTremovePkt(b, t, p.FID(u32(f[0])))
	case wire.Rremove:
		p.MarshalRremovePkt(b, t)
	case wire.Tstat:
		p.MarshalTstatPkt(b, t, p.FID(u32(f[0])))
	case wire.Rstat:
		p.MarshalRstatPkt(b, t, by(f[0]))
	case wire.Twstat:
		p.MarshalTwstatPkt(b, t, p.FID(u32(f[0])), by(f[1]))
	case wire.Rwstat:
		p.MarshalRwstatPkt(b, t)
	default:
		panic("type")
	}
}

// Unmarshal decodes the body (tag and fields) with the code under test.
func Unmarshal(typ uint8, b *bytes.Buffer) (wire.Msg, error) {
	var t p.Tag
	var err error
	m := wire.Msg{Type: typ}
	switch typ {
	case wire.Tversion:
		var a p.MaxSize
		var v string
		a, v, t, err = p.UnmarshalTversionPkt(b)
		m.F = []any{uint32(a), v}
	case wire.Rversion:
		var a p.MaxSize
		var v string
		a, v, t, err = p.UnmarshalRversionPkt(b)
		m.F = []any{uint32(a), v}
	case wire.Tattach:
		var a, c p.FID
		var v, w string
		a, c, v, w, t, err = p.UnmarshalTattachPkt(b)
		m.F = []any{uint32(a), uint32(c), v, w}
	case wire.Rattach:
		var x p.QID
		x, t, err = p.UnmarshalRattachPkt(b)
		m.F = []any{unq(x)}
	case wire.Rerror:
		var v string
		v, t, err = p.UnmarshalRerrorPkt(b)
		m.F = []any{v}
	case wire.Tflush:
		var o p.Tag
		o, t, err = p.UnmarshalTflushPkt(b)
		m.F = []any{uint16(o)}
	case wire.Rflush:
		t, err = p.UnmarshalRflushPkt(b)
	case wire.Twalk:
		var a, c p.FID
		var l []string
		a, c, l, t, err = p.UnmarshalTwalkPkt(b)
		m.F = []any{uint32(a), uint32(c), strs(l)}
	case wire.Rwalk:
		var l []p.QID
		l, t, err = p.UnmarshalRwalkPkt(b)
		m.F = []any{unqs(l)}
	case wire.Topen:
		var a p.FID
		var o p.Mode
		a, o, t, err = p.UnmarshalTopenPkt(b)
		m.F = []any{uint32(a), uint8(o)}
	case wire.Ropen:
		var x p.QID
		var a p.MaxSize
		x, a, t, err = p.UnmarshalRopenPkt(b)
		m.F = []any{unq(x), uint32(a)}
	case wire.Tcreate:
		var a p.FID
		var v string
		var pe p.Perm
		var o p.Mode
		a, v, pe, o, t, err = p.UnmarshalTcreatePkt(b)
		m.F = []any{uint32(a), v, uint32(pe), uint8(o)}
	case wire.Rcreate:
		var x p.QID
		var a p.MaxSize
		x, a, t, err = p.UnmarshalRcreatePkt(b)
		m.F = []any{unq(x), uint32(a)}
	case wire.Tread:
		var a p.FID
		var o p.Offset
		var c p.Count
		a, o, c, t, err = p.UnmarshalTreadPkt(b)
		m.F = []any{uint32(a), uint64(o), uint32(c)}
	case wire.Rread:
		var d []byte
		d, t, err = p.UnmarshalRreadPkt(b)
		m.F = []any{Bytes(d)}
	case wire.Twrite:
		var a p.FID
		var o p.Offset
		var d []byte
		a, o, d, t, err = p.UnmarshalTwritePkt(b)
		m.F = []any{uint32(a), uint64(o), Bytes(d)}
	case wire.Rwrite:
		var c p.Count
		c, t, err = p.UnmarshalRwritePkt(b)
		m.F = []any{uint32(c)}
	case wire.Tclunk:
		var a p.FID
		a, t, err = p.UnmarshalTclunkPkt(b)
		m.F = []any{uint32(a)}
	case wire.Rclunk:
		t, err = p.UnmarshalRclunkPkt(b)
	case wire.Tremove:
		var a p.FID
		a, t, err = p.UnmarshalTremovePkt(b)
		m.F = []any{uint32(a)}
	case wire.Rremove:
		t, err = p.UnmarshalRremovePkt(b)
	case wire.Tstat:
		var a p.FID
		a, t, err = p.UnmarshalTstatPkt(b)
		m.F = []any{uint32(a)}
	case wire.Rstat:
		var d []byte
		d, t, err = p.UnmarshalRstatPkt(b)
		m.F = []any{Bytes(d)}
	case wire.Twstat:
		var a p.FID
		var d []byte
		a, d, t, err = p.UnmarshalTwstatPkt(b)
		m.F = []any{uint32(a), Bytes(d)}
	case wire.Rwstat:
		t, err = p.UnmarshalRwstatPkt(b)
	default:
		panic("type")
	}
	m.Tag = uint16(t)
	return m, err
}

// MarshalDir encodes a stat record with the code under test.
func MarshalDir(b *bytes.Buffer, d wire.Dir) {
	p.Marshaldir(b, p.Dir{Type: d.Type, Dev: d.Dev, QID: q(d.Qid), Mode: d.Mode, Atime: d.Atime, Mtime: d.Mtime,
		Length: d.Length, Name: d.Name, User: d.Uid, Group: d.Gid, ModUser: d.Muid})
}

// UnmarshalDir decodes a stat record with the code under test.
func UnmarshalDir(b *bytes.Buffer) (wire.Dir, error) {
	d, err := p.Unmarshaldir(b)
	return wire.Dir{Type: d.Type, Dev: d.Dev, Qid: unq(d.QID), Mode: d.Mode, Atime: d.Atime, Mtime: d.Mtime,
		Length: d.Length, Name: d.Name, Uid: d.User, Gid: d.Group, Muid: d.ModUser}, err
}

// own does what a caller may do once a call has returned: overwrite the data it gave, and
// the data it got, of which own returns a copy.
func own(d []byte) []byte {
	x := Bytes(d)
	for i := range d {
		d[i] ^= 0xa5
	}
	return x
}

// Call makes the call for a T message (tag ignored) and returns the fields of
// the reply.
func Call(c *p.Client, m wire.Msg) ([]any, error) {
	f := m.F
	switch m.Type {
	case wire.Tversion:
		a, v, err := c.CallTversion(p.MaxSize(u32(f[0])), s(f[1]))
		return []any{uint32(a), v}, err
	case wire.Tattach:
		x, err := c.CallTattach(p.FID(u32(f[0])), p.FID(u32(f[1])), s(f[2]), s(f[3]))
		return []any{unq(x)}, err
	case wire.Tflush:
		err := c.CallTflush(p.Tag(u16(f[0])))
		return nil, err
	case wire.Twalk:
		names := slices.Clone(f[2].([]string))
		l, err := c.CallTwalk(p.FID(u32(f[0])), p.FID(u32(f[1])), names)
		for i := range names {
			names[i] = "changed"
		}
		x := unqs(l)
		clear(l)
		return []any{x}, err
	case wire.Topen:
		x, a, err := c.CallTopen(p.FID(u32(f[0])), p.Mode(u8(f[1])))
		return []any{unq(x), uint32(a)}, err
	case wire.Tcreate:
		x, a, err := c.CallTcreate(p.FID(u32(f[0])), s(f[1]), p.Perm(u32(f[2])), p.Mode(u8(f[3])))
		return []any{unq(x), uint32(a)}, err
	case wire.Tread:
		d, err := c.CallTread(p.FID(u32(f[0])), p.Offset(u64(f[1])), p.Count(u32(f[2])))
		return []any{own(d)}, err
	case wire.Twrite:
		d := slices.Clone(by(f[2]))
		n, err := c.CallTwrite(p.FID(u32(f[0])), p.Offset(u64(f[1])), d)
		own(d)
		return []any{uint32(n)}, err
	case wire.Tclunk:
		return nil, c.CallTclunk(p.FID(u32(f[0])))
	case wire.Tremove:
		return nil, c.CallTremove(p.FID(u32(f[0])))
	case wire.Tstat:
		d, err := c.CallTstat(p.FID(u32(f[0])))
		return []any{own(d)}, err
	case wire.Twstat:
		d := slices.Clone(by(f[1]))
		err := c.CallTwstat(p.FID(u32(f[0])), d)
		own(d)
		return nil, err
	}
	panic("type")
}

// Handler decides the outcome of an operation: the fields of the reply, or an
// error.
type Handler func(m wire.Msg) ([]any, error)

// Mock is a file server that hands every operation to a Handler, as a T
// message with tag 0.
type Mock struct{ H Handler }

var _ p.NineServer = Mock{}

func (x Mock) do(t uint8, f ...any) ([]any, error) { return x.H(wire.Msg{Type: t, F: f}) }

func (x Mock) Rversion(a p.MaxSize, v string) (p.MaxSize, string, error) {
	r, err := x.do(wire.Tversion, uint32(a), v)
	if r == nil {
		return 0, "", err
	}
	return p.MaxSize(u32(r[0])), s(r[1]), err
}
func (x Mock) Rattach(a, c p.FID, v, w string) (p.QID, error) {
	r, err := x.do(wire.Tattach, uint32(a), uint32(c), v, w)
	if r == nil {
		return p.QID{}, err
	}
	return q(r[0].(wire.Qid)), err
}
func (x Mock) Rwalk(a, c p.FID, l []string) ([]p.QID, error) {
	r, err := x.do(wire.Twalk, uint32(a), uint32(c), strs(l))
	if r == nil {
		return nil, err
	}
	return qs(r[0].([]wire.Qid)), err
}
func (x Mock) Ropen(a p.FID, o p.Mode) (p.QID, p.MaxSize, error) {
	r, err := x.do(wire.Topen, uint32(a), uint8(o))
	if r == nil {
		return p.QID{}, 0, err
	}
	return q(r[0].(wire.Qid)), p.MaxSize(u32(r[1])), err
}
func (x Mock) Rcreate(a p.FID, n string, pe p.Perm, o p.Mode) (p.QID, p.MaxSize, error) {
	r, err := x.do(wire.Tcreate, uint32(a), n, uint32(pe), uint8(o))
	if r == nil {
		return p.QID{}, 0, err
	}
	return q(r[0].(wire.Qid)), p.MaxSize(u32(r[1])), err
}
func (x Mock) Rstat(a p.FID) ([]byte, error) {
	r, err := x.do(wire.Tstat, uint32(a))
	if r == nil {
		return nil, err
	}
	return by(r[0]), err
}

// Rwstat and Rwrite hand on their data without copying it, so that a handler
// that waits sees what becomes of it.
func (x Mock) Rwstat(a p.FID, b []byte) error {
	_, err := x.do(wire.Twstat, uint32(a), b)
	return err
}
func (x Mock) Rclunk(a p.FID) error {
	_, err := x.do(wire.Tclunk, uint32(a))
	return err
}
func (x Mock) Rremove(a p.FID) error {
	_, err := x.do(wire.Tremove, uint32(a))
	return err
}
func (x Mock) Rread(a p.FID, o p.Offset, c p.Count) ([]byte, error) {
	r, err := x.do(wire.Tread, uint32(a), uint64(o), uint32(c))
	if r == nil {
		return nil, err
	}
	return by(r[0]), err
}
func (x Mock) Rwrite(a p.FID, o p.Offset, b []byte) (p.Count, error) {
	r, err := x.do(wire.Twrite, uint32(a), uint64(o), b)
	if r == nil {
		return 0, err
	}
	return p.Count(u32(r[0])), err
}
func (x Mock) Rflush(t p.Tag) error {
	_, err := x.do(wire.Tflush, uint16(t))
	return err
}

// Ops calls the operation of a file server that belongs to a T message.
func Ops(n p.NineServer, m wire.Msg) ([]any, error) {
	f := m.F
	switch m.Type {
	case wire.Tversion:
		a, v, err := n.Rversion(p.MaxSize(u32(f[0])), s(f[1]))
		return []any{uint32(a), v}, err
	case wire.Tattach:
		x, err := n.Rattach(p.FID(u32(f[0])), p.FID(u32(f[1])), s(f[2]), s(f[3]))
		return []any{unq(x)}, err
	case wire.Tflush:
		return nil, n.Rflush(p.Tag(u16(f[0])))
	case wire.Twalk:
		l, err := n.Rwalk(p.FID(u32(f[0])), p.FID(u32(f[1])), f[2].([]string))
		return []any{unqs(l)}, err
	case wire.Topen:
		x, a, err := n.Ropen(p.FID(u32(f[0])), p.Mode(u8(f[1])))
		return []any{unq(x), uint32(a)}, err
	case wire.Tcreate:
		x, a, err := n.Rcreate(p.FID(u32(f[0])), s(f[1]), p.Perm(u32(f[2])), p.Mode(u8(f[3])))
		return []any{unq(x), uint32(a)}, err
	case wire.Tread:
		d, err := n.Rread(p.FID(u32(f[0])), p.Offset(u64(f[1])), p.Count(u32(f[2])))
		return []any{Bytes(d)}, err
	case wire.Twrite:
		c, err := n.Rwrite(p.FID(u32(f[0])), p.Offset(u64(f[1])), by(f[2]))
		return []any{uint32(c)}, err
	case wire.Tclunk:
		return nil, n.Rclunk(p.FID(u32(f[0])))
	case wire.Tremove:
		return nil, n.Rremove(p.FID(u32(f[0])))
	case wire.Tstat:
		d, err := n.Rstat(p.FID(u32(f[0])))
		return []any{Bytes(d)}, err
	case wire.Twstat:
		return nil, n.Rwstat(p.FID(u32(f[0])), by(f[1]))
	}
	panic("type")
}

// Equal compares field values; nil and empty are the same.
func Equal(a, b []any) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		switch x := a[i].(type) {
		case []byte:
			y, ok := b[i].([]byte)
			if !ok || !bytes.Equal(x, y) {
				return false
			}
		case []string:
			y, ok := b[i].([]string)
			if !ok || len(x) != len(y) {
				return false
			}
			for j := range x {
				if x[j] != y[j] {
					return false
				}
			}
		case []wire.Qid:
			y, ok := b[i].([]wire.Qid)
			if !ok || len(x) != len(y) {
				return false
			}
			for j := range x {
				if x[j] != y[j] {
					return false
				}
			}
		default:
			if !reflect.DeepEqual(a[i], b[i]) {
				return false
			}
		}
	}
	return true
}

// Catch runs f and returns its panic, if any, as an error.
func Catch(f func()) (err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("panic: %v", r)
		}
	}()
	f()
	return nil
}
