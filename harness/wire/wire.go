// Package wire is an independent reference for the 9P2000 wire format,
// written from the manual (intro(5)), not from the code under test.
package wire

import (
	"fmt"
	"strings"
)

// Qid of a file.
type Qid struct {
	Type uint8
	Vers uint32
	Path uint64
}

// Kind of a field.
type Kind int

const (
	U8 Kind = iota
	U16
	U32
	U64
	Str    // s[2]
	Names  // nwname[2] nwname*(s)
	QID    // 13 bytes
	Qids   // nwqid[2] nwqid*(qid)
	Data32 // count[4] data
	Data16 // n[2] data
)

// Field of a message.
type Field struct {
	Name string
	Kind Kind
}

// Spec of a message type.
type Spec struct {
	Name   string
	Type   uint8
	Fields []Field
}

// Message types.
const (
	Tversion = 100
	Rversion = 101
	Tauth    = 102
	Rauth    = 103
	Tattach  = 104
	Rattach  = 105
	Terror   = 106
	Rerror   = 107
	Tflush   = 108
	Rflush   = 109
	Twalk    = 110
	Rwalk    = 111
	Topen    = 112
	Ropen    = 113
	Tcreate  = 114
	Rcreate  = 115
	Tread    = 116
	Rread    = 117
	Twrite   = 118
	Rwrite   = 119
	Tclunk   = 120
	Rclunk   = 121
	Tremove  = 122
	Rremove  = 123
	Tstat    = 124
	Rstat    = 125
	Twstat   = 126
	Rwstat   = 127
)

// Specs of all messages the library implements.
var Specs = []*Spec{
	{"Tversion", Tversion, []Field{{"msize", U32}, {"version", Str}}},
	{"Rversion", Rversion, []Field{{"msize", U32}, {"version", Str}}},
	{"Tattach", Tattach, []Field{{"fid", U32}, {"afid", U32}, {"uname", Str}, {"aname", Str}}},
	{"Rattach", Rattach, []Field{{"qid", QID}}},
	{"Rerror", Rerror, []Field{{"ename", Str}}},
	{"Tflush", Tflush, []Field{{"oldtag", U16}}},
	{"Rflush", Rflush, nil},
	{"Twalk", Twalk, []Field{{"fid", U32}, {"newfid", U32}, {"wname", Names}}},
	{"Rwalk", Rwalk, []Field{{"wqid", Qids}}},
	{"Topen", Topen, []Field{{"fid", U32}, {"mode", U8}}},
	{"Ropen", Ropen, []Field{{"qid", QID}, {"iounit", U32}}},
	{"Tcreate", Tcreate, []Field{{"fid", U32}, {"name", Str}, {"perm", U32}, {"mode", U8}}},
	{"Rcreate", Rcreate, []Field{{"qid", QID}, {"iounit", U32}}},
	{"Tread", Tread, []Field{{"fid", U32}, {"offset", U64}, {"count", U32}}},
	{"Rread", Rread, []Field{{"data", Data32}}},
	{"Twrite", Twrite, []Field{{"fid", U32}, {"offset", U64}, {"data", Data32}}},
	{"Rwrite", Rwrite, []Field{{"count", U32}}},
	{"Tclunk", Tclunk, []Field{{"fid", U32}}},
	{"Rclunk", Rclunk, nil},
	{"Tremove", Tremove, []Field{{"fid", U32}}},
	{"Rremove", Rremove, nil},
	{"Tstat", Tstat, []Field{{"fid", U32}}},
	{"Rstat", Rstat, []Field{{"stat", Data16}}},
	{"Twstat", Twstat, []Field{{"fid", U32}, {"stat", Data16}}},
	{"Rwstat", Rwstat, nil},
}

// ByType finds a spec.
func ByType(t uint8) *Spec {
	for _, s := range Specs {
		if s.Type == t {
			return s
		}
	}
	return nil
}

// Msg is a message: the Go types of field values by kind are uint8, uint16,
// uint32, uint64, string, []string, Qid, []Qid, []byte, []byte.
type Msg struct {
	Type uint8
	Tag  uint16
	F    []any
}

// M makes a message.
func M(t uint8, tag uint16, f ...any) Msg { return Msg{t, tag, f} }

func (m Msg) String() string {
	s := ByType(m.Type)
	if s == nil {
		return fmt.Sprintf("type%d tag %d", m.Type, m.Tag)
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s tag %d", s.Name, m.Tag)
	for i, f := range s.Fields {
		if i < len(m.F) {
			switch v := m.F[i].(type) {
			case string:
				fmt.Fprintf(&b, " %s=%.40q", f.Name, v)
			case []byte:
				if len(v) > 24 {
					fmt.Fprintf(&b, " %s=%q...(%d)", f.Name, v[:24], len(v))
				} else {
					fmt.Fprintf(&b, " %s=%q", f.Name, v)
				}
			case []string:
				if len(v) > 6 {
					fmt.Fprintf(&b, " %s=%.20q...(%d)", f.Name, v[:6], len(v))
				} else {
					fmt.Fprintf(&b, " %s=%.40q", f.Name, v)
				}
			case []Qid:
				if len(v) > 4 {
					fmt.Fprintf(&b, " %s=%v...(%d)", f.Name, v[:4], len(v))
				} else {
					fmt.Fprintf(&b, " %s=%v", f.Name, v)
				}
			default:
				fmt.Fprintf(&b, " %s=%v", f.Name, v)
			}
		}
	}
	return b.String()
}

// Int appends the n low bytes of v, least significant first.
func Int(b []byte, v uint64, n int) []byte {
	for i := 0; i < n; i++ {
		b = append(b, byte(v>>(8*uint(i))))
	}
	return b
}

func putStr(b []byte, s string) []byte {
	b = Int(b, uint64(len(s)), 2)
	return append(b, s...)
}

func putQid(b []byte, q Qid) []byte {
	b = append(b, q.Type)
	b = Int(b, uint64(q.Vers), 4)
	return Int(b, q.Path, 8)
}

// Encode encodes a message.
func Encode(m Msg) []byte {
	s := ByType(m.Type)
	b := []byte{0, 0, 0, 0, m.Type, byte(m.Tag), byte(m.Tag >> 8)}
	if s != nil {
		if len(s.Fields) != len(m.F) {
			panic(fmt.Sprintf("%s wants %d fields, has %d", s.Name, len(s.Fields), len(m.F)))
		}
		for i := range s.Fields {
			b = PutField(b, s.Fields[i].Kind, m.F[i])
		}
	}
	copy(b, Int(nil, uint64(len(b)), 4))
	return b
}

// PutField appends one field.
func PutField(b []byte, k Kind, v any) []byte {
	switch k {
	case U8:
		return append(b, v.(uint8))
	case U16:
		return Int(b, uint64(v.(uint16)), 2)
	case U32:
		return Int(b, uint64(v.(uint32)), 4)
	case U64:
		return Int(b, v.(uint64), 8)
	case Str:
		return putStr(b, v.(string))
	case Names:
		n := v.([]string)
		b = Int(b, uint64(len(n)), 2)
		for _, s := range n {
			b = putStr(b, s)
		}
		return b
	case QID:
		return putQid(b, v.(Qid))
	case Qids:
		n := v.([]Qid)
		b = Int(b, uint64(len(n)), 2)
		for _, q := range n {
			b = putQid(b, q)
		}
		return b
	case Data32:
		d := v.([]byte)
		return append(Int(b, uint64(len(d)), 4), d...)
	case Data16:
		d := v.([]byte)
		return append(Int(b, uint64(len(d)), 2), d...)
	}
	panic("kind")
}

type rd struct {
	b   []byte
	bad bool
}

func (r *rd) n(n int) []byte {
	if n < 0 || len(r.b) < n {
		r.bad = true
		r.b = nil
		return make([]byte, 8)
	}
	v := r.b[:n]
	r.b = r.b[n:]
	return v
}

func (r *rd) i(n int) uint64 {
	var v uint64
	for i, x := range r.n(n) {
		if i < n {
			v |= uint64(x) << (8 * uint(i))
		}
	}
	if r.bad {
		return 0
	}
	return v
}

func (r *rd) s() string {
	n := int(r.i(2))
	if r.bad || len(r.b) < n {
		r.bad = true
		return ""
	}
	return string(r.n(n))
}

func (r *rd) d(w int) []byte {
	n := r.i(w)
	if r.bad || uint64(len(r.b)) < n {
		r.bad = true
		return nil
	}
	return append([]byte{}, r.n(int(n))...)
}

func (r *rd) q() Qid { return Qid{uint8(r.i(1)), uint32(r.i(4)), r.i(8)} }

// DecodeBody decodes the part of a message after size and type (tag and
// fields), strictly.
func DecodeBody(t uint8, body []byte) (Msg, error) {
	s := ByType(t)
	if s == nil {
		return Msg{}, fmt.Errorf("unknown type %d", t)
	}
	r := &rd{b: body}
	m := Msg{Type: t, Tag: uint16(r.i(2))}
	for _, f := range s.Fields {
		switch f.Kind {
		case U8:
			m.F = append(m.F, uint8(r.i(1)))
		case U16:
			m.F = append(m.F, uint16(r.i(2)))
		case U32:
			m.F = append(m.F, uint32(r.i(4)))
		case U64:
			m.F = append(m.F, r.i(8))
		case Str:
			m.F = append(m.F, r.s())
		case Names:
			n := int(r.i(2))
			l := []string{}
			for i := 0; i < n && !r.bad; i++ {
				l = append(l, r.s())
			}
			m.F = append(m.F, l)
		case QID:
			m.F = append(m.F, r.q())
		case Qids:
			n := int(r.i(2))
			l := []Qid{}
			for i := 0; i < n && !r.bad; i++ {
				l = append(l, r.q())
			}
			m.F = append(m.F, l)
		case Data32:
			m.F = append(m.F, r.d(4))
		case Data16:
			m.F = append(m.F, r.d(2))
		}
	}
	if r.bad {
		return Msg{}, fmt.Errorf("%s: too short", s.Name)
	}
	if len(r.b) > 0 {
		return Msg{}, fmt.Errorf("%s: %d bytes too long", s.Name, len(r.b))
	}
	return m, nil
}

// Decode decodes a whole message, strictly.
func Decode(b []byte) (Msg, error) {
	if len(b) < 7 {
		return Msg{}, fmt.Errorf("message of %d bytes", len(b))
	}
	if n := int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24; n != len(b) {
		return Msg{}, fmt.Errorf("size %d, have %d bytes", n, len(b))
	}
	return DecodeBody(b[4], b[5:])
}

// Split splits a stream into complete messages and the rest.
func Split(b []byte) (msgs [][]byte, rest []byte) {
	for len(b) >= 4 {
		n := int(b[0]) | int(b[1])<<8 | int(b[2])<<16 | int(b[3])<<24
		if n < 7 || n > len(b) {
			break
		}
		msgs = append(msgs, b[:n])
		b = b[n:]
	}
	return msgs, b
}

// Dir is a stat record.
type Dir struct {
	Type   uint16
	Dev    uint32
	Qid    Qid
	Mode   uint32
	Atime  uint32
	Mtime  uint32
	Length uint64
	Name   string
	Uid    string
	Gid    string
	Muid   string
}

// EncodeDir encodes a stat record with its leading size.
func EncodeDir(d Dir) []byte {
	b := Int(nil, uint64(d.Type), 2)
	b = Int(b, uint64(d.Dev), 4)
	b = putQid(b, d.Qid)
	b = Int(b, uint64(d.Mode), 4)
	b = Int(b, uint64(d.Atime), 4)
	b = Int(b, uint64(d.Mtime), 4)
	b = Int(b, d.Length, 8)
	b = putStr(b, d.Name)
	b = putStr(b, d.Uid)
	b = putStr(b, d.Gid)
	b = putStr(b, d.Muid)
	return append(Int(nil, uint64(len(b)), 2), b...)
}

// DecodeDir decodes one stat record strictly and returns the rest.
func DecodeDir(b []byte) (Dir, []byte, error) {
	r := &rd{b: b}
	n := int(r.i(2))
	if r.bad || len(r.b) < n {
		return Dir{}, nil, fmt.Errorf("stat record too short")
	}
	rest := r.b[n:]
	r.b = r.b[:n]
	d := Dir{Type: uint16(r.i(2)), Dev: uint32(r.i(4)), Qid: r.q(), Mode: uint32(r.i(4)), Atime: uint32(r.i(4)),
		Mtime: uint32(r.i(4)), Length: r.i(8), Name: r.s(), Uid: r.s(), Gid: r.s(), Muid: r.s()}
	if r.bad || len(r.b) != 0 {
		return Dir{}, nil, fmt.Errorf("stat record malformed")
	}
	return d, rest, nil
}

// DontTouch is a wstat record that asks for nothing.
func DontTouch() Dir {
	return Dir{Type: 0xffff, Dev: 0xffffffff, Qid: Qid{0xff, 0xffffffff, 0xffffffffffffffff}, Mode: 0xffffffff,
		Atime: 0xffffffff, Mtime: 0xffffffff, Length: 0xffffffffffffffff}
}
