// Package vh holds the stand-ins, drivers and monitors shared by the checks.
package vh

import (
	"encoding/binary"
	"errors"
	"fmt"
	"sort"
	"strings"
)

// This file is an independent codec for the adapter's gRPC messages, written from
// template_handler_service.proto. It shares no code with the adapter.

// Req is an authorization request as Mixer would send it.
type Req struct {
	NS, Svc, Method, TPath string
	Scheme, Host, Path     string
	Cookies, Authz         string
	PErr, PCode, PState    string
	// omissions
	NoInstance, NoRequest, NoTarget, NoHeaders, NoParams bool
	Raw                                                  []byte // sent as is when not nil
}

func putTag(b []byte, num, wt int) []byte { return binary.AppendUvarint(b, uint64(num)<<3|uint64(wt)) }

// PBStr appends a string field (omitted when empty).
func PBStr(b []byte, num int, s string) []byte {
	if s == "" {
		return b
	}
	b = putTag(b, num, 2)
	b = binary.AppendUvarint(b, uint64(len(s)))
	return append(b, s...)
}

// PBMsg appends an embedded message field.
func PBMsg(b []byte, num int, m []byte) []byte {
	b = putTag(b, num, 2)
	b = binary.AppendUvarint(b, uint64(len(m)))
	return append(b, m...)
}

// Encode renders the request in protobuf wire format.
func (r *Req) Encode() []byte {
	if r.Raw != nil {
		return r.Raw
	}
	if r.NoInstance {
		return []byte{}
	}
	var inst []byte
	if !r.NoRequest {
		var rq []byte
		rq = PBStr(rq, 1, r.Scheme)
		rq = PBStr(rq, 2, r.Host)
		rq = PBStr(rq, 3, r.Path)
		if !r.NoHeaders {
			var h []byte
			h = PBStr(h, 1, r.Cookies)
			h = PBStr(h, 2, r.Authz)
			rq = PBMsg(rq, 4, h)
		}
		if !r.NoParams {
			var p []byte
			p = PBStr(p, 1, r.PErr)
			p = PBStr(p, 2, r.PCode)
			p = PBStr(p, 3, r.PState)
			rq = PBMsg(rq, 5, p)
		}
		inst = PBMsg(inst, 1, rq)
	}
	if !r.NoTarget {
		var t []byte
		t = PBStr(t, 1, r.NS)
		t = PBStr(t, 2, r.Svc)
		t = PBStr(t, 3, r.Method)
		t = PBStr(t, 4, r.TPath)
		inst = PBMsg(inst, 2, t)
	}
	inst = PBStr(inst, 72295727, "authnz.instance.vh")
	return PBMsg(nil, 1, inst)
}

// Resp is the adapter's answer.
type Resp struct {
	Err     error // gRPC error, nil if answered
	Code    int   // rpc status code in the check result
	Message string
	Direct  *Direct // direct HTTP response, if any
	NDirect int
	Authz   string // output.authorization
	Cookie  string // output.sessionCookie
	HasOut  bool
	Raw     []byte
	Reuse   string // how long or how often the answer may be applied to other requests, if at all
}

// Direct is the direct HTTP response packed in the status details.
type Direct struct {
	Code    int
	Body    string
	Headers map[string]string
}

// Allowed tells whether Mixer would let the request pass.
func (r *Resp) Allowed() bool { return r.Err == nil && r.Code == 0 && r.Direct == nil }

// Redirect tells whether the answer is a 302 and returns its location and Set-Cookie header.
func (r *Resp) Redirect() (loc, cookie string, ok bool) {
	if r.Err != nil || r.Direct == nil || r.Direct.Code != 302 {
		return "", "", false
	}
	return r.Header("location"), r.Header("Set-Cookie"), true
}

// Header returns a header of the direct response; names are case insensitive.
func (r *Resp) Header(name string) string {
	if r.Direct == nil {
		return ""
	}
	for k, v := range r.Direct.Headers {
		if strings.EqualFold(k, name) {
			return v
		}
	}
	return ""
}

// Login tells whether the answer starts a login: a redirect with a state parameter.
func (r *Resp) String() string {
	if r.Err != nil {
		return "grpc-error(" + r.Err.Error() + ")"
	}
	s := fmt.Sprintf("code=%d msg=%q", r.Code, r.Message)
	if r.Direct != nil {
		keys := []string{}
		for k := range r.Direct.Headers {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		s += fmt.Sprintf(" direct=%d body=%q", r.Direct.Code, r.Direct.Body)
		for _, k := range keys {
			s += fmt.Sprintf(" %s=%q", k, r.Direct.Headers[k])
		}
	}
	if r.HasOut {
		s += fmt.Sprintf(" authorization=%q sessionCookie=%q", r.Authz, r.Cookie)
	}
	return s
}

// Field is a decoded protobuf field.
type Field struct {
	Num   int
	WT    int
	V     uint64
	Bytes []byte
}

var errPB = errors.New("malformed protobuf")

// PBFields splits a message into its fields.
func PBFields(b []byte) ([]Field, error) {
	var out []Field
	for len(b) > 0 {
		t, n := binary.Uvarint(b)
		if n <= 0 {
			return out, errPB
		}
		b = b[n:]
		f := Field{Num: int(t >> 3), WT: int(t & 7)}
		switch f.WT {
		case 0:
			v, n := binary.Uvarint(b)
			if n <= 0 {
				return out, errPB
			}
			f.V = v
			b = b[n:]
		case 1:
			if len(b) < 8 {
				return out, errPB
			}
			f.V = binary.LittleEndian.Uint64(b)
			b = b[8:]
		case 2:
			l, n := binary.Uvarint(b)
			if n <= 0 || uint64(len(b)-n) < l {
				return out, errPB
			}
			f.Bytes = b[n : n+int(l)]
			b = b[n+int(l):]
		case 5:
			if len(b) < 4 {
				return out, errPB
			}
			f.V = uint64(binary.LittleEndian.Uint32(b))
			b = b[4:]
		default:
			return out, errPB
		}
		out = append(out, f)
	}
	return out, nil
}

// DecodeResp parses a HandleAuthnZResponse.
func DecodeResp(b []byte) (*Resp, error) {
	r := &Resp{Raw: append([]byte{}, b...)}
	top, err := PBFields(b)
	if err != nil {
		return r, err
	}
	for _, f := range top {
		switch f.Num {
		case 1: // CheckResult
			fs, err := PBFields(f.Bytes)
			if err != nil {
				return r, err
			}
			for _, g := range fs {
				switch g.Num {
				case 2: // valid_duration
					if d, err := PBFields(g.Bytes); err == nil {
						for _, x := range d {
							if x.V != 0 {
								r.Reuse += fmt.Sprintf(" valid_duration field %d is %d", x.Num, int64(x.V))
							}
						}
					}
				case 3:
					if g.V != 0 {
						r.Reuse += fmt.Sprintf(" valid_use_count %d", int32(g.V))
					}
				}
				if g.Num != 1 {
					continue
				}
				st, err := PBFields(g.Bytes)
				if err != nil {
					return r, err
				}
				for _, s := range st {
					switch s.Num {
					case 1:
						r.Code = int(int32(s.V))
					case 2:
						r.Message = string(s.Bytes)
					case 3:
						if err := r.decodeDetail(s.Bytes); err != nil {
							return r, err
						}
					}
				}
			}
		case 2:
			r.HasOut = true
			fs, err := PBFields(f.Bytes)
			if err != nil {
				return r, err
			}
			for _, g := range fs {
				switch g.Num {
				case 1:
					r.Authz = string(g.Bytes)
				case 2:
					r.Cookie = string(g.Bytes)
				}
			}
		}
	}
	return r, nil
}

func (r *Resp) decodeDetail(b []byte) error {
	fs, err := PBFields(b)
	if err != nil {
		return err
	}
	var url string
	var val []byte
	for _, f := range fs {
		if f.Num == 1 {
			url = string(f.Bytes)
		} else if f.Num == 2 {
			val = f.Bytes
		}
	}
	r.NDirect++
	if url != "type.googleapis.com/istio.policy.v1beta1.DirectHttpResponse" {
		return fmt.Errorf("unexpected detail type %q", url)
	}
	d := &Direct{Headers: map[string]string{}}
	fs, err = PBFields(val)
	if err != nil {
		return err
	}
	for _, f := range fs {
		switch f.Num {
		case 1:
			d.Code = int(f.V)
		case 2:
			d.Body = string(f.Bytes)
		case 3:
			kv, err := PBFields(f.Bytes)
			if err != nil {
				return err
			}
			var k, v string
			for _, e := range kv {
				if e.Num == 1 {
					k = string(e.Bytes)
				} else {
					v = string(e.Bytes)
				}
			}
			d.Headers[k] = v
		}
	}
	r.Direct = d
	return nil
}
