// c23 runs the check of the adapter's request and response messages.
package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/binary"
	"flag"
	"fmt"
	"io"
	"math"
	"math/rand"
	"net"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/harness/vh"

	rpc "github.com/gogo/googleapis/google/rpc"
	"github.com/gogo/protobuf/proto"
	"github.com/gogo/protobuf/protoc-gen-gogo/descriptor"
	"github.com/gogo/protobuf/types"
	authnz "github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
	"google.golang.org/grpc"
	"google.golang.org/grpc/grpclog"
	"istio.io/api/mixer/adapter/model/v1beta1"
	policy "istio.io/api/policy/v1beta1"
)

// ---- the schema, written from template_handler_service.proto

type kind int

const (
	kStr      kind = iota
	kMsg           // a message of this schema
	kExt           // a message defined elsewhere
	kMapValue      // map<string, Value>
	kMapStr        // map<string, string>
	kMapEnum       // map<string, ValueType>
)

type field struct {
	num  int
	name string // Go name
	kind kind
	sub  string
}

type schema struct {
	name   string
	make   func() message
	fields []field
}

type message interface {
	proto.Message
	Marshal() ([]byte, error)
	MarshalTo([]byte) (int, error)
	Unmarshal([]byte) error
	Size() int
	Descriptor() ([]byte, []int)
	XXX_Marshal([]byte, bool) ([]byte, error)
	XXX_Unmarshal([]byte) error
	XXX_Size() int
}

func target(m kind) []field {
	return []field{{1, "Namespace", kStr, ""}, {2, "Service", kStr, ""}, {3, "Method", kStr, ""}, {4, "Path", kStr, ""}, {5, "Properties", m, ""}}
}
func headers(m kind) []field {
	return []field{{1, "Cookies", kStr, ""}, {2, "Authorization", kStr, ""}, {3, "Properties", m, ""}}
}
func params(m kind) []field {
	return []field{{1, "Error", kStr, ""}, {2, "Code", kStr, ""}, {3, "State", kStr, ""}, {4, "Properties", m, ""}}
}
func request(m kind, h, q string) []field {
	return []field{{1, "Scheme", kStr, ""}, {2, "Host", kStr, ""}, {3, "Path", kStr, ""}, {4, "Headers", kMsg, h}, {5, "Params", kMsg, q}, {6, "Properties", m, ""}}
}

var schemas = []*schema{
	{"HandleAuthnZRequest", func() message { return &authnz.HandleAuthnZRequest{} }, []field{{1, "Instance", kMsg, "InstanceMsg"}, {2, "AdapterConfig", kExt, ""}, {3, "DedupId", kStr, ""}}},
	{"HandleAuthnZResponse", func() message { return &authnz.HandleAuthnZResponse{} }, []field{{1, "Result", kExt, ""}, {2, "Output", kMsg, "OutputMsg"}}},
	{"OutputMsg", func() message { return &authnz.OutputMsg{} }, []field{{1, "Authorization", kStr, ""}, {2, "SessionCookie", kStr, ""}}},
	{"InstanceMsg", func() message { return &authnz.InstanceMsg{} }, []field{{72295727, "Name", kStr, ""}, {1, "Request", kMsg, "RequestMsg"}, {2, "Target", kMsg, "TargetMsg"}}},
	{"TargetMsg", func() message { return &authnz.TargetMsg{} }, target(kMapValue)},
	{"HeadersMsg", func() message { return &authnz.HeadersMsg{} }, headers(kMapValue)},
	{"QueryParamsMsg", func() message { return &authnz.QueryParamsMsg{} }, params(kMapValue)},
	{"RequestMsg", func() message { return &authnz.RequestMsg{} }, request(kMapValue, "HeadersMsg", "QueryParamsMsg")},
	{"Type", func() message { return &authnz.Type{} }, []field{{1, "Request", kMsg, "RequestType"}, {2, "Target", kMsg, "TargetType"}}},
	{"TargetType", func() message { return &authnz.TargetType{} }, []field{{5, "Properties", kMapEnum, ""}}},
	{"HeadersType", func() message { return &authnz.HeadersType{} }, []field{{3, "Properties", kMapEnum, ""}}},
	{"QueryParamsType", func() message { return &authnz.QueryParamsType{} }, []field{{4, "Properties", kMapEnum, ""}}},
	{"RequestType", func() message { return &authnz.RequestType{} }, []field{{4, "Headers", kMsg, "HeadersType"}, {5, "Params", kMsg, "QueryParamsType"}, {6, "Properties", kMapEnum, ""}}},
	{"InstanceParam", func() message { return &authnz.InstanceParam{} }, []field{{1, "Request", kMsg, "RequestInstanceParam"}, {2, "Target", kMsg, "TargetInstanceParam"}}},
	{"TargetInstanceParam", func() message { return &authnz.TargetInstanceParam{} }, target(kMapStr)},
	{"HeadersInstanceParam", func() message { return &authnz.HeadersInstanceParam{} }, headers(kMapStr)},
	{"QueryParamsInstanceParam", func() message { return &authnz.QueryParamsInstanceParam{} }, params(kMapStr)},
	{"RequestInstanceParam", func() message { return &authnz.RequestInstanceParam{} }, request(kMapStr, "HeadersInstanceParam", "QueryParamsInstanceParam")},
}

var byName = map[string]*schema{}

func init() {
	for _, s := range schemas {
		byName[s.name] = s
	}
}

// ---- values

// model is a message as field name -> string, model, or map. Absent fields are left out.
// Values of types defined elsewhere are kept as their canonical encoding, "" standing for a missing map value.
type model map[string]interface{}

type enc string // canonical encoding of a value of another package

var texts = []string{"", "a", "/path/x?y=%20", "Bearer eyJ.abc.def eyJ", "\u00e9\u4e16\U0001F600", "line\nbreak\x00nul", "<&>\"'", "*"}

func text(rnd *rand.Rand) string {
	switch rnd.Intn(8) {
	case 0:
		// lengths around the sizes at which a length prefix grows
		n := []int{1, 126, 127, 128, 129, 255, 256, 16382, 16383, 16384, 16385, 70000}[rnd.Intn(12)]
		if n > 300 && rnd.Intn(4) > 0 {
			n = 127 + rnd.Intn(3)
		}
		return strings.Repeat(string(rune('a'+rnd.Intn(26))), n)
	case 1:
		b := make([]byte, rnd.Intn(40))
		rnd.Read(b)
		return string(b) // not UTF-8, as the wire may carry
	case 2, 3:
		return fmt.Sprintf("v%d", rnd.Intn(100000))
	}
	return texts[rnd.Intn(len(texts))]
}

func value(rnd *rand.Rand) *policy.Value {
	switch rnd.Intn(10) {
	case 0:
		return &policy.Value{}
	case 1:
		return &policy.Value{Value: &policy.Value_StringValue{StringValue: text(rnd)}}
	case 2:
		return &policy.Value{Value: &policy.Value_Int64Value{Int64Value: rnd.Int63() - rnd.Int63()}}
	case 3:
		return &policy.Value{Value: &policy.Value_DoubleValue{DoubleValue: rnd.NormFloat64()}}
	case 4:
		return &policy.Value{Value: &policy.Value_BoolValue{BoolValue: rnd.Intn(2) == 0}}
	case 5:
		return &policy.Value{Value: &policy.Value_IpAddressValue{IpAddressValue: &policy.IPAddress{Value: []byte(text(rnd))}}}
	case 6:
		return &policy.Value{Value: &policy.Value_TimestampValue{TimestampValue: &policy.TimeStamp{Value: &types.Timestamp{Seconds: rnd.Int63n(1e10), Nanos: rnd.Int31n(1e9)}}}}
	case 7:
		return &policy.Value{Value: &policy.Value_DurationValue{DurationValue: &policy.Duration{Value: &types.Duration{Seconds: rnd.Int63n(1e6)}}}}
	case 8:
		return &policy.Value{Value: &policy.Value_EmailAddressValue{EmailAddressValue: &policy.EmailAddress{Value: text(rnd)}}}
	}
	return &policy.Value{Value: &policy.Value_UriValue{UriValue: &policy.Uri{Value: text(rnd)}}}
}

func must(b []byte, err error) enc {
	if err != nil {
		panic(err)
	}
	return "+" + enc(b)
}

// gen generates a message: the model and the Go value standing for it.
func gen(rnd *rand.Rand, s *schema) (model, message) {
	m, out := model{}, s.make()
	v := reflect.ValueOf(out).Elem()
	for _, f := range s.fields {
		if rnd.Intn(4) == 0 {
			continue
		}
		fv := v.FieldByName(f.name)
		switch f.kind {
		case kStr:
			if t := text(rnd); t != "" {
				m[f.name] = t
				fv.SetString(t)
			}
		case kMsg:
			sub, sv := gen(rnd, byName[f.sub])
			m[f.name] = sub
			fv.Set(reflect.ValueOf(sv))
		case kExt:
			if f.name == "AdapterConfig" {
				a := &types.Any{TypeUrl: text(rnd), Value: []byte(text(rnd))}
				fv.Set(reflect.ValueOf(a))
				m[f.name] = must(a.Marshal())
			} else {
				c := &v1beta1.CheckResult{Status: rpc.Status{Code: rnd.Int31n(20), Message: text(rnd)}, ValidDuration: time.Duration(rnd.Int63n(1e12)), ValidUseCount: rnd.Int31()}
				for n := rnd.Intn(3); n > 0; n-- {
					c.Status.Details = append(c.Status.Details, &types.Any{TypeUrl: text(rnd), Value: []byte(text(rnd))})
				}
				fv.Set(reflect.ValueOf(c))
				m[f.name] = must(c.Marshal())
			}
		default:
			n := rnd.Intn(5)
			if n == 0 {
				continue
			}
			mm := map[string]interface{}{}
			fv.Set(reflect.MakeMap(fv.Type()))
			for ; n > 0; n-- {
				k := text(rnd)
				var e reflect.Value
				switch f.kind {
				case kMapStr:
					t := text(rnd)
					mm[k], e = t, reflect.ValueOf(t)
				case kMapEnum:
					t := policy.ValueType(rnd.Intn(12))
					if rnd.Intn(5) == 0 {
						t = policy.ValueType([]int32{127, 128, 16384, math.MaxInt32, -1, math.MinInt32}[rnd.Intn(6)])
					}
					mm[k], e = int32(t), reflect.ValueOf(t)
				case kMapValue:
					if rnd.Intn(8) == 0 {
						mm[k], e = enc(""), reflect.Zero(fv.Type().Elem())
					} else {
						t := value(rnd)
						mm[k], e = must(t.Marshal()), reflect.ValueOf(t)
					}
				}
				fv.SetMapIndex(reflect.ValueOf(k), e)
			}
			m[f.name] = mm
		}
	}
	return m, out
}

// view reads a Go message into a model.
func view(s *schema, msg interface{}) model {
	m := model{}
	v := reflect.ValueOf(msg).Elem()
	for _, f := range s.fields {
		fv := v.FieldByName(f.name)
		switch f.kind {
		case kStr:
			if t := fv.String(); t != "" {
				m[f.name] = t
			}
		case kMsg:
			if !fv.IsNil() {
				m[f.name] = view(byName[f.sub], fv.Interface())
			}
		case kExt:
			if !fv.IsNil() {
				m[f.name] = must(fv.Interface().(message).Marshal())
			}
		default:
			if fv.Len() == 0 {
				continue
			}
			mm := map[string]interface{}{}
			for _, k := range fv.MapKeys() {
				e := fv.MapIndex(k)
				switch f.kind {
				case kMapStr:
					mm[k.String()] = e.String()
				case kMapEnum:
					mm[k.String()] = int32(e.Int())
				case kMapValue:
					if e.IsNil() {
						mm[k.String()] = enc("")
					} else {
						mm[k.String()] = must(e.Interface().(message).Marshal())
					}
				}
			}
			m[f.name] = mm
		}
	}
	return m
}

// ---- reference encoder

func lenField(num int, b []byte) []byte { return vh.PBMsg(nil, num, b) }

// unknown fields every decoder has to skip
func junk(rnd *rand.Rand) []byte {
	num := uint64(100 + rnd.Intn(3000))
	switch rnd.Intn(5) {
	case 0:
		return binary.AppendUvarint(binary.AppendUvarint(nil, num<<3), rnd.Uint64())
	case 1:
		return append(binary.AppendUvarint(nil, num<<3|1), make([]byte, 8)...)
	case 2:
		return lenField(int(num), []byte(text(rnd)))
	case 3:
		b := binary.AppendUvarint(nil, num<<3|3)
		for n := rnd.Intn(4); n > 0; n-- {
			b = append(b, junk(rnd)...)
		}
		return binary.AppendUvarint(b, num<<3|4)
	}
	return append(binary.AppendUvarint(nil, num<<3|5), 1, 2, 3, 4)
}

func entry(rnd *rand.Rand, wild bool, k string, v interface{}) []byte {
	var parts [][]byte
	if k != "" || rnd.Intn(2) == 0 {
		parts = append(parts, lenField(1, []byte(k)))
	}
	switch v := v.(type) {
	case string:
		if v != "" || rnd.Intn(2) == 0 {
			parts = append(parts, lenField(2, []byte(v)))
		}
	case int32:
		if v != 0 || rnd.Intn(2) == 0 {
			parts = append(parts, binary.AppendUvarint([]byte{0x10}, uint64(int64(v))))
		}
	case enc:
		if v != "" {
			parts = append(parts, lenField(2, []byte(v[1:])))
		}
	}
	if wild && rnd.Intn(4) == 0 {
		parts = append(parts, junk(rnd))
	}
	if wild {
		rnd.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	return bytes.Join(parts, nil)
}

// encode renders a model; wild encodings use any field order, split messages, overwritten values and unknown fields.
func encode(rnd *rand.Rand, wild bool, s *schema, m model) []byte {
	var parts [][]byte
	add := func(p []byte) { parts = append(parts, p) }
	for _, f := range s.fields {
		v, ok := m[f.name]
		if !ok {
			continue
		}
		switch f.kind {
		case kStr:
			p := lenField(f.num, []byte(v.(string)))
			if wild && rnd.Intn(6) == 0 { // the last one counts
				p = append(lenField(f.num, []byte("old"+text(rnd))), p...)
			}
			add(p)
		case kMsg:
			sub := v.(model)
			if wild && rnd.Intn(4) == 0 { // two parts of one message
				a, b := model{}, model{}
				for k, x := range sub {
					if rnd.Intn(2) == 0 {
						a[k] = x
					} else {
						b[k] = x
					}
				}
				add(lenField(f.num, encode(rnd, wild, byName[f.sub], a)))
				add(lenField(f.num, encode(rnd, wild, byName[f.sub], b)))
			} else {
				add(lenField(f.num, encode(rnd, wild, byName[f.sub], sub)))
			}
		case kExt:
			add(lenField(f.num, []byte(v.(enc)[1:])))
		default:
			mm := v.(map[string]interface{})
			var keys []string
			for k := range mm {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				p := lenField(f.num, entry(rnd, wild, k, mm[k]))
				if wild && rnd.Intn(6) == 0 {
					p = append(lenField(f.num, entry(rnd, false, k, map[kind]interface{}{kMapStr: "old", kMapEnum: int32(5), kMapValue: must((&policy.Value{Value: &policy.Value_BoolValue{BoolValue: true}}).Marshal())}[f.kind])), p...)
				}
				add(p)
			}
		}
	}
	if wild {
		for rnd.Intn(3) == 0 {
			add(junk(rnd))
		}
		rnd.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
	}
	return bytes.Join(parts, nil)
}

// ---- reference decoder. It answers definitely good, definitely bad, or does not say.

type verdict int

const (
	goodV verdict = iota
	bad
	unsure
)

func worse(a, b verdict) verdict {
	if a == bad || b == bad {
		return bad
	}
	if a == unsure || b == unsure {
		return unsure
	}
	return goodV
}

// split cuts a message into fields; groups are reported with their wire type only.
func split(b []byte) (out []vh.Field, res verdict) {
	for len(b) > 0 {
		t, n := binary.Uvarint(b)
		if n == 0 {
			return out, bad // cut short
		}
		if n < 0 || n > 5 || t>>3 > 1<<29-1 {
			return out, unsure
		}
		if t>>3 == 0 {
			return out, bad
		}
		b = b[n:]
		f := vh.Field{Num: int(t >> 3), WT: int(t & 7)}
		switch f.WT {
		case 0:
			v, n := binary.Uvarint(b)
			if n == 0 {
				return out, bad
			}
			if n < 0 {
				return out, unsure
			}
			f.V = v
			b = b[n:]
		case 1, 5:
			w := map[int]int{1: 8, 5: 4}[f.WT]
			if len(b) < w {
				return out, bad
			}
			b = b[w:]
		case 2:
			l, n := binary.Uvarint(b)
			if n == 0 || n > 0 && uint64(len(b)-n) < l {
				return out, bad
			}
			if n < 0 {
				return out, unsure
			}
			f.Bytes = b[n : n+int(l)]
			b = b[n+int(l):]
		default:
			return out, unsure
		}
		out = append(out, f)
	}
	return out, goodV
}

func canon(m message, b []byte) (enc, verdict) {
	if err := m.Unmarshal(b); err != nil {
		return "", bad
	}
	return must(m.Marshal()), goodV
}

// decode reads bytes into m and says whether they are a message. When a part is not, the rest is not judged.
func decode(s *schema, b []byte, m model) verdict {
	fs, res := split(b)
	ext := map[string][]byte{}
	for _, f := range fs {
		var d *field
		for i := range s.fields {
			if s.fields[i].num == f.Num {
				d = &s.fields[i]
			}
		}
		if d == nil {
			continue
		}
		if f.WT != 2 {
			return worse(res, bad)
		}
		switch d.kind {
		case kStr:
			delete(m, d.name)
			if len(f.Bytes) > 0 {
				m[d.name] = string(f.Bytes)
			}
		case kMsg:
			sub, _ := m[d.name].(model)
			if sub == nil {
				sub = model{}
				m[d.name] = sub
			}
			if r := decode(byName[d.sub], f.Bytes, sub); r != goodV {
				return worse(res, r)
			}
		case kExt:
			ext[d.name] = append(ext[d.name], f.Bytes...)
			var x message = &types.Any{}
			if d.name == "Result" {
				x = &v1beta1.CheckResult{}
			}
			e, r := canon(x, ext[d.name])
			if r != goodV {
				return worse(res, r)
			}
			m[d.name] = e
		default:
			es, r := split(f.Bytes)
			if r != goodV {
				// an entry whose parts reach into the bytes after it is not judged
				return worse(res, unsure)
			}
			k := ""
			var v interface{}
			switch d.kind {
			case kMapStr:
				v = ""
			case kMapEnum:
				v = int32(0)
			default:
				v = enc("")
			}
			seen := map[int]bool{}
			for _, e := range es {
				if e.Num > 2 {
					continue
				}
				if seen[e.Num] { // no encoder gives the key or value of an entry twice
					return worse(res, unsure)
				}
				seen[e.Num] = true
				if e.Num == 1 && e.WT != 2 || e.Num == 2 && (e.WT == 0) != (d.kind == kMapEnum) || e.Num == 2 && e.WT != 0 && e.WT != 2 {
					return worse(res, unsure)
				}
				if e.Num == 1 {
					k = string(e.Bytes)
					continue
				}
				switch d.kind {
				case kMapStr:
					v = string(e.Bytes)
				case kMapEnum:
					v = int32(e.V)
				default:
					c, r := canon(&policy.Value{}, e.Bytes)
					if r != goodV {
						return worse(res, r)
					}
					v = c
				}
			}
			mm, _ := m[d.name].(map[string]interface{})
			if mm == nil {
				mm = map[string]interface{}{}
				m[d.name] = mm
			}
			mm[k] = v
		}
	}
	return res
}

// ---- monitors

func diff(a, b model) string {
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return k + " is lost"
		}
		if !reflect.DeepEqual(v, w) {
			if x, ok := v.(model); ok {
				return k + "." + diff(x, w.(model))
			}
			return fmt.Sprintf("%s: %.80q instead of %.80q", k, fmt.Sprint(w), fmt.Sprint(v))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			return k + " is new"
		}
	}
	return ""
}

// safely runs f and reports a panic as an error text.
func safely(f func() error) (err error, crash string) {
	defer func() {
		if x := recover(); x != nil {
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			crash = fmt.Sprintf("%v\n%s", x, buf)
		}
	}()
	return f(), ""
}

type checker struct {
	r  *vh.Report
	mu sync.Mutex
}

func (c *checker) fail(what string, witness interface{}) { c.r.Violation(what, witness) }

func (c *checker) trip(rnd *rand.Rand, s *schema) {
	m, msg := gen(rnd, s)
	var b []byte
	err, crash := safely(func() (err error) { b, err = msg.Marshal(); return })
	if err != nil || crash != "" {
		c.fail(fmt.Sprintf("%s cannot be encoded: %v %s", s.name, err, crash), fmt.Sprintf("%.2000q", fmt.Sprint(m)))
		return
	}
	c.r.Case(fmt.Sprintf("%s/%x", s.name, b), len(b) > 0)
	w := func() interface{} { return fmt.Sprintf("%s %x", s.name, clip(b)) }
	if len(b) < 300 {
		c.r.Sample("message", w())
	}
	if d := diff(m, view(s, msg)); d != "" {
		c.fail(s.name+": encoding changed the message: "+d, w())
	}
	if n := msg.Size(); n != len(b) {
		c.fail(fmt.Sprintf("%s: announces %d bytes and encodes to %d", s.name, n, len(b)), w())
	}
	if n := msg.XXX_Size(); n != len(b) {
		c.fail(fmt.Sprintf("%s: XXX_Size announces %d bytes and encodes to %d", s.name, n, len(b)), w())
	}
	c.r.Max("message_bytes_max", len(b))
	// what another implementation reads from it
	got := model{}
	if v := decode(s, b, got); v != goodV {
		c.fail(s.name+": the encoding is not a valid message", w())
	} else if d := diff(m, got); d != "" {
		c.fail(s.name+": another reader sees a different message: "+d, w())
	}
	// into a larger buffer, nothing else written
	big := bytes.Repeat([]byte{0xa5}, len(b)+64)
	var n int
	err, crash = safely(func() (err error) { n, err = msg.MarshalTo(big); return })
	if err != nil || crash != "" || n != len(b) || !bytes.Equal(big[n:], bytes.Repeat([]byte{0xa5}, 64)) {
		c.fail(fmt.Sprintf("%s: MarshalTo wrote %d of %d bytes: %v %s", s.name, n, len(b), err, crash), w())
	} else {
		c.read(s, "MarshalTo", big[:n], m, w)
	}
	c.read(s, "Marshal", b, m, w)
	var pb []byte
	if err, crash := safely(func() (err error) { pb, err = proto.Marshal(msg); return }); err != nil || crash != "" {
		c.fail(fmt.Sprintf("%s: proto.Marshal: %v %s", s.name, err, crash), w())
	} else {
		c.read(s, "proto.Marshal", pb, m, w)
	}
	// what another implementation writes
	c.read(s, "plain reference encoding", encode(rnd, false, s, m), m, w)
	c.wild(rnd, s, m, w)
	// messages that are reused or merged
	if rnd.Intn(3) == 0 {
		old := s.make()
		_, o2 := gen(rnd, s)
		if ob, err := o2.Marshal(); err == nil {
			if err := old.Unmarshal(ob); err == nil {
				old.Reset()
				if d := diff(model{}, view(s, old)); d != "" {
					c.fail(s.name+": not empty after Reset: "+d, w())
				}
				if err := proto.Unmarshal(ob, old); err == nil {
					err, crash := safely(func() error { return proto.Unmarshal(b, old) })
					if err != nil || crash != "" {
						c.fail(fmt.Sprintf("%s: proto.Unmarshal: %v %s", s.name, err, crash), w())
					} else if d := diff(m, view(s, old)); d != "" {
						c.fail(s.name+": a reused message differs: "+d, w())
					}
				}
			}
		}
		c.r.Count("reused", 1)
	}
	if rnd.Intn(3) == 0 {
		var t1, t2 string
		if _, crash := safely(func() error { t1, t2 = fmt.Sprint(msg), fmt.Sprint(msg); return nil }); crash != "" || t1 != t2 {
			c.fail(s.name+": no stable text form: "+crash, w())
		}
	}
}

// wild reads an unusual but valid encoding, shuffles of split parts included. Parts of one map key are
// never shuffled apart from each other, so the model stays the truth.
func (c *checker) wild(rnd *rand.Rand, s *schema, m model, w func() interface{}) {
	b := encode(rnd, true, s, m)
	ref := model{}
	if v := decode(s, b, ref); v == goodV {
		if d := diff(m, ref); d != "" {
			c.r.Count("wild_reference_differs", 1) // nil next to missing map values
			return
		}
	}
	c.r.Count("unusual_encodings", 1)
	c.read(s, "unusual encoding", b, m, func() interface{} { return fmt.Sprintf("%s %x", s.name, clip(b)) })
}

func (c *checker) read(s *schema, how string, b []byte, want model, w func() interface{}) {
	msg := s.make()
	err, crash := safely(func() error { return msg.Unmarshal(b) })
	if err != nil || crash != "" {
		c.fail(fmt.Sprintf("%s: %s is not read back: %v %s", s.name, how, err, crash), w())
		return
	}
	if d := diff(want, view(s, msg)); d != "" {
		c.fail(fmt.Sprintf("%s: %s is read back changed: %s", s.name, how, d), w())
	}
	c.r.Count("trips", 1)
}

func clip(b []byte) []byte {
	if len(b) > 4000 {
		return b[:4000]
	}
	return b
}

// hostile decodes bytes that need not be a message.
func (c *checker) hostile(s *schema, b []byte, how string) {
	w := func() interface{} { return fmt.Sprintf("%s %s %x", s.name, how, clip(b)) }
	in := append(make([]byte, 0, len(b)), b...)
	msg := s.make()
	var err error
	var crash string
	start := time.Now()
	err, crash = safely(func() error { return msg.Unmarshal(in) })
	took := time.Since(start)
	c.r.Case(fmt.Sprintf("h%s/%x", s.name, b), true)
	c.r.Count("hostile_"+how, 1)
	if crash != "" {
		c.fail(s.name+": decoding crashes: "+crash, w())
		return
	}
	if took > 20*time.Second {
		c.fail(fmt.Sprintf("%s: decoding %d bytes took %v", s.name, len(b), took), w())
	}
	if !bytes.Equal(in, b) {
		c.fail(s.name+": decoding changed its input", w())
	}
	ref := model{}
	switch v := decode(s, b, ref); {
	case v == goodV && err != nil:
		c.fail(s.name+": a valid message is refused: "+err.Error(), w())
		return
	case v == bad && err == nil:
		c.fail(s.name+": damaged bytes are taken for a message", w())
		return
	case v == goodV:
		c.r.Count("hostile_valid", 1)
		if d := diff(ref, view(s, msg)); d != "" {
			c.fail(s.name+": arbitrary bytes are read wrongly: "+d, w())
			return
		}
	case v == bad:
		c.r.Count("hostile_invalid", 1)
	}
	if err != nil {
		return
	}
	// what was read can be written and read again
	m := view(s, msg)
	var out []byte
	err, crash = safely(func() (err error) { out, err = msg.Marshal(); return })
	if err != nil || crash != "" {
		c.fail(fmt.Sprintf("%s: a decoded message cannot be encoded: %v %s", s.name, err, crash), w())
		return
	}
	c.read(s, "re-encoded message", out, m, w)
}

var edges = [][]byte{
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01},
	{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01},
	{0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x80, 0x01},
	{0xff, 0xff, 0xff, 0xff, 0x07}, {0x80, 0x80, 0x80, 0x80, 0x08}, {0xff, 0xff, 0xff, 0xff, 0x0f}, {0x80}, {0xff, 0x7f}, {0x00},
}

func edge(rnd *rand.Rand) []byte {
	if rnd.Intn(2) == 0 {
		return edges[rnd.Intn(len(edges))]
	}
	// lengths that overflow only together with the position they are added to
	return binary.AppendUvarint(nil, uint64(math.MaxInt64)-uint64(rnd.Intn(96)))
}

// craft nests a damaged piece below the fields of the schema, with enclosing lengths that fit.
func craft(rnd *rand.Rand, s *schema) []byte {
	f := s.fields[rnd.Intn(len(s.fields))]
	pre := []byte{}
	for rnd.Intn(3) == 0 {
		pre = append(pre, junk(rnd)...)
	}
	if f.kind == kMsg && rnd.Intn(4) > 0 {
		return append(pre, lenField(f.num, craft(rnd, byName[f.sub]))...)
	}
	if f.kind >= kMapValue && rnd.Intn(4) > 0 {
		var in []byte
		for rnd.Intn(2) == 0 {
			in = append(in, entry(rnd, true, text(rnd), "x")...)
		}
		if rnd.Intn(2) == 0 { // an unknown field of the entry
			in = binary.AppendUvarint(in, uint64(3+rnd.Intn(40))<<3|uint64(rnd.Intn(8)))
		} else {
			in = binary.AppendUvarint(in, uint64(1+rnd.Intn(2))<<3|uint64(rnd.Intn(8)))
		}
		in = append(in, edge(rnd)...)
		return append(pre, lenField(f.num, in)...)
	}
	num := uint64(f.num)
	if rnd.Intn(2) == 0 {
		num = uint64(rnd.Intn(200))
	}
	pre = binary.AppendUvarint(pre, num<<3|uint64(rnd.Intn(8)))
	return append(pre, edge(rnd)...)
}

func damage(rnd *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + rnd.Intn(3); n > 0; n-- {
		if len(b) == 0 {
			return edge(rnd)
		}
		i := rnd.Intn(len(b))
		switch rnd.Intn(6) {
		case 0:
			b[i] ^= 1 << uint(rnd.Intn(8))
		case 1:
			b[i] = byte(rnd.Intn(256))
		case 2:
			b = append(b[:i:i], append(append([]byte{}, edge(rnd)...), b[i:]...)...)
		case 3:
			b = append(b[:i:i], append(append([]byte{}, edge(rnd)...), b[i+1:]...)...)
		case 4:
			j := i + rnd.Intn(len(b)-i)
			b = append(b[:i:i], b[j:]...)
		case 5:
			j := i + rnd.Intn(len(b)-i)
			b = append(b, b[i:j]...)
		}
	}
	return b
}

func (c *checker) codec(workers, n int) {
	var wg sync.WaitGroup
	for k := 0; k < workers; k++ {
		rnd := c.r.Rand(fmt.Sprint("codec", k))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n && !c.r.TooMany(); i++ {
				if _, crash := safely(func() error { c.round(rnd, i); return nil }); crash != "" {
					if !strings.Contains(crash, "config/template") {
						panic(crash)
					}
					c.fail("handling a message crashes: "+clip1(crash), crash)
				}
			}
		}()
	}
	wg.Wait()
}

// round sends one message around and what can be made of it.
func (c *checker) round(rnd *rand.Rand, i int) {
	s := schemas[rnd.Intn(len(schemas))]
	c.trip(rnd, s)
	_, msg := gen(rnd, s)
	b, err := msg.Marshal()
	if err != nil || len(b) > 3000 {
		return
	}
	c.hostile(s, damage(rnd, b), "damaged")
	c.hostile(s, damage(rnd, encode(rnd, true, s, view(s, msg))), "damaged")
	c.hostile(schemas[rnd.Intn(len(schemas))], b, "other_type")
	c.hostile(s, craft(rnd, s), "crafted")
	c.hostile(s, craft(rnd, s), "crafted")
	raw := make([]byte, rnd.Intn(60))
	rnd.Read(raw)
	c.hostile(s, raw, "random")
	if i%8 == 0 && len(b) < 600 {
		for j := 0; j <= len(b); j++ {
			c.hostile(s, b[:j], "truncated")
		}
	}
}

func clip1(s string) string { return strings.SplitN(s, "\n", 2)[0] }

// appetite checks that short messages announcing huge contents do not make the decoder take memory for them.
func (c *checker) appetite() {
	for _, s := range schemas {
		for _, f := range s.fields {
			for _, l := range []uint64{1 << 20, 1 << 28, 1 << 30, 1<<31 - 1, 1 << 32, 1 << 40} {
				b := binary.AppendUvarint(binary.AppendUvarint(nil, uint64(f.num)<<3|2), l)
				b = append(b, "some bytes"...)
				var a, z runtime.MemStats
				runtime.ReadMemStats(&a)
				c.hostile(s, b, "announced")
				runtime.ReadMemStats(&z)
				if d := z.TotalAlloc - a.TotalAlloc; d > 1<<20 {
					c.fail(fmt.Sprintf("%s: %d bytes of input made the decoder allocate %d", s.name, len(b), d), fmt.Sprintf("%x", b))
				}
			}
		}
		// unknown groups in groups, up to the largest message the server takes
		c.hostile(s, bytes.Repeat(binary.AppendUvarint(nil, 900<<3|3), 1<<20), "groups")
	}
	runtime.GC()
}

// descriptors compares the published descriptor with the schema.
func (c *checker) descriptors() {
	for _, s := range schemas {
		gz, idx := s.make().Descriptor()
		zr, err := gzip.NewReader(bytes.NewReader(gz))
		if err != nil {
			c.fail(s.name+": descriptor: "+err.Error(), nil)
			continue
		}
		raw, err := io.ReadAll(zr)
		fd := &descriptor.FileDescriptorProto{}
		if err == nil {
			err = proto.Unmarshal(raw, fd)
		}
		if err != nil || len(idx) != 1 || idx[0] >= len(fd.MessageType) {
			c.fail(fmt.Sprint(s.name, ": descriptor: ", err, idx), nil)
			continue
		}
		d := fd.MessageType[idx[0]]
		if d.GetName() != s.name {
			c.fail(fmt.Sprintf("%s is described as %s", s.name, d.GetName()), nil)
		}
		nums := map[int]string{}
		for _, f := range d.Field {
			nums[int(f.GetNumber())] = strings.ToLower(strings.Replace(f.GetName(), "_", "", -1))
		}
		for _, f := range s.fields {
			if nums[f.num] != strings.ToLower(f.name) {
				c.fail(fmt.Sprintf("%s: field %d is described as %q, not %q", s.name, f.num, nums[f.num], f.name), nil)
			}
			delete(nums, f.num)
		}
		if len(nums) > 0 {
			c.fail(fmt.Sprintf("%s: unknown fields described: %v", s.name, nums), nil)
		}
		if t := proto.MessageType("authnz." + s.name); t != reflect.TypeOf(s.make()) {
			c.fail(fmt.Sprintf("authnz.%s is registered as %v", s.name, t), nil)
		}
		c.r.Count("descriptors", 1)
	}
}

// ---- the service

type echo struct {
	mu   sync.Mutex
	want map[string]*authnz.HandleAuthnZResponse
	seen map[string]model
}

func (e *echo) HandleAuthnZ(ctx context.Context, q *authnz.HandleAuthnZRequest) (*authnz.HandleAuthnZResponse, error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.seen[q.DedupId] = view(byName["HandleAuthnZRequest"], q)
	return e.want[q.DedupId], nil
}

func (c *checker) service(n int) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		c.r.Inconclusive(err.Error())
		return
	}
	e := &echo{want: map[string]*authnz.HandleAuthnZResponse{}, seen: map[string]model{}}
	var mu sync.Mutex
	methods := map[string]int{}
	srv := grpc.NewServer(grpc.UnaryInterceptor(func(ctx context.Context, req interface{}, info *grpc.UnaryServerInfo, h grpc.UnaryHandler) (interface{}, error) {
		mu.Lock()
		methods[info.FullMethod]++
		mu.Unlock()
		return h(ctx, req)
	}))
	authnz.RegisterHandleAuthnZServiceServer(srv, e)
	go srv.Serve(l)
	defer srv.Stop()
	conn, err := grpc.Dial(l.Addr().String(), grpc.WithInsecure())
	if err != nil {
		c.r.Inconclusive(err.Error())
		return
	}
	defer conn.Close()
	cl := authnz.NewHandleAuthnZServiceClient(conn)
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		rnd := c.r.Rand(fmt.Sprint("service", k))
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < n && !c.r.TooMany(); i++ {
				qm, q := gen(rnd, byName["HandleAuthnZRequest"])
				am, a := gen(rnd, byName["HandleAuthnZResponse"])
				id := fmt.Sprintf("id-%d-%d", k, i)
				q.(*authnz.HandleAuthnZRequest).DedupId = id
				qm["DedupId"] = id
				e.mu.Lock()
				e.want[id] = a.(*authnz.HandleAuthnZResponse)
				e.mu.Unlock()
				ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
				got, err := cl.HandleAuthnZ(ctx, q.(*authnz.HandleAuthnZRequest))
				cancel()
				if err != nil {
					c.fail("a call of the service fails: "+err.Error(), fmt.Sprintf("%.500q", fmt.Sprint(qm)))
					continue
				}
				e.mu.Lock()
				seen := e.seen[id]
				delete(e.seen, id)
				delete(e.want, id)
				e.mu.Unlock()
				if d := diff(qm, seen); d != "" {
					c.fail("the service sees a different request: "+d, fmt.Sprintf("%.500q", fmt.Sprint(qm)))
				}
				if d := diff(am, view(byName["HandleAuthnZResponse"], got)); d != "" {
					c.fail("the client sees a different response: "+d, fmt.Sprintf("%.500q", fmt.Sprint(am)))
				}
				c.r.Count("service_calls", 1)
			}
		}()
	}
	wg.Wait()
	if c.r.TooMany() {
		return
	}
	if len(methods) != 1 || methods["/authnz.HandleAuthnZService/HandleAuthnZ"] == 0 {
		c.fail(fmt.Sprint("calls arrive under other names: ", methods), nil)
	}
}

// ---- incomplete and damaged messages against the adapter itself

func sub(m model, names ...string) model {
	for _, n := range names {
		m, _ = m[n].(model)
	}
	return m
}

func str(m model, name string) string { v, _ := m[name].(string); return v }

// complete tells whether a request has all the parts the adapter needs.
func complete(m model) bool {
	rq := sub(m, "Instance", "Request")
	_, h := rq["Headers"]
	_, q := rq["Params"]
	_, t := sub(m, "Instance")["Target"]
	return h && q && t
}

func (c *checker) adapter(n int) {
	r := c.r
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	t := w.IdP.Tenant("a")
	key := vh.NewKeyE("k1", 1024, 65537)
	t.SetKeys(key)
	const ns = "n"
	w.Kube.Apply(vh.JwtConfigs, ns, "j", vh.M{"jwksUrl": t.JwksURL()})
	w.Kube.Apply(vh.OidcConfigs, ns, "o", vh.M{"clientId": "cli", "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
	w.Kube.Apply(vh.Policies, ns, "p", vh.Spec("api", vh.JwtPath("", "/", "", "j", nil)))
	w.Kube.Apply(vh.Policies, ns, "q", vh.Spec("web", vh.PathEntry("oidc", "", "/", "", "o", "", nil)))
	w.SyncAll()
	now := time.Now().Unix()
	tok := key.Sign(vh.Claims{"sub": "u", "exp": now + 3600, "iat": now})
	S := byName["HandleAuthnZRequest"]
	alive := func(doing string) bool { return w.CheckAlive(doing) }
	// whole requests, then parts left out
	base := func(rnd *rand.Rand) (m model, svc string, good bool) {
		m, _ = gen(rnd, S)
		svc = []string{"api", "web", "open"}[rnd.Intn(3)]
		good = rnd.Intn(2) == 0
		props := func() map[string]interface{} { return map[string]interface{}{text(rnd): must(value(rnd).Marshal())} }
		h := model{"Properties": props()}
		if good {
			h["Authorization"] = "Bearer " + tok
		} else if rnd.Intn(2) == 0 {
			h["Authorization"] = "Bearer " + tok[:len(tok)-1-rnd.Intn(20)]
		}
		m["Instance"] = model{"Name": "x",
			"Request": model{"Scheme": "https", "Host": "h.example.com", "Path": "/x", "Headers": h, "Params": model{}, "Properties": props()},
			"Target":  model{"Namespace": ns, "Service": svc, "Method": "GET", "Path": "/x", "Properties": props()}}
		return
	}
	allowed := func(svc string, good bool) bool { return svc == "open" || svc == "api" && good }
	send := func(b []byte) *vh.Resp { return w.Do(vh.Req{Raw: b}) }
	hexs := func(b []byte) string { return fmt.Sprintf("%x", clip(b)) }
	work := func(k int) {
		rnd := r.Rand(fmt.Sprint("adapter", k))
		for i := 0; i < n && !r.TooMany(); i++ {
			m, svc, good := base(rnd)
			b := encode(rnd, i%2 == 0, S, m)
			ref := model{}
			if decode(S, b, ref) == goodV && diff(m, ref) != "" {
				continue
			}
			if resp := send(b); resp.Err != nil || resp.Allowed() != allowed(svc, good) {
				if !alive("answering whole requests") {
					return
				}
				r.Violation(fmt.Sprintf("a whole request for service %s (token good: %v) is answered with %s", svc, good, resp), hexs(b))
			}
			r.Count("whole_requests", 1)
			// leave parts out
			what := ""
			inst := sub(m, "Instance")
			switch rnd.Intn(7) {
			case 0:
				delete(m, "Instance")
				what = "instance"
			case 1:
				delete(inst, "Request")
				what = "request"
			case 2:
				delete(inst, "Target")
				what = "target"
			case 3:
				delete(sub(inst, "Request"), "Headers")
				what = "headers"
			case 4:
				delete(sub(inst, "Request"), "Params")
				what = "params"
			case 5:
				delete(sub(inst, "Request"), "Headers")
				delete(sub(inst, "Request"), "Params")
				what = "headers and params"
			case 6:
				delete(inst, "Request")
				delete(inst, "Target")
				what = "request and target"
			}
			b = encode(rnd, i%2 == 0, S, m)
			if resp := send(b); resp.Err == nil {
				r.Violation(fmt.Sprintf("a request for service %s without %s is answered with %s", svc, what, resp), hexs(b))
			} else if !alive("answering incomplete requests") {
				return
			}
			r.Case("i"+string(b), true)
			r.Count("incomplete_requests", 1)
			// damaged ones
			m, _, _ = base(rnd)
			b = encode(rnd, false, S, m)
			if rnd.Intn(3) == 0 {
				b = craft(rnd, S)
			} else {
				b = damage(rnd, b)
			}
			resp := send(b)
			if resp.Err != nil && !alive("answering damaged requests") {
				return
			}
			ref = model{}
			switch v := decode(S, b, ref); {
			case v == bad && resp.Err == nil:
				r.Violation("damaged bytes are answered with "+resp.String(), hexs(b))
			case v == goodV && !complete(ref) && resp.Err == nil:
				r.Violation("an incomplete request is answered with "+resp.String(), hexs(b))
			case v == goodV && complete(ref):
				tm := sub(ref, "Instance", "Target")
				az := str(sub(ref, "Instance", "Request", "Headers"), "Authorization")
				p := str(tm, "Path")
				if str(tm, "Namespace") == ns && strings.HasPrefix(p, "/") && resp.Allowed() {
					if s := str(tm, "Service"); s == "web" || s == "api" && !strings.Contains(az, tok) {
						r.Violation("a damaged request is allowed: "+resp.String(), hexs(b))
					}
				}
				r.Count("damaged_but_whole", 1)
			}
			r.Case("d"+string(b), true)
			r.Count("damaged_requests", 1)
		}
	}
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		k := k
		wg.Add(1)
		go func() { defer wg.Done(); work(k) }()
	}
	wg.Wait()
	alive("answering damaged requests")
}

func main() {
	flag.String("prop", "", "")
	flag.Parse()
	go func() {
		limit := 840 * time.Second
		if os.Getenv("VERIF_TIER") == "thorough" {
			limit = 4 * time.Hour
		}
		time.Sleep(limit)
		fmt.Println("C23: inconclusive: watchdog")
		os.Exit(2)
	}()
	r := vh.NewReport("C23", "cases are messages and byte strings, distinct by content; each is read and written by the adapter's generated code and by a reference written from the .proto file, and incomplete or damaged requests are sent to the running adapter")
	r.Assumptions = []string{"types defined outside the repository (Any, Value, CheckResult) encode and decode correctly"}
	grpclog.SetLoggerV2(grpclog.NewLoggerV2(io.Discard, io.Discard, io.Discard))
	c := &checker{r: r}
	c.descriptors()
	c.appetite()
	c.codec(8, r.Pick(2500, 100000))
	c.service(r.Pick(300, 5000))
	c.adapter(r.Pick(1500, 30000))
	r.Floor("descriptors", len(schemas))
	r.Floor("trips", 50000)
	r.Floor("unusual_encodings", 5000)
	r.Floor("hostile_valid", 5000)
	r.Floor("hostile_invalid", 20000)
	r.Floor("hostile_truncated", 10000)
	r.Floor("service_calls", 1000)
	r.Floor("whole_requests", 2000)
	r.Floor("incomplete_requests", 2000)
	r.Floor("damaged_requests", 2000)
	r.Finish()
}
