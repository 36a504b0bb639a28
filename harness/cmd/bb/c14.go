package main

import (
	"bytes"
	"compress/gzip"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/grpc"
	"verif/harness/vh"
)

func init() { checks["C14"] = c14 }

// hostileBytes makes odd strings of many kinds.
func hostileBytes(rnd *rand.Rand, max int) string {
	switch rnd.Intn(12) {
	case 0:
		return ""
	case 1:
		b := make([]byte, rnd.Intn(max)+1)
		rnd.Read(b)
		return string(b)
	case 2:
		return strings.Repeat(string(rune(rnd.Intn(0x250))), rnd.Intn(max)+1)
	case 3:
		return strings.Repeat(".", rnd.Intn(20))
	case 4:
		return wordOf(rnd, 1+rnd.Intn(5))
	case 5:
		return fmt.Sprintf("%%s%%n%%d%%!%%%%%c", rnd.Intn(256))
	case 6:
		return []string{"null", "{}", "[]", "-1", "NaN", "\x00", "\xff\xfe", "\u202e", "\r\n\r\n", "../../..", "//", "\\\\", "%00", "%zz", "*", "ALL", " ", "\t"}[rnd.Intn(18)]
	case 7:
		return vh.B64([]byte(wordOf(rnd, 4))) + "." + vh.B64([]byte(wordOf(rnd, 4))) + "." + vh.B64([]byte(wordOf(rnd, 2)))
	case 8:
		return strings.Repeat("/oidc/callback", rnd.Intn(4)) + strings.Repeat("/", rnd.Intn(5)) + strings.Repeat("/oidc/logout", rnd.Intn(3))
	case 9:
		return strings.Repeat("a=b; ", rnd.Intn(200)) + "oidc-cookie-c=" + wordOf(rnd, 2)
	case 10:
		return "Bearer " + strings.Repeat("x ", rnd.Intn(8))
	default:
		return strings.Repeat("/"+wordOf(rnd, 1), rnd.Intn(60))
	}
}

// rawTarget reads the target of a raw request the way protobuf defines it; ok is false when unsure.
func rawTarget(b []byte) (ns, svc string, ok bool) {
	fs, err := vh.PBFields(b)
	if err != nil {
		return "", "", false
	}
	for _, f := range fs {
		if f.Num != 1 || f.WT != 2 {
			continue
		}
		is, err := vh.PBFields(f.Bytes)
		if err != nil {
			return "", "", false
		}
		for _, g := range is {
			if g.Num != 2 || g.WT != 2 {
				continue
			}
			ts, err := vh.PBFields(g.Bytes)
			if err != nil {
				return "", "", false
			}
			for _, h := range ts {
				if h.WT == 2 && h.Num == 1 {
					ns = string(h.Bytes)
				}
				if h.WT == 2 && h.Num == 2 {
					svc = string(h.Bytes)
				}
			}
		}
	}
	return ns, svc, true
}

func mutate(rnd *rand.Rand, b []byte) []byte {
	b = append([]byte{}, b...)
	for n := 1 + rnd.Intn(4); n > 0; n-- {
		if len(b) == 0 {
			return []byte{byte(rnd.Intn(256))}
		}
		i := rnd.Intn(len(b))
		switch rnd.Intn(8) {
		case 0:
			b[i] ^= 1 << uint(rnd.Intn(8))
		case 1:
			b[i] = byte(rnd.Intn(256))
		case 2:
			b = b[:i]
		case 3:
			j := i + rnd.Intn(len(b)-i)
			b = append(b[:i:i], b[j:]...)
		case 4:
			j := i + rnd.Intn(len(b)-i)
			b = append(append(append([]byte{}, b[:j]...), b[i:j]...), b[j:]...)
		case 5: // an enormous or overlong length
			var l [10]byte
			k := binary.PutUvarint(l[:], []uint64{1 << 63, 1<<64 - 1, 1 << 31, 1<<31 - 1, 1 << 32, 0x7fffffffffffffff, 200}[rnd.Intn(7)])
			b = append(append(append([]byte{}, b[:i]...), l[:k]...), b[i:]...)
		case 6:
			b = append(b[:i:i], append([]byte{byte(rnd.Intn(32)<<3 | rnd.Intn(8))}, b[i:]...)...)
		default:
			b = append(b, b...)
		}
		if len(b) > 1<<20 {
			b = b[:1<<20]
		}
	}
	return b
}

type hostileAnswer struct {
	name string
	slow bool
	f    func(rw http.ResponseWriter, q *http.Request)
}

// hostileAnswers are IdP answers that are no proper answer to anything.
func hostileAnswers(stop chan bool) []hostileAnswer {
	var out []hostileAnswer
	add := func(name string, f func(rw http.ResponseWriter, q *http.Request)) {
		out = append(out, hostileAnswer{name: name, f: f})
	}
	body := func(name, b string) {
		add(name, func(rw http.ResponseWriter, _ *http.Request) { rw.Write([]byte(b)) })
	}
	for _, st := range []int{204, 205, 301, 304, 400, 401, 404, 418, 429, 500, 599, 999} {
		st := st
		add(fmt.Sprint("status ", st), func(rw http.ResponseWriter, _ *http.Request) { rw.WriteHeader(st) })
	}
	add("error object", func(rw http.ResponseWriter, _ *http.Request) {
		rw.WriteHeader(400)
		rw.Write([]byte(`{"error":{"a":1},"error_description":["x"],"scopes":"y"}`))
	})
	add("redirect to itself", func(rw http.ResponseWriter, q *http.Request) {
		rw.Header().Set("Location", q.URL.String())
		rw.WriteHeader(307)
	})
	add("redirect to nowhere", func(rw http.ResponseWriter, q *http.Request) {
		rw.Header().Set("Location", "http://127.0.0.1:1/")
		rw.WriteHeader(308)
	})
	add("redirect garbage", func(rw http.ResponseWriter, q *http.Request) {
		rw.Header().Set("Location", "::%zz//")
		rw.WriteHeader(302)
	})
	for i, b := range []string{"", "null", "true", "17", `"s"`, "[]", "{}", "[{}]", "{", `{"a"`, "\x00\x00", "\xff\xfe{}", "\xef\xbb\xbf{}", "{}{}", "<html></html>", `{"keys":null,"access_token":null,"issuer":null}`, "1e999999999", `{"expires_in":1e400}`, `{"a":` + strings.Repeat("9", 5000) + `}`} {
		body(fmt.Sprintf("body %d %s", i, trunc(b, 12)), b)
	}
	body("deep arrays", strings.Repeat("[", 200000))
	body("deep objects", strings.Repeat(`{"keys":`, 100000))
	body("deep in field", `{"access_token":`+strings.Repeat("[", 5000)+strings.Repeat("]", 5000)+`,"keys":`+strings.Repeat("[", 9000)+strings.Repeat("]", 9000)+`}`)
	body("blanks", strings.Repeat(" ", 4<<20)+"{}")
	body("long string", `{"access_token":"`+strings.Repeat("a", 8<<20)+`","id_token":"b","keys":[{"kid":"`+strings.Repeat("k", 1<<20)+`"}]}`)
	body("many fields", "{"+strings.Repeat(`"a":1,`, 300000)+`"b":2}`)
	add("bad gzip", func(rw http.ResponseWriter, _ *http.Request) {
		rw.Header().Set("Content-Encoding", "gzip")
		rw.Write([]byte("not gzip"))
	})
	add("gzip of blanks", func(rw http.ResponseWriter, _ *http.Request) {
		rw.Header().Set("Content-Encoding", "gzip")
		z := gzip.NewWriter(rw)
		b := bytes.Repeat([]byte(" "), 1<<20)
		for i := 0; i < 40; i++ {
			z.Write(b)
		}
		z.Write([]byte("{}"))
		z.Close()
	})
	add("closed at once", func(rw http.ResponseWriter, _ *http.Request) { dropConn(rw, "") })
	add("not http", func(rw http.ResponseWriter, _ *http.Request) { dropConn(rw, strings.Repeat("\x16\x03\x01", 1000)) })
	add("bad status line", func(rw http.ResponseWriter, _ *http.Request) { dropConn(rw, "HTTP/1.1 abc\r\n\r\n") })
	add("bad header", func(rw http.ResponseWriter, _ *http.Request) {
		dropConn(rw, "HTTP/1.1 200 OK\r\n: x\r\nContent-Length: -5\r\n\r\n{}")
	})
	add("bad chunk", func(rw http.ResponseWriter, _ *http.Request) {
		dropConn(rw, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nzzz\r\n{}\r\n")
	})
	add("enormous chunk", func(rw http.ResponseWriter, _ *http.Request) {
		dropConn(rw, "HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\nffffffffffffffff\r\n{}\r\n")
	})
	add("short", func(rw http.ResponseWriter, _ *http.Request) {
		dropConn(rw, "HTTP/1.1 200 OK\r\nContent-Length: 5000\r\n\r\n{\"a\":")
	})
	add("huge header", func(rw http.ResponseWriter, _ *http.Request) {
		rw.Header().Set("X-Y", strings.Repeat("x", 12<<20))
		rw.Write([]byte("{}"))
	})
	// wrong types in every field
	for i, v := range []string{"17", "true", "null", "[]", "{}", `""`, "-1.5e3", `"\u0000"`, `[null]`, `[[1]]`, `"` + strings.Repeat("é", 2000) + `"`} {
		var fs []string
		for _, f := range []string{"access_token", "id_token", "refresh_token", "expires_in", "token_type", "keys", "issuer", "jwks_uri", "authorization_endpoint", "token_endpoint", "userinfo_endpoint", "error"} {
			fs = append(fs, fmt.Sprintf("%q:%s", f, v))
		}
		body(fmt.Sprint("all fields of odd type ", i), "{"+strings.Join(fs, ",")+"}")
	}
	slow := func(name string, f func(rw http.ResponseWriter, q *http.Request)) {
		out = append(out, hostileAnswer{name: name, slow: true, f: f})
	}
	wait := func(q *http.Request, d time.Duration) bool {
		select {
		case <-stop:
		case <-q.Context().Done():
		case <-time.After(d):
			return true
		}
		return false
	}
	slow("hangs before the header", func(rw http.ResponseWriter, q *http.Request) { wait(q, 90*time.Second) })
	slow("hangs after the header", func(rw http.ResponseWriter, q *http.Request) {
		rw.WriteHeader(200)
		rw.(http.Flusher).Flush()
		wait(q, 90*time.Second)
	})
	slow("hangs in an error", func(rw http.ResponseWriter, q *http.Request) {
		rw.WriteHeader(500)
		rw.Write([]byte("{"))
		rw.(http.Flusher).Flush()
		wait(q, 90*time.Second)
	})
	slow("drips", func(rw http.ResponseWriter, q *http.Request) {
		for i := 0; i < 900; i++ {
			if _, err := rw.Write([]byte(" ")); err != nil {
				return
			}
			rw.(http.Flusher).Flush()
			if !wait(q, 100*time.Millisecond) {
				return
			}
		}
	})
	slow("drips headers", func(rw http.ResponseWriter, q *http.Request) {
		c, _, err := rw.(http.Hijacker).Hijack()
		if err != nil {
			return
		}
		defer c.Close()
		c.Write([]byte("HTTP/1.1 200 OK\r\n"))
		for i := 0; i < 900; i++ {
			if _, err := fmt.Fprintf(c, "X-%d: y\r\n", i); err != nil {
				return
			}
			select {
			case <-stop:
				return
			case <-time.After(100 * time.Millisecond):
			}
		}
	})
	return out
}

// rss returns a field of the process's status in kB.
func rss(pid int, field string) int {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", pid))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, field+":") {
			n, _ := strconv.Atoi(strings.Fields(l)[1])
			return n
		}
	}
	return 0
}

func c14() {
	r := vh.NewReport("C14", "cases are hostile inputs: raw and mutated request messages, hostile headers, cookies, parameters and tokens, hostile key sets, custom resources and IdP answers of every endpoint (including hanging, dripping and endless ones); watched by a crash monitor, concurrent bystander requests with a latency bound, a bound on every answer, a memory monitor, and an oracle that nothing without a valid credential is allowed; distinct by family and index")
	r.Assumptions = []string{"an answer within 60 s is bounded, a bystander within 10 s is not held up, 1 GB is too much memory", "custom resources have the JSON types their validation schema demands, or are not of interest to others"}
	rnd := r.Rand("c14")
	w := vh.NewWorld(r, vh.SutOpts{Args: []string{"--level", "-1"}})
	defer w.Close()
	vh.PreKeys(4, 1024)
	key, rogue := vh.NewKeyE("k1", 1024, 65537), vh.NewKeyE("k1", 1024, 65537)
	t := w.IdP.Tenant("a")
	t.SetKeys(key)
	w.IdP.KeepLog = false
	w.Kube.Apply(vh.JwtConfigs, "n", "j", vh.M{"jwksUrl": t.JwksURL()})
	w.Kube.Apply(vh.OidcConfigs, "n", "o", vh.M{"clientId": "c", "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
	ruled := []vh.M{vh.Rule("a.b.c", "ALL", "", "x"), vh.Rule("scope", "ANY", "id_token", "y")}
	w.Kube.Apply(vh.Policies, "n", "p", vh.Spec("svc", vh.PathEntry("jwt", "", "/", "", "j", "", ruled), vh.PathEntry("oidc", "", "/w", "", "o", "", nil)))
	w.Kube.Apply(vh.Policies, "n", "p2", vh.Spec("svc2", vh.PathEntry("oidc", "", "/", "", "o", "", ruled), vh.PathEntry("jwt", "", "/j", "", "j", "", nil)))
	w.Kube.Apply(vh.Policies, "n", "canary", vh.Spec("canary", vh.PathEntry("jwt", "", "/", "", "j", "", nil)))
	w.SyncAll()
	good := key.Sign(vh.BaseClaims("u"))
	alive := func(doing string) bool { return w.CheckAlive(doing) }

	// bystanders: all the time, on a connection of their own
	cctx, ccancel := context.WithCancel(context.Background())
	conn, err := w.Sut.Dial()
	if err != nil {
		r.Inconclusive("dial: " + err.Error())
		r.Finish()
	}
	var phase atomic.Value
	phase.Store("start")
	var bys sync.WaitGroup
	bys.Add(1)
	go func() {
		defer bys.Done()
		for i := 0; cctx.Err() == nil; i++ {
			t0 := time.Now()
			q := vh.Bearer("n", "canary", "/x", good)
			resp := vh.DoConn(conn, q, 60*time.Second)
			d := time.Since(t0)
			r.Count("bystanders", 1)
			r.Max("bystander_ms", int(d/time.Millisecond))
			if (!resp.Allowed() || d > 10*time.Second) && cctx.Err() == nil {
				if alive("handling hostile inputs ("+phase.Load().(string)+")") && !r.TooMany() {
					r.Violation(fmt.Sprintf("a valid request was not served during hostile inputs (%s) after %v: %s", phase.Load(), d, resp), nil)
				}
				if !w.Sut.Alive() {
					return
				}
			}
			time.Sleep(15 * time.Millisecond)
		}
	}()
	finish := func() {
		ccancel()
		bys.Wait()
		alive("handling hostile inputs")
		r.Count("rss_peak_mb", rss(w.Sut.Pid(), "VmHWM")/1024)
		r.Finish()
	}
	conns := make([]*grpc.ClientConn, 8)
	for i := range conns {
		if conns[i], err = w.Sut.Dial(); err != nil {
			r.Inconclusive("dial: " + err.Error())
			finish()
		}
	}
	send := func(i int, q vh.Req) *vh.Resp {
		t0 := time.Now()
		resp := vh.DoConn(conns[i%len(conns)], q, 90*time.Second)
		d := time.Since(t0)
		r.Max("answer_ms", int(d/time.Millisecond))
		if d > 60*time.Second && !r.TooMany() {
			r.Violation(fmt.Sprintf("a request was not answered within 60 s (%s)", phase.Load()), vh.M{"request": vh.ReqM(q)})
		}
		return resp
	}

	// ---- request messages
	phase.Store("raw messages")
	n := r.Pick(24000, 400000)
	seeds := make([]int64, 64)
	for i := range seeds {
		seeds[i] = rnd.Int63()
	}
	par(len(seeds), 8, func(s int) {
		rnd := rand.New(rand.NewSource(seeds[s]))
		for i := 0; i < n/len(seeds) && w.Sut.Alive(); i++ {
			var raw []byte
			base := vh.Req{NS: "n", Svc: []string{"svc", "svc2"}[rnd.Intn(2)], Method: "GET", TPath: "/w/a", Scheme: "http", Host: "h", Path: "/w/a", Cookies: "oidc-cookie-c=x", Authz: "Bearer x", PCode: "c", PState: "s"}
			switch rnd.Intn(5) {
			case 0:
				raw = make([]byte, rnd.Intn(200))
				rnd.Read(raw)
			case 1: // valid structure, parts missing or repeated
				base.NoInstance, base.NoRequest, base.NoTarget, base.NoHeaders, base.NoParams = rnd.Intn(6) == 0, rnd.Intn(4) == 0, rnd.Intn(4) == 0, rnd.Intn(4) == 0, rnd.Intn(4) == 0
				raw = base.Encode()
				if rnd.Intn(2) == 0 {
					raw = append(raw, base.Encode()...)
				}
			case 2: // a deep nest of messages
				raw = []byte{}
				for d := rnd.Intn(300); d > 0; d-- {
					raw = vh.PBMsg(nil, 1+rnd.Intn(5), raw)
				}
			default:
				raw = mutate(rnd, base.Encode())
			}
			if raw == nil {
				raw = []byte{}
			}
			resp := send(s, vh.Req{Raw: raw})
			r.Case(fmt.Sprint("raw ", s, " ", i), true)
			r.Count("raw_messages", 1)
			if resp.Allowed() {
				r.Count("raw_allowed", 1)
				if ns, svc, ok := rawTarget(raw); ok && ns == "n" && (svc == "svc" || svc == "svc2") && !r.TooMany() {
					r.Violation("a malformed message for a protected service was allowed", vh.M{"message": fmt.Sprintf("%x", raw)})
				}
			}
		}
	})
	if !alive("decoding hostile messages") {
		finish()
	}
	r.Sample("raw message", fmt.Sprintf("%x", mutate(rnd, (&vh.Req{NS: "n", Svc: "svc"}).Encode())))

	// ---- headers, parameters, tokens
	phase.Store("headers and tokens")
	n = r.Pick(12000, 200000)
	jsonVal := func(rnd *rand.Rand) string {
		return []string{"null", "true", "17", "-1", "1e400", "1e-400", "9999999999999999999999", `"x"`, `"\ud800"`, "[]", "{}", "[[[[]]]]", `{"b":{"c":"x"}}`, `{"b":[{"c":"x"}]}`, `{"b":null}`, `""`, `[null,1,"x",{}]`,
			strings.Repeat("[", 12000) + strings.Repeat("]", 12000), `"` + strings.Repeat("z ", 3000) + `"`}[rnd.Intn(19)]
	}
	hostileToken := func(rnd *rand.Rand) string {
		obj := func(names ...string) []byte {
			var fs []string
			for _, f := range names {
				if f == "alg" && rnd.Intn(2) == 0 {
					fs = append(fs, `"alg":"RS256"`)
				} else if f == "kid" && rnd.Intn(3) == 0 {
					fs = append(fs, `"kid":"k1"`)
				} else if rnd.Intn(3) > 0 {
					fs = append(fs, fmt.Sprintf("%q:%s", f, jsonVal(rnd)))
				}
			}
			if rnd.Intn(3) == 0 {
				fs = append(fs, fmt.Sprintf(`"exp":%d`, time.Now().Unix()+1000))
			}
			if rnd.Intn(10) == 0 {
				return []byte(jsonVal(rnd))
			}
			return []byte("{" + strings.Join(fs, ",") + "}")
		}
		switch rnd.Intn(6) {
		case 0: // well signed, hostile header and claims; never satisfies both rules' source tokens
			return key.SignRaw("RS256", []byte(`{"alg":"RS256","kid":"k1","typ":`+jsonVal(rnd)+`}`), obj("a", "scope", "aud", "iss", "nbf", "iat", "sub"))
		case 1:
			return rogue.SignRaw("RS256", obj("alg", "kid", "typ", "jwk", "x5u"), obj("a", "exp", "nbf", "iat"))
		case 2:
			return vh.B64(obj("alg", "kid")) + "." + vh.B64(obj("a")) + "." + vh.B64([]byte(hostileBytes(rnd, 300)))
		case 3:
			return vh.B64([]byte(`{"alg":"`+[]string{"none", "HS256", "RS256", "RS999", "ES256", "PS256", "", "EdDSA"}[rnd.Intn(8)]+`","kid":"k1"}`)) + "." + vh.B64(obj("a", "exp")) + "." + strings.Repeat("A", rnd.Intn(400))
		case 4:
			return string(mutate(rnd, []byte(good)))
		default:
			return hostileBytes(rnd, 200)
		}
	}
	par(len(seeds), 8, func(s int) {
		rnd := rand.New(rand.NewSource(seeds[s] + 1))
		for i := 0; i < n/len(seeds) && w.Sut.Alive(); i++ {
			q := vh.Get("n", []string{"svc", "svc2"}[rnd.Intn(2)], []string{"/x", "/w/x"}[rnd.Intn(2)])
			for k := 1 + rnd.Intn(3); k > 0; k-- {
				v := hostileBytes(rnd, 2000)
				switch rnd.Intn(9) {
				case 0:
					q.Host = v
				case 1:
					q.Scheme = v
				case 2:
					q.Path = v
				case 3:
					q.Cookies = "oidc-cookie-c=" + v
				case 4:
					q.Cookies = v
				case 5:
					q.PErr, q.Path = v, "/x/oidc/callback"
				case 6:
					q.PCode, q.PState, q.Path = v, hostileBytes(rnd, 20), "/x/oidc/callback"
				case 7:
					q.Authz = v
				default:
					q.Authz = "Bearer " + hostileToken(rnd) + []string{"", " " + hostileToken(rnd)}[rnd.Intn(2)]
				}
			}
			if rnd.Intn(4) == 0 {
				q.TPath = "/" + strings.ToValidUTF8(hostileBytes(rnd, 500), "")
			}
			if rnd.Intn(20) == 0 {
				q.Method = hostileBytes(rnd, 20)
			}
			resp := send(s, q)
			r.Case(fmt.Sprint("request ", s, " ", i), true)
			r.Count("hostile_requests", 1)
			if resp.Allowed() && !r.TooMany() {
				// svc2/j has no rules: a well signed token passes there
				if strings.HasPrefix(q.TPath, "/j") && q.Svc == "svc2" {
					continue
				}
				r.Violation("a hostile request was allowed", vh.M{"request": vh.ReqM(q), "answer": resp.String()})
			}
		}
	})
	// the same tokens as the identity provider's
	ht := w.IdP.Tenant("hostiletokens")
	ht.SetKeys(key)
	w.Kube.Apply(vh.OidcConfigs, "n", "ht", vh.M{"clientId": "c", "clientSecret": "s", "discoveryUrl": ht.DiscoveryURL()})
	w.Kube.Apply(vh.Policies, "n", "ht", vh.Spec("ht", vh.PathEntry("oidc", "", "/", "", "ht", "", ruled), vh.PathEntry("oidc", "", "/plain", "", "ht", "", nil)))
	w.SyncAll()
	par(len(seeds), 8, func(s int) {
		rnd := rand.New(rand.NewSource(seeds[s] + 2))
		for i := 0; i < r.Pick(1200, 20000)/len(seeds) && w.Sut.Alive() && !r.TooMany(); i++ {
			page := vh.Get("n", "ht", []string{"/x", "/plain/x"}[rnd.Intn(2)])
			b := vh.NewBrowser()
			resp := send(s, page)
			b.Take(resp)
			a, err := vh.ParseLogin(resp)
			if err != nil {
				continue
			}
			exp := time.Now().Unix() + 900
			tk := vh.Tokens{Access: key.Sign(vh.Claims{"aud": "c", "exp": exp}), ID: key.Sign(vh.Claims{"exp": exp}), Refresh: "r"}
			k := rnd.Intn(3)
			if k != 1 {
				tk.Access = hostileToken(rnd)
			}
			if k != 0 {
				tk.ID = hostileToken(rnd)
			}
			code := w.NextCode()
			ht.Code(code, vh.Give(tk))
			q := vh.Callback(page, code, a.State)
			q.Cookies = b.Header()
			resp = send(s, q)
			r.Case(fmt.Sprint("hostile tokens ", s, " ", i), true)
			r.Count("hostile_token_answers", 1)
			b.Take(resp)
			q = page
			q.Cookies = b.Header()
			// a well signed ID token with odd claims is good enough where no rule asks for any
			if resp = send(s, q); resp.Allowed() && (k != 1 || strings.HasPrefix(page.Path, "/x")) {
				r.Violation("access granted with hostile tokens", vh.M{"tokens": tk, "answer": resp.String(), "path": page.Path})
			}
		}
	})
	if !alive("reading hostile tokens") {
		finish()
	}

	// very large parts (below the transport's message limit)
	for i := 0; i < r.Pick(12, 40) && w.Sut.Alive(); i++ {
		q := vh.Get("n", "svc", "/w/x")
		big := strings.Repeat([]string{"a", "a.", "/", "=; ", "\x00", " x", "oidc-cookie-c=x; "}[i%7], (3<<20)/3)
		switch i % 4 {
		case 0:
			q.Authz = "Bearer " + big
			q.TPath = "/x"
		case 1:
			q.Cookies = big
		case 2:
			q.Path, q.TPath = "/"+big, "/w/"+strings.ToValidUTF8(big, "")
		default:
			q.PCode, q.PState, q.Path = big, big[:10], "/w/x/oidc/callback"
		}
		r.Case(fmt.Sprint("big ", i), true)
		if resp := send(i, q); resp.Allowed() {
			r.Violation("an enormous request was allowed", vh.M{"kind": i})
		}
	}
	if !alive("handling hostile requests") {
		finish()
	}

	// ---- custom resources
	phase.Store("custom resources")
	n = r.Pick(500, 5000)
	str := func(rnd *rand.Rand) string {
		return strings.ToValidUTF8(hostileBytes(rnd, 300), "?")
	}
	var urls = []string{"", "::", "http://", "http://[::1", "file:///etc/passwd", "http://127.0.0.1:1/x", "http://%zz/", "http://127.0.0.1:99999/", "ftp://x/y", "//", "javascript:alert(1)", "http://user:pw@127.0.0.1:1/", "http://\x7f/", t.JwksURL(), t.DiscoveryURL(), t.TokenURL()}
	for i := 0; i < n && w.Sut.Alive(); i++ {
		kind := []string{vh.Policies, vh.JwtConfigs, vh.OidcConfigs}[rnd.Intn(3)]
		name := fmt.Sprint("h", rnd.Intn(25))
		if rnd.Intn(5) == 0 {
			w.Kube.Delete(kind, "hostile", name)
			continue
		}
		opt := func(m vh.M, k string, v interface{}) {
			switch rnd.Intn(6) {
			case 0:
			case 1:
				m[k] = nil
			default:
				m[k] = v
			}
		}
		spec := vh.M{}
		switch kind {
		case vh.Policies:
			var targets []vh.M
			for a := rnd.Intn(4); a > 0; a-- {
				tg := vh.M{}
				opt(tg, "serviceName", []string{"hs", str(rnd)}[rnd.Intn(2)])
				var paths []vh.M
				for b := rnd.Intn(5); b > 0; b-- {
					p := vh.M{}
					opt(p, "exact", str(rnd))
					opt(p, "prefix", str(rnd))
					opt(p, "method", []string{"ALL", "GET", "PUT", "get", "", str(rnd)}[rnd.Intn(6)])
					var pls []vh.M
					for c := rnd.Intn(3); c > 0; c-- {
						pl := vh.M{}
						opt(pl, "policyType", []string{"jwt", "oidc", "JWT", "", str(rnd)}[rnd.Intn(5)])
						opt(pl, "config", []string{name, "h1", str(rnd)}[rnd.Intn(3)])
						opt(pl, "redirectUri", str(rnd))
						var rules []vh.M
						for d := rnd.Intn(4); d > 0; d-- {
							ru := vh.M{}
							opt(ru, "claim", []string{"a", ".", "..", "a..b", str(rnd)}[rnd.Intn(5)])
							opt(ru, "values", []string{str(rnd), ""}[:rnd.Intn(3)])
							opt(ru, "match", []string{"ALL", "ANY", "NOT", "all", str(rnd)}[rnd.Intn(5)])
							opt(ru, "source", []string{"access_token", "id_token", str(rnd)}[rnd.Intn(3)])
							rules = append(rules, ru)
						}
						opt(pl, "rules", rules)
						pls = append(pls, pl)
					}
					opt(p, "policies", pls)
					paths = append(paths, p)
				}
				opt(tg, "paths", paths)
				targets = append(targets, tg)
			}
			opt(spec, "targets", targets)
		case vh.JwtConfigs:
			opt(spec, "jwksUrl", []string{urls[rnd.Intn(len(urls))], str(rnd)}[rnd.Intn(2)])
			opt(spec, "ClientName", "n/j")
		default:
			opt(spec, "clientId", str(rnd))
			opt(spec, "clientSecret", str(rnd))
			opt(spec, "discoveryUrl", []string{urls[rnd.Intn(len(urls))], str(rnd)}[rnd.Intn(2)])
			opt(spec, "authMethod", str(rnd))
			opt(spec, "scopes", []string{str(rnd), ""}[:rnd.Intn(3)])
			opt(spec, "clientSecretRef", vh.M{"name": []string{"x", "../../n/y", str(rnd)}[rnd.Intn(3)], "key": str(rnd)})
			opt(spec, "ClientName", "n/o")
		}
		var meta interface{} = spec
		if rnd.Intn(15) == 0 {
			meta = nil
		}
		w.Kube.Apply(kind, "hostile", name, meta)
		r.Case(fmt.Sprint("resource ", i), true)
		r.Count("hostile_resources", 1)
		if i%3 == 0 {
			q := vh.Get("hostile", "hs", "/"+strings.Repeat("/", rnd.Intn(2))+str(rnd))
			q.Path = q.TPath + []string{"", "/oidc/callback", "/oidc/logout"}[rnd.Intn(3)]
			q.TPath = q.Path
			q.PCode = "x"
			q.Authz = "Bearer " + good
			q.Cookies = "oidc-cookie-" + str(rnd) + "=x"
			send(i, q)
		}
		if i%100 == 99 {
			q := vh.Get("n", "svc", "/w/x")
			if _, err := vh.ParseLogin(send(i, q)); err != nil && !r.TooMany() && w.Sut.Alive() {
				r.Violation("hostile resources of another namespace disturb a login: "+err.Error(), nil)
			}
		}
	}
	if !alive("processing hostile resources") {
		finish()
	}
	w.SyncAll() // a later resource is still processed
	for _, k := range []string{vh.Policies, vh.JwtConfigs, vh.OidcConfigs} {
		for i := 0; i < 25; i++ {
			w.Kube.Delete(k, "hostile", fmt.Sprint("h", i))
		}
	}
	w.SyncAll()
	r.Count("resource_barriers", 2)
	// resources that do not even decode: nothing else may suffer, and their removal heals everything
	for i, bad := range []interface{}{"text", 17, []int{1}, vh.M{"targets": "x", "jwksUrl": vh.M{}, "clientId": 7}, vh.M{"targets": vh.M{"a": 1}, "jwksUrl": 5, "scopes": "openid"}} {
		for _, k := range []string{vh.Policies, vh.JwtConfigs, vh.OidcConfigs} {
			w.Kube.Apply(k, "hostile", "undecodable", bad)
		}
		time.Sleep(50 * time.Millisecond)
		if i%2 == 0 {
			w.Kube.DropWatches()
			time.Sleep(100 * time.Millisecond)
		}
		if !send(0, vh.Bearer("n", "canary", "/x", good)).Allowed() && alive("reading undecodable resources") {
			r.Violation("an undecodable resource of another namespace stops valid requests", vh.M{"spec": bad})
		}
		if send(0, vh.Get("n", "svc", "/x")).Allowed() {
			r.Violation("an undecodable resource of another namespace opens a protected endpoint", vh.M{"spec": bad})
		}
		for _, k := range []string{vh.Policies, vh.JwtConfigs, vh.OidcConfigs} {
			w.Kube.Delete(k, "hostile", "undecodable")
		}
		r.Case(fmt.Sprint("undecodable ", i), true)
	}
	w.SyncAll()

	// ---- hostile key sets
	phase.Store("key sets")
	huge := vh.B64(bytes.Repeat([]byte{0xfd}, 300000))
	nk := vh.B64(key.Priv.N.Bytes())
	jwks := map[string]string{"no n": `"e":"AQAB"`, "no e": `"n":"` + nk + `"`, "n zero": `"n":"AA","e":"AQAB"`, "n one": `"n":"AQ","e":"AQAB"`, "n even": `"n":"` + vh.B64(bytes.Repeat([]byte{0xfe}, 128)) + `","e":"AQAB"`,
		"n empty after decoding": `"n":"=","e":"AQAB"`, "n small": `"n":"Iw","e":"AQAB"`, "n huge": `"n":"` + huge + `","e":"AQAB"`, "n number": `"n":12,"e":"AQAB"`, "n object": `"n":{},"e":"AQAB"`,
		"e zero": `"n":"` + nk + `","e":"AA"`, "e zero long": `"n":"` + nk + `","e":"AAAAAAAAAAAA"`, "e even": `"n":"` + nk + `","e":"BA"`, "e negative as int32": `"n":"` + nk + `","e":"_____w"`, "e empty after decoding": `"n":"` + nk + `","e":"===="`,
		"e huge": `"n":"` + nk + `","e":"` + huge + `"`, "e garbage": `"n":"` + nk + `","e":"!!"`, "n garbage": `"n":"é","e":"AQAB"`, "ec": `"kty":"EC","crv":"P-256","x":"AA","y":"AA"`, "oct": `"kty":"oct","k":"AAAA"`, "kty number": `"kty":5,"n":"` + nk + `","e":"AQAB"`, "kty missing": `"kty":"","n":"` + nk + `","e":"AQAB"`}
	var jn []string
	for k := range jwks {
		jn = append(jn, k)
	}
	sort.Strings(jn)
	for i, k := range jn {
		tt := w.IdP.Tenant(fmt.Sprint("jwk", i))
		kty := `"kty":"RSA",`
		if strings.Contains(jwks[k], `"kty"`) {
			kty = ""
		}
		doc := fmt.Sprintf(`{"keys":[{"kid":"k1",%s%s},{"kid":5},null,{}]}`, kty, jwks[k])
		if i%2 == 0 {
			doc = fmt.Sprintf(`{"keys":[{"kid":"k1",%s%s}]}`, kty, jwks[k])
		}
		tt.Override("jwks", func(rw http.ResponseWriter, _ *http.Request) { rw.Write([]byte(doc)) })
		w.Kube.Apply(vh.JwtConfigs, "n", tt.Name, vh.M{"jwksUrl": tt.JwksURL()})
		w.Kube.Apply(vh.Policies, "n", tt.Name, vh.Spec(tt.Name, vh.PathEntry("jwt", "", "/", "", tt.Name, "", nil)))
	}
	w.SyncPolicies()
	w.SyncJwt()
	for i, k := range jn {
		for _, tok := range []string{good, rogue.Sign(vh.BaseClaims("u")), strings.Join(strings.Split(good, ".")[:2], ".") + ".", strings.Join(strings.Split(good, ".")[:2], ".") + ".AA", strings.Join(strings.Split(good, ".")[:2], ".") + "." + vh.B64(make([]byte, 128)), vh.HMACToken("HS256", "k1", []byte{}, vh.BaseClaims("u"))} {
			resp := send(i, vh.Bearer("n", fmt.Sprint("jwk", i), "/x", tok))
			r.Case(fmt.Sprint("jwk ", k, tok), true)
			r.Count("hostile_keys", 1)
			if resp.Allowed() && !r.TooMany() {
				r.Violation("a token was accepted under a malformed key ("+k+")", vh.M{"token": tok, "key": trunc(jwks[k], 200)})
			}
		}
		if !alive("verifying with a hostile key (" + k + ")") {
			finish()
		}
	}

	// ---- IdP answers
	phase.Store("IdP answers")
	stop := make(chan bool)
	answers := hostileAnswers(stop)
	for i, u := range urls { // discovery documents with odd URLs
		u := u
		if i >= 12 {
			break
		}
		answers = append(answers, hostileAnswer{name: "disco only: url " + u, f: func(rw http.ResponseWriter, q *http.Request) {
			b, _ := json.Marshal(vh.M{"issuer": "x", "authorization_endpoint": u, "token_endpoint": u, "jwks_uri": u, "userinfo_endpoint": u})
			rw.Write(b)
		}})
	}
	answers = append(answers, hostileAnswer{name: "jwks only: many keys", f: func(rw http.ResponseWriter, q *http.Request) {
		var b bytes.Buffer
		b.WriteString(`{"keys":[{}`)
		for i := 0; i < 60000; i++ {
			fmt.Fprintf(&b, `,{"kid":"%d","kty":"RSA","n":"%s","e":"AQAB"}`, i, nk[:40])
		}
		b.WriteString("]}")
		rw.Write(b.Bytes())
	}})
	type icase struct {
		a  hostileAnswer
		ep string
		t  *vh.Tenant
	}
	var ics []*icase
	for _, a := range answers {
		for _, ep := range []string{"disco", "jwks", "token", "refresh", "userinfo"} {
			if strings.Contains(a.name, " only: ") && !strings.HasPrefix(a.name, ep) {
				continue
			}
			if a.slow && ep == "disco" && !strings.HasPrefix(a.name, "drips") && !r.Thorough() {
				continue // every one holds up the processing of configurations for 5 s
			}
			c := &icase{a, ep, w.IdP.Tenant(fmt.Sprint("i", len(ics)))}
			c.t.SetKeys(key)
			if ep == "disco" {
				c.t.Override("disco", a.f)
			}
			ics = append(ics, c)
			w.Kube.Apply(vh.OidcConfigs, "n", c.t.Name, vh.M{"clientId": "c", "clientSecret": "s", "discoveryUrl": c.t.DiscoveryURL()})
			es := []vh.M{vh.PathEntry("oidc", "", "/", "", c.t.Name, "", nil)}
			if ep == "jwks" {
				w.Kube.Apply(vh.JwtConfigs, "n", c.t.Name, vh.M{"jwksUrl": c.t.JwksURL()})
				es = append(es, vh.PathEntry("jwt", "", "/j", "", c.t.Name, "", nil))
			}
			w.Kube.Apply(vh.Policies, "n", c.t.Name, vh.Spec(c.t.Name, es...))
		}
	}
	w.SyncAll()
	par(len(ics), 48, func(i int) {
		c := ics[i]
		page := vh.Get("n", c.t.Name, "/x")
		b := vh.NewBrowser()
		r.Case("idp "+c.ep+" "+c.a.name, true)
		r.Count("hostile_answers", 1)
		bad := func(what string, resp *vh.Resp) {
			if w.Sut.Alive() && !r.TooMany() {
				r.Violation(fmt.Sprintf("%s (%s endpoint: %s)", what, c.ep, c.a.name), vh.M{"answer": resp.String()})
			}
		}
		visit := func(q vh.Req) *vh.Resp {
			q.Cookies = b.Header()
			resp := send(i, q)
			b.Take(resp)
			return resp
		}
		exp := time.Now().Unix() + 900
		tk := vh.Tokens{Access: key.Sign(vh.Claims{"aud": "c", "exp": exp}), ID: key.Sign(vh.Claims{"exp": exp}), Refresh: "r"}
		login := func() *vh.Resp {
			resp := visit(page)
			a, err := vh.ParseLogin(resp)
			if err != nil {
				return resp
			}
			code := w.NextCode()
			c.t.Code(code, vh.Give(tk))
			return visit(vh.Callback(page, code, a.State))
		}
		switch c.ep {
		case "disco":
			b.Jar["oidc-cookie-c"] = "nosuchsession"
			if resp := login(); resp.Allowed() {
				bad("access granted", resp)
			}
			if resp := visit(page); resp.Allowed() {
				bad("access granted", resp)
			}
			visit(vh.Logout(page))
		case "jwks":
			c.t.Override("jwks", c.a.f)
			nk := vh.Key{Kid: "other", Priv: key.Priv}
			tk = vh.Tokens{Access: nk.Sign(vh.Claims{"aud": "c", "exp": exp}), ID: nk.Sign(vh.Claims{"exp": exp})}
			if resp := login(); resp.Allowed() {
				bad("access granted", resp)
			}
			if resp := visit(page); resp.Allowed() {
				bad("access granted", resp)
			}
			if resp := send(i, vh.Bearer("n", c.t.Name, "/j/x", tk.Access)); resp.Allowed() {
				bad("access granted", resp)
			}
		case "token":
			c.t.Override("token", c.a.f)
			if resp := login(); resp.Allowed() {
				bad("access granted", resp)
			}
			if resp := visit(page); resp.Allowed() {
				bad("access granted", resp)
			}
		case "refresh":
			tk.ID = key.Sign(vh.Claims{"exp": time.Now().Unix() + 4})
			if login(); !visit(page).Allowed() {
				r.Count("slow_logins", 1)
				return
			}
			c.t.Override("token", c.a.f)
			time.Sleep(5100 * time.Millisecond)
			if resp := visit(page); resp.Allowed() {
				bad("access granted after expiry", resp)
			}
			r.Count("hostile_refreshes", 1)
		case "userinfo":
			tk.Access = fmt.Sprint("opaque-", i)
			c.t.Userinfo(tk.Access, 200)
			if login(); !visit(page).Allowed() {
				bad("login with an opaque token does not work", visit(page))
				return
			}
			c.t.Override("userinfo", c.a.f)
			resp := visit(page)
			// a 200 is the IdP's word, whatever its body
			if resp.Allowed() && (strings.HasPrefix(c.a.name, "status") || strings.HasPrefix(c.a.name, "redirect") || strings.HasPrefix(c.a.name, "bad") && c.a.name != "bad gzip" && c.a.name != "bad chunk" || c.a.name == "closed at once" || c.a.name == "not http" || c.a.name == "hangs before the header") {
				bad("access granted", resp)
			}
		}
		alive(fmt.Sprintf("reading a hostile answer (%s endpoint: %s)", c.ep, c.a.name))
	})
	close(stop)
	if !w.Sut.Alive() {
		finish()
	}

	// ---- discovery documents in which one URL is odd
	phase.Store("odd endpoint URLs")
	type ucase struct {
		t        *vh.Tenant
		field, u string
	}
	var ucs []*ucase
	for _, u := range append(append([]string{}, urls[1:13]...), ":", "http://x y/", "http://[fe80::1%25en0]:x/", "http://a\nb/", "\x00", "//user@/", "http://"+strings.Repeat("x", 70000)+"/", "HTTP://127.0.0.1:1", "?", "#", "http://127.0.0.1:1/\r\nX: y", " http://127.0.0.1:1/") {
		for _, f := range []string{"authorization_endpoint", "token_endpoint", "jwks_uri", "userinfo_endpoint", "refresh"} {
			c := &ucase{w.IdP.Tenant(fmt.Sprint("u", len(ucs))), f, u}
			c.t.SetKeys(key)
			d := c.t.DefaultDisco()
			if f != "refresh" {
				d[f] = u
			}
			c.t.SetDisco(d)
			ucs = append(ucs, c)
			w.Kube.Apply(vh.OidcConfigs, "n", c.t.Name, vh.M{"clientId": "c", "clientSecret": "s", "discoveryUrl": c.t.DiscoveryURL()})
			w.Kube.Apply(vh.Policies, "n", c.t.Name, vh.Spec(c.t.Name, vh.PathEntry("oidc", "", "/", "", c.t.Name, "", nil)))
		}
	}
	w.SyncAll()
	par(len(ucs), 32, func(i int) {
		c := ucs[i]
		page := vh.Get("n", c.t.Name, "/x")
		b := vh.NewBrowser()
		r.Case("odd "+c.field+" "+trunc(c.u, 100), true)
		r.Count("odd_endpoints", 1)
		visit := func(q vh.Req) *vh.Resp {
			q.Cookies = b.Header()
			resp := send(i, q)
			b.Take(resp)
			return resp
		}
		tk := vh.Tokens{Access: key.Sign(vh.BaseClaims("u").With("aud", "c")), ID: key.Sign(vh.BaseClaims("u")), Refresh: "r"}
		if c.field == "userinfo_endpoint" || i%2 == 0 {
			tk.Access = fmt.Sprint("opaque-", i)
			c.t.Userinfo(tk.Access, 200)
		}
		if c.field == "refresh" { // the same, in a refreshed token's way
			tk.ID = key.Sign(vh.Claims{"exp": time.Now().Unix() + 3})
		}
		if a, err := vh.ParseLogin(visit(page)); err == nil {
			code := w.NextCode()
			c.t.Code(code, vh.Give(tk))
			visit(vh.Callback(page, code, a.State))
		}
		resp := visit(page)
		if c.field == "refresh" {
			d := c.t.DefaultDisco()
			d["token_endpoint"], d["userinfo_endpoint"] = c.u, c.u
			c.t.SetDisco(d)
			w.Kube.Apply(vh.OidcConfigs, "n", c.t.Name, vh.M{"clientId": "c", "clientSecret": "other", "discoveryUrl": c.t.DiscoveryURL()})
			time.Sleep(4100 * time.Millisecond)
			resp = visit(page)
		}
		if resp.Allowed() && c.field != "authorization_endpoint" && w.Sut.Alive() && !r.TooMany() {
			r.Violation(fmt.Sprintf("access granted though the %s is %q", c.field, trunc(c.u, 200)), vh.M{"answer": resp.String()})
		}
		visit(vh.Logout(page))
		visit(vh.Callback(page, "x", "y"))
		alive(fmt.Sprintf("using a %s of %q", c.field, trunc(c.u, 200)))
	})
	if !w.Sut.Alive() {
		finish()
	}

	// ---- answers that never end, as fast as they come
	phase.Store("endless answers")
	before := rss(w.Sut.Pid(), "VmRSS")
	peak := before
	pstop := make(chan bool)
	pdone := make(chan bool)
	go func() {
		defer close(pdone)
		for {
			select {
			case <-pstop:
				return
			case <-time.After(20 * time.Millisecond):
				if m := rss(w.Sut.Pid(), "VmRSS"); m > peak {
					peak = m
				}
			}
		}
	}()
	endless := func(first, unit string, zip bool) http.HandlerFunc {
		chunk := []byte(strings.Repeat(unit, (1<<20)/len(unit)))
		return func(rw http.ResponseWriter, q *http.Request) {
			var out interface{ Write([]byte) (int, error) } = rw
			if zip {
				rw.Header().Set("Content-Encoding", "gzip")
				out = gzip.NewWriter(rw)
			}
			out.Write([]byte(first))
			for i := 0; i < 1200; i++ { // at most 1.2 GB
				if _, err := out.Write(chunk); err != nil {
					return
				}
				if !zip {
					time.Sleep(3 * time.Millisecond)
				}
				select {
				case <-q.Context().Done():
					return
				default:
				}
			}
		}
	}
	et := w.IdP.Tenant("endless")
	et.SetKeys(key)
	w.Kube.Apply(vh.OidcConfigs, "n", "endless", vh.M{"clientId": "c", "clientSecret": "s", "discoveryUrl": et.DiscoveryURL()})
	w.Kube.Apply(vh.JwtConfigs, "n", "endless", vh.M{"jwksUrl": et.JwksURL()})
	w.Kube.Apply(vh.Policies, "n", "endless", vh.Spec("endless", vh.PathEntry("oidc", "", "/", "", "endless", "", nil), vh.PathEntry("jwt", "", "/j", "", "endless", "", nil)))
	w.SyncAll()
	ends := []struct {
		ep, first, unit string
		zip             bool
	}{{"jwks", `{"keys":[{"kid":"`, "a", false}, {"token", `{"access_token":"`, "b", false}, {"jwks", `{"keys":[`, `{"kid":"x","kty":"RSA","n":"AQAB","e":"AQAB"},`, true}, {"token", "", " ", true}, {"userinfo", `{"sub":"`, "c", false}, {"disco", `{"issuer":"`, "d", false}}
	for i, e := range ends {
		et.Override(e.ep, endless(e.first, e.unit, e.zip))
		var resp *vh.Resp
		if e.ep == "jwks" {
			resp = send(i, vh.Bearer("n", "endless", "/j/x", (&vh.Key{Kid: fmt.Sprint("new", i), Priv: key.Priv}).Sign(vh.BaseClaims("u"))))
		} else {
			b := vh.NewBrowser()
			page := vh.Get("n", "endless", "/x")
			code := w.NextCode()
			et.Code(code, vh.Give(vh.Tokens{Access: fmt.Sprint("opaque-endless-", i), ID: key.Sign(vh.BaseClaims("u"))}))
			et.Userinfo(fmt.Sprint("opaque-endless-", i), 200)
			if e.ep == "disco" {
				w.Kube.Apply(vh.OidcConfigs, "n", "endless", vh.M{"clientId": "c", "clientSecret": "other", "discoveryUrl": et.DiscoveryURL()})
				w.SyncAll()
			}
			resp = send(i, page)
			if a, err := vh.ParseLogin(resp); err == nil {
				b.Take(resp)
				q := vh.Callback(page, code, a.State)
				q.Cookies = b.Header()
				resp = send(i, q)
			}
		}
		r.Case(fmt.Sprint("endless ", i), true)
		r.Count("endless_answers", 1)
		if resp.Allowed() {
			r.Violation("access granted after an endless answer", vh.M{"kind": e})
		}
		et.Override(e.ep, nil)
		if !alive("reading an endless answer") {
			break
		}
	}
	close(pstop)
	<-pdone
	r.Sample("memory during endless answers (kB)", vh.M{"before": before, "peak": peak})
	if peak > before+(1<<20) {
		r.Violation(fmt.Sprintf("an endless IdP answer made the adapter's memory grow from %d to %d MB", before/1024, peak/1024), vh.M{"before_kB": before, "peak_kB": peak})
	}
	if !w.Sut.Alive() {
		finish()
	}

	// ---- and everything still works
	phase.Store("afterwards")
	bb := vh.NewBrowser()
	exp := time.Now().Unix() + 900
	if _, ck, err := w.Login(bb, vh.Get("n", "svc", "/w/x"), t, vh.Give(vh.Tokens{Access: key.Sign(vh.Claims{"aud": "c", "exp": exp}), ID: key.Sign(vh.Claims{"exp": exp})})); ck == nil {
		r.Violation(fmt.Sprintf("after hostile inputs a login no longer works: %v", err), nil)
	}
	r.Floor("raw_messages", 10000)
	r.Floor("hostile_requests", 5000)
	r.Floor("hostile_resources", 200)
	r.Floor("hostile_answers", 150)
	r.Floor("hostile_refreshes", 20)
	r.Floor("odd_endpoints", 100)
	r.Floor("endless_answers", 4)
	r.Floor("bystanders", 200)
	finish()
}
