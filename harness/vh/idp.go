package vh

import (
	"encoding/base64"
	"fmt"
	"hash/crc32"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// HReq is a recorded request to an IdP.
type HReq struct {
	Seq      int
	At       time.Time
	Tenant   string
	Endpoint string
	Method   string
	URI      string
	Header   http.Header
	Body     string
	Form     url.Values // form body
	Basic    *[2]string // decoded basic credentials, as sent
}

// IdP is a fake multi-tenant identity provider.
type IdP struct {
	mu      sync.Mutex
	tenants map[string]*Tenant
	log     []HReq
	seq     int
	srv     *http.Server
	ln      net.Listener
	URL     string
	conns   int64 // open client connections
	KeepLog bool
	nreq    int64
	Monitor func(h *HReq) // called for every request
}

// Tokens is what a grant yields.
type Tokens struct {
	Access, ID, Refresh string
}

// Grant produces the answer of the token endpoint.
type Grant func(r *HReq) (status int, body []byte)

// Tenant is one OpenID provider.
type Tenant struct {
	Name string
	idp  *IdP

	mu       sync.Mutex
	keys     []*Key
	over     map[string]http.HandlerFunc
	codes    map[string]Grant
	refresh  map[string]Grant
	userinfo map[string]int
	disco    M
	AuthQ    string // query component of the authorization endpoint
	n        map[string]int
}

// NewIdP starts the server.
func NewIdP() *IdP {
	i := &IdP{tenants: map[string]*Tenant{}, KeepLog: true}
	ln, err := Listen()
	if err != nil {
		panic(err)
	}
	i.ln = ln
	i.URL = "http://" + ln.Addr().String()
	i.srv = &http.Server{Handler: i, ConnState: func(c net.Conn, s http.ConnState) {
		switch s {
		case http.StateNew:
			atomic.AddInt64(&i.conns, 1)
		case http.StateClosed, http.StateHijacked:
			atomic.AddInt64(&i.conns, -1)
		}
	}}
	go i.srv.Serve(ln)
	return i
}

// Close stops the server.
func (i *IdP) Close() { i.srv.Close() }

// Conns returns the number of open connections.
func (i *IdP) Conns() int { return int(atomic.LoadInt64(&i.conns)) }

// Requests returns the number of requests seen.
func (i *IdP) Requests() int { return int(atomic.LoadInt64(&i.nreq)) }

// Tenant creates (or returns) a tenant.
func (i *IdP) Tenant(name string) *Tenant {
	i.mu.Lock()
	defer i.mu.Unlock()
	if t := i.tenants[name]; t != nil {
		return t
	}
	t := &Tenant{Name: name, idp: i, over: map[string]http.HandlerFunc{}, codes: map[string]Grant{}, refresh: map[string]Grant{},
		userinfo: map[string]int{}, n: map[string]int{}}
	i.tenants[name] = t
	return t
}

// Log returns the requests recorded from the given sequence number on.
func (i *IdP) Log(from int) []HReq {
	i.mu.Lock()
	defer i.mu.Unlock()
	var out []HReq
	for k := len(i.log) - 1; k >= 0 && i.log[k].Seq >= from; k-- {
		out = append(out, i.log[k])
	}
	for a, b := 0, len(out)-1; a < b; a, b = a+1, b-1 {
		out[a], out[b] = out[b], out[a]
	}
	return out
}

// Mark returns the next sequence number.
func (i *IdP) Mark() int { i.mu.Lock(); defer i.mu.Unlock(); return i.seq }

// URLs of the tenant.
func (t *Tenant) base() string         { return t.idp.URL + "/t/" + t.Name }
func (t *Tenant) DiscoveryURL() string { return t.base() + "/disco" }
func (t *Tenant) JwksURL() string      { return t.base() + "/jwks" }
func (t *Tenant) TokenURL() string     { return t.base() + "/token" }
func (t *Tenant) UserinfoURL() string  { return t.base() + "/userinfo" }
func (t *Tenant) AuthURL() string {
	u := t.base() + "/authorize"
	if t.AuthQ != "" {
		u += "?" + t.AuthQ
	}
	return u
}

// SetKeys publishes exactly these keys.
func (t *Tenant) SetKeys(ks ...*Key) { t.mu.Lock(); t.keys = append([]*Key{}, ks...); t.mu.Unlock() }

// Override replaces an endpoint's handler (nil restores it).
func (t *Tenant) Override(ep string, h http.HandlerFunc) {
	t.mu.Lock()
	if h == nil {
		delete(t.over, ep)
	} else {
		t.over[ep] = h
	}
	t.mu.Unlock()
}

// SetDisco replaces the discovery document (nil restores it).
func (t *Tenant) SetDisco(d M) { t.mu.Lock(); t.disco = d; t.mu.Unlock() }

// DefaultDisco is the ordinary discovery document.
func (t *Tenant) DefaultDisco() M {
	return M{"issuer": t.base(), "authorization_endpoint": t.AuthURL(), "token_endpoint": t.TokenURL(), "jwks_uri": t.JwksURL(), "userinfo_endpoint": t.UserinfoURL(),
		"scopes_supported": []string{"openid"}}
}

// Code registers an authorization code.
func (t *Tenant) Code(code string, g Grant) { t.mu.Lock(); t.codes[code] = g; t.mu.Unlock() }

// Refresh registers a refresh token.
func (t *Tenant) Refresh(tok string, g Grant) {
	t.mu.Lock()
	if g == nil {
		delete(t.refresh, tok)
	} else {
		t.refresh[tok] = g
	}
	t.mu.Unlock()
}

// Userinfo sets the status the userinfo endpoint answers for a token (default 401).
func (t *Tenant) Userinfo(token string, status int) {
	t.mu.Lock()
	t.userinfo[token] = status
	t.mu.Unlock()
}

// Hits returns how often an endpoint was called.
func (t *Tenant) Hits(ep string) int { t.mu.Lock(); defer t.mu.Unlock(); return t.n[ep] }

// Others is how many requests went to endpoints other than the four.
func (t *Tenant) Others() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := 0
	for ep, c := range t.n {
		if ep != "disco" && ep != "jwks" && ep != "token" && ep != "userinfo" {
			n += c
		}
	}
	return n
}

// Give is a grant that answers with the tokens.
func Give(tk Tokens) Grant {
	return func(*HReq) (int, []byte) { return 200, TokenJSON(tk) }
}

// TokenJSON renders a token response; empty parts are left out.
func TokenJSON(tk Tokens) []byte {
	m := M{"token_type": "Bearer", "expires_in": 3600}
	// expires_in is optional, and nothing may depend on it; answers differ, one token's do not
	h := crc32.ChecksumIEEE([]byte(tk.Access + tk.ID))
	switch h % 4 {
	case 1:
		delete(m, "expires_in")
	case 2:
		m["expires_in"] = int(h >> 8 % 100000)
	}
	if h%8 > 5 {
		m["token_type"] = "bearer"
		m["scope"] = "openid profile"
	}
	if tk.Access != "" {
		m["access_token"] = tk.Access
	}
	if tk.ID != "" {
		m["id_token"] = tk.ID
	}
	if tk.Refresh != "" {
		m["refresh_token"] = tk.Refresh
	}
	return MustJSON(m)
}

// JwksJSON renders keys.
func JwksJSON(ks ...*Key) []byte {
	l := []interface{}{}
	for _, k := range ks {
		l = append(l, k.JWK())
	}
	return MustJSON(M{"keys": l})
}

func (i *IdP) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	body, _ := io.ReadAll(io.LimitReader(r.Body, 4<<20))
	parts := strings.SplitN(strings.TrimPrefix(r.URL.Path, "/"), "/", 3)
	h := HReq{At: time.Now(), Method: r.Method, URI: r.URL.RequestURI(), Header: r.Header.Clone(), Body: string(body)}
	atomic.AddInt64(&i.nreq, 1)
	var t *Tenant
	if len(parts) == 3 && parts[0] == "t" {
		h.Tenant, h.Endpoint = parts[1], parts[2]
	}
	if r.Method == "POST" {
		h.Form, _ = url.ParseQuery(h.Body)
	}
	if a := r.Header.Get("Authorization"); strings.HasPrefix(a, "Basic ") {
		if d, err := base64.StdEncoding.DecodeString(a[6:]); err == nil {
			if c := strings.IndexByte(string(d), ':'); c >= 0 {
				h.Basic = &[2]string{string(d[:c]), string(d[c+1:])}
			}
		}
	}
	i.mu.Lock()
	t = i.tenants[h.Tenant]
	h.Seq = i.seq
	i.seq++
	if i.KeepLog {
		i.log = append(i.log, h)
	}
	mon := i.Monitor
	i.mu.Unlock()
	if mon != nil {
		mon(&h)
	}
	if t == nil {
		http.Error(w, `{"error":"no such tenant"}`, 404)
		return
	}
	t.mu.Lock()
	t.n[h.Endpoint]++
	ov := t.over[h.Endpoint]
	t.mu.Unlock()
	if known := map[string]string{"disco": "GET", "jwks": "GET", "token": "POST", "userinfo": "GET POST"}[h.Endpoint]; known != "" && !strings.Contains(" "+known+" ", " "+r.Method+" ") {
		w.WriteHeader(405)
		return
	}
	if ov != nil {
		r.Body = io.NopCloser(strings.NewReader(h.Body))
		ov(w, r)
		return
	}
	t.Default(w, &h)
}

// Default serves an endpoint's ordinary behaviour.
func (t *Tenant) Default(w http.ResponseWriter, h *HReq) {
	w.Header().Set("Content-Type", "application/json")
	switch h.Endpoint {
	case "disco":
		t.mu.Lock()
		d := t.disco
		t.mu.Unlock()
		if d == nil {
			d = t.DefaultDisco()
		}
		w.Write(MustJSON(d))
	case "jwks":
		t.mu.Lock()
		ks := t.keys
		t.mu.Unlock()
		// identity providers also publish keys of other types
		l := []interface{}{M{"kty": "EC", "use": "sig", "kid": "other-ec", "crv": "P-256", "x": "f83OJ3D2xF1Bg8vub9tLe1gHMzV76e8Tus9uPHvRVEU", "y": "x_FEzRu9m36HLN_tue659LNpXW6pCyStikYjKIWI5a0"}}
		for _, k := range ks {
			l = append(l, k.JWK())
		}
		l = append(l, M{"kty": "OKP", "use": "sig", "kid": "other-okp", "crv": "Ed25519", "x": "11qYAYKxCrfVS_7TyWQHOg7hcvPapiMlrwIaaPcHURo"})
		w.Write(MustJSON(M{"keys": l}))
	case "token":
		t.mu.Lock()
		var g Grant
		switch h.Form.Get("grant_type") {
		case "authorization_code":
			g = t.codes[h.Form.Get("code")]
		case "refresh_token":
			g = t.refresh[h.Form.Get("refresh_token")]
		}
		t.mu.Unlock()
		if g == nil {
			w.WriteHeader(400)
			w.Write([]byte(`{"error":"invalid_grant","error_description":"unknown grant"}`))
			return
		}
		st, b := g(h)
		if st < 0 { // drop the connection, after the given bytes
			c, _, err := w.(http.Hijacker).Hijack()
			if err == nil {
				if len(b) > 0 {
					fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", len(b)+100, b)
				}
				c.Close()
			}
			return
		}
		w.WriteHeader(st)
		w.Write(b)
	case "userinfo":
		tok := strings.TrimPrefix(h.Header.Get("Authorization"), "Bearer ")
		t.mu.Lock()
		st := t.userinfo[tok]
		t.mu.Unlock()
		if st == 0 {
			st = 401
		}
		if st < 0 { // drop the connection
			if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
				c.Close()
			}
			return
		}
		w.WriteHeader(st)
		fmt.Fprintf(w, `{"sub":"x"}`)
	default:
		w.WriteHeader(404)
		w.Write([]byte(`{"error":"not_found"}`))
	}
}
