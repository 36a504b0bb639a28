package vh

import (
	"fmt"
	"net/http"
	"net/url"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

// World is one adapter with its peers.
type World struct {
	R    *Report
	Kube *Kube
	IdP  *IdP
	Sut  *Sut
	opts SutOpts

	bn       int
	jsync    bool
	osync    bool
	syncKey  *Tenant
	seqCode  int64
	reported int32
}

// NewWorld starts stand-ins and adapter.
func NewWorld(r *Report, o SutOpts) *World { return NewWorldOn(r, o, nil) }

// NewWorldOn is NewWorld with the cluster prepared before the adapter starts.
func NewWorldOn(r *Report, o SutOpts, prepare func(k *Kube)) *World {
	w := &World{R: r, Kube: NewKube(), IdP: NewIdP(), opts: o}
	w.Kube.SetSecret("istio-system", "appidentityandaccessadapter-cookie-sig-enc-keys", map[string]string{
		"HASH_KEY": HashKey, "BLOCK_KEY": BlockKey})
	w.prepareSync()
	if prepare != nil {
		prepare(w.Kube)
	}
	w.StartAdapter()
	return w
}

// StartAdapter (re)starts the adapter process.
func (w *World) StartAdapter() {
	s, err := StartSut(w.Kube.URL, w.opts)
	if err != nil {
		// the build or the environment is broken: nothing can be decided
		w.R.Inconclusive("adapter does not start: " + err.Error())
		w.R.Case("start", false)
		w.R.Finish()
	}
	w.Sut = s
}

// Close ends everything.
func (w *World) Close() {
	if w.Sut != nil {
		w.Sut.Stop()
	}
	w.Kube.Close()
	w.IdP.Close()
}

// CheckAlive reports a crash as a violation and returns whether the adapter runs.
func (w *World) CheckAlive(doing string) bool {
	if w.Sut.Alive() {
		return true
	}
	if atomic.CompareAndSwapInt32(&w.reported, 0, 1) {
		w.R.Violation("the adapter process ended while "+doing, M{"exit": fmt.Sprint(w.Sut.ExitErr()), "log": w.Sut.Tail(6000)})
	}
	return false
}

// ---- barriers

const syncNS = "vh-sync"

func (w *World) prepareSync() {
	w.syncKey = w.IdP.Tenant("vh-sync")
	w.Kube.Apply(Policies, syncNS, "sync", M{"targets": []M{
		{"serviceName": "jsync", "paths": []M{{"exact": "/x", "policies": []M{{"policyType": "jwt", "config": "jsync"}}}}},
		{"serviceName": "osync", "paths": []M{{"exact": "/x", "policies": []M{{"policyType": "oidc", "config": "osync"}}}}},
	}})
	w.Kube.Apply(Policies, syncNS, "barrier", w.barrierPolicy(0))
}

func (w *World) barrierPolicy(n int) M {
	return M{"targets": []M{{"serviceName": fmt.Sprintf("b%d", n), "paths": []M{{"exact": "/x", "policies": []M{{"policyType": "jwt", "config": "nosuchconfig"}}}}}}}
}

func waitFor(limit time.Duration, f func() bool) bool {
	deadline := time.Now().Add(limit)
	d := time.Millisecond
	for {
		if f() {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(d)
		if d < 20*time.Millisecond {
			d += time.Millisecond
		}
	}
}

// WaitFor polls a condition.
func WaitFor(limit time.Duration, f func() bool) bool { return waitFor(limit, f) }

// BarrierLimit bounds how long a barrier may take before the run is inconclusive.
var BarrierLimit = 60 * time.Second

func (w *World) barrierFail(kind string) {
	if !w.CheckAlive("processing " + kind) {
		w.R.Case("barrier", false)
		w.R.Finish()
	}
	w.R.Violation("changes of "+kind+" are no longer processed: a later resource was not applied within a minute", M{"kind": kind, "log": w.Sut.Tail(3000)})
	w.R.Case("barrier", false)
	w.R.Finish()
}

// SyncPolicies waits until all policy changes made so far have been processed.
func (w *World) SyncPolicies() {
	// Two rounds: a resource changed while it is being processed is queued again,
	// possibly behind the first sentinel but never behind the second.
	for i := 0; i < 2; i++ {
		w.bn++
		n := w.bn
		w.Kube.Apply(Policies, syncNS, fmt.Sprintf("barrier%d", n%4), w.barrierPolicy(n))
		if !waitFor(BarrierLimit, func() bool {
			r := w.Sut.Do(Req{NS: syncNS, Svc: fmt.Sprintf("b%d", n), Method: "GET", TPath: "/x", Path: "/x", Scheme: "http", Host: "h"})
			return !r.Allowed()
		}) {
			w.barrierFail("policies")
		}
	}
}

// SyncJwt waits until all JwtConfig changes made so far have been processed.
func (w *World) SyncJwt() {
	for i := 0; i < 2; i++ {
		w.jsync = !w.jsync
		want := w.jsync
		if want {
			w.Kube.Apply(JwtConfigs, syncNS, "jsync", M{"jwksUrl": w.syncKey.JwksURL()})
		} else {
			w.Kube.Delete(JwtConfigs, syncNS, "jsync")
		}
		if !waitFor(BarrierLimit, func() bool {
			r := w.Sut.Do(Req{NS: syncNS, Svc: "jsync", Method: "GET", TPath: "/x", Path: "/x", Scheme: "http", Host: "h"})
			return !r.Allowed() && (r.Err == nil) == want
		}) {
			w.barrierFail("JWT configurations")
		}
	}
}

// SyncOidc waits until all OidcConfig changes made so far have been processed.
func (w *World) SyncOidc() {
	for i := 0; i < 2; i++ {
		w.osync = !w.osync
		want := w.osync
		if want {
			w.Kube.Apply(OidcConfigs, syncNS, "osync", M{"clientId": "sync", "clientSecret": "s", "discoveryUrl": w.syncKey.DiscoveryURL()})
		} else {
			w.Kube.Delete(OidcConfigs, syncNS, "osync")
		}
		if !waitFor(BarrierLimit, func() bool {
			r := w.Sut.Do(Req{NS: syncNS, Svc: "osync", Method: "GET", TPath: "/x", Path: "/x", Scheme: "http", Host: "h"})
			return !r.Allowed() && (r.Err == nil) == want
		}) {
			w.barrierFail("OIDC configurations")
		}
	}
}

// SyncAll waits for all three kinds.
func (w *World) SyncAll() { w.SyncPolicies(); w.SyncJwt(); w.SyncOidc() }

// Settle is how long an unexpected answer may persist before it is a violation.
var Settle = 8 * time.Second

// Eventually retries f (true: as expected) for the settling time.
func (w *World) Eventually(f func() bool) bool {
	if f() {
		return true
	}
	w.R.Count("settle_retries", 1)
	return waitFor(Settle, f)
}

// ---- requests

// Get builds a plain GET request.
func Get(ns, svc, path string) Req {
	return Req{NS: ns, Svc: svc, Method: "GET", TPath: path, Path: path, Scheme: "https", Host: "app.example.com"}
}

// Bearer builds a GET request with tokens.
func Bearer(ns, svc, path string, tokens ...string) Req {
	r := Get(ns, svc, path)
	r.Authz = "Bearer " + strings.Join(tokens, " ")
	return r
}

// Do sends a request to the adapter.
func (w *World) Do(r Req) *Resp { return w.Sut.Do(r) }

// JwtPolicy builds a policy spec with one path entry.
func JwtPath(exact, prefix, method, config string, rules []M) M {
	return PathEntry("jwt", exact, prefix, method, config, "", rules)
}

// PathEntry builds a path entry.
func PathEntry(typ, exact, prefix, method, config, redirect string, rules []M) M {
	p := M{"policyType": typ, "config": config}
	if redirect != "" {
		p["redirectUri"] = redirect
	}
	if rules != nil {
		p["rules"] = rules
	}
	e := M{"policies": []M{p}}
	if exact != "" {
		e["exact"] = exact
	}
	if prefix != "" {
		e["prefix"] = prefix
	}
	if method != "" {
		e["method"] = method
	}
	return e
}

// Spec builds a policy spec for one service.
func Spec(svc string, paths ...M) M {
	return M{"targets": []M{{"serviceName": svc, "paths": paths}}}
}

// Rule builds a claim rule; empty match and source are left out.
func Rule(claim, match, source string, values ...string) M {
	m := M{"claim": claim, "values": values}
	if match != "" {
		m["match"] = match
	}
	if source != "" {
		m["source"] = source
	}
	return m
}

// ---- browser

// Browser holds cookies.
type Browser struct {
	Jar map[string]string
}

// NewBrowser returns an empty browser.
func NewBrowser() *Browser { return &Browser{Jar: map[string]string{}} }

// Clone copies the browser.
func (b *Browser) Clone() *Browser {
	n := NewBrowser()
	for k, v := range b.Jar {
		n.Jar[k] = v
	}
	return n
}

// Header renders the Cookie header.
func (b *Browser) Header() string {
	var ks []string
	for k := range b.Jar {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var parts []string
	for _, k := range ks {
		parts = append(parts, k+"="+b.Jar[k])
	}
	return strings.Join(parts, "; ")
}

// ParseSetCookie parses a Set-Cookie header value.
func ParseSetCookie(h string) *http.Cookie {
	if h == "" {
		return nil
	}
	cs := (&http.Response{Header: http.Header{"Set-Cookie": {h}}}).Cookies()
	if len(cs) != 1 {
		return nil
	}
	return cs[0]
}

// Take stores the cookie of an answer.
func (b *Browser) Take(r *Resp) *http.Cookie {
	h := r.Cookie
	if d := r.Header("Set-Cookie"); d != "" {
		h = d
	}
	c := ParseSetCookie(h)
	if c == nil {
		return nil
	}
	if !c.Expires.IsZero() && c.Expires.Before(time.Now()) {
		delete(b.Jar, c.Name)
	} else {
		b.Jar[c.Name] = c.Value
	}
	return c
}

// Visit sends a request with the browser's cookies and keeps the answer's.
func (w *World) Visit(b *Browser, r Req) *Resp {
	r.Cookies = b.Header()
	resp := w.Do(r)
	b.Take(resp)
	return resp
}

// AuthzRequest is the parsed redirect to the IdP.
type AuthzRequest struct {
	URL    *url.URL
	Q      url.Values
	State  string
	Cookie *http.Cookie
}

// ParseLogin parses an answer that starts a login, or says why it is none.
func ParseLogin(resp *Resp) (*AuthzRequest, error) {
	loc, sc, ok := resp.Redirect()
	if !ok {
		return nil, fmt.Errorf("not a redirect: %s", resp)
	}
	if resp.Code != 16 {
		return nil, fmt.Errorf("status code %d is not UNAUTHENTICATED", resp.Code)
	}
	u, err := url.Parse(loc)
	if err != nil {
		return nil, fmt.Errorf("bad location %q: %v", loc, err)
	}
	q, err := url.ParseQuery(u.RawQuery)
	if err != nil {
		return nil, fmt.Errorf("bad query in %q: %v", loc, err)
	}
	c := ParseSetCookie(sc)
	if c == nil {
		return nil, fmt.Errorf("no usable cookie in %q", sc)
	}
	if q.Get("state") == "" {
		return nil, fmt.Errorf("no state in %q", loc)
	}
	return &AuthzRequest{u, q, q.Get("state"), c}, nil
}

// NextCode returns a fresh authorization code.
func (w *World) NextCode() string {
	return fmt.Sprintf("code-%d-%d", os.Getpid(), atomic.AddInt64(&w.seqCode, 1))
}

// Callback builds the callback request for a page request.
func Callback(page Req, code, state string) Req {
	r := page
	r.Path = page.Path + "/oidc/callback"
	r.TPath = page.TPath + "/oidc/callback"
	r.Method = "GET"
	r.PCode, r.PState = code, state
	return r
}

// Logout builds the logout request for a page request.
func Logout(page Req) Req {
	r := page
	r.Path = page.Path + "/oidc/logout"
	r.TPath = page.TPath + "/oidc/logout"
	r.Method = "GET"
	return r
}

// Login drives a whole login of the browser at the page; the grant answers the code.
// It returns the callback's answer and the session cookie (nil if none was set).
func (w *World) Login(b *Browser, page Req, t *Tenant, g Grant) (*Resp, *http.Cookie, error) {
	first := w.Visit(b, page)
	a, err := ParseLogin(first)
	if err != nil {
		return first, nil, fmt.Errorf("login did not start: %v", err)
	}
	code := w.NextCode()
	t.Code(code, g)
	resp := w.Visit(b, Callback(page, code, a.State))
	if _, sc, ok := resp.Redirect(); ok {
		if c := ParseSetCookie(sc); c != nil && c.Name == a.Cookie.Name {
			return resp, c, nil
		}
	}
	return resp, nil, fmt.Errorf("callback gave no session: %s", resp)
}

// ReqM renders a request for a witness.
func ReqM(r Req) M {
	m := M{"target": fmt.Sprintf("%s/%s %s %s", r.NS, r.Svc, r.Method, r.TPath), "request": r.Scheme + "://" + r.Host + r.Path}
	if r.Cookies != "" {
		m["cookies"] = r.Cookies
	}
	if r.Authz != "" {
		m["authorization"] = r.Authz
	}
	if r.PErr+r.PCode+r.PState != "" {
		m["params"] = M{"error": r.PErr, "code": r.PCode, "state": r.PState}
	}
	return m
}
