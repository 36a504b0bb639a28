package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/vh"
)

func init() { checks["C22"] = c22 }

// taint is a marked secret: what it is, whose, and the IdP it belongs to.
type taint struct {
	kind   string // secret, refresh, access, id, code, cookiekey
	tenant string
	owner  string
}

// taintBook knows every marked secret and finds them in what leaves the adapter.
type taintBook struct {
	r    *vh.Report
	seq  int64
	mu   sync.Mutex
	m    map[string]taint // mark or token segment -> taint
	keys []string
	jar  map[string]bool // cookies handed out, if they are collected
}

var markRE = regexp.MustCompile(`Zq[a-z]{3}[0-9a-f]{10}Qz`)
var chunkRE = regexp.MustCompile(`[A-Za-z0-9_\-+/]{24,}`)

func (k *taintBook) mark(kind, tenant, owner string) string {
	n := atomic.AddInt64(&k.seq, 1)
	s := fmt.Sprintf("Zq%s%010xQz", (kind + "xx")[:3], uint64(n)*0x9E3779B1&0xffffffffff)
	k.mu.Lock()
	k.m[s] = taint{kind, tenant, owner}
	k.mu.Unlock()
	return s
}

func (k *taintBook) newKid() string { return fmt.Sprint("new-", atomic.AddInt64(&k.seq, 1)) }

// jwt registers a token's payload and signature.
func (k *taintBook) jwt(tok, kind, tenant, owner string) string {
	k.mu.Lock()
	for _, s := range strings.Split(tok, ".")[1:] {
		if len(s) > 24 {
			k.m[s] = taint{kind, tenant, owner}
		}
	}
	k.mu.Unlock()
	return tok
}

// find returns the marked secrets in a text, also encoded ones.
func (k *taintBook) find(texts ...string) []taint {
	var out []taint
	seen := map[string]bool{}
	var look func(s string, depth int)
	look = func(s string, depth int) {
		if len(s) < 12 || seen[s] {
			return
		}
		seen[s] = true
		k.mu.Lock()
		for _, m := range markRE.FindAllString(s, -1) {
			if t, ok := k.m[m]; ok {
				out = append(out, t)
			}
		}
		chunks := chunkRE.FindAllString(s, -1)
		for _, c := range chunks {
			if t, ok := k.m[c]; ok {
				out = append(out, t)
			}
			for _, p := range strings.FieldsFunc(c, func(r rune) bool { return r == '+' || r == '/' }) {
				if t, ok := k.m[p]; ok && p != c {
					out = append(out, t)
				}
			}
		}
		k.mu.Unlock()
		for _, c := range k.keys {
			if strings.Contains(s, c) {
				out = append(out, taint{kind: "cookiekey"})
			}
		}
		if depth == 0 {
			return
		}
		if u, err := url.QueryUnescape(s); err == nil {
			look(u, depth-1)
		}
		if u, err := url.PathUnescape(s); err == nil {
			look(u, depth-1)
		}
		for _, c := range chunks {
			for _, e := range []*base64.Encoding{base64.RawStdEncoding, base64.RawURLEncoding} {
				for cut := 0; cut < 4 && cut < len(c); cut++ { // encodings may end anywhere
					if b, err := e.DecodeString(c[:len(c)-cut]); err == nil {
						look(string(b), depth-1)
						break
					}
				}
			}
		}
	}
	for _, s := range texts {
		look(s, 3)
		k.r.Count("texts_scanned", 1)
	}
	return out
}

// request judges a request to an IdP.
func (k *taintBook) request(h *vh.HReq) {
	var hdr []string
	for n, vs := range h.Header {
		for _, v := range vs {
			if n != "Authorization" {
				hdr = append(hdr, n+": "+v)
			}
		}
	}
	auth := strings.Join(h.Header["Authorization"], "\n")
	bad := func(where string, t taint) {
		k.r.Violation(fmt.Sprintf("%s %s went to the %s endpoint (%s)", article(t.kind), t.kind, h.Endpoint, where),
			vh.M{"belongs_to": t.tenant, "asked": h.Tenant, "method": h.Method, "uri": h.URI, "header": h.Header, "body": h.Body})
	}
	for _, t := range k.find(h.URI) {
		bad("in the address", t)
	}
	for _, t := range k.find(hdr...) {
		bad("in a header", t)
	}
	for _, t := range k.find(auth) {
		k.r.Count("sent_"+t.kind+"_to_"+h.Endpoint, 1)
		ok := t.tenant == h.Tenant && (h.Endpoint == "token" && t.kind == "secret" || h.Endpoint == "userinfo" && t.kind == "access")
		if !ok {
			bad("in the authorization header", t)
		}
	}
	for _, t := range k.find(h.Body) {
		k.r.Count("sent_"+t.kind+"_to_"+h.Endpoint, 1)
		ok := t.tenant == h.Tenant && h.Endpoint == "token" && (t.kind == "secret" || t.kind == "refresh" || t.kind == "code")
		if !ok {
			bad("in the body", t)
		}
	}
}

func article(s string) string {
	if strings.ContainsAny(s[:1], "aeiou") {
		return "an"
	}
	return "a"
}

// answer judges an answer of the adapter to a request made with the session of owner ("" for none).
func (k *taintBook) answer(what string, q vh.Req, resp *vh.Resp, owner string) {
	texts := []string{resp.Message, resp.Cookie}
	if resp.Err != nil {
		texts = append(texts, resp.Err.Error())
	}
	if resp.Direct != nil {
		texts = append(texts, resp.Direct.Body)
		for n, v := range resp.Direct.Headers {
			texts = append(texts, n+": "+v)
		}
	}
	// whatever the decoder does not know of
	rest := string(resp.Raw)
	if resp.Authz != "" {
		rest = strings.ReplaceAll(rest, resp.Authz, "")
	}
	texts = append(texts, rest)
	wit := vh.M{"case": what, "request": vh.ReqM(q), "answer": resp.String()}
	for _, t := range k.find(texts...) {
		k.r.Violation(fmt.Sprintf("%s %s is in an answer outside the authorization value", article(t.kind), t.kind), wit)
	}
	for _, t := range k.find(resp.Authz) {
		k.r.Count("forwarded_"+t.kind, 1)
		if (t.kind != "access" && t.kind != "id") || owner == "" || t.owner != owner {
			k.r.Violation(fmt.Sprintf("%s %s of %q was forwarded with a request of %q", article(t.kind), t.kind, t.owner, owner), wit)
		}
	}
	k.r.Count("answers_judged", 1)
}

func c22() {
	r := vh.NewReport("C22", "a taint monitor over everything that leaves the adapter: every client secret, refresh, access and ID token, authorization code and the cookie keys carry unique marks, looked for (also URL and base64 encoded) in every IdP request and every answer of logins, visits, refreshes, failures, logouts, API requests and configuration changes; cases are scenario instances, distinct by kind and index")
	r.Assumptions = []string{"the log is judged by C24", "configurations with the same client id share their IdP", "IdPs do not repeat secrets in error descriptions and do not redirect token or userinfo requests"}
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	k := &taintBook{r: r, m: map[string]taint{}, keys: []string{vh.HashKey, vh.BlockKey}}
	c22flows(r, w, k, 1)
	r.Floor("sent_secret_to_token", 300)
	r.Floor("sent_code_to_token", 300)
	r.Floor("sent_refresh_to_token", 50)
	r.Floor("sent_access_to_userinfo", 50)
	r.Floor("forwarded_access", 200)
	r.Floor("forwarded_id", 200)
	r.Floor("failed_logins", 200)
	r.Floor("api_rejected", 100)
	r.Sample("marks", vh.M{"secrets_marked": k.seq})
	r.Finish()
}

// c22flows drives logins, visits, refreshes, failures, logouts, API requests and configuration changes, all with marked secrets.
func c22flows(r *vh.Report, w *vh.World, k *taintBook, share int) {
	rnd := r.Rand("c22")
	vh.PreKeys(2, 1024)
	key, rogue := vh.NewKeyE("k1", 1024, 65537), vh.NewKeyE("k1", 1024, 65537)
	w.IdP.KeepLog = false
	w.IdP.Monitor = k.request
	const ns = "n"
	type client struct {
		name, tenant string
		t            *vh.Tenant
	}
	var cls []client
	var targets []vh.M
	scoped := []vh.M{vh.Rule("scope", "ALL", "", "read", "write"), vh.Rule("kind", "NOT", "id_token", "access")}
	applyCfg := func(rnd *rand.Rand, c client) {
		spec := vh.M{"clientId": "cli-" + c.name, "discoveryUrl": c.t.DiscoveryURL()}
		if rnd.Intn(2) == 0 {
			spec["authMethod"] = "client_secret_post"
		}
		if rnd.Intn(2) == 0 {
			w.Kube.SetSecret(ns, "sec-"+c.name, map[string]string{"s": k.mark("secret", c.tenant, ""), "other": k.mark("secret", "nowhere", "")})
			spec["clientSecretRef"] = vh.M{"name": "sec-" + c.name, "key": "s"}
			spec["clientSecret"] = k.mark("secret", "nowhere", "")
		} else {
			spec["clientSecret"] = k.mark("secret", c.tenant, "")
		}
		w.Kube.Apply(vh.OidcConfigs, ns, c.name, spec)
	}
	for i := 0; i < 6; i++ {
		c := client{name: fmt.Sprint("c", i), tenant: fmt.Sprint("t", i/2)}
		c.t = w.IdP.Tenant(c.tenant)
		c.t.SetKeys(key)
		if i == 3 {
			c.t.AuthQ = "x=1"
		}
		cls = append(cls, c)
		applyCfg(rnd, c)
		targets = append(targets,
			vh.M{"serviceName": "web-" + c.name, "paths": []vh.M{
				vh.PathEntry("oidc", "", "/", "", c.name, "", []vh.M{vh.Rule("kind", "ALL", "id_token", "id")}),
				vh.PathEntry("oidc", "", "/default", "", c.name, "", nil),
				vh.PathEntry("oidc", "", "/ruled", "", c.name, "", scoped),
				vh.PathEntry("oidc", "", "/home", "", c.name, "https://home.example/landing?a=b", []vh.M{vh.Rule("kind", "ALL", "id_token", "id")})}})
		w.Kube.Apply(vh.JwtConfigs, ns, c.name, vh.M{"jwksUrl": c.t.JwksURL()})
		targets = append(targets, vh.M{"serviceName": "api-" + c.name, "paths": []vh.M{
			vh.PathEntry("jwt", "", "/", "", c.name, "", nil), vh.PathEntry("jwt", "", "/ruled", "", c.name, "", scoped)}})
	}
	targets = append(targets, vh.M{"serviceName": "gone", "paths": []vh.M{vh.PathEntry("oidc", "", "/", "", "nosuch", "", nil), vh.PathEntry("jwt", "", "/j", "", "nosuch", "", nil)}})
	dead := w.IdP.Tenant("dead")
	dead.Override("disco", func(rw http.ResponseWriter, q *http.Request) { rw.WriteHeader(503) })
	w.Kube.Apply(vh.OidcConfigs, ns, "dead", vh.M{"clientId": "dead", "clientSecret": k.mark("secret", "dead", ""), "discoveryUrl": dead.DiscoveryURL()})
	targets = append(targets, vh.M{"serviceName": "dead", "paths": []vh.M{vh.PathEntry("oidc", "", "/", "", "dead", "", nil)}})
	// configurations that cannot be used as they are
	w.Kube.SetSecret(ns, "sec-odd", map[string]string{"other": k.mark("secret", "nowhere", "")})
	for n, spec := range []vh.M{
		{"discoveryUrl": "http://127.0.0.1:1/"}, {"discoveryUrl": "://"}, {"discoveryUrl": ""}, {"discoveryUrl": cls[0].t.DiscoveryURL(), "clientId": ""},
		{"discoveryUrl": cls[0].t.DiscoveryURL(), "authMethod": "odd", "clientSecretRef": vh.M{"name": "none", "key": "s"}},
		{"discoveryUrl": "http://127.0.0.1:1/", "clientSecretRef": vh.M{"name": "sec-odd", "key": "s"}},
		{"discoveryUrl": cls[0].t.DiscoveryURL(), "clientSecretRef": vh.M{"name": "sec-odd"}},
	} {
		name := fmt.Sprint("odd", n)
		spec["clientSecret"] = k.mark("secret", "nowhere", "")
		if _, ok := spec["clientId"]; !ok {
			spec["clientId"] = "cli-" + name
		}
		w.Kube.Apply(vh.OidcConfigs, ns, name, spec)
		targets = append(targets, vh.M{"serviceName": name, "paths": []vh.M{vh.PathEntry("oidc", "", "/", "", name, "", nil)}})
	}
	w.Kube.Apply(vh.Policies, ns, "p", vh.M{"targets": targets})
	w.SyncAll()

	visit := func(what string, b *vh.Browser, q vh.Req, owner string) *vh.Resp {
		resp := w.Visit(b, q)
		k.answer(what, q, resp, owner)
		return resp
	}
	// tokens of an owner; shape says how they are wrong, if at all
	mint := func(rnd *rand.Rand, c client, owner, shape string, ttl time.Duration) vh.Tokens {
		now := time.Now()
		acl := vh.Claims{"kind": "access", "scope": "read write", "aud": "cli-" + c.name, "jti": k.mark("access", c.tenant, owner), "exp": now.Add(ttl).Unix()}
		icl := vh.Claims{"kind": "id", "sub": k.mark("id", c.tenant, owner), "exp": now.Add(time.Hour).Unix()}
		sa, si := key, key
		switch shape {
		case "expired":
			acl["exp"] = now.Add(-time.Minute).Unix()
		case "id expired":
			icl["exp"] = now.Add(-time.Minute).Unix()
		case "rules":
			icl["kind"] = []string{"other", k.mark("id", c.tenant, owner)}[rnd.Intn(2)]
			acl["aud"] = k.mark("access", c.tenant, owner)
			acl["scope"] = "read " + k.mark("access", c.tenant, owner)
		case "claim types":
			icl["kind"] = vh.M{"x": k.mark("id", c.tenant, owner)}
			acl["scope"] = []interface{}{vh.M{"y": k.mark("access", c.tenant, owner)}}
		case "rogue":
			sa = rogue
		case "id rogue":
			si = rogue
		case "new key": // makes the adapter look for it
			sa = &vh.Key{Kid: k.newKid(), Priv: rogue.Priv}
		case "id new key":
			si = &vh.Key{Kid: k.newKid(), Priv: rogue.Priv}
		}
		tk := vh.Tokens{Refresh: k.mark("refresh", c.tenant, owner)}
		tk.Access = k.jwt(sa.Sign(acl), "access", c.tenant, owner)
		tk.ID = k.jwt(si.Sign(icl), "id", c.tenant, owner)
		switch shape {
		case "opaque":
			tk.Access = "op." + k.mark("access", c.tenant, owner)
			c.t.Userinfo(tk.Access, 200)
		case "opaque refused":
			tk.Access = "op." + k.mark("access", c.tenant, owner)
			c.t.Userinfo(tk.Access, []int{401, 403, 500}[rnd.Intn(3)])
		case "opaque dropped":
			tk.Access = "op." + k.mark("access", c.tenant, owner)
			c.t.Userinfo(tk.Access, -1)
		case "opaque odd": // a token that cannot be a header's value
			tk.Access = "op." + k.mark("access", c.tenant, owner) + []string{"\n", "\x00", "\r\nX-Y: z", "\x7f"}[rnd.Intn(4)]
			c.t.Userinfo(tk.Access, 200)
		case "no id":
			tk.ID = ""
		case "id opaque":
			tk.ID = k.mark("id", c.tenant, owner)
		case "swapped":
			tk.Access, tk.ID = tk.ID, tk.Access
			tk.Access = k.jwt(tk.Access, "access", c.tenant, owner)
			tk.ID = k.jwt(tk.ID, "id", c.tenant, owner)
		case "cut":
			i := strings.LastIndex(tk.Access, ".")
			tk.Access = tk.Access[:i+6]
			k.mark("access", c.tenant, owner)
		}
		return tk
	}
	shapes := []string{"", "", "", "", "opaque", "opaque", "expired", "id expired", "rules", "claim types", "rogue", "id rogue", "opaque refused", "no id", "id opaque", "cut", "opaque dropped", "new key", "id new key", "opaque odd"}
	answers := func(rnd *rand.Rand, tk vh.Tokens) (string, vh.Grant) {
		js := string(vh.TokenJSON(tk))
		switch rnd.Intn(16) {
		case 0:
			return "400", func(*vh.HReq) (int, []byte) {
				return 400, []byte(`{"error":"invalid_grant","error_description":"no"}`)
			}
		case 1:
			return "401 with tokens", func(*vh.HReq) (int, []byte) { return 401, []byte(js) }
		case 2:
			return "500 with tokens in a page", func(*vh.HReq) (int, []byte) { return 500, []byte("<html>" + js) }
		case 3:
			return "dropped", func(*vh.HReq) (int, []byte) { return -1, nil }
		case 4:
			return "cut", func(*vh.HReq) (int, []byte) { return -1, []byte(js[:len(js)-9]) }
		case 5:
			return "garbage after a token", func(*vh.HReq) (int, []byte) { return 200, []byte(tk.Access + js) }
		case 6:
			return "wrong types", func(*vh.HReq) (int, []byte) {
				return 200, vh.MustJSON(vh.M{"access_token": vh.M{"x": tk.Access}, "id_token": []string{tk.ID}, "refresh_token": tk.Refresh})
			}
		case 7:
			return "array", func(*vh.HReq) (int, []byte) { return 200, []byte("[" + js + "]") }
		case 8:
			return "expires_in text", func(*vh.HReq) (int, []byte) {
				return 200, vh.MustJSON(vh.M{"access_token": tk.Access, "id_token": tk.ID, "refresh_token": tk.Refresh, "expires_in": tk.Refresh})
			}
		}
		return "tokens", vh.Give(tk)
	}
	var jobs []func(rnd *rand.Rand, i int)
	var names []string
	add := func(name string, n int, f func(rnd *rand.Rand, i int)) {
		for i := 0; i < n; i++ {
			jobs = append(jobs, f)
			names = append(names, name)
		}
	}
	begin := func(rnd *rand.Rand, i int) (client, string, vh.Req, *vh.Browser) {
		c := cls[rnd.Intn(len(cls))]
		page := vh.Get(ns, "web-"+c.name, []string{"/x", "/", "/home/y", "/default", "/ruled/z"}[rnd.Intn(5)])
		return c, fmt.Sprint("user", i), page, vh.NewBrowser()
	}
	// login: whatever the IdP answers; the owner has a session afterwards or not
	login := func(rnd *rand.Rand, what, owner string, c client, page vh.Req, b *vh.Browser, tk vh.Tokens, g vh.Grant) bool {
		first := visit(what+": first visit", b, page, "")
		a, err := vh.ParseLogin(first)
		if err != nil {
			if w.CheckAlive("serving logins") {
				r.Count("logins_not_begun", 1)
			}
			return false
		}
		if k.jar != nil && a.Cookie != nil {
			k.mu.Lock()
			k.jar[strings.TrimRight(a.Cookie.Value, "=")] = true
			k.mu.Unlock()
		}
		code := "code." + k.mark("code", c.tenant, owner)
		c.t.Code(code, g)
		resp := visit(what+": callback", b, vh.Callback(page, code, a.State), "")
		_, _, ok := resp.Redirect()
		if ok {
			r.Count("sessions", 1)
			if k.jar != nil {
				k.mu.Lock()
				for _, v := range b.Jar {
					k.jar[strings.TrimRight(v, "=")] = true
				}
				k.mu.Unlock()
			}
		} else {
			r.Count("failed_logins", 1)
		}
		return ok
	}
	add("login", r.Pick(1500, 15000)/share, func(rnd *rand.Rand, i int) {
		c, owner, page, b := begin(rnd, i)
		shape := shapes[rnd.Intn(len(shapes))]
		tk := mint(rnd, c, owner, shape, time.Hour)
		how, g := answers(rnd, tk)
		what := "login, " + shape + " tokens, IdP answer " + how
		login(rnd, what, owner, c, page, b, tk, g)
		for n := 0; n < 3; n++ {
			q := vh.Get(ns, "web-"+c.name, []string{"/x", "/default", "/ruled", "/home"}[rnd.Intn(4)])
			visit(what+": visit", b.Clone(), q, owner)
		}
		// the cookie under other clients' names
		if len(b.Jar) > 0 {
			o := cls[rnd.Intn(len(cls))]
			if o.name != c.name {
				v := b.Jar["oidc-cookie-cli-"+c.name]
				b2 := vh.NewBrowser()
				b2.Jar["oidc-cookie-cli-"+o.name] = v
				visit(what+": session cookie of another client", b2, vh.Get(ns, "web-"+o.name, "/x"), "")
			}
		}
		if rnd.Intn(2) == 0 {
			if rnd.Intn(2) == 0 {
				c.t.Userinfo(tk.Access, 401)
				visit(what+": revoked", b.Clone(), page, owner)
			}
			visit(what+": logout", b.Clone(), vh.Logout(page), "")
			visit(what+": after logout", b, page, owner)
		}
	})
	add("refresh", r.Pick(240, 2400)/share, func(rnd *rand.Rand, i int) {
		c, owner, page, b := begin(rnd, i)
		shape := shapes[rnd.Intn(len(shapes))]
		var tk vh.Tokens
		for life := time.Second; ; life *= 2 {
			exp := life + time.Second
			start := time.Now()
			tk = mint(rnd, c, owner, "", exp)
			if login(rnd, "before a refresh", owner, c, page, b, tk, vh.Give(tk)) {
				time.Sleep(time.Until(start.Add(exp + 1100*time.Millisecond)))
				break
			}
			if life > 10*time.Second {
				r.Count("no_session_to_refresh", 1)
				return
			}
		}
		nt := mint(rnd, c, owner, shape, time.Hour)
		how, g := answers(rnd, nt)
		c.t.Refresh(tk.Refresh, g)
		what := "refresh, " + shape + " tokens, IdP answer " + how
		visit(what, b.Clone(), page, owner)
		visit(what+": again", b.Clone(), vh.Get(ns, "web-"+c.name, "/ruled"), owner)
		r.Count("refreshes", 1)
	})
	add("callbacks", r.Pick(400, 4000)/share, func(rnd *rand.Rand, i int) {
		c, owner, page, b := begin(rnd, i)
		code := "code." + k.mark("code", c.tenant, owner)
		c.t.Code(code, vh.Give(mint(rnd, c, owner, "", time.Hour)))
		first := visit("callback scenario", b, page, "")
		a, err := vh.ParseLogin(first)
		if err != nil {
			return
		}
		q := vh.Callback(page, code, a.State)
		switch rnd.Intn(6) {
		case 0:
			q.PState = ""
		case 1:
			q.PState = a.State + "x"
		case 2:
			b = vh.NewBrowser()
		case 3:
			for n := range b.Jar {
				b.Jar[n] = b.Jar[n][:len(b.Jar[n])-3]
			}
		case 4:
			q.PErr = "access_denied"
		case 5:
			q.Svc = []string{"gone", "dead"}[rnd.Intn(2)]
		}
		visit("bad callback", b, q, "")
	})
	add("api", r.Pick(800, 8000)/share, func(rnd *rand.Rand, i int) {
		c := cls[rnd.Intn(len(cls))]
		owner := fmt.Sprint("api", i)
		shape := append([]string{"swapped"}, shapes...)[rnd.Intn(len(shapes)+1)]
		tk := mint(rnd, c, owner, shape, time.Hour)
		q := vh.Get(ns, []string{"api-" + c.name, "api-" + c.name, "gone", "open"}[rnd.Intn(4)], []string{"/x", "/ruled", "/j"}[rnd.Intn(3)])
		switch rnd.Intn(7) {
		case 0:
			q.Authz = "Bearer " + tk.Access
		case 1:
			q.Authz = tk.Access + " " + tk.ID
		case 2:
			q.Authz = "Bearer " + tk.Access + " " + tk.ID + " " + tk.Refresh
		case 3:
			q.Authz = "Basic " + tk.Access
		default:
			q.Authz = "Bearer " + tk.Access + " " + tk.ID
		}
		resp := w.Do(q)
		k.answer("API request with "+shape+" tokens", q, resp, "")
		if resp.Allowed() {
			r.Count("api_accepted", 1)
		} else {
			r.Count("api_rejected", 1)
		}
	})
	add("broken", r.Pick(60, 600)/share, func(rnd *rand.Rand, i int) {
		c, owner, page, b := begin(rnd, i)
		tk := mint(rnd, c, owner, "", time.Hour)
		login(rnd, "login", owner, c, page, b, tk, vh.Give(tk))
		q := vh.Get(ns, []string{"gone", "dead", "open", "web-c0", fmt.Sprint("odd", rnd.Intn(7))}[rnd.Intn(5)], "/x")
		q.Cookies = b.Header()
		switch rnd.Intn(5) {
		case 0:
			q.NoParams = true
		case 1:
			q.Authz = "Bearer " + tk.Access + " " + tk.ID
		case 2:
			q.NoTarget = true
		case 3:
			q.NoParams, q.NoTarget, q.Authz = rnd.Intn(2) == 0, true, "Bearer "+tk.Access+" "+tk.ID
		}
		own := ""
		if q.Svc == "web-"+c.name {
			own = owner
		}
		k.answer("request that cannot be served", q, w.Do(q), own)
	})
	seeds := make([]int64, len(jobs))
	for i := range seeds {
		seeds[i] = rnd.Int63()
	}
	order := rnd.Perm(len(jobs))
	stop, stopped := make(chan bool), make(chan bool)
	go func() { // secrets and methods change meanwhile
		defer close(stopped)
		rnd := r.Rand("c22churn")
		for {
			select {
			case <-stop:
				return
			case <-time.After(150 * time.Millisecond):
				applyCfg(rnd, cls[rnd.Intn(len(cls))])
				r.Count("configuration_changes", 1)
			}
		}
	}()
	par(len(jobs), 48, func(n int) {
		i := order[n]
		if !r.TooMany() {
			r.Case(fmt.Sprint(names[i], " ", i), true)
			jobs[i](rand.New(rand.NewSource(seeds[i])), i)
		}
	})
	close(stop)
	<-stopped
	w.CheckAlive("serving a mixed load")
	// the API server has no business with them either
	for _, q := range w.Kube.Log() {
		if ts := k.find(q.Path, q.Query, q.Body); len(ts) > 0 {
			r.Violation(fmt.Sprintf("%s %s was sent to the API server", article(ts[0].kind), ts[0].kind), vh.M{"method": q.Method, "path": q.Path, "body": trunc(q.Body, 2000)})
		}
		r.Count("api_server_requests", 1)
	}
}
