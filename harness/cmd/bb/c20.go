package main

import (
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/vh"
)

func init() { checks["C20"] = c20 }

// cred is what a configuration says about its client.
type cred struct {
	Tenant, ID, Plain, Method string
	RefName, RefKey           string
	Stored                    map[string]string // the referenced secret, nil when there is none
	Secret                    string            // what must be used
	Scopes                    []string
}

func (c *cred) resolve() {
	c.Secret = c.Plain
	if c.RefName != "" && c.RefKey != "" && c.Stored[c.RefKey] != "" {
		c.Secret = c.Stored[c.RefKey]
	}
}

// judgeCred returns what is wrong with the credentials of a token request.
func judgeCred(h vh.HReq, c *cred) string {
	if h.Tenant != c.Tenant {
		return "the token request went to another IdP"
	}
	if strings.Contains(h.URI, "?") {
		return "the token endpoint was asked with a query of its own"
	}
	form := url.Values{}
	form, err := url.ParseQuery(h.Body)
	if err != nil {
		return "the token request is not form encoded: " + err.Error()
	}
	if h.Method != "POST" || !strings.HasPrefix(h.Header.Get("Content-Type"), "application/x-www-form-urlencoded") {
		return "the token request is not a form post"
	}
	auth := h.Header["Authorization"]
	if c.Method == "client_secret_post" {
		switch {
		case len(auth) != 0:
			return "client_secret_post with an Authorization header"
		case len(form["client_id"]) != 1 || form["client_id"][0] != c.ID:
			return "another client id in the form"
		case len(form["client_secret"]) != 1 || form["client_secret"][0] != c.Secret:
			return "another client secret in the form"
		}
		return ""
	}
	if len(form["client_secret"]) != 0 {
		return "the client secret is in the form though basic authentication is configured"
	}
	if len(auth) != 1 || h.Basic == nil {
		return "no basic credentials"
	}
	got := h.Basic[0] + ":" + h.Basic[1]
	if got != c.ID+":"+c.Secret && got != url.QueryEscape(c.ID)+":"+url.QueryEscape(c.Secret) {
		return "other basic credentials"
	}
	return ""
}

// oddSecret makes up a client secret. Plain values travel as JSON text.
func oddSecret(rnd *rand.Rand, binary bool) string {
	s := fmt.Sprintf("s%x", rnd.Int63())
	if rnd.Intn(3) == 0 { // what something might take off, take for a notation, or replace
		odd := []string{s + "\r\n", "\n" + s, "\"" + s + "\"", "'" + s + "'", "${" + s + "}", "$(" + s + ")", "{{ ." + s + " }}", "%" + s + "%s%d", "\ufeff" + s, "{\"a\":\"" + s + "\"}",
			"secret:" + s, "file:///" + s, "base64:" + s, "Basic " + s, "=" + s, s + "=", s + ";", s + ",", "#" + s, "--" + s, "-", "*", "0", "null", "true", "undefined", "<none>", "s", strings.ToUpper(s), s + "%", s + "%zz", s + "\u2028"}
		if binary {
			odd = append(odd, s+"\x00", "\x00"+s, "\xff"+s, s+"\xc3", s+"\x00\n", "\xef\xbb\xbf"+s, "\x7f"+s+"\x01")
		}
		return odd[rnd.Intn(len(odd))]
	}
	switch rnd.Intn(10) {
	case 0:
		return s + "+/=&%20 ;:"
	case 1:
		return ":" + s + ":" + s
	case 2:
		return s + "\n"
	case 3:
		return " " + s + " "
	case 4:
		return s + "äöü漢字\u00a0"
	case 5:
		return s + "\"'<>\\\t"
	case 6:
		return s + strings.Repeat("x", 1500)
	case 7:
		if binary {
			return s + "\x00\xff\xfe" + s
		}
	case 8:
		return strings.Repeat("Zm9v", 3) + s + "=="
	}
	return s
}

func c20() {
	r := vh.NewReport("C20", "cases are token requests of logins, failing logins and refreshes under configurations that change their client, secret, reference, method and IdP over time; distinct by configuration and step; non-trivial when a token request was judged")
	r.Assumptions = []string{"a referenced secret is read when the configuration is created or updated, with the API server available", "basic credentials may be form encoded (RFC 6749) or not"}
	rnd := r.Rand("c20")
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	vh.PreKeys(2, 1024)
	key := vh.NewKeyE("k1", 1024, 65537)
	nss := []string{"n1", "n2", "n3", "n-4"}
	cfgs := []string{"main", "other", "x", "main2"}
	tenants := []string{"a", "b", "c"}
	for _, n := range tenants {
		w.IdP.Tenant(n).SetKeys(key)
	}
	for _, ns := range nss {
		var ts []vh.M
		for _, c := range cfgs {
			ts = append(ts, vh.M{"serviceName": "svc-" + c, "paths": []vh.M{vh.PathEntry("oidc", "", "/", "", c, "", []vh.M{vh.Rule("kind", "ALL", "access_token", "acc")})}})
		}
		// one service, several configurations
		var ps []vh.M
		for _, c := range cfgs {
			ps = append(ps, vh.PathEntry("oidc", "", "/"+c, "", c, "", []vh.M{vh.Rule("kind", "ALL", "access_token", "acc")}))
		}
		ts = append(ts, vh.M{"serviceName": "all", "paths": ps})
		w.Kube.Apply(vh.Policies, ns, "p", vh.M{"targets": ts})
	}
	w.SyncPolicies()

	var mu sync.Mutex
	now := map[string]*cred{} // ns/name
	ids := []string{"client", "client2", "a:b", "ünï cödé", "x&y=z", "c+d%20", "client", " client", "client ", "\tclient\n", "Client"}
	apply := func(rnd *rand.Rand, ns, name string, same bool) {
		c := &cred{Tenant: tenants[rnd.Intn(len(tenants))], ID: ids[rnd.Intn(len(ids))]}
		if same { // only the credentials change
			old := now[ns+"/"+name]
			c.Tenant, c.ID = old.Tenant, old.ID
		}
		c.Method = []string{"", "client_secret_basic", "client_secret_post", "client_secret_post"}[rnd.Intn(4)]
		if rnd.Intn(3) != 0 {
			c.Plain = oddSecret(rnd, false)
		}
		if rnd.Intn(3) != 0 {
			c.RefName, c.RefKey = fmt.Sprint("sec-", name, rnd.Intn(2)), []string{"secret", "clientSecret", "k.e-y_1"}[rnd.Intn(3)]
			switch rnd.Intn(9) {
			case 0: // no such secret
				w.Kube.DeleteSecret(ns, c.RefName)
			case 1: // no such key
				c.Stored = map[string]string{"another": oddSecret(rnd, true), "Secret": "wrongcase"}
				if rnd.Intn(2) == 0 { // though there is only one
					c.Stored = map[string]string{[]string{"another", "Secret", "SECRET", "client-secret", "client_secret", "password"}[rnd.Intn(6)]: oddSecret(rnd, true)}
				}
			case 2:
				c.Stored = map[string]string{c.RefKey: "", "another": oddSecret(rnd, true)}
			case 3:
				c.RefKey = ""
				c.Stored = map[string]string{"secret": oddSecret(rnd, true)}
			case 4:
				c.RefName = ""
			default:
				c.Stored = map[string]string{c.RefKey: oddSecret(rnd, true), "another": oddSecret(rnd, true)}
			}
			if c.Stored != nil && c.RefName != "" {
				w.Kube.SetSecret(ns, c.RefName, c.Stored)
			}
			for _, o := range nss { // secrets of that name elsewhere
				if o != ns && c.RefName != "" && rnd.Intn(2) == 0 && strings.HasSuffix(c.RefName, "1") {
					k := c.RefKey
					if k == "" {
						k = "secret"
					}
					if cc := now[o+"/"+name]; cc == nil || cc.RefName != c.RefName {
						w.Kube.SetSecret(o, c.RefName, map[string]string{k: "foreign" + oddSecret(rnd, true)})
					}
				}
			}
		}
		c.resolve()
		spec := vh.M{"clientId": c.ID, "discoveryUrl": w.IdP.Tenant(c.Tenant).DiscoveryURL()}
		if c.Plain != "" {
			spec["clientSecret"] = c.Plain
		}
		if c.Method != "" {
			spec["authMethod"] = c.Method
		}
		if c.RefName+c.RefKey != "" {
			spec["clientSecretRef"] = vh.M{"name": c.RefName, "key": c.RefKey}
		}
		if rnd.Intn(2) == 0 {
			spec["scopes"] = []string{"openid", fmt.Sprint("s", rnd.Intn(9))}
		}
		w.Kube.Apply(vh.OidcConfigs, ns, name, spec)
		mu.Lock()
		now[ns+"/"+name] = c
		mu.Unlock()
	}
	fail := func(what string, wit vh.M) {
		if w.CheckAlive("exchanging codes") {
			r.Violation(what, wit)
		}
	}
	// every token request is handed to whoever waits for its code or refresh token
	var book sync.Map // code or refresh token -> *tokenReqs
	w.IdP.KeepLog = false
	w.IdP.Monitor = func(h *vh.HReq) {
		if h.Endpoint != "token" {
			return
		}
		f, _ := url.ParseQuery(h.Body)
		k := "code " + f.Get("code")
		if f.Get("grant_type") == "refresh_token" {
			k = "refresh " + f.Get("refresh_token")
		}
		if v, ok := book.Load(k); ok {
			v.(*tokenReqs).add(*h)
		} else {
			r.Violation("a token request nobody asked for", vh.M{"body": h.Body, "tenant": h.Tenant, "authorization": h.Header["Authorization"]})
		}
	}
	var nr int64
	mkTok := func(ttl time.Duration) vh.Tokens {
		n := atomic.AddInt64(&nr, 1)
		c := vh.Claims{"kind": "acc", "jti": n, "exp": time.Now().Add(ttl).Unix()}
		return vh.Tokens{Access: key.Sign(c), ID: key.Sign(vh.Claims{"jti": n, "exp": time.Now().Add(time.Hour).Unix()}), Refresh: fmt.Sprint("rt-", n)}
	}
	judge := func(what string, reqs *tokenReqs, n int, c *cred, wit vh.M) bool {
		l := reqs.get()
		if len(l) < n {
			fail(what+": no token request was made", wit)
			return false
		}
		for _, h := range l {
			r.Count("token_requests", 1)
			if c.Method == "client_secret_post" {
				r.Count("by_post", 1)
			} else {
				r.Count("by_basic", 1)
			}
			if e := judgeCred(h, c); e != "" {
				wit["token_request"] = vh.M{"tenant": h.Tenant, "uri": h.URI, "body": h.Body, "authorization": h.Header["Authorization"], "basic": h.Basic}
				wit["configured"] = c
				fail(what+": "+e, wit)
				return false
			}
		}
		return true
	}
	// login by one configuration, the IdP answering as told
	login := func(rnd *rand.Rand, step int, ns, name string, ttl time.Duration) (*vh.Browser, vh.Tokens) {
		mu.Lock()
		c := now[ns+"/"+name]
		mu.Unlock()
		page := vh.Get(ns, "svc-"+name, "/p")
		if rnd.Intn(2) == 0 {
			page = vh.Get(ns, "all", "/"+name+"/p")
		}
		b := vh.NewBrowser()
		first := w.Visit(b, page)
		wit := vh.M{"configuration": ns + "/" + name, "step": step, "request": vh.ReqM(page)}
		a, err := vh.ParseLogin(first)
		if c == nil {
			if first.Allowed() || err == nil {
				wit["answer"] = first.String()
				fail("a request by a deleted configuration was let through or sent to log in", wit)
			}
			r.Count("deleted_configurations", 1)
			return nil, vh.Tokens{}
		}
		if err != nil {
			wit["answer"] = first.String()
			fail("no login: "+err.Error(), wit)
			return nil, vh.Tokens{}
		}
		code := w.NextCode()
		reqs := &tokenReqs{}
		book.Store("code "+code, reqs)
		tk := mkTok(ttl)
		kind := rnd.Intn(8)
		if ttl < time.Minute {
			kind = 7
		}
		w.IdP.Tenant(c.Tenant).Code(code, func(*vh.HReq) (int, []byte) {
			switch kind {
			case 0:
				return 401, []byte(`{"error":"invalid_client"}`)
			case 1:
				return 400, []byte(`{"error":"invalid_request","error_description":"use client_secret_post"}`)
			case 2:
				return 500, nil
			case 3:
				return -1, nil
			}
			return 200, vh.TokenJSON(tk)
		})
		resp := w.Visit(b, vh.Callback(page, code, a.State))
		r.Case(fmt.Sprint("login ", ns, "/", name, " ", step, " ", code), true)
		wit["callback"] = trunc(resp.String(), 300)
		if !judge("a login", reqs, 1, c, wit) || kind < 4 {
			return nil, tk
		}
		if _, _, ok := resp.Redirect(); !ok {
			if ttl >= time.Minute {
				fail("a login failed with the right credentials", wit)
			}
			return nil, tk
		}
		r.Count("logins", 1)
		if step < 3 {
			r.Sample("credentials", vh.M{"method": c.Method, "id": c.ID, "by_reference": c.Secret != c.Plain, "tenant": c.Tenant})
		}
		return b, tk
	}
	each := func(step int, per int) {
		type job struct {
			ns, name string
			seed     int64
		}
		var jobs []job
		for _, ns := range nss {
			for _, c := range cfgs {
				for k := 0; k < per; k++ {
					jobs = append(jobs, job{ns, c, rnd.Int63()})
				}
			}
		}
		par(len(jobs), 24, func(i int) {
			if !r.TooMany() {
				login(rand.New(rand.NewSource(jobs[i].seed)), step, jobs[i].ns, jobs[i].name, time.Hour)
			}
		})
	}
	for _, ns := range nss {
		for _, c := range cfgs {
			apply(rnd, ns, c, false)
		}
	}
	w.SyncOidc()
	each(0, 3)
	steps := r.Pick(40, 600)
	for s := 1; s <= steps && !r.TooMany(); s++ {
		for k, n := 0, 2+rnd.Intn(14); k < n; k++ {
			ns, c := nss[rnd.Intn(len(nss))], cfgs[rnd.Intn(len(cfgs))]
			switch rnd.Intn(7) {
			case 0:
				w.Kube.Delete(vh.OidcConfigs, ns, c)
				mu.Lock()
				now[ns+"/"+c] = nil
				mu.Unlock()
			case 1: // twice in a row
				apply(rnd, ns, c, false)
				apply(rnd, ns, c, false)
			default:
				apply(rnd, ns, c, rnd.Intn(2) == 0 && now[ns+"/"+c] != nil)
			}
			r.Count("changes", 1)
		}
		w.SyncOidc()
		each(s, 1)
	}
	// ---- sessions outlive changes of the credentials
	rounds := r.Pick(2, 10)
	for round := 0; round < rounds && !r.TooMany(); round++ {
		for _, ns := range nss {
			for _, c := range cfgs {
				apply(rnd, ns, c, false)
			}
		}
		w.SyncOidc()
		type live struct {
			ns, name string
			b        *vh.Browser
			tk       vh.Tokens
		}
		var mu2 sync.Mutex
		var ls []live
		var seeds []int64
		for i := 0; i < 32; i++ {
			seeds = append(seeds, rnd.Int63())
		}
		until := time.Now().Add(6 * time.Second)
		par(32, 24, func(i int) {
			ns, name := nss[i%4], cfgs[i/4%4]
			b, tk := login(rand.New(rand.NewSource(seeds[i])), 1000+round, ns, name, time.Until(until))
			if b != nil {
				mu2.Lock()
				ls = append(ls, live{ns, name, b, tk})
				mu2.Unlock()
			}
		})
		for _, ns := range nss {
			for k, c := range cfgs {
				if k%2 == round%2 {
					apply(rnd, ns, c, true)
				}
			}
		}
		w.SyncOidc()
		time.Sleep(time.Until(until.Add(1100 * time.Millisecond)))
		par(len(ls), 24, func(i int) {
			if r.TooMany() {
				return
			}
			l := ls[i]
			mu.Lock()
			c := now[l.ns+"/"+l.name]
			mu.Unlock()
			reqs := &tokenReqs{}
			book.Store("refresh "+l.tk.Refresh, reqs)
			nt := mkTok(time.Hour)
			odd := i%4 == 3
			w.IdP.Tenant(c.Tenant).Refresh(l.tk.Refresh, func(*vh.HReq) (int, []byte) {
				if odd {
					return 401, []byte(`{"error":"invalid_client"}`)
				}
				return 200, vh.TokenJSON(nt)
			})
			page := vh.Get(l.ns, "svc-"+l.name, "/p")
			resp := w.Visit(l.b, page)
			r.Case(fmt.Sprint("refresh ", round, " ", i), true)
			wit := vh.M{"configuration": l.ns + "/" + l.name, "request": vh.ReqM(page), "answer": trunc(resp.String(), 300)}
			if judge("a refresh", reqs, 1, c, wit) {
				r.Count("refreshes", 1)
				if resp.Allowed() == odd {
					fail("a refresh did not end as the IdP answered", wit)
				}
			}
		})
	}
	r.Floor("by_post", 100)
	r.Floor("by_basic", 100)
	r.Floor("refreshes", 20)
	r.Floor("deleted_configurations", 1)
	r.Finish()
}

// tokenReqs collects token requests.
type tokenReqs struct {
	mu sync.Mutex
	l  []vh.HReq
}

func (t *tokenReqs) add(h vh.HReq) { t.mu.Lock(); t.l = append(t.l, h); t.mu.Unlock() }
func (t *tokenReqs) get() []vh.HReq {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]vh.HReq{}, t.l...)
}
