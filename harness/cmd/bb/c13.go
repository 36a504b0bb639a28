package main

import (
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/vh"
)

func init() { checks["C13"] = c13 }

// keyServer is a tenant's key endpoint that records what it served.
type keyServer struct {
	mu    sync.Mutex
	t     *vh.Tenant
	pub   map[string]*vh.Key // published, by kid
	known map[string]*vh.Key // keys in the last complete answer
	bad   string             // how fetches fail, "" for not at all
	good  int                // complete answers
	fails int
}

var badFetches = map[string]func(rw http.ResponseWriter){
	"500":      func(rw http.ResponseWriter) { rw.WriteHeader(500); rw.Write([]byte("oops")) },
	"503 json": func(rw http.ResponseWriter) { rw.WriteHeader(503); rw.Write([]byte(`{"error":"x"}`)) },
	"404 json": func(rw http.ResponseWriter) {
		rw.WriteHeader(404)
		rw.Write([]byte(`{"error":"not_found","error_description":"no such realm"}`))
	},
	"429 json": func(rw http.ResponseWriter) {
		rw.Header().Set("Retry-After", "3600")
		rw.WriteHeader(429)
		rw.Write([]byte(`{"error":"slow_down","error_code":"x"}`))
	},
	"401 json": func(rw http.ResponseWriter) {
		rw.WriteHeader(401)
		rw.Write([]byte(`{"error":"invalid_client","error_description":"d","issuer":"x"}`))
	},
	"204":           func(rw http.ResponseWriter) { rw.WriteHeader(204) },
	"304":           func(rw http.ResponseWriter) { rw.WriteHeader(304) },
	"302":           func(rw http.ResponseWriter) { rw.WriteHeader(302) },
	"404":           func(rw http.ResponseWriter) { rw.WriteHeader(404) },
	"500 with keys": func(rw http.ResponseWriter) { rw.WriteHeader(500); rw.Write([]byte(`{"keys":[]}`)) },
	"empty":         func(rw http.ResponseWriter) {},
	"html":          func(rw http.ResponseWriter) { rw.Write([]byte("<html>maintenance</html>")) },
	"object":        func(rw http.ResponseWriter) { rw.Write([]byte("{}")) },
	"null":          func(rw http.ResponseWriter) { rw.Write([]byte("null")) },
	"null keys":     func(rw http.ResponseWriter) { rw.Write([]byte(`{"keys":null}`)) },
	"other field":   func(rw http.ResponseWriter) { rw.Write([]byte(`{"error":"temporarily_unavailable"}`)) },
	"truncated":     func(rw http.ResponseWriter) { rw.Write([]byte(`{"keys":[{"kid":"k","kty":"RSA"`)) },
	"array":         func(rw http.ResponseWriter) { rw.Write([]byte("[]")) },
	"keys string":   func(rw http.ResponseWriter) { rw.Write([]byte(`{"keys":"none"}`)) },
	"keys number":   func(rw http.ResponseWriter) { rw.Write([]byte(`{"keys":7}`)) },
	"bad utf8":      func(rw http.ResponseWriter) { rw.Write([]byte("\xff\xfe{")) },
	"dropped":       func(rw http.ResponseWriter) { dropConn(rw, "") },
	"garbage":       func(rw http.ResponseWriter) { dropConn(rw, "not http at all\r\n\r\n") },
	"short": func(rw http.ResponseWriter) {
		dropConn(rw, "HTTP/1.1 200 OK\r\nContent-Length: 500\r\n\r\n{\"keys\":[")
	},
}

func dropConn(rw http.ResponseWriter, first string) {
	if c, _, err := rw.(http.Hijacker).Hijack(); err == nil {
		c.Write([]byte(first))
		c.Close()
	}
}

func newKeyServer(t *vh.Tenant) *keyServer {
	k := &keyServer{t: t, pub: map[string]*vh.Key{}, known: map[string]*vh.Key{}}
	t.Override("jwks", func(rw http.ResponseWriter, _ *http.Request) {
		k.mu.Lock()
		defer k.mu.Unlock()
		if k.bad != "" {
			k.fails++
			badFetches[k.bad](rw)
			return
		}
		var ks []*vh.Key
		k.known = map[string]*vh.Key{}
		for kid, key := range k.pub {
			ks = append(ks, key)
			k.known[kid] = key
		}
		sort.Slice(ks, func(a, b int) bool { return ks[a].Kid < ks[b].Kid })
		k.good++
		rw.Write(vh.JwksJSON(ks...))
	})
	return k
}

func (k *keyServer) with(f func()) { k.mu.Lock(); f(); k.mu.Unlock() }

func c13() {
	r := vh.NewReport("C13", "cases are requests in histories of publishing and withdrawing keys, failing and malformed key fetches and discovery answers, configurations created during outages of many kinds, and concurrent requests for one unknown key while its fetch is held; judged against what the key endpoint actually served; distinct by history and step")
	vh.NoReuse(r)
	r.Assumptions = []string{"configurations are not re-applied during an outage", "a complete answer without keys withdraws them all"}
	rnd := r.Rand("c13")
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	vh.PreKeys(12, 1024)
	pool := make([]*vh.Key, 12)
	for i := range pool {
		pool[i] = vh.NewKeyE("", 1024, 65537)
	}
	keyOf := func(i int) *vh.Key { return &vh.Key{Kid: fmt.Sprint("kid-", i), Priv: pool[i%len(pool)].Priv} }
	var badKinds []string
	for k := range badFetches {
		badKinds = append(badKinds, k)
	}
	sort.Strings(badKinds)
	w.IdP.KeepLog = false
	apply := func(name string, t *vh.Tenant) {
		w.Kube.Apply(vh.JwtConfigs, "n", name, vh.M{"jwksUrl": t.JwksURL()})
		w.Kube.Apply(vh.OidcConfigs, "n", name, vh.M{"clientId": "c-" + name, "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
		w.Kube.Apply(vh.Policies, "n", name, vh.Spec(name, vh.PathEntry("jwt", "", "/j", "", name, "", nil), vh.PathEntry("oidc", "", "/o", "", name, "", nil)))
	}
	fail := func(what string, wit vh.M) {
		if w.CheckAlive("rotating keys") && !r.TooMany() {
			r.Violation(what, wit)
		}
	}
	var seq int64
	// jwtTry presents an API token; oidcTry logs in with tokens of that key.
	jwtTry := func(name string, k *vh.Key) *vh.Resp {
		return w.Do(vh.Bearer("n", name, "/j/x", k.Sign(vh.BaseClaims("u").With("jti", atomic.AddInt64(&seq, 1)))))
	}
	oidcTry := func(name string, t *vh.Tenant, k *vh.Key) (bool, string) {
		b := vh.NewBrowser()
		page := vh.Get("n", name, "/o/x")
		a, err := vh.ParseLogin(w.Visit(b, page))
		if err != nil {
			return false, err.Error()
		}
		code := w.NextCode()
		t.Code(code, vh.Give(vh.Tokens{Access: k.Sign(vh.BaseClaims("u").With("aud", "c-"+name)), ID: k.Sign(vh.BaseClaims("u")), Refresh: "r"}))
		resp := w.Visit(b, vh.Callback(page, code, a.State))
		last := w.Visit(b, page)
		return last.Allowed(), resp.String() + " then " + last.String()
	}

	// ---- random histories, one request at a time per configuration
	hist := r.Pick(24, 200)
	steps := r.Pick(60, 150)
	seeds := make([]int64, hist)
	servers := make([]*keyServer, hist)
	for i := range seeds {
		seeds[i] = rnd.Int63()
		servers[i] = newKeyServer(w.IdP.Tenant(fmt.Sprint("h", i)))
		servers[i].pub["kid-0"] = keyOf(0)
		if i%4 == 3 {
			servers[i].bad = badKinds[(i/4)%len(badKinds)]
		}
		apply(fmt.Sprint("h", i), servers[i].t)
	}
	w.SyncAll()
	par(hist, 8, func(i int) {
		rnd := rand.New(rand.NewSource(seeds[i]))
		ks, name := servers[i], fmt.Sprint("h", i)
		oidc := i%2 == 1
		// the two configurations fetch for themselves: only one of them is used after this
		ks.with(func() {
			if ks.bad == "" {
				ks.known = map[string]*vh.Key{"kid-0": keyOf(0)}
			}
		})
		next := 1
		var trace []string
		for s := 0; s < steps && !r.TooMany() && w.Sut.Alive(); s++ {
			switch op := rnd.Intn(13); {
			case op == 12: // the key of a key id is replaced
				kid := fmt.Sprint("kid-", rnd.Intn(next))
				k := &vh.Key{Kid: kid, Priv: pool[rnd.Intn(len(pool))].Priv}
				ks.with(func() {
					if ks.pub[kid] != nil {
						ks.pub[kid] = k
						trace = append(trace, "another key for "+kid)
						r.Count("replaced", 1)
					}
				})
			case op < 2: // publish
				k := keyOf(next)
				ks.with(func() { ks.pub[k.Kid] = k })
				trace = append(trace, "publish "+k.Kid)
				next++
				r.Count("published", 1)
			case op < 3: // withdraw
				if rnd.Intn(4) > 0 {
					kid := fmt.Sprint("kid-", rnd.Intn(next))
					ks.with(func() { delete(ks.pub, kid) })
					trace = append(trace, "withdraw "+kid)
				} else {
					ks.with(func() { ks.pub = map[string]*vh.Key{} })
					trace = append(trace, "withdraw all")
				}
				r.Count("withdrawn", 1)
			case op < 5:
				b := badKinds[rnd.Intn(len(badKinds))]
				if rnd.Intn(2) == 0 {
					b = ""
				}
				ks.with(func() { ks.bad = b })
				trace = append(trace, "endpoint: "+b)
			default:
				n := rnd.Intn(next + 1)
				k := keyOf(n)
				if rnd.Intn(6) == 0 {
					k = &vh.Key{Kid: fmt.Sprint("never-", rnd.Intn(5)), Priv: pool[n%len(pool)].Priv}
				}
				same := func(o *vh.Key) bool { return o != nil && o.Priv == k.Priv }
				if rnd.Intn(2) == 0 {
					ks.with(func() {
						if o := ks.pub[k.Kid]; o != nil {
							k = o
						}
					})
				}
				var pub, kn, other, up bool
				var good int
				ks.with(func() {
					pub, kn, up, good = same(ks.pub[k.Kid]), same(ks.known[k.Kid]), ks.bad == "", ks.good
					other = ks.known[k.Kid] != nil && !kn // (is not asked for again)
				})
				// what must happen, given what was published and served before the request
				want := unknown
				switch {
				case pub && (up && !other || kn):
					want = yes
				case !pub && !kn:
					want = no
				}
				var ok bool
				var got string
				if oidc {
					ok, got = oidcTry(name, ks.t, k)
				} else {
					resp := jwtTry(name, k)
					ok, got = resp.Allowed(), resp.String()
				}
				ks.with(func() {
					if want == unknown && pub && ks.good > good && !same(ks.known[k.Kid]) {
						want = unknown
					}
				})
				trace = append(trace, fmt.Sprintf("use %s: %v", k.Kid, ok))
				if len(trace) > 80 {
					trace = trace[len(trace)-80:]
				}
				r.Case(fmt.Sprint("history ", i, " ", s), want != unknown)
				r.Count(map[int]string{yes: "must_accept", no: "must_reject", unknown: "either"}[want], 1)
				if want == yes && !up {
					r.Count("known_key_during_outage", 1)
				}
				wit := vh.M{"history": trace, "key": k.Kid, "published": pub, "in the last complete answer": kn, "endpoint answers": up, "answer": got}
				if want == yes && !ok {
					if up {
						fail("a token signed with a published key is rejected", wit)
					} else {
						fail("a failed key fetch discarded a known key", wit)
					}
				}
				if want == no && ok {
					fail("a token whose key was withdrawn (or never published) is accepted though the keys were fetched anew", wit)
				}
				if s%20 == 0 {
					r.Sample("history step", wit)
				}
			}
		}
	})

	// ---- configurations created during an outage
	type outage struct {
		name string
		set  func(t *vh.Tenant, ep string)
	}
	var outs []outage
	for _, b := range badKinds {
		f := badFetches[b]
		outs = append(outs, outage{b, func(t *vh.Tenant, ep string) {
			t.Override(ep, func(rw http.ResponseWriter, _ *http.Request) { f(rw) })
		}})
	}
	stop := make(chan bool)
	outs = append(outs, outage{"hangs", func(t *vh.Tenant, ep string) {
		t.Override(ep, func(rw http.ResponseWriter, q *http.Request) {
			select {
			case <-stop:
			case <-q.Context().Done():
			case <-time.After(20 * time.Second):
			}
		})
	}}, outage{"drips", func(t *vh.Tenant, ep string) {
		t.Override(ep, func(rw http.ResponseWriter, q *http.Request) {
			rw.WriteHeader(200)
			for i := 0; i < 200; i++ {
				if _, err := rw.Write([]byte(" ")); err != nil {
					return
				}
				rw.(http.Flusher).Flush()
				select {
				case <-stop:
					return
				case <-q.Context().Done():
					return
				case <-time.After(100 * time.Millisecond):
				}
			}
		})
	}})
	for _, f := range []string{"issuer", "jwks_uri", "authorization_endpoint", "token_endpoint", "userinfo_endpoint"} {
		f := f
		for _, how := range []string{"missing", "empty", "number"} {
			how := how
			outs = append(outs, outage{how + " " + f, func(t *vh.Tenant, ep string) {
				if ep != "disco" {
					return
				}
				d := t.DefaultDisco()
				switch how {
				case "missing":
					delete(d, f)
				case "empty":
					d[f] = ""
				case "number":
					d[f] = 17
				}
				t.SetDisco(d)
			}})
		}
	}
	type cas struct {
		name string
		o    outage
		eps  []string
		t    *vh.Tenant
		ref  string // address of a server that is not there yet

		pre *vh.Tenant // the IdP the configuration named before
		jar string     // a session from then
	}
	var cases []*cas
	k := keyOf(1)
	for i, o := range outs {
		for j, eps := range [][]string{{"disco", "jwks"}, {"disco"}, {"jwks"}} {
			slow := o.name == "hangs" || o.name == "drips"
			if strings.HasSuffix(o.name, "_endpoint") || strings.HasSuffix(o.name, "issuer") || strings.HasSuffix(o.name, "jwks_uri") {
				if j != 1 {
					continue
				}
			}
			if slow && j == 0 {
				continue // creating it would take the adapter twice as long; the two below cover it
			}
			c := &cas{name: fmt.Sprintf("out-%d-%d", i, j), o: o, eps: eps}
			c.t = w.IdP.Tenant(c.name)
			c.t.SetKeys(k)
			for _, ep := range eps {
				o.set(c.t, ep)
			}
			cases = append(cases, c)
		}
	}
	for i := 0; i < 4; i++ { // nothing listens yet
		c := &cas{name: fmt.Sprint("refused-", i), o: outage{name: "connection refused"}}
		ln, err := vh.Listen()
		if err != nil {
			continue
		}
		c.ref = ln.Addr().String()
		ln.Close()
		c.t = w.IdP.Tenant(c.name)
		c.t.SetKeys(k)
		cases = append(cases, c)
	}
	// half of the configurations are moved here from another IdP, which keeps working
	preKey := keyOf(30)
	for i, c := range cases {
		if i%2 == 0 {
			c.pre = w.IdP.Tenant("pre-" + c.name)
			c.pre.SetKeys(preKey)
			apply(c.name, c.pre)
		}
	}
	w.SyncAll()
	par(len(cases), 8, func(i int) {
		c := cases[i]
		if c.pre == nil {
			return
		}
		if resp := jwtTry(c.name, preKey); !resp.Allowed() {
			fail("API access does not work before the configuration moves", vh.M{"answer": resp.String()})
		}
		b := vh.NewBrowser()
		page := vh.Get("n", c.name, "/o/x")
		a, err := vh.ParseLogin(w.Visit(b, page))
		if err != nil {
			fail("login does not work before the configuration moves", vh.M{"answer": err.Error()})
			return
		}
		code := w.NextCode()
		c.pre.Code(code, vh.Give(vh.Tokens{Access: preKey.Sign(vh.BaseClaims("u").With("aud", "c-"+c.name)), ID: preKey.Sign(vh.BaseClaims("u")), Refresh: "r"}))
		w.Visit(b, vh.Callback(page, code, a.State))
		if resp := w.Visit(b, page); !resp.Allowed() {
			fail("login does not work before the configuration moves", vh.M{"answer": resp.String()})
		}
		c.jar = b.Header()
		r.Count("moved_configurations", 1)
	})
	// old judges what the IdP a configuration named before still counts for.
	old := func(c *cas, when string) {
		if c.pre == nil {
			return
		}
		wit := vh.M{"outage": c.o.name, "endpoints": c.eps, "when": when}
		if resp := jwtTry(c.name, preKey); resp.Allowed() {
			fail("a configuration that moved to another IdP accepts tokens of the one before", wit)
		}
		q := vh.Get("n", c.name, "/o/x")
		q.Cookies = c.jar
		if resp := w.Do(q); resp.Allowed() {
			fail("a configuration that moved to another IdP accepts sessions of the one before", wit)
		} else if a, err := vh.ParseLogin(resp); err == nil && a.URL.Scheme+"://"+a.URL.Host+a.URL.Path == c.pre.AuthURL() {
			fail("a configuration that moved to another IdP sends users to the one before", wit)
		}
		r.Case(fmt.Sprint("moved ", c.name, " ", when), true)
	}
	for _, c := range cases {
		if c.ref == "" {
			apply(c.name, c.t)
			continue
		}
		base := "http://" + c.ref + "/t/" + c.name
		w.Kube.Apply(vh.JwtConfigs, "n", c.name, vh.M{"jwksUrl": base + "/jwks"})
		w.Kube.Apply(vh.OidcConfigs, "n", c.name, vh.M{"clientId": "c-" + c.name, "clientSecret": "s", "discoveryUrl": base + "/disco"})
		w.Kube.Apply(vh.Policies, "n", c.name, vh.Spec(c.name, vh.PathEntry("jwt", "", "/j", "", c.name, "", nil), vh.PathEntry("oidc", "", "/o", "", c.name, "", nil)))
	}
	w.SyncAll()
	// during the outage: denied, and everybody else is served
	var healthy sync.WaitGroup
	healthy.Add(1)
	go func() {
		defer healthy.Done()
		for n := 0; n < 200; n++ {
			t0 := time.Now()
			i := n % hist
			kk := keyOf(77)
			servers[i].with(func() { servers[i].bad = ""; servers[i].pub[kk.Kid] = kk })
			resp := jwtTry(fmt.Sprint("h", i), kk)
			r.Count("bystanders", 1)
			if !resp.Allowed() {
				fail("a request to another endpoint is not served during an outage: "+resp.String(), nil)
				return
			}
			if time.Since(t0) > 4*time.Second {
				fail(fmt.Sprintf("a request to another endpoint was held up for %v during an outage", time.Since(t0)), nil)
				return
			}
		}
	}()
	par(len(cases), len(cases), func(i int) {
		c := cases[i]
		jdown := c.ref != ""
		odown := c.ref != "" || len(c.eps) > 0
		for _, e := range c.eps {
			jdown = jdown || e == "jwks"
		}
		q := vh.Get("n", c.name, "/o/x")
		q.Cookies = "oidc-cookie-c-" + c.name + "=abc"
		for _, resp := range []*vh.Resp{jwtTry(c.name, k), w.Do(q)} {
			_ = odown
			r.Case(fmt.Sprint("outage ", c.name), true)
			if resp.Allowed() && (jdown || resp.Authz != "") {
				fail(fmt.Sprintf("access granted during an outage (%s of %v)", c.o.name, c.eps), vh.M{"answer": resp.String()})
			}
		}
		if ok, got := oidcTry(c.name, c.t, k); ok && odown {
			fail(fmt.Sprintf("a session was accepted during an outage (%s of %v)", c.o.name, c.eps), vh.M{"answer": got})
		}
		old(c, "during the outage")
		r.Count("outage_requests", 3)
		if c.o.name == "hangs" || c.o.name == "drips" {
			return
		}
		// an outage with many users: none of what fails now may be remembered later
		end := time.Now().Add(12 * time.Second)
		n := 0
		for ; n < 150 && time.Now().Before(end) && w.Sut.Alive(); n++ {
			page := vh.Get("n", c.name, "/o/x")
			var resp *vh.Resp
			switch n % 3 {
			case 0:
				resp = jwtTry(c.name, k)
			case 1:
				page.Cookies = fmt.Sprintf("oidc-cookie-c-%s=abc%d", c.name, n)
				resp = w.Do(page)
			case 2:
				resp = w.Do(vh.Callback(page, fmt.Sprint("code", n), "nostate"))
			}
			if resp.Allowed() && (jdown || resp.Authz != "") {
				fail(fmt.Sprintf("access granted during an outage (%s of %v)", c.o.name, c.eps), vh.M{"answer": resp.String()})
			}
		}
		r.Count("outage_crowd", n)
		r.Max("outage_crowd_one", n)
	})
	healthy.Wait()
	// recovery, without any change to the configuration
	close(stop)
	for _, c := range cases {
		c.t.Override("disco", nil)
		c.t.Override("jwks", nil)
		c.t.SetDisco(nil)
		if c.ref != "" {
			var ln net.Listener
			if !vh.WaitFor(20*time.Second, func() bool { l, err := net.Listen("tcp", c.ref); ln = l; return err == nil }) {
				c.ref = "lost"
				continue
			}
			s := &http.Server{Handler: w.IdP}
			go s.Serve(ln)
			defer s.Close()
		}
	}
	par(len(cases), 8, func(i int) {
		c := cases[i]
		if c.ref == "lost" || r.TooMany() {
			return
		}
		var got string
		okJ := w.Eventually(func() bool { resp := jwtTry(c.name, k); got = resp.String(); return resp.Allowed() })
		r.Case(fmt.Sprint("recovery jwt ", c.name), true)
		if !okJ {
			fail(fmt.Sprintf("API access does not recover after an outage at creation (%s of %v)", c.o.name, c.eps), vh.M{"answer": got})
		}
		okO := w.Eventually(func() bool { ok, g := oidcTry(c.name, c.t, k); got = g; return ok })
		r.Case(fmt.Sprint("recovery oidc ", c.name), true)
		if !okO {
			fail(fmt.Sprintf("login does not recover after an outage at creation (%s of %v)", c.o.name, c.eps), vh.M{"answer": got})
		}
		old(c, "after the outage")
		// rotation works for it as for any other
		k2 := keyOf(50)
		c.t.SetKeys(k, k2)
		if !jwtTry(c.name, k2).Allowed() {
			fail("after an outage a newly published key is not accepted for API requests", vh.M{"outage": c.o.name})
		}
		if ok, g := oidcTry(c.name, c.t, k2); !ok {
			fail("after an outage a newly published key is not accepted for logins", vh.M{"outage": c.o.name, "answer": g})
		}
		r.Count("recoveries", 1)
	})

	// ---- outages that are noticed by very many requests
	down := func(rw http.ResponseWriter, _ *http.Request) { rw.WriteHeader(503) }
	nlong := r.Pick(4, 8)
	for i := 0; i < nlong; i++ {
		name := fmt.Sprint("long-", i)
		t := w.IdP.Tenant(name)
		t.SetKeys(k)
		if i%2 == 0 { // from the beginning
			t.Override("disco", down)
			t.Override("jwks", down)
		}
		apply(name, t)
	}
	w.SyncAll()
	par(nlong, 4, func(i int) {
		name := fmt.Sprint("long-", i)
		t := w.IdP.Tenant(name)
		fails := r.Pick(2500, 30000)
		if i%2 == 1 {
			jwtTry(name, k)
			oidcTry(name, t, k)
			t.Override("disco", down)
			t.Override("jwks", down)
		}
		nk := keyOf(70 + i)
		toks := make([]string, 16)
		for j := range toks {
			toks[j] = nk.Sign(vh.BaseClaims("u").With("jti", j))
		}
		var before = t.Hits("jwks") + t.Hits("disco")
		par(fails, 2, func(j int) {
			if w.Sut.Alive() {
				if i%4 < 2 {
					w.Do(vh.Bearer("n", name, "/j/x", toks[j%16]))
				} else {
					w.Do(vh.Get("n", name, "/o/x"))
				}
			}
		})
		for j := 0; j < 30 && i%4 == 3; j++ {
			oidcTry(name, t, nk)
		}
		r.Count("failed_fetches_in_long_outages", t.Hits("jwks")+t.Hits("disco")-before)
		r.Case("long "+name, true)
		t.SetKeys(k, nk)
		t.Override("disco", nil)
		t.Override("jwks", nil)
		var got string
		if !w.Eventually(func() bool { return jwtTry(name, nk).Allowed() }) {
			fail(fmt.Sprintf("API requests fail after an outage that %d requests had noticed", fails), vh.M{"outage": i})
		}
		if !w.Eventually(func() bool { var ok bool; ok, got = oidcTry(name, t, nk); return ok }) {
			fail(fmt.Sprintf("logins fail after an outage that %d requests had noticed", fails), vh.M{"outage": i, "answer": got})
		}
	})

	// ---- answers that take a while are answers
	nslow := r.Pick(8, 16)
	for i := 0; i < nslow; i++ {
		name := fmt.Sprint("slow-", i)
		t := w.IdP.Tenant(name)
		t.SetKeys(k)
		apply(name, t)
	}
	w.SyncAll()
	par(nslow, nslow, func(i int) {
		name := fmt.Sprint("slow-", i)
		t := w.IdP.Tenant(name)
		if !w.Eventually(func() bool { ok, _ := oidcTry(name, t, k); return ok && jwtTry(name, k).Allowed() }) {
			fail("access does not work", nil)
			return
		}
		nk := keyOf(80 + i)
		t.SetKeys(k, nk)
		t.Override("jwks", func(rw http.ResponseWriter, _ *http.Request) {
			time.Sleep(2200 * time.Millisecond)
			rw.Write(vh.JwksJSON(k, nk))
		})
		began := time.Now()
		var ok bool
		var got string
		if i%2 == 0 {
			resp := jwtTry(name, nk)
			ok, got = resp.Allowed(), resp.String()
		} else {
			ok, got = oidcTry(name, t, nk)
		}
		r.Case("slow "+name, true)
		if took := time.Since(began); took > 4500*time.Millisecond {
			r.Count("slow_answers_too_slow", 1) // (a busy machine)
		} else if r.Count("slow_answers", 1); !ok {
			fail("a token signed with a published key is rejected because the keys take two seconds to come", vh.M{"answer": got, "took": took.String()})
		}
		t.Override("jwks", nil)
	})

	// ---- one fetch for all requests with the same unknown key
	held := 0
	for round := 0; round < r.Pick(12, 60) && w.Sut.Alive() && !r.TooMany(); round++ {
		name := fmt.Sprint("share-", round)
		t := w.IdP.Tenant(name)
		t.SetKeys(k)
		apply(name, t)
		w.SyncAll()
		useO := round%3 == 2
		nk := keyOf(20)
		published := round%2 == 0
		if useO {
			if ok, got := oidcTry(name, t, k); !ok {
				fail("login does not work", vh.M{"answer": got})
				continue
			}
		} else if resp := jwtTry(name, k); !resp.Allowed() {
			fail("API access does not work", vh.M{"answer": resp.String()})
			continue
		}
		var hits, cur, maxCur int32
		release := make(chan bool)
		t.Override("jwks", func(rw http.ResponseWriter, _ *http.Request) {
			atomic.AddInt32(&hits, 1)
			c := atomic.AddInt32(&cur, 1)
			for {
				m := atomic.LoadInt32(&maxCur)
				if c <= m || atomic.CompareAndSwapInt32(&maxCur, m, c) {
					break
				}
			}
			<-release
			atomic.AddInt32(&cur, -1)
			if published {
				rw.Write(vh.JwksJSON(k, nk))
			} else {
				rw.Write(vh.JwksJSON(k))
			}
		})
		const n = 24
		res := make(chan string, n)
		for i := 0; i < n; i++ {
			go func(i int) {
				if useO {
					ok, got := oidcTry(name, t, nk)
					res <- fmt.Sprint(ok, " ", got)
				} else {
					resp := jwtTry(name, nk)
					res <- fmt.Sprint(resp.Allowed(), " ", resp.String())
				}
			}(i)
		}
		vh.WaitFor(10*time.Second, func() bool { return atomic.LoadInt32(&hits) > 0 })
		time.Sleep(300 * time.Millisecond) // let the others arrive: a lower count only makes the check milder
		during := atomic.LoadInt32(&hits)
		// keys that are known go on working meanwhile, and without delay
		kn := make(chan string, 1)
		go func() {
			if useO {
				ok, got := oidcTry(name, t, k)
				kn <- fmt.Sprint(ok, " ", got)
			} else {
				resp := jwtTry(name, k)
				kn <- fmt.Sprint(resp.Allowed(), " ", resp.String())
			}
		}()
		select {
		case s := <-kn:
			r.Count("known_key_during_fetch", 1)
			if !strings.HasPrefix(s, "true") {
				fail("a token of a known key was rejected while another key was being fetched", vh.M{"answer": s})
			}
		case <-time.After(4 * time.Second):
			if held++; held >= 3 {
				fail("tokens of known keys wait for the fetch of another key", vh.M{"rounds": held})
			}
		}
		close(release)
		okN := 0
		var sample string
		for i := 0; i < n; i++ {
			s := <-res
			if strings.HasPrefix(s, "true") {
				okN++
			} else {
				sample = s
			}
		}
		r.Case(fmt.Sprint("share ", round), during > 0)
		r.Count("shared_fetch_rounds", 1)
		r.Max("concurrent_fetches", int(atomic.LoadInt32(&maxCur)))
		wit := vh.M{"requests": n, "fetches while the first was held": during, "most at once": maxCur, "accepted": okN, "a rejection": sample}
		r.Sample("shared fetch", wit)
		if during > 3 {
			fail(fmt.Sprintf("%d concurrent requests for one unknown key issued %d key fetches", n, during), wit)
		}
		if published && okN != n {
			fail(fmt.Sprintf("%d of %d concurrent requests with a newly published key were rejected", n-okN, n), wit)
		}
		if !published && okN != 0 {
			fail("requests with an unpublished key were accepted", wit)
		}
		t.Override("jwks", nil)
	}
	w.CheckAlive("rotating keys")
	r.Floor("must_accept", hist*4)
	r.Floor("must_reject", hist*4)
	r.Floor("known_key_during_outage", hist)
	r.Floor("recoveries", len(cases)-2)
	r.Floor("moved_configurations", len(cases)/2-2)
	r.Floor("bystanders", 50)
	r.Floor("shared_fetch_rounds", 10)
	r.Floor("known_key_during_fetch", 5)
	r.Floor("failed_fetches_in_long_outages", 3000)
	r.Finish()
}
