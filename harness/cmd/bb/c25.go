package main

import (
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/vh"
)

func init() { checks["C25"] = c25 }

// certKind is a way for a server to prove its identity, or to fail to.
type certKind struct {
	name string
	good bool
	make func(host string) tls.Certificate
}

func certKinds(root, rogue *vh.CA) []certKind {
	mid := vh.NewCA("intermediate", root, nil)
	midRogue := vh.NewCA("intermediate", rogue, nil)
	twin := vh.NewCA(root.Cert.Subject.CommonName, nil, nil) // the trusted authority's name, another key
	oldMid := vh.NewCA("old intermediate", root, func(c *x509.Certificate) { c.NotAfter = time.Now().Add(-time.Hour) })
	leafCA := vh.NewCA("no authority", root, func(c *x509.Certificate) { c.IsCA = false; c.KeyUsage = x509.KeyUsageDigitalSignature })
	limited := vh.NewCA("limited", root, func(c *x509.Certificate) {
		c.PermittedDNSDomainsCritical = true
		c.PermittedDNSDomains = []string{"elsewhere.example"}
		_, n, _ := net.ParseCIDR("192.0.2.0/24")
		c.PermittedIPRanges = []*net.IPNet{n}
	})
	other := func(host string) string { // another server's name
		if net.ParseIP(host) != nil {
			return "192.0.2.7"
		}
		return "other." + host
	}
	k := func(name string, good bool, f func(host string) tls.Certificate) certKind {
		return certKind{name, good, f}
	}
	return []certKind{
		k("ordinary", true, func(h string) tls.Certificate { return root.Issue([]string{h}, nil) }),
		k("intermediate", true, func(h string) tls.Certificate { return mid.Issue([]string{h}, nil) }),
		k("several names", true, func(h string) tls.Certificate {
			return root.Issue([]string{"a.example", "192.0.2.1", h, "b.example"}, nil)
		}),
		k("unknown authority", false, func(h string) tls.Certificate { return rogue.Issue([]string{h}, nil) }),
		k("unknown authority with an intermediate", false, func(h string) tls.Certificate { return midRogue.Issue([]string{h}, nil) }),
		k("authority of the same name", false, func(h string) tls.Certificate { return twin.Issue([]string{h}, nil) }),
		k("self-signed", false, func(h string) tls.Certificate { return (*vh.CA)(nil).Issue([]string{h}, nil) }),
		k("self-signed authority", false, func(h string) tls.Certificate {
			return (*vh.CA)(nil).Issue([]string{h}, func(c *x509.Certificate) { c.IsCA = true; c.KeyUsage |= x509.KeyUsageCertSign })
		}),
		k("other name", false, func(h string) tls.Certificate { return root.Issue([]string{other(h)}, nil) }),
		k("other names", false, func(h string) tls.Certificate {
			return mid.Issue([]string{"idp.example", "127.0.0.77", "192.0.2.1", "127.0.0.1.example"}, nil)
		}),
		k("no name", false, func(h string) tls.Certificate {
			return root.Issue(nil, func(c *x509.Certificate) { c.Subject.CommonName = h })
		}),
		k("expired", false, func(h string) tls.Certificate {
			return root.Issue([]string{h}, func(c *x509.Certificate) {
				c.NotBefore, c.NotAfter = time.Now().Add(-24*time.Hour), time.Now().Add(-10*time.Minute)
			})
		}),
		k("not yet valid", false, func(h string) tls.Certificate {
			return root.Issue([]string{h}, func(c *x509.Certificate) { c.NotBefore = time.Now().Add(2 * time.Hour) })
		}),
		k("of a client", false, func(h string) tls.Certificate {
			return root.Issue([]string{h}, func(c *x509.Certificate) { c.ExtKeyUsage = []x509.ExtKeyUsage{x509.ExtKeyUsageClientAuth} })
		}),
		k("without its intermediate", false, func(h string) tls.Certificate {
			c := mid.Issue([]string{h}, nil)
			c.Certificate = c.Certificate[:1]
			return c
		}),
		k("expired intermediate", false, func(h string) tls.Certificate { return oldMid.Issue([]string{h}, nil) }),
		k("issued by a server", false, func(h string) tls.Certificate { return leafCA.Issue([]string{h}, nil) }),
		k("wildcard", true, func(h string) tls.Certificate {
			if p := strings.SplitN(h, ".", 2); net.ParseIP(h) == nil && len(p) == 2 && strings.Contains(p[1], ".") {
				return root.Issue([]string{"*." + p[1]}, nil)
			}
			return mid.Issue([]string{"x." + h, h}, nil)
		}),
		k("wildcard below the name", false, func(h string) tls.Certificate {
			if net.ParseIP(h) != nil {
				return root.Issue([]string{"192.0.2.8"}, func(c *x509.Certificate) { c.DNSNames = []string{h} })
			}
			return root.Issue([]string{"*." + h}, nil)
		}),
		k("wildcard above the name", false, func(h string) tls.Certificate {
			p := strings.Split(h, ".")
			if net.ParseIP(h) != nil || len(p) < 3 {
				return root.Issue([]string{"*.example.com"}, nil)
			}
			return root.Issue([]string{"*." + strings.Join(p[2:], ".")}, nil)
		}),
		k("unknown authority shown with it", false, func(h string) tls.Certificate {
			c := rogue.Issue([]string{h}, nil)
			c.Certificate = append(c.Certificate, rogue.Cert.Raw)
			return c
		}),
		k("known authority shown with another's", false, func(h string) tls.Certificate {
			c := rogue.Issue([]string{h}, nil)
			c.Certificate = append(c.Certificate, root.Issue([]string{h}, nil).Certificate[0], root.Cert.Raw)
			return c
		}),
		k("outside the authority's names", false, func(h string) tls.Certificate { return limited.Issue([]string{h}, nil) }),
	}
}

// site is a front under one host name with one kind of certificate.
type site struct {
	kind  certKind
	host  string
	front *vh.Front
	hits  int64
	last  atomic.Value
}

func (s *site) url(tenant, ep string) string {
	return "https://" + s.host + ":" + s.front.Port + "/t/" + tenant + "/" + ep
}

func newSite(i *vh.IdP, kind certKind, host string) *site {
	s := &site{kind: kind, host: host}
	s.front = vh.NewFront(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		body, _ := io.ReadAll(r.Body)
		r.Body = io.NopCloser(bytes.NewReader(body))
		s.last.Store(fmt.Sprintf("%s %s %v %s", r.Method, r.URL, r.Header, body))
		atomic.AddInt64(&s.hits, 1)
		i.ServeHTTP(w, r)
	}), kind.make(host), false)
	return s
}

// connectProxy forwards CONNECT requests for any host to the loopback interface.
func connectProxy() (string, func()) {
	ln, err := vh.Listen()
	if err != nil {
		panic(err)
	}
	srv := &http.Server{Handler: http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		_, port, err := net.SplitHostPort(r.Host)
		if r.Method != "CONNECT" || err != nil {
			w.WriteHeader(400)
			return
		}
		up, err := net.Dial("tcp", "127.0.0.1:"+port)
		if err != nil {
			w.WriteHeader(502)
			return
		}
		c, rw, err := w.(http.Hijacker).Hijack()
		if err != nil {
			up.Close()
			return
		}
		fmt.Fprint(c, "HTTP/1.1 200 OK\r\n\r\n")
		go func() { io.Copy(up, rw); up.Close() }()
		go func() { io.Copy(c, up); c.Close() }()
	})}
	go srv.Serve(ln)
	return "http://" + ln.Addr().String(), func() { srv.Close() }
}

func c25() {
	r := vh.NewReport("C25", "the real adapter with https IdPs whose certificates are right or wrong in 18 ways, on each of the discovery, key, token and userinfo endpoints, at first use and after the certificate changed under running sessions; a monitor behind every server sees whether anything was sent to it; cases are a certificate kind, an endpoint, a host name and a step")
	r.Assumptions = []string{"the system's certificate authorities are those of SSL_CERT_FILE", "host names other than localhost are reached through HTTPS_PROXY"}
	root, rogue := vh.NewCA("trusted root", nil, nil), vh.NewCA("rogue root", nil, nil)
	dir := vh.Scratch("tls")
	ca := filepath.Join(dir, "ca.pem")
	if err := os.WriteFile(ca, root.PEM(), 0o644); err != nil {
		panic(err)
	}
	none := filepath.Join(dir, "none")
	os.MkdirAll(none, 0o755)
	proxy, stop := connectProxy()
	defer stop()
	w := vh.NewWorld(r, vh.SutOpts{Env: []string{"SSL_CERT_FILE=" + ca, "SSL_CERT_DIR=" + none, "HTTPS_PROXY=" + proxy, "https_proxy=" + proxy, "NO_PROXY=", "no_proxy="}})
	defer w.Close()
	w.IdP.KeepLog = false
	vh.PreKeys(4, 1024)
	key, key2 := vh.NewKeyE("k1", 1024, 65537), vh.NewKeyE("k2", 1024, 65537)
	kinds := certKinds(root, rogue)
	now := func() int64 { return time.Now().Unix() }
	var seq int64
	mint := func(k *vh.Key, t *vh.Tenant, opaque bool, ttl int64) vh.Tokens {
		n := atomic.AddInt64(&seq, 1)
		tk := vh.Tokens{ID: k.Sign(vh.Claims{"kind": "id", "exp": now() + 3600, "jti": n}), Refresh: fmt.Sprint("refresh-", n)}
		if opaque {
			tk.Access = fmt.Sprint("opaque-", n)
			t.Userinfo(tk.Access, 200)
		} else {
			tk.Access = k.Sign(vh.Claims{"aud": "client", "exp": now() + ttl, "jti": n})
		}
		return tk
	}
	const ns = "n"
	hosts := []string{"127.0.0.1", "localhost"}
	if as, err := net.LookupHost("localhost"); err != nil || !strings.Contains(strings.Join(as, " "), "127.0.0.1") {
		hosts = hosts[:1]
	}
	proxied := map[string]bool{"idp.example.com": true, "idp.default.svc.cluster.local": true, "login.internal": true, "idp": true}
	hosts = append(hosts, "idp.example.com", "idp.default.svc.cluster.local", "login.internal", "idp")

	// ---- each endpoint alone at a server of each kind
	type tcase struct {
		name, role string
		s          *site
		t          *vh.Tenant
	}
	sites := map[string]*site{} // kind and host
	for _, h := range hosts {
		for _, k := range kinds {
			s := newSite(w.IdP, k, h)
			defer s.front.Close()
			sites[k.name+"@"+h] = s
		}
	}
	var cases []*tcase
	var targets []vh.M
	for _, h := range hosts {
		fine := sites["ordinary@"+h]
		for _, k := range kinds {
			s := sites[k.name+"@"+h]
			for _, role := range []string{"jwt", "moved keys", "disco", "jwks", "token", "userinfo"} {
				n := fmt.Sprint("c", len(cases))
				c := &tcase{n, role, s, w.IdP.Tenant(n)}
				c.t.SetKeys(key)
				cases = append(cases, c)
				switch role {
				case "jwt":
					w.Kube.Apply(vh.JwtConfigs, ns, n, vh.M{"jwksUrl": s.url(n, "jwks")})
				case "moved keys": // another server refers to this one
					w.IdP.Tenant(n+"-from").Override("jwks", func(rw http.ResponseWriter, q *http.Request) {
						http.Redirect(rw, q, s.url(n, "jwks"), 302)
					})
					w.Kube.Apply(vh.JwtConfigs, ns, n, vh.M{"jwksUrl": fine.url(n+"-from", "jwks")})
				default:
					at := func(ep string) string {
						if ep == role {
							return s.url(n, ep)
						}
						return fine.url(n, ep)
					}
					c.t.SetDisco(vh.M{"issuer": "x", "authorization_endpoint": c.t.AuthURL(), "token_endpoint": at("token"), "jwks_uri": at("jwks"), "userinfo_endpoint": at("userinfo")})
					spec := vh.M{"clientId": "client", "clientSecret": "s3cret", "discoveryUrl": at("disco")}
					if len(cases)%2 == 0 {
						spec["authMethod"] = "client_secret_post"
					}
					w.Kube.Apply(vh.OidcConfigs, ns, n, spec)
				}
				typ := "oidc"
				if role == "jwt" || role == "moved keys" {
					typ = "jwt"
				}
				var rules []vh.M
				if typ == "oidc" { // opaque access tokens are fine too
					rules = []vh.M{vh.Rule("kind", "", "id_token", "id")}
				}
				targets = append(targets, vh.M{"serviceName": n, "paths": []vh.M{vh.PathEntry(typ, "", "/", "", n, "", rules)}})
			}
		}
	}
	w.Kube.Apply(vh.Policies, ns, "p", vh.M{"targets": targets})
	w.SyncAll()

	// works tells whether a case's endpoint is usable: what a user gets
	works := func(c *tcase) (bool, string) {
		if c.role == "jwt" || c.role == "moved keys" {
			resp := w.Do(vh.Bearer(ns, c.name, "/x", key.Sign(vh.Claims{"exp": now() + 600})))
			return resp.Allowed(), resp.String()
		}
		for _, opaque := range []bool{true, false} {
			if c.role == "userinfo" && !opaque && !c.s.kind.good {
				continue // not asked for JWTs
			}
			b := vh.NewBrowser()
			page := vh.Get(ns, c.name, "/x")
			tk := mint(key, c.t, opaque, 600)
			resp, sess, err := w.Login(b, page, c.t, vh.Give(tk))
			if err != nil || sess == nil {
				return false, fmt.Sprint("login: ", err, resp)
			}
			if !c.s.kind.good {
				return true, resp.String()
			}
			if resp = w.Visit(b, page); !resp.Allowed() {
				return false, "visit: " + resp.String()
			}
		}
		return true, ""
	}
	viaProxy := true
	var mu sync.Mutex
	for _, good := range []bool{true, false} {
		par(len(cases), 16, func(i int) {
			c := cases[i]
			if c.s.kind.good != good || r.TooMany() {
				return
			}
			wit := func(got string) vh.M {
				return vh.M{"certificate": c.s.kind.name, "host": c.s.host, "endpoint": c.role, "answer": got}
			}
			what := fmt.Sprintf("%s %s at %s", c.s.kind.name, c.role, c.s.host)
			ok, got := works(c)
			if good {
				if !ok {
					ok = w.Eventually(func() bool { ok, got = works(c); return ok })
				}
				if !ok && proxied[c.s.host] { // no proxy support: nothing to judge there
					mu.Lock()
					viaProxy = false
					mu.Unlock()
				} else if !ok && w.CheckAlive("using https") {
					r.Violation("an IdP with a valid certificate is not accepted", wit(got))
				}
				r.Count("good_judged", 1)
				r.Case(what, ok)
				return
			}
			if ok {
				r.Violation("an IdP is believed though its certificate does not prove its identity", wit(got))
			}
			if n := atomic.LoadInt64(&c.s.hits); n > 0 {
				r.Violation("a request was sent to a server whose certificate does not prove its identity", wit(fmt.Sprint(c.s.last.Load())))
			}
			r.Count("bad_judged", 1)
			r.Case(what, c.s.front.Hellos() > 0)
		})
	}
	handshakes := 0
	for n, s := range sites {
		if s.front.Plain() > 0 {
			r.Violation("a server whose URL says https was spoken to without TLS: "+n, vh.M{"sent": fmt.Sprint(s.last.Load())})
		}
		handshakes += s.front.Hellos()
	}
	r.Count("handshakes", handshakes)
	if viaProxy {
		r.Count("host_names", len(hosts))
	}

	// ---- the certificate of a server in use changes
	type live struct {
		s    *site
		t    *vh.Tenant
		name string
	}
	var lives []*live
	targets = nil
	for i := 0; i < r.Pick(6, 24); i++ {
		l := &live{s: newSite(w.IdP, kinds[i%3], hosts[i%2%len(hosts)]), name: fmt.Sprint("live", i)}
		defer l.s.front.Close()
		l.t = w.IdP.Tenant(l.name)
		l.t.SetKeys(key)
		l.t.SetDisco(vh.M{"issuer": "x", "authorization_endpoint": l.t.AuthURL(), "token_endpoint": l.s.url(l.name, "token"), "jwks_uri": l.s.url(l.name, "jwks"), "userinfo_endpoint": l.s.url(l.name, "userinfo")})
		spec := vh.M{"clientId": "client", "clientSecret": "s3cret", "discoveryUrl": l.s.url(l.name, "disco")}
		if i%2 == 0 {
			spec["authMethod"] = "client_secret_post"
		}
		w.Kube.Apply(vh.OidcConfigs, ns, l.name, spec)
		w.Kube.Apply(vh.JwtConfigs, ns, l.name, vh.M{"jwksUrl": l.s.url(l.name, "jwks")})
		targets = append(targets, vh.M{"serviceName": l.name, "paths": []vh.M{
			vh.PathEntry("oidc", "", "/web", "", l.name, "", []vh.M{vh.Rule("kind", "", "id_token", "id")}), vh.PathEntry("jwt", "", "/api", "", l.name, "", nil)}})
		lives = append(lives, l)
	}
	w.Kube.Apply(vh.Policies, ns, "lives", vh.M{"targets": targets})
	w.SyncAll()
	var bad []certKind
	for _, k := range kinds {
		if !k.good {
			bad = append(bad, k)
		}
	}
	par(len(lives), len(lives), func(i int) {
		l := lives[i]
		page := vh.Get(ns, l.name, "/web/x")
		for round := 0; round < r.Pick(len(bad), 4*len(bad)) && !r.TooMany() && w.Sut.Alive(); round++ {
			k := bad[(round+i*3)%len(bad)]
			wit := func(what string, got *vh.Resp) vh.M {
				m := vh.M{"certificate": k.name, "host": l.s.host, "request": what, "sent": fmt.Sprint(l.s.last.Load())}
				if got != nil {
					m["answer"] = got.String()
				}
				return m
			}
			login := func(opaque bool, ttl int64) *vh.Browser {
				b := vh.NewBrowser()
				var err error
				if !w.Eventually(func() bool {
					b = vh.NewBrowser()
					tk := mint(key, l.t, opaque, ttl)
					l.t.Refresh(tk.Refresh, vh.Give(mint(key, l.t, opaque, 600)))
					_, _, err = w.Login(b, page, l.t, vh.Give(tk))
					return err == nil
				}) && w.CheckAlive("using https") {
					r.Violation("an IdP with a valid certificate is not accepted", wit("login: "+fmt.Sprint(err), nil))
				}
				return b
			}
			opaque, old := login(true, 0), login(false, 2)
			begun := vh.NewBrowser()
			a, err := vh.ParseLogin(w.Visit(begun, page))
			time.Sleep(2200 * time.Millisecond) // the second one needs to be renewed
			fresh := vh.Key{Kid: fmt.Sprint("fresh-", i, "-", round), Priv: key2.Priv}
			l.t.SetKeys(key, &fresh)
			l.s.front.SetCert(k.make(l.s.host))
			before := atomic.LoadInt64(&l.s.hits)
			step := func(what string, want bool, resp *vh.Resp) {
				r.Count("changed_judged", 1)
				r.Case(fmt.Sprint(l.name, " ", round, " ", what), true)
				if want != resp.Allowed() && w.Sut.Alive() {
					if want {
						r.Violation("a known key was forgotten when the server's certificate became invalid", wit(what, resp))
					} else {
						r.Violation("an IdP is believed though its certificate no longer proves its identity", wit(what, resp))
					}
				}
			}
			step("a session with an opaque token", false, w.Visit(opaque, page))
			step("a session to renew", false, w.Visit(old, page))
			step("a token of a key already known", true, w.Do(vh.Bearer(ns, l.name, "/api/x", key.Sign(vh.Claims{"exp": now() + 600}))))
			step("a token of a key published since", false, w.Do(vh.Bearer(ns, l.name, "/api/x", fresh.Sign(vh.Claims{"exp": now() + 600}))))
			if err == nil {
				code := w.NextCode()
				l.t.Code(code, vh.Give(mint(key, l.t, false, 600)))
				resp := w.Visit(begun, vh.Callback(page, code, a.State))
				step("a login begun before", false, resp)
				step("a page after the login begun before", false, w.Visit(begun, page))
			}
			if n := atomic.LoadInt64(&l.s.hits); n != before {
				r.Violation("a request was sent to a server whose certificate no longer proves its identity", wit("", nil))
			}
			l.s.front.SetCert(kinds[round%3].make(l.s.host))
			if !w.Eventually(func() bool {
				return w.Do(vh.Bearer(ns, l.name, "/api/x", fresh.Sign(vh.Claims{"exp": now() + 600}))).Allowed()
			}) && w.CheckAlive("using https") {
				r.Violation("an IdP with a valid certificate is not accepted", wit("a token of a new key", nil))
			}
		}
	})
	r.Floor("good_judged", 30)
	r.Floor("bad_judged", 200)
	r.Floor("changed_judged", 300)
	r.Floor("handshakes", 300)
	r.Finish()
}
