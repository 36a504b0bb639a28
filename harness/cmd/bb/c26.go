package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"verif/harness/vh"
)

func init() { checks["C26"] = c26 }

var c26eps = []string{"disco", "jwks", "token", "userinfo", "other"}

// c26need is what a step may ask of the IdP; anything not named is nothing.
type c26need map[string]int

func (n c26need) String() string {
	var l []string
	for _, e := range c26eps {
		if n[e] > 0 {
			l = append(l, fmt.Sprintf("%s %d", e, n[e]))
		}
	}
	if l == nil {
		return "nothing"
	}
	return strings.Join(l, ", ")
}

func c26hits(ts ...*vh.Tenant) c26need {
	n := c26need{}
	for _, t := range ts {
		for _, e := range c26eps {
			if e == "other" {
				n[e] += t.Others()
			} else {
				n[e] += t.Hits(e)
			}
		}
	}
	return n
}

func c26() {
	r := vh.NewReport("C26", "cases are steps (a request of one kind, or a change of one resource) with the requests the IdP received meanwhile; distinct by kind of step and position in the sequence")
	vh.NoReuse(r)
	r.Assumptions = []string{"the IdP answers; what is asked while discovery or keys cannot be loaded, or several requests load them at once, is not judged", "watches are not interrupted"}
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	workers := r.Pick(8, 12)
	steps := r.Pick(900, 5000)
	vh.PreKeys(3*workers+8, 1024)

	// judge runs a step and compares what the tenants were asked with what was needed
	judge := func(kind string, wit vh.M, need c26need, f func(), ts ...*vh.Tenant) {
		before := c26hits(ts...)
		f()
		after := c26hits(ts...)
		got := c26need{}
		bad := false
		for _, e := range c26eps {
			got[e] = after[e] - before[e]
			r.Count("idp_"+e, got[e])
			bad = bad || got[e] > need[e]
		}
		r.Count("steps", 1)
		if bad && w.CheckAlive("serving "+kind) {
			if wit == nil {
				wit = vh.M{}
			}
			wit["idp_was_asked"], wit["needed_at_most"] = got.String(), need.String()
			r.Violation(fmt.Sprintf("the IdP was asked for %s where at most %s is needed: %s", got, need, kind), wit)
		}
	}

	type worker struct {
		ns                string
		t                 *vh.Tenant
		key, retired, bad *vh.Key
		rnd               *rand.Rand
		seq               int
	}
	ws := make([]*worker, workers)
	for i := range ws {
		x := &worker{ns: fmt.Sprint("n", i), t: w.IdP.Tenant(fmt.Sprint("a", i)), rnd: r.Rand(fmt.Sprint("c26-", i))}
		x.key, x.retired, x.bad = vh.NewKeyE("k1", 1024, 65537), vh.NewKeyE("gone", 1024, 65537), vh.NewKeyE("k1", 1024, 65537)
		x.t.SetKeys(x.key)
		ws[i] = x
		w.Kube.Apply(vh.JwtConfigs, x.ns, "j", vh.M{"jwksUrl": x.t.JwksURL()})
		w.Kube.Apply(vh.OidcConfigs, x.ns, "o", vh.M{"clientId": "c", "clientSecret": "s", "discoveryUrl": x.t.DiscoveryURL()})
		w.Kube.Apply(vh.OidcConfigs, x.ns, "o2", vh.M{"clientId": "c2", "clientSecret": "s2", "discoveryUrl": x.t.DiscoveryURL()})
		w.Kube.Apply(vh.Policies, x.ns, "p", vh.Spec("svc",
			vh.PathEntry("jwt", "", "/api", "", "j", "", nil),
			vh.PathEntry("jwt", "", "/ruled", "", "j", "", []vh.M{vh.Rule("role", "ANY", "access_token", "admin")}),
			vh.PathEntry("jwt", "", "/nojwt", "", "missing", "", nil),
			vh.PathEntry("oidc", "", "/app", "", "o", "", nil),
			vh.PathEntry("oidc", "", "/strict", "", "o", "", []vh.M{vh.Rule("kind", "ALL", "id_token", "id")}),
			vh.PathEntry("oidc", "", "/many", "", "o", "", []vh.M{vh.Rule("kind", "ANY", "id_token", "id", "x"), vh.Rule("sub", "ALL", "id_token", "u"), vh.Rule("role", "NOT", "id_token", "none")}),
			vh.PathEntry("oidc", "", "/mixed", "", "o", "", []vh.M{vh.Rule("kind", "ANY", "id_token", "id", "x"), vh.Rule("role", "ALL", "access_token", "admin"), vh.Rule("aud", "ANY", "access_token", "c")}),
			vh.PathEntry("oidc", "", "/never", "", "o", "", []vh.M{vh.Rule("kind", "ALL", "id_token", "other")}),
			vh.PathEntry("oidc", "", "/other", "", "o2", "", nil),
			vh.PathEntry("oidc", "", "/nooidc", "", "missing", "", nil)))
	}
	w.SyncAll()

	tok := func(x *worker, k *vh.Key, kid string, ttl time.Duration, more vh.Claims) string {
		x.seq++
		c := vh.Claims{"sub": "u", "aud": "c", "jti": x.seq, "role": "admin", "kind": "id", "exp": time.Now().Add(ttl).Unix()}
		for n, v := range more {
			c[n] = v
		}
		var hdr map[string]interface{}
		if kid != k.Kid {
			hdr = map[string]interface{}{"kid": kid}
		}
		return k.SignAlg("RS256", hdr, c)
	}
	const long, short = time.Hour, 2 * time.Second

	session := func(x *worker, mk func() vh.Tokens) (*vh.Browser, vh.Tokens) {
		for n := 0; n < 6; n++ {
			b := vh.NewBrowser()
			var tk vh.Tokens
			_, ck, err := w.Login(b, vh.Get(x.ns, "svc", "/app/x"), x.t, func(*vh.HReq) (int, []byte) { tk = mk(); return 200, vh.TokenJSON(tk) })
			if ck != nil {
				return b, tk
			}
			if n == 5 && w.CheckAlive("logging in") {
				r.Violation(fmt.Sprintf("login does not work: %v", err), nil)
			}
		}
		return nil, vh.Tokens{}
	}

	run := func(wi int) {
		x := ws[wi]
		rnd := x.rnd
		do := func(q vh.Req) *vh.Resp { return w.Do(q) }
		// warm up: keys of both configurations loaded
		do(vh.Bearer(x.ns, "svc", "/api", tok(x, x.key, "k1", long, nil)))
		jwtTokens := func(ttlA, ttlI time.Duration, refresh bool) func() vh.Tokens {
			return func() vh.Tokens {
				tk := vh.Tokens{Access: tok(x, x.key, "k1", ttlA, nil), ID: tok(x, x.key, "k1", ttlI, nil)}
				if refresh {
					tk.Refresh = fmt.Sprint("refresh-", wi, "-", x.seq)
				}
				return tk
			}
		}
		opaqueTokens := func(ttlI time.Duration) func() vh.Tokens {
			return func() vh.Tokens {
				tk := vh.Tokens{ID: tok(x, x.key, "k1", ttlI, nil)}
				tk.Access = fmt.Sprint("opaque-", wi, "-", x.seq)
				tk.Refresh = fmt.Sprint("refresh-", wi, "-", x.seq)
				x.t.Userinfo(tk.Access, 200)
				return tk
			}
		}
		page := func() string {
			return []string{"/app", "/app/", "/app/deep/er", "/strict", "/strict/x", "/many", "/many/x"}[rnd.Intn(7)]
		}
		visit := func(b *vh.Browser) vh.Req {
			q := vh.Get(x.ns, "svc", page())
			q.Cookies = b.Header()
			return q
		}

		type sess struct {
			b     *vh.Browser
			tk    vh.Tokens
			need  c26need
			kind  string
			until time.Time // when its tokens are too near their end to be judged
		}
		var live []*sess
		add := func(kind string, need c26need, mk func() vh.Tokens) *sess {
			b, tk := session(x, mk)
			if b == nil {
				return nil
			}
			s := &sess{b: b, tk: tk, need: need, kind: kind}
			live = append(live, s)
			return s
		}
		// short-lived ones first, then time passes
		for i := 0; i < 4; i++ {
			i := i
			if add("a visit of an expired session without a refresh token", c26need{}, jwtTokens([]time.Duration{short, long}[i%2], short, false)) == nil {
				return
			}
			if s := add("a visit of an expired session with a refresh token", c26need{"token": 1}, jwtTokens(short, []time.Duration{long, short}[i%2], true)); s != nil {
				x.t.Refresh(s.tk.Refresh, func(*vh.HReq) (int, []byte) {
					s.need, s.kind = c26need{}, "a visit of a renewed session" // from the next visit on
					new := jwtTokens(long, long, i > 1)()                      // rotating the refresh token or not
					if i == 3 {
						new.Refresh = s.tk.Refresh
					}
					return 200, vh.TokenJSON(new)
				})
			}
			if s := add("a visit of an expired session whose refresh token is refused", c26need{"token": 1}, jwtTokens(short, short, true)); s != nil {
				x.t.Refresh(s.tk.Refresh, func(*vh.HReq) (int, []byte) { return 400, []byte(`{"error":"invalid_grant"}`) })
			}
			if s := add("a visit of an expired session with an opaque token and a refresh token", c26need{"token": 1, "userinfo": 2}, opaqueTokens(short)); s != nil {
				x.t.Refresh(s.tk.Refresh, func(*vh.HReq) (int, []byte) {
					s.need, s.kind = c26need{"userinfo": 1}, "a visit of a renewed session with an opaque token"
					return 200, vh.TokenJSON(opaqueTokens(long)())
				})
			}
		}
		time.Sleep(short + 1200*time.Millisecond)
		for i := 0; i < 3; i++ {
			add("a visit of a live session", c26need{}, jwtTokens(long, long, i > 0))
			// not yet due to be renewed
			some := []time.Duration{50, 110, 280, 550}[rnd.Intn(4)] * time.Second
			until := time.Now().Add(some - 10*time.Second)
			if s := add("a visit of a live session", c26need{}, jwtTokens([]time.Duration{some, long}[i%2], []time.Duration{long, some}[i%2], true)); s != nil {
				s.until = until
			}
		}
		for i := 0; i < 2; i++ {
			add("a visit of a live session with an opaque token", c26need{"userinfo": 1}, opaqueTokens(long))
		}

		req := func(kind string, need c26need, q vh.Req) *vh.Resp {
			var resp *vh.Resp
			judge(kind, vh.M{"request": vh.ReqM(q)}, need, func() { resp = do(q) }, x.t)
			r.Case(fmt.Sprint(kind, wi, " ", x.seq), true)
			r.Sample(kind, vh.M{"request": vh.ReqM(q), "allowed": resp.Allowed()})
			return resp
		}
		none := c26need{}
		one := c26need{"jwks": 1}
		api := func() string { return []string{"/api", "/api/x", "/ruled", "/ruled/y/z"}[rnd.Intn(4)] }
		for n := 0; n < steps && !r.TooMany() && len(live) > 0; n++ {
			x.seq++
			var q vh.Req
			switch k := rnd.Intn(36); k {
			case 0, 1:
				resp := req("a valid token", none, vh.Bearer(x.ns, "svc", api(), tok(x, x.key, "k1", long, nil)))
				if resp.Allowed() {
					r.Count("allowed_with_cached_keys", 1)
				} else if w.CheckAlive("serving") {
					r.Violation("a valid token is refused: "+trunc(resp.String(), 200), nil)
				}
			case 2:
				req("a valid token and a valid ID token", none, vh.Bearer(x.ns, "svc", api(), tok(x, x.key, "k1", long, nil), tok(x, x.key, "k1", long, nil)))
			case 3:
				req("an expired token", none, vh.Bearer(x.ns, "svc", api(), tok(x, x.key, "k1", -time.Duration(1+rnd.Intn(5000))*time.Second, nil)))
			case 4:
				req("a token with a bad signature of a known key", none, vh.Bearer(x.ns, "svc", api(), tok(x, x.bad, "k1", long, nil)))
			case 5:
				t := tok(x, x.key, "k1", long, nil)
				p := strings.Split(t, ".")
				switch rnd.Intn(4) {
				case 0:
					t = p[0] + "." + p[1] + "."
				case 1:
					t = p[0] + "." + p[1] + ".AAAA"
				case 2:
					t = p[0] + "." + vh.B64([]byte(`{"sub":"other"}`)) + "." + p[2]
				default:
					t = p[0] + "." + p[1]
				}
				req("a token with a manipulated part", none, vh.Bearer(x.ns, "svc", api(), t))
			case 6:
				c := vh.Claims{"sub": "u", "exp": time.Now().Add(long).Unix()}
				t := vh.HMACToken("HS256", "k1", []byte("secret"), c)
				if rnd.Intn(2) == 0 {
					t = vh.B64([]byte(`{"alg":"none","kid":"k1"}`)) + "." + vh.B64(vh.MustJSON(c)) + "."
				}
				req("a token of another algorithm naming a known key", none, vh.Bearer(x.ns, "svc", api(), t))
			case 7:
				req("a token without the claims a rule wants", none, vh.Bearer(x.ns, "svc", "/ruled", tok(x, x.key, "k1", long, vh.Claims{"role": "user"})))
			case 8:
				hdr := map[string]interface{}{"kid": nil}
				if rnd.Intn(2) == 0 {
					hdr["kid"] = ""
				}
				req("a token naming no key", none, vh.Bearer(x.ns, "svc", api(), x.key.SignAlg("RS256", hdr, vh.Claims{"sub": "u", "exp": time.Now().Add(long).Unix()})))
			case 9:
				q = vh.Get(x.ns, "svc", api())
				q.Authz = []string{"", "Bearer", "Bearer ", "Basic dTpw", "Bearer a.b.c", "Bearer opaque", "bearer ..", "Bearer a b c d"}[rnd.Intn(8)]
				req("no usable token", none, q)
			case 10:
				req("a token naming an unknown key", one, vh.Bearer(x.ns, "svc", api(), tok(x, x.retired, []string{"gone", "other-ec", fmt.Sprint("new", x.seq)}[rnd.Intn(3)], long, nil)))
			case 11:
				req("a valid token and an ID token naming an unknown key", one, vh.Bearer(x.ns, "svc", api(), tok(x, x.key, "k1", long, nil), tok(x, x.retired, "gone", long, nil)))
			case 12:
				req("a token under a policy without a configuration", none, vh.Bearer(x.ns, "svc", "/nojwt", tok(x, x.key, "k1", long, nil)))
			case 13:
				q = vh.Get(x.ns, "svc", "/nooidc")
				if len(live) > 0 {
					q.Cookies = live[0].b.Header()
				}
				req("a visit under a policy without a configuration", none, q)
			case 14:
				q = vh.Bearer(x.ns, "svc", "/free", tok(x, x.retired, "gone", long, nil))
				if rnd.Intn(2) == 0 {
					q.Svc = "unprotected"
				}
				req("a request nothing protects", none, q)
			case 15, 16:
				resp := req("a login begun", none, vh.Get(x.ns, "svc", page()))
				if _, err := vh.ParseLogin(resp); err != nil && w.CheckAlive("serving") {
					r.Violation("a login does not begin: "+err.Error(), nil)
				}
			case 17:
				q = vh.Get(x.ns, "svc", page())
				q.Cookies = "oidc-cookie-c=" + []string{"unknownunknown1", "", "deleted", strings.Repeat("x", 3000), "a.b.c"}[rnd.Intn(5)]
				req("a visit with the cookie of no session", none, q)
			case 18:
				b := vh.NewBrowser()
				w.Visit(b, vh.Get(x.ns, "svc", "/app"))
				req("a visit with the cookie of a begun login", none, visit(b))
			case 19, 20:
				b := vh.NewBrowser()
				a, err := vh.ParseLogin(w.Visit(b, vh.Get(x.ns, "svc", "/app")))
				if err != nil {
					continue
				}
				code := w.NextCode()
				x.t.Code(code, vh.Give(jwtTokens(long, long, false)()))
				q = vh.Callback(vh.Get(x.ns, "svc", "/app"), code, a.State)
				q.Cookies = b.Header()
				kind := ""
				switch rnd.Intn(7) {
				case 0:
					kind = "a callback with another state"
					st := []byte(a.State)
					switch rnd.Intn(4) {
					case 0:
						st = append(st, 'x')
					case 1:
						st = st[1:]
					case 2:
						st[rnd.Intn(len(st))] ^= 1
					default:
						for st = nil; len(st) < 1+rnd.Intn(40); {
							st = append(st, byte('a'+rnd.Intn(26)))
						}
					}
					q.PState = string(st)
				case 1:
					kind, q.PState = "a callback without a state", ""
				case 2:
					kind, q.Cookies = "a callback without a cookie", ""
				case 3:
					kind, q.PErr = "a callback with an error", "access_denied"
				case 4:
					kind, q.PCode = "a callback without a code", ""
				case 5:
					kind, q.Cookies = "a callback with a cookie of no login", "oidc-cookie-c=forged"
				default:
					kind, q.Cookies = "a callback with another user's cookie", ""
					o := vh.NewBrowser()
					w.Visit(o, vh.Get(x.ns, "svc", "/app"))
					q.Cookies = o.Header()
				}
				req(kind, none, q)
			case 21, 22, 23:
				b := vh.NewBrowser()
				a, err := vh.ParseLogin(w.Visit(b, vh.Get(x.ns, "svc", "/app")))
				if err != nil {
					continue
				}
				code := w.NextCode()
				need := c26need{"token": 1}
				kind := "a callback"
				tk := jwtTokens(long, long, rnd.Intn(2) == 0)()
				var g vh.Grant
				switch rnd.Intn(9) {
				case 0:
					kind, need = "a callback giving an opaque token", c26need{"token": 1, "userinfo": 1}
					tk = opaqueTokens(long)()
				case 1:
					kind, need = "a callback giving an opaque token the IdP refuses", c26need{"token": 1, "userinfo": 1}
					tk.Access = fmt.Sprint("unknown-opaque-", x.seq)
				case 2:
					kind, need = "a callback giving a token with a bad signature", c26need{"token": 1, "userinfo": 1}
					tk.Access = tok(x, x.bad, "k1", long, nil)
				case 3:
					kind = "a callback giving an expired token"
					tk.Access = tok(x, x.key, "k1", -long, nil)
				case 4:
					kind = "a callback giving an ID token with a bad signature"
					tk.ID = tok(x, x.bad, "k1", long, nil)
				case 5:
					kind, need = "a callback giving an ID token of an unknown key", c26need{"token": 1, "jwks": 1}
					tk.ID = tok(x, x.retired, "gone", long, nil)
				case 6:
					kind = "a callback with a code the IdP refuses"
					g = func(*vh.HReq) (int, []byte) { return 400, []byte(`{"error":"invalid_grant"}`) }
				case 7:
					kind = "a callback the IdP fails to answer"
					st := []int{500, 503, 429}[rnd.Intn(3)]
					g = func(*vh.HReq) (int, []byte) { return st, []byte(`{}`) }
				}
				if g == nil {
					g = vh.Give(tk)
				}
				x.t.Code(code, g)
				q = vh.Callback(vh.Get(x.ns, "svc", "/app"), code, a.State)
				q.Cookies = b.Header()
				resp := req(kind, need, q)
				if kind == "a callback" {
					b.Take(resp)
					s := &sess{b: b, tk: tk, need: none, kind: "a visit of a live session"}
					if rnd.Intn(3) == 0 {
						live = append(live, s)
					}
					first := req("the first visit of a new session", none, visit(b))
					if first.Allowed() {
						r.Count("sessions", 1)
					}
				}
			case 24:
				// another client gets to see the session, expired or not
				s := live[rnd.Intn(len(live))]
				q = vh.Get(x.ns, "svc", "/other/x")
				q.Cookies = strings.Replace(s.b.Header(), "oidc-cookie-c=", "oidc-cookie-c2=", 1)
				req("a visit of another client's session", none, q)
			case 25:
				// what the session's tokens do not satisfy is no reason to renew them
				mk, need := jwtTokens(long, long, true), none
				if rnd.Intn(3) == 0 {
					mk, need = opaqueTokens(long), c26need{"userinfo": 1}
				}
				b, _ := session(x, mk)
				if b == nil {
					continue
				}
				q = vh.Get(x.ns, "svc", "/never")
				q.Cookies = b.Header()
				req("a visit the session's tokens do not suffice for", need, q)
				q.Path, q.TPath = "/app", "/app"
				req("a visit after tokens did not suffice", need, q)
			case 26:
				q = vh.Logout(vh.Get(x.ns, "svc", "/app"))
				if len(live) > 12 {
					i := rnd.Intn(len(live))
					q.Cookies = live[i].b.Header()
					live = append(live[:i], live[i+1:]...)
				}
				req("a logout", none, q)
			default:
				s := live[rnd.Intn(len(live))]
				if !s.until.IsZero() && time.Now().After(s.until) {
					continue
				}
				need, kind := s.need, s.kind
				q = visit(s.b)
				if need["userinfo"] == 0 && need["token"] == 0 && rnd.Intn(4) == 0 {
					q.Path, q.TPath = "/mixed", "/mixed"
				}
				if resp := req(kind, need, q); resp.Allowed() {
					r.Count("session_visits_allowed", 1)
				}
			}
		}
		// many at once, nothing to ask for
		var g sync.WaitGroup
		judge("many requests at once with keys loaded", nil, none, func() {
			for i := 0; i < 30; i++ {
				q := vh.Bearer(x.ns, "svc", "/api", tok(x, []*vh.Key{x.key, x.bad}[i%2], "k1", long, nil))
				if i%3 == 0 {
					q = vh.Get(x.ns, "svc", "/app")
				}
				g.Add(1)
				go func() { defer g.Done(); w.Do(q) }()
			}
			g.Wait()
		}, x.t)
	}
	par(workers, workers, run)
	if !w.CheckAlive("serving") || r.TooMany() {
		r.Finish()
		return
	}

	// ---- resources: only a configuration that itself changes may load anything
	rnd := r.Rand("c26-res")
	const nt = 4
	var ts []*vh.Tenant
	keys := []*vh.Key{}
	for i := 0; i < nt; i++ {
		t := w.IdP.Tenant(fmt.Sprint("r", i))
		k := vh.NewKeyE("k1", 1024, 65537)
		t.SetKeys(k)
		ts, keys = append(ts, t), append(keys, k)
	}
	everyone := append([]*vh.Tenant{}, ts...)
	for _, x := range ws {
		everyone = append(everyone, x.t)
	}
	others := func(i int) []*vh.Tenant { return append(append([]*vh.Tenant{}, everyone[:i]...), everyone[i+1:]...) }
	// configuration i of each kind lives in namespace r<i>
	ns := func(i int) string { return fmt.Sprint("r", i) }
	pver := 0
	policy := func(i int) {
		pver++
		w.Kube.Apply(vh.Policies, ns(i), "p", vh.Spec("svc",
			vh.PathEntry("jwt", "", "/api", "", "j", "", []vh.M{vh.Rule("v", "NOT", "access_token", fmt.Sprint(pver))}),
			vh.PathEntry("oidc", "", "/app", "", "o", fmt.Sprint("/r", pver), nil)))
	}
	oidcOf := func(i int) vh.M {
		m := vh.M{"clientId": "c", "clientSecret": "s" + fmt.Sprint(rnd.Intn(5)), "discoveryUrl": ts[i].DiscoveryURL()}
		if rnd.Intn(2) == 0 {
			m["clientSecretRef"] = vh.M{"name": "cs", "key": "k"}
		}
		return m
	}
	use := func(i int) { // one use of each configuration, and one login
		exp := time.Now().Add(long).Unix()
		a := keys[i].Sign(vh.Claims{"sub": "u", "aud": "c", "exp": exp, "n": pver})
		resp := w.Do(vh.Bearer(ns(i), "svc", "/api", a))
		if resp.Allowed() {
			r.Count("resource_phase_allowed", 1)
		}
		b := vh.NewBrowser()
		w.Login(b, vh.Get(ns(i), "svc", "/app"), ts[i], vh.Give(vh.Tokens{Access: a, ID: a}))
		q := vh.Get(ns(i), "svc", "/app/x")
		q.Cookies = b.Header()
		w.Do(q)
	}
	hasJ, hasO, hasP := [nt]bool{}, [nt]bool{}, [nt]bool{}
	for n := 0; n < r.Pick(200, 900) && !r.TooMany(); n++ {
		i := rnd.Intn(nt)
		kind, need := "", c26need{}
		var f func()
		login := func(q c26need) c26need {
			if hasO[i] && hasP[i] {
				q["token"]++
			}
			return q
		}
		switch k := rnd.Intn(12); {
		case n < nt*3: // first all exist
			i = n % nt
			switch n / nt {
			case 0:
				kind, need, f = "a new JwtConfig", c26need{"jwks": 1}, func() {
					hasJ[i] = true
					w.Kube.Apply(vh.JwtConfigs, ns(i), "j", vh.M{"jwksUrl": ts[i].JwksURL()})
					w.SyncJwt()
				}
			case 1:
				kind, need, f = "a new OidcConfig", c26need{"disco": 1, "jwks": 1}, func() { hasO[i] = true; w.Kube.Apply(vh.OidcConfigs, ns(i), "o", oidcOf(i)); w.SyncOidc() }
			default:
				hasP[i] = true
				// the key set of an OIDC configuration may be loaded at its first use
				kind, need, f = "a new policy and first uses", login(c26need{"jwks": 1}), func() { policy(i); w.SyncPolicies(); use(i) }
			}
		case k < 4:
			hasP[i] = true
			kind, need, f = "a changed policy", login(need), func() { policy(i); w.SyncPolicies(); use(i) }
		case k == 4:
			hasP[i] = false
			kind, f = "a deleted policy", func() { w.Kube.Delete(vh.Policies, ns(i), "p"); w.SyncPolicies(); use(i) }
		case k == 5:
			kind, need, f = "a changed secret", login(need), func() {
				w.Kube.SetSecret(ns(i), "cs", map[string]string{"k": fmt.Sprint("v", n)})
				time.Sleep(50 * time.Millisecond)
				use(i)
			}
		case k == 6:
			if hasJ[i] {
				hasJ[i] = false
				kind, need, f = "a deleted JwtConfig", login(need), func() { w.Kube.Delete(vh.JwtConfigs, ns(i), "j"); w.SyncJwt(); use(i) }
				break
			}
			fallthrough
		case k == 7:
			hasJ[i] = true
			kind, need, f = "a re-applied JwtConfig and its use", login(c26need{"jwks": 1}), func() {
				w.Kube.Apply(vh.JwtConfigs, ns(i), "j", vh.M{"jwksUrl": ts[i].JwksURL()})
				w.SyncJwt()
				use(i)
				w.Do(vh.Bearer(ns(i), "svc", "/api", keys[i].Sign(vh.Claims{"sub": "u", "exp": time.Now().Add(long).Unix()})))
			}
		case k == 8:
			if hasO[i] {
				hasO[i] = false
				kind, f = "a deleted OidcConfig", func() { w.Kube.Delete(vh.OidcConfigs, ns(i), "o"); w.SyncOidc(); use(i) }
				break
			}
			fallthrough
		case k == 9:
			hasO[i] = true
			kind, need, f = "a re-applied OidcConfig and its use", login(c26need{"disco": 1, "jwks": 1}), func() {
				w.Kube.Apply(vh.OidcConfigs, ns(i), "o", oidcOf(i))
				w.SyncOidc()
				use(i)
				w.Do(vh.Get(ns(i), "svc", "/app"))
			}
		case k == 10:
			kind, need, f = "an unrelated policy", login(need), func() {
				w.Kube.Apply(vh.Policies, ns(i), fmt.Sprint("q", rnd.Intn(3)), vh.Spec(fmt.Sprint("else", rnd.Intn(3)), vh.PathEntry("jwt", "", "/", "", "j", "", nil)))
				w.SyncPolicies()
				use(i)
			}
		default:
			kind, need, f = "no change", login(need), func() { w.SyncAll(); use(i) }
		}
		// more than one tenant may have something to say, but only the touched one may be asked
		before := c26hits(others(i)...)
		judge(kind, vh.M{"step": n, "namespace": ns(i)}, need, f, ts[i])
		after := c26hits(others(i)...)
		for _, e := range c26eps {
			if after[e] != before[e] {
				r.Violation(fmt.Sprintf("the %s endpoint of an IdP that has nothing to do with it was asked: %s", e, kind), vh.M{"step": n, "namespace": ns(i)})
			}
		}
		r.Case(fmt.Sprint("resources ", kind, n), true)
		r.Sample(kind, vh.M{"step": n, "needed_at_most": need.String()})
	}
	w.CheckAlive("changing resources")

	// ---- nothing happens for a while; what was loaded before is still good
	judge("nothing happens", nil, c26need{}, func() { time.Sleep(time.Duration(r.Pick(14, 75)) * time.Second) }, everyone...)
	r.Case("idle", true)
	for i, x := range ws {
		for n := 0; n < 6; n++ {
			q := vh.Bearer(x.ns, "svc", "/api", tok(x, []*vh.Key{x.key, x.bad}[n%2], "k1", long, nil))
			if n >= 4 {
				q = vh.Get(x.ns, "svc", "/app")
			}
			judge("a request after a while", vh.M{"request": vh.ReqM(q)}, c26need{}, func() { w.Do(q) }, x.t)
			r.Case(fmt.Sprint("later ", i, n), true)
		}
	}
	r.Floor("allowed_with_cached_keys", 20)
	r.Floor("sessions", 10)
	r.Floor("session_visits_allowed", 50)
	r.Floor("resource_phase_allowed", 10)
	r.Floor("idp_jwks", 10)
	r.Floor("idp_token", 10)
	r.Floor("idp_userinfo", 10)
	r.Finish()
}
