package main

import (
	"encoding/base64"
	"fmt"
	"math/rand"
	"net/http"
	"regexp"
	"strings"
	"time"

	"verif/harness/vh"
)

func init() { checks["C05"] = c05 }

var challengeRE = regexp.MustCompile(`^Bearer +([a-z_]+)="([^"]*)"((?:, *[a-z_]+="[^"]*")*)$`)
var challengeParam = regexp.MustCompile(`([a-z_]+)="([^"]*)"`)

// checkChallenge judges the answer to a rejected API request; scopes: nil for not judged,
// otherwise the exact scopes wanted (empty: none may be given).
func checkChallenge(resp *vh.Resp, scopes []string, only400 bool) error {
	if resp.Err != nil {
		return fmt.Errorf("gRPC error instead of a rejection: %v", resp.Err)
	}
	if resp.Code != 16 {
		return fmt.Errorf("status %d is not UNAUTHENTICATED", resp.Code)
	}
	if resp.Direct == nil || resp.NDirect != 1 {
		return fmt.Errorf("%d direct responses", resp.NDirect)
	}
	h := resp.Header("WWW-Authenticate")
	if !challengeRE.MatchString(h) {
		return fmt.Errorf("WWW-Authenticate %q is no Bearer challenge", h)
	}
	ps := map[string]string{}
	for _, m := range challengeParam.FindAllStringSubmatch(h, -1) {
		if _, dup := ps[m[1]]; dup {
			return fmt.Errorf("parameter %s given twice in %q", m[1], h)
		}
		ps[m[1]] = m[2]
	}
	if ps["realm"] == "" || ps["error"] == "" || ps["error_description"] == "" {
		return fmt.Errorf("realm, error or description missing in %q", h)
	}
	switch {
	case resp.Direct.Code == 401 && ps["error"] == "invalid_token":
	case resp.Direct.Code == 400 && ps["error"] == "invalid_request":
	default:
		return fmt.Errorf("HTTP %d with error %q", resp.Direct.Code, ps["error"])
	}
	if scopes != nil {
		got, has := ps["scopes"]
		if len(scopes) == 0 && has && got != "" {
			return fmt.Errorf("scopes %q although no scope rule applies", got)
		}
		if len(scopes) > 0 && got != strings.Join(scopes, " ") {
			return fmt.Errorf("scopes %q, the rule says %q", got, scopes)
		}
	}
	return nil
}

func c05() {
	r := vh.NewReport("C05", "cases are rejected and accepted API requests over policies with and without scope rules, whose answers are parsed by an online checker, and requests of every kind under missing, deleted, unreachable or wrong configurations and unknown policy types, which must never be allowed; distinct by policy and rejection kind")
	r.Assumptions = []string{"scopes are judged where exactly one scope rule exists, for the token that was rejected, or where there is no scope rule", "scope values contain no quotes"}
	rnd := r.Rand("c05")
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	t := w.IdP.Tenant("main")
	vh.PreKeys(3, 2048)
	key, rogue := vh.NewKey("k1"), vh.NewKey("k1")
	t.SetKeys(key)
	const ns = "n"
	w.Kube.Apply(vh.JwtConfigs, ns, "j", vh.M{"jwksUrl": t.JwksURL()})
	w.Kube.Apply(vh.JwtConfigs, ns, "dead", vh.M{"jwksUrl": "http://127.0.0.1:1/none"})

	// policies: a scope rule at any place among other rules, for either token, or none
	type pol struct {
		path      string
		dead      bool // its keys cannot be fetched
		rules     []crule
		scope     []string
		scopeRule *crule
	}
	var pols []pol
	var paths []vh.M
	scopePool := []string{"openid", "a:b", "https://api/x.read", "appid_default", "ü", "x/y+z", "admin", "read,write", "s;t=1", "(p)"}
	npol := r.Pick(90, 600)
	for i := 0; i < npol; i++ {
		p := pol{path: fmt.Sprintf("/p%d", i)}
		for k := rnd.Intn(3); k > 0; k-- {
			c := genRule(rnd, false)
			if c.claim == "scope" {
				c.claim = "roles"
			}
			p.rules = append(p.rules, c)
		}
		if i%4 != 0 {
			c := crule{claim: "scope", match: []string{"", "ALL", "ANY", "ANY", "NOT"}[rnd.Intn(5)], source: []string{"", "access_token", "access_token", "id_token"}[rnd.Intn(4)]}
			for _, j := range rnd.Perm(len(scopePool))[:1+rnd.Intn(4)] {
				c.values = append(c.values, scopePool[j])
			}
			if i%9 == 5 { // long lists, and values that differ in little
				for j := 0; j < 12+rnd.Intn(60); j++ {
					c.values = append(c.values, fmt.Sprintf("app.scope-%d", j))
				}
				c.values = append(c.values, "Admin", "OPENID", "openid-"+strings.Repeat("x", 300))
			}
			at := rnd.Intn(len(p.rules) + 1)
			p.rules = append(p.rules[:at], append([]crule{c}, p.rules[at:]...)...)
			p.scope, p.scopeRule = c.values, &c
		}
		var specs []vh.M
		for _, c := range p.rules {
			specs = append(specs, c.spec())
		}
		cfg := "j"
		if i%15 == 2 {
			p.dead, cfg = true, "dead"
		}
		pols = append(pols, p)
		paths = append(paths, vh.JwtPath(p.path, "", "", cfg, specs))
		if len(paths) == 15 || i == npol-1 {
			w.Kube.Apply(vh.Policies, ns, fmt.Sprintf("p%d", i), vh.Spec("svc", paths...))
			paths = nil
		}
	}
	w.SyncAll()
	now := time.Now().Unix()
	seeds := make([]int64, npol)
	for i := range seeds {
		seeds[i] = rnd.Int63()
	}
	par(npol, 8, func(i int) {
		if r.TooMany() {
			return
		}
		rnd := rand.New(rand.NewSource(seeds[i]))
		p := pols[i]
		pass := func(src string) vh.Claims { // claims that satisfy the rules of one token, if any do
			for n := 0; n < 400; n++ {
				c := genClaims(rnd, p.rules, src)
				if n%3 == 0 { // a direct construction
					for _, x := range p.rules {
						s := x.source
						if s == "" {
							s = "access_token"
						}
						if s == src && x.match != "NOT" && !strings.Contains(x.claim, "missing") && x.claim != "iss" {
							var l []interface{}
							for _, v := range x.values {
								l = append(l, v)
							}
							setClaim(c, x.claim, l)
						}
					}
				}
				ok := true
				for _, x := range p.rules {
					s := x.source
					if s == "" {
						s = "access_token"
					}
					if s == src && evalRule(x, c) != yes {
						ok = false
					}
				}
				if ok {
					return c
				}
			}
			return nil
		}
		fail := func(src string) vh.Claims {
			for n := 0; n < 100; n++ {
				c := genClaims(rnd, p.rules, src)
				if v, _ := evalRulesOf(p.rules, c, src); v == no {
					return c
				}
			}
			return nil
		}
		type cs struct {
			kind, authz string
			rejected    string // which token is rejected: access_token, id_token, "" (header)
			allowed     bool
		}
		var list []cs
		add := func(kind, authz, rej string) { list = append(list, cs{kind, authz, rej, false}) }
		add("no header", "", "")
		for _, h := range []string{"Bearer", "bearer", "Basic dXNlcjpwYXNz", "Token x", "x", "BearerX a", "Digest a b", "Negotiate abc", " ", "Bearer\tx", ",", "Bearer,x"} {
			add("header "+h, h, "")
		}
		add("empty token", "Bearer ", "?")
		for _, tk := range []string{"garbage", "a.b.c", "..", "null"} {
			add("token "+tk, "Bearer "+tk, "access_token")
			add("token "+tk+" lower", "bearer "+tk, "access_token")
		}
		add("rogue", "Bearer "+rogue.Sign(vh.BaseClaims("u")), "access_token")
		add("expired", "Bearer "+key.Sign(vh.BaseClaims("u").With("exp", now-500)), "access_token")
		add("not yet", "Bearer "+key.Sign(vh.BaseClaims("u").With("nbf", now+5000)), "access_token")
		add("no kid", "Bearer "+key.SignAlg("RS256", map[string]interface{}{"kid": nil}, vh.BaseClaims("u")), "access_token")
		for kind, bad := range badTokens(rnd, key, rogue, now) {
			add(kind, "Bearer "+bad, "access_token")
		}
		add("unsigned", "Bearer "+vh.B64([]byte(`{"alg":"none","kid":"k1"}`))+"."+vh.B64(vh.MustJSON(vh.BaseClaims("u")))+".", "access_token")
		if f := fail("access_token"); f != nil {
			add("access rules fail", "Bearer "+key.Sign(f), "access_token")
			add("access rules fail with ID", "Bearer "+key.Sign(f)+" "+key.Sign(vh.BaseClaims("u")), "access_token")
		}
		acc := pass("access_token")
		if p.dead {
			if acc != nil {
				add("no keys", "Bearer "+key.Sign(acc), "access_token")
			}
			acc = nil
		}
		needID := false
		for _, x := range p.rules {
			needID = needID || x.source == "id_token"
		}
		if acc != nil {
			a := key.Sign(acc)
			for _, h := range []string{"Bearer\t" + a, "xBearer " + a, "X-Bearer " + a, "Basic dXNlcjpwYXNz, Bearer " + a, "Basic dXNlcjpwYXNz,Bearer " + a, "Token " + a, "MAC " + a, a, a + " Bearer", "Bearer:" + a, "Bearer=" + a, "Bearer: " + a,
				"Bear " + a, "BearerBearer " + a, "JWT " + a, "Basic " + a, "Basic " + base64.StdEncoding.EncodeToString([]byte("u:"+a)), "Bearer" + a, "\"Bearer\" " + a, "token=" + a} {
				add("good token in header "+trunc(h, 22), h, "")
			}
			for _, tk := range []string{a + ",", "\"" + a + "\"", "<" + a + ">", "token=" + a, "Bearer " + a, "x, Bearer " + a, "access_token=" + a, "\t" + a, a + ";q=1"} {
				add("good token dressed up "+trunc(tk, 12), "Bearer "+tk, "access_token")
			}
			for _, tk := range []string{"garbage", "a.b.c", "x y", " ", rogue.Sign(vh.BaseClaims("u")), key.Sign(vh.BaseClaims("u").With("exp", now-500))} {
				add("ID token "+trunc(tk, 8), "Bearer "+a+" "+tk, "id_token")
			}
			for kind, bad := range badTokens(rnd, key, rogue, now) {
				add("ID token "+kind, "Bearer "+a+" "+bad, "id_token")
			}
			if needID {
				add("ID token left out", "Bearer "+a, "?")
				add("ID token empty", "Bearer "+a+" ", "?")
			} else {
				list = append(list, cs{"good access", "Bearer " + a, "", true})
			}
			if f := fail("id_token"); f != nil {
				add("ID rules fail", "Bearer "+a+" "+key.Sign(f), "id_token")
			}
			if id := pass("id_token"); id != nil {
				list = append(list, cs{"good pair", "Bearer " + a + " " + key.Sign(id), "", true})
				list = append(list, cs{"good pair lower", "bearer " + a + " " + key.Sign(id), "", true})
			}
		}
		for _, c := range list {
			req := vh.Get(ns, "svc", p.path)
			req.Authz = c.authz
			req.Method = []string{"GET", "POST", "DELETE", "HEAD"}[rnd.Intn(4)]
			resp := w.Do(req)
			r.Case(p.path+" "+c.kind, true)
			wit := vh.M{"kind": c.kind, "rules": specsOf(p.rules), "request": vh.ReqM(req), "answer": resp.String()}
			if i < 3 {
				r.Sample(c.kind, wit)
			}
			if c.allowed {
				r.Count("accepted", 1)
				if !resp.Allowed() && !w.Eventually(func() bool { return w.Do(req).Allowed() }) && w.CheckAlive("answering API requests") {
					r.Violation("accepted request not answered OK: "+resp.String(), wit)
				}
				continue
			}
			r.Count("rejected", 1)
			var want []string
			switch {
			case p.scopeRule == nil:
				want = []string{}
			case c.rejected == "access_token" && p.scopeRule.source != "id_token", c.rejected == "id_token" && p.scopeRule.source == "id_token":
				want = p.scope
				r.Count("scopes_judged", 1)
			}
			if err := checkChallenge(resp, want, false); err != nil && w.CheckAlive("answering API requests") {
				r.Violation(fmt.Sprintf("rejection (%s) is not a correct challenge: %v", c.kind, err), wit)
			} else if resp.Direct != nil && resp.Direct.Code == 401 {
				r.Count("answered_401", 1)
			}
		}
	})

	// ---- fail closed
	good := key.Sign(vh.BaseClaims("u").With("aud", "c"))
	sess := vh.NewBrowser()
	w.Kube.Apply(vh.OidcConfigs, ns, "o", vh.M{"clientId": "c", "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
	w.Kube.Apply(vh.OidcConfigs, ns, "ogone", vh.M{"clientId": "c", "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
	w.Kube.Apply(vh.JwtConfigs, ns, "jgone", vh.M{"jwksUrl": t.JwksURL()})
	w.Kube.Apply(vh.JwtConfigs, ns, "nourl", vh.M{"jwksUrl": ""})
	w.Kube.Apply(vh.JwtConfigs, ns, "badurl", vh.M{"jwksUrl": "::%zz"})
	t500 := w.IdP.Tenant("t500")
	t500.Override("jwks", func(rw http.ResponseWriter, _ *http.Request) { rw.WriteHeader(500); rw.Write(vh.JwksJSON(key)) })
	w.Kube.Apply(vh.JwtConfigs, ns, "status500", vh.M{"jwksUrl": t500.JwksURL()})
	w.Kube.Apply(vh.OidcConfigs, ns, "odead", vh.M{"clientId": "c", "clientSecret": "s", "discoveryUrl": "http://127.0.0.1:1/none"})
	w.Kube.Apply(vh.OidcConfigs, ns, "nodisc", vh.M{"clientId": "c", "clientSecret": "s", "discoveryUrl": ""})
	w.Kube.Apply(vh.JwtConfigs, "elsewhere", "other", vh.M{"jwksUrl": t.JwksURL()})
	w.Kube.Apply(vh.OidcConfigs, "elsewhere", "other", vh.M{"clientId": "c", "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
	fp := []vh.M{vh.PathEntry("oidc", "/ok", "", "", "o", "", nil), vh.PathEntry("oidc", "/ogone", "", "", "ogone", "", nil), vh.JwtPath("/jgone", "", "", "jgone", nil)}
	var fpaths []string
	for i, pr := range [][2]string{{"jwt", "missing"}, {"oidc", "missing"}, {"jwt", "o"}, {"oidc", "j"}, {"jwt", ""}, {"oidc", ""}, {"jwt", "other"}, {"oidc", "other"}, {"jwt", "elsewhere/other"}, {"jwt", "n/j"}, {"jwt", "../n/j"},
		{"jwt", "dead"}, {"jwt", "nourl"}, {"jwt", "badurl"}, {"jwt", "status500"}, {"oidc", "odead"}, {"oidc", "nodisc"},
		{"saml", "j"}, {"", "j"}, {"none", "j"}, {"NONE", "o"}, {"JWT", "j"}, {"Oidc", "o"}, {"jwt ", "j"}, {"jwt,oidc", "j"}, {"basic", ""}, {"", ""}} {
		p := fmt.Sprintf("/f%d", i)
		fp = append(fp, vh.PathEntry(pr[0], p, "", "", pr[1], "", nil), vh.PathEntry(pr[0], "", p+"x", "GET", pr[1], "", []vh.M{vh.Rule("sub", "NOT", "", "zz")}))
		fpaths = append(fpaths, p, p+"x/below")
	}
	w.Kube.Apply(vh.Policies, ns, "fail", vh.Spec("failsvc", fp...))
	w.SyncAll()
	okPage := vh.Get(ns, "failsvc", "/ok")
	if _, c, err := w.Login(sess, okPage, t, vh.Give(vh.Tokens{Access: good, ID: good})); c == nil {
		r.Inconclusive(fmt.Sprintf("the reference login did not work: %v", err))
	}
	probe := func(path, when string) {
		for k := 0; k < 8; k++ {
			req := vh.Get(ns, "failsvc", path)
			req.Cookies = sess.Header()
			kind := []string{"plain", "valid token", "valid pair", "callback", "callback with error", "logout", "logout and token", "garbage token"}[k]
			switch k {
			case 1:
				req.Authz = "Bearer " + good
			case 2:
				req.Authz = "Bearer " + good + " " + good
			case 3:
				req = vh.Callback(req, "c", "s")
			case 4:
				req = vh.Callback(req, "", "")
				req.PErr = "access_denied"
			case 5:
				req = vh.Logout(req)
			case 6:
				req = vh.Logout(req)
				req.Authz = "Bearer " + good
			case 7:
				req.Authz = "Bearer x.y.z"
			}
			resp := w.Do(req)
			r.Case("fail closed "+when+path+kind, true)
			r.Count("fail_closed", 1)
			if resp.Allowed() && w.CheckAlive("failing closed") {
				r.Violation(fmt.Sprintf("%s request allowed although the configuration is unusable (%s)", kind, when), vh.M{"path": path, "policies": fp, "request": vh.ReqM(req), "answer": resp.String()})
			}
		}
	}
	par(len(fpaths), 8, func(i int) { probe(fpaths[i], "never usable ") })
	// configurations that worked and are deleted, repeatedly
	for round := 0; round < r.Pick(2, 8); round++ {
		if !w.Eventually(func() bool { return w.Do(vh.Bearer(ns, "failsvc", "/jgone", good)).Allowed() }) {
			r.Violation("valid token not accepted while the configuration exists", vh.M{"round": round})
		}
		w.Kube.Delete(vh.JwtConfigs, ns, "jgone")
		w.Kube.Delete(vh.OidcConfigs, ns, "ogone")
		w.SyncAll()
		probe("/jgone", fmt.Sprint("deleted ", round))
		probe("/ogone", fmt.Sprint("deleted ", round))
		w.Kube.Apply(vh.JwtConfigs, ns, "jgone", vh.M{"jwksUrl": t.JwksURL()})
		w.Kube.Apply(vh.OidcConfigs, ns, "ogone", vh.M{"clientId": "c", "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
		w.SyncAll()
	}
	w.CheckAlive("answering API requests")
	r.Floor("rejected", npol*20)
	r.Floor("accepted", npol)
	r.Floor("scopes_judged", npol*4)
	r.Floor("fail_closed", 300)
	r.Finish()
}

// evalRulesOf evaluates the rules of one source only.
func evalRulesOf(rs []crule, c vh.Claims, src string) (int, []int) {
	var mine []crule
	for _, x := range rs {
		s := x.source
		if s == "" {
			s = "access_token"
		}
		if s == src {
			x.source = ""
			mine = append(mine, x)
		}
	}
	return evalRules(mine, c, nil)
}

// badTokens are tokens that no rule list accepts, one of each kind.
func badTokens(rnd *rand.Rand, key, rogue *vh.Key, now int64) map[string]string {
	c := vh.BaseClaims("u")
	good := key.Sign(c)
	parts := strings.Split(good, ".")
	flip := func(s string, at int) string {
		b := []byte(s)
		if b[at] == 'A' {
			b[at] = 'B'
		} else {
			b[at] = 'A'
		}
		return string(b)
	}
	hdr := func(m map[string]interface{}) string { return key.SignAlg("RS256", m, c) }
	raw := func(h, p string) string { return vh.B64([]byte(h)) + "." + vh.B64([]byte(p)) + "." + parts[2] }
	return map[string]string{
		"unknown key":            hdr(map[string]interface{}{"kid": fmt.Sprintf("k%d", 100+rnd.Intn(1000))}),
		"empty key id":           hdr(map[string]interface{}{"kid": ""}),
		"numeric key id":         hdr(map[string]interface{}{"kid": 7}),
		"odd key id":             hdr(map[string]interface{}{"kid": "k1\", scopes=\"all"}),
		"signature changed":      parts[0] + "." + parts[1] + "." + flip(parts[2], rnd.Intn(100)),
		"signature missing":      parts[0] + "." + parts[1] + ".",
		"signature cut":          parts[0] + "." + parts[1] + "." + parts[2][:len(parts[2])/2],
		"payload changed":        parts[0] + "." + vh.B64(vh.MustJSON(c.With("sub", "root"))) + "." + parts[2],
		"payload no object":      raw(`{"alg":"RS256","kid":"k1"}`, `["x"]`),
		"payload no JSON":        raw(`{"alg":"RS256","kid":"k1"}`, `{"sub":`),
		"payload no base64":      parts[0] + ".@@@." + parts[2],
		"header no JSON":         raw(`{"alg"`, `{}`),
		"header without alg":     raw(`{"kid":"k1"}`, `{}`),
		"unknown alg":            raw(`{"alg":"XX256","kid":"k1"}`, `{}`),
		"HS256":                  raw(`{"alg":"HS256","kid":"k1"}`, `{}`),
		"ES256":                  raw(`{"alg":"ES256","kid":"k1"}`, `{}`),
		"two parts":              parts[0] + "." + parts[1],
		"four parts":             good + "." + parts[2],
		"expired long ago":       key.Sign(c.With("exp", 1)),
		"expired and not yet":    key.Sign(c.With("exp", now-10).With("nbf", now+1000)),
		"expired, unknown key":   vhRename(rogue, "k9").Sign(c.With("exp", now-500)),
		"expired, wrong key":     rogue.Sign(c.With("exp", now-500)),
		"expired without claims": key.Sign(vh.Claims{"exp": now - 5}),
	}
}

func vhRename(k *vh.Key, kid string) *vh.Key {
	c := *k
	c.Kid = kid
	return &c
}
