package main

import (
	"fmt"
	"math/rand"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/vh"
)

func init() { checks["C21"] = c21 }

// tokFaults are ways a JWT can be wrong. They get the signing keys and claims and return the token.
type tokMaker struct {
	good, rogue, foreign, spare *vh.Key
}

func (m tokMaker) bad(rnd *rand.Rand, kind int, c vh.Claims) (string, string) {
	now := time.Now().Unix()
	good := m.good.Sign(c)
	seg := strings.Split(good, ".")
	switch kind {
	case 0:
		return "missing", ""
	case 1:
		return "expired", m.good.Sign(c.With("exp", now-60-rnd.Int63n(1e6)))
	case 2:
		return "not yet valid", m.good.Sign(c.With("nbf", now+90+rnd.Int63n(1e6)))
	case 3:
		return "signed by another key of that id", m.rogue.Sign(c)
	case 4:
		return "signed by another IdP", m.foreign.Sign(c)
	case 5:
		return "signed by a key that is not published", m.spare.Sign(c)
	case 6:
		return "without key id", m.good.SignAlg("RS256", map[string]interface{}{"kid": nil}, c)
	case 7:
		return "algorithm none", vh.B64([]byte(`{"alg":"none","kid":"k1"}`)) + "." + seg[1] + "."
	case 8:
		return "HMAC with the public key", vh.HMACToken("HS256", "k1", m.good.Priv.N.Bytes(), c)
	case 9:
		return "payload of another token", seg[0] + "." + strings.Split(m.good.Sign(c.With("sub", "other").With("zz", rnd.Int())), ".")[1] + "." + seg[2]
	case 10:
		return "signature cut", good[:len(good)-8]
	case 11:
		return "two segments", seg[0] + "." + seg[1]
	case 12:
		return "no signature", seg[0] + "." + seg[1] + "."
	case 13:
		return "not a token", []string{"null", "opaque", "{}", "x.y.z", "..", "Bearer x"}[rnd.Intn(6)]
	case 14:
		i := rnd.Intn(len(seg[2]) - 4)
		b := []byte(seg[2])
		if b[i] == 'A' {
			b[i] = 'B'
		} else {
			b[i] = 'A'
		}
		return "signature altered", seg[0] + "." + seg[1] + "." + string(b)
	case 15:
		return "issued later than its end", m.good.Sign(c.With("exp", now-30).With("iat", now))
	}
	return "payload no object", m.good.SignRaw("RS256", []byte(`{"alg":"RS256","kid":"k1"}`), []byte(`["exp"]`))
}

const tokFaultKinds = 17

func c21() {
	r := vh.NewReport("C21", "cases are logins and refreshes for which the IdP returns a token pair that is valid, or wrong in one or both tokens, under random rule lists, and established sessions whose policy, configuration or keys change; the outcome is decided by construction and by an independent evaluator of the rules; distinct by pair and rules; non-trivial when the IdP answered with tokens")
	vh.NoReuse(r)
	r.Assumptions = []string{"the userinfo endpoint disowns every token here (C19 judges it)", "tokens always carry an expiry", "claims of types the documentation does not name are judged as in C04"}
	rnd := r.Rand("c21")
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	vh.PreKeys(12, 1024)
	mk := func(kid string) *vh.Key { return vh.NewKeyE(kid, 1024, 65537) }
	m := tokMaker{good: mk("k1"), rogue: mk("k1"), foreign: mk("k2"), spare: mk("k3")}
	other := mk("k4")
	t, tb := w.IdP.Tenant("a"), w.IdP.Tenant("b")
	t.SetKeys(m.good, other)
	tb.SetKeys(m.foreign, m.rogue)
	const ns = "n"
	w.Kube.Apply(vh.OidcConfigs, ns, "o", vh.M{"clientId": "cli", "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
	// policies: no rules, and random lists
	type set struct {
		path    string
		rules   []crule
		dflt    bool
		oneside string
		long    bool
	}
	var sets []set
	var paths []vh.M
	nset := r.Pick(60, 300)
	for i := 0; i < nset; i++ {
		s := set{path: fmt.Sprint("/p", i)}
		if i%4 == 0 {
			s.dflt = true
			s.rules = []crule{{"aud", "ANY", "access_token", []string{"cli"}}}
			paths = append(paths, vh.PathEntry("oidc", "", s.path, "", "o", "", nil))
		} else if i%12 == 3 {
			s.long = true
			s.rules = longRules(rnd)
			paths = append(paths, vh.PathEntry("oidc", "", s.path, "", "o", "", specsOf(s.rules)))
		} else {
			for k := 0; k <= rnd.Intn(3); k++ {
				s.rules = append(s.rules, genRule(rnd, false))
			}
			if i%4 == 1 { // on one token only
				src := []string{"access_token", "id_token"}[rnd.Intn(2)]
				for k := range s.rules {
					s.rules[k].source = src
				}
			}
			paths = append(paths, vh.PathEntry("oidc", "", s.path, "", "o", "", specsOf(s.rules)))
		}
		sets = append(sets, s)
	}
	w.Kube.Apply(vh.Policies, ns, "p", vh.Spec("svc", paths...))
	w.SyncAll()
	fail := func(what string, wit vh.M) {
		if w.CheckAlive("validating tokens of sessions") {
			r.Violation(what, wit)
		}
	}
	var serial int64
	// claims for both tokens under a rule set, tried until they satisfy it when they should
	claimsFor := func(rnd *rand.Rand, s set, want int) (acc, id vh.Claims, e int) {
		for k := 0; ; k++ {
			acc, id = genClaims(rnd, s.rules, "access_token"), genClaims(rnd, s.rules, "id_token")
			if s.long {
				broken := -1
				if want == no {
					broken = rnd.Intn(len(s.rules))
				}
				acc, id = longClaims(rnd, s.rules, broken)
			}
			if s.dflt {
				switch rnd.Intn(9) {
				case 0:
					acc = acc.With("aud", []interface{}{"x", "cli", "y"})
				case 1:
					acc = acc.With("aud", []string{"clix", "xcli", "CLI", "cl", "other", "c.li", "cli:x", "cli/", "x:cli", "cli.", "cli*", "*", "/cli", "cli@x"}[rnd.Intn(14)])
				case 2:
					acc = acc.Without("aud")
					id = id.With("aud", "cli")
				case 3:
					acc = acc.With("aud", []interface{}{"x", "y"}).With("azp", "cli")
				case 4:
					acc = acc.With("aud", "other").With("client_id", "cli")
				default:
					acc = acc.With("aud", "cli")
				}
			}
			acc = acc.With("jti", atomic.AddInt64(&serial, 1))
			e, _ = evalRules(s.rules, acc, id)
			if e == want || k > 60 {
				return
			}
		}
	}
	type pair struct {
		acc, id string
		what    string
		ok      int // yes, no, unknown
	}
	gen := func(rnd *rand.Rand, s set) pair {
		want := yes
		if rnd.Intn(4) == 0 {
			want = no
		}
		acc, id, e := claimsFor(rnd, s, want)
		p := pair{what: "both valid", ok: e}
		signer := func() *vh.Key {
			if rnd.Intn(2) == 0 {
				return other
			}
			return m.good
		}
		p.acc, p.id = signer().Sign(acc), signer().Sign(id)
		if rnd.Intn(8) == 0 { // one token in both roles
			if rnd.Intn(2) == 0 {
				p.acc, acc = p.id, id
			} else {
				p.id, id = p.acc, acc
			}
			p.ok, _ = evalRules(s.rules, acc, id)
			p.what = "one token twice"
			r.Count("one_token_twice", 1)
			return p
		}
		if rnd.Intn(2) == 0 {
			return p
		}
		k := rnd.Intn(tokFaultKinds)
		which := rnd.Intn(5)
		if which != 1 && which != 2 {
			var d string
			d, p.acc = m.bad(rnd, k, acc)
			p.what = "access token " + d
		}
		if which >= 1 && which != 3 {
			var d string
			d, p.id = m.bad(rnd, rnd.Intn(tokFaultKinds), id)
			if which == 1 || which == 2 {
				p.what = "ID token " + d
			} else {
				p.what += ", ID token " + d
			}
		}
		p.ok = no
		return p
	}
	count := func(e int, what string) {
		switch e {
		case yes:
			r.Count(what+"_good", 1)
		case no:
			r.Count(what+"_bad", 1)
		default:
			r.Count(what+"_open", 1)
		}
	}
	isLogin := func(resp *vh.Resp) bool { _, err := vh.ParseLogin(resp); return err == nil }
	ruleText := func(s set) interface{} {
		if s.dflt {
			return "none"
		}
		return specsOf(s.rules)
	}

	var jobs []func(rnd *rand.Rand)
	// ---- logins, and visits elsewhere with what they left
	for i := 0; i < r.Pick(2400, 40000); i++ {
		i := i
		jobs = append(jobs, func(rnd *rand.Rand) {
			s := sets[rnd.Intn(len(sets))]
			p := gen(rnd, s)
			b := vh.NewBrowser()
			page := vh.Get(ns, "svc", s.path+"/x")
			resp, ck, err := w.Login(b, page, t, vh.Give(vh.Tokens{Access: p.acc, ID: p.id, Refresh: "r"}))
			count(p.ok, "logins")
			r.Case(fmt.Sprint("login ", i, " ", p.what, " ", s.path), true)
			wit := vh.M{"tokens": p.what, "access": p.acc, "id": p.id, "rules": ruleText(s), "answer": resp.String()}
			if ck != nil && p.ok == no {
				fail("a login succeeded with "+p.what+" (rules not met or invalid)", wit)
				return
			}
			if ck == nil {
				if p.ok == yes {
					fail("a login failed with valid tokens: "+fmt.Sprint(err), wit)
				}
				if resp.Allowed() || strings.Contains(resp.String(), "Set-Cookie") && !isLogin(resp) {
					fail("a failed login was let through or set a cookie", wit)
				}
				resp = w.Visit(b, page)
				if resp.Allowed() || !isLogin(resp) {
					wit["visit"] = resp.String()
					fail("after a failed login the browser was not sent to log in", wit)
				}
				return
			}
			if p.ok != yes {
				return
			}
			resp = w.Visit(b.Clone(), page)
			if !resp.Allowed() || resp.Authz != "Bearer "+p.acc+" "+p.id {
				wit["visit"] = resp.String()
				fail("a new session was not honoured with its tokens", wit)
				return
			}
			if i < 10 {
				r.Sample("login", vh.M{"rules": ruleText(s), "tokens": p.what})
			}
			// its tokens must satisfy the rules of every path
			for k := 0; k < 3; k++ {
				s2 := sets[rnd.Intn(len(sets))]
				e := evalPair(s2.rules, p.acc, p.id)
				count(e, "visits")
				resp = w.Visit(b.Clone(), vh.Get(ns, "svc", s2.path))
				r.Case(fmt.Sprint("visit ", i, " ", s2.path), true)
				wit := vh.M{"access": p.acc, "id": p.id, "rules": ruleText(s2), "answer": resp.String()}
				if resp.Allowed() && e == no {
					fail("a session was accepted against the rules of the path", wit)
				} else if !resp.Allowed() && e == yes {
					fail("a session was not accepted though its tokens satisfy the rules of the path", wit)
				}
				if !resp.Allowed() {
					break // a session that failed validation ends
				}
			}
		})
	}
	// ---- the audience that is asked for when a policy has no rules
	clients := []string{"100", "https://app.example/x?y=z&a=b", "CLI", "Cli-1", "a:b", "3.50", "client_1.apps.example", "true", "null", "ü-漢", "*", "{x}", "a,b", "cli2"}
	var dp []vh.M
	for i, c := range clients {
		n := fmt.Sprint("d", i)
		w.Kube.Apply(vh.OidcConfigs, ns, n, vh.M{"clientId": c, "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
		dp = append(dp, vh.PathEntry("oidc", "", "/"+n, "", n, "", nil))
	}
	w.Kube.Apply(vh.Policies, ns, "dflt", vh.Spec("dflt", dp...))
	w.SyncAll()
	for i, c := range clients {
		i, c := i, c
		auds := []struct {
			v  interface{}
			ok bool
		}{{c, true}, {[]string{c}, true}, {[]string{"x", c}, true}, {"x " + c + " y", true}, {nil, false}, {[]string{}, false}, {"", false}, {c + ":x", false}, {c + "/", false}, {"x" + c, false}, {c[:len(c)-1], false},
			{clients[(i+1)%len(clients)], false}, {[]string{clients[(i+1)%len(clients)], clients[(i+5)%len(clients)]}, false}, {"cli", false}, {strings.ToLower(c) + "-", false}, {url.QueryEscape(c) + "%", false}, {c + "," + c, false}}
		for k, a := range auds {
			k, a := k, a
			jobs = append(jobs, func(rnd *rand.Rand) {
				cl := vh.BaseClaims("u").With("jti", atomic.AddInt64(&serial, 1))
				id := cl.With("aud", c)
				acc := cl.Without("aud").With("azp", c).With("client_id", c)
				if a.v != nil {
					acc = acc.With("aud", a.v)
				}
				b := vh.NewBrowser()
				page := vh.Get(ns, "dflt", fmt.Sprint("/d", i, "/x"))
				resp, ck, err := w.Login(b, page, t, vh.Give(vh.Tokens{Access: m.good.Sign(acc), ID: m.good.Sign(id), Refresh: "r"}))
				r.Case(fmt.Sprint("default audience ", i, ".", k), true)
				r.Count("default_audiences", 1)
				if (ck != nil) != a.ok {
					fail(fmt.Sprintf("without rules, client %q and an access token for %q: logged in: %v", c, a.v, ck != nil), vh.M{"answer": resp.String(), "error": fmt.Sprint(err)})
				} else if ck != nil && !w.Visit(b, page).Allowed() {
					fail("a new session was not honoured", vh.M{"client": c, "audience": a.v})
				}
			})
		}
	}
	// ---- refreshes
	for i := 0; i < r.Pick(300, 3000); i++ {
		i := i
		jobs = append(jobs, func(rnd *rand.Rand) {
			s := sets[rnd.Intn(len(sets))]
			p := gen(rnd, s)
			acc, id, e := claimsFor(rnd, s, yes)
			if e != yes {
				return
			}
			b := vh.NewBrowser()
			page := vh.Get(ns, "svc", s.path+"/x")
			rt := fmt.Sprint("rt", i)
			var old vh.Tokens
			for life := time.Second; ; life *= 2 {
				exp := time.Now().Add(life + time.Second)
				a, d := acc.With("exp", exp.Unix()), id
				if i%3 == 1 {
					a, d = acc, id.With("exp", exp.Unix())
				}
				old = vh.Tokens{Access: m.good.Sign(a), ID: m.good.Sign(d), Refresh: rt}
				_, ck, err := w.Login(b, page, t, vh.Give(old))
				if ck != nil {
					time.Sleep(time.Until(exp.Add(1100 * time.Millisecond)))
					break
				}
				if life > 20*time.Second {
					fail("a login failed with valid tokens: "+fmt.Sprint(err), vh.M{"access": old.Access, "id": old.ID, "rules": ruleText(s)})
					return
				}
			}
			var calls int64
			t.Refresh(rt, func(*vh.HReq) (int, []byte) {
				atomic.AddInt64(&calls, 1)
				return 200, vh.TokenJSON(vh.Tokens{Access: p.acc, ID: p.id, Refresh: rt + "x"})
			})
			resp := w.Visit(b.Clone(), page)
			count(p.ok, "refreshes")
			r.Case(fmt.Sprint("refresh ", i, " ", p.what), true)
			wit := vh.M{"tokens": p.what, "access": p.acc, "id": p.id, "old": old, "rules": ruleText(s), "answer": resp.String()}
			switch {
			case resp.Allowed() && (p.ok == no || resp.Authz != "Bearer "+p.acc+" "+p.id):
				fail("a refresh that brought "+p.what+" renewed the session (rules not met or invalid) or forwarded other tokens", wit)
			case !resp.Allowed() && p.ok == yes:
				fail("a refresh that brought valid tokens did not renew the session", wit)
			case !resp.Allowed() && !isLogin(resp):
				fail("a failed refresh did not send the browser to log in", wit)
			}
			if p.ok == no {
				t.Refresh(rt, nil)
				t.Refresh(rt+"x", nil)
				resp = w.Visit(b.Clone(), page)
				if resp.Allowed() {
					wit["next"] = resp.String()
					fail("a session was renewed by invalid tokens", wit)
				}
			}
		})
	}
	seeds := make([]int64, len(jobs))
	for i := range seeds {
		seeds[i] = rnd.Int63()
	}
	rnd.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	par(len(jobs), 64, func(i int) {
		if !r.TooMany() {
			jobs[i](rand.New(rand.NewSource(seeds[i])))
		}
	})

	// ---- established sessions and what changes under them
	rounds := r.Pick(4, 30)
	for n := 0; n < rounds && !r.TooMany(); n++ {
		c21changes(r, w, rand.New(rand.NewSource(rnd.Int63())), n, mk, fail, isLogin)
	}
	r.Floor("logins_good", 300)
	r.Floor("logins_bad", 300)
	r.Floor("refreshes_good", 40)
	r.Floor("refreshes_bad", 40)
	r.Floor("visits_bad", 30)
	r.Floor("changed_sessions", 50)
	r.Floor("one_token_twice", 50)
	r.Floor("default_audiences", 200)
	r.Finish()
}

// evalPair evaluates rules on the payloads of two signed tokens.
func evalPair(rs []crule, acc, id string) int {
	e, _ := evalRules(rs, claimsOf(acc), claimsOf(id))
	return e
}

// c21changes builds sessions for a tenant of its own and changes their circumstances.
func c21changes(r *vh.Report, w *vh.World, rnd *rand.Rand, n int, mk func(string) *vh.Key, fail func(string, vh.M), isLogin func(*vh.Resp) bool) {
	ns := fmt.Sprint("chg", n)
	t, t2 := w.IdP.Tenant(ns+"a"), w.IdP.Tenant(ns+"b")
	k1, k2, k1b := mk("k1"), mk("k2"), mk("k1")
	t.SetKeys(k1, k2)
	t2.SetKeys(k1b)
	kinds := []string{"rules", "defaultrules", "idp", "client", "keys", "config", "secret", "path"}
	for _, c := range kinds {
		w.Kube.Apply(vh.OidcConfigs, ns, c, vh.M{"clientId": "cli-" + c, "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
	}
	rules := func(v string) []vh.M {
		return []vh.M{vh.Rule("role", "ANY", "access_token", v), vh.Rule("idrole", "ALL", "id_token", "i"+v)}
	}
	policies := func(changed bool) {
		for _, c := range kinds {
			rs := rules("v1")
			if changed && c == "rules" {
				switch n % 3 {
				case 0:
					rs = rules("v2")
				case 1:
					rs = []vh.M{vh.Rule("role", "ANY", "", "v1"), vh.Rule("idrole", "NOT", "id_token", "iv1")}
				case 2:
					rs = append(rs, vh.Rule("extra", "ALL", "", "x"))
				}
			}
			if changed && c == "defaultrules" {
				rs = nil
			}
			e := vh.PathEntry("oidc", "", "/", "", c, "", rs)
			if changed && c == "path" { // a more specific entry comes in
				w.Kube.Apply(vh.Policies, ns, c, vh.Spec(c, e, vh.PathEntry("oidc", "/page", "", "", c, "", rules("v2"))))
				continue
			}
			w.Kube.Apply(vh.Policies, ns, c, vh.Spec(c, e))
		}
	}
	policies(false)
	w.SyncAll()
	type sess struct {
		kind string
		b    *vh.Browser
		tk   vh.Tokens
		ok   bool // accepted after the change
	}
	var mu sync.Mutex
	var ss []*sess
	per := 4
	par(len(kinds)*per, 16, func(i int) {
		c := kinds[i/per]
		key := k1
		if i%2 == 1 {
			key = k2
		}
		a := vh.BaseClaims("u").With("jti", fmt.Sprint(n, i)).With("role", []interface{}{"v1", "z"}).With("aud", "someone")
		id := vh.BaseClaims("u").With("idrole", "iv1").With("jti", fmt.Sprint(n, i))
		s := &sess{kind: c, b: vh.NewBrowser()}
		if i%4 >= 2 { // those satisfy the rules after the change, too
			a = a.With("role", []interface{}{"v1", "v2"}).With("extra", "x").With("aud", []interface{}{"cli-" + c, "y"})
			id = id.With("idrole", []interface{}{"iv1", "iv2"})
		}
		s.tk = vh.Tokens{Access: key.Sign(a), ID: key.Sign(id)}
		s.ok = map[string]bool{
			"rules":        i%4 >= 2 && n%3 != 1,
			"defaultrules": i%4 >= 2,
			"idp":          false,
			"client":       false,
			"keys":         i%2 == 1,
			"config":       true,
			"secret":       true,
			"path":         i%4 >= 2,
		}[c]
		page := vh.Get(ns, c, "/page")
		_, ck, err := w.Login(s.b, page, t, vh.Give(s.tk))
		resp := w.Visit(s.b.Clone(), page)
		if ck == nil || !resp.Allowed() {
			fail("a login failed with valid tokens: "+fmt.Sprint(err), vh.M{"kind": c, "tokens": s.tk, "answer": resp.String()})
			return
		}
		mu.Lock()
		ss = append(ss, s)
		mu.Unlock()
	})
	// the changes
	policies(true)
	w.Kube.Apply(vh.OidcConfigs, ns, "idp", vh.M{"clientId": "cli-idp", "clientSecret": "s", "discoveryUrl": t2.DiscoveryURL()})
	w.Kube.Apply(vh.OidcConfigs, ns, "client", vh.M{"clientId": "cli-client2", "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
	w.Kube.Apply(vh.OidcConfigs, ns, "secret", vh.M{"clientId": "cli-secret", "clientSecret": "s2", "authMethod": "client_secret_post", "discoveryUrl": t.DiscoveryURL()})
	w.Kube.Delete(vh.OidcConfigs, ns, "config")
	w.SyncAll()
	w.Kube.Apply(vh.OidcConfigs, ns, "config", vh.M{"clientId": "cli-config", "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
	w.SyncOidc()
	// the first key goes, and the adapter gets to fetch anew for a key it does not know
	k5 := mk("k5")
	t.Override("jwks", func(rw http.ResponseWriter, q *http.Request) { rw.Write(vh.JwksJSON(k2, k5)) })
	for _, c := range kinds {
		b := vh.NewBrowser()
		w.Login(b, vh.Get(ns, c, "/page"), t, vh.Give(vh.Tokens{Access: k5.Sign(vh.BaseClaims("fetch")), ID: k5.Sign(vh.BaseClaims("fetch"))}))
	}
	par(len(ss), 16, func(i int) {
		s := ss[i]
		ok := s.ok
		if strings.Contains(headerOf(s.tk.Access), `"k1"`) {
			ok = false // withdrawn, or of the other IdP
		}
		resp := w.Visit(s.b.Clone(), vh.Get(ns, s.kind, "/page"))
		r.Count("changed_sessions", 1)
		if ok {
			r.Count("changed_sessions_kept", 1)
		}
		r.Case(fmt.Sprint("change ", n, " ", s.kind, " ", i), true)
		wit := vh.M{"what_changed": s.kind, "variant": n % 3, "tokens": s.tk, "answer": resp.String()}
		switch {
		case resp.Allowed() && !ok:
			fail("an established session stayed accepted although its tokens no longer satisfy the changed "+s.kind+" or keys", wit)
		case !resp.Allowed() && ok:
			fail("an established session was dropped although its tokens still satisfy everything ("+s.kind+")", wit)
		case !resp.Allowed() && !isLogin(resp):
			fail("a session that is no longer accepted was not sent to log in", wit)
		}
	})
}
