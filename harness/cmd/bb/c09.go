package main

import (
	"fmt"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/vh"
)

func init() { checks["C09"] = c09 }

// issue is one login's record: who it belongs to and every token it was ever given.
type issue struct {
	id     int
	client int
	user   int
	mu     sync.Mutex
	acc    map[string]int // access token -> generation
	ident  map[string]int
	gen    int // newest generation forwarded so far
	dead   bool
}

func c09() {
	r := vh.NewReport("C09", "cases are requests of many concurrent users with sessions at several clients (with logins, refreshes, logouts, several sessions in one browser, altered, swapped, deleted and foreign-client session ids); an ownership oracle knows which login every token was issued to; distinct by user, step and kind")
	r.Assumptions = []string{"a client is its client id"}
	rnd := r.Rand("c09")
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	vh.PreKeys(4, 1024)
	key, key2 := vh.NewKeyE("k1", 1024, 65537), vh.NewKeyE("k1", 1024, 65537)
	ta, tb := w.IdP.Tenant("a"), w.IdP.Tenant("b")
	ta.SetKeys(key)
	tb.SetKeys(key2)
	type cl struct {
		id, ns, svc, path string
		t                 *vh.Tenant
		k                 *vh.Key
		opaque            bool
		name              string // cookie name
	}
	cls := []*cl{
		{id: "one", ns: "n1", svc: "s", path: "/one", t: ta, k: key},
		{id: "two", ns: "n1", svc: "s", path: "/two", t: ta, k: key},
		{id: "One", ns: "n1", svc: "s", path: "/One", t: ta, k: key},
		{id: "three", ns: "n1", svc: "s2", path: "/", t: ta, k: key, opaque: true},
		{id: "four", ns: "n2", svc: "s", path: "/one", t: ta, k: key},
		{id: "five 5", ns: "n2", svc: "s", path: "/five", t: tb, k: key2, opaque: true},
		{id: "on", ns: "n2", svc: "s", path: "/on", t: ta, k: key},
	}
	for i, c := range cls {
		w.Kube.Apply(vh.OidcConfigs, c.ns, fmt.Sprintf("o%d", i), vh.M{"clientId": c.id, "clientSecret": "s", "discoveryUrl": c.t.DiscoveryURL()})
		// rules that any client's tokens satisfy: nothing but the session's own client keeps it apart
		rules := []vh.M{vh.Rule("kind", "ALL", "id_token", "id")}
		if !c.opaque {
			rules = append(rules, vh.Rule("kind", "ALL", "access_token", "access"))
		}
		w.Kube.Apply(vh.Policies, c.ns, fmt.Sprintf("p%d", i), vh.Spec(c.svc, vh.PathEntry("oidc", "", c.path, "", fmt.Sprintf("o%d", i), "", rules)))
	}
	w.SyncAll()
	pageOf := func(c *cl) vh.Req { return vh.Get(c.ns, c.svc, strings.TrimRight(c.path, "/")+"/page") }

	var nIssue, nTok int64
	var omu sync.Mutex
	owner := map[string]string{} // token -> description of its login, for witnesses
	mint := func(is *issue, gen int, ttl time.Duration) vh.Tokens {
		c := cls[is.client]
		n := atomic.AddInt64(&nTok, 1)
		base := vh.Claims{"sub": fmt.Sprint("user", is.user), "login": is.id, "gen": gen, "jti": n, "exp": time.Now().Add(ttl).Unix()}
		tk := vh.Tokens{Access: c.k.Sign(base.With("kind", "access").With("aud", []string{c.id})), ID: c.k.Sign(base.With("kind", "id"))}
		if c.opaque && is.id%2 == 0 {
			tk.Access = fmt.Sprintf("opaque-%d-%d", n, is.id)
			c.t.Userinfo(tk.Access, 200)
		}
		tk.Refresh = fmt.Sprintf("refresh-%d-%d", is.id, n)
		is.mu.Lock()
		is.acc[tk.Access] = gen
		is.ident[tk.ID] = gen
		is.mu.Unlock()
		omu.Lock()
		d := fmt.Sprintf("login %d of user %d at client %q, generation %d", is.id, is.user, c.id, gen)
		owner[tk.Access], owner[tk.ID] = d, d
		omu.Unlock()
		return tk
	}
	var refreshes int64
	var grantRefresh func(is *issue, gen int, long bool) vh.Grant
	grantRefresh = func(is *issue, gen int, long bool) vh.Grant {
		return func(*vh.HReq) (int, []byte) {
			atomic.AddInt64(&refreshes, 1)
			ttl := time.Hour
			if !long && is.id%3 == 0 {
				ttl = 3 * time.Second
			}
			tk := mint(is, gen+1, ttl)
			// both the old and the new refresh token keep working, for requests that refresh at the same time
			cls[is.client].t.Refresh(tk.Refresh, grantRefresh(is, gen+1, gen > 1))
			if is.id%5 == 0 {
				tk.Refresh = "" // not rotated
			}
			time.Sleep(time.Duration(is.id%7) * time.Millisecond)
			return 200, vh.TokenJSON(tk)
		}
	}

	describe := func(tok string) string { omu.Lock(); defer omu.Unlock(); return owner[tok] }
	// judge checks an allowed answer of a request that carried is's session (nil: no valid session)
	judge := func(kind string, c int, is *issue, floor int, wasDead bool, req vh.Req, resp *vh.Resp) {
		if !resp.Allowed() {
			r.Count("denied", 1)
			return
		}
		r.Count("allowed", 1)
		wit := vh.M{"kind": kind, "client": cls[c].id, "request": vh.ReqM(req), "answer": resp.String()}
		parts := strings.Split(resp.Authz, " ")
		var err error
		switch {
		case is == nil:
			err = fmt.Errorf("a request without a valid session was authenticated")
		case is.client != c:
			err = fmt.Errorf("a session of client %q was honoured at client %q", cls[is.client].id, cls[c].id)
		case wasDead:
			err = fmt.Errorf("a deleted session was honoured")
		case len(parts) != 3 || parts[0] != "Bearer":
			err = fmt.Errorf("forwarded %q", trunc(resp.Authz, 100))
		default:
			is.mu.Lock()
			ga, oka := is.acc[parts[1]]
			gi, oki := is.ident[parts[2]]
			is.mu.Unlock()
			switch {
			case !oka || !oki:
				err = fmt.Errorf("login %d of user %d was forwarded with tokens of: %q, %q", is.id, is.user, describe(parts[1]), describe(parts[2]))
			case ga != gi:
				err = fmt.Errorf("access token of generation %d with ID token of generation %d", ga, gi)
			case ga < floor && floor < 1000:
				// a refresh that was already under way may still store its older answer: only generations are compared loosely
				r.Count("older_generation_seen", 1)
			}
			is.mu.Lock()
			if err == nil && ga > is.gen {
				is.gen = ga
			}
			is.mu.Unlock()
			if err == nil && ga > 0 {
				r.Count("refreshed_forwarded", 1)
			}
		}
		if err != nil && w.CheckAlive("serving sessions") {
			if is != nil {
				wit["session_of"] = fmt.Sprintf("login %d of user %d at client %q", is.id, is.user, cls[is.client].id)
			}
			r.Violation(err.Error(), wit)
		}
	}

	type sess struct {
		is    *issue
		name  string
		value string
	}
	// a pool of session ids everybody may try under a wrong name
	var pmu sync.Mutex
	var pool []sess
	actors, steps := r.Pick(72, 150), r.Pick(60, 250)
	seeds := make([]int64, actors)
	for i := range seeds {
		seeds[i] = rnd.Int63()
	}
	actor := func(u int) {
		rnd := rand.New(rand.NewSource(seeds[u]))
		mine := map[int]*sess{} // by client
		login := func(c int) {
			var is *issue
			is = &issue{id: int(atomic.AddInt64(&nIssue, 1)), client: c, user: u, acc: map[string]int{}, ident: map[string]int{}}
			b := vh.NewBrowser()
			for _, s := range mine {
				b.Jar[s.name] = s.value
			}
			var resp *vh.Resp
			var ck *http.Cookie
			var err error
			delay := time.Duration(rnd.Intn(15)) * time.Millisecond
			ttl := time.Hour
			if rnd.Intn(3) != 0 {
				ttl = time.Duration(2+rnd.Intn(2)) * time.Second
			}
		again:
			resp, ck, err = w.Login(b, pageOf(cls[c]), cls[c].t, func(*vh.HReq) (int, []byte) {
				tk := mint(is, 0, ttl)
				cls[c].t.Refresh(tk.Refresh, grantRefresh(is, 0, false))
				time.Sleep(delay)
				return 200, vh.TokenJSON(tk)
			})
			if err != nil || ck == nil {
				// a live session at the client lets the request through: no login then
				if resp != nil && resp.Allowed() {
					return
				}
				if ttl < time.Hour { // the tokens may have expired on a busy machine
					ttl = time.Hour
					goto again
				}
				if w.CheckAlive("logging in") {
					r.Violation(fmt.Sprintf("login did not work: %v", err), vh.M{"client": cls[c].id})
				}
				return
			}
			s := &sess{is, ck.Name, ck.Value}
			mine[c] = s
			pmu.Lock()
			pool = append(pool, *s)
			pmu.Unlock()
			r.Count("logins", 1)
		}
		header := func() string {
			var parts []string
			for _, s := range mine {
				parts = append(parts, s.name+"="+s.value)
			}
			rnd.Shuffle(len(parts), func(i, j int) { parts[i], parts[j] = parts[j], parts[i] })
			return strings.Join(parts, "; ")
		}
		for k := 0; k < steps && !r.TooMany(); k++ {
			c := rnd.Intn(len(cls))
			req := pageOf(cls[c])
			s := mine[c]
			op := rnd.Intn(12)
			kind := "own"
			if s == nil && op < 9 {
				delete(mine, c)
				login(c)
				if s = mine[c]; s == nil {
					continue
				}
			}
			switch op {
			case 0, 1, 2, 3, 4, 5:
				req.Cookies = header()
				var is *issue
				floor := 0
				if s != nil {
					is = s.is
					is.mu.Lock()
					floor = is.gen
					is.mu.Unlock()
				}
				n := 1
				if rnd.Intn(4) == 0 {
					n = 3 // the browser asks several times at once
				}
				par(n, n, func(int) { judge(kind, c, is, floor, false, req, w.Do(req)) })
			case 6: // an altered id
				v := []byte(s.value)
				i := rnd.Intn(len(v))
				switch rnd.Intn(5) {
				case 0:
					v[i] ^= 0x20
				case 1:
					v = v[:len(v)-1]
				case 2:
					v = append(v, 'a')
				case 3:
					v[i] = 'a' + (v[i]-'a'+1)%26
				case 4:
					v = append([]byte{}, v[1:]...)
				}
				if string(v) == s.value {
					continue
				}
				kind = "altered"
				req.Cookies = s.name + "=" + string(v)
				judge(kind, c, nil, 0, false, req, w.Do(req))
			case 7: // somebody's session id under the name of another client
				pmu.Lock()
				o := pool[rnd.Intn(len(pool))]
				pmu.Unlock()
				if o.is.client == c {
					continue
				}
				kind = "foreign client"
				r.Count("foreign_client_tries", 1)
				req.Cookies = s.name + "=" + o.value
				if rnd.Intn(2) == 0 {
					req.Cookies = o.name + "=" + o.value + "; " + req.Cookies
				}
				judge(kind, c, o.is, 0, false, req, w.Do(req))
			case 8: // logout, then the old id
				lo := vh.Logout(req)
				lo.Cookies = header()
				resp := w.Do(lo)
				if _, _, ok := resp.Redirect(); !ok && w.CheckAlive("logging out") {
					r.Violation("logout not answered by a redirect: "+resp.String(), vh.M{"request": vh.ReqM(lo)})
				}
				kind = "deleted"
				req.Cookies = s.name + "=" + s.value
				delete(mine, c)
				judge(kind, c, s.is, 0, true, req, w.Do(req))
				r.Count("logouts", 1)
			case 9:
				kind = "unknown"
				name := "oidc-cookie-x"
				if s != nil {
					name = s.name
				}
				req.Cookies = name + "=" + []string{"", "abcdefghijklmno", "deleted", "null", "AAAAAAAAAAAAAAA", "../x", "0"}[rnd.Intn(7)]
				judge(kind, c, nil, 0, false, req, w.Do(req))
			case 10: // no cookie at all, or tokens of one's own in the header
				kind = "no cookie"
				if s != nil {
					s.is.mu.Lock()
					for t := range s.is.acc {
						req.Authz = "Bearer " + t
					}
					s.is.mu.Unlock()
				}
				judge(kind, c, nil, 0, false, req, w.Do(req))
			case 11: // login anew while a session exists: the sessions stay apart
				old := mine[c]
				delete(mine, c)
				login(c)
				if old != nil && mine[c] != nil {
					req.Cookies = old.name + "=" + old.value
					kind = "older session"
					judge(kind, c, old.is, 0, false, req, w.Do(req))
				}
			}
			r.Case(fmt.Sprint(u, " ", k, " ", kind), true)
			if u < 2 && k < 8 {
				r.Sample(kind, vh.M{"request": vh.ReqM(req), "client": cls[c].id})
			}
			if rnd.Intn(3) == 0 {
				time.Sleep(time.Duration(rnd.Intn(r.Pick(800, 800))) * time.Millisecond)
			}
		}
	}
	var wg sync.WaitGroup
	for u := 0; u < actors; u++ {
		wg.Add(1)
		go func(u int) { defer wg.Done(); actor(u) }(u)
	}
	wg.Wait()
	// ---- logins that happen to have something in common: the code, the refresh token, one of the tokens, the user
	type mate struct {
		c    int
		tk   vh.Tokens
		next vh.Tokens // after its refresh
		b    *vh.Browser
	}
	common := []struct {
		what string
		a, b int
	}{{"code", 0, 5}, {"code", 5, 3}, {"refresh token", 0, 5}, {"refresh token", 4, 5}, {"refresh token", 3, 5}, {"access token", 0, 0}, {"access token", 0, 1}, {"access token", 3, 3}, {"opaque access token", 3, 5}, {"opaque access token", 3, 3}, {"ID token", 0, 0}, {"ID token", 0, 1}, {"ID token", 3, 3}, {"user", 0, 0}, {"user", 1, 4}, {"code used again", 0, 0}, {"code used again", 0, 1}}
	par(len(common)*r.Pick(3, 12), 24, func(i int) {
		cm := common[i%len(common)]
		if r.TooMany() {
			return
		}
		mates := []*mate{{c: cm.a}, {c: cm.b}}
		serial := fmt.Sprint(i)
		code := "common-" + serial
		mk := func(k int, what string, ttl time.Duration) vh.Tokens {
			c := cls[mates[k].c]
			base := vh.Claims{"sub": fmt.Sprint("user", k), "jti": fmt.Sprint(serial, k, what), "exp": time.Now().Add(time.Hour).Unix()}
			if cm.what == "user" {
				base["sub"] = "user"
			}
			return vh.Tokens{Access: c.k.Sign(base.With("kind", "access").With("aud", []string{"one", "two", c.id}).With("exp", time.Now().Add(ttl).Unix())), ID: c.k.Sign(base.With("kind", "id")), Refresh: fmt.Sprint("rt", serial, k, what)}
		}
		for tries := 0; ; tries++ {
			ok := true
			for k, m := range mates {
				ttl := time.Hour
				if cm.what == "refresh token" {
					ttl = 3 * time.Second << uint(tries)
				}
				m.tk = mk(k, "first", ttl)
				switch {
				case cm.what == "access token" && k == 1:
					m.tk.Access = mates[0].tk.Access
				case cm.what == "opaque access token":
					m.tk.Access = "opaque-common-" + serial
					cls[m.c].t.Userinfo(m.tk.Access, 200)
				case cm.what == "ID token" && k == 1:
					m.tk.ID = mates[0].tk.ID
				case cm.what == "refresh token":
					m.tk.Refresh = "rt-common-" + serial
				}
				m.b = vh.NewBrowser()
				page := pageOf(cls[m.c])
				if !strings.HasPrefix(cm.what, "code") {
					code = w.NextCode()
				}
				cls[m.c].t.Code(code, vh.Give(m.tk))
				a, err := vh.ParseLogin(w.Visit(m.b, page))
				if err != nil {
					ok = false
					continue
				}
				if resp := w.Visit(m.b, vh.Callback(page, code, a.State)); !isRedirect(resp) {
					if cm.what == "code used again" && k == 1 && ok {
						return // a code may be refused the second time
					}
					ok = false
				}
			}
			if ok {
				break
			}
			if tries == 4 {
				if w.CheckAlive("logging in") {
					r.Violation("two logins with the same "+cm.what+" do not both work", vh.M{"clients": []string{cls[cm.a].id, cls[cm.b].id}})
				}
				return
			}
		}
		if cm.what == "refresh token" {
			for k, m := range mates {
				m.next = mk(k, "next", time.Hour)
				cls[m.c].t.Refresh(m.tk.Refresh, func(*vh.HReq) (int, []byte) {
					time.Sleep(20 * time.Millisecond)
					return 200, vh.TokenJSON(m.next)
				})
			}
			for deadline := time.Now().Add(30 * time.Second); time.Now().Before(deadline); time.Sleep(200 * time.Millisecond) {
				if expired(mates[0].tk.Access) && expired(mates[1].tk.Access) {
					break
				}
			}
			par(2, 2, func(k int) { w.Visit(mates[k].b, pageOf(cls[mates[k].c])) })
			for _, m := range mates {
				m.tk = m.next
			}
		}
		check := func(k int, when string) {
			m := mates[k]
			resp := w.Visit(m.b.Clone(), pageOf(cls[m.c]))
			r.Case(fmt.Sprint("common ", i, when, k), true)
			r.Count("common_visits", 1)
			if want := "Bearer " + m.tk.Access + " " + m.tk.ID; !resp.Allowed() || resp.Authz != want {
				if w.CheckAlive("serving sessions") {
					r.Violation(fmt.Sprintf("one of two logins with the same %s is not forwarded with its own tokens (%s): %s", cm.what, when, trunc(resp.String(), 200)), vh.M{"clients": []string{cls[cm.a].id, cls[cm.b].id}, "first": mates[0].tk, "second": mates[1].tk, "visitor": k, "answer": resp.String()})
				}
			}
		}
		for _, k := range []int{0, 1, 0} {
			check(k, "both sessions")
		}
		w.Visit(mates[0].b, vh.Logout(pageOf(cls[mates[0].c])))
		check(1, "after the other's logout")
	})
	r.Floor("common_visits", 4*len(common))
	r.Count("refreshes", int(refreshes))
	w.CheckAlive("serving sessions")
	r.Floor("allowed", actors*5)
	r.Floor("refreshed_forwarded", actors/2)
	r.Floor("foreign_client_tries", actors/2)
	r.Floor("logouts", actors/2)
	r.Finish()
}

func isRedirect(resp *vh.Resp) bool {
	_, sc, ok := resp.Redirect()
	return ok && sc != ""
}

func expired(tok string) bool {
	exp, _ := claimsOf(tok)["exp"].(float64)
	return exp > 0 && float64(time.Now().UnixNano())/1e9 > exp+0.2
}
