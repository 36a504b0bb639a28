package main

import (
	"fmt"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/vh"
)

func init() { checks["C10"] = c10 }

func c10() {
	r := vh.NewReport("C10", "cases are session histories: requests before and after expiry of either token, refreshes with and without rotation over several generations, failing refreshes of many kinds, concurrent refreshes, logouts in many forms, logouts while refreshes, key fetches or userinfo calls are held by the IdP, and a stress of requests against logouts judged in real time; distinct by history kind and index")
	vh.NoReuse(r)
	r.Assumptions = []string{"with a rotating IdP only one of several concurrent refreshes need succeed", "sessions are judged while the IdP answers; a restart ends sessions"}
	rnd := r.Rand("c10")
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	vh.PreKeys(4, 1024)
	key, key2, rogue := vh.NewKeyE("k1", 1024, 65537), vh.NewKeyE("k2", 1024, 65537), vh.NewKeyE("k1", 1024, 65537)
	t := w.IdP.Tenant("a")
	t.SetKeys(key)
	const ns = "n"
	apply := func(secret string) {
		w.Kube.Apply(vh.OidcConfigs, ns, "o", vh.M{"clientId": "c", "clientSecret": secret, "discoveryUrl": t.DiscoveryURL()})
	}
	apply("s")
	pol := func(v int) {
		w.Kube.Apply(vh.Policies, ns, "p", vh.Spec("svc",
			vh.PathEntry("oidc", "", "/", "", "o", "", nil),
			vh.PathEntry("oidc", "/ruled", "", "", "o", "", []vh.M{vh.Rule("kind", "ALL", "id_token", "id"), vh.Rule("v", "NOT", "id_token", fmt.Sprint("x", v))})))
		w.Kube.Apply(vh.Policies, ns, "p2", vh.Spec("svc2", vh.PathEntry("oidc", "", "/app", "", "o", "", nil)))
	}
	pol(0)
	w.SyncAll()

	var seq int64
	mk := func(ttlA, ttlI time.Duration) vh.Tokens {
		n := atomic.AddInt64(&seq, 1)
		now := time.Now()
		tk := vh.Tokens{ID: key.Sign(vh.Claims{"sub": "u", "kind": "id", "jti": n, "exp": now.Add(ttlI).Unix()}), Refresh: fmt.Sprint("refresh-", n)}
		switch n % 7 { // refresh tokens of all sorts
		case 0:
			tk.Refresh = fmt.Sprintf("%x", n)
		case 1:
			tk.Refresh = fmt.Sprint("r/+=&%20 ", n, "-", strings.Repeat("R", 1500))
		case 2:
			tk.Refresh = key.Sign(vh.Claims{"typ": "Refresh", "jti": n, "exp": now.Add(ttlI).Unix()})
		}
		if ttlA < 0 {
			tk.Access = fmt.Sprint("opaque-", n)
			t.Userinfo(tk.Access, 200)
		} else {
			tk.Access = key.Sign(vh.Claims{"sub": "u", "aud": "c", "jti": n, "exp": now.Add(ttlA).Unix()})
		}
		return tk
	}
	const long = time.Hour
	const short = 2 * time.Second
	fwd := func(tk vh.Tokens) string { return "Bearer " + tk.Access + " " + tk.ID }
	fail := func(what string, wit vh.M) {
		if w.CheckAlive("serving sessions") {
			r.Violation(what, wit)
		}
	}
	page := vh.Get(ns, "svc", "/page")
	// login with given tokens; tokens with a short life get renewed until the login was quick enough
	login := func(b *vh.Browser, mkTok func() vh.Tokens) (vh.Tokens, *http.Cookie) {
		for n := 0; ; n++ {
			var tk vh.Tokens
			_, ck, err := w.Login(b, page, t, func(*vh.HReq) (int, []byte) { tk = mkTok(); return 200, vh.TokenJSON(tk) })
			if ck != nil {
				return tk, ck
			}
			if n == 5 || !w.Sut.Alive() {
				fail(fmt.Sprintf("login does not work: %v", err), nil)
				return tk, nil
			}
		}
	}
	sleepOver := func() { time.Sleep(short + 1100*time.Millisecond) }
	isLogin := func(resp *vh.Resp) bool { _, err := vh.ParseLogin(resp); return err == nil }
	var wg sync.WaitGroup
	spawn := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}

	// ---- a session lives on, with other sessions coming and going and the configuration touched
	stable := r.Pick(20, 60)
	type st struct {
		b  *vh.Browser
		tk vh.Tokens
	}
	var sts []st
	for i := 0; i < stable; i++ {
		b := vh.NewBrowser()
		i := i
		tk, ck := login(b, func() vh.Tokens {
			if i%3 == 0 {
				return mk(-1, long)
			}
			return mk(long, long)
		})
		if ck == nil {
			return
		}
		sts = append(sts, st{b, tk})
	}
	checkStable := func(when string) {
		for i, s := range sts {
			for _, p := range []string{"/page", "/ruled", "/other/deep", "/"} {
				if r.TooMany() {
					return
				}
				q := vh.Get(ns, "svc", p)
				q.Cookies = s.b.Header()
				resp := w.Do(q)
				r.Case(fmt.Sprint("stable ", i, p, when), true)
				r.Count("stable_requests", 1)
				if !resp.Allowed() || resp.Authz != fwd(s.tk) || resp.Cookie != "" {
					fail(fmt.Sprintf("a live session was not honoured with its tokens (%s): %s", when, trunc(resp.String(), 200)), vh.M{"request": vh.ReqM(q), "expected": fwd(s.tk), "answer": resp.String()})
				}
			}
			q := vh.Get(ns, "svc2", "/app/x")
			q.Cookies = s.b.Header()
			if resp := w.Do(q); !resp.Allowed() {
				fail("a live session was not honoured at another service of its client", vh.M{"request": vh.ReqM(q), "answer": resp.String()})
			}
		}
	}
	checkStable("at first")
	bg := make(chan bool)
	bgDone := make(chan bool)
	go func() { // all the time
		defer close(bgDone)
		for n := 0; ; n++ {
			select {
			case <-bg:
				return
			case <-time.After(400 * time.Millisecond):
				checkStable(fmt.Sprint("meanwhile ", n))
			}
		}
	}()

	// ---- sessions nobody uses until the end, whatever the token answers say about expires_in
	var sleepers []st
	for i := 0; i < r.Pick(24, 48); i++ {
		b := vh.NewBrowser()
		var tk vh.Tokens
		i := i
		_, ck, err := w.Login(b, page, t, func(*vh.HReq) (int, []byte) {
			tk = mk([]time.Duration{long, -1}[i%2], long)
			m := vh.M{"token_type": "bearer", "access_token": tk.Access, "id_token": tk.ID}
			if e := []interface{}{nil, 1, 2, 5, 0, -1, 3600, 10}[i%8]; e != nil {
				m["expires_in"] = e
			}
			if i/8%2 == 1 {
				m["refresh_token"] = tk.Refresh
			}
			return 200, vh.MustJSON(m)
		})
		if ck == nil {
			fail(fmt.Sprintf("login does not work: %v", err), nil)
			return
		}
		sleepers = append(sleepers, st{b, tk})
	}

	// ---- sessions renewed over and over
	chains := r.Pick(4, 8)
	chainStop := make(chan bool)
	var cg sync.WaitGroup
	for i := 0; i < chains; i++ {
		i := i
		cg.Add(1)
		go func() {
			defer cg.Done()
			b := vh.NewBrowser()
			ttl := func() vh.Tokens {
				return [3]func() vh.Tokens{
					func() vh.Tokens { return mk(short, long) },
					func() vh.Tokens { return mk(long, short) },
					func() vh.Tokens { return mk(short, short) }}[i%3]()
			}
			tk, ck := login(b, ttl)
			if ck == nil {
				return
			}
			for g := 1; !r.TooMany(); g++ {
				select {
				case <-chainStop:
					r.Max("longest_chain", g-1)
					return
				default:
				}
				// expired at once, or nearly so: every request renews
				var next vh.Tokens
				t.Refresh(tk.Refresh, func(*vh.HReq) (int, []byte) {
					n := ttl()
					if i%2 == 0 {
						n.Refresh = tk.Refresh
					}
					next = n
					return 200, vh.TokenJSON(n)
				})
				q := page
				q.Cookies = b.Header()
				until := time.Now().Add(2*short + 2*time.Second)
				slow := false
				for next.ID == "" && time.Now().Before(until) {
					began := time.Now()
					resp := w.Do(q)
					slow = time.Since(began) > 700*time.Millisecond
					r.Count("chain_requests", 1)
					if next.ID == "" && resp.Allowed() {
						time.Sleep(100 * time.Millisecond)
						continue
					}
					if !resp.Allowed() && slow {
						r.Count("chain_too_slow", 1) // the new tokens may have expired on the way
						return
					}
					if !resp.Allowed() {
						fail(fmt.Sprintf("renewal %d of a session failed: %s", g, trunc(resp.String(), 200)), vh.M{"renewals": g - 1, "request": vh.ReqM(q), "answer": resp.String()})
						return
					}
					r.Case(fmt.Sprint("chain ", i, " ", g), true)
					r.Count("chain_renewals", 1)
				}
				if next.ID == "" {
					fail("expired tokens are forwarded without a renewal", vh.M{"renewals": g - 1})
					return
				}
				tk = next
			}
		}()
	}
	defer func() {
		select {
		case <-chainStop:
		default:
			close(chainStop)
		}
		cg.Wait()
	}()

	// ---- refresh histories
	nh := r.Pick(60, 240)
	gens := r.Pick(2, 6)
	for i := 0; i < nh; i++ {
		i := i
		variant := i % 6
		rotate := (i/6)%3 != 0
		spawn(func() {
			b := vh.NewBrowser()
			make1 := func() vh.Tokens {
				switch variant {
				case 0:
					return mk(short, short)
				case 1:
					return mk(short, long)
				case 2:
					return mk(long, short)
				case 3:
					return mk(-1, short)
				case 4:
					return mk(short, long)
				default:
					return mk(short, short)
				}
			}
			tk, ck := login(b, make1)
			if ck == nil {
				return
			}
			kind := fmt.Sprintf("refresh variant %d rotate=%v", variant, rotate)
			cur := tk.Refresh
			for g := 1; g <= gens && !r.TooMany(); g++ {
				sleepOver()
				var next vh.Tokens
				var calls int64
				want := cur
				t.Refresh(want, func(h *vh.HReq) (int, []byte) {
					atomic.AddInt64(&calls, 1)
					if g == gens {
						next = mk(long, long)
					} else {
						next = make1()
					}
					ans := next
					if !rotate {
						ans.Refresh = ""
					}
					return 200, vh.TokenJSON(ans)
				})
				q := page
				q.Cookies = b.Header()
				renewed := time.Now()
				resp := w.Do(q)
				c2 := vh.ParseSetCookie(resp.Cookie)
				r.Case(fmt.Sprint(kind, " ", i, " ", g), true)
				r.Count("refreshes", 1)
				wit := vh.M{"kind": kind, "generation": g, "refresh_token_expected": want, "token_requests": calls, "request": vh.ReqM(q), "answer": resp.String(), "stale": fwd(tk), "fresh": fwd(next)}
				if g == 1 && i < 6 {
					r.Sample(kind, wit)
				}
				switch {
				case !resp.Allowed():
					fail(kind+": an expired session was not renewed: "+trunc(resp.String(), 200), wit)
					return
				case resp.Authz != fwd(next):
					fail(kind+": after a refresh other tokens than the new ones are forwarded", wit)
					return
				case calls != 1:
					fail(fmt.Sprintf("%s: %d refresh requests for one request", kind, calls), wit)
				case c2 == nil || c2.Name != ck.Name || c2.Value != ck.Value || c2.Path != "/" || (!c2.Expires.IsZero() && c2.Expires.Before(time.Now())):
					fail(kind+": the refresh does not set the same session cookie", wit)
				}
				tk = next
				if rotate {
					t.Refresh(want, nil)
					cur = next.Refresh
				}
				if g == gens || variant == 1 || variant == 4 {
					resp = w.Do(q)
					if g < gens && time.Since(renewed) > 700*time.Millisecond {
						continue // too late to tell: the tokens may have expired again
					}
					if !resp.Allowed() || (g == gens && (resp.Authz != fwd(next) || resp.Cookie != "")) {
						fail(kind+": the renewed session is not kept: "+trunc(resp.String(), 200), wit)
					}
				}
			}
			// and logs out for good
			w.Do(vh.Logout(page))
			q := page
			q.Cookies = b.Header()
			if !w.Do(q).Allowed() && !r.TooMany() {
				fail("a logout without the cookie ended the session", vh.M{"kind": kind})
			}
		})
	}

	// ---- failing refreshes: to the login, nothing stale or invalid forwarded
	type badG struct {
		kind string
		g    func(old vh.Tokens) vh.Grant
	}
	body := func(f func() vh.Tokens) func(vh.Tokens) vh.Grant {
		return func(vh.Tokens) vh.Grant { return func(*vh.HReq) (int, []byte) { return 200, vh.TokenJSON(f()) } }
	}
	rawg := func(st int, b string) func(vh.Tokens) vh.Grant {
		return func(vh.Tokens) vh.Grant { return func(*vh.HReq) (int, []byte) { return st, []byte(b) } }
	}
	now := time.Now
	bads := []badG{{"no refresh token", nil}, {"invalid_grant", rawg(400, `{"error":"invalid_grant"}`)}, {"401", rawg(401, "{}")}, {"500", rawg(500, "")}, {"503 html", rawg(503, "<html>")}, {"empty", rawg(200, "")}, {"empty object", rawg(200, "{}")}, {"dropped", rawg(-1, "")}, {"truncated", rawg(-1, `{"access_token":"x`)},
		{"tokens expired", body(func() vh.Tokens {
			return vh.Tokens{Access: key.Sign(vh.Claims{"aud": "c", "exp": now().Unix() - 5}), ID: key.Sign(vh.Claims{"exp": now().Unix() - 5})}
		})},
		{"access token expired", body(func() vh.Tokens {
			return vh.Tokens{Access: key.Sign(vh.Claims{"aud": "c", "exp": now().Unix() - 5}), ID: mk(long, long).ID}
		})},
		{"ID token expired", body(func() vh.Tokens {
			return vh.Tokens{Access: mk(long, long).Access, ID: key.Sign(vh.Claims{"exp": now().Unix() - 5})}
		})},
		{"rogue access token", body(func() vh.Tokens {
			return vh.Tokens{Access: rogue.Sign(vh.Claims{"aud": "c", "exp": now().Unix() + 500}), ID: mk(long, long).ID}
		})},
		{"rogue ID token", body(func() vh.Tokens {
			return vh.Tokens{Access: mk(long, long).Access, ID: rogue.Sign(vh.Claims{"exp": now().Unix() + 500})}
		})},
		{"other audience", body(func() vh.Tokens {
			return vh.Tokens{Access: key.Sign(vh.Claims{"aud": "d", "exp": now().Unix() + 500}), ID: mk(long, long).ID}
		})},
		{"no ID token", body(func() vh.Tokens { x := mk(long, long); x.ID = ""; return x })},
		{"no access token", body(func() vh.Tokens { x := mk(long, long); x.Access = ""; return x })},
		{"unknown opaque access token", body(func() vh.Tokens { x := mk(long, long); x.Access = "zzz"; return x })},
		{"the same expired tokens", func(old vh.Tokens) vh.Grant { return vh.Give(old) }},
	}
	for rep := 0; rep < r.Pick(2, 6); rep++ {
		for i := range bads {
			bg, rep, i := bads[i], rep, i
			spawn(func() {
				b := vh.NewBrowser()
				tk, ck := login(b, func() vh.Tokens {
					x := mk(short, []time.Duration{short, long}[rep%2])
					if bg.g == nil {
						x.Refresh = ""
					}
					return x
				})
				if ck == nil {
					return
				}
				if bg.g != nil {
					t.Refresh(tk.Refresh, bg.g(tk))
				}
				sleepOver()
				for k := 0; k < 3; k++ {
					q := page
					q.Cookies = b.Header()
					resp := w.Do(q)
					r.Case(fmt.Sprint("failing refresh ", bg.kind, rep, k), true)
					r.Count("failed_refreshes", 1)
					wit := vh.M{"kind": bg.kind, "request": vh.ReqM(q), "answer": resp.String()}
					if i < 6 && k == 0 {
						r.Sample("failing refresh", wit)
					}
					if !isLogin(resp) {
						fail(fmt.Sprintf("failing refresh (%s): the user is not sent to log in: %s", bg.kind, trunc(resp.String(), 300)), wit)
						return
					}
					if resp.Authz != "" {
						fail("tokens forwarded after a failing refresh", wit)
					}
				}
			})
		}
	}

	// ---- several requests at the moment of expiry, refresh token usable more than once
	for i := 0; i < r.Pick(10, 40); i++ {
		i := i
		spawn(func() {
			b := vh.NewBrowser()
			tk, ck := login(b, func() vh.Tokens { return mk(short, long) })
			if ck == nil {
				return
			}
			t.Refresh(tk.Refresh, func(*vh.HReq) (int, []byte) {
				x := mk(long, long)
				x.Refresh = ""
				time.Sleep(time.Duration(i%4) * 10 * time.Millisecond)
				return 200, vh.TokenJSON(x)
			})
			sleepOver()
			par(8, 8, func(k int) {
				q := page
				q.Cookies = b.Header()
				resp := w.Do(q)
				r.Case(fmt.Sprint("concurrent refresh ", i, k), true)
				r.Count("concurrent_refreshes", 1)
				if !resp.Allowed() {
					fail("one of several requests at the moment of expiry was not renewed: "+trunc(resp.String(), 200), vh.M{"request": vh.ReqM(q), "answer": resp.String()})
				} else if strings.Contains(resp.Authz, tk.Access) {
					fail("an expired token was forwarded", vh.M{"request": vh.ReqM(q), "answer": resp.String()})
				}
			})
		})
	}

	// ---- logout against requests that the IdP holds
	type hold struct{ at, release chan bool }
	newHold := func() *hold { return &hold{make(chan bool, 64), make(chan bool)} }
	judgeAfterLogout := func(kind string, i int, cookies string, tries int) {
		for k := 0; k < tries; k++ {
			q := page
			if k%3 == 1 {
				q = vh.Get(ns, "svc", "/ruled")
			} else if k%3 == 2 {
				q = vh.Get(ns, "svc2", "/app/a")
			}
			q.Cookies = cookies
			resp := w.Do(q)
			r.Count("requests_after_logout", 1)
			if resp.Allowed() {
				fail(kind+": a request that started after the logout was answered is authenticated", vh.M{"kind": kind, "request": vh.ReqM(q), "answer": resp.String()})
				return
			}
		}
		r.Case(fmt.Sprint(kind, " ", i), true)
	}
	logoutReq := func(i int, cookies string) vh.Req {
		q := vh.Logout(page)
		switch i % 4 {
		case 1:
			q = vh.Logout(vh.Get(ns, "svc2", "/app"))
		case 2:
			q.Method = "POST"
		case 3:
			q = vh.Logout(vh.Get(ns, "svc", "/ruled"))
			q.Method = []string{"GET", "HEAD", "PUT", "DELETE", "OPTIONS", "PATCH"}[i/4%6]
		}
		q.Cookies = cookies
		if i%3 == 1 {
			q.Cookies = "a=b; " + cookies + "; x=y"
		}
		return q
	}
	for i := 0; i < r.Pick(16, 80); i++ {
		i := i
		spawn(func() { // held at the token endpoint
			b := vh.NewBrowser()
			tk, ck := login(b, func() vh.Tokens { return mk(short, long) })
			if ck == nil {
				return
			}
			h := newHold()
			t.Refresh(tk.Refresh, func(*vh.HReq) (int, []byte) {
				x := mk(long, long)
				h.at <- true
				<-h.release
				return 200, vh.TokenJSON(x)
			})
			sleepOver()
			n := 1 + i%4
			done := make(chan bool, n)
			for k := 0; k < n; k++ {
				go func() { q := page; q.Cookies = b.Header(); w.Do(q); done <- true }()
			}
			for k := 0; k < n; k++ {
				select {
				case <-h.at:
				case <-time.After(3 * time.Second): // another request's refresh serves this one
				}
			}
			lo := logoutReq(i, b.Header())
			lr := w.Do(lo)
			if _, _, ok := lr.Redirect(); !ok {
				fail("logout not answered by a redirect: "+lr.String(), nil)
			}
			r.Count("held_refreshes", 1)
			judgeAfterLogout("logout while a refresh is held", i, b.Header(), 2)
			close(h.release)
			for k := 0; k < n; k++ {
				<-done
			}
			t.Refresh(tk.Refresh, nil)
			judgeAfterLogout("logout while a refresh was held", i, b.Header(), 6)
			if i%4 == 0 {
				time.Sleep(time.Second)
				judgeAfterLogout("logout while a refresh was held, later", i, b.Header(), 3)
			}
		})
		spawn(func() { // held at the userinfo endpoint, after or without a refresh
			b := vh.NewBrowser()
			var h *hold
			tk, ck := login(b, func() vh.Tokens { return mk(-1, []time.Duration{short, long}[i%2]) })
			if ck == nil {
				return
			}
			newAcc := fmt.Sprint("held-opaque-", i)
			if i%2 == 0 {
				t.Refresh(tk.Refresh, func(*vh.HReq) (int, []byte) {
					x := mk(long, long)
					x.Access = newAcc
					return 200, vh.TokenJSON(x)
				})
				sleepOver()
			} else {
				newAcc = tk.Access
			}
			h = newHold()
			holdUserinfo(w, t, newAcc, h.at, h.release)
			done := make(chan bool, 1)
			go func() { q := page; q.Cookies = b.Header(); w.Do(q); done <- true }()
			select {
			case <-h.at:
				r.Count("held_userinfo", 1)
			case <-time.After(3 * time.Second):
			}
			w.Do(logoutReq(i, b.Header()))
			close(h.release)
			<-done
			judgeAfterLogout("logout while a userinfo request was held", i, b.Header(), 6)
		})
	}
	// ---- forms of logout
	for i := 0; i < r.Pick(40, 200); i++ {
		i := i
		spawn(func() {
			b := vh.NewBrowser()
			_, ck := login(b, func() vh.Tokens { return mk([]time.Duration{long, -1}[i%2], long) })
			if ck == nil {
				return
			}
			other := vh.NewBrowser()
			otk, ock := login(other, func() vh.Tokens { return mk(long, long) })
			if ock == nil {
				return
			}
			for k := 0; k <= i%3; k++ { // possibly more than once
				resp := w.Do(logoutReq(i, b.Header()))
				if _, _, ok := resp.Redirect(); !ok {
					fail("logout not answered by a redirect: "+resp.String(), nil)
				}
			}
			r.Count("logouts", 1)
			judgeAfterLogout("plain logout", i, b.Header(), 6)
			q := page
			q.Cookies = other.Header()
			if resp := w.Do(q); !resp.Allowed() || resp.Authz != fwd(otk) {
				fail("logging out one session ended another: "+trunc(resp.String(), 200), vh.M{"answer": resp.String()})
			}
		})
	}
	wg.Wait()
	close(bg)
	<-bgDone
	checkStable("after all histories")
	apply("s2")
	pol(1)
	w.SyncAll()
	checkStable("after the configuration and policy were touched")

	// ---- new tokens need a key fetch that the IdP holds
	for i := 0; i < r.Pick(2, 10); i++ {
		b := vh.NewBrowser()
		tk, ck := login(b, func() vh.Tokens { return mk(short, long) })
		if ck == nil {
			break
		}
		k := vh.Key{Kid: fmt.Sprint("new", i), Priv: key2.Priv}
		h := newHold()
		t.Override("jwks", func(rw http.ResponseWriter, _ *http.Request) {
			h.at <- true
			<-h.release
			rw.Write(vh.JwksJSON(key, &k))
		})
		t.Refresh(tk.Refresh, func(*vh.HReq) (int, []byte) {
			return 200, vh.TokenJSON(vh.Tokens{Access: k.Sign(vh.Claims{"aud": "c", "exp": now().Unix() + 900}), ID: k.Sign(vh.Claims{"exp": now().Unix() + 900}), Refresh: "n"})
		})
		sleepOver()
		done := make(chan bool, 1)
		go func() { q := page; q.Cookies = b.Header(); w.Do(q); done <- true }()
		select {
		case <-h.at:
			r.Count("held_key_fetches", 1)
		case <-time.After(3 * time.Second):
		}
		w.Do(logoutReq(0, b.Header()))
		close(h.release)
		<-done
		judgeAfterLogout("logout while a key fetch was held", i, b.Header(), 6)
		t.Override("jwks", nil)
	}

	// ---- stress: requests that refresh all the time against logouts
	ns2 := r.Pick(24, 60)
	rounds := r.Pick(6, 30)
	seeds := make([]int64, ns2)
	for i := range seeds {
		seeds[i] = rnd.Int63()
	}
	par(ns2, ns2, func(i int) {
		rnd := rand.New(rand.NewSource(seeds[i]))
		for round := 0; round < rounds && !r.TooMany(); round++ {
			b := vh.NewBrowser()
			// the ID token expires soon, and every refresh answers with one that expires soon: requests keep refreshing
			tk, ck := login(b, func() vh.Tokens { return mk(long, short) })
			if ck == nil {
				return
			}
			t.Refresh(tk.Refresh, func(*vh.HReq) (int, []byte) {
				x := mk(long, long)
				x.ID = key.Sign(vh.Claims{"exp": now().Unix() + 1, "jti": rnd.Int63()})
				x.Refresh = ""
				return 200, vh.TokenJSON(x)
			})
			if round == 0 {
				time.Sleep(short)
			}
			var loggedOut int64 // nanoseconds, when the logout was answered
			stop := make(chan bool)
			var rg sync.WaitGroup
			for k := 0; k < 3; k++ {
				rg.Add(1)
				go func() {
					defer rg.Done()
					for {
						select {
						case <-stop:
							return
						default:
						}
						q := page
						q.Cookies = b.Header()
						after := atomic.LoadInt64(&loggedOut) != 0
						resp := w.Do(q)
						r.Count("stress_requests", 1)
						if resp.Allowed() && after {
							fail("stress: a request that started after the logout was answered is authenticated", vh.M{"request": vh.ReqM(q), "answer": resp.String()})
							return
						}
					}
				}()
			}
			time.Sleep(time.Duration(50+rnd.Intn(150)) * time.Millisecond)
			w.Do(logoutReq(rnd.Intn(4), b.Header()))
			atomic.StoreInt64(&loggedOut, time.Now().UnixNano())
			time.Sleep(time.Duration(20+rnd.Intn(40)) * time.Millisecond)
			close(stop)
			rg.Wait()
			r.Case(fmt.Sprint("stress ", i, " ", round), true)
			r.Count("stress_logouts", 1)
		}
	})
	checkStable("at the end")

	// ---- a crowd logs in; those who were there before stay logged in
	mass := r.Pick(9000, 120000)
	const mgrp = 32
	massTk := mk(long, long)
	massAns := vh.TokenJSON(massTk)
	var firsts [mgrp][]string
	par(mgrp, mgrp, func(g int) {
		for i := 0; i < mass/mgrp && !r.TooMany(); i++ {
			b := vh.NewBrowser()
			_, ck, err := w.Login(b, page, t, func(*vh.HReq) (int, []byte) { return 200, massAns })
			if ck == nil {
				fail(fmt.Sprintf("login does not work: %v", err), nil)
				return
			}
			r.Count("crowd_logins", 1)
			if i%40 == 0 {
				firsts[g] = append(firsts[g], b.Header())
			}
		}
	})
	for g := range firsts {
		for i, c := range firsts[g] {
			q := page
			q.Cookies = c
			r.Case(fmt.Sprint("crowd ", g, " ", i), true)
			r.Count("crowd_checked", 1)
			if resp := w.Do(q); !resp.Allowed() || resp.Authz != fwd(massTk) {
				fail("a live session was not honoured after many others had logged in: "+trunc(resp.String(), 200), vh.M{"logins": mass, "request": vh.ReqM(q), "answer": resp.String()})
			}
		}
	}
	checkStable("after the crowd")
	for i, s := range sleepers {
		q := page
		q.Cookies = s.b.Header()
		r.Case(fmt.Sprint("sleeper ", i), true)
		r.Count("sleepers", 1)
		if resp := w.Do(q); !resp.Allowed() || resp.Authz != fwd(s.tk) {
			fail("a session that was not used for a while was not honoured although its tokens are valid: "+trunc(resp.String(), 200), vh.M{"variant": i, "request": vh.ReqM(q), "answer": resp.String(), "expected": fwd(s.tk)})
		}
	}
	close(chainStop)
	cg.Wait()
	w.CheckAlive("serving sessions")
	r.Floor("stable_requests", stable*12)
	r.Floor("refreshes", nh*gens*8/10)
	r.Floor("failed_refreshes", 60)
	r.Floor("held_refreshes", 8)
	r.Floor("held_userinfo", 8)
	r.Floor("stress_logouts", ns2)
	r.Floor("chain_renewals", 12)
	r.Floor("crowd_logins", mass/mgrp*mgrp)
	r.Floor("crowd_checked", 200)
	r.Floor("sleepers", 24)
	r.Finish()
}

var holdMu sync.Mutex
var holds = map[string][2]chan bool{}

// holdUserinfo makes the userinfo endpoint wait for release before it accepts the token.
func holdUserinfo(w *vh.World, t *vh.Tenant, token string, at, release chan bool) {
	holdMu.Lock()
	first := len(holds) == 0
	holds["Bearer "+token] = [2]chan bool{at, release}
	holdMu.Unlock()
	if first {
		t.Override("userinfo", func(rw http.ResponseWriter, q *http.Request) {
			a := q.Header.Get("Authorization")
			holdMu.Lock()
			h, ok := holds[a]
			holdMu.Unlock()
			if ok {
				select {
				case h[0] <- true:
				default:
				}
				<-h[1]
				rw.Write([]byte("{}"))
				return
			}
			t.Default(rw, &vh.HReq{Endpoint: "userinfo", Header: q.Header})
		})
	}
}
