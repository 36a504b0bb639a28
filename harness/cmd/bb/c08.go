package main

import (
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"sync"
	"time"

	"verif/harness/vh"
)

func init() { checks["C08"] = c08 }

// browserHost resolves a Location as browsers do and returns the host it leads to ("" for the same host).
func browserHost(loc string) string {
	l := strings.TrimFunc(loc, func(r rune) bool { return r <= ' ' })
	l = strings.NewReplacer("\t", "", "\n", "", "\r", "", "\\", "/").Replace(l)
	if strings.HasPrefix(l, "//") {
		return "//" + strings.SplitN(strings.TrimLeft(l, "/"), "/", 2)[0]
	}
	for i, c := range l {
		if c == ':' && i > 0 {
			rest := strings.TrimLeft(l[i+1:], "/")
			return l[:i] + "://" + strings.SplitN(rest, "/", 2)[0]
		}
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || i > 0 && (c >= '0' && c <= '9' || c == '+' || c == '-' || c == '.')) {
			return ""
		}
	}
	return ""
}

func c08() {
	r := vh.NewReport("C08", "cases are logins with odd pages, hosts and codes, with and without policy redirect, callbacks repeated and concurrent, token endpoints that fail in many ways, and logouts of odd paths; an exactly-once checker runs over the IdP's token request log; distinct by page, code and failure kind")
	r.Assumptions = []string{"paths do not contain the callback or logout suffix in their middle", "redirecting token endpoints and success statuses other than 200 are not judged"}
	rnd := r.Rand("c08")
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	t := w.IdP.Tenant("main")
	key, rogue := vh.NewKey("k1"), vh.NewKey("k1")
	t.SetKeys(key)
	const ns = "n"
	redirects := []string{"", "https://elsewhere.example/landing", "/relative/home", "https://h.example/p?x=1&y=a%20b#frag", "http://localhost:3000", "https://elsewhere.example/app/", "https://elsewhere.example/", "/", "/relative/", "https://h.example//double//", "https://H.Example:443/a/../b/./c?q=%2F&q=2#/route/", "https://h.example/?", "https://h.example/#", "app://open/it", "https://h.example/ü b", "//elsewhere.example/home", "HTTPS://h.example/", "?from=login", "home", "https://h.example/" + strings.Repeat("long/", 300)}
	w.Kube.Apply(vh.OidcConfigs, ns, "o", vh.M{"clientId": "c", "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
	for i, u := range redirects {
		w.Kube.Apply(vh.Policies, ns, fmt.Sprintf("p%d", i), vh.Spec(fmt.Sprintf("svc%d", i), vh.PathEntry("oidc", "", "/", "", "o", u, nil)))
	}
	w.SyncAll()
	now := time.Now().Unix()
	acc := key.Sign(vh.BaseClaims("u").With("aud", "c"))
	id := key.Sign(vh.BaseClaims("u"))
	good := vh.Tokens{Access: acc, ID: id, Refresh: "r"}

	hosts := []string{"app.example.com", "app.example.com:443", "app.example.com:80", "www.app.example.com", "app.example.com.", "app.example.com:8443", "127.0.0.1:80", "[::1]:8080", "UPPER.example"}
	pageOf := func(rnd *rand.Rand) vh.Req {
		p := ""
		switch rnd.Intn(8) {
		case 0:
			p = "/"
		case 1:
			p = ""
		default:
			for k := 0; k <= rnd.Intn(4); k++ {
				p += "/" + wordOf(rnd, 1+rnd.Intn(2))
			}
			if rnd.Intn(4) == 0 {
				p += "/"
			}
		}
		q := vh.Get(ns, "", p)
		q.Host = hosts[rnd.Intn(len(hosts))]
		q.Scheme = []string{"https", "http"}[rnd.Intn(2)]
		return q
	}
	var mu sync.Mutex
	ncode := 0
	codeOf := func(rnd *rand.Rand) string {
		mu.Lock()
		ncode++
		n := ncode
		mu.Unlock()
		c := fmt.Sprintf("%d-%s", n, wordOf(rnd, 1+rnd.Intn(4)))
		switch rnd.Intn(8) {
		case 0:
			c += strings.Repeat("L", 4000)
		case 1:
			c = " " + c + " "
		case 2:
			c += "\x01\t\n\r" + string([]byte{0x7f})
		}
		return c
	}

	type tokReq struct{ h vh.HReq }
	seen := map[string][]vh.HReq{} // by code
	extra := 0
	w.IdP.Monitor = func(h *vh.HReq) {
		if h.Endpoint != "token" {
			return
		}
		mu.Lock()
		defer mu.Unlock()
		if len(h.Form["code"]) == 1 {
			seen[h.Form["code"][0]] = append(seen[h.Form["code"][0]], *h)
		} else {
			extra++
		}
	}
	of := func(code string) []vh.HReq { mu.Lock(); defer mu.Unlock(); return append([]vh.HReq{}, seen[code]...) }

	// begin starts a login
	begin := func(b *vh.Browser, page vh.Req) *vh.AuthzRequest {
		a, err := vh.ParseLogin(w.Visit(b, page))
		if err != nil {
			if w.CheckAlive("starting a login") {
				r.Violation("no login can be started: "+err.Error(), vh.M{"request": vh.ReqM(page)})
			}
			return nil
		}
		return a
	}
	checkExchange := func(code string, n int, a *vh.AuthzRequest) error {
		hs := of(code)
		if len(hs) != n {
			return fmt.Errorf("%d token requests for the code, expected %d", len(hs), n)
		}
		for _, h := range hs {
			if h.Method != "POST" || !strings.HasPrefix(h.Header.Get("Content-Type"), "application/x-www-form-urlencoded") {
				return fmt.Errorf("token request is %s %s", h.Method, h.Header.Get("Content-Type"))
			}
			if fmt.Sprint(h.Form["grant_type"]) != "[authorization_code]" {
				return fmt.Errorf("grant type %q", h.Form["grant_type"])
			}
			if ru := h.Form["redirect_uri"]; len(ru) != 1 || ru[0] != a.Q.Get("redirect_uri") {
				return fmt.Errorf("redirect_uri %q, the authorization request said %q", ru, a.Q.Get("redirect_uri"))
			}
			if len(h.Form["refresh_token"]) != 0 {
				return fmt.Errorf("refresh token in a code exchange")
			}
		}
		return nil
	}

	// ---- successful logins
	n := r.Pick(700, 6000)
	seeds := make([]int64, n)
	for i := range seeds {
		seeds[i] = rnd.Int63()
	}
	par(n, 8, func(i int) {
		if r.TooMany() {
			return
		}
		rnd := rand.New(rand.NewSource(seeds[i]))
		pol := 0
		if i%3 == 0 {
			pol = rnd.Intn(len(redirects))
		}
		page := pageOf(rnd)
		page.Svc = fmt.Sprintf("svc%d", pol)
		if page.TPath == "" {
			page.TPath = "/"
		}
		b := vh.NewBrowser()
		if i%5 == 0 {
			b.Jar["theme"] = "dark"
		}
		a := begin(b, page)
		if a == nil {
			return
		}
		code := codeOf(rnd)
		t.Code(code, vh.Give(good))
		times := 1
		if i%4 == 0 {
			times = 2 + rnd.Intn(3)
		}
		cb := vh.Callback(page, code, a.State)
		cb.TPath = strings.TrimRight(page.TPath, "/") + "/oidc/callback"
		cb.Cookies = b.Header()
		resps := make([]*vh.Resp, times)
		if i%8 == 0 { // repeated at once
			par(times, times, func(k int) { resps[k] = w.Do(cb) })
		} else {
			for k := range resps {
				resps[k] = w.Do(cb)
			}
		}
		r.Case(fmt.Sprint("login ", page.Host, page.Path, " ", pol, times, i%8 == 0), true)
		r.Count("logins", 1)
		r.Count("callbacks", times)
		wit := vh.M{"page": vh.ReqM(page), "callback": vh.ReqM(cb), "times": times, "answer": resps[0].String(), "policy_redirect": redirects[pol], "authorization_request": a.URL.String()}
		if i < 5 {
			r.Sample(fmt.Sprint("login", i), wit)
		}
		err := checkExchange(code, times, a)
		want := page.Scheme + "://" + page.Host + page.Path
		if redirects[pol] != "" {
			want = redirects[pol]
		}
		values := map[string]bool{}
		for _, resp := range resps {
			if err != nil {
				break
			}
			loc, sc, ok := resp.Redirect()
			c := vh.ParseSetCookie(sc)
			switch {
			case !ok:
				err = fmt.Errorf("no redirect: %s", resp)
			case loc != want:
				err = fmt.Errorf("the user is sent to %q instead of %q", loc, want)
			case c == nil || c.Name != a.Cookie.Name || c.Path != "/" || c.Value == "" || (!c.Expires.IsZero() && c.Expires.Before(time.Now().Add(time.Hour))):
				err = fmt.Errorf("no session cookie for the client in %q", sc)
			case values[c.Value]:
				err = fmt.Errorf("two callbacks gave the same session")
			default:
				values[c.Value] = true
				b := vh.NewBrowser()
				b.Take(resp)
				if got := w.Visit(b, page); !got.Allowed() {
					err = fmt.Errorf("the session does not work: %s", got)
				}
			}
		}
		if err != nil && w.CheckAlive("completing logins") {
			r.Violation(err.Error(), wit)
		}
	})

	// ---- failing exchanges
	type bad struct {
		kind string
		g    vh.Grant
	}
	raw := func(st int, body string) vh.Grant {
		return func(*vh.HReq) (int, []byte) { return st, []byte(body) }
	}
	okBody := string(vh.TokenJSON(good))
	var bads []bad
	for _, st := range []int{400, 401, 403, 404, 405, 418, 429, 500, 502, 503} {
		bads = append(bads, bad{fmt.Sprintf("status %d with tokens", st), raw(st, okBody)}, bad{fmt.Sprintf("status %d with error", st), raw(st, `{"error":"invalid_grant","error_description":"no"}`)}, bad{fmt.Sprintf("status %d, no body", st), raw(st, "")}, bad{fmt.Sprintf("status %d, html", st), raw(st, "<html>")})
	}
	tk := func(t vh.Tokens) string { return string(vh.TokenJSON(t)) }
	for k, b := range map[string]string{
		"empty body": "", "no JSON": "hello", "empty object": "{}", "null": "null", "array": "[]", "string": `"x"`, "truncated": okBody[:len(okBody)-30], "html": "<html></html>",
		"no access token": tk(vh.Tokens{ID: id}), "no ID token": tk(vh.Tokens{Access: acc}), "error in 200": `{"error":"invalid_grant"}`,
		"access token number": `{"access_token":5,"id_token":"` + id + `"}`, "access token null": `{"access_token":null,"id_token":"` + id + `"}`, "ID token null": `{"id_token":null,"access_token":"` + acc + `"}`,
		"ID token list": `{"access_token":"` + acc + `","id_token":["` + id + `"]}`, "tokens empty": `{"access_token":"","id_token":""}`,
		"nested": `{"tokens":{"access_token":"` + acc + `","id_token":"` + id + `"}}`,
		"rogue":  tk(vh.Tokens{Access: rogue.Sign(vh.BaseClaims("u").With("aud", "c")), ID: id}), "rogue ID": tk(vh.Tokens{Access: acc, ID: rogue.Sign(vh.BaseClaims("u"))}),
		"expired": tk(vh.Tokens{Access: key.Sign(vh.BaseClaims("u").With("aud", "c").With("exp", now-100)), ID: id, Refresh: "rr"}), "expired ID": tk(vh.Tokens{Access: acc, ID: key.Sign(vh.BaseClaims("u").With("exp", now-100)), Refresh: "rr"}),
		"wrong audience": tk(vh.Tokens{Access: key.Sign(vh.BaseClaims("u").With("aud", "d")), ID: id}), "opaque unknown": tk(vh.Tokens{Access: "opaque", ID: id}), "garbage ID": tk(vh.Tokens{Access: acc, ID: "x"}),
		"token with blank": tk(vh.Tokens{Access: acc + " ", ID: id}),
	} {
		bads = append(bads, bad{k, raw(200, b)})
	}
	bads = append(bads, bad{"connection dropped", raw(-1, "")}, bad{"connection dropped in the body", raw(-1, okBody[:60])},
		bad{"hanging", func(*vh.HReq) (int, []byte) { time.Sleep(7 * time.Second); return 200, []byte(okBody) }})
	t.Refresh("rr", vh.Give(good)) // an expired pair must not be refreshed into a session here
	reps := r.Pick(3, 20)
	for rep := 0; rep < reps; rep++ {
		par(len(bads), 16, func(i int) {
			if r.TooMany() || (bads[i].kind == "hanging" && rep > 0) {
				return
			}
			page := vh.Get(ns, fmt.Sprintf("svc%d", (i+rep)%2), fmt.Sprintf("/bad/%d", i))
			b := vh.NewBrowser()
			a := begin(b, page)
			if a == nil {
				return
			}
			code := w.NextCode()
			t.Code(code, bads[i].g)
			cb := vh.Callback(page, code, a.State)
			before := b.Clone()
			resp := w.Visit(b, cb)
			r.Case("failure "+bads[i].kind+fmt.Sprint(rep), true)
			r.Count("failed_exchanges", 1)
			wit := vh.M{"kind": bads[i].kind, "callback": vh.ReqM(cb), "answer": resp.String()}
			r.Sample("failure", wit)
			err := checkExchange(code, 1, a)
			if err == nil {
				loc, _, redir := resp.Redirect()
				switch {
				case resp.Allowed():
					err = fmt.Errorf("request allowed")
				case resp.Err == nil && resp.Code == 0:
					err = fmt.Errorf("status OK: %s", resp)
				case redir && !strings.HasPrefix(loc, t.AuthURL()):
					err = fmt.Errorf("the user is sent on to %q", loc)
				}
			}
			if err == nil && (w.Visit(b.Clone(), page).Allowed() || w.Visit(before, page).Allowed()) {
				err = fmt.Errorf("a session exists")
			}
			if err != nil && w.CheckAlive("handling failed exchanges") {
				r.Violation("token endpoint answer ("+bads[i].kind+"): "+err.Error(), wit)
			}
		})
	}

	// ---- logout
	b := vh.NewBrowser()
	page0 := vh.Get(ns, "svc0", "/logout/home")
	evil := []string{"//evil.example", "/\\evil.example", "\\\\evil.example", "///evil.example/x", "/\t/evil.example", "/\n/evil.example", "\t//evil.example", "/\r\n/evil.example", "//evil.example:80/a", "https://evil.example", "https:/evil.example", "https:evil.example", "javascript:alert(1)", "//user@evil.example", "/%2f/evil.example", "/%5cevil.example", "//%65vil.example", "/./evil.example", "/.//evil.example", "evil.example", "/a//evil.example", "", "/", "//", "\\", "/\\/\\/evil.example", "/ /evil.example", " //evil.example", "//[::1]/", "/;//evil.example", "data:text/html,x", "\x00//evil.example", "http:\\\\evil.example", "///", "//evil.example?x=", "//evil.example#", "/\t\t\\\nevil.example"}
	for k := 0; k < r.Pick(300, 3000); k++ {
		p := ""
		for j := 0; j <= rnd.Intn(5); j++ {
			p += []string{"/", "\\", "evil.example", "\t", "\n", ":", "https", "//", "a", ".", "@", "%2f"}[rnd.Intn(12)]
		}
		evil = append(evil, p)
	}
	for i, p := range evil {
		if r.TooMany() {
			break
		}
		if i%10 == 0 {
			if _, _, err := w.Login(b, page0, t, vh.Give(good)); err != nil && !w.Visit(b, page0).Allowed() {
				r.Violation("login before logout: "+err.Error(), nil)
			}
		}
		req := vh.Get(ns, "svc0", p)
		req.Path, req.TPath = p+"/oidc/logout", p+"/oidc/logout"
		req.Cookies = b.Header()
		resp := w.Do(req)
		loc, sc, ok := resp.Redirect()
		r.Case("logout "+p, true)
		r.Count("logouts", 1)
		wit := vh.M{"request": vh.ReqM(req), "answer": resp.String()}
		if i < 5 {
			r.Sample("logout", wit)
		}
		if !ok {
			// also a logout may be refused or sent to the IdP, but never let through
			if resp.Allowed() && w.CheckAlive("logging out") {
				r.Violation("logout request let through", wit)
			}
			continue
		}
		r.Count("logout_redirects", 1)
		if h := browserHost(loc); h != "" && h != "https://"+req.Host && w.CheckAlive("logging out") {
			r.Violation(fmt.Sprintf("logout of path %q leads browsers to %q", p, h), wit)
		}
		if c := vh.ParseSetCookie(sc); c != nil && c.Expires.After(time.Now()) {
			r.Violation("logout sets a live cookie", wit)
		}
	}
	// the ordinary logout returns to the page and ends the cookie
	for _, p := range []string{"/a", "/a/b/c", "/logout/home", "/.well-known/x", "/.x", "/a/.b/c.html", "/~user/x", "/a;v=1/b", "/a,b/@c", "/a:b", "/-/_/+", "/%41%2e/x", "/oidc", "/oidc/x", "/a/b.", "/a..b", "/" + strings.Repeat("long/", 300) + "x", "/A/b/C", "/1", "/a/callback", "/logout", "/index.php"} {
		req := vh.Logout(vh.Get(ns, "svc0", p))
		resp := w.Do(req)
		r.Case("ordinary logout "+p, true)
		if loc, _, ok := resp.Redirect(); !ok || loc != p {
			r.Violation(fmt.Sprintf("logout from %s does not return there: %s", trunc(p, 200), resp.String()), vh.M{"request": vh.ReqM(req)})
		}
	}
	if extra > 0 {
		r.Violation("token requests without exactly one code were made", vh.M{"count": extra})
	}
	if _, err := url.Parse("x"); err != nil {
		panic(err)
	}
	w.CheckAlive("completing logins")
	r.Floor("logins", n*9/10)
	r.Floor("failed_exchanges", len(bads)*reps-10)
	r.Floor("logout_redirects", 100)
	r.Finish()
}
