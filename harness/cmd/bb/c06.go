package main

import (
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"sync"
	"time"

	"verif/harness/vh"
)

func init() { checks["C06"] = c06 }

var oddStrings = []string{"plain", "a b", "a+b", "a&b=c", "a=b", "100%", "%41%2f", "ü-ñ-漢字", "x/y", "x?y", "x#y", "\"q\"", "a;b", "a,b", "'", "<s>", "\\", "{}", "a:b@c", "~!$*()", "[1]", "|", "^`"}

// wordOf builds a string of odd characters without leading or trailing blanks.
func wordOf(r *rand.Rand, n int) string {
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString(oddStrings[r.Intn(len(oddStrings))])
	}
	return b.String()
}

// loginWant is what a login redirect must say.
type loginWant struct {
	endpoint, client, redirect string
	scopes                     []string
	own                        url.Values
}

// checkLogin judges an answer that must start a login.
// sameSegments compares escaped paths up to the spelling of their segments.
func sameSegments(a, b string) bool {
	as, bs := strings.Split(a, "/"), strings.Split(b, "/")
	if len(as) != len(bs) {
		return false
	}
	for i := range as {
		x, err := url.PathUnescape(as[i])
		y, err2 := url.PathUnescape(bs[i])
		if err != nil || err2 != nil || x != y {
			return false
		}
	}
	return true
}

func checkLogin(resp *vh.Resp, want loginWant) (*vh.AuthzRequest, error) {
	a, err := vh.ParseLogin(resp)
	if err != nil {
		return nil, err
	}
	if resp.NDirect != 1 {
		return nil, fmt.Errorf("%d direct responses", resp.NDirect)
	}
	loc, _, _ := resp.Redirect()
	base := strings.SplitN(loc, "?", 2)[0]
	if wb := strings.SplitN(want.endpoint, "?", 2)[0]; base != wb {
		u, err := url.Parse(base)
		v, err2 := url.Parse(wb)
		if err != nil || err2 != nil || u.Scheme != v.Scheme || u.Host != v.Host || !sameSegments(u.EscapedPath(), v.EscapedPath()) || fmt.Sprint(u.User) != fmt.Sprint(v.User) {
			return nil, fmt.Errorf("location %q is not the authorization endpoint %q", base, wb)
		}
	}
	for k, vs := range map[string]string{"response_type": "code", "client_id": want.client, "redirect_uri": want.redirect} {
		if got := a.Q[k]; len(got) != 1 || got[0] != vs {
			return nil, fmt.Errorf("%s is %q, expected %q", k, got, vs)
		}
	}
	if got := a.Q["scope"]; len(got) != 1 || got[0] != strings.Join(want.scopes, " ") {
		return nil, fmt.Errorf("scope is %q, expected %q", got, want.scopes)
	}
	if got := a.Q["state"]; len(got) != 1 || got[0] == "" {
		return nil, fmt.Errorf("state is %q", got)
	}
	for k, vs := range want.own {
		if fmt.Sprint(a.Q[k]) != fmt.Sprint(vs) {
			return nil, fmt.Errorf("parameter %s of the endpoint is %q, expected %q", k, a.Q[k], vs)
		}
	}
	c := a.Cookie
	if c.Path != "/" || c.Domain != "" || c.Value == "" {
		return nil, fmt.Errorf("cookie %q: path %q, domain %q, value %q", c.Name, c.Path, c.Domain, c.Value)
	}
	if c.MaxAge < 0 || (!c.Expires.IsZero() && time.Until(c.Expires) < 50*time.Minute) {
		return nil, fmt.Errorf("cookie %q expires at %v", c.Name, c.Expires)
	}
	return a, nil
}

func c06() {
	r := vh.NewReport("C06", "cases are requests without a valid session to endpoints of many client configurations (odd client ids, scopes, endpoint queries, hosts, paths, useless cookies); an online checker decodes the redirect and compares every part; distinct by client, host, path and cookie kind")
	r.Assumptions = []string{"for a callback without code the redirect URI may or may not repeat the callback suffix"}
	rnd := r.Rand("c06")
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	key := vh.NewKey("k1")
	const ns = "n"
	type conf struct {
		i        int
		client   string
		scopes   []string
		want     loginWant
		t        *vh.Tenant
		endpoint string
	}
	nconf := r.Pick(70, 400)
	var cs []*conf
	spec := func(c *conf) vh.M {
		m := vh.M{"clientId": c.client, "clientSecret": "s", "discoveryUrl": c.t.DiscoveryURL()}
		if c.scopes != nil {
			m["scopes"] = c.scopes
		}
		return m
	}
	refresh := func(c *conf) {
		s := c.scopes
		if len(s) == 0 {
			s = []string{"openid", "profile", "email"}
		}
		u, err := url.Parse(c.endpoint)
		if err != nil {
			panic(err)
		}
		c.want = loginWant{endpoint: c.endpoint, client: c.client, scopes: s, own: u.Query()}
		for _, k := range []string{"scope", "response_type", "client_id", "redirect_uri", "state"} {
			c.want.own.Del(k)
		}
	}
	randomize := func(c *conf, rnd *rand.Rand) {
		c.client = fmt.Sprintf("%s-%d", wordOf(rnd, 1+rnd.Intn(3)), c.i)
		if rnd.Intn(4) == 0 {
			c.client = fmt.Sprintf("plain-client-%d", c.i)
		}
		c.scopes = nil
		if rnd.Intn(4) == 0 {
			c.scopes = []string{}
		}
		if rnd.Intn(3) == 0 { // many, openid anywhere or nowhere
			for _, k := range rnd.Perm(9)[:1+rnd.Intn(9)] {
				c.scopes = append(c.scopes, []string{"openid", "profile", "email", "offline_access", "groups", "https://api.example.com/read", "urn:x:y", "A", "a"}[k])
			}
		}
		for k := rnd.Intn(4); k > 0; k-- {
			c.scopes = append(c.scopes, strings.Replace(wordOf(rnd, 1), " ", "_", -1))
		}
	}
	for i := 0; i < nconf; i++ {
		c := &conf{i: i, t: w.IdP.Tenant(fmt.Sprintf("t%d", i))}
		c.t.SetKeys(key)
		randomize(c, rnd)
		c.endpoint = c.t.AuthURL()
		switch i % 4 {
		case 1:
			q := url.Values{}
			for k := 0; k <= rnd.Intn(3); k++ {
				q.Add("p"+url.QueryEscape(wordOf(rnd, 1)), wordOf(rnd, 2))
				q.Add("dup", wordOf(rnd, 1))
			}
			c.endpoint += "?" + q.Encode()
		case 2:
			c.endpoint += "?policy=B2C_1_sign&empty=&enc=a%26b%3Dc%2B"
		case 3:
			c.endpoint = fmt.Sprintf("https://login%d.example.com:8443/a%%20b/%%C3%%BC/authorize", i)
			if i%16 == 11 {
				c.endpoint = fmt.Sprintf("https://tenant%d@login.example.com/realms/a%%2Fb/%%2e%%3F/authorize/", i)
			}
		}
		if i%8 >= 5 { // what the adapter sets is the adapter's
			sep := "?"
			if strings.Contains(c.endpoint, "?") {
				sep = "&"
			}
			c.endpoint += sep + "x=1&scope=everything&response_type=token&client_id=other&redirect_uri=https%3A%2F%2Felsewhere%2F&state=fixed&state=twice"
			r.Count("overlapping_endpoints", 1)
		}
		d := c.t.DefaultDisco()
		d["authorization_endpoint"] = c.endpoint
		c.t.SetDisco(d)
		refresh(c)
		cs = append(cs, c)
		w.Kube.Apply(vh.OidcConfigs, ns, fmt.Sprintf("o%d", i), spec(c))
		w.Kube.Apply(vh.Policies, ns, fmt.Sprintf("p%d", i), vh.Spec(fmt.Sprintf("svc%d", i), vh.PathEntry("oidc", "", "/", "", fmt.Sprintf("o%d", i), "", nil)))
	}
	w.SyncAll()

	var mu sync.Mutex
	states := map[string]bool{}
	names := map[string]string{}   // client -> cookie name
	owners := map[string]string{}  // cookie name -> client
	pending := map[string]string{} // client -> cookie of the last login that was begun
	seen := func(c *conf, a *vh.AuthzRequest) error {
		mu.Lock()
		defer mu.Unlock()
		if states[a.State] {
			return fmt.Errorf("state %q was used before", a.State)
		}
		states[a.State] = true
		if n, ok := names[c.client]; ok && n != a.Cookie.Name {
			return fmt.Errorf("cookie of client %q was %q and is %q", c.client, n, a.Cookie.Name)
		}
		if o, ok := owners[a.Cookie.Name]; ok && o != c.client {
			return fmt.Errorf("cookie %q serves the clients %q and %q", a.Cookie.Name, o, c.client)
		}
		names[c.client], owners[a.Cookie.Name] = a.Cookie.Name, c.client
		pending[c.client] = a.Cookie.Value
		return nil
	}
	hosts := []string{"app.example.com", "app.example.com:443", "app.example.com:80", "www.app.example.com", "app.example.com.", "app.example.com:8443", "localhost", "127.0.0.1:80", "[::1]:8080", "xn--bcher-kva.example", "UPPER.example", "a-b.c-d.example"}
	pathOf := func(rnd *rand.Rand) string {
		switch rnd.Intn(12) {
		case 0:
			return "/"
		case 1:
			return "/oidc/callback"
		case 2:
			return ""
		case 3:
			return "/a//b"
		case 4:
			return "/oidc/callback/x"
		case 5:
			return "/oidc/logout/x"
		case 6:
			return "/x/oidc/callback"
		}
		p := ""
		for k := 0; k <= rnd.Intn(4); k++ {
			p += "/" + wordOf(rnd, 1+rnd.Intn(2))
		}
		if rnd.Intn(5) == 0 {
			p += "/"
		}
		return p
	}
	good := key.Sign(vh.BaseClaims("u"))
	visit := func(c *conf, rnd *rand.Rand, phase string) {
		req := vh.Req{NS: ns, Svc: fmt.Sprintf("svc%d", c.i), Method: []string{"GET", "POST", "PUT", "HEAD", "OPTIONS"}[rnd.Intn(5)], Scheme: []string{"https", "http"}[rnd.Intn(2)], Host: hosts[rnd.Intn(len(hosts))], Path: pathOf(rnd)}
		req.TPath = req.Path
		if req.TPath == "" {
			req.TPath = "/"
		}
		mu.Lock()
		cn := names[c.client]
		var foreign string
		last := pending[c.client]
		for o, n := range names {
			if o != c.client {
				foreign = n
				break
			}
		}
		mu.Unlock()
		ck := rnd.Intn(10)
		switch ck {
		case 1:
			req.Cookies = cn + "=unknownsession"
		case 2:
			req.Cookies = "a=b; " + cn + "=; other=\"x\""
		case 3:
			req.Cookies = foreign + "=whatever; x"
		case 4:
			req.Cookies = ";;;=;\x00garbage\x7f"
		case 5:
			req.Cookies = cn + "=MTU3fGFhYWFhYQ==|xx"
		case 6:
			req.Authz = "Bearer " + good + " " + good
		case 8, 9: // a login was begun before
			if last == "" {
				break
			}
			req.Cookies = cn + "=" + last
			if ck == 9 {
				req.Cookies = "theme=dark; " + foreign + "=x; " + req.Cookies
			}
			r.Count("begun_again", 1)
		case 7:
			req.PState, req.PCode = "abc", "def" // no callback path
			if strings.HasSuffix(req.Path, "/oidc/callback") {
				req.PCode = ""
			}
		}
		want := c.want
		want.redirect = req.Scheme + "://" + req.Host + req.Path + "/oidc/callback"
		resp := w.Do(req)
		a, err := checkLogin(resp, want)
		if err != nil && strings.HasSuffix(req.Path, "/oidc/callback") {
			want.redirect = req.Scheme + "://" + req.Host + req.Path
			a, err = checkLogin(resp, want)
		}
		if err == nil {
			err = seen(c, a)
		}
		r.Case(fmt.Sprintf("%d %s %s %s %d", c.i, phase, req.Host, req.Path, ck), true)
		r.Count("redirects", 1)
		wit := vh.M{"config": spec(c), "authorization_endpoint": c.endpoint, "request": vh.ReqM(req), "answer": resp.String()}
		if c.i < 10 {
			r.Sample(fmt.Sprint("cookies", ck), wit)
		}
		if err != nil && w.CheckAlive("redirecting to the IdP") {
			r.Violation("wrong login redirect: "+err.Error(), wit)
			return
		}
		// the cookie belongs to that state and to no other
		if rnd.Intn(4) == 0 && !strings.Contains(req.Path, "/oidc/") {
			b := vh.NewBrowser()
			b.Take(resp)
			req.Cookies, req.Authz, req.PState, req.PCode = "", "", "", ""
			n := c.t.Hits("token")
			bad := vh.Callback(req, "nosuch", "x"+a.State[1:])
			if a.State[0] == 'x' {
				bad.PState = "y" + a.State[1:]
			}
			if q := rnd.Intn(3); q == 1 {
				bad.PState = a.State + "a"
			} else if q == 2 {
				bad.PState = a.State[:len(a.State)-1]
			}
			bad.Cookies = b.Header()
			bresp := w.Do(bad)
			if c.t.Hits("token") != n {
				r.Violation("a callback with another state than the one handed out led to a token request", vh.M{"first": wit, "callback": vh.ReqM(bad), "answer": bresp.String()})
			}
			code := w.NextCode()
			c.t.Code(code, vh.Give(vh.Tokens{Access: key.Sign(vh.BaseClaims("u").With("aud", c.client)), ID: good}))
			cresp := w.Visit(b, vh.Callback(req, code, a.State))
			if c.t.Hits("token") != n+1 {
				r.Violation("the state and cookie that were handed out do not complete a login", vh.M{"first": wit, "answer": cresp.String()})
			}
			r.Count("bindings", 1)
		}
	}
	round := func(phase string, per int) {
		seeds := make([]int64, nconf)
		for i := range seeds {
			seeds[i] = rnd.Int63()
		}
		par(nconf, 8, func(i int) {
			rnd := rand.New(rand.NewSource(seeds[i]))
			for k := 0; k < per && !r.TooMany(); k++ {
				visit(cs[i], rnd, fmt.Sprint(phase, k))
			}
		})
	}
	round("first", r.Pick(24, 80))
	// configurations change: the redirects follow
	for _, c := range cs {
		if c.i%3 != 0 {
			randomize(c, rnd)
			c.client += "-v2"
			if c.i%3 == 2 { // and move to another IdP
				c.t = w.IdP.Tenant(fmt.Sprintf("t%d-b", c.i))
				c.t.SetKeys(key)
				c.endpoint = c.t.AuthURL()
			}
			refresh(c)
			w.Kube.Apply(vh.OidcConfigs, ns, fmt.Sprintf("o%d", c.i), spec(c))
		}
	}
	w.SyncAll()
	round("changed", r.Pick(10, 40))
	w.CheckAlive("redirecting to the IdP")
	r.Floor("redirects", nconf*30)
	r.Floor("bindings", nconf)
	r.Floor("begun_again", nconf)
	r.Finish()
}
