package main

import (
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/vh"
)

func init() { checks["C19"] = c19 }

// opaque is what the monitor knows of one opaque token at one IdP.
type opaque struct {
	tenant string
	mu     sync.Mutex
	how    string
	asked  []string // what was answered, in order
	yes    int      // answers of 200
}

func (o *opaque) set(how string) { o.mu.Lock(); o.how = how; o.mu.Unlock() }
func (o *opaque) count() (asked, yes int) {
	o.mu.Lock()
	defer o.mu.Unlock()
	return len(o.asked), o.yes
}

// opaqueBook answers the userinfo endpoints and records every question.
type opaqueBook struct {
	r    *vh.Report
	mu   sync.Mutex
	toks map[string]*opaque // tenant + " " + token
	all  map[string]bool
	uri  map[string]string // the discovered endpoint of each tenant
}

func (k *opaqueBook) add(tenant, tok, how string) *opaque {
	k.mu.Lock()
	defer k.mu.Unlock()
	o := &opaque{tenant: tenant, how: how}
	k.toks[tenant+" "+tok] = o
	k.all[tok] = true
	return o
}

func (k *opaqueBook) handler(tenant string) http.HandlerFunc {
	return func(w http.ResponseWriter, q *http.Request) {
		auth := q.Header.Get("Authorization")
		tok := strings.TrimPrefix(auth, "Bearer ")
		k.mu.Lock()
		o, want := k.toks[tenant+" "+tok], k.uri[tenant]
		known := k.all[tok]
		k.mu.Unlock()
		k.r.Count("userinfo_requests", 1)
		if len(q.Header["Authorization"]) != 1 || !strings.HasPrefix(auth, "Bearer ") || (o == nil && !known) {
			k.r.Violation("the userinfo endpoint was asked about a token no session has", vh.M{"authorization": q.Header["Authorization"], "tenant": tenant})
		} else if q.URL.RequestURI() != want {
			k.r.Violation("userinfo was asked at another address than the discovered one", vh.M{"asked": q.URL.RequestURI(), "discovered": want})
		}
		how := "401"
		if o != nil {
			o.mu.Lock()
			how = o.how
			o.asked = append(o.asked, how)
			if how == "200" || how == "slow" || how == "body" || how == "empty" || how == "big" {
				o.yes++
			}
			o.mu.Unlock()
		}
		var code int
		switch how {
		case "200":
			io.WriteString(w, `{"sub":"x"}`)
		case "empty":
			w.WriteHeader(200)
		case "body":
			io.WriteString(w, `{"error":"invalid_token","active":false}]]`)
		case "big":
			io.WriteString(w, strings.Repeat("x", 1<<20))
		case "slow":
			time.Sleep(700 * time.Millisecond)
			io.WriteString(w, `{"sub":"x"}`)
		case "hang":
			<-q.Context().Done()
		case "drop":
			dropConn(w, "")
		case "garbage":
			if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
				io.WriteString(c, "SSH-2.0-x 200 OK\r\n\r\n")
				c.Close()
			}
		default:
			fmt.Sscan(how, &code)
			w.Header().Set("Www-Authenticate", `Bearer error="invalid_token"`)
			w.WriteHeader(code)
			if code != 204 && code != 304 {
				io.WriteString(w, `{"sub":"x","active":true}`)
			}
		}
	}
}

var opaqueYes = []string{"200", "200", "200", "empty", "body", "big"}
var opaqueNo = []string{"401", "401", "403", "400", "404", "500", "502", "503", "429", "201", "202", "203", "204", "205", "206", "226", "299", "300", "304", "402", "418", "599", "drop", "garbage"}

// opaqueToken makes up a token that is not a JWT.
func opaqueToken(rnd *rand.Rand, n int64) string {
	const abc = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	w := func(set string, n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = set[rnd.Intn(len(set))]
		}
		return string(b)
	}
	u := fmt.Sprintf("%sq%d", w(abc, 4), n)
	switch rnd.Intn(11) {
	case 0:
		return u
	case 1:
		return u + w(abc+"-._~+/", 40) + "=="
	case 2:
		return u + "." + w(abc, 12)
	case 3:
		return u + "." + w(abc, 12) + "." + w(abc, 12)
	case 4:
		return "eyJhbGciOiJub25lIn0." + u + "." // three segments, not a JWT
	case 5:
		return u + strings.Repeat(".", 2+rnd.Intn(5)) + "x"
	case 6:
		return w("!#$%&'*+^`|~?@,;:<>()[]{}\"\\", 6) + u
	case 7:
		return u + " " + w(abc, 3) + "\t" + w(abc, 3)
	case 8:
		return u + "äöü漢" + w(abc, 2)
	case 9:
		return u + w(abc, 3000)
	}
	return "Bearer " + u
}

func c19() {
	r := vh.NewReport("C19", "cases are requests with sessions, logins and refreshes whose access token is opaque, distinct by token shape, rules, ID token and what the userinfo endpoint answers; non-trivial when an opaque token was presented to the adapter's rules")
	vh.NoReuse(r)
	r.Assumptions = []string{"access tokens that are JWTs with a wrong signature are not judged", "redirecting userinfo endpoints are not judged", "after a request was denied only denials are demanded of the same session"}
	rnd := r.Rand("c19")
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	vh.PreKeys(4, 1024)
	const ns = "n"
	key, rogue := vh.NewKeyE("k1", 1024, 65537), vh.NewKeyE("k1", 1024, 65537)
	book := &opaqueBook{r: r, toks: map[string]*opaque{}, all: map[string]bool{}, uri: map[string]string{}}
	names := []string{"a", "b", "c"}
	tn := map[string]*vh.Tenant{}
	// rules of the paths below /<tenant>
	good := vh.Rule("kind", "ALL", "id_token", "id")
	type rs struct {
		path   string
		rules  []vh.M
		access bool // some rule is on the access token
		sub    string
	}
	sets := []rs{
		{"/free", nil, false, ""},
		{"/id", []vh.M{good}, false, ""},
		{"/id2", []vh.M{good, vh.Rule("grp", "ANY", "id_token", "x", "y")}, false, "x"},
		{"/acc", []vh.M{vh.Rule("aud", "ANY", "access_token", "c-a", "c-b", "c-c")}, true, ""},
		{"/accdef", []vh.M{vh.Rule("scope", "ALL", "", "read")}, true, ""},
		{"/accnot", []vh.M{vh.Rule("scope", "NOT", "", "none")}, true, ""},
		{"/mixed", []vh.M{good, vh.Rule("kind", "NOT", "access_token", "zzz")}, true, ""},
		{"/mixed2", []vh.M{vh.Rule("kind", "NOT", "", "zzz"), good}, true, ""},
	}
	targets := []vh.M{}
	for i, n := range names {
		t := w.IdP.Tenant(n)
		tn[n] = t
		t.SetKeys(key)
		d := t.DefaultDisco()
		q := []string{"", "?x=1&y=a%20b", "?schema=openid"}[i]
		d["userinfo_endpoint"] = t.UserinfoURL() + q
		t.SetDisco(d)
		book.uri[n] = "/t/" + n + "/userinfo" + q
		t.Override("userinfo", book.handler(n))
		w.Kube.Apply(vh.OidcConfigs, ns, "o"+n, vh.M{"clientId": "c-" + n, "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
		var paths []vh.M
		for _, s := range sets {
			paths = append(paths, vh.PathEntry("oidc", "", s.path, "", "o"+n, "", s.rules))
		}
		targets = append(targets, vh.M{"serviceName": "svc-" + n, "paths": paths})
		w.Kube.Apply(vh.JwtConfigs, ns, "j"+n, vh.M{"jwksUrl": t.JwksURL()})
		targets = append(targets, vh.M{"serviceName": "api-" + n, "paths": []vh.M{vh.PathEntry("jwt", "", "/", "", "j"+n, "", nil)}})
	}
	w.Kube.Apply(vh.Policies, ns, "p", vh.M{"targets": targets})
	w.SyncAll()

	var seq int64
	fail := func(what string, wit vh.M) {
		if w.CheckAlive("serving opaque tokens") {
			r.Violation(what, wit)
		}
	}
	pick := func(rnd *rand.Rand, l []string) string { return l[rnd.Intn(len(l))] }
	idTok := func(extra vh.Claims, ttl time.Duration) string {
		c := vh.Claims{"sub": "u", "kind": "id", "jti": atomic.AddInt64(&seq, 1), "exp": time.Now().Add(ttl).Unix()}
		for k, v := range extra {
			c[k] = v
		}
		return key.Sign(c)
	}
	// ask sends one request of a session and judges it. canPass says whether rules and ID token allow the session at all.
	ask := func(what string, b *vh.Browser, q vh.Req, tok, id string, o *opaque, canPass, must bool) bool {
		n0, y0 := o.count()
		resp := w.Visit(b.Clone(), q)
		n1, y1 := o.count()
		r.Count("requests", 1)
		wit := vh.M{"case": what, "request": vh.ReqM(q), "token": trunc(tok, 200), "id_token": id, "userinfo_answers": o.asked[n0:n1], "answer": trunc(resp.String(), 600)}
		if resp.Allowed() {
			r.Count("accepted", 1)
			switch {
			case y1 == y0:
				fail("an opaque access token was accepted though its IdP did not answer 200 for this request", wit)
			case !canPass:
				fail("an opaque access token was accepted against the policy's rules or an invalid ID token", wit)
			case resp.Authz != "Bearer "+tok+" "+id:
				fail("a session was forwarded with other tokens than its own", wit)
			default:
				return true
			}
			return false
		}
		r.Count("denied", 1)
		if must {
			fail("a session with an opaque access token was denied though its IdP answered 200", wit)
		} else if _, err := vh.ParseLogin(resp); err != nil {
			fail("a denied browser was not sent to log in: "+err.Error(), wit)
		}
		return false
	}
	// login returns the browser when a session was created
	login := func(what string, n string, s rs, tok, id string, o *opaque, may, must bool) *vh.Browser {
		b := vh.NewBrowser()
		_, y0 := o.count()
		resp, ck, err := w.Login(b, vh.Get(ns, "svc-"+n, s.path+"/p"), tn[n], vh.Give(vh.Tokens{Access: tok, ID: id, Refresh: "r-" + tok}))
		_, y1 := o.count()
		r.Count("logins", 1)
		wit := vh.M{"case": what, "token": trunc(tok, 200), "id_token": id, "answer": trunc(resp.String(), 600)}
		if ck != nil {
			r.Count("sessions", 1)
			if y1 == y0 {
				fail("a login with an opaque access token succeeded though the IdP did not answer 200 for it", wit)
			} else if !may {
				fail("a login with an opaque access token succeeded against the policy's rules or with an invalid ID token", wit)
			}
			return b
		}
		if must {
			fail("a login with an opaque access token failed though the IdP answered 200: "+fmt.Sprint(err), wit)
		}
		return nil
	}

	var jobs []func(rnd *rand.Rand)
	// ---- sessions with changing answers
	for i := 0; i < r.Pick(1200, 20000); i++ {
		i := i
		jobs = append(jobs, func(rnd *rand.Rand) {
			n := names[rnd.Intn(len(names))]
			s := sets[i%len(sets)]
			if i%3 != 0 {
				s = sets[rnd.Intn(3)]
			}
			tok := opaqueToken(rnd, atomic.AddInt64(&seq, 1))
			how := pick(rnd, opaqueYes)
			if rnd.Intn(4) == 0 {
				how = pick(rnd, opaqueNo)
			}
			o := book.add(n, tok, how)
			// the same token may be good elsewhere
			for _, m := range names {
				if m != n && rnd.Intn(2) == 0 {
					book.add(m, tok, "200")
				}
			}
			isYes := func(how string) bool {
				for _, y := range opaqueYes {
					if how == y {
						return true
					}
				}
				return false
			}
			id := idTok(vh.Claims{"grp": "a x"}, time.Hour)
			idOK := map[string]bool{"/free": true, "/id": true, "/id2": true}
			switch rnd.Intn(8) {
			case 0:
				id = idTok(vh.Claims{"grp": "z", "kind": "other"}, time.Hour)
				idOK = map[string]bool{"/free": true}
			case 1:
				id = idTok(vh.Claims{"grp": "z"}, time.Hour)
				idOK = map[string]bool{"/free": true, "/id": true}
			case 2:
				switch rnd.Intn(5) {
				case 0:
					id = idTok(vh.Claims{"grp": "x"}, -time.Minute)
				case 1:
					id = rogue.Sign(vh.Claims{"kind": "id", "grp": "x", "exp": time.Now().Add(time.Hour).Unix()})
				case 2:
					id = tok
				case 3:
					id = opaqueToken(rnd, atomic.AddInt64(&seq, 1))
					book.add(n, id, "200")
				case 4:
					id = ""
				}
				idOK = nil
			}
			may := idOK[s.path] && !s.access
			what := fmt.Sprintf("%s id=%v userinfo=%s", s.path, idOK[s.path], how)
			r.Case(fmt.Sprint(what, " ", i), true)
			b := login(what, n, s, tok, id, o, may, may && isYes(how))
			// what the IdP said earlier, for whichever request, does not count: the same token in another session
			again := func() {
				if !may || rnd.Intn(2) == 0 {
					return
				}
				o.set("200")
				what := what + ", the same token later"
				r.Case(fmt.Sprint(what, " ", i), true)
				if b := login(what, n, s, tok, id, o, true, true); b != nil {
					if ask(what, b, vh.Get(ns, "svc-"+n, s.path+"/again"), tok, id, o, true, true) {
						r.Count("accepted_after_denials", 1)
					}
				}
			}
			if b == nil {
				again()
				return
			}
			defer func() {
				if no := len(o.asked) - o.yes; no > 0 && !r.TooMany() {
					again()
				}
			}()
			// the other rule sets apply to the same session
			live := true
			for k := 0; k < 6 && !r.TooMany(); k++ {
				s2 := s
				if k > 0 && rnd.Intn(2) == 0 {
					s2 = sets[rnd.Intn(len(sets))]
				}
				how := pick(rnd, opaqueYes)
				if k > 1 && rnd.Intn(3) == 0 {
					how = pick(rnd, opaqueNo)
				}
				o.set(how)
				pass := idOK[s2.path] && !s2.access
				what := fmt.Sprintf("session of %s at %s, id=%v userinfo=%s", s.path, s2.path, pass, how)
				r.Case(fmt.Sprint(what, " ", i, " ", k), true)
				if !ask(what, b, vh.Get(ns, "svc-"+n, fmt.Sprint(s2.path, "/", k)), tok, id, o, pass, live && pass && isYes(how)) {
					live = false
				}
			}
			if i < 40 {
				r.Sample("opaque session "+s.path, vh.M{"token": trunc(tok, 80), "answers": o.asked})
			}
		})
	}
	// ---- slow and hanging userinfo endpoints
	for i := 0; i < r.Pick(48, 200); i++ {
		i := i
		jobs = append(jobs, func(rnd *rand.Rand) {
			n := names[i%3]
			tok := opaqueToken(rnd, atomic.AddInt64(&seq, 1))
			o := book.add(n, tok, "200")
			id := idTok(nil, time.Hour)
			b := login("before "+"slow", n, sets[0], tok, id, o, true, true)
			if b == nil {
				return
			}
			how := []string{"slow", "hang"}[i%2]
			o.set(how)
			r.Case(fmt.Sprint(how, " ", i), true)
			if how == "slow" {
				ask(how, b, vh.Get(ns, "svc-"+n, "/free/x"), tok, id, o, true, true)
				return
			}
			ask(how, b, vh.Get(ns, "svc-"+n, "/free/x"), tok, id, o, true, false)
			r.Count("hangs", 1)
		})
	}
	// ---- refreshes that yield opaque tokens
	for i := 0; i < r.Pick(120, 900); i++ {
		i := i
		jobs = append(jobs, func(rnd *rand.Rand) {
			n := names[rnd.Intn(3)]
			s := sets[rnd.Intn(3)]
			opaqueFirst := i%2 == 0
			var acc, id string
			b := vh.NewBrowser()
			for life := time.Second; ; life *= 2 {
				exp := time.Now().Add(life + time.Second)
				acc = key.Sign(vh.Claims{"aud": "c-" + n, "jti": atomic.AddInt64(&seq, 1), "exp": exp.Unix()})
				if opaqueFirst {
					acc = opaqueToken(rnd, atomic.AddInt64(&seq, 1))
					book.add(n, acc, "200")
				}
				id = key.Sign(vh.Claims{"sub": "u", "kind": "id", "grp": "x", "exp": exp.Unix()})
				_, ck, err := w.Login(b, vh.Get(ns, "svc-"+n, s.path+"/p"), tn[n], vh.Give(vh.Tokens{Access: acc, ID: id, Refresh: "r-" + acc}))
				if ck != nil {
					time.Sleep(time.Until(exp.Add(1100 * time.Millisecond)))
					break
				}
				if life > 20*time.Second {
					fail("no session: "+fmt.Sprint(err), nil)
					return
				}
			}
			tok2 := opaqueToken(rnd, atomic.AddInt64(&seq, 1))
			how := pick(rnd, opaqueYes)
			if i%4 >= 2 {
				how = pick(rnd, opaqueNo)
			}
			o2 := book.add(n, tok2, how)
			id2 := idTok(vh.Claims{"grp": "x"}, time.Hour)
			pass := true
			s2 := s
			if i%5 == 0 {
				s2 = sets[3+rnd.Intn(len(sets)-3)]
				pass = false
			}
			tn[n].Refresh("r-"+acc, vh.Give(vh.Tokens{Access: tok2, ID: id2, Refresh: "r-" + tok2}))
			what := fmt.Sprintf("refresh to an opaque token at %s, userinfo=%s", s2.path, how)
			r.Case(fmt.Sprint(what, " ", i), true)
			r.Count("refreshes", 1)
			ok := ask(what, b, vh.Get(ns, "svc-"+n, s2.path+"/x"), tok2, id2, o2, pass, pass && i%4 < 2)
			if ok {
				o2.set("401")
				ask(what+", then 401", b, vh.Get(ns, "svc-"+n, s2.path+"/x"), tok2, id2, o2, pass, false)
			}
		})
	}
	// ---- concurrent requests while the word changes
	for i := 0; i < r.Pick(24, 200); i++ {
		i := i
		jobs = append(jobs, func(rnd *rand.Rand) {
			n := names[i%3]
			tok := opaqueToken(rnd, atomic.AddInt64(&seq, 1))
			o := book.add(n, tok, "200")
			id := idTok(nil, time.Hour)
			b := login("before a revocation", n, sets[0], tok, id, o, true, true)
			if b == nil {
				return
			}
			var revoked int64
			var wg sync.WaitGroup
			for g := 0; g < 6; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 25; k++ {
						late := atomic.LoadInt64(&revoked) == 1
						resp := w.Visit(b.Clone(), vh.Get(ns, "svc-"+n, "/free/x"))
						r.Count("requests", 1)
						if late {
							r.Count("after_revocation", 1)
							if resp.Allowed() {
								fail("a request that started after the IdP had revoked the opaque token was accepted", vh.M{"token": tok, "answer": trunc(resp.String(), 300)})
							}
						} else if resp.Allowed() && resp.Authz != "Bearer "+tok+" "+id {
							fail("a session was forwarded with other tokens than its own", vh.M{"token": tok, "answer": trunc(resp.String(), 300)})
						}
					}
				}()
			}
			time.Sleep(time.Duration(rnd.Intn(30)) * time.Millisecond)
			o.set("401")
			atomic.StoreInt64(&revoked, 1)
			wg.Wait()
			r.Case(fmt.Sprint("revocation ", i), true)
		})
	}
	// ---- API requests are not the userinfo endpoint's business
	for i := 0; i < r.Pick(150, 1500); i++ {
		i := i
		jobs = append(jobs, func(rnd *rand.Rand) {
			n := names[i%3]
			tok := strings.NewReplacer(" ", "", "\t", "").Replace(opaqueToken(rnd, atomic.AddInt64(&seq, 1)))
			o := book.add(n, tok, "200")
			id := idTok(nil, time.Hour)
			q := vh.Bearer(ns, "api-"+n, "/x", tok)
			if i%2 == 0 {
				q = vh.Bearer(ns, "api-"+n, "/x", tok, id)
			}
			resp := w.Do(q)
			r.Case(fmt.Sprint("api ", i), true)
			r.Count("api_requests", 1)
			if resp.Allowed() {
				fail("an opaque token was accepted by a JWT policy", vh.M{"request": vh.ReqM(q), "answer": trunc(resp.String(), 300)})
			}
			if a, _ := o.count(); a > 0 {
				fail("an opaque token of an API request was sent to a userinfo endpoint", vh.M{"request": vh.ReqM(q)})
			}
		})
	}
	seeds := make([]int64, len(jobs))
	for i := range seeds {
		seeds[i] = rnd.Int63()
	}
	rnd.Shuffle(len(jobs), func(i, j int) { jobs[i], jobs[j] = jobs[j], jobs[i] })
	par(len(jobs), 48, func(i int) {
		if !r.TooMany() {
			jobs[i](rand.New(rand.NewSource(seeds[i])))
		}
	})
	r.Floor("accepted", 500)
	r.Floor("accepted_after_denials", 50)
	r.Floor("denied", 300)
	r.Floor("sessions", 300)
	r.Floor("refreshes", 100)
	r.Floor("after_revocation", 100)
	r.Finish()
}
