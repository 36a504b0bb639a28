package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/vh"
)

func init() { checks["C12"] = c12 }

var raceFrame = regexp.MustCompile(`(?m)^  (\S+)\(.*\)\n      (\S+):(\d+)`)

// raceReports splits a race log and keeps one report per pair of places.
func raceReports(log []byte) map[string]string {
	out := map[string]string{}
	parts := bytes.Split(log, []byte("WARNING: DATA RACE"))
	for _, p := range parts[1:] {
		if i := bytes.Index(p, []byte("==================")); i >= 0 {
			p = p[:i]
		}
		// the innermost frame of each of the two stacks
		var tops []string
		for _, st := range strings.Split(string(p), "\n\n") {
			if m := raceFrame.FindStringSubmatch(st); m != nil && len(tops) < 2 {
				tops = append(tops, m[1]+" "+filepath.Base(m[2])+":"+m[3])
			}
		}
		out[strings.Join(tops, " / ")] = trunc(string(p), 6000)
	}
	return out
}

func c12() {
	r := vh.NewReport("C12", "cases are requests and resource changes issued concurrently against the race-instrumented adapter: API, login, callback, session, refresh and logout requests of shared and own sessions during creation, update and deletion of every kind of resource, key rotation, IdP faults, watch drops, recovery from discovery outages and from missing cookie keys; distinct by worker, index and kind")
	r.Assumptions = []string{"the race detector sees the accesses that were executed", "a request unanswered for a minute while the IdP answers within seconds is a deadlock"}
	raceDir := vh.Scratch("race")
	env := []string{"GORACE=halt_on_error=0 history_size=3 log_path=" + filepath.Join(raceDir, "race")}
	var suts []*vh.Sut
	scan := func() {
		fs, _ := filepath.Glob(filepath.Join(raceDir, "race*"))
		var all []byte
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			all = append(all, b...)
		}
		for _, s := range suts {
			all = append(all, s.Log()...)
		}
		for k, v := range raceReports(all) {
			r.Violation("data race: "+k, vh.M{"report": v})
		}
		if bytes.Contains(all, []byte("fatal error: concurrent map")) {
			r.Violation("unsynchronised map access", vh.M{"log": trunc(string(all), 3000)})
		}
	}
	vh.PreKeys(6, 1024)
	keys := make([]*vh.Key, 4)
	for i := range keys {
		keys[i] = vh.NewKeyE(fmt.Sprint("k", i), 1024, 65537)
	}
	var stuck int32
	do := func(s *vh.Sut, w *vh.World, q vh.Req) *vh.Resp {
		resp := s.DoT(q, 60*time.Second)
		r.Count("requests", 1)
		if resp.Err != nil && strings.Contains(resp.Err.Error(), "DeadlineExceeded") && atomic.CompareAndSwapInt32(&stuck, 0, 1) {
			r.Violation("a request was not answered within a minute", vh.M{"request": vh.ReqM(q)})
			scan()
			r.Finish()
		}
		return resp
	}

	main := func() {
		w := vh.NewWorld(r, vh.SutOpts{Env: env})
		suts = append(suts, w.Sut)
		defer w.Close()
		t := w.IdP.Tenant("a")
		t.SetKeys(keys...)
		w.IdP.KeepLog = false
		const nsv = 3
		jwtCfg := func(i int) { w.Kube.Apply(vh.JwtConfigs, "n", fmt.Sprint("j", i), vh.M{"jwksUrl": t.JwksURL()}) }
		oidcCfg := func(i, v int) {
			w.Kube.SetSecret("n", "cs", map[string]string{"k": fmt.Sprint("secret", v)})
			scopes := [][]string{{"openid", "email"}, {}, {"openid"}}[(i+v)%3]
			w.Kube.Apply(vh.OidcConfigs, "n", fmt.Sprint("o", i), vh.M{"clientId": fmt.Sprint("client", i), "clientSecret": fmt.Sprint("s", v), "discoveryUrl": t.DiscoveryURL(), "scopes": scopes,
				"clientSecretRef": vh.M{"name": "cs", "key": "k"}, "authMethod": []string{"", "client_secret_post", "client_secret_basic"}[v%3]})
		}
		pol := func(i, v int) {
			jr := []vh.M{vh.Rule("scope", "", "", "a"), vh.Rule("list", "ANY", "", "x", "y"), vh.Rule("n.m", "NOT", "id_token", "z")}
			or := []vh.M{vh.Rule("kind", "", "id_token", "id"), vh.Rule("v", "NOT", "id_token", "zz")}
			es := []vh.M{vh.PathEntry("jwt", "", "/api", "", fmt.Sprint("j", i), "", jr),
				vh.PathEntry("jwt", "/idonly", "", "", fmt.Sprint("j", (i+2)%nsv), "", []vh.M{vh.Rule("kind", "", "id_token", "id")}),
				vh.PathEntry("jwt", "/plain", "", "GET", fmt.Sprint("j", (i+1)%nsv), "", nil),
				vh.PathEntry("oidc", "", "/web", "", fmt.Sprint("o", i), "", or),
				vh.PathEntry("oidc", "", "/", "", fmt.Sprint("o", (i+v)%nsv), "", nil)}
			for k := 0; k < v%4; k++ {
				es = append(es, vh.PathEntry("jwt", "", fmt.Sprintf("/extra/%d/x", (v+k)%7), "", fmt.Sprint("j", k%nsv), "", nil))
			}
			w.Kube.Apply(vh.Policies, "n", fmt.Sprint("p", i), vh.Spec(fmt.Sprint("svc", i), es...))
		}
		for i := 0; i < nsv; i++ {
			jwtCfg(i)
			oidcCfg(i, 0)
			pol(i, 0)
		}
		w.SyncAll()

		var seq int64
		now := func() int64 { return time.Now().Unix() }
		mint := func(client int, opaque bool, life int64) vh.Tokens {
			n := atomic.AddInt64(&seq, 1)
			k := keys[n%4]
			tk := vh.Tokens{ID: k.Sign(vh.Claims{"kind": "id", "exp": now() + life, "jti": n}), Refresh: fmt.Sprintf("refresh-%d-%d", client, n)}
			if opaque {
				tk.Access = fmt.Sprint("opaque-", n)
				t.Userinfo(tk.Access, 200)
			} else {
				tk.Access = k.Sign(vh.Claims{"aud": fmt.Sprint("client", client), "kind": "a", "exp": now() + life, "jti": n, "v": "1"})
			}
			return tk
		}
		var fault int32 // what the IdP does at the moment
		token := func(rw http.ResponseWriter, q *http.Request) {
			if f := atomic.LoadInt32(&fault); f == 1 {
				rw.WriteHeader(500)
				return
			} else if f == 2 {
				time.Sleep(20 * time.Millisecond)
			}
			q.ParseForm()
			cl := 0
			fmt.Sscanf(q.Form.Get("refresh_token"), "refresh-%d-", &cl)
			fmt.Sscanf(q.Form.Get("code"), "code-%d-", &cl)
			tk := mint(cl, strings.Contains(q.Form.Get("code"), "opaque"), 1+rand.Int63n(2))
			r.Count("tokens_issued", 1)
			rw.Write(vh.TokenJSON(tk))
		}
		t.Override("token", token)
		faulty := func(ep string) {
			t.Override(ep, func(rw http.ResponseWriter, q *http.Request) {
				switch atomic.LoadInt32(&fault) {
				case 1:
					rw.WriteHeader(503)
				case 2:
					time.Sleep(10 * time.Millisecond)
					t.Default(rw, &vh.HReq{Endpoint: ep, Header: q.Header})
				case 3:
					rw.Write([]byte("{"))
				default:
					t.Default(rw, &vh.HReq{Endpoint: ep, Header: q.Header})
				}
			})
		}
		faulty("jwks")
		faulty("disco")
		faulty("userinfo")

		// sessions that all workers share
		type sess struct {
			mu    sync.Mutex
			jar   string
			svc   int
			since time.Time
			dead  bool
		}
		shared := make([]*sess, 12)
		for i := range shared {
			shared[i] = &sess{svc: i % nsv}
		}
		workers := 24
		steps := r.Pick(600, 8000)
		stop := make(chan bool)
		var churn sync.WaitGroup
		rnd := r.Rand("c12")
		churner := func(f func(rnd *rand.Rand, n int), pause time.Duration) {
			crnd := rand.New(rand.NewSource(rnd.Int63()))
			churn.Add(1)
			go func() {
				defer churn.Done()
				for n := 1; ; n++ {
					select {
					case <-stop:
						return
					case <-time.After(pause):
					}
					f(crnd, n)
					r.Count("changes", 1)
					r.Case(fmt.Sprint("change ", pause, n), true)
				}
			}()
		}
		churner(func(c *rand.Rand, n int) {
			if n%6 == 5 {
				w.Kube.Delete(vh.Policies, "n", fmt.Sprint("p", c.Intn(nsv)))
			} else {
				pol(c.Intn(nsv), n)
			}
		}, 8*time.Millisecond)
		churner(func(c *rand.Rand, n int) {
			if n%7 == 5 {
				w.Kube.Delete(vh.JwtConfigs, "n", fmt.Sprint("j", c.Intn(nsv)))
			} else {
				jwtCfg(c.Intn(nsv))
			}
		}, 9*time.Millisecond)
		churner(func(c *rand.Rand, n int) {
			if n%7 == 5 {
				w.Kube.Delete(vh.OidcConfigs, "n", fmt.Sprint("o", c.Intn(nsv)))
			} else {
				oidcCfg(c.Intn(nsv), n)
			}
		}, 11*time.Millisecond)
		churner(func(c *rand.Rand, n int) {
			ks := []*vh.Key{}
			for _, k := range keys {
				if c.Intn(5) > 0 {
					ks = append(ks, k)
				}
			}
			t.SetKeys(ks...)
			atomic.StoreInt32(&fault, []int32{0, 0, 0, 1, 2, 3}[c.Intn(6)])
		}, 30*time.Millisecond)
		churner(func(c *rand.Rand, n int) {
			if n%3 == 0 {
				w.Kube.Compact()
			}
			w.Kube.DropWatches()
		}, 300*time.Millisecond)

		seeds := make([]int64, workers)
		for i := range seeds {
			seeds[i] = rnd.Int63()
		}
		par(workers, workers, func(wk int) {
			rnd := rand.New(rand.NewSource(seeds[wk]))
			for i := 0; i < steps && w.Sut.Alive() && !r.TooMany(); i++ {
				svc := rnd.Intn(nsv)
				sv := fmt.Sprint("svc", svc)
				kind := rnd.Intn(10)
				r.Case(fmt.Sprint(wk, " ", i, " ", kind), true)
				switch kind {
				case 0, 1: // API
					n := atomic.AddInt64(&seq, 1)
					k := keys[rnd.Intn(4)]
					toks := []string{k.Sign(vh.Claims{"exp": now() + 60, "scope": "a b", "list": []string{"x"}, "jti": n}), k.Sign(vh.Claims{"exp": now() + 60, "n": vh.M{"m": "w"}})}
					q := vh.Bearer("n", sv, []string{"/api/x", "/plain", "/extra/1/x", "/idonly"}[rnd.Intn(4)], toks[:1+rnd.Intn(2)]...)
					if do(w.Sut, w, q).Allowed() {
						r.Count("api_allowed", 1)
					}
				case 2: // unknown keys, missing tokens
					k := vh.Key{Kid: fmt.Sprint("unknown", rnd.Intn(3)), Priv: keys[0].Priv}
					q := vh.Bearer("n", sv, "/api/y", k.Sign(vh.Claims{"exp": now() + 60}))
					switch rnd.Intn(6) {
					case 0, 1:
						q.Authz = ""
					case 2, 3: // an access token alone, where an ID token is asked for
						q = vh.Bearer("n", sv, "/idonly", keys[rnd.Intn(4)].Sign(vh.Claims{"exp": now() + 60}))
					case 4:
						q.Authz = []string{"Bearer", "Basic eA==", "Bearer a b c d", "Bearer x.y"}[rnd.Intn(4)]
					}
					do(w.Sut, w, q)
				case 3, 4: // login
					page := vh.Get("n", sv, "/web/p")
					resp := do(w.Sut, w, page)
					a, err := vh.ParseLogin(resp)
					if err != nil {
						continue
					}
					b := vh.NewBrowser()
					b.Take(resp)
					cl := 0
					fmt.Sscanf(a.Q.Get("client_id"), "client%d", &cl)
					op := ""
					if rnd.Intn(3) == 0 {
						op = "opaque"
					}
					q := vh.Callback(page, fmt.Sprintf("code-%d-%d%s", cl, rnd.Int63(), op), a.State)
					q.Cookies = b.Header()
					resp = do(w.Sut, w, q)
					if c := b.Take(resp); c != nil {
						r.Count("sessions", 1)
						for k := 0; k < 1+rnd.Intn(4); k++ {
							q = vh.Get("n", sv, "/web/again")
							q.Cookies = b.Header()
							if do(w.Sut, w, q).Allowed() {
								r.Count("session_allowed", 1)
							}
						}
						s := shared[rnd.Intn(len(shared))]
						s.mu.Lock()
						if s.dead || time.Since(s.since) > 4*time.Second {
							s.jar, s.svc, s.since, s.dead = b.Header(), svc, time.Now(), false
						}
						s.mu.Unlock()
					}
				case 5, 6, 7, 8: // shared session, often expired
					s := shared[rnd.Intn(len(shared))]
					s.mu.Lock()
					jar, sc := s.jar, s.svc
					s.mu.Unlock()
					q := vh.Get("n", fmt.Sprint("svc", sc), "/web/shared")
					q.Cookies = jar
					resp := do(w.Sut, w, q)
					if resp.Allowed() {
						r.Count("session_allowed", 1)
						if resp.Cookie != "" {
							r.Count("refreshes", 1)
						}
					} else if jar != "" {
						s.mu.Lock()
						s.dead = s.dead || s.jar == jar
						s.mu.Unlock()
					}
				default: // logout of a shared session, sometimes
					s := shared[rnd.Intn(len(shared))]
					s.mu.Lock()
					jar, sc := s.jar, s.svc
					s.mu.Unlock()
					if rnd.Intn(3) == 0 {
						q := vh.Logout(vh.Get("n", fmt.Sprint("svc", sc), "/web/shared"))
						q.Cookies = jar
						do(w.Sut, w, q)
						r.Count("logouts", 1)
					} else { // malformed callbacks
						q := vh.Callback(vh.Get("n", sv, "/web"), "x", "y")
						q.Cookies = jar
						do(w.Sut, w, q)
					}
				}
			}
		})
		close(stop)
		churn.Wait()
		atomic.StoreInt32(&fault, 0)
		t.SetKeys(keys...)
		if !w.CheckAlive("serving concurrent traffic") {
			return
		}

		// ---- sessions that need a refresh every second, each used by several requests at once, some logged out in between
		hot := func(i int, jars []string) {
			rnd := rand.New(rand.NewSource(seeds[i%len(seeds)] + int64(i)))
			sv := fmt.Sprint("svc", (i/3)%nsv)
			for k := 0; k < r.Pick(900, 9000) && w.Sut.Alive(); k++ {
				time.Sleep(5 * time.Millisecond)
				q := vh.Get("n", sv, "/web/hot")
				q.Cookies = jars[i/3]
				if i%3 == 0 && rnd.Intn(1500) == 0 {
					q = vh.Logout(q)
				}
				if resp := do(w.Sut, w, q); resp.Allowed() && resp.Cookie != "" {
					r.Count("refreshes", 1)
				}
				r.Case(fmt.Sprint("hot ", i, " ", k), true)
			}
		}
		for i := 0; i < nsv; i++ {
			jwtCfg(i)
			oidcCfg(i, 0)
			pol(i, 0)
		}
		w.SyncAll()
		jars := make([]string, 24)
		for i := range jars {
			for try := 0; try < 5 && jars[i] == ""; try++ {
				sv := fmt.Sprint("svc", i%nsv)
				page := vh.Get("n", sv, "/web/z")
				b := vh.NewBrowser()
				a, err := vh.ParseLogin(w.Visit(b, page))
				if err != nil {
					continue
				}
				w.Visit(b, vh.Callback(page, fmt.Sprintf("code-%d-%d%s", i%nsv, try, []string{"", "opaque"}[i/12]), a.State))
				jars[i] = b.Header()
			}
		}
		var hw sync.WaitGroup
		for i := 0; i < 72; i++ {
			hw.Add(1)
			go func(i int) { defer hw.Done(); hot(i, jars) }(i)
		}
		hw.Wait()

		// ---- the same policy's rules and keys used for the first time by many requests at once, with discovery coming back
		for round := 0; round < r.Pick(8, 40) && w.Sut.Alive(); round++ {
			tt := w.IdP.Tenant(fmt.Sprint("late", round))
			tt.SetKeys(keys...)
			down := func(rw http.ResponseWriter, _ *http.Request) { rw.WriteHeader(503) }
			tt.Override("disco", down)
			tt.Override("jwks", down)
			tt.Override("token", token)
			svc := fmt.Sprint("late", round)
			w.Kube.Apply(vh.OidcConfigs, "n", svc, vh.M{"clientId": "client0", "clientSecret": "s", "discoveryUrl": tt.DiscoveryURL()})
			w.Kube.Apply(vh.JwtConfigs, "n", svc, vh.M{"jwksUrl": tt.JwksURL()})
			w.Kube.Apply(vh.Policies, "n", svc, vh.Spec(svc, vh.PathEntry("oidc", "", "/w", "", svc, "", []vh.M{vh.Rule("kind", "", "", "a")}), vh.PathEntry("jwt", "", "/j", "", svc, "", []vh.M{vh.Rule("kind", "", "", "a")})))
			w.SyncAll()
			par(24, 24, func(i int) {
				if i == 12 {
					tt.Override("disco", nil)
					tt.Override("jwks", nil)
				}
				for k := 0; k < 4; k++ {
					if i%2 == 0 {
						do(w.Sut, w, vh.Bearer("n", svc, "/j/x", keys[i%4].Sign(vh.Claims{"exp": now() + 60, "kind": "a"})))
						continue
					}
					page := vh.Get("n", svc, "/w/x")
					resp := do(w.Sut, w, page)
					if a, err := vh.ParseLogin(resp); err == nil {
						b := vh.NewBrowser()
						b.Take(resp)
						q := vh.Callback(page, "code-0-1", a.State)
						q.Cookies = b.Header()
						if c := b.Take(do(w.Sut, w, q)); c != nil {
							r.Count("late_sessions", 1)
							q = page
							q.Cookies = b.Header()
							do(w.Sut, w, q)
						}
					}
				}
				r.Case(fmt.Sprint("late ", round, " ", i), true)
			})
		}

		// ---- and afterwards everything still works
		for i := 0; i < nsv; i++ {
			jwtCfg(i)
			oidcCfg(i, 0)
			pol(i, 0)
		}
		w.SyncAll()
		for i := 0; i < nsv && w.Sut.Alive(); i++ {
			sv := fmt.Sprint("svc", i)
			ok := w.Eventually(func() bool {
				return w.Do(vh.Bearer("n", sv, "/api/z", keys[0].Sign(vh.Claims{"exp": now() + 60, "scope": "a", "list": "x"}), keys[1].Sign(vh.Claims{"exp": now() + 60, "n": vh.M{"m": 1}}))).Allowed()
			})
			ok2 := w.Eventually(func() bool {
				b := vh.NewBrowser()
				page := vh.Get("n", sv, "/web/z")
				a, err := vh.ParseLogin(w.Visit(b, page))
				if err != nil {
					return false
				}
				w.Visit(b, vh.Callback(page, fmt.Sprintf("code-%d-9", i), a.State))
				return w.Visit(b, page).Allowed()
			})
			r.Count("settled", 1)
			if !ok || !ok2 {
				if w.CheckAlive("settling") {
					r.Violation("after concurrent traffic ended the adapter no longer works", vh.M{"api": ok, "login": ok2, "service": sv})
				}
			}
		}
		w.CheckAlive("serving concurrent traffic")
	}
	main()

	// ---- cookie keys arriving while logins and callbacks run, and several instances creating them
	for round := 0; round < r.Pick(3, 12); round++ {
		func() {
			w := vh.NewWorld(r, vh.SutOpts{Env: env})
			suts = append(suts, w.Sut)
			defer w.Close()
			w.Sut.Stop()
			t := w.IdP.Tenant("a")
			t.SetKeys(keys...)
			t.Override("token", func(rw http.ResponseWriter, _ *http.Request) {
				rw.Write(vh.TokenJSON(vh.Tokens{Access: keys[0].Sign(vh.BaseClaims("u").With("aud", "c")), ID: keys[0].Sign(vh.BaseClaims("u"))}))
			})
			w.Kube.Apply(vh.OidcConfigs, "n", "o", vh.M{"clientId": "c", "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
			w.Kube.Apply(vh.Policies, "n", "p", vh.Spec("svc", vh.PathEntry("oidc", "", "/", "", "o", "", nil)))
			if round%2 == 1 {
				w.Kube.DeleteSecret("istio-system", "appidentityandaccessadapter-cookie-sig-enc-keys")
			}
			var down int32 = 1
			w.Kube.SetFault(func(q *http.Request) int {
				if atomic.LoadInt32(&down) == 1 && strings.Contains(q.URL.Path, "/secrets") {
					return 500
				}
				return 0
			})
			w.StartAdapter()
			suts = append(suts, w.Sut)
			page := vh.Get("n", "svc", "/x")
			w.Eventually(func() bool { return !w.Do(page).Allowed() })
			par(24, 24, func(i int) {
				if i == 12 {
					atomic.StoreInt32(&down, 0)
				}
				b := vh.NewBrowser()
				for k := 0; k < 6; k++ {
					resp := do(w.Sut, w, page)
					a, err := vh.ParseLogin(resp)
					if err != nil {
						continue
					}
					b.Take(resp)
					q := vh.Callback(page, "c", a.State)
					q.Cookies = b.Header()
					b.Take(do(w.Sut, w, q))
					q = page
					q.Cookies = b.Header()
					if do(w.Sut, w, q).Allowed() {
						r.Count("key_recovery_sessions", 1)
					}
				}
				r.Case(fmt.Sprint("keys ", round, " ", i), true)
			})
			w.CheckAlive("recovering from missing cookie keys")
		}()
	}
	// ---- instances starting with everything already there and requests at once: what is set up on first use
	func() {
		w := vh.NewWorld(r, vh.SutOpts{Env: env})
		suts = append(suts, w.Sut)
		defer w.Close()
		t := w.IdP.Tenant("a")
		t.SetKeys(keys...)
		t.Override("token", func(rw http.ResponseWriter, _ *http.Request) {
			rw.Write(vh.TokenJSON(vh.Tokens{Access: keys[0].Sign(vh.BaseClaims("u").With("aud", "c")), ID: keys[0].Sign(vh.BaseClaims("u")), Refresh: "r"}))
		})
		for i := 0; i < 4; i++ {
			n := fmt.Sprint("r", i)
			w.Kube.SetSecret("n", n, map[string]string{"k": "s"})
			w.Kube.Apply(vh.JwtConfigs, "n", n, vh.M{"jwksUrl": t.JwksURL()})
			w.Kube.Apply(vh.OidcConfigs, "n", n, vh.M{"clientId": "c", "clientSecretRef": vh.M{"name": n, "key": "k"}, "discoveryUrl": t.DiscoveryURL()})
			w.Kube.Apply(vh.Policies, "n", n, vh.Spec(n, vh.PathEntry("oidc", "", "/w", "", n, "", []vh.M{vh.Rule("sub", "", "id_token", "u")}),
				vh.PathEntry("jwt", "", "/j", "", n, "", []vh.M{vh.Rule("sub", "", "", "u")})))
		}
		t.Userinfo("opaque", 200)
		tok := keys[1].Sign(vh.BaseClaims("u"))
		for round := 0; round < r.Pick(6, 30) && !r.TooMany(); round++ {
			w.Sut.Stop()
			w.StartAdapter()
			suts = append(suts, w.Sut)
			par(32, 32, func(i int) {
				svc := fmt.Sprint("r", i%4)
				from := time.Now()
				for k := 0; k < 5 && w.Sut.Alive(); k++ {
					if k == 4 && time.Since(from) < 1500*time.Millisecond {
						k = 0 // resources are still being read
						time.Sleep(5 * time.Millisecond)
					}
					switch i / 4 % 4 {
					case 0:
						if do(w.Sut, w, vh.Bearer("n", svc, "/j/x", tok)).Allowed() {
							r.Count("start_api", 1)
						}
					case 1: // no key, no token, no such service
						do(w.Sut, w, vh.Bearer("n", svc, "/j/x", (&vh.Key{Kid: "none", Priv: keys[0].Priv}).Sign(vh.BaseClaims("u"))))
						do(w.Sut, w, vh.Get("n", svc, "/j/x"))
						do(w.Sut, w, vh.Get("n", "nosuch", "/j/x"))
					default:
						page := vh.Get("n", svc, "/w/x")
						resp := do(w.Sut, w, page)
						a, err := vh.ParseLogin(resp)
						if err != nil {
							continue
						}
						b := vh.NewBrowser()
						b.Take(resp)
						q := vh.Callback(page, "c", a.State)
						q.Cookies = b.Header()
						b.Take(do(w.Sut, w, q))
						q = page
						q.Cookies = b.Header()
						if do(w.Sut, w, q).Allowed() {
							r.Count("start_sessions", 1)
						}
						q = vh.Logout(page)
						q.Cookies = b.Header()
						do(w.Sut, w, q)
					}
				}
				r.Case(fmt.Sprint("start ", round, " ", i), true)
			})
			r.Count("starts", 1)
			if !w.CheckAlive("serving requests at its start") {
				return
			}
		}
	}()
	scan()
	r.Floor("requests", 5000)
	r.Floor("starts", 6)
	r.Floor("start_sessions", 20)
	r.Floor("changes", 300)
	r.Floor("refreshes", 30)
	r.Floor("sessions", 100)
	r.Floor("late_sessions", 20)
	r.Floor("key_recovery_sessions", 20)
	r.Finish()
}
