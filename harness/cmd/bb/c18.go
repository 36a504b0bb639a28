package main

import (
	"fmt"
	"io"
	"net"
	"net/http"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/harness/vh"
)

func init() { checks["C18"] = c18 }

// usage is what a process holds.
type usage struct {
	Fds, Threads, Goroutines, Conns int
}

func (u usage) over(v usage, allow int) string {
	switch {
	case u.Fds > v.Fds+allow:
		return fmt.Sprintf("%d file descriptors, after %d", u.Fds, v.Fds)
	case u.Goroutines > v.Goroutines+allow:
		return fmt.Sprintf("%d goroutines, after %d", u.Goroutines, v.Goroutines)
	case u.Conns > v.Conns+allow:
		return fmt.Sprintf("%d connections to the IdP, after %d", u.Conns, v.Conns)
	case u.Threads > v.Threads+3*allow: // the runtime keeps threads it once needed
		return fmt.Sprintf("%d threads, after %d", u.Threads, v.Threads)
	}
	return ""
}

func usageOf(w *vh.World, sock string) (u usage, err error) {
	es, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", w.Sut.Pid()))
	if err != nil {
		return u, err
	}
	u.Fds = len(es)
	ts, err := os.ReadDir(fmt.Sprintf("/proc/%d/task", w.Sut.Pid()))
	if err != nil {
		return u, err
	}
	u.Threads = len(ts)
	_, _, g, err := probeStat(sock)
	u.Goroutines = int(g)
	u.Conns = w.IdP.Conns()
	return
}

// c18kind prepares a world and returns the request to repeat (by number) and what is expected of each answer.
type c18kind struct {
	name string
	slow bool // every request takes the adapter's own time limit
	prep func(w *vh.World, k *c18env) func(i int) string
}

type c18env struct {
	r   *vh.Report
	t   *vh.Tenant
	key *vh.Key
	tk  vh.Tokens
}

func c18() {
	r := vh.NewReport("C18", "cases are rounds of requests of one kind against a process of its own, after which its file descriptors, goroutines, threads and connections to the IdP are compared with those after the first round; distinct by kind and round; non-trivial when the IdP was asked or failed")
	r.Assumptions = []string{"goroutines are counted by the Go runtime of the adapter's process, through a build overlay", "connections kept for reuse count towards the allowance"}
	vh.PreKeys(4, 1024)
	const allow = 40
	n := r.Pick(450, 6000)
	rounds := r.Pick(2, 5)

	page := vh.Get("n", "web", "/p")
	drop := func(w http.ResponseWriter, q *http.Request) { dropConn(w, "") }
	status := func(code int, body string) http.HandlerFunc {
		return func(w http.ResponseWriter, q *http.Request) {
			io.Copy(io.Discard, q.Body)
			w.WriteHeader(code)
			io.WriteString(w, body)
		}
	}
	big := strings.Repeat("x", 200<<10)
	hang := func(w http.ResponseWriter, q *http.Request) { <-q.Context().Done() }
	half := func(w http.ResponseWriter, q *http.Request) {
		w.Header().Set("Content-Length", "1000")
		io.WriteString(w, `{"a":`)
		w.(http.Flusher).Flush()
		<-q.Context().Done()
	}
	short := func(w http.ResponseWriter, q *http.Request) {
		c, _, err := w.(http.Hijacker).Hijack()
		if err == nil {
			fmt.Fprintf(c, "HTTP/1.1 200 OK\r\nContent-Length: 500\r\n\r\n{\"a\":1")
			c.Close()
		}
	}
	type fail struct {
		name string
		slow bool
		h    http.HandlerFunc
	}
	fails := []fail{
		{"500", false, status(500, `{"error":"server_error"}`)}, {"500 with a long page", false, status(500, "<html>"+big)}, {"400", false, status(400, `{"error":"invalid_grant"}`)},
		{"503 empty", false, status(503, "")}, {"200 garbage", false, status(200, "]]]"+big)}, {"200 wrong type", false, status(200, `{"keys":"x","access_token":5}`)}, {"200 empty", false, status(200, "")},
		{"200 {} and more", false, status(200, `{}`+big)}, {"drop", false, drop}, {"short", false, short}, {"hang", true, hang}, {"half", true, half},
	}
	login := func(w *vh.World, k *c18env) (*vh.AuthzRequest, *vh.Browser, string) {
		b := vh.NewBrowser()
		a, err := vh.ParseLogin(w.Visit(b, page))
		if err != nil {
			return nil, nil, err.Error()
		}
		return a, b, ""
	}
	session := func(w *vh.World, g vh.Grant, k *c18env) *vh.Browser {
		b := vh.NewBrowser()
		if _, _, err := w.Login(b, page, k.t, g); err != nil {
			r.Inconclusive("no session: " + err.Error())
		}
		return b
	}
	must := func(ok bool, resp *vh.Resp) string {
		if !ok {
			return resp.String()
		}
		return ""
	}
	kinds := []c18kind{
		{"accepted API requests", false, func(w *vh.World, k *c18env) func(i int) string {
			tok := k.key.Sign(vh.BaseClaims("u"))
			return func(i int) string {
				resp := w.Do(vh.Bearer("n", "api", fmt.Sprint("/", i), tok, tok))
				return must(resp.Allowed(), resp)
			}
		}},
		{"rejected and unprotected requests", false, func(w *vh.World, k *c18env) func(i int) string {
			return func(i int) string {
				switch i % 3 {
				case 0:
					resp := w.Do(vh.Bearer("n", "api", "/", fmt.Sprint("x.y.", i)))
					return must(!resp.Allowed(), resp)
				case 1:
					resp := w.Do(vh.Get("n", "open", "/"))
					return must(resp.Allowed(), resp)
				}
				q := vh.Get("n", "api", "/")
				q.Raw = []byte(fmt.Sprint("garbage", i))
				w.Do(q)
				return ""
			}
		}},
		{"logins begun", false, func(w *vh.World, k *c18env) func(i int) string {
			return func(i int) string { _, _, e := login(w, k); return e }
		}},
		{"logins, visits and logouts", false, func(w *vh.World, k *c18env) func(i int) string {
			return func(i int) string {
				b := vh.NewBrowser()
				if _, _, err := w.Login(b, page, k.t, vh.Give(k.tk)); err != nil {
					return err.Error()
				}
				resp := w.Visit(b, page)
				if !resp.Allowed() {
					return resp.String()
				}
				resp = w.Visit(b, vh.Logout(page))
				_, _, ok := resp.Redirect()
				return must(ok, resp)
			}
		}},
		{"refreshes", false, func(w *vh.World, k *c18env) func(i int) string {
			// every session is used once a round, by which time its tokens have expired
			const life = 5 * time.Second
			fresh := func() vh.Tokens {
				return vh.Tokens{Access: k.key.Sign(vh.BaseClaims("u").With("exp", time.Now().Add(life).Unix()).With("kind", "a")), ID: k.tk.ID, Refresh: "r"}
			}
			k.t.Override("token", func(rw http.ResponseWriter, q *http.Request) {
				io.Copy(io.Discard, q.Body)
				rw.Write(vh.TokenJSON(fresh()))
			})
			bs := make([]*vh.Browser, n)
			par(n, 24, func(i int) { bs[i] = session(w, vh.Give(k.tk), k) })
			pause := make([]sync.Once, rounds)
			return func(i int) string {
				pause[i/n].Do(func() { time.Sleep(life + time.Second) })
				resp := w.Visit(bs[i%n], page)
				if resp.Allowed() && resp.Cookie != "" {
					r.Count("refreshed", 1)
				}
				return ""
			}
		}},
		{"opaque tokens", false, func(w *vh.World, k *c18env) func(i int) string {
			k.t.Userinfo("opaque", 200)
			b := session(w, vh.Give(vh.Tokens{Access: "opaque", ID: k.tk.ID}), k)
			return func(i int) string { resp := w.Visit(b, page); return must(resp.Allowed(), resp) }
		}},
		{"connections made and dropped", false, func(w *vh.World, k *c18env) func(i int) string {
			return func(i int) string {
				if i%2 == 0 {
					c, err := net.DialTimeout("tcp", fmt.Sprintf("127.0.0.1:%d", w.Sut.Port), 10*time.Second)
					if err == nil {
						c.Write([]byte("PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"))
						c.Close()
					}
					return ""
				}
				c, err := w.Sut.Dial()
				if err != nil {
					return err.Error()
				}
				vh.DoConn(c, vh.Get("n", "api", "/"), 30*time.Second)
				c.Close()
				return ""
			}
		}},
	}
	// changes of configurations and policies, each followed by a request
	churn := func(f http.HandlerFunc) func(w *vh.World, k *c18env) func(i int) string {
		return func(w *vh.World, k *c18env) func(i int) string {
			var mu sync.Mutex
			t := w.IdP.Tenant("churn")
			t.SetKeys(k.key)
			if f != nil {
				t.Override("disco", f)
				t.Override("jwks", f)
			}
			tok := k.key.Sign(vh.BaseClaims("u"))
			return func(i int) string {
				name := fmt.Sprint("c", i/4%37)
				switch i % 4 {
				case 0:
					w.Kube.Apply(vh.JwtConfigs, "n", name, vh.M{"jwksUrl": t.JwksURL() + fmt.Sprint("?v=", i)})
				case 1:
					w.Kube.Apply(vh.OidcConfigs, "n", name, vh.M{"clientId": fmt.Sprint("c", i), "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
				case 2:
					w.Kube.Apply(vh.Policies, "n", name, vh.Spec("svc-"+name, vh.PathEntry("jwt", "", fmt.Sprint("/", i), "", name, "", nil), vh.PathEntry("oidc", "", fmt.Sprint("/o", i), "", name, "", nil)))
				case 3:
					w.Kube.Delete([]string{vh.JwtConfigs, vh.OidcConfigs, vh.Policies}[i/4%3], "n", name)
				}
				r.Count("changes", 1)
				if i%150 == 149 {
					mu.Lock()
					w.SyncAll()
					mu.Unlock()
				}
				resp := w.Do(vh.Bearer("n", "api", fmt.Sprint("/", i), tok))
				return must(resp.Allowed(), resp)
			}
		}
	}
	kinds = append(kinds, c18kind{"changes of configurations: all well", false, churn(nil)})
	for _, f := range fails {
		switch f.name {
		case "500 with a long page", "200 garbage", "drop", "short":
			kinds = append(kinds, c18kind{"changes of configurations: " + f.name, false, churn(f.h)})
		}
	}
	for _, f := range fails {
		f := f
		kinds = append(kinds,
			c18kind{"callbacks, token endpoint: " + f.name, f.slow, func(w *vh.World, k *c18env) func(i int) string {
				k.t.Override("token", f.h)
				return func(i int) string {
					a, b, e := login(w, k)
					if e != "" {
						return e
					}
					resp := w.Visit(b, vh.Callback(page, "c", a.State))
					return must(!resp.Allowed(), resp)
				}
			}},
			c18kind{"refreshes, token endpoint: " + f.name, f.slow, func(w *vh.World, k *c18env) func(i int) string {
				b := vh.NewBrowser()
				for life := time.Second; ; life *= 2 {
					exp := time.Now().Add(life + time.Second)
					_, _, err := w.Login(b, page, k.t, vh.Give(vh.Tokens{Access: k.key.Sign(vh.BaseClaims("u").With("exp", exp.Unix())), ID: k.tk.ID, Refresh: "r"}))
					if err == nil {
						time.Sleep(time.Until(exp.Add(500 * time.Millisecond)))
						break
					}
					if life > 20*time.Second {
						r.Inconclusive("no session: " + err.Error())
					}
				}
				k.t.Override("token", f.h)
				return func(i int) string { resp := w.Visit(b.Clone(), page); return must(!resp.Allowed(), resp) }
			}},
			c18kind{"unknown keys, keys endpoint: " + f.name, f.slow, func(w *vh.World, k *c18env) func(i int) string {
				k.t.Override("jwks", f.h)
				other := vh.NewKeyE("other", 1024, 65537)
				return func(i int) string {
					o := &vh.Key{Kid: fmt.Sprint("unknown", i), Priv: other.Priv}
					resp := w.Do(vh.Bearer("n", "api", "/", o.Sign(vh.BaseClaims("u"))))
					return must(!resp.Allowed(), resp)
				}
			}},
			c18kind{"opaque tokens, userinfo endpoint: " + f.name, f.slow, func(w *vh.World, k *c18env) func(i int) string {
				k.t.Userinfo("opaque", 200)
				var bs []*vh.Browser
				total := n * rounds
				if f.slow {
					total = 120 * rounds
				}
				for i := 0; i < total; i++ {
					bs = append(bs, session(w, vh.Give(vh.Tokens{Access: "opaque", ID: k.tk.ID}), k))
				}
				k.t.Override("userinfo", f.h)
				return func(i int) string {
					if i >= len(bs) {
						return ""
					}
					// (any 200 is the IdP's word)
					w.Visit(bs[i], page)
					return ""
				}
			}},
			c18kind{"requests, discovery: " + f.name, f.slow, func(w *vh.World, k *c18env) func(i int) string {
				t := w.IdP.Tenant("dead")
				t.Override("disco", f.h)
				w.Kube.Apply(vh.OidcConfigs, "n", "dead", vh.M{"clientId": "d", "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
				w.SyncOidc()
				return func(i int) string {
					q := page
					q.Svc = "dead"
					resp := w.Do(q)
					return must(!resp.Allowed(), resp)
				}
			}})
	}
	par(len(kinds), 8, func(ki int) {
		if r.TooMany() {
			return
		}
		kd := kinds[ki]
		sock := filepath.Join(vh.Scratch("ent"), "s")
		w := vh.NewWorld(r, vh.SutOpts{Env: []string{"VH_ENTROPY=" + sock}})
		defer w.Close()
		w.IdP.KeepLog = false
		k := &c18env{r: r, t: w.IdP.Tenant("a"), key: vh.NewKeyE("k1", 1024, 65537)}
		k.t.SetKeys(k.key)
		k.tk = vh.Tokens{Access: k.key.Sign(vh.BaseClaims("u").With("kind", "a")), ID: k.key.Sign(vh.BaseClaims("u").With("kind", "i"))}
		w.Kube.Apply(vh.JwtConfigs, "n", "j", vh.M{"jwksUrl": k.t.JwksURL()})
		w.Kube.Apply(vh.OidcConfigs, "n", "o", vh.M{"clientId": "c", "clientSecret": "s", "discoveryUrl": k.t.DiscoveryURL()})
		w.Kube.Apply(vh.Policies, "n", "p", vh.M{"targets": []vh.M{
			{"serviceName": "web", "paths": []vh.M{vh.PathEntry("oidc", "", "/", "", "o", "", []vh.M{vh.Rule("kind", "ALL", "id_token", "i")})}},
			{"serviceName": "dead", "paths": []vh.M{vh.PathEntry("oidc", "", "/", "", "dead", "", nil)}},
			{"serviceName": "api", "paths": []vh.M{vh.PathEntry("jwt", "", "/", "", "j", "", nil)}}}})
		w.SyncAll()
		k.tk.ID = k.key.Sign(vh.BaseClaims("u").With("kind", "i"))
		f := kd.prep(w, k)
		n, workers := n, 24
		if kd.slow {
			n, workers = 120, 120
		} else if strings.HasPrefix(kd.name, "changes") {
			n *= 3
		}
		var base usage
		next := 0
		for round := 0; round <= rounds-1 && !r.TooMany(); round++ {
			from := next
			next += n
			var mu sync.Mutex
			odd := ""
			// while the requests run, what is held must not outgrow the requests being served
			peak, done := make(chan int), make(chan struct{})
			go func() {
				max := 0
				for {
					if es, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", w.Sut.Pid())); err == nil && len(es) > max {
						max = len(es)
					}
					select {
					case <-done:
						peak <- max
						return
					case <-time.After(5 * time.Millisecond):
					}
				}
			}()
			par(n, workers, func(i int) {
				if e := f(from + i); e != "" {
					mu.Lock()
					odd = e
					mu.Unlock()
				}
			})
			close(done)
			top := <-peak
			r.Max("fds_while_serving", top)
			r.Count("requests", n)
			if limit := 60 + 2*workers + allow; top > limit {
				r.Violation(fmt.Sprintf("%s: the adapter held %d file descriptors while serving at most %d requests at a time, %d in all", kd.name, top, workers, next), vh.M{"limit": limit})
				return
			}
			if odd != "" {
				r.Count("unexpected_answers", 1)
				if w.CheckAlive("serving " + kd.name) {
					r.Inconclusive(kd.name + ": unexpected answer: " + trunc(odd, 300))
				}
				return
			}
			r.Case(fmt.Sprint(kd.name, " round ", round), strings.Contains(kd.name, ":") || ki > 2)
			var u usage
			var err error
			if round == 0 {
				// what one round leaves behind, once it has calmed down, but no more than a fixed allowance
				time.Sleep(200 * time.Millisecond)
				base, err = usageOf(w, sock)
				idle := usage{Fds: 60, Threads: 60, Goroutines: 60, Conns: 20}
				u = base
				if err == nil && !vh.WaitFor(20*time.Second, func() bool { u, err = usageOf(w, sock); return err != nil || u.over(idle, allow) == "" }) {
					r.Violation(fmt.Sprintf("%s: the adapter holds %s an ordinary amount, after %d requests", kd.name, u.over(idle, allow), next), u)
					return
				}
				base = u
			} else if !vh.WaitFor(20*time.Second, func() bool { u, err = usageOf(w, sock); return err != nil || u.over(base, allow) == "" }) {
				r.Violation(fmt.Sprintf("%s: the adapter holds %s, %d requests earlier", kd.name, u.over(base, allow), n*round), vh.M{"before": base, "now": u})
				return
			}
			if err != nil {
				if w.CheckAlive("serving " + kd.name) {
					r.Inconclusive("usage: " + err.Error())
				}
				return
			}
			r.Count("measurements", 1)
			r.Max("fds", u.Fds)
			r.Max("goroutines", u.Goroutines)
			r.Max("threads", u.Threads)
			r.Max("idp_connections", u.Conns)
			r.Sample("usage after "+kd.name, u)
		}
	})
	r.Floor("measurements", len(kinds)*rounds)
	r.Floor("requests", len(kinds)*100)
	r.Floor("refreshed", n*rounds/2)
	r.Floor("changes", n*rounds*3*4)
	r.Finish()
}
