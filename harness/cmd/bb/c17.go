package main

import (
	"fmt"
	"math/rand"
	"net/url"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/vh"
)

func init() { checks["C17"] = c17 }

// c17ns is what exists in one namespace.
type c17ns struct {
	name  string
	still bool
	t     *vh.Tenant
	key   *vh.Key

	pols    map[string]map[string]c17ref // policy -> service -> what protects it
	jwt     map[string]bool
	oidc    map[string]c17oidc
	secrets map[string]string // secret name -> value under key "k"
	n       int
	hist    []string
}

type c17ref struct {
	typ, config string
}

type c17oidc struct {
	client, plain, ref, effective string
	post                          bool
}

var (
	c17spaces  = []string{"a", "b", "a-b", "a.b", "ab", "b-c", "ns", "default", "ns-a", "ns.a"}
	c17svcs    = []string{"c", "b-c", "b.c", "bc", "a", "svc", "svc.ns", "a-c"}
	c17configs = []string{"c", "b-c", "b.c", "bc", "cfg", "a"}
	c17secrets = []string{"c", "b-c", "sec"}
	c17pols    = []string{"c", "b-c", "pol"}
)

func c17() {
	r := vh.NewReport("C17", "cases are requests to services in namespaces whose resources have equal or confusable names, while others' are created, changed and deleted; each is judged by the resources of its own namespace alone; distinct by namespace, service, history length and kind of request")
	r.Assumptions = []string{"a namespace's policies name each service at most once", "client ids differ between namespaces"}
	vh.PreKeys(len(c17spaces)+2, 1024)
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	w.IdP.KeepLog = false
	rnd := r.Rand("c17")

	// what the token endpoints were given
	type cred struct{ tenant, id, secret, how string }
	var cm sync.Mutex
	creds := map[string]cred{} // by code
	w.IdP.Monitor = func(h *vh.HReq) {
		if h.Endpoint != "token" {
			return
		}
		c := cred{tenant: h.Tenant}
		if h.Basic != nil {
			id, _ := url.QueryUnescape(h.Basic[0])
			se, _ := url.QueryUnescape(h.Basic[1])
			c.id, c.secret, c.how = id, se, "basic"
		} else {
			c.id, c.secret, c.how = h.Form.Get("client_id"), h.Form.Get("client_secret"), "post"
		}
		cm.Lock()
		creds[h.Form.Get("code")] = c
		cm.Unlock()
	}

	var all []*c17ns
	for i, n := range c17spaces {
		t := w.IdP.Tenant(fmt.Sprint("t", i))
		k := vh.NewKeyE("k1", 1024, 65537)
		t.SetKeys(k)
		all = append(all, &c17ns{name: n, still: i%3 == 0, t: t, key: k, pols: map[string]map[string]c17ref{}, jwt: map[string]bool{},
			oidc: map[string]c17oidc{}, secrets: map[string]string{}})
	}
	tokens := map[string]string{}
	for _, m := range all {
		tokens[m.name] = m.key.Sign(vh.BaseClaims("u").With("ns", m.name))
	}
	pick := func(rnd *rand.Rand, l []string) string { return l[rnd.Intn(len(l))] }
	// service that no other policy of the namespace names
	freeSvc := func(m *c17ns, pol, s string) bool {
		for p, x := range m.pols {
			if _, ok := x[s]; ok && p != pol {
				return false
			}
		}
		return true
	}
	step := func(m *c17ns) {
		m.n++
		switch rnd.Intn(12) {
		case 0, 1, 2, 3:
			p := pick(rnd, c17pols)
			refs := map[string]c17ref{}
			var targets []vh.M
			for i := 1 + rnd.Intn(3); i > 0; i-- {
				s := pick(rnd, c17svcs)
				if _, dup := refs[s]; dup || !freeSvc(m, p, s) {
					continue
				}
				ref := c17ref{[]string{"jwt", "oidc"}[rnd.Intn(2)], pick(rnd, c17configs)}
				if rnd.Intn(6) == 0 { // no resource has such a name
					ref.config = pick(rnd, c17spaces) + pick(rnd, []string{"/", "/", ":"}) + ref.config
				}
				refs[s] = ref
				var rules []vh.M
				if ref.typ == "oidc" {
					rules = []vh.M{vh.Rule("ns", "ANY", "access_token", m.name)}
				}
				targets = append(targets, vh.M{"serviceName": s, "paths": []vh.M{vh.PathEntry(ref.typ, "", "/", "", ref.config, "", rules)}})
			}
			if targets == nil {
				targets = []vh.M{}
			}
			m.pols[p] = refs
			w.Kube.Apply(vh.Policies, m.name, p, vh.M{"targets": targets})
			m.hist = append(m.hist, fmt.Sprintf("apply policy %s %v", p, refs))
		case 4:
			p := pick(rnd, c17pols)
			delete(m.pols, p)
			w.Kube.Delete(vh.Policies, m.name, p)
			m.hist = append(m.hist, "delete policy "+p)
		case 5, 6:
			c := pick(rnd, c17configs)
			m.jwt[c] = true
			w.Kube.Apply(vh.JwtConfigs, m.name, c, vh.M{"jwksUrl": m.t.JwksURL()})
			m.hist = append(m.hist, "apply JWT config "+c)
		case 7:
			c := pick(rnd, c17configs)
			delete(m.jwt, c)
			w.Kube.Delete(vh.JwtConfigs, m.name, c)
			m.hist = append(m.hist, "delete JWT config "+c)
		case 8, 9:
			c := pick(rnd, c17configs)
			o := c17oidc{client: fmt.Sprintf("id-%s-%s-%d", m.name, c, rnd.Intn(2)), plain: fmt.Sprintf("plain %s %s %d", m.name, c, m.n), post: rnd.Intn(2) == 0}
			spec := vh.M{"clientId": o.client, "clientSecret": o.plain, "discoveryUrl": m.t.DiscoveryURL()}
			o.effective = o.plain
			if o.post {
				spec["authMethod"] = "client_secret_post"
			}
			if rnd.Intn(3) > 0 {
				o.ref = pick(rnd, c17secrets)
				if rnd.Intn(6) == 0 {
					o.ref = pick(rnd, c17spaces) + "/" + o.ref
				}
				spec["clientSecretRef"] = vh.M{"name": o.ref, "key": "k"}
				if v := m.secrets[o.ref]; v != "" {
					o.effective = v
				}
			}
			m.oidc[c] = o
			w.Kube.Apply(vh.OidcConfigs, m.name, c, spec)
			m.hist = append(m.hist, fmt.Sprintf("apply OIDC config %s %+v", c, o))
		case 10:
			c := pick(rnd, c17configs)
			delete(m.oidc, c)
			w.Kube.Delete(vh.OidcConfigs, m.name, c)
			m.hist = append(m.hist, "delete OIDC config "+c)
		default: // secrets only count for configurations applied later
			s := pick(rnd, c17secrets)
			w.SyncOidc()
			if rnd.Intn(3) == 0 {
				delete(m.secrets, s)
				w.Kube.DeleteSecret(m.name, s)
				m.hist = append(m.hist, "delete secret "+s)
			} else {
				m.secrets[s] = fmt.Sprintf("secret of %s %s %d", m.name, s, m.n)
				w.Kube.SetSecret(m.name, s, map[string]string{"k": m.secrets[s], "other": "x"})
				m.hist = append(m.hist, "set secret "+s)
			}
		}
	}

	// probe judges one service; other tokens come from the other namespaces.
	probe := func(m *c17ns, svc string, full bool, others []*c17ns) string {
		var ref *c17ref
		for _, refs := range m.pols {
			if x, ok := refs[svc]; ok {
				x := x
				ref = &x
			}
		}
		page := vh.Get(m.name, svc, "/x")
		bare := w.Do(page)
		switch {
		case ref == nil:
			r.Count("open", 1)
			if !bare.Allowed() {
				return "no policy of its namespace names it, but: " + bare.String()
			}
			return ""
		case bare.Allowed():
			return fmt.Sprintf("protected by %+v, but let through", *ref)
		case ref.typ == "jwt":
			own := w.Do(vh.Bearer(m.name, svc, "/x", tokens[m.name]))
			if own.Allowed() != m.jwt[ref.config] {
				return fmt.Sprintf("JWT configuration %s exists=%v, a token of its IdP was answered %s", ref.config, m.jwt[ref.config], own)
			}
			if !m.jwt[ref.config] {
				r.Count("missing_config", 1)
			}
			if i := strings.IndexAny(ref.config, "/:"); i > 0 {
				others = append([]*c17ns{}, others...)
				for _, o := range all {
					if o.name == ref.config[:i] {
						others = append(others, o)
					}
				}
				r.Count("qualified_names", 1)
			}
			for _, o := range others {
				if o == m {
					continue
				}
				r.Count("foreign_tokens", 1)
				if resp := w.Do(vh.Bearer(m.name, svc, "/x", tokens[o.name])); resp.Allowed() {
					return "a token of the IdP of namespace " + o.name + " was accepted"
				}
			}
			r.Count("jwt", 1)
			return ""
		}
		o, ok := m.oidc[ref.config]
		a, err := vh.ParseLogin(bare)
		if !ok {
			r.Count("missing_config", 1)
			if err == nil {
				return fmt.Sprintf("OIDC configuration %s does not exist, but a login was started at %s", ref.config, a.URL)
			}
			return ""
		}
		if err != nil {
			return fmt.Sprintf("OIDC configuration %s exists, but no login was started: %v", ref.config, err)
		}
		if got := a.URL.Scheme + "://" + a.URL.Host + a.URL.Path; got != m.t.AuthURL() || a.Q.Get("client_id") != o.client {
			return fmt.Sprintf("a login was started at %s for client %q; its own are %s and %q", got, a.Q.Get("client_id"), m.t.AuthURL(), o.client)
		}
		r.Count("oidc", 1)
		if !full {
			return ""
		}
		b := vh.NewBrowser()
		b.Take(bare)
		code := w.NextCode()
		m.t.Code(code, vh.Give(vh.Tokens{Access: tokens[m.name], ID: tokens[m.name]}))
		q := vh.Callback(page, code, a.State)
		q.Cookies = b.Header()
		resp := w.Do(q)
		cm.Lock()
		c, seen := creds[code]
		delete(creds, code)
		cm.Unlock()
		how := "basic"
		if o.post {
			how = "post"
		}
		if want := (cred{m.t.Name, o.client, o.effective, how}); !seen || c != want {
			return fmt.Sprintf("the token request carried %+v instead of %+v (asked: %v)", c, want, seen)
		}
		if _, sc, ok := resp.Redirect(); !ok || vh.ParseSetCookie(sc) == nil || isLoginResp(resp) {
			return "a login with its own IdP's tokens gave no session: " + resp.String()
		}
		b.Take(resp)
		if resp := w.Visit(b, page); !resp.Allowed() {
			return "its own session was not accepted: " + resp.String()
		}
		r.Count("credentials", 1)
		return ""
	}
	report := func(m *c17ns, svc, msg, when string) {
		h := vh.M{"own_history": m.hist}
		for _, o := range all {
			if o != m {
				x := o.hist
				if len(x) > 12 {
					x = x[len(x)-12:]
				}
				h["history of "+o.name] = append([]string{}, x...)
			}
		}
		r.Violation(fmt.Sprintf("service %s in namespace %s (%s): %s", svc, m.name, when, msg), h)
	}

	// ---- set up
	for _, m := range all {
		for i := 0; i < 25; i++ {
			step(m)
		}
	}
	w.SyncAll()
	w.SyncPolicies()
	var stills, noisy []*c17ns
	for _, m := range all {
		if m.still {
			stills = append(stills, m)
		} else {
			noisy = append(noisy, m)
		}
	}
	rounds := r.Pick(40, 600)
	var stop int32
	var wg sync.WaitGroup
	for round := 0; round < rounds && !r.TooMany(); round++ {
		if round > 0 {
			// the still namespaces are probed all the while
			atomic.StoreInt32(&stop, 0)
			for i := 0; i < 4; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					prnd := rand.New(rand.NewSource(int64(round*10 + i)))
					for k := 0; atomic.LoadInt32(&stop) == 0 && !r.TooMany(); k++ {
						m := stills[prnd.Intn(len(stills))]
						svc := c17svcs[prnd.Intn(len(c17svcs))]
						r.Count("probes_during_changes", 1)
						if msg := probe(m, svc, k%4 == 0, []*c17ns{all[prnd.Intn(len(all))]}); msg != "" {
							report(m, svc, msg, "untouched, while other namespaces change")
							return
						}
					}
				}(i)
			}
			for i := 0; i < 25; i++ {
				step(noisy[rnd.Intn(len(noisy))])
				r.Count("changes", 1)
				if i%5 == 0 {
					time.Sleep(time.Millisecond)
				}
			}
			w.SyncAll()
			w.SyncPolicies()
			atomic.StoreInt32(&stop, 1)
			wg.Wait()
		}
		type job struct {
			m   *c17ns
			svc string
		}
		var jobs []job
		for _, m := range all {
			for _, s := range c17svcs {
				jobs = append(jobs, job{m, s})
			}
			// names that merely resemble a service's or a namespace's
			for i := 0; i < 6; i++ {
				x, s := m, pick(rnd, c17svcs)
				if i%3 == 0 {
					x = &c17ns{name: alike(rnd, m.name), t: m.t, key: m.key}
					for _, o := range all {
						if o.name == x.name {
							x = o
						}
					}
				} else {
					s = alike(rnd, s)
				}
				r.Count("resembling_names", 1)
				jobs = append(jobs, job{x, s})
			}
		}
		par(len(jobs), 8, func(i int) {
			if r.TooMany() {
				return
			}
			j := jobs[i]
			last := ""
			if n := len(j.m.hist); n > 0 {
				last = j.m.hist[n-1]
			}
			r.Case(fmt.Sprint(j.m.name, "|", j.svc, "|", len(j.m.hist), "|", last), true)
			others := []*c17ns{all[(i+round)%len(all)], all[(i+round+3)%len(all)]}
			msg := probe(j.m, j.svc, (i+round)%3 == 0, others)
			if msg != "" {
				// (a discovery or key fetch may have failed in passing)
				vh.WaitFor(vh.Settle, func() bool { msg = probe(j.m, j.svc, true, others); return msg == "" })
			}
			if msg != "" {
				report(j.m, j.svc, msg, "settled")
			}
		})
		w.CheckAlive("serving several namespaces")
	}
	// ---- secrets were only read where a configuration names them
	names := map[string]bool{}
	for _, s := range c17secrets {
		names[s] = true
	}
	for _, q := range w.Kube.Log() {
		if !strings.Contains(q.Path, "/secrets") {
			continue
		}
		p := strings.Split(strings.Trim(q.Path, "/"), "/") // api v1 namespaces NS secrets NAME
		r.Count("secret_reads", 1)
		if q.Method != "GET" || len(p) != 6 {
			r.Violation("the adapter sent "+q.Method+" "+q.Path, nil)
			continue
		}
		if p[3] == keyNS && p[5] == keyName {
			continue
		}
		ok := names[p[5]]
		found := false
		for _, m := range all {
			found = found || m.name == p[3]
		}
		if !ok || !found {
			r.Violation("the adapter read the secret "+p[3]+"/"+p[5]+", which no configuration of that namespace names", nil)
		}
	}
	r.Sample("namespaces", c17spaces)
	r.Sample("history of one namespace", all[1].hist[:10])
	for _, c := range []string{"open", "jwt", "oidc"} {
		r.Floor(c, rounds*10)
	}
	r.Floor("missing_config", rounds*5)
	r.Floor("foreign_tokens", rounds*10)
	r.Floor("qualified_names", rounds)
	r.Floor("credentials", rounds*2)
	r.Floor("probes_during_changes", rounds*20)
	r.Floor("secret_reads", 50)
	r.Finish()
}
