package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net/http"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"verif/harness/vh"
)

func init() { checks["C15"] = c15 }

const (
	keyNS   = "istio-system"
	keyName = "appidentityandaccessadapter-cookie-sig-enc-keys"
)

// cluster is one API server with some adapter instances.
type cluster struct {
	r    *vh.Report
	id   string
	kube *vh.Kube
	idp  *vh.IdP
	t    *vh.Tenant
	key  *vh.Key

	mu     sync.Mutex
	faults []string // what was injected
	stored []map[string]string
}

func newCluster(r *vh.Report, id string, key *vh.Key) *cluster {
	c := &cluster{r: r, id: id, kube: vh.NewKube(), idp: vh.NewIdP(), key: key}
	c.idp.KeepLog = false
	c.t = c.idp.Tenant("a")
	c.t.SetKeys(key)
	tk := vh.Tokens{Access: key.Sign(vh.BaseClaims("u").With("kind", "a")), ID: key.Sign(vh.BaseClaims("u").With("kind", "i"))}
	c.t.Override("token", func(rw http.ResponseWriter, _ *http.Request) { rw.Write(vh.TokenJSON(tk)) })
	c.kube.Apply(vh.OidcConfigs, "n", "o", vh.M{"clientId": "c", "clientSecret": "s", "discoveryUrl": c.t.DiscoveryURL()})
	c.kube.Apply(vh.JwtConfigs, "n", "j", vh.M{"jwksUrl": c.t.JwksURL()})
	c.kube.Apply(vh.Policies, "n", "p", vh.M{"targets": []vh.M{
		{"serviceName": "web", "paths": []vh.M{vh.PathEntry("oidc", "", "/", "", "o", "", []vh.M{vh.Rule("kind", "NOT", "access_token", "x")})}},
		{"serviceName": "api", "paths": []vh.M{vh.PathEntry("jwt", "", "/", "", "j", "", nil)}}}})
	return c
}

func (c *cluster) close() { c.kube.Close(); c.idp.Close() }

func (c *cluster) witness() vh.M {
	var l []string
	for _, q := range c.kube.Log() {
		if strings.Contains(q.Path, "/secrets") {
			l = append(l, fmt.Sprintf("%s %s -> %d", q.Method, q.Path, q.Status))
		}
	}
	if len(l) > 60 {
		l = append(l[:60], "...")
	}
	return vh.M{"cluster": c.id, "faults": c.faults, "secret_requests": l, "secret": c.kube.Secret(keyNS, keyName)}
}

// inst starts an instance and waits until it enforces the policies.
func (c *cluster) inst(args []string, env ...string) *vh.Sut {
	s, err := vh.StartSut(c.kube.URL, vh.SutOpts{Args: args, Env: env})
	if err != nil {
		c.r.Violation("an instance does not start: "+trunc(err.Error(), 300), c.witness())
		return nil
	}
	good := vh.Bearer("n", "api", "/x", c.key.Sign(vh.BaseClaims("u")))
	if !vh.WaitFor(60*time.Second, func() bool {
		return !s.DoT(vh.Get("n", "api", "/x"), 20*time.Second).Allowed() && s.DoT(good, 20*time.Second).Allowed()
	}) {
		m := c.witness()
		m["alive"], m["log"] = s.Alive(), trunc(s.Tail(3000), 3000)
		m["without_token"], m["with_token"] = s.Do(vh.Get("n", "api", "/x")).String(), s.Do(good).String()
		c.r.Violation("an instance does not serve API requests while the key secret is in trouble", m)
		s.Stop()
		return nil
	}
	return s
}

var c15page = vh.Get("n", "web", "/x")

type pendingLogin struct {
	a    *vh.AuthzRequest
	b    *vh.Browser
	from string
}

// begin starts a login, which must succeed.
func (c *cluster) begin(s *vh.Sut, where string) *pendingLogin {
	var p *pendingLogin
	var last *vh.Resp
	vh.WaitFor(45*time.Second, func() bool {
		last = s.DoT(c15page, 40*time.Second)
		a, err := vh.ParseLogin(last)
		if err != nil {
			return !s.Alive()
		}
		b := vh.NewBrowser()
		b.Take(last)
		p = &pendingLogin{a, b, where}
		return true
	})
	if p == nil {
		m := c.witness()
		m["answer"] = last.String()
		c.r.Violation("no login can be started at "+where+" though the API server is available", m)
	}
	return p
}

// complete presents the callback, and tells whether a session came of it.
func (c *cluster) complete(s *vh.Sut, p *pendingLogin) (bool, *vh.Resp) {
	q := vh.Callback(c15page, "code", p.a.State)
	q.Cookies = p.b.Header()
	resp := s.Do(q)
	_, sc, ok := resp.Redirect()
	ck := vh.ParseSetCookie(sc)
	return ok && ck != nil && !isLoginResp(resp), resp
}

func (c *cluster) mustComplete(s *vh.Sut, p *pendingLogin, where string) {
	c.r.Case(fmt.Sprintf("%s: login %s to %s %s", c.id, p.from, where, p.a.State), p.from != where)
	c.r.Count("cross_logins", 1)
	// (a process that has just started may not know the configuration yet)
	var resp *vh.Resp
	if !vh.WaitFor(vh.Settle, func() bool {
		var ok bool
		ok, resp = c.complete(s, p)
		return ok
	}) {
		m := c.witness()
		m["answer"] = resp.String()
		c.r.Violation(fmt.Sprintf("a login started at %s does not complete at %s", p.from, where), m)
	}
}

// watchSecret checks what was requested of the key secret and what became of it.
func (c *cluster) watchSecret(existing map[string]string, sizes map[[2]int]bool) {
	now := c.kube.Secret(keyNS, keyName)
	if existing != nil {
		if fmt.Sprint(now) != fmt.Sprint(existing) {
			m := c.witness()
			m["was"] = existing
			c.r.Violation("an existing key secret was changed", m)
		}
	} else if now != nil {
		h, b := now["HASH_KEY"], now["BLOCK_KEY"]
		if !sizes[[2]int{len(h), len(b)}] {
			c.r.Violation(fmt.Sprintf("the key secret was created with keys of %d and %d bytes, which no instance is configured for", len(h), len(b)), c.witness())
		}
		for _, k := range []string{h, b} {
			if len(k) > 0 && strings.Count(k, k[:1]) > len(k)/2 {
				c.r.Violation("the key secret was created with a trivial key", c.witness())
			}
		}
		c.r.Count("created_secrets", 1)
	}
	stored := 0
	for _, q := range c.kube.Log() {
		if !strings.Contains(q.Path, "/secrets") {
			continue
		}
		c.r.Count("secret_requests", 1)
		switch q.Method {
		case "GET":
		case "POST":
			if q.Status == 201 || q.Status == 200 {
				stored++
			}
		default:
			c.r.Violation("the adapter sent "+q.Method+" "+q.Path, c.witness())
		}
		if !strings.HasPrefix(q.Path, "/api/v1/namespaces/"+keyNS+"/secrets") && q.Method != "GET" {
			c.r.Violation("the adapter sent "+q.Method+" "+q.Path, c.witness())
		}
	}
}

func isSecretReq(q *http.Request) bool {
	return strings.Contains(q.URL.Path, "/namespaces/"+keyNS+"/secrets")
}

func randKey(rnd *rand.Rand, n int) string {
	b := make([]byte, n)
	rnd.Read(b)
	return string(b)
}

func c15() {
	r := vh.NewReport("C15", "cases are logins started at one adapter process and completed at another of the same cluster (distinct by cluster history and pair), requests made while the key secret can be neither read nor created, and key secrets created; non-trivial where two processes or a fault are involved")
	r.Assumptions = []string{"nobody but the adapter instances changes the key secret while they run", "an existing secret holds both keys"}
	vh.PreKeys(2, 1024)
	key := vh.NewKeyE("k1", 1024, 65537)
	rnd := r.Rand("c15")
	hs, bs := []int{32, 64}, []int{16, 24, 32}

	var kmu sync.Mutex
	created := map[string]string{}
	var live []*cluster
	noteCreated := func(c *cluster) {
		kmu.Lock()
		defer kmu.Unlock()
		if s := c.kube.Secret(keyNS, keyName); s != nil {
			for _, k := range []string{"HASH_KEY", "BLOCK_KEY"} {
				if was, ok := created[s[k]]; ok && s[k] != "" {
					r.Violation(fmt.Sprintf("two created keys are equal: %s of %s and %s", k, c.id, was), c.witness())
				}
				created[s[k]] = k + " of " + c.id
			}
		}
		if len(live) < 4 {
			live = append(live, c)
		}
	}

	type plan struct {
		n        int // instances
		existing bool
		together bool
		fault    string
		seed     int64
	}
	faults := []string{"none", "none", "get500", "get403", "getdrop", "getstale", "post500", "postdrop", "postlost", "compete", "competelate", "down", "downget", "slow"}
	var plans []plan
	total := r.Pick(42, 420)
	for i := 0; i < total; i++ {
		p := plan{n: 1 + rnd.Intn(3), existing: rnd.Intn(3) == 0, together: rnd.Intn(2) == 0, fault: faults[i%len(faults)], seed: rnd.Int63()}
		if p.fault == "compete" || p.fault == "competelate" {
			p.existing = false
			p.together = true
		}
		plans = append(plans, p)
	}

	par(len(plans), 5, func(i int) {
		if r.TooMany() {
			return
		}
		p := plans[i]
		rnd := rand.New(rand.NewSource(p.seed))
		c := newCluster(r, fmt.Sprintf("cluster %d: %d instances, existing=%v, together=%v, fault %s", i, p.n, p.existing, p.together, p.fault), key)
		defer c.close()
		var existing map[string]string
		if p.existing {
			existing = map[string]string{"HASH_KEY": randKey(rnd, hs[rnd.Intn(2)]), "BLOCK_KEY": randKey(rnd, bs[rnd.Intn(3)])}
			if rnd.Intn(3) == 0 {
				existing["other"] = "untouched"
			}
			c.kube.SetSecret(keyNS, keyName, existing)
		}
		sizes := map[[2]int]bool{}
		argsOf := func() []string {
			h, b := 32, 16
			var a []string
			if rnd.Intn(4) > 0 {
				h = hs[rnd.Intn(2)]
				a = append(a, "--hash-key", fmt.Sprint(h))
			}
			if rnd.Intn(4) > 0 {
				b = bs[rnd.Intn(3)]
				a = append(a, "--block-key", fmt.Sprint(b))
			}
			sizes[[2]int{h, b}] = true
			return a
		}
		// ---- faults
		left := 1 + rnd.Intn(7)
		code := []int{500, 503, 403, 429, -1}[rnd.Intn(5)]
		var fm sync.Mutex
		permanent := false // until switched off
		dec := func() bool {
			fm.Lock()
			defer fm.Unlock()
			if permanent {
				return true
			}
			if left > 0 {
				left--
				r.Count("faults", 1)
				return true
			}
			return false
		}
		set := func(method string, code int) {
			c.kube.SetFault(func(q *http.Request) int {
				if isSecretReq(q) && (method == "" || q.Method == method) && dec() {
					return code
				}
				return 0
			})
		}
		switch p.fault {
		case "get500":
			set("GET", 500)
		case "get403":
			set("GET", 403)
		case "getdrop":
			set("GET", -1)
		case "getstale":
			set("GET", 404)
		case "post500":
			set("POST", 500)
		case "postdrop":
			set("POST", -1)
		case "postlost":
			c.kube.LoseAnswer = func(q *http.Request) bool { return q.Method == "POST" && isSecretReq(q) && dec() }
		case "compete", "competelate":
			theirs := map[string]string{"HASH_KEY": randKey(rnd, 32), "BLOCK_KEY": randKey(rnd, 32)}
			var once sync.Once
			late := p.fault == "competelate"
			c.kube.SecretHook = func(q *http.Request) {
				if (q.Method == "POST") && isSecretReq(q) {
					once.Do(func() {
						if late {
							time.Sleep(50 * time.Millisecond)
						}
						c.kube.SetSecret(keyNS, keyName, theirs)
						fm.Lock()
						existing = theirs
						fm.Unlock()
						r.Count("faults", 1)
					})
				}
			}
		case "down":
			permanent = true
			set("", code)
		case "downget":
			// it cannot be read; whether one exists or can be created does not help
			permanent = true
			set("GET", code)
			if !p.existing {
				set("", code)
			}
		case "slow":
			c.kube.SecretHook = func(q *http.Request) { time.Sleep(time.Duration(rnd.Int63n(1)+200) * time.Millisecond) }
		}
		c.faults = []string{p.fault, fmt.Sprint("times ", left), fmt.Sprint("code ", code)}
		// ---- start
		suts := make([]*vh.Sut, p.n)
		args := make([][]string, p.n)
		for k := range suts {
			args[k] = argsOf()
		}
		if p.together {
			var wg sync.WaitGroup
			for k := range suts {
				wg.Add(1)
				go func(k int) { defer wg.Done(); suts[k] = c.inst(args[k]) }(k)
			}
			wg.Wait()
		} else {
			for k := range suts {
				suts[k] = c.inst(args[k])
			}
		}
		stop := func() {
			for _, s := range suts {
				if s != nil {
					s.Stop()
				}
			}
		}
		defer func() { stop() }()
		for _, s := range suts {
			if s == nil {
				return
			}
		}
		// ---- while nothing can be read or created
		if permanent {
			before := c.t.Hits("token")
			for k, s := range suts {
				for n := 0; n < 2; n++ {
					resp := s.DoT(c15page, 40*time.Second)
					r.Case(fmt.Sprint(c.id, " no keys ", k, " ", n), true)
					r.Count("keyless_requests", 1)
					if a, err := vh.ParseLogin(resp); err == nil {
						m := c.witness()
						m["state"] = a.State
						r.Violation("a login was started though the key secret can be neither read nor created", m)
					} else if resp.Allowed() {
						r.Violation("a request was allowed without a session while the cookie keys are unavailable", c.witness())
					}
				}
				// cookies under empty or zero keys must not be accepted either
				for n, hk := range []string{"", strings.Repeat("\x00", 32)} {
					bk := ""
					if n == 1 {
						bk = strings.Repeat("\x00", 16)
					}
					name := "oidc-cookie-c"
					q := vh.Callback(c15page, "code", "st")
					q.Cookies = name + "=" + vh.SealState(name, vh.StateCookie{TS: time.Now().Unix(), Value: "st", Exp: time.Now().Add(time.Hour)}, hk, bk)
					resp := s.DoT(q, 40*time.Second)
					r.Case(fmt.Sprint(c.id, " empty keys ", k, " ", n), true)
					if resp.Allowed() || c.t.Hits("token") != before {
						r.Violation("a callback was accepted while the cookie keys are unavailable", c.witness())
					}
				}
			}
			fm.Lock()
			permanent, left = false, 0
			fm.Unlock()
			r.Count("recoveries", 1)
		}
		// ---- a login started anywhere completes anywhere
		name := func(k int) string { return fmt.Sprint("instance ", k) }
		var early []*pendingLogin
		// several at once: they all race for the keys
		var wg sync.WaitGroup
		var em sync.Mutex
		for k, s := range suts {
			for n := 0; n < 3; n++ {
				wg.Add(1)
				go func(k int, s *vh.Sut) {
					defer wg.Done()
					if p := c.begin(s, name(k)); p != nil {
						em.Lock()
						early = append(early, p)
						em.Unlock()
					}
				}(k, s)
			}
		}
		wg.Wait()
		if len(early) < 3*p.n {
			return
		}
		for _, e := range early {
			for k, s := range suts {
				if vh.WaitFor(time.Second, func() bool { return s.Alive() }) {
					c.mustComplete(s, e, name(k))
				}
			}
		}
		// ---- restarts, with other sizes configured
		for k := range suts {
			if rnd.Intn(2) == 0 || p.n == 1 {
				suts[k].Stop()
				a := argsOf()
				if existing == nil {
					// sizes only count at creation; it exists by now
					c.faults = append(c.faults, fmt.Sprint("restart with ", a))
				}
				if suts[k] = c.inst(a); suts[k] == nil {
					return
				}
				r.Count("restarts", 1)
				for _, e := range early {
					c.mustComplete(suts[k], e, name(k)+", restarted")
				}
				if late := c.begin(suts[k], name(k)+", restarted"); late != nil {
					for j, s := range suts {
						c.mustComplete(s, late, name(j))
					}
				}
			}
		}
		fm.Lock()
		ex := existing
		fm.Unlock()
		c.watchSecret(ex, sizes)
		if ex == nil {
			noteCreated(c)
		}
		for _, s := range suts {
			if !s.Alive() {
				r.Violation("an instance ended: "+s.Tail(2000), c.witness())
			}
		}
		if i < 3 {
			r.Sample("cluster", vh.M{"history": c.id, "args": args})
		}
		// ---- the keys of the secret are really used: a process of a cluster whose secret differs refuses
		if i%3 == 0 && len(early) > 0 {
			sec := c.kube.Secret(keyNS, keyName)
			for _, which := range []string{"HASH_KEY", "BLOCK_KEY", ""} {
				d := newCluster(r, c.id+" with another "+which, key)
				other := map[string]string{"HASH_KEY": sec["HASH_KEY"], "BLOCK_KEY": sec["BLOCK_KEY"]}
				if which != "" {
					b := []byte(other[which])
					b[rnd.Intn(len(b))] ^= byte(1 << uint(rnd.Intn(8)))
					other[which] = string(b)
				}
				d.kube.SetSecret(keyNS, keyName, other)
				if s := d.inst(nil); s != nil && d.begin(s, "it") != nil {
					ok, _ := d.complete(s, early[0])
					r.Case(d.id, true)
					r.Count("foreign_keys", 1)
					if ok != (which == "") {
						m := c.witness()
						m["other"] = other
						if ok {
							r.Violation("a login completed at an adapter whose "+which+" differs: the key of the secret is not used", m)
						} else {
							r.Violation("a login does not complete at an adapter with the same keys", m)
						}
					}
					d.watchSecret(other, nil)
					s.Stop()
				}
				d.close()
			}
		}
	})

	// ---- random bytes: the source accounts for the keys' size, and a failing source creates no secret
	for _, h := range hs {
		for _, b := range bs {
			if r.TooMany() {
				break
			}
			args := []string{"--hash-key", fmt.Sprint(h), "--block-key", fmt.Sprint(b)}
			c := newCluster(r, fmt.Sprintf("sizes %d and %d", h, b), key)
			sock := filepath.Join(vh.Scratch("ent"), "s")
			if s := c.inst(args, "VH_ENTROPY="+sock); s != nil {
				vh.WaitFor(20*time.Second, func() bool { return c.kube.Secret(keyNS, keyName) != nil })
				_, other, err := entropyStat(sock)
				r.Case(c.id, true)
				if err != nil {
					r.Inconclusive("entropy monitor: " + err.Error())
				} else if other < int64(h+b) && c.kube.Secret(keyNS, keyName) != nil {
					m := c.witness()
					m["bytes"] = other
					r.Violation(fmt.Sprintf("keys of %d and %d bytes were created, but only %d bytes of the cryptographic source were drawn", h, b, other), m)
				}
				c.begin(s, "the instance")
				c.watchSecret(nil, map[[2]int]bool{{h, b}: true})
				noteCreated(c)
				s.Stop()
			}
			c.close()
		}
	}
	lefts := []int{0, 1, 15, 16, 31, 32, 33, 40, 47}
	par(len(lefts), 5, func(i int) {
		left := lefts[i]
		c := newCluster(r, fmt.Sprintf("a source that gives %d bytes", left), key)
		defer c.close()
		s, err := vh.StartSut(c.kube.URL, vh.SutOpts{Env: []string{"VH_ENTROPY=" + filepath.Join(vh.Scratch("ent"), "s"), fmt.Sprint("VH_ENTROPY_LEFT=", left)}})
		r.Case(c.id, true)
		r.Count("failing_source", 1)
		if err == nil {
			// until it answers for the page in some way
			vh.WaitFor(10*time.Second, func() bool { return !s.DoT(c15page, 5*time.Second).Allowed() || !s.Alive() })
			s.Stop()
		}
		if sec := c.kube.Secret(keyNS, keyName); sec != nil {
			r.Violation(fmt.Sprintf("a key secret with keys of %d and %d bytes was created though the cryptographic source only gave %d", len(sec["HASH_KEY"]), len(sec["BLOCK_KEY"]), left), c.witness())
		}
	})
	// ---- sizes that are not valid never make it into a secret
	bad := [][]string{{"--hash-key", "31"}, {"--hash-key", "0"}, {"--block-key", "17"}, {"--block-key", "0"}, {"--block-key", "-16"}, {"--hash-key", "64", "--block-key", "64"}}
	par(len(bad), 6, func(i int) {
		c := newCluster(r, fmt.Sprint("flags ", bad[i]), key)
		defer c.close()
		s, err := vh.StartSut(c.kube.URL, vh.SutOpts{Args: bad[i], NoWait: true})
		if err == nil {
			vh.WaitFor(3*time.Second, func() bool { return !s.Alive() || c.kube.Secret(keyNS, keyName) != nil })
			s.Stop()
		}
		r.Case(c.id, true)
		if sec := c.kube.Secret(keyNS, keyName); sec != nil {
			h, b := len(sec["HASH_KEY"]), len(sec["BLOCK_KEY"])
			if (h != 32 && h != 64) || (b != 16 && b != 24 && b != 32) {
				r.Violation(fmt.Sprintf("a key secret with keys of %d and %d bytes was created", h, b), c.witness())
			}
		}
	})
	// ---- a secret without a signing key starts no login, and stays as it is
	empties := []map[string]string{{}, {"HASH_KEY": "", "BLOCK_KEY": ""}, {"hash_key": vh.HashKey, "block_key": vh.BlockKey}}
	par(len(empties), 3, func(i int) {
		c := newCluster(r, fmt.Sprint("a secret with ", empties[i]), key)
		defer c.close()
		c.kube.SetSecret(keyNS, keyName, empties[i])
		s := c.inst(nil)
		if s == nil {
			return
		}
		defer s.Stop()
		for n := 0; n < 3; n++ {
			resp := s.DoT(c15page, 40*time.Second)
			r.Case(fmt.Sprint(c.id, n), true)
			r.Count("keyless_requests", 1)
			if _, err := vh.ParseLogin(resp); err == nil || resp.Allowed() {
				m := c.witness()
				m["answer"] = resp.String()
				r.Violation("a login was started with empty keys", m)
			}
		}
		if now := c.kube.Secret(keyNS, keyName); !bytes.Equal(vh.MustJSON(now), vh.MustJSON(empties[i])) {
			r.Violation("an existing key secret was changed", c.witness())
		}
	})
	r.Floor("cross_logins", total*6)
	r.Floor("keyless_requests", total/10)
	r.Floor("created_secrets", total/4)
	r.Floor("foreign_keys", total/3)
	r.Floor("faults", total/2)
	r.Floor("restarts", total/2)
	r.Floor("secret_requests", total)
	r.Finish()
}
