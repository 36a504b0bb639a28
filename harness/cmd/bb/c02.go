package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/vh"
)

func init() { checks["C02"] = c02 }

// c02ns is the model of one namespace: the current resources and every rule id ever used.
type c02ns struct {
	ns     string
	pols   map[string][]*entry // by policy name
	specs  map[string]vh.M
	jwt    map[string]int    // config -> tenant index
	oidc   map[string]string // config -> client id
	ids    []string
	n      int
	hist   []string
	svcs   []string
	cfgOf  map[string]string // entry id -> config name
	pathsR []string
	base   string
}

func (m *c02ns) log(f string, a ...interface{}) { m.hist = append(m.hist, fmt.Sprintf(f, a...)) }

// deep lies above the paths of some namespaces.
func (m *c02ns) deep(p string) string {
	if m.base == "" {
		return p
	}
	return strings.TrimRight(m.base+p, "/")
}

var c02paths = []string{"/", "/a", "/a/b", "/a/c", "/b", "/ab"}

// c02name names resources of all kinds, alike.
func c02name(i int) string { return []string{"c0", "c0.c0", "c0.c1", "c0-c0"}[i] }

func (m *c02ns) genPolicy(rnd *rand.Rand, name string) vh.M {
	m.pols[name] = nil
	targets := []vh.M{}
	nt := 1 + rnd.Intn(2)
	if rnd.Intn(8) == 0 {
		nt = 0 // a policy that protects nothing
	}
	for t := 0; t < nt; t++ {
		svc := m.svcs[rnd.Intn(len(m.svcs))]
		paths := []vh.M{}
		for k := 0; k < rnd.Intn(4); k++ {
			method := []string{"ALL", "ALL", "GET", "POST"}[rnd.Intn(4)]
			p := m.deep(c02paths[rnd.Intn(len(c02paths))])
			id := fmt.Sprintf("%s.%d", name, m.n)
			m.n++
			m.ids = append(m.ids, id)
			e := &entry{id: id, svc: svc, method: method, policy: name, segs: segsOf(p), exact: rnd.Intn(2) == 0}
			exact, prefix := p, ""
			if !e.exact {
				exact, prefix = "", p
			}
			if rnd.Intn(6) == 0 {
				cfg := c02name(rnd.Intn(2))
				e.oidc, e.client = true, cfg
				paths = append(paths, vh.PathEntry("oidc", exact, prefix, method, cfg, "", nil))
			} else {
				cfg := c02name(rnd.Intn(2))
				e.client = cfg
				paths = append(paths, vh.JwtPath(exact, prefix, method, cfg, []vh.M{vh.Rule("gov", "ANY", "access_token", id)}))
			}
			m.pols[name] = append(m.pols[name], e)
		}
		targets = append(targets, vh.M{"serviceName": svc, "paths": paths})
	}
	return vh.M{"targets": targets}
}

// revise changes what applies to the endpoints of a policy, and not the endpoints.
func (m *c02ns) revise(rnd *rand.Rand, name string, old vh.M) vh.M {
	es := m.pols[name]
	m.pols[name] = nil
	mode := rnd.Intn(3) // rules only, configurations only, anything
	k := 0
	targets := []vh.M{}
	for _, t := range old["targets"].([]vh.M) {
		paths := []vh.M{}
		for _, p := range t["paths"].([]vh.M) {
			str := func(f string) string { s, _ := p[f].(string); return s }
			e := *es[k]
			k++
			if mode != 1 || e.oidc {
				e.id = fmt.Sprintf("%s.%d", name, m.n)
				m.n++
				m.ids = append(m.ids, e.id)
			}
			if mode == 2 {
				e.oidc = rnd.Intn(4) == 0
			}
			if mode != 0 {
				e.client = fmt.Sprintf("%s%d", map[bool]string{true: "o", false: "j"}[e.oidc], rnd.Intn(2))
			}
			if e.oidc {
				paths = append(paths, vh.PathEntry("oidc", str("exact"), str("prefix"), e.method, e.client, "", nil))
			} else {
				paths = append(paths, vh.JwtPath(str("exact"), str("prefix"), e.method, e.client, []vh.M{vh.Rule("gov", "ANY", "access_token", e.id)}))
			}
			m.pols[name] = append(m.pols[name], &e)
		}
		targets = append(targets, vh.M{"serviceName": t["serviceName"], "paths": paths})
	}
	return vh.M{"targets": targets}
}

// candidates returns the entries that may govern a request.
func (m *c02ns) candidates(svc, method, path string) []*entry {
	var all []*entry
	for _, es := range m.pols {
		all = append(all, es...)
	}
	g := governing(all, svc, method, path)
	if g == nil {
		return nil
	}
	var out []*entry
	for _, e := range all {
		if e.svc == svc && e.method == g.method && e.exact == g.exact && len(e.segs) == len(g.segs) && hasSegPrefix(e.segs, g.segs) {
			out = append(out, e)
		}
	}
	return out
}

func c02() {
	r := vh.NewReport("C02", "cases are requests judged at quiescent points of random histories of resource changes (overlapping policies, dropped paths, moved services, reused names, config changes, watch drops, expired watches with missed events, API errors, adapter restarts), plus probes sent continuously during policy updates; distinct by namespace, history length and request")
	vh.NoReuse(r)
	r.Assumptions = []string{"where several existing policies name the same endpoint any of them may govern it"}
	rnd := r.Rand("hist")
	starts := make(chan struct{})
	go func() {
		defer close(starts)
		c02start(r)
	}()
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	tn := []*vh.Tenant{w.IdP.Tenant("ta"), w.IdP.Tenant("tA")}
	keys := []*vh.Key{vh.NewKey("k1"), vh.NewKey("k1")} // same id, different keys
	for i := range tn {
		tn[i].SetKeys(keys[i])
	}
	var tokMu sync.Mutex
	toks := map[string]string{}
	token := func(tenant int, gov []string) string {
		k := fmt.Sprint(tenant, strings.Join(gov, ","))
		tokMu.Lock()
		defer tokMu.Unlock()
		if s, ok := toks[k]; ok {
			return s
		}
		s := keys[tenant].Sign(vh.BaseClaims("u").With("gov", gov))
		toks[k] = s
		return s
	}

	nns, rounds := r.Pick(50, 150), r.Pick(14, 60)
	var ms []*c02ns
	for i := 0; i < nns; i++ {
		ms = append(ms, &c02ns{base: []string{"", "/v1/shop", "/a", "/a/a/a/b"}[i%4], ns: fmt.Sprintf("h%d%s", i/2, []string{"", "-c0"}[i%2]), pols: map[string][]*entry{}, specs: map[string]vh.M{}, jwt: map[string]int{}, oidc: map[string]string{},
			svcs: []string{"s0", "s1"}[:1+i%2]})
	}
	step := func(m *c02ns) {
		switch rnd.Intn(14) {
		case 0, 1, 2, 3, 4:
			name := c02name(rnd.Intn(4))
			_, upd := m.specs[name]
			m.specs[name] = m.genPolicy(rnd, name)
			m.log("apply %s (update=%v) %s", name, upd, vh.MustJSON(m.specs[name]))
			w.Kube.Apply(vh.Policies, m.ns, name, m.specs[name])
			r.Count("policy_applies", 1)
		case 5, 6:
			name := c02name(rnd.Intn(4))
			if _, ok := m.specs[name]; ok {
				delete(m.specs, name)
				delete(m.pols, name)
				m.log("delete %s", name)
				w.Kube.Delete(vh.Policies, m.ns, name)
				r.Count("policy_deletes", 1)
			}
		case 7: // delete and reuse the name at once
			name := c02name(rnd.Intn(4))
			w.Kube.Delete(vh.Policies, m.ns, name)
			m.specs[name] = m.genPolicy(rnd, name)
			m.log("replace %s %s", name, vh.MustJSON(m.specs[name]))
			w.Kube.Apply(vh.Policies, m.ns, name, m.specs[name])
		case 8, 9:
			name := c02name(rnd.Intn(2))
			if _, ok := m.jwt[name]; ok && rnd.Intn(3) == 0 {
				delete(m.jwt, name)
				w.Kube.Delete(vh.JwtConfigs, m.ns, name)
				m.log("delete jwtconfig %s", name)
			} else {
				t := rnd.Intn(2)
				m.jwt[name] = t
				w.Kube.Apply(vh.JwtConfigs, m.ns, name, vh.M{"jwksUrl": tn[t].JwksURL()})
				m.log("jwtconfig %s -> tenant %d", name, t)
			}
			r.Count("config_changes", 1)
		case 10:
			name := c02name(rnd.Intn(2))
			if _, ok := m.oidc[name]; ok && rnd.Intn(3) == 0 {
				delete(m.oidc, name)
				w.Kube.Delete(vh.OidcConfigs, m.ns, name)
				m.log("delete oidcconfig %s", name)
			} else {
				m.n++
				id := fmt.Sprintf("cl-%s-%d", m.ns, m.n)
				m.oidc[name] = id
				w.Kube.Apply(vh.OidcConfigs, m.ns, name, vh.M{"clientId": id, "clientSecret": "s", "discoveryUrl": tn[0].DiscoveryURL()})
				m.log("oidcconfig %s -> client %s", name, id)
			}
			r.Count("config_changes", 1)
		case 12, 13: // the same endpoints with other rules, configurations or types
			name := c02name(rnd.Intn(4))
			old, ok := m.specs[name]
			if !ok {
				break
			}
			m.specs[name] = m.revise(rnd, name, old)
			m.log("revise %s %s", name, vh.MustJSON(m.specs[name]))
			w.Kube.Apply(vh.Policies, m.ns, name, m.specs[name])
			r.Count("policy_revisions", 1)
		default: // re-apply unchanged
			for name, s := range m.specs {
				w.Kube.Apply(vh.Policies, m.ns, name, s)
				break
			}
		}
	}
	judgeAll := func(round int, when string) {
		seeds := make([]int64, nns)
		for i := range seeds {
			seeds[i] = rnd.Int63()
		}
		par(nns, 8, func(i int) {
			if r.TooMany() {
				return
			}
			m := ms[i]
			q := rand.New(rand.NewSource(seeds[i]))
			for _, svc := range m.svcs {
				for _, path := range []string{"/", "/a", "/a/b", "/a/c", "/a/b/d", "/b", "/b/z", "/ab", "/zz"} {
					path = m.deep(path)
					method := []string{"GET", "POST", "PUT"}[q.Intn(3)]
					cand := m.candidates(svc, method, path)
					req := vh.Get(m.ns, svc, path)
					req.Method = method
					r.Case(fmt.Sprintf("%s %d %s %s %s", m.ns, round, svc, method, path), len(cand) > 0 || len(m.hist) > 2)
					var why string
					if !w.Eventually(func() bool { why = c02judge(w, m, req, cand, token); return why == "" }) {
						if !w.CheckAlive("answering requests") {
							return
						}
						r.Violation(fmt.Sprintf("%s: %s %s of %s/%s: %s", when, method, path, m.ns, svc, why),
							vh.M{"request": vh.ReqM(req), "history": m.hist, "resources": m.specs, "jwtconfigs": m.jwt, "oidcconfigs": m.oidc, "why": why})
						if r.TooMany() {
							return
						}
					}
					switch {
					case len(cand) == 0:
						r.Count("judged_open", 1)
					case len(cand) > 1:
						r.Count("judged_overlapping", 1)
					default:
						r.Count("judged_protected", 1)
					}
				}
			}
		})
	}
	for round := 0; round < rounds && !r.TooMany(); round++ {
		when := fmt.Sprintf("round %d", round)
		faulty := false
		switch {
		case round%7 == 3:
			w.Kube.DropWatches()
			when += " (watches dropped)"
			r.Count("watch_drops", 1)
		case round%7 == 5: // events are missed and the history is compacted: relist
			faulty = true
			w.Kube.SetFault(func(q *http.Request) int {
				if q.URL.Query().Get("watch") != "" {
					return 500
				}
				return 0
			})
			w.Kube.DropWatches()
			when += " (watch expired, events missed)"
			r.Count("relists", 1)
		case round%7 == 6: // the API server fails for a while
			faulty = true
			w.Kube.SetFault(func(q *http.Request) int {
				if strings.HasPrefix(q.URL.Path, "/apis/") {
					return 503
				}
				return 0
			})
			w.Kube.DropWatches()
			when += " (API server failing)"
			r.Count("api_outages", 1)
		}
		for _, m := range ms {
			for k := 0; k < 1+rnd.Intn(4); k++ {
				step(m)
			}
		}
		if faulty {
			w.Kube.Compact()
			time.Sleep(50 * time.Millisecond)
			w.Kube.SetFault(nil)
		}
		w.SyncAll()
		judgeAll(round, when)
	}
	if !r.TooMany() {
		w.Sut.Stop()
		w.StartAdapter()
		w.SyncAll()
		r.Count("restarts", 1)
		judgeAll(rounds, "after a restart")
	}
	if !r.TooMany() {
		for _, m := range ms {
			for name := range m.specs {
				w.Kube.Delete(vh.Policies, m.ns, name)
			}
			m.specs, m.pols = map[string]vh.M{}, map[string][]*entry{}
			m.log("delete everything")
		}
		w.SyncPolicies()
		judgeAll(rounds+1, "after deleting every policy")
	}
	if !r.TooMany() {
		c02slow(r, w)
	}
	<-starts
	if !r.TooMany() {
		c02fields(r, w, tn, keys)
	}
	if !r.TooMany() {
		c02together(r, w, tn[0])
	}
	if !r.TooMany() {
		c02updates(r, w, tn[0])
	}
	w.CheckAlive("processing histories")
	r.Floor("judged_protected", nns*rounds/2)
	r.Floor("judged_open", nns)
	r.Floor("judged_overlapping", nns)
	r.Floor("slow_discovery_changes", 30)
	r.Floor("probes_during_updates", 2000)
	r.Floor("changed_together", 100)
	r.Floor("single_field_changes", 60)
	r.Floor("policy_revisions", 20)
	r.Finish()
}

func c02judge(w *vh.World, m *c02ns, req vh.Req, cand []*entry, token func(int, []string) string) string {
	resp := w.Do(req)
	if len(cand) == 0 {
		if !resp.Allowed() {
			return "no existing policy covers the request but it was not let through: " + resp.String()
		}
		return ""
	}
	if resp.Allowed() {
		return "an existing policy covers the request but it passed without credentials"
	}
	noid, njwt := map[string]bool{}, 0
	var ids, cids []string
	cfgs := map[string]bool{}
	for _, e := range cand {
		noid[e.id] = true
		cfgs[e.client] = true
		if e.oidc {
			cids = append(cids, m.oidc[e.client])
		} else {
			njwt++
			ids = append(ids, e.id)
		}
	}
	var others []string
	for _, id := range m.ids {
		if !noid[id] {
			others = append(others, id)
		}
	}
	// stale or foreign rules must not decide, whichever key signed
	for t := 0; t < 2; t++ {
		req.Authz = "Bearer " + token(t, append(others, "none"))
		if a := w.Do(req); a.Allowed() {
			return "a token satisfying only other or outdated rules was accepted"
		}
	}
	if len(cfgs) > 1 {
		return "" // several configurations may govern
	}
	if njwt == len(cand) {
		t, ok := m.jwt[cand[0].client]
		if !ok {
			if resp.Err == nil && resp.Direct == nil {
				return "the configuration does not exist but the answer is " + resp.String()
			}
			for t := 0; t < 2; t++ {
				req.Authz = "Bearer " + token(t, ids)
				if w.Do(req).Allowed() {
					return "the configuration does not exist but a token was accepted"
				}
			}
			return ""
		}
		req.Authz = "Bearer " + token(t, ids)
		if a := w.Do(req); !a.Allowed() {
			return "a token satisfying the current rules was rejected: " + a.String()
		}
		req.Authz = "Bearer " + token(1-t, ids)
		if w.Do(req).Allowed() {
			return "a token signed by a key of an outdated or other configuration was accepted"
		}
	} else if njwt == 0 {
		id, ok := m.oidc[cand[0].client]
		if !ok {
			if resp.Err == nil {
				return "the OIDC configuration does not exist but the answer is " + resp.String()
			}
			return ""
		}
		a, err := vh.ParseLogin(resp)
		if err != nil {
			return "expected a login with client " + id + ": " + err.Error()
		}
		if a.Q.Get("client_id") != id {
			return fmt.Sprintf("login with client %q, current configuration says %q", a.Q.Get("client_id"), id)
		}
	}
	return ""
}

// c02slow changes OIDC configurations whose discovery answers after a while.
func c02slow(r *vh.Report, w *vh.World) {
	rnd := r.Rand("slow")
	const ns = "slow"
	tn := make([]*vh.Tenant, 4)
	for i := range tn {
		tn[i] = w.IdP.Tenant(fmt.Sprintf("slow%d", i))
		d := time.Duration(i*i) * 60 * time.Millisecond // 0 to 540 ms
		t := tn[i]
		t.Override("disco", func(w http.ResponseWriter, q *http.Request) {
			time.Sleep(d)
			json.NewEncoder(w).Encode(t.DefaultDisco())
		})
	}
	n := r.Pick(6, 20)
	for round := 0; round < r.Pick(2, 8) && !r.TooMany(); round++ {
		want := make([]string, n)
		hist := make([][]string, n)
		for i := range want {
			name := fmt.Sprintf("c%d", i)
			w.Kube.Apply(vh.Policies, ns, "p"+name, vh.Spec("s"+name, vh.PathEntry("oidc", "", "/", "", name, "", nil)))
			for k, v := 1+rnd.Intn(4), 0; v < k; v++ {
				if v > 0 && rnd.Intn(3) == 0 {
					w.Kube.Delete(vh.OidcConfigs, ns, name)
					want[i] = ""
					hist[i] = append(hist[i], "delete")
				} else {
					t := rnd.Intn(len(tn))
					if v == 0 {
						t = len(tn) - 1 - rnd.Intn(2) // a slow one first
					}
					want[i] = fmt.Sprintf("cl-%d-%d-%d", round, i, v)
					hist[i] = append(hist[i], fmt.Sprintf("%s with a discovery of %d ms", want[i], t*t*60))
					w.Kube.Apply(vh.OidcConfigs, ns, name, vh.M{"clientId": want[i], "clientSecret": "s", "discoveryUrl": tn[t].DiscoveryURL()})
				}
				if rnd.Intn(2) == 0 {
					time.Sleep(time.Duration(rnd.Intn(150)) * time.Millisecond)
				}
			}
		}
		w.SyncOidc()
		w.SyncPolicies()
		for pass := 0; pass < 2; pass++ {
			for i := range want {
				var why string
				if !w.Eventually(func() bool {
					why = ""
					resp := w.Do(vh.Get(ns, fmt.Sprintf("sc%d", i), "/"))
					if want[i] == "" {
						if resp.Err == nil {
							why = "the OIDC configuration does not exist but the answer is " + resp.String()
						}
						return why == ""
					}
					if a, err := vh.ParseLogin(resp); err != nil {
						why = "expected a login with client " + want[i] + ": " + err.Error()
					} else if a.Q.Get("client_id") != want[i] {
						why = fmt.Sprintf("login with client %q, current configuration says %q", a.Q.Get("client_id"), want[i])
					}
					return why == ""
				}) {
					if !w.CheckAlive("answering requests") {
						return
					}
					r.Violation("after changes with a slow discovery: "+why, vh.M{"changes": hist[i], "why": why, "pass": pass})
				}
				r.Count("slow_discovery_changes", len(hist[i]))
			}
			r.Case(fmt.Sprintf("slow %d %d", round, pass), true)
			time.Sleep(700 * time.Millisecond) // nothing may change once events were processed
		}
	}
}

// c02updates updates large policies while probes watch endpoints that every version protects.
func c02updates(r *vh.Report, w *vh.World, t *vh.Tenant) {
	const ns = "upd"
	w.Kube.Apply(vh.JwtConfigs, ns, "cfg", vh.M{"jwksUrl": t.JwksURL()})
	spec := func(v int) vh.M {
		var paths []vh.M
		filler := func(n, from int) {
			for i := 0; i < n; i++ {
				paths = append(paths, vh.JwtPath(fmt.Sprintf("/filler/%d", from+i), "", "ALL", "cfg", []vh.M{vh.Rule("gov", "ANY", "", fmt.Sprint(v))}))
			}
		}
		filler(600, (v%3)*300)
		paths = append(paths, vh.JwtPath("/keep", "", "ALL", "cfg", []vh.M{vh.Rule("gov", "ANY", "", fmt.Sprint(v))}))
		filler(600, 2000+(v%2)*600)
		paths = append(paths, vh.JwtPath("", "/keeptree", "GET", "cfg", nil))
		if v%2 == 0 {
			// the same endpoints in another order
			for i, j := 0, len(paths)-1; i < j; i, j = i+1, j-1 {
				paths[i], paths[j] = paths[j], paths[i]
			}
		}
		// the protection of this endpoint alternates between two spellings and methods
		if v%3 == 0 {
			paths = append(paths, vh.JwtPath("/alt", "", "GET", "cfg", nil))
		} else {
			paths = append(paths, vh.JwtPath("/alt/", "", "GET", "cfg", nil))
		}
		return vh.Spec("svc", paths...)
	}
	w.Kube.Apply(vh.Policies, ns, "big", spec(0))
	w.Kube.Apply(vh.Policies, ns, "second", vh.Spec("svc", vh.JwtPath("/shared", "", "ALL", "cfg", nil)))
	w.SyncAll()
	var stop int32
	var wg sync.WaitGroup
	probes := []string{"/keep", "/keeptree/x", "/alt", "/shared", "/keep", "/alt"}
	var bad int32
	for i := range probes {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			req := vh.Get(ns, "svc", probes[i])
			for atomic.LoadInt32(&stop) == 0 {
				resp := w.Do(req)
				r.Count("probes_during_updates", 1)
				if resp.Allowed() && atomic.CompareAndSwapInt32(&bad, 0, 1) {
					r.Violation("during policy updates a request to "+probes[i]+", protected by every version, passed without credentials", vh.M{"request": vh.ReqM(req)})
				}
				if resp.Err != nil && !w.Sut.Alive() {
					return
				}
			}
		}(i)
	}
	n := r.Pick(40, 400)
	for v := 1; v <= n; v++ {
		w.Kube.Apply(vh.Policies, ns, "big", spec(v))
		r.Case(fmt.Sprintf("update %d", v), true)
		r.Count("updates_under_probe", 1)
		switch v % 10 {
		case 4:
			w.Kube.DropWatches()
		case 7:
			w.Kube.Compact()
		case 5: // a third policy comes and goes on the shared endpoint
			w.Kube.Apply(vh.Policies, ns, "third", vh.Spec("svc", vh.JwtPath("/shared", "", "ALL", "cfg", nil), vh.JwtPath("/alt", "", "GET", "cfg", nil)))
		case 9:
			w.Kube.Delete(vh.Policies, ns, "third")
		}
		if v%5 == 0 {
			w.SyncPolicies()
		} else {
			time.Sleep(8 * time.Millisecond)
		}
	}
	w.SyncPolicies()
	atomic.StoreInt32(&stop, 1)
	wg.Wait()
}

// c02together changes large overlapping policies at the same moment.
func c02together(r *vh.Report, w *vh.World, t *vh.Tenant) {
	rnd := r.Rand("together")
	const ns = "tog"
	w.Kube.Apply(vh.JwtConfigs, ns, "cfg", vh.M{"jwksUrl": t.JwksURL()})
	const groups, size = 8, 80
	spec := func(svc string, from, to int) vh.M {
		var paths []vh.M
		for i := from; i < to; i++ {
			paths = append(paths, vh.JwtPath(fmt.Sprintf("/e%d", i), "", "ALL", "cfg", nil))
		}
		return vh.Spec(svc, paths...)
	}
	for round := 0; round < r.Pick(5, 40) && !r.TooMany(); round++ {
		type op struct {
			name     string
			del      bool
			svc      string
			from, to int
		}
		var ops []op
		protected := make([][size]bool, groups)
		for g := 0; g < groups; g++ {
			svc := fmt.Sprintf("s%d", g)
			for k := 0; k < 3; k++ {
				name := fmt.Sprintf("p%d-%d", g, k)
				w.Kube.Apply(vh.Policies, ns, name, spec(svc, 0, size))
				o := op{name: name, del: true, svc: svc}
				switch {
				case g%4 == 1: // some shrink
					if o.del = rnd.Intn(2) == 0; !o.del {
						o.from, o.to = size*k/4, size*(k+1)/4
					}
				case g%4 == 2 && k == 2: // one stays as it is
					continue
				case g%4 == 3 && k == 0:
					o.del, o.from, o.to = false, size-5, size
				}
				ops = append(ops, o)
				for i := o.from; i < o.to; i++ {
					protected[g][i] = true
				}
			}
			if g%4 == 2 {
				for i := range protected[g] {
					protected[g][i] = true
				}
			}
		}
		w.SyncPolicies()
		rnd.Shuffle(len(ops), func(i, j int) { ops[i], ops[j] = ops[j], ops[i] })
		par(len(ops), len(ops), func(i int) {
			if ops[i].del {
				w.Kube.Delete(vh.Policies, ns, ops[i].name)
			} else {
				w.Kube.Apply(vh.Policies, ns, ops[i].name, spec(ops[i].svc, ops[i].from, ops[i].to))
			}
			r.Count("changed_together", 1)
		})
		w.SyncPolicies()
		par(groups, groups, func(g int) {
			for i := 0; i < size && !r.TooMany(); i++ {
				req := vh.Get(ns, fmt.Sprintf("s%d", g), fmt.Sprintf("/e%d", i))
				if !w.Eventually(func() bool { return w.Do(req).Allowed() != protected[g][i] }) {
					if !w.CheckAlive("answering requests") {
						return
					}
					r.Violation(fmt.Sprintf("after overlapping policies were changed at the same moment: protected=%v, but allowed=%v", protected[g][i], w.Do(req).Allowed()), vh.M{"request": vh.ReqM(req), "changes": fmt.Sprintf("%+v", ops)})
				}
			}
			r.Case(fmt.Sprintf("together %d %d", round, g), true)
		})
	}
}

// c02fields changes single fields of OIDC configurations and policies and watches whole logins.
func c02fields(r *vh.Report, w *vh.World, tn []*vh.Tenant, keys []*vh.Key) {
	const ns = "fld"
	n, steps := r.Pick(8, 16), r.Pick(12, 60)
	seeds := make([]int64, n)
	rnd := r.Rand("fields")
	for i := range seeds {
		seeds[i] = rnd.Int63()
	}
	type st struct {
		cred
		tn       int
		redirect string
		ruled    bool
		rule     int
		hist     []string
		rnd      *rand.Rand
	}
	sts := make([]*st, n)
	name := func(i int) string { return fmt.Sprint("f", i) }
	apply := func(i int) {
		s := sts[i]
		spec := vh.M{"clientId": s.ID, "clientSecret": s.Plain, "discoveryUrl": tn[s.tn].DiscoveryURL()}
		if s.Method != "" {
			spec["authMethod"] = s.Method
		}
		if len(s.Scopes) > 0 {
			spec["scopes"] = s.Scopes
		}
		if s.RefName != "" {
			spec["clientSecretRef"] = vh.M{"name": s.RefName, "key": s.RefKey}
		}
		w.Kube.Apply(vh.OidcConfigs, ns, name(i), spec)
	}
	policy := func(i int) {
		s := sts[i]
		var rules []vh.M
		if s.ruled {
			rules = []vh.M{vh.Rule("tag", "ANY", "access_token", fmt.Sprint("t", s.rule))}
		}
		w.Kube.Apply(vh.Policies, ns, name(i), vh.Spec("s"+name(i), vh.PathEntry("oidc", "", "/", "", name(i), s.redirect, rules)))
	}
	for i := range sts {
		rnd := rand.New(rand.NewSource(seeds[i]))
		w.Kube.SetSecret(ns, "sec"+name(i), map[string]string{"k1": "stored1-" + name(i), "k2": "stored2-" + name(i)})
		sts[i] = &st{cred: cred{ID: "fc-" + name(i), Plain: "plain-" + name(i), Stored: map[string]string{"k1": "stored1-" + name(i), "k2": "stored2-" + name(i)}}, rnd: rnd}
		apply(i)
		policy(i)
	}
	for step := 0; step < steps && !r.TooMany(); step++ {
		for i, s := range sts {
			pick := func(opts ...string) string { return opts[s.rnd.Intn(len(opts))] }
			what := ""
			switch k := (step + i) % 9; k {
			case 0:
				s.Method = pick("", "client_secret_post", "client_secret_basic")
				what = "authMethod " + s.Method
			case 1:
				s.Plain = fmt.Sprint("plain-", i, "-", step)
				what = "clientSecret " + s.Plain
			case 2:
				s.Scopes = [][]string{nil, {"openid"}, {"openid", "email"}, {"email", "openid"}, {fmt.Sprint("x", step)}}[s.rnd.Intn(5)]
				what = fmt.Sprint("scopes ", s.Scopes)
			case 3:
				s.tn = 1 - s.tn
				what = fmt.Sprint("discoveryUrl of tenant ", s.tn)
			case 4:
				s.ID = fmt.Sprint("fc-", i, "-", step)
				what = "clientId " + s.ID
			case 5:
				if s.RefName == "" {
					s.RefName, s.RefKey = "sec"+name(i), "k1"
				} else if s.RefKey == "k1" {
					s.RefKey = "k2"
				} else {
					s.RefName, s.RefKey = "", ""
				}
				what = "clientSecretRef " + s.RefName + " " + s.RefKey
			case 6:
				s.redirect = pick("", "https://home.example.com/", "https://home.example.com/x")
				what = "redirectUri " + s.redirect
			case 7:
				s.ruled = !s.ruled
				what = fmt.Sprint("ruled ", s.ruled)
			case 8:
				s.ruled = true
				s.rule++
				what = fmt.Sprint("rule ", s.rule)
			}
			s.hist = append(s.hist, what)
			if k := (step + i) % 9; k < 6 {
				apply(i)
			} else {
				policy(i)
			}
			r.Count("single_field_changes", 1)
		}
		w.SyncOidc()
		w.SyncPolicies()
		par(n, n, func(i int) {
			s := sts[i]
			s.Tenant = tn[s.tn].Name
			s.resolve()
			sc := strings.Join(s.Scopes, " ")
			if sc == "" {
				sc = "openid profile email"
			}
			page := vh.Get(ns, "s"+name(i), "/page")
			var why string
			if !w.Eventually(func() bool {
				why = ""
				b := vh.NewBrowser()
				a, err := vh.ParseLogin(w.Visit(b, page))
				if err != nil {
					why = "no login: " + err.Error()
					return false
				}
				switch {
				case a.Q.Get("client_id") != s.ID:
					why = "login with client " + a.Q.Get("client_id")
				case a.Q.Get("scope") != sc:
					why = "login with scope " + a.Q.Get("scope")
				case !strings.HasPrefix(a.URL.String(), tn[s.tn].AuthURL()):
					why = "login at another IdP: " + a.URL.String()
				}
				if why != "" {
					return false
				}
				for _, good := range []bool{false, true} {
					now := time.Now()
					acc := vh.Claims{"aud": s.ID, "exp": now.Unix() + 600}
					if s.ruled {
						acc["aud"] = "someone"
						acc["tag"] = fmt.Sprint("t", s.rule)
					}
					if !good { // what only other versions accept
						if s.ruled {
							acc["tag"], acc["aud"] = fmt.Sprint("t", s.rule-1), s.ID
						} else {
							acc["aud"], acc["tag"] = "someone", fmt.Sprint("t", s.rule)
						}
					}
					var reqs tokenReqs
					resp, ck, err := w.Login(b, page, tn[s.tn], func(h *vh.HReq) (int, []byte) {
						reqs.add(*h)
						return 200, vh.TokenJSON(vh.Tokens{Access: keys[s.tn].Sign(acc), ID: keys[s.tn].Sign(vh.Claims{"exp": now.Unix() + 600})})
					})
					for _, h := range reqs.get() {
						if why = judgeCred(h, &s.cred); why != "" {
							return false
						}
					}
					if good && ck == nil {
						why = "a login that satisfies the current policy failed: " + fmt.Sprint(err)
					} else if !good && ck != nil {
						why = "a login that does not satisfy the current policy created a session: " + resp.String()
					} else if good {
						want := s.redirect
						if want == "" {
							want = page.Scheme + "://" + page.Host + page.Path
						}
						if loc, _, _ := resp.Redirect(); loc != want {
							why = "after the login the browser is sent to " + loc
						}
					}
					if why != "" {
						return false
					}
				}
				return true
			}) {
				if !w.CheckAlive("answering requests") {
					return
				}
				r.Violation("after single fields were changed: "+why, vh.M{"changes": s.hist, "why": why, "configuration": fmt.Sprintf("%+v", s.cred), "redirect": s.redirect})
			}
			r.Case(fmt.Sprintf("fields %d %d", i, step), true)
		})
	}
}

// c02start: instances started while policies exist, probed from their first answer on, with slow or failing reads of resources.
func c02start(r *vh.Report) {
	rnd := r.Rand("start")
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	t := w.IdP.Tenant("a")
	k := vh.NewKey("k")
	t.SetKeys(k)
	tok := k.Sign(vh.BaseClaims("u"))
	const ns = "start"
	n := r.Pick(400, 1500)
	w.Kube.Apply(vh.JwtConfigs, ns, "j", vh.M{"jwksUrl": t.JwksURL()})
	w.Kube.Apply(vh.OidcConfigs, ns, "o", vh.M{"clientId": "c", "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
	for i := 0; i < n; i++ {
		kind, cfg := "jwt", "j"
		if i%5 == 4 {
			kind, cfg = "oidc", "o"
		}
		w.Kube.Apply(vh.Policies, ns, fmt.Sprint("p", i), vh.Spec(fmt.Sprint("s", i), vh.PathEntry(kind, "", "/x", "", cfg, "", nil)))
	}
	slow := func(plural string, ms int) func(*http.Request) int {
		return func(q *http.Request) int {
			if strings.Contains(q.URL.Path, plural) && q.URL.Query().Get("watch") == "" {
				time.Sleep(time.Duration(ms) * time.Millisecond)
			}
			return 0
		}
	}
	var down int32
	lists := int32(0)
	outage := func(q *http.Request) int {
		if atomic.LoadInt32(&down) == 1 && (strings.Contains(q.URL.Path, vh.Policies) || strings.Contains(q.URL.Path, "configs")) {
			if atomic.AddInt32(&lists, 1)%3 == 0 {
				return -1
			}
			return 503
		}
		return 0
	}
	failing := func(code, times int) func(*http.Request) int {
		left := int32(times)
		return func(q *http.Request) int {
			if strings.Contains(q.URL.Path, vh.Policies) && atomic.AddInt32(&left, -1) >= 0 {
				return code
			}
			return 0
		}
	}
	for round := 0; round < r.Pick(1, 4) && !r.TooMany(); round++ {
		for _, v := range []struct {
			how   string
			fault func(*http.Request) int
			down  time.Duration
		}{
			{"nothing special", nil, 0},
			{"the policy list taking 800 ms", slow(vh.Policies, 800), 0},
			{"the configuration lists taking 800 ms", slow("configs", 800), 0},
			{"two failing policy lists", failing(500, 2), 0},
			{"a dropped policy list", failing(-1, 1), 0},
			{"nothing special, again", nil, 0},
			{"an outage of the API server", outage, time.Duration(r.Pick(24, 70)) * time.Second},
		} {
			w.Sut.Stop()
			if v.down > 0 {
				atomic.StoreInt32(&down, 1)
			}
			w.Kube.SetFault(v.fault)
			w.StartAdapter()
			var wg sync.WaitGroup
			stop := make(chan struct{})
			for g := 0; g < 8; g++ {
				wg.Add(1)
				go func(seed int64) {
					defer wg.Done()
					rnd := rand.New(rand.NewSource(seed))
					for p := 0; ; p++ {
						select {
						case <-stop:
							return
						default:
						}
						i := rnd.Intn(n)
						resp := w.Sut.DoT(vh.Get(ns, fmt.Sprint("s", i), "/x"), 20*time.Second)
						if resp.Err == nil && resp.Allowed() {
							r.Violation("a protected request passed while the adapter was starting", vh.M{"starting with": v.how, "policies": n, "policy": fmt.Sprint("p", i), "answer of this worker": p, "answer": resp.String()})
							return
						}
						if resp.Err == nil {
							r.Count("start_answers", 1)
							if p == 0 {
								r.Case(fmt.Sprint("start ", round, v.how, seed), true)
							}
						} else {
							time.Sleep(2 * time.Millisecond)
						}
					}
				}(rnd.Int63())
			}
			if v.down > 0 {
				time.Sleep(v.down)
				atomic.StoreInt32(&down, 0)
			}
			// it does come up, with everything enforced
			i := 5 * rnd.Intn(n/5)
			if !w.Eventually(func() bool { return w.Sut.DoT(vh.Bearer(ns, fmt.Sprint("s", i), "/x", tok), 20*time.Second).Allowed() }) && w.CheckAlive("starting") {
				r.Violation("a valid token does not pass after a start", vh.M{"starting with": v.how, "policies": n, "policy": fmt.Sprint("p", i)})
			}
			time.Sleep(300 * time.Millisecond)
			close(stop)
			wg.Wait()
			r.Count("starts", 1)
			w.Kube.SetFault(nil)
			if r.TooMany() {
				return
			}
		}
	}
	r.Floor("start_answers", 50)
}
