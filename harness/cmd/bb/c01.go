package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"strings"

	"verif/harness/vh"
)

func init() { checks["C01"] = c01 }

// entry is one endpoint of the reference model.
type entry struct {
	id     string
	svc    string
	exact  bool
	segs   []string
	method string // "ALL" or an HTTP method
	oidc   bool
	client string
	policy string
}

func segsOf(p string) []string {
	p = strings.TrimRight(p, "/")
	if p == "" {
		return nil
	}
	return strings.Split(p[1:], "/")
}

func hasSegPrefix(s, p []string) bool {
	if len(p) > len(s) {
		return false
	}
	for i := range p {
		if s[i] != p[i] {
			return false
		}
	}
	return true
}

// governing is the reference model of policy selection.
func governing(es []*entry, svc, method, path string) *entry {
	ps := segsOf(path)
	var best *entry
	rank := func(e *entry) int { // path specificity, then method
		r := len(e.segs) * 4
		if e.exact {
			r = 1 << 20
		}
		if e.method != "ALL" {
			r++
		}
		return r
	}
	for _, e := range es {
		if e.svc != svc || (e.method != "ALL" && e.method != method) {
			continue
		}
		if e.exact && (len(e.segs) != len(ps) || !hasSegPrefix(ps, e.segs)) {
			continue
		}
		if !hasSegPrefix(ps, e.segs) {
			continue
		}
		if best == nil || rank(e) > rank(best) {
			best = e
		}
	}
	return best
}

var segPool = []string{"a", "b", "ab", "c", "A", "a.b", "ü", "a%20b", "-", "oidc", "favicon.ico", "healthz", ".well-known", "style.css", "robots.txt", "a;v=1", "a b", "~u", "a:b", "static", "1", "index.html", "Z", "metrics", "callback", "logout",
	"api", "v1", "health", "public", "login", "admin", "assets", "logo.png", "app.js", "swagger", "docs", "graphql", "ping", "status", "ready", "livez", "readyz", "images", "css", "fonts.woff2", "ws", "socket.io", "internal", "private", "test", ".git", "manifest.json", "sitemap.xml", "users", "me", "auth", "token", "oauth", "userinfo", "keys", "_health", "__debug", "actuator", "download.zip", "report.pdf", "x.html", "cgi-bin", "@me", "$count", "a,b", "a=b", "a+b", "a&b", "(1)", "0", "01", "-1", "%", "null", "undefined", "true",
	" a", "a ", "a\t", "\u00a0a", "u\u0308", "\u212a", "K", "k", long64 + "1", long64 + "2", long64, long256 + "x", long256 + "y", "a?b", "a#b", "?", "a\\b", "\"a\"", "'a'", "{id}", ":id", "<a>", "[a]", "a|b", "a^b", "`a`", "ａ", "a\ufeff", "日本"}

var long64, long256 = strings.Repeat("l0ng", 16), strings.Repeat("l0ng", 64)

// respell returns segments that resemble s but differ from it.
func respell(r *rand.Rand, s string) string {
	flip := func(s string) string {
		if t := strings.ToUpper(s); t != s {
			return t
		}
		return strings.ToLower(s)
	}
	var t string
	switch r.Intn(24) {
	case 18: // bytes that are no text, or none that shows
		i := r.Intn(len(s) + 1)
		t = s[:i] + []string{"\xff", "\xc3", "\x00", "\x7f", "\ufeff", "\u00ad", "\u200d", "\u2060", "\ufffd", "\u0301", "\t", "\r", "\n"}[r.Intn(13)] + s[i:]
	case 19:
		t = strings.NewReplacer("u", "ü", "a", "а", "e", "é", "i", "ı", "k", "\u212a", "s", "ſ").Replace(s)
	case 20: // the same up to its last bytes
		t = s[:len(s)-1] + string(rune(s[len(s)-1]&0x7f^3))
	case 21:
		t = s + s
	case 22:
		t = []string{"**", "?", ".*", "#" + s, s + "#", "\\" + s, s + "*"}[r.Intn(7)]
	case 23:
		t = strings.Trim(s, "-._~$@()%=:")
	case 13:
		t = s + []string{".css", ".js", ".png", ".ico", ".json", ".map", ".svg", ".txt"}[r.Intn(8)]
	case 14:
		t = s + "~"
	case 15:
		t = s + ","
	case 16:
		t = s + "?x=1"
	case 0:
		t = s + ";v=1"
	case 1:
		t = flip(s)
	case 2:
		t = fmt.Sprintf("%%%02X", s[0]) + s[1:]
	case 3:
		t = fmt.Sprintf("%%%02x", s[0]) + s[1:]
	case 4:
		t = s + "."
	case 5:
		t = " " + s
	case 6:
		t = s + " "
	case 7:
		t = s + "%20"
	case 8:
		t = s + ".html"
	case 9:
		t = s + "\u200b"
	case 10:
		t = s + "%00"
	case 11:
		t = "%2F" + s
	case 12:
		t = s + "%2Fa"
	default:
		t = s + strings.Repeat(s, 300)[:100+r.Intn(200)]
	}
	if t == s {
		return s + "'"
	}
	return t
}

func genPath(r *rand.Rand, maxDepth int, pool []string) string {
	n := r.Intn(maxDepth + 1)
	var b strings.Builder
	for i := 0; i < n; i++ {
		b.WriteString("/" + pool[r.Intn(len(pool))])
	}
	if r.Intn(12) == 0 && n > 0 { // the suffixes inside a path
		in := []string{"/oidc/callback", "/oidc/logout"}[r.Intn(2)]
		return b.String()[:strings.LastIndex(b.String(), "/")] + in + b.String()[strings.LastIndex(b.String(), "/"):]
	}
	if b.Len() == 0 {
		return "/"
	}
	return b.String()
}

type polWorld struct {
	ns      string
	entries []*entry
	specs   []vh.M
	names   []string
	svcs    []string
	clients []string
}

// genPolicies makes a random set of policies for a namespace without conflicting endpoints.
func genPolicies(r *rand.Rand, ns string) *polWorld {
	w := &polWorld{ns: ns, svcs: []string{"svc", "other", "svc2"}[:1+r.Intn(3)]}
	if r.Intn(3) == 0 { // names that resemble each other
		w.svcs = []string{"svc", "SVC", "svc.ns1", "svc.ns1.svc.cluster.local", "svc-1", "svc ", "s"}[:2+r.Intn(6)]
	}
	taken := map[string]bool{}
	pool := segPool[:3+r.Intn([]int{24, len(segPool) - 2}[r.Intn(2)])]
	if r.Intn(3) == 0 { // a few that resemble each other
		n := 3 + r.Intn(4)
		o := r.Intn(len(segPool) - n)
		pool = segPool[o : o+n]
	}
	depth := 1 + r.Intn(4)
	if r.Intn(12) == 0 {
		depth = 8 + r.Intn(32)
	}
	np := 1 + r.Intn(5)
	eid := 0
	for p := 0; p < np; p++ {
		name := fmt.Sprintf("p%d", p)
		nt := 1 + r.Intn(2)
		var targets []vh.M
		if r.Intn(10) == 0 { // prefixes nested deeply, most of which are for another method
			svc := w.svcs[r.Intn(len(w.svcs))]
			var paths []vh.M
			path := ""
			for k, n := 0, 5+r.Intn(20); k < n; k++ {
				path += "/" + pool[r.Intn(len(pool))]
				m := []string{"GET", "POST", "PUT", "DELETE", "PATCH"}[r.Intn(5)]
				if k < 2 && r.Intn(2) == 0 {
					m = "ALL"
				} else if r.Intn(4) == 0 {
					continue
				}
				key := fmt.Sprintf("%s|%s|false|%v", svc, m, path[1:])
				if taken[key] {
					continue
				}
				taken[key] = true
				id := fmt.Sprintf("e%d", eid)
				eid++
				paths = append(paths, vh.JwtPath("", path, m, "cfg", []vh.M{vh.Rule("gov", "ANY", "", id)}))
				w.entries = append(w.entries, &entry{id: id, svc: svc, segs: segsOf(path), method: m, policy: name})
			}
			r.Shuffle(len(paths), func(i, j int) { paths[i], paths[j] = paths[j], paths[i] })
			if len(paths) > 0 {
				targets = append(targets, vh.M{"serviceName": svc, "paths": paths})
			}
		}
		for t := 0; t < nt; t++ {
			svc := w.svcs[r.Intn(len(w.svcs))]
			var paths []vh.M
			for k := 0; k < 1+r.Intn(5); k++ {
				method := []string{"", "ALL", "ALL", "GET", "GET", "POST", "PUT", "DELETE", "PATCH"}[r.Intn(9)]
				m := method
				if m == "" {
					m = "ALL"
				}
				kind := r.Intn(10)
				exact, prefix := "", ""
				if kind < 5 || kind == 8 {
					exact = genPath(r, depth, pool)
				}
				if (kind >= 5 && kind < 8) || kind == 8 {
					prefix = genPath(r, depth, pool)
				}
				id := fmt.Sprintf("e%d", eid)
				eid++
				var mine []*entry
				if exact != "" {
					mine = append(mine, &entry{exact: true, segs: segsOf(exact)})
				}
				if prefix != "" {
					mine = append(mine, &entry{segs: segsOf(prefix)})
				}
				if exact == "" && prefix == "" {
					mine = append(mine, &entry{})
				}
				ok := true
				for _, e := range mine {
					e.id, e.svc, e.method, e.policy = id, svc, m, name
					key := fmt.Sprintf("%s|%s|%v|%v", svc, m, e.exact, strings.Join(e.segs, "/"))
					if taken[key] {
						ok = false
					}
					e.client = key
				}
				if !ok {
					continue
				}
				for _, e := range mine {
					taken[e.client] = true
					e.client = ""
				}
				// spell the paths in the allowed ways
				if exact != "" && exact != "/" && r.Intn(3) == 0 {
					exact += "/"
				}
				if prefix != "" {
					switch r.Intn(3) {
					case 0:
						prefix = strings.TrimRight(prefix, "/") + "/*"
					case 1:
						if prefix != "/" {
							prefix += "/"
						}
					}
				}
				if r.Intn(8) == 0 && len(w.clients) < 3 {
					cl := fmt.Sprintf("o%d", len(w.clients))
					w.clients = append(w.clients, cl)
					for _, e := range mine {
						e.oidc, e.client = true, ns+"-"+cl
					}
					paths = append(paths, vh.PathEntry("oidc", exact, prefix, method, cl, "", nil))
				} else {
					paths = append(paths, vh.JwtPath(exact, prefix, method, "cfg", []vh.M{vh.Rule("gov", "ANY", "", id)}))
				}
				w.entries = append(w.entries, mine...)
			}
			if len(paths) > 0 {
				targets = append(targets, vh.M{"serviceName": svc, "paths": paths})
			}
		}
		w.names = append(w.names, name)
		w.specs = append(w.specs, vh.M{"targets": targets})
	}
	return w
}

// reqPaths lists interesting request paths for a set of entries.
func reqPaths(r *rand.Rand, es []*entry, extra int) []string {
	set := map[string]bool{}
	add := func(p string) { set[p] = true }
	add("/")
	for _, e := range es {
		base := "/" + strings.Join(e.segs, "/")
		add(base)
		if base != "/" {
			add(base + "/")
			add(base + "//")
			add(base + "x")                                        // not a whole segment
			add(base[:strings.LastIndex(base, "/")] + "/zz")       // sibling
			add(base + "/" + segPool[r.Intn(len(segPool))])        // below
			add(base + "/" + segPool[r.Intn(len(segPool))] + "/q") // further below
			if i := strings.LastIndex(base, "/"); i > 0 {
				add(base[:i]) // parent
			}
			add(base + "//b")
		}
	}
	for _, e := range es {
		// the suffixes mean nothing before the end of a path
		if r.Intn(4) == 0 {
			base := strings.TrimRight("/"+strings.Join(e.segs, "/"), "/")
			add(base + []string{"/oidc/callback/", "/oidc/logout/", "/oidc/callback", "/oidc/logout", "/oidc/callback/oidc/", "/callback/"}[r.Intn(6)] + "x")
		}
	}
	for _, e := range es {
		if len(e.segs) == 0 {
			continue
		}
		// one segment spelled differently
		for k := 0; k < 2; k++ {
			q := append([]string{}, e.segs...)
			i := r.Intn(len(q))
			if k == 0 {
				i = len(q) - 1
			}
			q[i] = respell(r, q[i])
			p := "/" + strings.Join(q, "/")
			if r.Intn(3) == 0 {
				p += "/" + segPool[r.Intn(len(segPool))]
			}
			add(p)
		}
		// far below, and beside it
		if r.Intn(3) == 0 {
			add("/" + strings.Join(e.segs, "/") + genPath(r, 40, segPool))
			add("/" + strings.Join(e.segs, "/") + "/" + strings.Repeat("long", 20+r.Intn(100)))
		}
		add("/" + strings.Join(e.segs[:len(e.segs)-1], "/") + "/" + segPool[r.Intn(len(segPool))])
	}
	for i := 0; i < extra; i++ {
		add(genPath(r, 5, segPool))
	}
	var out []string
	for p := range set {
		if t := strings.TrimRight(p, "/"); !strings.HasSuffix(t, "/oidc/callback") && !strings.HasSuffix(t, "/oidc/logout") {
			out = append(out, p)
		}
	}
	sortStrings(out)
	return out
}

func c01() {
	r := vh.NewReport("C01", "each case is a request against one of many random policy sets (prefix/exact/all paths, methods, several policies, services and spellings), decided by a reference model of policy selection; non-trivial: at least one entry of the service covers it or would with another method or a longer/shorter path")
	vh.NoReuse(r)
	r.Assumptions = []string{"no two entries of a set name the same endpoint (which of them governs is unspecified)", "JWT entries are told apart by a claim rule per entry, OIDC entries by client id"}
	rnd := r.Rand("sets")
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	t := w.IdP.Tenant("main")
	key := vh.NewKey("k1")
	t.SetKeys(key)

	nsets := r.Pick(400, 3000)
	var sets []*polWorld
	for i := 0; i < nsets; i++ {
		pw := genPolicies(rnd, fmt.Sprintf("ns%d", i))
		sets = append(sets, pw)
		w.Kube.Apply(vh.JwtConfigs, pw.ns, "cfg", vh.M{"jwksUrl": t.JwksURL()})
		for _, c := range pw.clients {
			w.Kube.Apply(vh.OidcConfigs, pw.ns, c, vh.M{"clientId": pw.ns + "-" + c, "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
		}
		for _, k := range rnd.Perm(len(pw.specs)) {
			w.Kube.Apply(vh.Policies, pw.ns, pw.names[k], pw.specs[k])
		}
	}
	w.SyncAll()

	seeds := make([]int64, nsets)
	for i := range seeds {
		seeds[i] = rnd.Int63()
	}
	par(nsets, 8, func(i int) {
		if r.TooMany() {
			return
		}
		c01set(r, w, sets[i], key, rand.New(rand.NewSource(seeds[i])))
	})
	w.CheckAlive("answering requests")
	r.Floor("governed_requests", nsets*20)
	r.Floor("ungoverned_requests", nsets)
	r.Floor("fallthrough_to_less_specific", nsets/4)
	r.Finish()
}

var setName = regexp.MustCompile(`^ns[0-9]+$`)

// alike returns a name that resembles n but is another one.
func alike(r *rand.Rand, n string) string {
	o := []string{n + ".", n + " ", " " + n, n + "/", "/" + n, n + "-", n + "0", n[:len(n)-1], strings.ToUpper(n), strings.Title(n),
		n + ".svc", n + ".svc.cluster.local", n + ".svc.cluster.local.", n + ":80", n + "\n", n + "\x00", n + "\u00a0", n + "%20", "%" + n,
		n + "*", "*", "", n + "|" + n, n + n, "default", strings.Replace(n, "s", "\u017f", 1)}
	for {
		if x := o[r.Intn(len(o))]; x != n {
			return x
		}
	}
}

func c01set(r *vh.Report, w *vh.World, pw *polWorld, key *vh.Key, rnd *rand.Rand) {
	all := []string{}
	for _, e := range pw.entries {
		all = append(all, e.id)
	}
	tok := map[string]string{}
	token := func(gov ...string) string {
		k := strings.Join(gov, ",")
		if s, ok := tok[k]; ok {
			return s
		}
		s := key.Sign(vh.BaseClaims("u").With("gov", gov))
		tok[k] = s
		return s
	}
	others := func(id string) string {
		var o []string
		for _, a := range all {
			if a != id {
				o = append(o, a)
			}
		}
		return token(append(o, "none")...)
	}
	paths := reqPaths(rnd, pw.entries, 6)
	if max := 60; len(paths) > max {
		rnd.Shuffle(len(paths), func(a, b int) { paths[a], paths[b] = paths[b], paths[a] })
		paths = paths[:max]
	}
	for _, path := range paths {
		for _, method := range []string{"GET", []string{"POST", "PUT", "DELETE", "PATCH", "HEAD", "OPTIONS", "get", "Post", "GETX", "TRACE", "CONNECT", "PROPFIND"}[rnd.Intn(12)]} {
			svc := pw.svcs[rnd.Intn(len(pw.svcs))]
			ns := pw.ns
			if rnd.Intn(10) == 0 { // a name that merely resembles
				if rnd.Intn(3) == 0 {
					for ns == pw.ns || setName.MatchString(ns) { // (another set's)
						ns = alike(rnd, pw.ns)
					}
				} else {
					svc = alike(rnd, svc)
				}
				r.Count("resembling_names", 1)
			}
			want := governing(pw.entries, svc, method, path)
			if ns != pw.ns {
				want = nil
			}
			suffix := ""
			switch rnd.Intn(6) {
			case 0:
				suffix = "/oidc/callback"
			case 1:
				suffix = "/oidc/logout"
			}
			if strings.Contains(path, suffix) {
				suffix = ""
			}
			req := vh.Get(ns, svc, path)
			if suffix != "" {
				if path == "/" && rnd.Intn(2) == 0 {
					req.TPath, req.Path = suffix, suffix
				} else {
					req.TPath, req.Path = path+suffix, path+suffix
				}
			}
			req.Method = method
			if suffix == "/oidc/callback" {
				req.PErr = "denied"
			}
			nontrivial := false
			for _, e := range pw.entries {
				if e.svc == svc {
					nontrivial = true
				}
			}
			r.Case(fmt.Sprintf("%s %s %s %s", ns, svc, method, req.TPath), nontrivial)
			var why string
			check := func() bool {
				why = c01judge(w, req, want, suffix, token, others)
				return why == ""
			}
			if !w.Eventually(check) {
				if !w.CheckAlive("answering requests") {
					return
				}
				r.Violation(fmt.Sprintf("%s %s%s of service %s: %s", method, path, suffix, svc, why),
					vh.M{"namespace": ns, "request": vh.ReqM(req), "expected_entry": fmt.Sprintf("%+v", want), "policies": pw.specs, "why": why})
				if r.TooMany() {
					return
				}
			}
			if want == nil {
				r.Count("ungoverned_requests", 1)
			} else {
				r.Count("governed_requests", 1)
				// would a more specific entry exist for another method?
				for _, e := range pw.entries {
					if e.svc == svc && e.method != "ALL" && e.method != method && hasSegPrefix(segsOf(path), e.segs) &&
						(!e.exact || len(e.segs) == len(segsOf(path))) && (e.exact || len(e.segs) > len(want.segs)) && !(want.exact) {
						r.Count("fallthrough_to_less_specific", 1)
						break
					}
				}
				if want.oidc {
					r.Count("oidc_governed", 1)
				}
				if suffix != "" {
					r.Count("suffix_requests", 1)
				}
				if strings.Contains(path, "/oidc/") {
					r.Count("suffix_inside_path", 1)
				}
				r.Sample(fmt.Sprintf("exact=%v suffix=%s", want.exact, suffix), vh.M{"request": vh.ReqM(req), "governed_by": fmt.Sprintf("%+v", *want)})
			}
		}
	}
}

func c01judge(w *vh.World, req vh.Req, want *entry, suffix string, token func(...string) string, others func(string) string) string {
	resp := w.Do(req)
	switch {
	case want == nil:
		if !resp.Allowed() {
			return "no entry covers the request but it was not let through: " + resp.String()
		}
	case want.oidc:
		switch suffix {
		case "/oidc/callback":
			if resp.Err != nil || resp.Code != 16 {
				return "callback under an OIDC entry was not rejected as unauthenticated: " + resp.String()
			}
		case "/oidc/logout":
			_, sc, ok := resp.Redirect()
			c := vh.ParseSetCookie(sc)
			if !ok || c == nil || c.Name != "oidc-cookie-"+want.client {
				return "logout was not handled for client " + want.client + ": " + resp.String()
			}
		default:
			a, err := vh.ParseLogin(resp)
			if err != nil {
				return "expected a login with client " + want.client + ": " + err.Error()
			}
			if a.Q.Get("client_id") != want.client {
				return fmt.Sprintf("expected a login with client %s, got %s", want.client, a.Q.Get("client_id"))
			}
		}
		// a token is no credential here, whatever it claims
		req.Authz = "Bearer " + others("")
		if w.Do(req).Allowed() {
			return "an OIDC entry governs, but a bearer token was accepted"
		}
	default:
		if resp.Err != nil || resp.Code != 16 || resp.Direct == nil || resp.Direct.Code != 401 {
			return "expected a challenge without credentials: " + resp.String()
		}
		req.Authz = "Bearer " + token(want.id)
		if a := w.Do(req); !a.Allowed() {
			return fmt.Sprintf("token satisfying only entry %s was rejected (another entry governs): %s", want.id, a)
		}
		req.Authz = "Bearer " + others(want.id)
		if a := w.Do(req); a.Allowed() {
			return fmt.Sprintf("token satisfying every entry but %s was accepted (another entry governs)", want.id)
		}
	}
	return ""
}
