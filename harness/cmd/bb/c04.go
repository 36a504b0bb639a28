package main

import (
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	"verif/harness/vh"
)

func init() { checks["C04"] = c04 }

type crule struct {
	claim, match, source string
	values               []string
}

func (r crule) spec() vh.M { return vh.Rule(r.claim, r.match, r.source, r.values...) }

const (
	no = iota
	yes
	unknown
)

// claimSet is the reference reading of a claim: its values, whether it exists and whether its type is one the documentation names.
func claimSet(c vh.Claims, name string) (vals map[string]bool, present, known bool) {
	var cur interface{} = map[string]interface{}(c)
	for _, seg := range strings.Split(name, ".") {
		o, ok := cur.(map[string]interface{})
		if !ok {
			return nil, false, true
		}
		if cur, ok = o[seg]; !ok {
			return nil, false, true
		}
	}
	vals = map[string]bool{}
	scalar := func(v interface{}) bool {
		switch t := v.(type) {
		case string:
			vals[t] = true
		case bool:
			vals[strconv.FormatBool(t)] = true
		case float64:
			vals[decimal(t)] = true
		default:
			return false
		}
		return true
	}
	switch t := cur.(type) {
	case nil:
		return nil, false, false
	case string:
		for _, s := range strings.Split(t, " ") {
			if s != "" {
				vals[s] = true
			}
		}
		return vals, true, true
	case []interface{}:
		known = true
		for _, v := range t {
			if s, ok := v.(string); ok && strings.Contains(s, " ") {
				known = false
			}
			known = scalar(v) && known
		}
		return vals, true, known
	default:
		return vals, true, scalar(cur)
	}
}

// decimal writes a number the way it is usually written.
func decimal(f float64) string {
	if f == float64(int64(f)) {
		return strconv.FormatInt(int64(f), 10)
	}
	return strconv.FormatFloat(f, 'f', -1, 64)
}

// evalRule is the reference evaluation of one rule on its source token (nil: not sent).
func evalRule(r crule, tok vh.Claims) int {
	if tok == nil {
		return no
	}
	vals, present, known := claimSet(tok, r.claim)
	n := 0
	for _, v := range r.values {
		if vals[v] {
			n++
		}
	}
	if !known {
		if r.match == "NOT" {
			return unknown
		}
		if vals == nil || n == 0 {
			return no
		}
		return unknown
	}
	b := false
	switch r.match {
	case "ANY":
		b = present && n > 0
	case "NOT":
		b = n == 0
	default:
		b = present && n == len(r.values)
	}
	if b {
		return yes
	}
	return no
}

func evalRules(rs []crule, acc, id vh.Claims) (int, []int) {
	out := yes
	var per []int
	for _, r := range rs {
		t := acc
		if r.source == "id_token" {
			t = id
		}
		e := evalRule(r, t)
		per = append(per, e)
		if e == no {
			out = no
		} else if e == unknown && out == yes {
			out = unknown
		}
	}
	return out, per
}

var claimPool = []string{"scope", "aud", "amr", "iss", "groups", "n", "b", "o.s", "o.l", "o.p.q", "o", "o.missing", "missing", "a.b.c.d", "o.s.t", "l.s", "l.0", "l.o.s", "o.l.s", "l", "roles", "Scope", "tenant", "/o/s", "$.o.s", "o/s", "scope"}
var valuePool = []string{"openid", "read", "write", "admin", "100", "1.5", "-3", "0", "true", "false", "users/ü", "reader", "https://x/y?z", "1000000", "0.25", "READ",
	"[admin]", "<nil>", "map[x:1]", `{"x":1}`, "read/", "admin ", " openid", "reader.", "*", "r*", "https://x/y?z/", "https://x/", "1e6", "1000000.0", "TRUE", "01.5", "ｒead", "re\u0301ad", "réad"}

// spellings resemble each other but are different values.
var spellings = []string{"true", "TRUE", "True", "t", "1", "yes", "false", "False", "0", "no", "01", "1.0", "+1", "-1", "1e0", "1.5", "1.50", "1,5", "0.1", ".1", "1000000", "1e6", "1e+06", "1,000,000", "1000000.0", "10000000000", "1e10", "0.000001", "1e-06",
	"admin", "Admin", "ADMIN", "admin1", "adm", "ａdmin", "admin\u200b", "*", "admin*", ".*", "%", "admin,user", "[admin]", "null", "<nil>", "nil", "{}", "réad", "re\u0301ad", "read", "ſ", "s", "K", "\u212a", "k",
	"urn:x:admin", "https://x/admin", "x/admin", "admin/", "/admin", "admin.read", "admin:read", "admin-read", "\"admin\"", "'admin'", "admin\n", "admin\t", "adm%69n", "a\x00", "a"}

// structured is a value of a type rules do not match, whose usual renderings read like s.
func structured(s string) interface{} {
	switch {
	case s == "<nil>":
		return nil
	case s == "map[x:1]" || s == `{"x":1}`:
		return map[string]interface{}{"x": 1.0}
	case strings.HasPrefix(s, "["):
		return []interface{}{s[1 : len(s)-1]}
	}
	return []interface{}{s}
}

func genRule(r *rand.Rand, single bool) crule {
	c := crule{claim: claimPool[r.Intn(len(claimPool))], match: []string{"", "ALL", "ANY", "NOT", "ANY", "ALL"}[r.Intn(6)], source: []string{"", "access_token", "id_token"}[r.Intn(3)]}
	n := []int{1, 1, 2, 3, 5}[r.Intn(5)]
	if single {
		n = 1
	}
	for _, i := range r.Perm(len(valuePool))[:n] {
		c.values = append(c.values, valuePool[i])
	}
	return c
}

// genValue builds a claim value that is likely to hold some of the wanted values.
func genValue(r *rand.Rand, want []string) interface{} {
	pick := func() string {
		if len(want) > 0 && r.Intn(4) != 0 {
			return want[r.Intn(len(want))]
		}
		return valuePool[r.Intn(len(valuePool))]
	}
	typed := func(s string) interface{} {
		if r.Intn(5) == 0 {
			return s
		}
		if s == "true" || s == "false" {
			return s == "true"
		}
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			return f
		}
		if strings.ContainsAny(s, "[{<") {
			return structured(s)
		}
		return s
	}
	var all []string
	if r.Intn(2) == 0 {
		all = append(all, want...)
	}
	for k := r.Intn(3); k > 0 || len(all) == 0; k-- {
		all = append(all, pick())
	}
	r.Shuffle(len(all), func(i, j int) { all[i], all[j] = all[j], all[i] })
	switch r.Intn(15) {
	case 0, 1, 2, 3:
		sep := " "
		if r.Intn(6) == 0 {
			sep = "  "
		}
		return strings.Join(all, sep)
	case 4, 5, 6, 7:
		l := []interface{}{}
		for _, s := range all {
			l = append(l, typed(s))
		}
		return l
	case 8, 9, 10:
		return typed(pick())
	case 11:
		return []interface{}{nil, map[string]interface{}{"x": 1.0}, []interface{}{pick(), map[string]interface{}{}}, []interface{}{[]interface{}{pick()}},
			structured(pick()), []interface{}{structured(pick())}}[r.Intn(6)]
	case 12:
		return []interface{}{}
	default: // near misses: joined with something else than a space, other case, padded
		s := pick()
		return []interface{}{s + "," + pick(), s + "x", "x" + s, strings.Title(s), "[" + s + "]", s + "\t" + pick(), "\"" + s + "\"", s + ".0", "+" + s, s + "/", s + ".",
			strings.Trim(s, " /.*"), strings.Trim(s, " /.*"), strings.TrimRight(s, " /."), strings.ToUpper(s), strings.ToLower(s)}[r.Intn(16)]
	}
}

func setClaim(c map[string]interface{}, name string, v interface{}) {
	segs := strings.Split(name, ".")
	for _, s := range segs[:len(segs)-1] {
		o, ok := c[s].(map[string]interface{})
		if !ok {
			o = map[string]interface{}{}
			c[s] = o
		}
		c = o
	}
	c[segs[len(segs)-1]] = v
}

// decoys are the names under which other systems look for a claim.
var decoys = map[string][]string{"scope": {"scp", "scopes", "permissions", "Scope"}, "/o/s": {"o.s"}, "$.o.s": {"o.s"}, "o/s": {"o.s"}, "roles": {"role", "realm_access.roles", "groups"}, "groups": {"roles", "cognito:groups"},
	"o.s": {"o/s", "/o/s", "s", "os", "o.x.s"}, "o.p.q": {"o.q", "q", "p.q"}, "o.missing": {"missing"}, "missing": {"o.missing"}, "Scope": {"scope"}, "tenant": {"tid", "tenant_id"}, "amr": {"acr"}, "a.b.c.d": {"a.b.c", "a.b.d", "b.c.d", "d"}}

// genClaims builds claims for one token with the rules' claims in mind.
func genClaims(r *rand.Rand, rs []crule, src string) vh.Claims {
	c := map[string]interface{}(vh.BaseClaims(fmt.Sprint("u", r.Intn(5))))
	delete(c, "iss")
	wants := map[string][]string{}
	var order []string
	for _, x := range rs {
		s := x.source
		if s == "" {
			s = "access_token"
		}
		if s != src && r.Intn(3) != 0 {
			continue
		}
		if _, ok := wants[x.claim]; !ok {
			order = append(order, x.claim)
		}
		if x.match == "NOT" && r.Intn(2) == 0 {
			wants[x.claim] = append(wants[x.claim])
		} else {
			wants[x.claim] = append(wants[x.claim], x.values...)
		}
	}
	for i := r.Intn(4); i > 0; i-- {
		n := claimPool[r.Intn(len(claimPool))]
		if _, ok := wants[n]; !ok {
			wants[n] = nil
			order = append(order, n)
		}
	}
	for _, n := range order {
		if strings.Contains(n, "missing") || r.Intn(8) == 0 {
			// the values may be there under a name that resembles it
			if r.Intn(2) == 0 && len(wants[n]) > 0 {
				d := append([]string{n + "s", n + "_", "/" + n, "ext." + n, "claims." + n, "urn:x/" + n, "_" + n, strings.ToUpper(n)}, decoys[n]...)
				if k := len(decoys[n]); k > 0 && r.Intn(2) == 0 {
					d = decoys[n]
				}
				setClaim(c, d[r.Intn(len(d))], []interface{}{strings.Join(wants[n], " "), wants[n]}[r.Intn(2)])
			}
			continue
		}
		w := wants[n]
		if r.Intn(5) == 0 && len(w) > 0 { // drop one wanted value
			w = w[:len(w)-1]
		}
		v := genValue(r, w)
		if n == "iss" || n == "aud" { // their type is fixed by the JWT standard
			if len(w) > 0 {
				v = w[r.Intn(len(w))]
			} else {
				v = "someone"
			}
			if n == "aud" && len(w) > 0 && r.Intn(2) == 0 {
				l := []interface{}{}
				for _, s := range w {
					l = append(l, s)
				}
				v = l
			}
		}
		setClaim(c, n, v)
	}
	// what lies within a list has no name
	if o, ok := c["l"].(map[string]interface{}); ok && r.Intn(2) == 0 {
		c["l"] = []interface{}{[]interface{}{o}, []interface{}{o, o}, []interface{}{"x", o}, []interface{}{[]interface{}{o}}}[r.Intn(4)]
	}
	if o, ok := c["o"].(map[string]interface{}); ok {
		if l, ok := o["l"].(map[string]interface{}); ok && r.Intn(2) == 0 {
			o["l"] = []interface{}{l}
		}
	}
	// normalise through JSON, as the adapter reads it
	var out map[string]interface{}
	json.Unmarshal(vh.MustJSON(c), &out)
	for k, v := range out { // dates stay integers for the signer
		if f, ok := v.(float64); ok && (k == "exp" || k == "iat" || k == "nbf") {
			out[k] = int64(f)
		}
	}
	return vh.Claims(out)
}

func c04() {
	r := vh.NewReport("C04", "cases are requests (or logins) with a random validly signed token pair against a random rule list, decided by an independent evaluator of the documented rule semantics; distinct by rule list and token pair; non-trivial: the list has a rule")
	r.Assumptions = []string{"claim types the documentation does not name (null, objects, lists of objects, list elements with spaces) are judged only where every reading agrees", "rule lists are absent or non-empty"}
	rnd := r.Rand("rules")
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	t := w.IdP.Tenant("main")
	vh.PreKeys(2, 2048)
	k1, k2 := vh.NewKey("k1"), vh.NewKey("k2")
	t.SetKeys(k1, k2)
	const ns = "n"
	w.Kube.Apply(vh.JwtConfigs, ns, "j", vh.M{"jwksUrl": t.JwksURL()})

	nlists := r.Pick(420, 4000)
	lists := make([][]crule, nlists)
	var paths []vh.M
	np := 0
	flush := func() {
		if len(paths) > 0 {
			w.Kube.Apply(vh.Policies, ns, fmt.Sprintf("p%d", np), vh.Spec("svc", paths...))
			np++
			paths = nil
		}
	}
	for i := range lists {
		n := 1 + rnd.Intn(4)
		if i%3 == 0 {
			n = 1
		}
		var specs []vh.M
		for k := 0; k < n; k++ {
			c := genRule(rnd, i%6 == 0)
			if k > 0 && rnd.Intn(3) == 0 { // several rules on one claim, also across tokens
				c.claim = lists[i][0].claim
			}
			lists[i] = append(lists[i], c)
			specs = append(specs, c.spec())
		}
		if i%20 == 7 {
			lists[i], specs = nil, nil
		}
		paths = append(paths, vh.JwtPath(fmt.Sprintf("/r%d", i), "", "", "j", specs))
		if len(paths) == 10 {
			flush()
		}
	}
	flush()
	// OIDC policies
	nol := r.Pick(60, 400)
	olists := make([][]crule, nol)
	w.Kube.Apply(vh.OidcConfigs, ns, "o", vh.M{"clientId": "client-1", "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
	for i := range olists {
		var specs []vh.M
		for k := 0; k < 1+rnd.Intn(3); k++ {
			c := genRule(rnd, false)
			olists[i] = append(olists[i], c)
			specs = append(specs, c.spec())
		}
		paths = append(paths, vh.PathEntry("oidc", fmt.Sprintf("/o%d", i), "", "", "o", "", specs))
		if len(paths) == 10 {
			flush()
		}
	}
	flush()
	// long lists of rules
	nlong := r.Pick(40, 400)
	longs := make([][]crule, nlong)
	for i := range longs {
		longs[i] = longRules(rnd)
		typ, cfg := "jwt", "j"
		if i%2 == 1 {
			typ, cfg = "oidc", "o"
		}
		paths = append(paths, vh.PathEntry(typ, fmt.Sprintf("/long%d", i), "", "", cfg, "", specsOf(longs[i])))
		if len(paths) == 10 {
			flush()
		}
	}
	flush()
	// lists that differ in one point only
	nsib := r.Pick(30, 300)
	sibs := make([][][]crule, nsib)
	for i := range sibs {
		sibs[i] = siblings(rnd)
		typ, cfg := "jwt", "j"
		if i%3 == 2 {
			typ, cfg = "oidc", "o"
		}
		for k, l := range sibs[i] {
			paths = append(paths, vh.PathEntry(typ, fmt.Sprintf("/sib%d/%d", i, k), "", "", cfg, "", specsOf(l)))
		}
		flush()
	}
	// one value, spelled in every way, against one claim, of every type and spelling
	for i, v := range spellings {
		for _, m := range []string{"ANY", "NOT"} {
			paths = append(paths, vh.PathEntry("jwt", fmt.Sprintf("/spell%d/%s", i, m), "", "", "j", "", specsOf([]crule{{claim: "c", match: m, values: []string{v}}})))
		}
		flush()
	}
	w.SyncAll()

	seeds := make([]int64, nlists+nol)
	for i := range seeds {
		seeds[i] = rnd.Int63()
	}
	name := func(v int) string { return []string{"denied", "allowed", "unspecified"}[v] }
	note := func(rs []crule, per []int, want int) {
		r.Count("expected_"+name(want), 1)
		for i, x := range rs {
			m := x.match
			if m == "" {
				m = "default"
			}
			s := x.source
			if s == "" {
				s = "default"
			}
			r.Count("rule_"+m+"_"+s+"_"+name(per[i]), 1)
		}
	}
	par(nlists, 8, func(i int) {
		rnd := rand.New(rand.NewSource(seeds[i]))
		rs := lists[i]
		for k := 0; k < r.Pick(14, 30) && !r.TooMany(); k++ {
			acc := genClaims(rnd, rs, "access_token")
			var id vh.Claims
			toks := []string{[]*vh.Key{k1, k2}[rnd.Intn(2)].Sign(acc)}
			if rnd.Intn(4) != 0 {
				id = genClaims(rnd, rs, "id_token")
				toks = append(toks, []*vh.Key{k1, k2}[rnd.Intn(2)].Sign(id))
			}
			if rnd.Intn(6) == 0 { // one token in both roles
				if k%2 == 0 {
					toks = append(toks[:1], toks[0])
					id = acc
				} else if id != nil {
					toks[0], acc = toks[1], id
				}
				r.Count("one_token_twice", 1)
			}
			want, per := evalRules(rs, acc, id)
			note(rs, per, want)
			req := vh.Bearer(ns, "svc", fmt.Sprintf("/r%d", i), toks...)
			resp := w.Do(req)
			r.Case(fmt.Sprint(i, ".", k), len(rs) > 0)
			wit := vh.M{"rules": specsOf(rs), "access_token": acc, "id_token": id, "expected": name(want), "rule_by_rule": per, "got": resp.String(), "request": vh.ReqM(req)}
			if k == 0 && i < 40 {
				r.Sample("jwt-"+name(want), wit)
			}
			if want != unknown && resp.Allowed() != (want == yes) {
				if want == yes && w.Eventually(func() bool { return w.Do(req).Allowed() }) {
					continue
				}
				if w.CheckAlive("evaluating rules") {
					r.Violation(fmt.Sprintf("rules %s: expected %s, got %s", vh.MustJSON(specsOf(rs)), name(want), trunc(resp.String(), 200)), wit)
				}
			}
		}
	})
	par(nol, 8, func(i int) {
		rnd := rand.New(rand.NewSource(seeds[nlists+i]))
		rs := olists[i]
		for k := 0; k < r.Pick(5, 12) && !r.TooMany(); k++ {
			acc, id := genClaims(rnd, rs, "access_token"), genClaims(rnd, rs, "id_token")
			want, per := evalRules(rs, acc, id)
			a, d := k1.Sign(acc), k2.Sign(id)
			b := vh.NewBrowser()
			if rnd.Intn(5) == 0 {
				if k%2 == 0 {
					a, acc = d, id
				} else {
					d, id = a, acc
				}
				want, per = evalRules(rs, acc, id)
				r.Count("one_token_twice", 1)
			}
			note(rs, per, want)
			page := vh.Get(ns, "svc", fmt.Sprintf("/o%d", i))
			resp, sess, err := w.Login(b, page, t, vh.Give(vh.Tokens{Access: a, ID: d}))
			r.Case(fmt.Sprint("o", i, ".", k), true)
			r.Count("logins", 1)
			wit := vh.M{"rules": specsOf(rs), "access_token": acc, "id_token": id, "expected": name(want), "rule_by_rule": per, "callback": resp.String(), "error": fmt.Sprint(err)}
			ok := sess != nil
			if ok {
				again := w.Visit(b, page)
				wit["request"] = again.String()
				if !again.Allowed() && w.Eventually(func() bool { return w.Visit(b, page).Allowed() }) {
					continue
				}
				ok = again.Allowed()
			}
			if i < 6 && k == 0 {
				r.Sample("oidc-"+name(want), wit)
			}
			if want != unknown && ok != (want == yes) && w.CheckAlive("evaluating rules") {
				r.Violation(fmt.Sprintf("OIDC rules %s: expected %s, got session=%v", vh.MustJSON(specsOf(rs)), name(want), ok), wit)
			}
		}
	})
	lseeds := make([]int64, nlong)
	for i := range lseeds {
		lseeds[i] = rnd.Int63()
	}
	par(nlong, 8, func(i int) {
		rnd := rand.New(rand.NewSource(lseeds[i]))
		rs := longs[i]
		order := append([]int{-1, 0, len(rs) - 1}, rnd.Perm(len(rs))...)[:r.Pick(8, 16)-i%2*2]
		for k, broken := range order {
			if r.TooMany() {
				return
			}
			acc, id := longClaims(rnd, rs, broken)
			want, _ := evalRules(rs, acc, id)
			var ok bool
			var got string
			page := vh.Get(ns, "svc", fmt.Sprintf("/long%d", i))
			if i%2 == 0 {
				req := vh.Bearer(ns, "svc", page.Path, k1.Sign(acc), k2.Sign(id))
				resp := w.Do(req)
				ok, got = resp.Allowed(), resp.String()
				if want == yes && !ok {
					ok = w.Eventually(func() bool { return w.Do(req).Allowed() })
				}
			} else {
				b := vh.NewBrowser()
				resp, sess, _ := w.Login(b, page, t, vh.Give(vh.Tokens{Access: k1.Sign(acc), ID: k2.Sign(id)}))
				got = resp.String()
				if ok = sess != nil; ok {
					resp = w.Visit(b, page)
					ok, got = resp.Allowed(), resp.String()
				}
			}
			r.Case(fmt.Sprint("long", i, ".", k), true)
			r.Count("long_lists_"+name(want), 1)
			if want != unknown && ok != (want == yes) && w.CheckAlive("evaluating rules") {
				r.Violation(fmt.Sprintf("a list of %d rules: expected %s, got %s", len(rs), name(want), trunc(got, 200)), vh.M{"rules": specsOf(rs), "access_token": acc, "id_token": id, "the rule not met": broken})
			}
		}
	})
	// the same tokens presented to each list of a family, in any order and at the same time
	sseeds := make([]int64, nsib)
	for i := range sseeds {
		sseeds[i] = rnd.Int63()
	}
	par(nsib, 4, func(i int) {
		rnd := rand.New(rand.NewSource(sseeds[i]))
		for n := 0; n < r.Pick(3, 8) && !r.TooMany(); n++ {
			acc, id := siblingClaims(rnd), siblingClaims(rnd)
			a, d := k1.Sign(acc), k2.Sign(id)
			order := append(rnd.Perm(len(sibs[i])), rnd.Perm(len(sibs[i]))...)
			one := func(k int) {
				want, _ := evalRules(sibs[i][k], acc, id)
				page := vh.Get(ns, "svc", fmt.Sprintf("/sib%d/%d", i, k))
				ok, got := false, ""
				if i%3 == 2 {
					b := vh.NewBrowser()
					resp, sess, _ := w.Login(b, page, t, vh.Give(vh.Tokens{Access: a, ID: d}))
					if ok, got = sess != nil, resp.String(); ok {
						resp = w.Visit(b, page)
						ok, got = resp.Allowed(), resp.String()
					}
				} else {
					req := vh.Bearer(ns, "svc", page.Path, a, d)
					resp := w.Do(req)
					if ok, got = resp.Allowed(), resp.String(); want == yes && !ok {
						ok = w.Eventually(func() bool { return w.Do(req).Allowed() })
					}
				}
				r.Case(fmt.Sprint("sib", i, ".", k, ".", n), true)
				r.Count("siblings_"+name(want), 1)
				if want != unknown && ok != (want == yes) && w.CheckAlive("evaluating rules") {
					r.Violation(fmt.Sprintf("tokens also presented to similar rule lists: expected %s, got %s", name(want), trunc(got, 200)), vh.M{"rules": specsOf(sibs[i][k]), "all lists": sibs[i], "access_token": acc, "id_token": id})
				}
			}
			if n%2 == 0 {
				for _, k := range order {
					one(k)
				}
			} else {
				par(len(order), len(order), func(x int) { one(order[x]) })
			}
		}
	})
	var spelled []interface{}
	for _, v := range spellings {
		spelled = append(spelled, v, []interface{}{v})
		if strings.EqualFold(v, "true") || strings.EqualFold(v, "false") {
			spelled = append(spelled, strings.EqualFold(v, "true"), []interface{}{strings.EqualFold(v, "true")})
		}
		if n, err := strconv.ParseFloat(v, 64); err == nil && math.Abs(n) < 1<<53 {
			spelled = append(spelled, n, []interface{}{n})
		}
	}
	par(len(spelled), 8, func(k int) {
		acc := vh.BaseClaims("u").With("c", spelled[k])
		tok := k1.Sign(acc)
		for i, v := range spellings {
			for _, m := range []string{"ANY", "NOT"} {
				if r.TooMany() {
					return
				}
				rule := crule{claim: "c", match: m, values: []string{v}}
				want := evalRule(rule, acc)
				if want == unknown {
					continue
				}
				req := vh.Bearer(ns, "svc", fmt.Sprintf("/spell%d/%s", i, m), tok)
				resp := w.Do(req)
				if want == yes && !resp.Allowed() {
					w.Eventually(func() bool { resp = w.Do(req); return resp.Allowed() })
				}
				r.Case(fmt.Sprint("spell", k, ".", i, m), true)
				r.Count("spellings_"+name(want), 1)
				if resp.Allowed() != (want == yes) && w.CheckAlive("evaluating rules") {
					r.Violation(fmt.Sprintf("claim %s and a rule that %s %q: expected %s, got %s", vh.MustJSON(spelled[k]), map[string]string{"ANY": "wants", "NOT": "rules out"}[m], v, name(want), trunc(resp.String(), 200)), vh.M{"rule": rule.spec(), "access_token": acc})
				}
			}
		}
	})
	w.CheckAlive("evaluating rules")
	r.Floor("spellings_allowed", 500)
	r.Floor("spellings_denied", 500)
	r.Floor("siblings_allowed", 100)
	r.Floor("siblings_denied", 300)
	r.Floor("one_token_twice", 100)
	r.Floor("long_lists_allowed", 20)
	r.Floor("long_lists_denied", 100)
	for _, m := range []string{"default", "ALL", "ANY", "NOT"} {
		for _, s := range []string{"default", "access_token", "id_token"} {
			r.Floor("rule_"+m+"_"+s+"_allowed", 25)
			r.Floor("rule_"+m+"_"+s+"_denied", 25)
		}
	}
	r.Floor("expected_allowed", 300)
	r.Floor("expected_denied", 300)
	r.Finish()
}

func specsOf(rs []crule) []vh.M {
	out := []vh.M{}
	for _, x := range rs {
		out = append(out, x.spec())
	}
	return out
}

// longRules is a long list of rules, most on claims of their own, some with many values.
func longRules(r *rand.Rand) []crule {
	var rs []crule
	n := 5 + r.Intn(30)
	for i := 0; i < n; i++ {
		c := crule{claim: fmt.Sprint("k", i), match: []string{"", "ALL", "ANY", "NOT"}[r.Intn(4)], source: []string{"", "access_token", "id_token"}[r.Intn(3)]}
		switch r.Intn(6) {
		case 0:
			c.claim = "deep." + strings.Repeat("er.", r.Intn(20)) + c.claim
		case 1:
			c.claim = c.claim + strings.Repeat("-long", 40)
		}
		if i > 0 && r.Intn(3) == 0 { // another rule on a claim that has one
			o := rs[r.Intn(len(rs))]
			c.claim, c.source = o.claim, o.source
			if r.Intn(2) == 0 {
				c.match = o.match
			}
		}
		m := 1
		if r.Intn(3) == 0 {
			m = 2 + r.Intn(60)
		}
		for k := 0; k < m; k++ {
			v := fmt.Sprint("v", r.Intn(10), "-", i, "-", k)
			if r.Intn(10) == 0 {
				v += strings.Repeat("x", 300)
			}
			c.values = append(c.values, v)
		}
		rs = append(rs, c)
	}
	return rs
}

// longClaims builds claims that satisfy all of the rules, except the broken one.
func longClaims(r *rand.Rand, rs []crule, broken int) (acc, id vh.Claims) {
	a, d := map[string]interface{}(vh.BaseClaims("u")), map[string]interface{}(vh.BaseClaims("u"))
	earlier := map[string][]string{}
	for i, x := range rs {
		var vals []string
		switch x.match {
		case "ANY":
			if i != broken {
				vals = []string{x.values[[]int{0, len(x.values) - 1, r.Intn(len(x.values))}[r.Intn(3)]]}
			}
		case "NOT":
			if i == broken {
				vals = []string{x.values[[]int{0, len(x.values) - 1, r.Intn(len(x.values))}[r.Intn(3)]]}
			}
		default:
			vals = append(vals, x.values...)
			if i == broken {
				k := []int{0, len(vals) - 1, r.Intn(len(vals))}[r.Intn(3)]
				vals = append(vals[:k], vals[k+1:]...)
			}
		}
		key := x.claim
		if x.source == "id_token" {
			key += " of the ID token"
		}
		vals = append(vals, earlier[key]...)
		earlier[key] = append([]string{}, vals...)
		r.Shuffle(len(vals), func(i, j int) { vals[i], vals[j] = vals[j], vals[i] })
		others := r.Intn(40)
		if r.Intn(12) == 0 {
			others = 100 + r.Intn(1500)
		}
		at := r.Intn(others + 1)
		var all []string
		for k := 0; k < others; k++ {
			if k == at {
				all = append(all, vals...)
			}
			all = append(all, fmt.Sprint("other", k))
		}
		if at == others {
			all = append(all, vals...)
		}
		if len(all) == 0 && r.Intn(2) == 0 {
			continue
		}
		var v interface{} = strings.Join(all, " ")
		if r.Intn(2) == 0 {
			l := []interface{}{}
			for _, s := range all {
				l = append(l, s)
			}
			v = l
		}
		if x.source == "id_token" {
			setClaim(d, x.claim, v)
		} else {
			setClaim(a, x.claim, v)
		}
	}
	return vh.Claims(a), vh.Claims(d)
}

// siblings is a family of rule lists of which each differs from the first in one point: the values, the match, the source, the claim or the order.
func siblings(r *rand.Rand) [][]crule {
	base := []crule{{claim: []string{"role", "grp.role", "tag"}[r.Intn(3)], match: []string{"", "ALL", "ANY", "NOT"}[r.Intn(4)], source: []string{"", "access_token", "id_token"}[r.Intn(3)], values: []string{"aaaa"}}}
	if r.Intn(2) == 0 {
		base[0].values = []string{"aaaa", "bbbb"}
	}
	if r.Intn(2) == 0 {
		base = append(base, crule{claim: "tag", match: "ANY", source: []string{"", "access_token", "id_token"}[r.Intn(3)], values: []string{"aaaa", "cccc"}})
	}
	family := [][]crule{base}
	vary := func(f func(l []crule)) {
		l := append([]crule(nil), base...)
		for i := range l {
			l[i].values = append([]string(nil), l[i].values...)
		}
		f(l)
		family = append(family, l)
	}
	vary(func(l []crule) { l[0].values[0] = "cccc" })
	vary(func(l []crule) { l[len(l)-1].values[len(l[len(l)-1].values)-1] = "dddd" })
	vary(func(l []crule) { l[0].values = append(l[0].values, "dddd") })
	vary(func(l []crule) {
		l[0].match = map[string]string{"": "ANY", "ALL": "NOT", "ANY": "ALL", "NOT": "ANY"}[l[0].match]
	})
	vary(func(l []crule) {
		l[0].match = map[string]string{"": "NOT", "ALL": "ANY", "ANY": "NOT", "NOT": "ALL"}[l[0].match]
	})
	vary(func(l []crule) {
		l[0].source = map[string]string{"": "id_token", "access_token": "id_token", "id_token": "access_token"}[l[0].source]
	})
	vary(func(l []crule) {
		l[0].claim = map[string]string{"role": "tag", "grp.role": "role", "tag": "grp.role"}[l[0].claim]
	})
	return family
}

func siblingClaims(r *rand.Rand) vh.Claims {
	c := vh.BaseClaims("user").With("aud", "client-1")
	v := func() interface{} {
		l := []interface{}{}
		for _, x := range []string{"aaaa", "bbbb", "cccc", "dddd"} {
			if r.Intn(2) == 0 {
				l = append(l, x)
			}
		}
		if len(l) == 1 {
			return l[0]
		}
		return l
	}
	return c.With("role", v()).With("tag", v()).With("grp", map[string]interface{}{"role": v()})
}
