package main

import (
	"bytes"
	"encoding/base64"
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verif/harness/vh"
)

func init() { checks["C07"] = c07 }

func c07() {
	r := vh.NewReport("C07", "cases are callbacks with forged, tampered (every position), truncated (every length), aged, re-encoded, swapped, foreign-client and foreign-key state cookies and states, which must reach neither the token endpoint nor a session, between ordinary logins that must; distinct by kind and position; the IdP's request log is the oracle")
	r.Assumptions = []string{"ageing re-seals a cookie the adapter issued with all its times moved back; it is skipped when the cookie's content cannot be read", "an alteration of a cookie that decodes to the same bytes is not judged"}
	rnd := r.Rand("c07")
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	t := w.IdP.Tenant("main")
	key := vh.NewKey("k1")
	t.SetKeys(key)
	const ns = "n"
	clients := []string{"client-1", "client-2", "Client-1", "client-1 ", "client-11", "a b", "a+b", "a%20b", "x=y;z", "web.shop", "web.blog", "web", "web.", ".web", "client-1.b", "realm/web", "realm/app", "web|shop", "web:shop", "a b c", strings.Repeat("long", 40) + "1", strings.Repeat("long", 40) + "2"}
	var paths []vh.M
	for i, c := range clients {
		w.Kube.Apply(vh.OidcConfigs, ns, fmt.Sprintf("o%d", i), vh.M{"clientId": c, "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
		paths = append(paths, vh.PathEntry("oidc", "", fmt.Sprintf("/c%d", i), "", fmt.Sprintf("o%d", i), "", nil))
	}
	w.Kube.Apply(vh.Policies, ns, "p", vh.Spec("svc", paths...))
	w.SyncAll()

	var accepted int64
	tokens := make([]vh.Tokens, len(clients))
	for i, c := range clients {
		tokens[i] = vh.Tokens{Access: key.Sign(vh.BaseClaims("u").With("aud", []string{c})), ID: key.Sign(vh.BaseClaims("u").With("aud", []string{c}))}
	}
	page := func(i int) vh.Req { return vh.Get(ns, "svc", fmt.Sprintf("/c%d/home", i)) }
	// start begins a login and returns its state, cookie name and value
	start := func(i int) (state, name, value string) {
		for n := 0; ; n++ {
			a, err := vh.ParseLogin(w.Do(page(i)))
			if err == nil {
				return a.State, a.Cookie.Name, a.Cookie.Value
			}
			if n > 40 || !w.CheckAlive("starting a login") {
				r.Violation("no login can be started: "+err.Error(), vh.M{"client": clients[i]})
				r.Finish()
			}
			time.Sleep(100 * time.Millisecond)
		}
	}
	// attempt sends a callback and reports whether the token endpoint saw it and whether a session came of it
	attempt := func(i int, cookies, state, perr string, withCode bool) (reached, session bool, resp *vh.Resp, req vh.Req) {
		code := w.NextCode()
		var hits int64
		t.Code(code, func(*vh.HReq) (int, []byte) {
			atomic.AddInt64(&hits, 1)
			atomic.AddInt64(&accepted, 1)
			return 200, vh.TokenJSON(tokens[i])
		})
		if !withCode {
			code = ""
		}
		req = vh.Callback(page(i), code, state)
		req.Cookies = cookies
		req.PErr = perr
		resp = w.Do(req)
		reached = atomic.LoadInt64(&hits) > 0
		b := vh.NewBrowser()
		if b.Take(resp) != nil {
			session = w.Visit(b, page(i)).Allowed()
		}
		return reached, session || resp.Allowed(), resp, req
	}
	reject := func(kind string, i int, cookies, state, perr string, withCode bool) {
		if r.TooMany() {
			return
		}
		reached, session, resp, req := attempt(i, cookies, state, perr, withCode)
		r.Case(kind, true)
		r.Count("rejected_callbacks", 1)
		wit := vh.M{"kind": kind, "client": clients[i], "request": vh.ReqM(req), "answer": resp.String(), "token_request": reached, "session": session}
		r.Sample(strings.SplitN(kind, " ", 2)[0], wit)
		if (reached || session) && w.CheckAlive("handling callbacks") {
			r.Violation(fmt.Sprintf("%s: callback accepted (token request %v, session %v)", kind, reached, session), wit)
		}
	}
	accept := func(kind string, i int, cookies, state string) {
		if r.TooMany() {
			return
		}
		reached, session, resp, req := attempt(i, cookies, state, "", true)
		r.Case(kind, true)
		r.Count("accepted_callbacks", 1)
		if (!reached || !session) && w.CheckAlive("handling callbacks") {
			r.Violation(fmt.Sprintf("%s: callback not accepted (token request %v, session %v)", kind, reached, session), vh.M{"kind": kind, "client": clients[i], "request": vh.ReqM(req), "answer": resp.String()})
		}
	}

	// ---- the honest login, with other cookies around
	for i := range clients {
		s, n, v := start(i)
		accept(fmt.Sprintf("honest %d", i), i, n+"="+v, s)
		s, n, v = start(i)
		accept(fmt.Sprintf("honest with others %d", i), i, "a=b; other="+v+"; "+n+"="+v+"; z=\"q\"", s)
	}

	// ---- cookies that are not the one handed out
	s, n, v := start(0)
	raw, _ := base64.URLEncoding.DecodeString(v)
	sameBytes := func(x string) bool {
		b, err := base64.URLEncoding.DecodeString(x)
		return err == nil && bytes.Equal(b, raw)
	}
	type c struct{ kind, cookie, state string }
	var cs []c
	add := func(kind, cookie, state string) { cs = append(cs, c{kind, cookie, state}) }
	add("missing cookie", "", s)
	add("missing cookie, empty state", "", "")
	add("empty cookie", n+"=", s)
	add("empty cookie, empty state", n+"=", "")
	add("garbage cookie", n+"=garbage", s)
	add("state as cookie", n+"="+s, s)
	add("cookie as state", n+"="+v, v)
	add("prefix name", n[:len(n)-1]+"="+v, s)
	add("longer name", n+"1="+v, s)
	add("upper name", strings.ToUpper(n)+"="+v, s)
	add("base name", "oidc-cookie="+v, s)
	add("re-encoded std", n+"="+base64.StdEncoding.EncodeToString(raw)+"x", s)
	add("re-encoded twice", n+"="+base64.URLEncoding.EncodeToString([]byte(v)), s)
	add("re-encoded hex", n+"="+fmt.Sprintf("%x", raw), s)
	add("appended", n+"="+v+"A", s)
	add("appended quad", n+"="+v+"AAAA", s)
	add("doubled", n+"="+v+v, s)
	add("huge", n+"="+strings.Repeat(v, 40), s)
	for k := 0; k < len(v); k++ {
		x := v[:k]
		if !sameBytes(x) {
			add(fmt.Sprintf("truncated to %d", k), n+"="+x, s)
		}
		const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
		for q := 0; q < r.Pick(1, 5); q++ {
			x = v[:k] + string(alpha[rnd.Intn(64)]) + v[k+1:]
			if x != v && !sameBytes(x) {
				add(fmt.Sprintf("tampered at %d.%d", k, q), n+"="+x, s)
			}
		}
	}
	// the same, on the decoded bytes
	for k := 0; k < len(raw); k++ {
		x := append([]byte{}, raw...)
		x[k] ^= byte(1 << uint(rnd.Intn(8)))
		add(fmt.Sprintf("bit flipped in byte %d", k), n+"="+base64.URLEncoding.EncodeToString(x), s)
	}
	parts := bytes.SplitN(raw, []byte("|"), 3)
	if len(parts) == 3 {
		for _, p := range [][][]byte{{parts[0], parts[1], nil}, {parts[0], parts[1], make([]byte, 32)}, {[]byte("0"), parts[1], parts[2]}, {[]byte("99999999999"), parts[1], parts[2]}, {parts[0], nil, parts[2]}, {parts[0], parts[1], parts[2][:16]}} {
			add(fmt.Sprintf("re-assembled %q", trunc(string(p[0]), 12)), n+"="+base64.URLEncoding.EncodeToString(bytes.Join(p, []byte("|"))), s)
		}
	}
	// forged by somebody without the keys
	now := time.Now()
	for _, k := range [][2]string{{"", vh.BlockKey}, {strings.Repeat("\x00", 32), vh.BlockKey}, {vh.BlockKey, vh.BlockKey}, {strings.Repeat("x", 32), vh.BlockKey}, {strings.Repeat("x", 32), strings.Repeat("y", 16)}, {vh.HashKey[:31], vh.BlockKey}} {
		add(fmt.Sprintf("forged with hash key %q", k[0]), n+"="+vh.SealState(n, vh.StateCookie{TS: now.Unix(), Value: "forged", Exp: now.Add(time.Hour)}, k[0], k[1]), "forged")
	}
	for _, plain := range []string{`{"Value":"forged","Expiration":"2099-01-01T00:00:00Z"}`, "forged", "\x00"} {
		add("plain "+trunc(plain, 6), n+"="+base64.URLEncoding.EncodeToString([]byte(plain)), "forged")
	}
	// ---- wrong states for the right cookie
	for _, x := range []string{"", " ", s + " ", " " + s, s + "\x00", s + "=", s + "==", "=" + s, s + "&", s + "+", s + "%20", s + "\n", "\n" + s, s + "\t", s + "#", s + "/", s + "\xff", s + "\u200b", "\ufeff" + s, s + ",", s + "," + s, s + "|", s + "|" + s, s + ".", "\"" + s + "\"", s[:len(s)/2], s[:1], s[1 : len(s)-1], s[len(s)/2:], s[:len(s)-1], s[1:], s + s, strings.ToUpper(s) + "x", strings.ToLower(s) + "y", rot(s), "null", "undefined", "%00", n, base64.StdEncoding.EncodeToString([]byte(s)), strings.Repeat("a", len(s)), strings.Repeat("x", 100000)} {
		add("wrong state "+trunc(x, 20), n+"="+v, x)
	}
	if x := swapCase(s); x != s {
		add("state in other case", n+"="+v, x)
	}
	// ---- cookies of other clients
	for i := 1; i < len(clients); i++ {
		s2, n2, v2 := start(i)
		add(fmt.Sprintf("cookie of client %d renamed", i), n+"="+v2, s2)
		add(fmt.Sprintf("cookie of client %d under its name", i), n2+"="+v2, s2)
		add(fmt.Sprintf("both cookies %d, foreign state", i), n+"="+v+"; "+n2+"="+v2, s2)
	}
	// a session cookie is no state cookie
	sb := vh.NewBrowser()
	if _, sc, err := w.Login(sb, page(0), t, vh.Give(tokens[0])); sc != nil {
		atomic.AddInt64(&accepted, 1)
		add("session cookie", n+"="+sc.Value, sc.Value)
		add("session cookie, old state", n+"="+sc.Value, s)
		add("session cookie, empty state", n+"="+sc.Value, "")
	} else {
		r.Violation("login does not work: "+fmt.Sprint(err), nil)
	}
	par(len(cs), 8, func(k int) { reject(cs[k].kind, 0, cs[k].cookie, cs[k].state, "", true) })
	accept("the cookie after all manipulations", 0, n+"="+v, s)

	// ---- error and missing code
	for _, e := range []string{"access_denied", "x", " ", "server_error", "code", "\"", strings.Repeat("e", 5000)} {
		s, n, v := start(0)
		reject("error "+trunc(e, 20)+" with code", 0, n+"="+v, s, e, true)
		reject("error "+trunc(e, 20)+" without code", 0, n+"="+v, s, e, false)
		reject("error "+trunc(e, 20)+" without anything", 0, "", "", e, false)
	}
	for i := range clients {
		s, n, v := start(i)
		reject(fmt.Sprintf("no code %d", i), i, n+"="+v, s, "", false)
		reject(fmt.Sprintf("no code, no state %d", i), i, n+"="+v, "", "", false)
	}

	// ---- many browsers at once, states swapped among them
	nb := r.Pick(60, 400)
	type br struct{ s, n, v string }
	brs := make([]br, nb)
	par(nb, 8, func(k int) { brs[k].s, brs[k].n, brs[k].v = start(k % 3) })
	par(nb, 8, func(k int) {
		for d := 1; d <= 4; d++ {
			o := (k + d) % nb
			reject(fmt.Sprintf("swapped browsers %d %d", k, d), k%3, brs[k].n+"="+brs[k].v, brs[o].s, "", true)
		}
	})
	par(nb, 8, func(k int) { accept("browser after swaps", k%3, brs[k].n+"="+brs[k].v, brs[k].s) })

	// ---- clients among themselves
	type own struct{ s, n, v string }
	os := make([]own, len(clients))
	for i := range clients {
		os[i].s, os[i].n, os[i].v = start(i)
	}
	par(len(clients)*len(clients), 8, func(k int) {
		i, j := k/len(clients), k%len(clients)
		if i == j {
			return
		}
		reject(fmt.Sprintf("state of client %d for client %d", j, i), i, os[i].n+"="+os[j].v, os[j].s, "", true)
		reject(fmt.Sprintf("cookie of client %d for client %d, its own name", j, i), i, os[j].n+"="+os[j].v, os[j].s, "", true)
	})
	for i := range clients {
		accept(fmt.Sprintf("client %d after the others", i), i, os[i].n+"="+os[i].v, os[i].s)
	}

	// ---- age
	aged := 0
	for _, d := range []struct {
		by time.Duration
		ok bool
	}{{0, true}, {time.Minute, true}, {29 * time.Minute, true}, {45 * time.Minute, true}, {58 * time.Minute, true}, {61 * time.Minute, false}, {65 * time.Minute, false}, {3 * time.Hour, false}, {5 * time.Hour, false}, {25 * time.Hour, false}, {31 * 24 * time.Hour, false}, {400 * 24 * time.Hour, false}} {
		for i := 0; i < 3; i++ {
			s, n, v := start(i)
			st, err := vh.OpenState(n, v, vh.HashKey, vh.BlockKey)
			if err != nil {
				r.Count("cookie_format_unknown", 1)
				continue
			}
			aged++
			cookie := n + "=" + vh.SealState(n, vh.StateCookie{TS: st.TS - int64(d.by/time.Second), Value: st.Value, Exp: st.Exp.Add(-d.by)}, vh.HashKey, vh.BlockKey)
			if d.ok {
				if aged == 1 { // is re-sealing understood at all?
					if reached, _, _, _ := attempt(i, cookie, s, "", true); !reached {
						r.Count("cookie_format_unknown", 1)
						aged--
						continue
					}
				}
				accept(fmt.Sprintf("aged by %v", d.by), i, cookie, s)
			} else {
				reject(fmt.Sprintf("aged by %v", d.by), i, cookie, s, "", true)
				reject(fmt.Sprintf("aged by %v, empty state", d.by), i, cookie, "", "", true)
			}
		}
	}
	// properly sealed but empty or foreign content
	reject("sealed empty state", 0, n+"="+vh.SealState(n, vh.StateCookie{TS: now.Unix(), Value: "", Exp: now.Add(time.Hour)}, vh.HashKey, vh.BlockKey), "", "", true)
	reject("sealed for another client", 0, n+"="+vh.SealState(n+"2", vh.StateCookie{TS: now.Unix(), Value: "zz", Exp: now.Add(time.Hour)}, vh.HashKey, vh.BlockKey), "zz", "", true)
	r.Count("aged", aged)

	// ---- the configuration takes another client id: old states no longer count
	s, n, v = start(1)
	w.Kube.Apply(vh.OidcConfigs, ns, "o1", vh.M{"clientId": "client-2-new", "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
	w.SyncOidc()
	reject("state of the former client id", 1, n+"="+v, s, "", true)
	_, n2, _ := start(1)
	reject("state of the former client id, renamed", 1, n2+"="+v, s, "", true)

	// conservation: every token request belongs to an accepted callback
	if h := t.Hits("token"); int64(h) != atomic.LoadInt64(&accepted) {
		r.Violation("the token endpoint was asked more often than callbacks were accepted", vh.M{"requests": h, "accepted": accepted})
	}

	// ---- other keys after a restart
	s, n, v = start(0)
	w.Sut.Stop()
	w.StartAdapter()
	w.SyncAll()
	accept("same keys after a restart", 0, n+"="+v, s)
	s, n, v = start(0)
	w.Sut.Stop()
	w.Kube.SetSecret("istio-system", "appidentityandaccessadapter-cookie-sig-enc-keys", map[string]string{"HASH_KEY": strings.Repeat("h", 32), "BLOCK_KEY": strings.Repeat("b", 16)})
	w.StartAdapter()
	w.SyncAll()
	reject("cookie of former keys", 0, n+"="+v, s, "", true)
	s, n, v = start(0)
	accept("new keys", 0, n+"="+v, s)
	w.CheckAlive("handling callbacks")
	r.Floor("rejected_callbacks", 800)
	r.Floor("accepted_callbacks", 70)
	r.Finish()
}

func rot(s string) string {
	b := []byte(s)
	for i, j := 0, len(b)-1; i < j; i, j = i+1, j-1 {
		b[i], b[j] = b[j], b[i]
	}
	if string(b) == s {
		return s + "r"
	}
	return string(b)
}

func swapCase(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		} else if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

var _ sync.Mutex
