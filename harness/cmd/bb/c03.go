package main

import (
	"bytes"
	"crypto/rand"
	crand "crypto/rand"
	"crypto/x509"
	"encoding/base64"
	"encoding/pem"
	"fmt"
	"math/big"
	"net/http"
	"strings"
	"sync"
	"time"

	"verif/harness/vh"
)

func init() { checks["C03"] = c03 }

type tokCase struct {
	kind  string
	token string
	ok    bool
	// valid from/until (unix), 0: no limit; the case is skipped when the answer came outside
	until, from int64
}

func c03() {
	r := vh.NewReport("C03", "cases are Authorization headers with one access and optionally one ID token, built by many families of valid tokens (algorithms, key sizes, exponents, key encodings, claims) and of manipulations (algorithm confusion, foreign and embedded keys, bit flips at every position, spliced, truncated and re-encoded tokens, dates); expectation by construction; distinct by family and position")
	vh.NoReuse(r)
	r.Assumptions = []string{"tokens without exp, with non-numeric dates, with line breaks or non-canonical trailing bits inside the signature encoding, or with an iat in the future, are not judged"}
	w := vh.NewWorld(r, vh.SutOpts{})
	defer w.Close()
	vh.PreKeys(8, 2048)
	ta, tb := w.IdP.Tenant("a"), w.IdP.Tenant("b")
	ka, ka2, kb, katt := vh.NewKey("key-1"), vh.NewKey("key-2"), vh.NewKey("key-1"), vh.NewKey("key-1")
	kbOnly := vh.NewKey("key-b")
	ta.SetKeys(ka, ka2)
	tb.SetKeys(kb, kbOnly)
	const ns = "n"
	w.Kube.Apply(vh.JwtConfigs, ns, "a", vh.M{"jwksUrl": ta.JwksURL()})
	w.Kube.Apply(vh.JwtConfigs, ns, "b", vh.M{"jwksUrl": tb.JwksURL()})
	w.Kube.Apply(vh.Policies, ns, "p", vh.Spec("svc",
		vh.JwtPath("/a", "", "", "a", nil), vh.JwtPath("/b", "", "", "b", nil), vh.JwtPath("/keys", "", "", "keys", nil),
		vh.JwtPath("/ruled", "", "", "a", []vh.M{vh.Rule("sub", "ALL", "", "u")})))

	// a key set with many sizes, exponents, ids and encodings among undecodable entries
	type pk struct {
		k   *vh.Key
		jwk vh.M
	}
	var pks []pk
	spec := []struct{ bits, e int }{{2048, 65537}, {1024, 65537}, {2048, 3}, {2048, 17}, {1024, 257}, {3072, 65537}, {2048, 2147483647}, {2050, 65537}, {1025, 5},
		{1024, 65537}, {1024, 65537}, {1024, 65537}, {1024, 65537}, {1024, 65537}}
	kids := []string{"plain", "with space", "ü-ключ", "a/b?c=d&e", strings.Repeat("long", 200), "123", "null", "{}", "\"q\"",
		"true", "<nil>", "map[]", "[plain]", "[]"}
	var mu sync.Mutex
	par(len(spec), 8, func(i int) {
		k := vh.NewKeyE(kids[i], spec[i].bits, spec[i].e)
		mu.Lock()
		pks = append(pks, pk{k: k})
		mu.Unlock()
	})
	enc := []func(b []byte) string{
		func(b []byte) string { return base64.RawURLEncoding.EncodeToString(b) },
		func(b []byte) string { return base64.URLEncoding.EncodeToString(b) },
		func(b []byte) string { return base64.StdEncoding.EncodeToString(b) },
		func(b []byte) string { return base64.RawStdEncoding.EncodeToString(b) },
		func(b []byte) string { return base64.RawURLEncoding.EncodeToString(append([]byte{0}, b...)) },
	}
	list := []interface{}{
		vh.M{"kty": "EC", "kid": "ec", "crv": "P-256", "x": "AA", "y": "AA"},
		vh.M{"kty": "oct", "kid": "oct", "k": vh.B64([]byte("secret"))},
		vh.M{"kty": "RSA", "kid": "noN", "e": "AQAB"},
		vh.M{"kty": "RSA", "kid": "badN", "n": "!!!", "e": "AQAB"},
		vh.M{"kty": "RSA", "n": vh.B64(katt.Priv.N.Bytes()), "e": "AQAB"},
	}
	algs := map[int]string{}
	for i := range pks {
		j := pks[i].k.JWK()
		j["n"] = enc[i%len(enc)](pks[i].k.Priv.N.Bytes())
		if i%2 == 0 {
			delete(j, "alg")
			delete(j, "use")
		}
		if a, ok := j["alg"]; ok { // the algorithm a key is meant for
			a = []string{"RS256", "RS384", "RS512"}[i/2%3]
			j["alg"] = a
			algs[i] = a.(string)
		}
		list = append(list, j)
	}
	list = append(list, vh.M{"kty": "RSA", "kid": "badE", "n": "AQAB", "e": "***"})
	jset := vh.MustJSON(vh.M{"keys": list})
	tk := w.IdP.Tenant("keys")
	tk.Override("jwks", func(rw http.ResponseWriter, _ *http.Request) { rw.Write(jset) })
	w.Kube.Apply(vh.JwtConfigs, ns, "keys", vh.M{"jwksUrl": tk.JwksURL()})
	// configurations whose key URLs resemble each other
	type urlCfg struct {
		name, url string
		key       *vh.Key
	}
	var urls []urlCfg
	byURI := map[string]*vh.Key{}
	for i, u := range []string{"/t/urls/jwks", "/t/urls/jwks?set=1", "/t/urls/jwks?set=2", "/t/urls/JWKS", "/t/URLS/jwks", "/t/urls/jwks/", "/t/urls/jwks?set=1&v=2", "/t/urls/jwks%2F", "/t/urls2/jwks"} {
		k := vh.NewKey("key-1")
		byURI[u] = k
		c := urlCfg{fmt.Sprint("url", i), w.IdP.URL + u, k}
		urls = append(urls, c)
		parts := strings.SplitN(strings.SplitN(strings.ReplaceAll(u, "%2F", "/"), "?", 2)[0], "/", 4)
		w.IdP.Tenant(parts[2]).Override(parts[3], func(rw http.ResponseWriter, q *http.Request) {
			if k := byURI[q.RequestURI]; k != nil {
				rw.Write(vh.JwksJSON(k))
			} else {
				rw.WriteHeader(404)
			}
		})
		w.Kube.Apply(vh.JwtConfigs, ns, c.name, vh.M{"jwksUrl": c.url})
		w.Kube.Apply(vh.Policies, ns, "p"+c.name, vh.Spec("svc", vh.JwtPath("/"+c.name, "", "", c.name, nil)))
	}
	w.SyncAll()

	base := vh.BaseClaims("u")
	good := ka.Sign(base)
	goodID := ka2.Sign(base.With("typ", "id"))
	now := time.Now().Unix()

	var cs []tokCase
	add := func(kind, tok string, ok bool) { cs = append(cs, tokCase{kind: kind, token: tok, ok: ok}) }

	// ---- valid tokens
	for _, alg := range []string{"RS256", "RS384", "RS512", "PS256", "PS384", "PS512"} {
		add("valid "+alg, ka.SignAlg(alg, nil, base), true)
		add("valid second key "+alg, ka2.SignAlg(alg, map[string]interface{}{"typ": nil}, base), true)
	}
	add("valid extra headers", ka.SignAlg("RS256", map[string]interface{}{"cty": "x", "zzz": []int{1}}, base), true)
	add("valid spaced JSON", ka.SignRaw("RS256", []byte("{ \"kid\" :\n\"key-1\",\t\"alg\": \"RS256\" }"), []byte(fmt.Sprintf("\n{ \"exp\" : %d , \"sub\":\"u\"}\n", now+900))), true)
	add("valid float exp", ka.SignRaw("RS256", []byte(`{"kid":"key-1","alg":"RS256"}`), []byte(fmt.Sprintf(`{"exp":%d.5,"nbf":%d.25,"sub":"u"}`, now+900, now-900))), true)
	add("valid large", ka.Sign(base.With("blob", strings.Repeat("x", 60000))), true)
	add("valid nbf past", ka.Sign(base.With("nbf", now-5)), true)
	add("valid far exp", ka.Sign(base.With("exp", now+86400*365*50)), true)
	cs = append(cs, tokCase{kind: "valid near exp", token: ka.Sign(base.With("exp", now+40)), ok: true, until: now + 39})
	for i := 0; i < 20; i++ {
		add(fmt.Sprintf("valid claims %d", i), ka.Sign(base.With(fmt.Sprintf("c%d", i), strings.Repeat("é", i)).With("nested", vh.M{"a": []int{i}})), true)
	}

	// ---- algorithm confusion
	hp := func(h, p string) string { return vh.B64([]byte(h)) + "." + vh.B64([]byte(p)) }
	pay := string(vh.MustJSON(base))
	for _, alg := range []string{"none", "None", "NONE", "nOnE", ""} {
		h := fmt.Sprintf(`{"alg":%q,"typ":"JWT","kid":"key-1"}`, alg)
		add("alg "+alg+" no signature", hp(h, pay)+".", false)
		add("alg "+alg+" with signature", hp(h, pay)+"."+strings.Split(good, ".")[2], false)
		add("alg "+alg+" two segments", hp(h, pay), false)
		add("alg "+alg+" no kid", hp(fmt.Sprintf(`{"alg":%q}`, alg), pay)+".", false)
	}
	der, _ := x509.MarshalPKIXPublicKey(&ka.Priv.PublicKey)
	p1 := x509.MarshalPKCS1PublicKey(&ka.Priv.PublicKey)
	pemPKIX := pem.EncodeToMemory(&pem.Block{Type: "PUBLIC KEY", Bytes: der})
	pemP1 := pem.EncodeToMemory(&pem.Block{Type: "RSA PUBLIC KEY", Bytes: p1})
	secrets := map[string][]byte{"pem": pemPKIX, "pemtrim": bytes.TrimSpace(pemPKIX), "pem1": pemP1, "der": der, "der1": p1, "modulus": ka.Priv.N.Bytes(),
		"n64": []byte(vh.B64(ka.Priv.N.Bytes())), "empty": {}, "kid": []byte("key-1"), "jwk": vh.MustJSON(ka.JWK())}
	for n, s := range secrets {
		for _, alg := range []string{"HS256", "HS384", "HS512"} {
			add("hmac "+alg+" "+n, vh.HMACToken(alg, "key-1", s, base), false)
		}
	}
	for _, alg := range []string{"ES256", "ES384", "ES512", "EdDSA", "RS128", "RSA", "rs256", "RS256 ", "HS256", "XX"} {
		add("alg header "+alg+" over RS256 signature", ka.SignRaw("RS256", []byte(fmt.Sprintf(`{"alg":%q,"kid":"key-1"}`, alg)), []byte(pay)), false)
	}
	for _, h := range []string{`{"kid":"key-1"}`, `{"alg":256,"kid":"key-1"}`, `{"alg":null,"kid":"key-1"}`, `{"alg":["RS256"],"kid":"key-1"}`, `[]`, `"RS256"`, `null`, ``, `{"alg":"RS256","kid":"key-1"`} {
		add("header "+h, ka.SignRaw("RS256", []byte(h), []byte(pay)), false)
	}
	// signed with one algorithm, declared as another
	for _, pr := range [][2]string{{"RS256", "RS512"}, {"RS512", "RS256"}, {"PS256", "RS256"}, {"RS256", "PS256"}, {"RS384", "RS256"}} {
		in := hp(fmt.Sprintf(`{"alg":%q,"kid":"key-1"}`, pr[1]), pay)
		add("declared "+pr[1]+" signed "+pr[0], in+"."+vh.B64(ka.SignInput(pr[0], in)), false)
	}

	// ---- key ids and foreign keys
	for _, kid := range []interface{}{nil, "", "nosuch", "KEY-1", "key-1 ", " key-1", "key-2", "key-1/../key-1", 1, true, []string{"key-1"}, vh.M{"kid": "key-1"}, "key-b", "../b/jwks", "key-1#", "key-1#key-1", "key-1?x", "key-1,key-2", "key-1;", "key-1.", "key-1:0", "key-1|key-2", "key-1\x00", "key-1\n", "\tkey-1", "key-", "key", "%6bey-1", "key%2D1", "urn:key-1", "https://idp/key-1", "/key-1", "a/key-1", "key-1@x", "key\u20111", "\u043aey-1", "key-01", "\"key-1\"", strings.Repeat("key-1", 50), 1.0, vh.M{}, []string{}} {
		add(fmt.Sprintf("kid %v", kid), ka.SignAlg("RS256", map[string]interface{}{"kid": kid}, base), false)
	}
	add("foreign key same kid", kb.Sign(base), false)
	add("foreign key own kid", kbOnly.Sign(base), false)
	add("attacker key", katt.Sign(base), false)
	for _, h := range []map[string]interface{}{
		{"jwk": katt.JWK()}, {"jku": w.IdP.URL + "/t/att/jwks"}, {"x5u": w.IdP.URL + "/t/att/jwks"}, {"jwk": katt.JWK(), "kid": nil},
		{"x5c": []string{base64.StdEncoding.EncodeToString(der)}}, {"x5c": []string{attCert(katt)}}, {"x5c": []string{attCert(katt), attCert(kb)}}, {"x5c": attCert(katt)}, {"x5c": []string{attCert(katt)}, "kid": nil},
		{"x5c": []string{attCert(katt)}, "kid": "nosuch"}, {"x5t": "key-1"}, {"x5t#S256": "key-1"}, {"epk": katt.JWK()}, {"jwks": vh.M{"keys": []interface{}{katt.JWK()}}}, {"iss": w.IdP.URL + "/t/att"},
		{"kid": w.IdP.URL + "/t/att/jwks"}, {"crit": []string{"exp"}},
	} {
		add(fmt.Sprintf("embedded key %v", keysOf(h)), katt.SignAlg("RS256", h, base), false)
	}
	w.IdP.Tenant("att").SetKeys(katt)
	// other headers neither name the key nor keep a good token from passing
	for _, h := range []map[string]interface{}{{"x5t": "key-1"}, {"x5t#S256": "key-1"}, {"x5t": "key-1", "x5c": []string{attCert(ka)}}, {"jwk": ka.JWK()}, {"key_id": "key-1"}, {"KID": "key-1"}, {"keyid": "key-1"}} {
		for _, kid := range []interface{}{"nosuch", nil, ""} {
			g := map[string]interface{}{"kid": kid}
			for k, v := range h {
				g[k] = v
			}
			add(fmt.Sprintf("kid %v, good key named by %v", kid, keysOf(h)), ka.SignAlg("RS256", g, base), false)
		}
	}
	for _, h := range []map[string]interface{}{{"x5t": "other"}, {"x5t#S256": "other"}, {"jwk": katt.JWK()}, {"x5c": []string{attCert(katt)}}, {"jku": w.IdP.URL + "/t/att/jwks"}, {"typ": "at+jwt"}, {"typ": "JOSE"}, {"cty": "x"}, {"nonce": "n"}} {
		add(fmt.Sprintf("valid with headers %v", h), ka.SignAlg("RS256", h, base), true)
	}

	// ---- structure
	seg := strings.Split(good, ".")
	seg2 := strings.Split(ka2.Sign(base.With("sub", "other")), ".")
	seg1 := strings.Split(ka.Sign(base.With("sub", "other")), ".")
	add("signature of another token", seg[0]+"."+seg[1]+"."+seg1[2], false)
	add("payload of another token", seg[0]+"."+seg1[1]+"."+seg[2], false)
	add("header of another key", seg2[0]+"."+seg[1]+"."+seg[2], false)
	add("payload and header swapped", seg[1]+"."+seg[0]+"."+seg[2], false)
	for _, t := range []string{"", ".", "..", "...", seg[0], seg[0] + "." + seg[1], seg[0] + "." + seg[1] + ".", good + ".", "." + good, good + "." + seg[2], good + good,
		seg[0] + "..", "." + seg[1] + ".", seg[0] + ".." + seg[2], seg[0] + "." + seg[2], good + "%3D", good + "=", seg[0] + "=." + seg[1] + "." + seg[2], "{" + good + "}", "\"" + good + "\"", good + ",", good + ";", good + "x", good + "xx", good + "xxxx",
		strings.ToLower(good), strings.ToUpper(good), good[1:], good[:len(good)-4], strings.Replace(good, ".", ",", 1), strings.Replace(good, ".", " ", 1), "null", "undefined", strings.Repeat("A", 70000)} {
		if t == good {
			continue
		}
		add("structure "+trunc(t, 20)+fmt.Sprint(len(t)), t, false)
	}
	sigb, _ := base64.RawURLEncoding.DecodeString(seg[2])
	for n, sb := range map[string][]byte{"zero": make([]byte, len(sigb)), "empty": {}, "short": sigb[1:], "long0": append([]byte{0}, sigb...), "trail": append(append([]byte{}, sigb...), 0),
		"n": ka.Priv.N.Bytes(), "one": {1}, "plusN": new(big.Int).Add(new(big.Int).SetBytes(sigb), ka.Priv.N).Bytes(), "rev": rev(sigb)} {
		add("signature "+n, seg[0]+"."+seg[1]+"."+vh.B64(sb), false)
	}
	// raw (unpadded) and raw hash signatures
	add("unsigned hash as signature", seg[0]+"."+seg[1]+"."+vh.B64(bytes.Repeat([]byte{0x11}, 256)), false)
	// bit flips everywhere
	stride := r.Pick(3, 1)
	const alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_"
	rnd := r.Rand("flips")
	short := ka.Sign(vh.Claims{"exp": now + 9000, "sub": "u"})
	ss := strings.Split(short, ".")
	for i := 0; i < len(short); i += 1 {
		if i > len(ss[0])+len(ss[1])+1 && i%stride != 0 && i < len(short)-6 {
			continue
		}
		for k := 0; k < r.Pick(1, 4); k++ {
			c := alpha[rnd.Intn(len(alpha))]
			if c == short[i] {
				c = alpha[(strings.IndexByte(alpha, c)+1+rnd.Intn(60))%64]
			}
			t := short[:i] + string(c) + short[i+1:]
			if i > len(ss[0])+len(ss[1])+1 {
				a, _ := base64.RawURLEncoding.DecodeString(t[len(ss[0])+len(ss[1])+2:])
				b, _ := base64.RawURLEncoding.DecodeString(ss[2])
				if bytes.Equal(a, b) {
					continue // another spelling of the same signature
				}
			}
			if t == short {
				continue
			}
			add(fmt.Sprintf("flip at %d to %c", i, c), t, false)
		}
	}
	// ---- dates
	for _, d := range []int64{1, 2, 5, 30, 59, 61, 119, 299, 301, 3601, 86401, 86400 * 400} {
		add(fmt.Sprintf("expired %ds ago", d), ka.Sign(base.With("exp", now-d)), false)
		if d >= 30 {
			cs = append(cs, tokCase{kind: fmt.Sprintf("not before in %ds", d+30), token: ka.Sign(base.With("nbf", now+d+30)), ok: false, from: now + d + 30})
		}
	}
	add("exp 1", ka.Sign(base.With("exp", 1)), false)
	add("exp negative", ka.Sign(base.With("exp", -5)), false)
	add("exp float past", ka.SignRaw("RS256", []byte(`{"kid":"key-1","alg":"RS256"}`), []byte(fmt.Sprintf(`{"exp":%d.9,"sub":"u"}`, now-3))), false)
	add("exp exponent past", ka.SignRaw("RS256", []byte(`{"kid":"key-1","alg":"RS256"}`), []byte(`{"exp":1.5e9,"sub":"u"}`)), false)
	// dates that agree with one another, but not with the clock
	for _, d := range []int64{60, 900, 86400, 86400 * 400} {
		add(fmt.Sprintf("issued and valid from in %ds", d), ka.Sign(base.With("iat", now+d).With("nbf", now+d).With("exp", now+d+900)), false)
		add(fmt.Sprintf("issued, valid from and until %ds from now", d), ka.Sign(base.With("iat", now+d).With("nbf", now+d).With("exp", now+d)), false)
		add(fmt.Sprintf("issued, valid from and until %ds ago", d), ka.Sign(base.With("iat", now-d).With("nbf", now-d).With("exp", now-d)), false)
		add(fmt.Sprintf("valid from after it has ended %ds ago", d), ka.Sign(base.With("nbf", now+d).With("exp", now-d)), false)
		add(fmt.Sprintf("authenticated now, ended %ds ago", d), ka.Sign(base.With("auth_time", now).With("iat", now-2*d).With("exp", now-d)), false)
		cs = append(cs, tokCase{kind: fmt.Sprintf("authenticated now, not before in %ds", d), token: ka.Sign(base.With("auth_time", now).With("iat", now).With("nbf", now+d)), ok: false, from: now + d})
	}
	add("nbf and exp wrong", ka.Sign(base.With("exp", now-900).With("nbf", now+900)), false)
	// payloads that are no claims, properly signed
	for _, p := range []string{``, `[]`, `"x"`, `5`, `{`, `{"exp":`, `not json`} {
		add("payload "+p, ka.SignRaw("RS256", []byte(`{"kid":"key-1","alg":"RS256"}`), []byte(p)), false)
	}

	judge := func(kind, path, authz string, ok bool, until, from int64) {
		if r.TooMany() {
			return
		}
		req := vh.Get(ns, "svc", path)
		req.Authz = authz
		resp := w.Do(req)
		t := time.Now().Unix()
		if (until != 0 && t >= until) || (from != 0 && t >= from-1) {
			r.Count("skipped_for_time", 1)
			return
		}
		r.Case(path+" "+kind, true)
		if ok {
			r.Count("valid_cases", 1)
		} else {
			r.Count("invalid_cases", 1)
		}
		r.Sample(strings.SplitN(kind, " ", 2)[0], vh.M{"kind": kind, "path": path, "authorization": trunc(authz, 300), "expected": ok, "got": trunc(resp.String(), 200)})
		if resp.Allowed() != ok {
			if ok && w.Eventually(func() bool { return w.Do(req).Allowed() || (until != 0 && time.Now().Unix() >= until) }) {
				return
			}
			if !w.CheckAlive("validating tokens") {
				return
			}
			r.Violation(fmt.Sprintf("%s: expected allowed=%v, got %s", kind, ok, trunc(resp.String(), 300)), vh.M{"kind": kind, "request": vh.ReqM(req), "expected_allowed": ok, "answer": resp.String()})
		}
	}
	// a token must not outlive its expiry once it has been accepted
	var late sync.WaitGroup
	late.Add(1)
	go func() {
		defer late.Done()
		exp := time.Now().Unix() + 4
		tok := ka.Sign(base.With("exp", exp).With("late", 1))
		judge("expires soon", "/a", "Bearer "+tok, true, exp-1, 0)
		judge("expires soon", "/ruled", "Bearer "+tok, true, exp-1, 0)
		time.Sleep(time.Until(time.Unix(exp+1, 0)) + 100*time.Millisecond)
		for i := 0; i < 3; i++ {
			judge("expired after having been accepted", "/a", "Bearer "+tok, false, 0, 0)
			judge("expired after having been accepted", "/ruled", "Bearer "+tok, false, 0, 0)
		}
		nbf := time.Now().Unix() + 3
		tok = ka.Sign(base.With("nbf", nbf))
		judge("not yet valid", "/a", "Bearer "+tok, false, 0, nbf)
		time.Sleep(time.Until(time.Unix(nbf+1, 0)) + 100*time.Millisecond)
		judge("valid since nbf has come", "/a", "Bearer "+tok, true, 0, 0)
	}()
	par(len(cs), 8, func(i int) {
		c := cs[i]
		judge(c.kind, "/a", "Bearer "+c.token, c.ok, c.until, c.from)
		if i%7 == 0 || !strings.HasPrefix(c.kind, "flip") {
			judge(c.kind+" (lower-case scheme, ruled)", "/ruled", "bearer "+c.token, c.ok, c.until, c.from)
			judge(c.kind+" with good ID token", "/a", "Bearer "+c.token+" "+goodID, c.ok, c.until, c.from)
			if c.token != "" { // "Bearer x " carries no ID token
				judge(c.kind+" as ID token", "/a", "Bearer "+good+" "+c.token, c.ok, c.until, c.from)
			}
			judge(c.kind+" on another configuration", "/b", "Bearer "+c.token, c.kind == "foreign key same kid" || c.kind == "foreign key own kid", 0, 0)
		}
	})
	// the valid token keeps passing after all of this, and every key of the odd set works, only under its own id
	judge("valid at the end", "/a", "Bearer "+good, true, 0, 0)
	for i := range pks {
		for j := range pks {
			k := &vh.Key{Kid: pks[j].k.Kid, Priv: pks[i].k.Priv}
			alg := algs[j]
			if alg == "" {
				alg = "RS256"
			}
			judge(fmt.Sprintf("key %d (%d bits, e=%d) under id %d", i, pks[i].k.Priv.N.BitLen(), pks[i].k.Priv.E, j), "/keys", "Bearer "+k.SignAlg(alg, nil, base), i == j, 0, 0)
		}
	}
	// each configuration has the keys its own URL yields
	for i, c := range urls {
		for j, o := range urls {
			judge(fmt.Sprintf("token of the keys of %s at a configuration with %s", o.url, c.url), "/"+c.name, "Bearer "+o.key.Sign(base), i == j, 0, 0)
			r.Count("resembling_urls", 1)
		}
		// there is one key only, but it has an id
		for _, kid := range []interface{}{nil, "", "key-2", "default"} {
			judge(fmt.Sprintf("the only key of a configuration under the id %v", kid), "/"+c.name, "Bearer "+c.key.SignAlg("RS256", map[string]interface{}{"kid": kid}, base), false, 0, 0)
		}
	}
	// only a string is a key id
	for i := range pks {
		for _, kid := range []string{"123", "123.0", "1.23e2", "true", "null", "{}", "[]", `["plain"]`, `{"kid":"plain"}`, `[["plain"]]`} {
			tok := pks[i].k.SignRaw("RS256", []byte(`{"alg":"RS256","typ":"JWT","kid":`+kid+`}`), vh.MustJSON(base))
			judge(fmt.Sprintf("key %q with key id %s of another type", pks[i].k.Kid, kid), "/keys", "Bearer "+tok, false, 0, 0)
		}
	}
	for _, kid := range []string{"oct", "ec", "noN", "badN", "badE"} {
		judge("attacker under unusable key "+kid, "/keys", "Bearer "+(&vh.Key{Kid: kid, Priv: katt.Priv}).Sign(base), false, 0, 0)
		judge("hmac under unusable key "+kid, "/keys", "Bearer "+vh.HMACToken("HS256", kid, []byte("secret"), base), false, 0, 0)
	}
	judge("key published without id", "/keys", "Bearer "+katt.SignAlg("RS256", map[string]interface{}{"kid": nil}, base), false, 0, 0)
	judge("key published without id, empty id", "/keys", "Bearer "+katt.SignAlg("RS256", map[string]interface{}{"kid": ""}, base), false, 0, 0)
	late.Wait()
	// the configuration moves to other keys: the old keys no longer count
	w.Kube.Apply(vh.JwtConfigs, ns, "a", vh.M{"jwksUrl": tb.JwksURL()})
	w.SyncJwt()
	judge("old key after the configuration moved", "/a", "Bearer "+good, false, 0, 0)
	judge("new key after the configuration moved", "/a", "Bearer "+kb.Sign(base), true, 0, 0)
	judge("new key after the configuration moved", "/ruled", "Bearer "+kb.Sign(base), true, 0, 0)
	// ... and again, to where no keys can be had
	tc := w.IdP.Tenant("c")
	for i, f := range []http.HandlerFunc{
		func(rw http.ResponseWriter, _ *http.Request) { rw.WriteHeader(503) },
		func(rw http.ResponseWriter, _ *http.Request) { rw.Write([]byte("{}")) },
		func(rw http.ResponseWriter, _ *http.Request) { rw.Write([]byte(`{"keys":[]}`)) },
		func(rw http.ResponseWriter, _ *http.Request) { rw.Write(nil) },
	} {
		tc.Override("jwks", f)
		w.Kube.Apply(vh.JwtConfigs, ns, "a", vh.M{"jwksUrl": tc.JwksURL() + "?" + fmt.Sprint(i)})
		w.SyncJwt()
		for _, p := range []string{"/a", "/ruled"} {
			judge(fmt.Sprint("old key after the configuration moved to unusable keys ", i), p, "Bearer "+kb.Sign(base), false, 0, 0)
			judge(fmt.Sprint("first key after the configuration moved to unusable keys ", i), p, "Bearer "+good, false, 0, 0)
		}
		w.Kube.Apply(vh.JwtConfigs, ns, "a", vh.M{"jwksUrl": tb.JwksURL()})
		w.SyncJwt()
		judge(fmt.Sprint("back from unusable keys ", i), "/a", "Bearer "+kb.Sign(base), true, 0, 0)
	}
	w.CheckAlive("validating tokens")
	r.Floor("valid_cases", 60)
	r.Floor("invalid_cases", 500)
	_ = rand.Reader
	r.Finish()
}

// attCert is a certificate a key gives itself.
func attCert(k *vh.Key) string {
	t := &x509.Certificate{SerialNumber: big.NewInt(1), NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(time.Hour)}
	der, err := x509.CreateCertificate(crand.Reader, t, t, &k.Priv.PublicKey, k.Priv)
	if err != nil {
		panic(err)
	}
	return base64.StdEncoding.EncodeToString(der)
}

func keysOf(m map[string]interface{}) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sortStrings(o)
	return o
}

func rev(b []byte) []byte {
	o := make([]byte, len(b))
	for i := range b {
		o[len(b)-1-i] = b[i]
	}
	return o
}
