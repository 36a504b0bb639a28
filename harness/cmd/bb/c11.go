package main

import (
	"context"
	"fmt"
	"io"
	"math"
	"net"
	"net/http"
	"path/filepath"
	"sync"
	"time"

	"verif/harness/vh"
)

func init() { checks["C11"] = c11 }

// entropyStat asks the adapter's entropy monitor for the bytes drawn (for cookie encryption, for anything else).
func entropyStat(sock string) (iv, other int64, err error) {
	iv, other, _, err = probeStat(sock)
	return
}

// probeStat also tells the number of goroutines.
func probeStat(sock string) (iv, other, goroutines int64, err error) {
	c := http.Client{Timeout: 30 * time.Second, Transport: &http.Transport{DisableKeepAlives: true, DialContext: func(ctx context.Context, _, _ string) (net.Conn, error) {
		return (&net.Dialer{}).DialContext(ctx, "unix", sock)
	}}}
	resp, err := c.Get("http://x/")
	if err != nil {
		return 0, 0, 0, err
	}
	defer resp.Body.Close()
	b, _ := io.ReadAll(resp.Body)
	_, err = fmt.Sscanf(string(b), "%d %d %d", &iv, &other, &goroutines)
	return
}

func isLoginResp(resp *vh.Resp) bool { _, err := vh.ParseLogin(resp); return err == nil }

// charStats collects how the characters at each position are distributed.
type charStats struct {
	n    int
	cnt  []map[byte]int
	prev string
	same []int   // equal to the previous id's character
	eq   [][]int // equal characters at positions i, j
	lens map[int]int
}

func (c *charStats) add(s string) {
	if c.lens == nil {
		c.lens = map[int]int{}
	}
	c.lens[len(s)]++
	for len(c.cnt) < len(s) {
		c.cnt = append(c.cnt, map[byte]int{})
		c.same = append(c.same, 0)
		c.eq = append(c.eq, nil)
	}
	for i := range c.eq {
		for len(c.eq[i]) < len(c.cnt) {
			c.eq[i] = append(c.eq[i], 0)
		}
	}
	for i := 0; i < len(s); i++ {
		c.cnt[i][s[i]]++
		if i < len(c.prev) && c.prev[i] == s[i] {
			c.same[i]++
		}
		for j := 0; j < i; j++ {
			if s[i] == s[j] {
				c.eq[i][j]++
			}
		}
	}
	c.prev = s
	c.n++
}

// bits is the sum of the positions' entropies.
func (c *charStats) bits() float64 {
	sum := 0.0
	for _, m := range c.cnt {
		for _, k := range m {
			p := float64(k) / float64(c.n)
			sum -= p * math.Log2(p)
		}
	}
	return sum
}

func c11() {
	r := vh.NewReport("C11", "cases are issued state values and session ids: unique over all instances, connections and time, drawn with enough bytes of the (monitored) cryptographic source per value, with the required entropy over the observed character distribution, and not issued when the source fails; distinct by value")
	r.Assumptions = []string{"the source is crypto/rand.Reader of the adapter's process, wrapped through a build overlay", "values are issued at one instance between two readings of the monitor"}
	inst := r.Pick(4, 8)
	vh.PreKeys(2, 1024)
	sock := func(i int) string { return filepath.Join(vh.Scratch("ent"), fmt.Sprint("s", i)) }
	s0 := sock(0)
	w := vh.NewWorld(r, vh.SutOpts{Env: []string{"VH_ENTROPY=" + s0}})
	defer w.Close()
	key := vh.NewKeyE("k1", 1024, 65537)
	t := w.IdP.Tenant("a")
	t.SetKeys(key)
	for i, id := range []string{"c", "other"} {
		w.Kube.Apply(vh.OidcConfigs, "n", fmt.Sprint("o", i), vh.M{"clientId": id, "clientSecret": "s", "discoveryUrl": t.DiscoveryURL()})
		w.Kube.Apply(vh.Policies, "n", fmt.Sprint("p", i), vh.Spec(fmt.Sprint("svc", i), vh.PathEntry("oidc", "", "/", "", fmt.Sprint("o", i), "", []vh.M{vh.Rule("kind", "NOT", "access_token", "x")})))
	}
	w.SyncAll()
	tk := vh.Tokens{Access: key.Sign(vh.BaseClaims("u").With("kind", "a")), ID: key.Sign(vh.BaseClaims("u").With("kind", "i")), Refresh: "r"}
	w.IdP.KeepLog = false
	t.Override("token", func(rw http.ResponseWriter, _ *http.Request) { rw.Write(vh.TokenJSON(tk)) })
	page := func(i int) vh.Req { return vh.Get("n", fmt.Sprint("svc", i%2), fmt.Sprint("/p", i%7)) }

	var mu sync.Mutex
	seenState, seenSid := map[string]string{}, map[string]string{}
	var st, sd charStats
	note := func(m map[string]string, c *charStats, what, v, where string) {
		mu.Lock()
		defer mu.Unlock()
		r.Case(what+v, true)
		r.Count(what+"s", 1)
		if len(m) < 3 {
			r.Sample(what, v)
		}
		if was, ok := m[v]; ok {
			r.Violation(fmt.Sprintf("the %s %q was issued twice: at %s and at %s", what, v, was, where), vh.M{"value": v, "first": was, "again": where})
			return
		}
		m[v] = where
		c.add(v)
	}
	start := func(s *vh.Sut, i int, where string) (*vh.AuthzRequest, *vh.Browser) {
		b := vh.NewBrowser()
		resp := s.Do(page(i))
		a, err := vh.ParseLogin(resp)
		if err != nil {
			if !r.TooMany() {
				r.Violation("no login: "+err.Error(), vh.M{"answer": resp.String()})
			}
			return nil, nil
		}
		b.Take(resp)
		note(seenState, &st, "state", a.State, where)
		return a, b
	}
	finish := func(s *vh.Sut, i int, a *vh.AuthzRequest, b *vh.Browser, where string) {
		q := vh.Callback(page(i), "code", a.State)
		q.Cookies = b.Header()
		resp := s.Do(q)
		_, sc, ok := resp.Redirect()
		c := vh.ParseSetCookie(sc)
		if !ok || c == nil {
			if !r.TooMany() {
				r.Violation("no session: "+resp.String(), vh.M{"answer": resp.String()})
			}
			return
		}
		note(seenSid, &sd, "session id", c.Value, where)
	}

	// ---- bytes of the source per value, one at a time
	account := func(kind string, n int, need float64, f func(i int)) {
		_, o1, err1 := entropyStat(s0)
		for i := 0; i < n && !r.TooMany(); i++ {
			f(i)
		}
		_, o2, err2 := entropyStat(s0)
		if err1 != nil || err2 != nil {
			if w.CheckAlive("accounting for random bytes") {
				r.Inconclusive(fmt.Sprint("entropy monitor: ", err1, err2))
			}
			return
		}
		got := float64(o2-o1) / float64(n)
		r.Sample("random bytes drawn per "+kind, got)
		r.Count("accounted", n)
		if got < need {
			r.Violation(fmt.Sprintf("%s: only %.2f bytes of the cryptographic source were drawn per value, %.2f are needed", kind, got, need), vh.M{"values": n, "bytes": o2 - o1})
		}
	}
	n := r.Pick(600, 6000)
	type pend struct {
		a *vh.AuthzRequest
		b *vh.Browser
		i int
	}
	var pends []pend
	account("state", n, 50.0/8, func(i int) {
		if a, b := start(w.Sut, i, "instance 0, in turn"); a != nil {
			pends = append(pends, pend{a, b, i})
		}
	})
	account("session id", len(pends), 10, func(i int) {
		finish(w.Sut, pends[i].i, pends[i].a, pends[i].b, "instance 0, in turn")
	})

	// ---- instances started at the same moment, everything concurrent
	suts := make([]*vh.Sut, inst)
	var wg sync.WaitGroup
	socks := make([]string, inst)
	for k := range suts {
		socks[k] = sock(k + 1)
		wg.Add(1)
		go func(k int) {
			defer wg.Done()
			s, err := vh.StartSut(w.Kube.URL, vh.SutOpts{Env: []string{"VH_ENTROPY=" + socks[k]}})
			if err == nil && !vh.WaitFor(30*time.Second, func() bool {
				_, e := vh.ParseLogin(s.Do(page(0)))
				_, e2 := vh.ParseLogin(s.Do(page(1)))
				return e == nil && e2 == nil
			}) {
				err = fmt.Errorf("no logins: %s", s.Tail(2000))
			}
			if err != nil {
				r.Inconclusive("instance: " + err.Error())
				return
			}
			suts[k] = s
		}(k)
	}
	wg.Wait()
	per := r.Pick(1500, 20000)
	for k, s := range suts {
		if s == nil {
			continue
		}
		defer s.Stop()
		for c := 0; c < 6; c++ {
			wg.Add(1)
			go func(k, c int, s *vh.Sut) {
				defer wg.Done()
				where := fmt.Sprintf("instance %d, connection %d", k+1, c)
				for i := 0; i < per && !r.TooMany(); i++ {
					a, b := start(s, i+c, where)
					if a != nil && i%3 == 0 {
						finish(s, i+c, a, b, where)
					}
				}
			}(k, c, s)
		}
	}
	wg.Wait()

	judge := func(what string, c *charStats, need float64) {
		if c.n < 2000 {
			r.Inconclusive("too few values: " + what)
			return
		}
		bits := c.bits()
		r.Sample("observed entropy of a "+what+" in bits", fmt.Sprintf("%.2f over %d values, lengths %v", bits, c.n, c.lens))
		// the estimate falls short of the truth by at most about (alphabet-1)/(2 n ln 2) per position
		slack := float64(len(c.cnt)) * 256 / (2 * float64(c.n) * math.Ln2)
		if bits+slack < need {
			r.Violation(fmt.Sprintf("a %s carries %.1f bits at most, %.0f are required", what, bits, need), vh.M{"bits": bits})
		}
		// positions that follow each other, or the previous value
		lim := c.n/5 + 200
		for i := range c.cnt {
			if c.same[i] > lim {
				r.Violation(fmt.Sprintf("position %d of a %s mostly repeats the previous value's", i, what), nil)
			}
			for j := 0; j < i; j++ {
				if c.eq[i][j] > lim {
					r.Violation(fmt.Sprintf("positions %d and %d of a %s are mostly equal", i, j, what), nil)
				}
			}
		}
	}
	judge("state", &st, 50)
	judge("session id", &sd, 80)

	// ---- a source that fails: no value may be issued that cannot carry the bits
	for _, left := range []int{0, 1, 2, 3, 4, 5, 6} {
		s, err := vh.StartSut(w.Kube.URL, vh.SutOpts{Env: []string{"VH_ENTROPY=" + sock(100+left), fmt.Sprint("VH_ENTROPY_LEFT=", left)}})
		if err != nil {
			continue // it refused to start without entropy
		}
		var resp *vh.Resp
		vh.WaitFor(10*time.Second, func() bool { resp = s.DoT(page(0), 5*time.Second); return !resp.Allowed() || !s.Alive() })
		r.Case(fmt.Sprint("failing source, state, ", left), true)
		r.Count("failing_source", 1)
		if resp.Allowed() {
			resp = &vh.Resp{Err: fmt.Errorf("never answered")}
		}
		if a, err := vh.ParseLogin(resp); err == nil {
			r.Violation(fmt.Sprintf("state %q was issued though the cryptographic source only gave %d bytes", a.State, left), vh.M{"answer": resp.String()})
		}
		s.Stop()
	}
	for _, left := range []int{0, 1, 2, 4, 6, 8, 9} {
		// the login begins at a healthy instance, and ends at one without entropy
		s, err := vh.StartSut(w.Kube.URL, vh.SutOpts{Env: []string{"VH_ENTROPY=" + sock(200+left), fmt.Sprint("VH_ENTROPY_LEFT=", left)}})
		if err != nil {
			continue
		}
		a, b := start(w.Sut, 0, "instance 0, for a failing one")
		if a != nil {
			q := vh.Callback(page(0), "code", a.State)
			q.Cookies = b.Header()
			var resp *vh.Resp
			vh.WaitFor(10*time.Second, func() bool { resp = s.DoT(q, 5*time.Second); return !resp.Allowed() || !s.Alive() })
			r.Case(fmt.Sprint("failing source, session, ", left), true)
			r.Count("failing_source", 1)
			if _, sc, ok := resp.Redirect(); ok {
				if c := vh.ParseSetCookie(sc); c != nil && c.Value != b.Jar[c.Name] && !isLoginResp(resp) {
					r.Violation(fmt.Sprintf("session id %q was issued though the cryptographic source only gave %d bytes", c.Value, left), vh.M{"answer": resp.String()})
				}
			}
		}
		s.Stop()
	}
	w.CheckAlive("issuing ids")
	r.Floor("states", inst*per*5)
	r.Floor("session ids", inst*per)
	r.Floor("accounted", n)
	r.Finish()
}
