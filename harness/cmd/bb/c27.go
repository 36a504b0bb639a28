package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"strings"
	"sync"
	"time"

	"verif/harness/vh"
)

func init() { checks["C27"] = c27 }

// c27cluster is a cluster with one adapter whose every API request is judged.
type c27cluster struct {
	id    string
	named map[string]bool
	mu    sync.Mutex
	flt   float64 // how many API requests fail
	frnd  *rand.Rand
}

// fault lets a share of the API requests fail.
func (c *c27cluster) fault(q *http.Request) int {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.frnd.Float64() >= c.flt {
		return 0
	}
	return []int{500, 503, 403, 401, 404, 409, 422, 429, -1}[c.frnd.Intn(9)]
}

func (c *c27cluster) setFaults(share float64) { c.mu.Lock(); c.flt = share; c.mu.Unlock() }

// c27judge looks at every request a cluster has seen.
func c27judge(r *vh.Report, c *c27cluster, log []vh.KReq) {
	missing := false // the last read of the key secret failed
	for _, q := range log {
		wit := vh.M{"cluster": c.id, "request": q}
		r.Count("api_requests", 1)
		p := strings.Split(strings.Trim(q.Path, "/"), "/")
		custom := len(p) > 2 && p[0] == "apis" && p[1] == "security.cloud.ibm.com"
		secret := strings.Contains("/"+strings.Join(p, "/")+"/", "/secrets/")
		switch q.Method {
		case "GET", "HEAD":
			if secret {
				r.Count("secret_reads", 1)
				if len(p) != 6 || p[0] != "api" || p[2] != "namespaces" || p[4] != "secrets" || strings.Contains(q.Query, "watch") {
					r.Violation("the adapter lists or watches secrets: "+q.Path+"?"+q.Query, wit)
				} else if p[3] == keyNS && p[5] == keyName {
					missing = q.Status != 200
				} else if n := p[3] + "/" + p[5]; !c.named[n] {
					r.Violation("the adapter reads the secret "+n+", which no configuration of that namespace names", wit)
				}
			} else if custom {
				r.Count("resource_reads", 1)
			} else if len(p) >= 2 && p[0] == "api" || len(p) >= 3 && p[0] == "apis" {
				if len(p) > 2 && !(p[0] == "apis" && len(p) == 3) {
					r.Violation("the adapter reads "+q.Path, wit)
				}
			}
		case "POST":
			var o struct {
				Metadata struct{ Name, Namespace string }
				Data     map[string][]byte
			}
			if q.Path != "/api/v1/namespaces/"+keyNS+"/secrets" || json.Unmarshal([]byte(q.Body), &o) != nil || o.Metadata.Name != keyName {
				r.Violation("the adapter creates "+q.Path+" "+o.Metadata.Name, wit)
				continue
			}
			r.Count("key_secret_posts", 1)
			if !missing {
				r.Violation("the adapter creates its key secret though it has read it", wit)
			}
			missing = missing && q.Status != 201
		default:
			r.Violation(fmt.Sprintf("the adapter sends %s %s", q.Method, q.Path), wit)
		}
	}
}

func c27() {
	r := vh.NewReport("C27", "the real adapter in clusters that differ in what exists when it starts, through random histories of resources of all sorts, requests, failing API requests, dropped watches and restarts; a monitor judges every request the API server receives; cases are the steps of the histories")
	r.Assumptions = []string{"the key secret is not deleted while instances run"}
	rnd := r.Rand("c27")
	n := r.Pick(16, 64)
	seeds := make([]int64, n)
	for i := range seeds {
		seeds[i] = rnd.Int63()
	}
	vh.PreKeys(2, 1024)
	key := vh.NewKeyE("k1", 1024, 65537)
	par(n, 8, func(i int) {
		if r.TooMany() {
			return
		}
		rnd := rand.New(rand.NewSource(seeds[i]))
		c := &c27cluster{id: fmt.Sprint(i), named: map[string]bool{}, frnd: rand.New(rand.NewSource(seeds[i] + 1))}
		opts := vh.SutOpts{}
		if i%4 == 3 {
			opts.Args = []string{"--level", "3", "--hash-key", "64", "--block-key", "32"}
		}
		start := time.Now()
		w := vh.NewWorldOn(r, opts, func(k *vh.Kube) {
			if i%4 > 0 { // (else the key secret exists, though it may lack keys)
				k.DeleteSecret(keyNS, keyName)
			} else if i%16 == 4 {
				k.SetSecret(keyNS, keyName, map[string]string{"HASH_KEY": vh.HashKey, "BLOCK_KEY": ""})
			} else if i%16 == 8 {
				k.SetSecret(keyNS, keyName, map[string]string{"BLOCK_KEY": vh.BlockKey})
			} else if i%16 == 12 {
				k.SetSecret(keyNS, keyName, map[string]string{})
			}
			if i%4 == 2 { // in trouble from the start
				c.setFaults(0.3)
			}
			k.SetFault(c.fault)
			time.AfterFunc(3*time.Second, func() { c.setFaults(0) })
		})
		defer w.Close()
		w.IdP.KeepLog = false
		if i%4 == 2 {
			time.Sleep(time.Until(start.Add(4 * time.Second)))
		}
		t := w.IdP.Tenant("t")
		t.SetKeys(key)
		spaces := []string{"n", "istio-system", "kube-system"}
		name := func() string { return []string{"a", "b", "x-y"}[rnd.Intn(3)] }
		ns := func() string { return spaces[rnd.Intn(len(spaces))] }
		meta := func() vh.M {
			m := vh.M{}
			if rnd.Intn(3) == 0 {
				m["finalizers"] = []string{"security.cloud.ibm.com/adapter"}
			}
			if rnd.Intn(3) == 0 {
				m["annotations"] = vh.M{"kubectl.kubernetes.io/last-applied-configuration": "{}"}
				m["labels"] = vh.M{"app": "x"}
			}
			return m
		}
		var hist []string
		for s := 0; s < r.Pick(150, 400) && w.Sut.Alive() && !r.TooMany(); s++ {
			what := ""
			switch op := rnd.Intn(16); op {
			case 0, 1, 2:
				a, b := ns(), name()
				what = "policy " + a + "/" + b
				typ := []string{"jwt", "oidc"}[rnd.Intn(2)]
				w.Kube.ApplyRaw(vh.Policies, a, b, vh.M{"metadata": meta(), "status": vh.M{"phase": "new"},
					"spec": vh.Spec("svc-"+b, vh.PathEntry(typ, "", "/", "", name(), "", nil))})
			case 3:
				a, b := ns(), name()
				what = "JWT configuration " + a + "/" + b
				w.Kube.ApplyRaw(vh.JwtConfigs, a, b, vh.M{"metadata": meta(), "spec": vh.M{"jwksUrl": t.JwksURL()}})
			case 4, 5, 6:
				a, b, ref := ns(), name(), name()
				what = "OIDC configuration " + a + "/" + b + " with secret " + ref
				c.named[a+"/"+ref] = true
				spec := vh.M{"clientId": "c-" + a + b, "discoveryUrl": t.DiscoveryURL(), "clientSecretRef": vh.M{"name": ref, "key": "k"}}
				if rnd.Intn(2) == 0 {
					spec["clientSecret"] = "plain"
				}
				w.Kube.ApplyRaw(vh.OidcConfigs, a, b, vh.M{"metadata": meta(), "spec": spec})
			case 7:
				kind := []string{vh.Policies, vh.JwtConfigs, vh.OidcConfigs}[rnd.Intn(3)]
				a, b := ns(), name()
				what = "delete " + kind + " " + a + "/" + b
				w.Kube.Delete(kind, a, b)
			case 8:
				a, b := ns(), name()
				what = "secret " + a + "/" + b
				if rnd.Intn(3) == 0 {
					w.Kube.DeleteSecret(a, b)
				} else {
					w.Kube.SetSecret(a, b, map[string]string{[]string{"k", "other"}[rnd.Intn(2)]: "v"})
				}
			case 9:
				what = "watches dropped"
				w.Kube.DropWatches()
				if rnd.Intn(2) == 0 {
					w.Kube.Compact()
				}
			case 10:
				what = "failing API"
				c.setFaults(0.5)
				time.AfterFunc(300*time.Millisecond, func() { c.setFaults(0) })
			case 11:
				if rnd.Intn(4) == 0 {
					what = "restart"
					if w.Kube.Secret(keyNS, keyName) != nil {
						w.Sut.Stop()
						w.StartAdapter()
						r.Count("restarts", 1)
						break
					}
				}
				what = "bad resource"
				w.Kube.ApplyRaw(vh.OidcConfigs, ns(), name(), vh.M{"spec": vh.M{"clientId": "", "discoveryUrl": "::"}})
			default:
				a, b := ns(), name()
				page := vh.Get(a, "svc-"+b, "/x")
				what = "requests to " + a + "/" + b
				br := vh.NewBrowser()
				if resp := w.Visit(br, page); resp.Allowed() {
					break
				}
				w.Do(vh.Bearer(a, "svc-"+b, "/x", key.Sign(vh.BaseClaims("u"))))
				if az, err := vh.ParseLogin(w.Visit(br, page)); err == nil {
					code := w.NextCode()
					t.Code(code, vh.Give(vh.Tokens{Access: key.Sign(vh.BaseClaims("u").With("aud", az.Q.Get("client_id"))), ID: key.Sign(vh.BaseClaims("u")), Refresh: "r"}))
					w.Visit(br, vh.Callback(page, code, az.State))
					if w.Visit(br, page).Allowed() {
						r.Count("sessions", 1)
					}
					w.Visit(br, vh.Logout(page))
				}
			}
			hist = append(hist, what)
			r.Case(fmt.Sprint(i, " ", s, " ", what), true)
			if rnd.Intn(3) == 0 {
				time.Sleep(time.Duration(rnd.Intn(20)) * time.Millisecond)
			}
		}
		time.Sleep(400 * time.Millisecond)
		w.CheckAlive("following the cluster")
		c27judge(r, c, w.Kube.Log())
		r.Sample("history", vh.M{"cluster": i, "steps": hist})
	})
	r.Floor("api_requests", n*25)
	r.Floor("secret_reads", n*5)
	r.Floor("key_secret_posts", n/8)
	r.Floor("sessions", n/2)
	r.Finish()
}
