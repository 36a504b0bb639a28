package main

import (
	"fmt"
	"io"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"strings"
	"sync"
	"time"

	"verif/harness/vh"

	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/clientset/versioned"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/informers/externalversions"
	informersv1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/informers/externalversions/policies/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/apimachinery/pkg/watch"
	"k8s.io/client-go/rest"
	"k8s.io/client-go/tools/cache"
)

// sent is a request as it arrived.
type sent struct {
	method, path, ctype, body string
	q                         url.Values
}

func (s sent) String() string {
	return fmt.Sprintf("%s %s?%s %s", s.method, s.path, s.q.Encode(), s.body)
}

// recorder is an API server that remembers what it is sent and has nothing.
type recorder struct {
	*httptest.Server
	mu  sync.Mutex
	log []sent
}

func newRecorder() *recorder {
	rec := &recorder{}
	rec.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
		b, _ := io.ReadAll(q.Body)
		s := sent{q.Method, q.URL.Path, q.Header.Get("Content-Type"), string(b), q.URL.Query()}
		rec.mu.Lock()
		rec.log = append(rec.log, s)
		rec.mu.Unlock()
		w.Header().Set("Content-Type", "application/json")
		name := "JwtConfig"
		for _, k := range kinds {
			if strings.Contains(s.path+"/", "/"+k.plural+"/") {
				name = k.name
			}
		}
		m := vh.M{"kind": name, "apiVersion": group.String(), "metadata": vh.M{"name": "x", "namespace": "y"}}
		if s.method == "GET" && strings.HasSuffix(s.path, "s") && !strings.HasSuffix(s.path, "/status") {
			m = vh.M{"kind": name + "List", "apiVersion": group.String(), "metadata": vh.M{"resourceVersion": "5"}, "items": []vh.M{}}
		}
		if s.method == "DELETE" {
			m = vh.M{"kind": "Status", "apiVersion": "v1", "status": "Success"}
		}
		if w1 := s.q.Get("watch"); w1 == "true" || w1 == "1" {
			w.WriteHeader(200)
			w.(http.Flusher).Flush()
			select {
			case <-q.Context().Done():
			case <-time.After(300 * time.Millisecond):
			}
			return
		}
		w.Write(vh.MustJSON(m))
	}))
	return rec
}

func (rec *recorder) take() []sent {
	rec.mu.Lock()
	defer rec.mu.Unlock()
	l := rec.log
	rec.log = nil
	return l
}

// checkWire compares what the client sends with what the caller asked for.
func checkWire(r *vh.Report, rnd *rand.Rand, n int) {
	rec := newRecorder()
	defer rec.Close()
	cs, err := versioned.NewForConfig(&rest.Config{Host: rec.URL, QPS: 1e6, Burst: 1e6})
	if err != nil {
		r.Violation("no client: "+err.Error(), nil)
		return
	}
	maybe := func(l ...string) string {
		if rnd.Intn(2) == 0 {
			return ""
		}
		return l[rnd.Intn(len(l))]
	}
	for i := 0; i < n && !r.TooMany(); i++ {
		k := kinds[rnd.Intn(len(kinds))]
		ns := []string{"default", "team-a", "n1"}[rnd.Intn(3)]
		name := []string{"a", "c.d", "x-1"}[rnd.Intn(3)]
		lo := metav1.ListOptions{LabelSelector: maybe("a=b", "a in (x,y),!z"), FieldSelector: maybe("metadata.name=a"), ResourceVersion: maybe("0", "17"), Continue: maybe("tok en/+=")}
		if rnd.Intn(2) == 0 {
			lo.Limit = int64(1 + rnd.Intn(500))
		}
		if rnd.Intn(2) == 0 {
			t := int64(1 + rnd.Intn(300))
			lo.TimeoutSeconds = &t
		}
		want := vh.M{}
		wantList := func() {
			want = vh.M{"labelSelector": lo.LabelSelector, "fieldSelector": lo.FieldSelector, "resourceVersion": lo.ResourceVersion, "continue": lo.Continue, "limit": "", "timeoutSeconds": "", "timeout": ""}
			if lo.Limit != 0 {
				want["limit"] = fmt.Sprint(lo.Limit)
			}
			if lo.TimeoutSeconds != nil {
				want["timeoutSeconds"] = fmt.Sprint(*lo.TimeoutSeconds)
				want["timeout"] = (time.Duration(*lo.TimeoutSeconds) * time.Second).String()
			}
		}
		base := "/apis/" + group.String() + "/namespaces/" + ns + "/" + k.plural
		method, path, body, ctype := "GET", base+"/"+name, "", ""
		op := []string{"Get", "List", "Watch", "Delete", "DeleteCollection", "Patch", "Create", "Update"}[i%8]
		var err error
		rec.take()
		var grace *int64
		if rnd.Intn(2) == 0 {
			g := int64(rnd.Intn(100))
			grace = &g
		}
		prop := metav1.DeletePropagationForeground
		do := &metav1.DeleteOptions{GracePeriodSeconds: grace}
		if rnd.Intn(2) == 0 {
			do.PropagationPolicy = &prop
		}
		inBody := []string{}
		switch op {
		case "Get":
			want["resourceVersion"] = lo.ResourceVersion
			err = errOf(client(cs, k, ns, op, name, metav1.GetOptions{ResourceVersion: lo.ResourceVersion})[1])
		case "List":
			path = base
			if rnd.Intn(3) == 0 {
				ns, path = "", "/apis/"+group.String()+"/"+k.plural
			}
			wantList()
			want["watch"] = ""
			err = errOf(client(cs, k, ns, op, lo)[1])
		case "Watch":
			path = base
			if rnd.Intn(3) == 0 {
				ns, path = "", "/apis/"+group.String()+"/"+k.plural
			}
			wantList()
			want["watch"] = "true"
			res := client(cs, k, ns, op, lo)
			if err = errOf(res[1]); err == nil {
				res[0].Interface().(watch.Interface).Stop()
			}
		case "Delete":
			method = "DELETE"
			err = errOf(client(cs, k, ns, op, name, do)[0])
		case "DeleteCollection":
			method, path = "DELETE", base
			wantList()
			err = errOf(client(cs, k, ns, op, do, lo)[0])
		case "Patch":
			method = "PATCH"
			pt := []types.PatchType{types.MergePatchType, types.JSONPatchType, types.StrategicMergePatchType}[rnd.Intn(3)]
			body, ctype = fmt.Sprintf(`{"x":%d}`, i), string(pt)
			args := []interface{}{name, pt, []byte(body)}
			for _, s := range [][]string{nil, {"status"}, {"scale"}, {"status", "more"}}[rnd.Intn(4)] {
				args = append(args, s)
				path += "/" + s
			}
			err = errOf(client(cs, k, ns, op, args...)[1])
		default:
			o := typed(k.name, tree(rnd, k.name), metav1.ObjectMeta{Name: name, Namespace: ns, ResourceVersion: lo.ResourceVersion})
			inBody = append(inBody, fmt.Sprintf(`"name":%q`, name))
			method = "PUT"
			if op == "Create" {
				method, path = "POST", base
			}
			err = errOf(client(cs, k, ns, op, o)[1])
		}
		if strings.HasPrefix(op, "Delete") {
			if grace != nil {
				inBody = append(inBody, fmt.Sprintf(`"gracePeriodSeconds":%d`, *grace))
			}
			if do.PropagationPolicy != nil {
				inBody = append(inBody, `"propagationPolicy":"Foreground"`)
			}
		}
		l := rec.take()
		r.Case(fmt.Sprint("wire ", i, op, k.name), true)
		r.Count("wire_requests", len(l))
		wit := vh.M{"operation": op + " " + k.name, "namespace": ns, "name": name, "expected": vh.M{"request": method + " " + path, "query": want, "in_body": inBody}, "received": fmt.Sprint(l)}
		if len(l) != 1 || err != nil {
			r.Violation(fmt.Sprintf("client: %s of a %s sent %d requests and gave %v", op, k.name, len(l), err), wit)
			continue
		}
		got := l[0]
		if got.method != method || got.path != path {
			r.Violation(fmt.Sprintf("client: %s of a %s asked for %s %s instead of %s %s", op, k.name, got.method, got.path, method, path), wit)
		}
		for p, v := range want {
			g := got.q.Get(p)
			if p == "watch" && g == "1" {
				g = "true"
			}
			if g != v {
				r.Violation(fmt.Sprintf("client: %s of a %s sent %s=%q instead of %q", op, k.name, p, got.q.Get(p), v), wit)
			}
		}
		if body != "" && (got.body != body || got.ctype != ctype) {
			r.Violation(fmt.Sprintf("client: %s of a %s sent %q as %s", op, k.name, got.body, got.ctype), wit)
		}
		for _, s := range inBody {
			if !strings.Contains(got.body, s) {
				r.Violation(fmt.Sprintf("client: %s of a %s did not send %s", op, k.name, s), wit)
			}
		}
	}

	// ---- informers list and watch what the caller's tweak says
	for i := 0; i < 4 && !r.TooMany(); i++ {
		rec.take()
		sel := fmt.Sprintf("env=e%d", i)
		ns := []string{"", "team-a"}[i%2]
		tweak := func(o *metav1.ListOptions) { o.LabelSelector = sel }
		stop := make(chan struct{})
		switch i {
		case 0, 1:
			f := externalversions.NewFilteredSharedInformerFactory(cs, 0, ns, tweak)
			if i == 0 {
				f = externalversions.NewSharedInformerFactoryWithOptions(cs, 0, externalversions.WithTweakListOptions(tweak))
			}
			f.Appid().V1().JwtConfigs().Informer()
			f.Appid().V1().OidcConfigs().Informer()
			f.Appid().V1().Policies().Informer()
			f.Start(stop)
		default:
			t := tweak
			if i == 3 {
				t = nil // none is fine, too
				sel = ""
			}
			for _, inf := range []cache.SharedIndexInformer{
				informersv1.NewFilteredJwtConfigInformer(cs, ns, 0, cache.Indexers{}, t),
				informersv1.NewFilteredOidcConfigInformer(cs, ns, 0, cache.Indexers{}, t),
				informersv1.NewFilteredPolicyInformer(cs, ns, 0, cache.Indexers{}, t)} {
				go inf.Run(stop)
			}
		}
		seen := map[string]string{}
		bad := ""
		vh.WaitFor(20*time.Second, func() bool {
			for _, s := range rec.take() {
				how := "list"
				if s.q.Get("watch") != "" {
					how = "watch"
				}
				want := "/apis/" + group.String() + "/"
				if ns != "" {
					want += "namespaces/" + ns + "/"
				}
				p := strings.TrimPrefix(s.path, want)
				seen[how+" "+p] = s.String()
				r.Count("wire_requests", 1)
				if s.q.Get("labelSelector") != sel || strings.Contains(p, "/") {
					bad = s.String()
				}
			}
			return bad != "" || len(seen) >= 6
		})
		close(stop)
		r.Case(fmt.Sprint("wire informers ", i), true)
		wit := vh.M{"namespace": ns, "selector": sel, "seen": seen}
		if bad != "" {
			r.Violation(fmt.Sprintf("informers told to use the selector %q in namespace %q asked for %s", sel, ns, bad), wit)
		}
		for _, k := range kinds {
			for _, how := range []string{"list", "watch"} {
				if bad == "" && seen[how+" "+k.plural] == "" {
					r.Violation(fmt.Sprintf("an informer of %s never sent its %s", k.plural, how), wit)
				}
			}
		}
		time.Sleep(50 * time.Millisecond)
	}
}
