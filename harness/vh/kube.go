package vh

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Kinds of custom resources, by plural.
const (
	Policies    = "policies"
	JwtConfigs  = "jwtconfigs"
	OidcConfigs = "oidcconfigs"
)

var kindOf = map[string]string{Policies: "Policy", JwtConfigs: "JwtConfig", OidcConfigs: "OidcConfig"}

// M is a JSON object.
type M = map[string]interface{}

type kevent struct {
	rv     int
	typ    string
	ns     string
	plural string
	obj    M
}

// KReq is a recorded API request.
type KReq struct {
	Seq    int
	Method string
	Path   string
	Query  string
	Body   string
	Status int
}

// Kube is a fake API server with list, watch and secrets.
type Kube struct {
	mu      sync.Mutex
	cond    *sync.Cond
	rv      int
	objs    map[string]map[string]M // plural -> ns/name -> object
	events  []kevent
	oldest  int // events with rv <= oldest are compacted
	secrets map[string]M
	log     []KReq
	gen     int // bumped to drop watches
	closed  bool
	uid     int

	// fault decides on a status to answer instead (0: none, <0: drop the connection); called without the lock.
	fault func(r *http.Request) int
	// Delay is called before a watch event is delivered.
	Delay func()
	// SecretHook is called (without the lock) before a secret request is served.
	SecretHook func(r *http.Request)
	// LoseAnswer tells to serve a secret request, but to drop the connection instead of answering.
	LoseAnswer func(r *http.Request) bool

	srv *http.Server
	ln  net.Listener
	URL string
}

// NewKube starts the fake API server.
func NewKube() *Kube {
	k := &Kube{objs: map[string]map[string]M{}, secrets: map[string]M{}, rv: 100}
	k.cond = sync.NewCond(&k.mu)
	for p := range kindOf {
		k.objs[p] = map[string]M{}
	}
	k.listen("")
	return k
}

func (k *Kube) listen(addr string) {
	var ln net.Listener
	var err error
	for i := 0; i < 50; i++ {
		if addr == "" {
			ln, err = Listen()
		} else {
			ln, err = net.Listen("tcp", addr)
		}
		if err == nil {
			break
		}
		time.Sleep(100 * time.Millisecond)
	}
	if err != nil {
		panic(err)
	}
	k.ln = ln
	k.URL = "http://" + ln.Addr().String()
	k.srv = &http.Server{Handler: k}
	go k.srv.Serve(ln)
}

// SetFault installs (or with nil removes) a fault injector.
func (k *Kube) SetFault(f func(r *http.Request) int) { k.mu.Lock(); k.fault = f; k.mu.Unlock() }

// Close stops the server.
func (k *Kube) Close() {
	k.mu.Lock()
	k.closed = true
	k.gen++
	k.cond.Broadcast()
	k.mu.Unlock()
	k.srv.Close()
}

// Stop makes the API server unreachable; Resume brings it back at the same address.
func (k *Kube) Stop() {
	k.DropWatches()
	k.srv.Close()
}

// Resume listens again after Stop.
func (k *Kube) Resume() { k.listen(strings.TrimPrefix(k.URL, "http://")) }

// Log returns a copy of the recorded requests.
func (k *Kube) Log() []KReq {
	k.mu.Lock()
	defer k.mu.Unlock()
	return append([]KReq{}, k.log...)
}

// Apply creates or updates a resource.
func (k *Kube) Apply(plural, ns, name string, spec interface{}) {
	// through JSON, so that the stored object is independent of the caller
	var sp interface{}
	if err := json.Unmarshal(MustJSON(spec), &sp); err != nil {
		panic(err)
	}
	k.ApplyRaw(plural, ns, name, M{"spec": sp})
}

// ApplyRaw creates or updates a resource with arbitrary top-level content.
func (k *Kube) ApplyRaw(plural, ns, name string, extra M) {
	k.mu.Lock()
	defer k.mu.Unlock()
	key := ns + "/" + name
	old, exists := k.objs[plural][key]
	uid, gen, created := "", int64(1), time.Now().UTC().Format(time.RFC3339)
	if exists {
		md := old["metadata"].(M)
		uid, gen, created = md["uid"].(string), md["generation"].(int64), md["creationTimestamp"].(string)
		// like the API server: the generation counts changes of the content, and an update without change is none
		content := func(o M) string {
			c := M{}
			for a, b := range o {
				if a != "metadata" && a != "apiVersion" && a != "kind" {
					c[a] = b
				}
			}
			return string(MustJSON(c))
		}
		if content(old) != content(extra) {
			gen++
		} else if extra["metadata"] == nil {
			return
		}
	} else {
		k.uid++
		uid = fmt.Sprintf("uid-%d", k.uid)
	}
	k.rv++
	obj := M{"apiVersion": "security.cloud.ibm.com/v1", "kind": kindOf[plural],
		"metadata": M{"name": name, "namespace": ns, "uid": uid, "generation": gen, "creationTimestamp": created, "resourceVersion": strconv.Itoa(k.rv), "selfLink": "/apis/security.cloud.ibm.com/v1/namespaces/" + ns + "/" + plural + "/" + name}}
	for a, b := range extra {
		if md, ok := b.(M); ok && a == "metadata" { // what clients may set
			for _, f := range []string{"labels", "annotations", "finalizers"} {
				if v, ok := md[f]; ok {
					obj["metadata"].(M)[f] = v
				}
			}
			continue
		}
		obj[a] = b
	}
	k.objs[plural][key] = obj
	typ := "ADDED"
	if exists {
		typ = "MODIFIED"
	}
	k.events = append(k.events, kevent{k.rv, typ, ns, plural, obj})
	k.cond.Broadcast()
}

// Delete removes a resource.
func (k *Kube) Delete(plural, ns, name string) {
	k.mu.Lock()
	defer k.mu.Unlock()
	key := ns + "/" + name
	obj, ok := k.objs[plural][key]
	if !ok {
		return
	}
	k.rv++
	delete(k.objs[plural], key)
	last, md := M{}, M{}
	for a, b := range obj {
		last[a] = b
	}
	for a, b := range obj["metadata"].(M) {
		md[a] = b
	}
	md["resourceVersion"] = strconv.Itoa(k.rv)
	last["metadata"] = md
	obj = last
	k.events = append(k.events, kevent{k.rv, "DELETED", ns, plural, obj})
	k.cond.Broadcast()
}

// SetSecret stores a secret.
func (k *Kube) SetSecret(ns, name string, data map[string]string) {
	k.mu.Lock()
	defer k.mu.Unlock()
	d := M{}
	for a, b := range data {
		d[a] = base64.StdEncoding.EncodeToString([]byte(b))
	}
	k.rv++
	k.secrets[ns+"/"+name] = M{"apiVersion": "v1", "kind": "Secret", "type": "Opaque",
		"metadata": M{"name": name, "namespace": ns, "resourceVersion": strconv.Itoa(k.rv)}, "data": d}
}

// DeleteSecret removes a secret.
func (k *Kube) DeleteSecret(ns, name string) {
	k.mu.Lock()
	delete(k.secrets, ns+"/"+name)
	k.mu.Unlock()
}

// Secret returns the decoded data of a secret.
func (k *Kube) Secret(ns, name string) map[string]string {
	k.mu.Lock()
	defer k.mu.Unlock()
	s, ok := k.secrets[ns+"/"+name]
	if !ok {
		return nil
	}
	out := map[string]string{}
	if d, ok := s["data"].(M); ok {
		for a, b := range d {
			v, _ := base64.StdEncoding.DecodeString(fmt.Sprint(b))
			out[a] = string(v)
		}
	}
	return out
}

// DropWatches closes all running watches; clients resume from their resource version.
func (k *Kube) DropWatches() {
	k.mu.Lock()
	k.gen++
	k.cond.Broadcast()
	k.mu.Unlock()
}

// Compact forgets the event history, so that resuming clients are told 410 Gone and list again.
func (k *Kube) Compact() {
	k.mu.Lock()
	k.rv++
	k.oldest = k.rv
	k.events = nil
	k.gen++
	k.cond.Broadcast()
	k.mu.Unlock()
}

type statusWriter struct {
	http.ResponseWriter
	status int
}

func (s *statusWriter) WriteHeader(c int) { s.status = c; s.ResponseWriter.WriteHeader(c) }
func (s *statusWriter) Flush()            { s.ResponseWriter.(http.Flusher).Flush() }

type lostWriter struct{ h http.Header }

func (l *lostWriter) Header() http.Header         { return l.h }
func (l *lostWriter) Write(b []byte) (int, error) { return len(b), nil }
func (l *lostWriter) WriteHeader(int)             {}

func kerr(w http.ResponseWriter, code int, reason, msg string) {
	w.Header().Set("Content-Type", "application/json")
	w.WriteHeader(code)
	w.Write(MustJSON(M{"kind": "Status", "apiVersion": "v1", "metadata": M{}, "status": "Failure", "reason": reason, "message": msg, "code": code}))
}

func (k *Kube) ServeHTTP(w0 http.ResponseWriter, r *http.Request) {
	w := &statusWriter{w0, 200}
	body, _ := io.ReadAll(io.LimitReader(r.Body, 1<<20))
	k.mu.Lock()
	seq := len(k.log)
	k.log = append(k.log, KReq{seq, r.Method, r.URL.Path, r.URL.RawQuery, string(body), 0})
	k.mu.Unlock()
	defer func() {
		k.mu.Lock()
		k.log[seq].Status = w.status
		k.mu.Unlock()
	}()
	k.mu.Lock()
	fault := k.fault
	k.mu.Unlock()
	if fault != nil {
		if c := fault(r); c > 0 {
			kerr(w, c, "InternalError", "injected fault")
			return
		} else if c < 0 { // drop the connection
			w.status = -1
			panic(http.ErrAbortHandler)
		}
	}
	parts := strings.Split(strings.Trim(r.URL.Path, "/"), "/")
	switch {
	case len(parts) >= 4 && parts[0] == "apis" && parts[1] == "security.cloud.ibm.com" && parts[2] == "v1":
		k.custom(w, r, parts[3:], body)
	case len(parts) >= 4 && parts[0] == "api" && parts[1] == "v1" && parts[2] == "namespaces" && len(parts) >= 5 && parts[4] == "secrets":
		if k.SecretHook != nil {
			k.SecretHook(r)
		}
		if k.LoseAnswer != nil && k.LoseAnswer(r) {
			k.secret(&lostWriter{http.Header{}}, r, parts[3], parts[5:], body)
			panic(http.ErrAbortHandler)
		}
		k.secret(w, r, parts[3], parts[5:], body)
	default:
		kerr(w, 404, "NotFound", "unknown path "+r.URL.Path)
	}
}

func (k *Kube) secret(w http.ResponseWriter, r *http.Request, ns string, rest []string, body []byte) {
	k.mu.Lock()
	defer k.mu.Unlock()
	w.Header().Set("Content-Type", "application/json")
	switch {
	case r.Method == "GET" && len(rest) == 1:
		s, ok := k.secrets[ns+"/"+rest[0]]
		if !ok {
			kerr(w, 404, "NotFound", "secrets \""+rest[0]+"\" not found")
			return
		}
		w.Write(MustJSON(s))
	case r.Method == "POST" && len(rest) == 0:
		var s M
		if json.Unmarshal(body, &s) != nil {
			kerr(w, 400, "BadRequest", "bad body")
			return
		}
		md, _ := s["metadata"].(M)
		name := fmt.Sprint(md["name"])
		if _, ok := k.secrets[ns+"/"+name]; ok {
			kerr(w, 409, "AlreadyExists", "secrets \""+name+"\" already exists")
			return
		}
		k.rv++
		md["namespace"] = ns
		md["resourceVersion"] = strconv.Itoa(k.rv)
		k.secrets[ns+"/"+name] = s
		w.WriteHeader(201)
		w.Write(MustJSON(s))
	case (r.Method == "PUT" || r.Method == "PATCH") && len(rest) == 1:
		var s M
		if json.Unmarshal(body, &s) != nil {
			kerr(w, 400, "BadRequest", "bad body")
			return
		}
		k.secrets[ns+"/"+rest[0]] = s
		w.Write(MustJSON(s))
	case r.Method == "DELETE" && len(rest) == 1:
		delete(k.secrets, ns+"/"+rest[0])
		w.Write(MustJSON(M{"kind": "Status", "apiVersion": "v1", "status": "Success"}))
	default:
		kerr(w, 405, "MethodNotAllowed", r.Method)
	}
}

func (k *Kube) custom(w *statusWriter, r *http.Request, rest []string, body []byte) {
	ns := ""
	if rest[0] == "namespaces" {
		if len(rest) < 3 {
			kerr(w, 404, "NotFound", "path")
			return
		}
		ns = rest[1]
		rest = rest[2:]
	}
	plural := rest[0]
	if _, ok := kindOf[plural]; !ok {
		kerr(w, 404, "NotFound", "unknown resource "+plural)
		return
	}
	w.Header().Set("Content-Type", "application/json")
	if len(rest) == 2 {
		name := rest[1]
		switch r.Method {
		case "GET":
			k.mu.Lock()
			o, ok := k.objs[plural][ns+"/"+name]
			k.mu.Unlock()
			if !ok {
				kerr(w, 404, "NotFound", name)
				return
			}
			w.Write(MustJSON(o))
		case "PUT":
			var o M
			if json.Unmarshal(body, &o) != nil {
				kerr(w, 400, "BadRequest", "bad body")
				return
			}
			k.mu.Lock()
			_, ok := k.objs[plural][ns+"/"+name]
			k.mu.Unlock()
			if !ok {
				kerr(w, 404, "NotFound", name)
				return
			}
			k.store(w, plural, ns, name, o)
		case "PATCH":
			var d M
			k.mu.Lock()
			o, ok := k.objs[plural][ns+"/"+name]
			k.mu.Unlock()
			if !ok {
				kerr(w, 404, "NotFound", name)
				return
			}
			if r.Header.Get("Content-Type") != "application/merge-patch+json" || json.Unmarshal(body, &d) != nil {
				kerr(w, 415, "UnsupportedMediaType", "only merge patches")
				return
			}
			var c M
			json.Unmarshal(MustJSON(o), &c)
			k.store(w, plural, ns, name, mergePatch(c, d))
		case "DELETE":
			k.mu.Lock()
			_, ok := k.objs[plural][ns+"/"+name]
			k.mu.Unlock()
			if !ok {
				kerr(w, 404, "NotFound", name)
				return
			}
			k.Delete(plural, ns, name)
			w.Write(MustJSON(M{"kind": "Status", "apiVersion": "v1", "status": "Success"}))
		default:
			kerr(w, 405, "MethodNotAllowed", r.Method)
		}
		return
	}
	switch r.Method {
	case "POST":
		var o M
		if json.Unmarshal(body, &o) != nil {
			kerr(w, 400, "BadRequest", "bad body")
			return
		}
		md, _ := o["metadata"].(M)
		k.mu.Lock()
		_, ok := k.objs[plural][ns+"/"+fmt.Sprint(md["name"])]
		k.mu.Unlock()
		if ok {
			kerr(w, 409, "AlreadyExists", fmt.Sprint(md["name"]))
			return
		}
		w.WriteHeader(201)
		k.store(w, plural, ns, fmt.Sprint(md["name"]), o)
	case "DELETE":
		k.mu.Lock()
		var names [][2]string
		for key := range k.objs[plural] {
			i := strings.Index(key, "/")
			if (ns == "" || key[:i] == ns) && matches(k.objs[plural][key], r.URL.Query().Get("labelSelector")) {
				names = append(names, [2]string{key[:i], key[i+1:]})
			}
		}
		k.mu.Unlock()
		for _, n := range names {
			k.Delete(plural, n[0], n[1])
		}
		w.Write(MustJSON(M{"kind": "Status", "apiVersion": "v1", "status": "Success"}))
	case "GET":
		if r.URL.Query().Get("watch") != "" && r.URL.Query().Get("watch") != "false" && r.URL.Query().Get("watch") != "0" {
			k.watch(w, r, plural, ns)
			return
		}
		k.mu.Lock()
		keys := []string{}
		for key := range k.objs[plural] {
			if (ns == "" || strings.HasPrefix(key, ns+"/")) && matches(k.objs[plural][key], r.URL.Query().Get("labelSelector")) {
				keys = append(keys, key)
			}
		}
		sort.Strings(keys)
		items := make([]interface{}, 0, len(keys))
		for _, key := range keys {
			items = append(items, k.objs[plural][key])
		}
		b := MustJSON(M{"apiVersion": "security.cloud.ibm.com/v1", "kind": kindOf[plural] + "List",
			"metadata": M{"resourceVersion": strconv.Itoa(k.rv)}, "items": items})
		k.mu.Unlock()
		w.Write(b)
	default:
		kerr(w, 405, "MethodNotAllowed", r.Method)
	}
}

func (k *Kube) store(w http.ResponseWriter, plural, ns, name string, o M) {
	ex := M{}
	for a, b := range o {
		if a != "apiVersion" && a != "kind" {
			ex[a] = b
		}
	}
	k.ApplyRaw(plural, ns, name, ex)
	k.mu.Lock()
	b := MustJSON(k.objs[plural][ns+"/"+name])
	k.mu.Unlock()
	w.Write(b)
}

func (k *Kube) watch(w *statusWriter, r *http.Request, plural, ns string) {
	from, _ := strconv.Atoi(r.URL.Query().Get("resourceVersion"))
	k.mu.Lock()
	if from < k.oldest {
		k.mu.Unlock()
		w.WriteHeader(200)
		w.Write(MustJSON(M{"type": "ERROR", "object": M{"kind": "Status", "apiVersion": "v1", "status": "Failure", "reason": "Gone", "code": 410, "message": "too old resource version"}}))
		return
	}
	gen := k.gen
	k.mu.Unlock()
	w.WriteHeader(200)
	w.Flush()
	done := make(chan struct{})
	stop := make(chan struct{})
	defer close(stop)
	go func() {
		select {
		case <-r.Context().Done():
		case <-stop:
		}
		k.mu.Lock()
		close(done)
		k.cond.Broadcast()
		k.mu.Unlock()
	}()
	for {
		k.mu.Lock()
		var batch []kevent
		for {
			select {
			case <-done:
				k.mu.Unlock()
				return
			default:
			}
			if k.gen != gen || k.closed {
				k.mu.Unlock()
				return
			}
			// events are sorted by rv
			i := sort.Search(len(k.events), func(i int) bool { return k.events[i].rv > from })
			for ; i < len(k.events); i++ {
				from = k.events[i].rv
				if k.events[i].plural == plural && (ns == "" || k.events[i].ns == ns) && matches(k.events[i].obj, r.URL.Query().Get("labelSelector")) {
					batch = append(batch, k.events[i])
				}
			}
			if len(batch) > 0 {
				break
			}
			k.cond.Wait()
		}
		k.mu.Unlock()
		for _, e := range batch {
			if k.Delay != nil {
				k.Delay()
			}
			obj := M{}
			for a, b := range e.obj {
				obj[a] = b
			}
			if e.typ == "DELETED" { // carries the deletion's resource version
				md := M{}
				for a, b := range e.obj["metadata"].(M) {
					md[a] = b
				}
				md["resourceVersion"] = strconv.Itoa(e.rv)
				obj["metadata"] = md
			}
			if _, err := w.Write(append(MustJSON(M{"type": e.typ, "object": obj}), '\n')); err != nil {
				return
			}
		}
		w.Flush()
	}
}

// matches evaluates a selector of the form "key=value" (or nothing).
func matches(o M, sel string) bool {
	if sel == "" {
		return true
	}
	kv := strings.SplitN(sel, "=", 2)
	l, _ := o["metadata"].(M)["labels"].(M)
	return len(kv) == 2 && l[kv[0]] == kv[1]
}

func mergePatch(o, d M) M {
	for a, b := range d {
		switch v := b.(type) {
		case nil:
			delete(o, a)
		case M:
			c, ok := o[a].(M)
			if !ok {
				c = M{}
			}
			o[a] = mergePatch(c, v)
		default:
			o[a] = b
		}
	}
	return o
}
