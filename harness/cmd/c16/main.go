// c16 runs the check of the resource API types, their client, informers and listers.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"

	"verif/harness/vh"

	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/clientset/versioned"
	fakeset "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/clientset/versioned/fake"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/clientset/versioned/scheme"
	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/client/informers/externalversions"
	kerrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/apimachinery/pkg/watch"
	"k8s.io/client-go/rest"
	"k8s.io/client-go/tools/cache"
)

type kind struct {
	name, plural, method string
}

var kinds = []kind{{"JwtConfig", vh.JwtConfigs, "JwtConfigs"}, {"OidcConfig", vh.OidcConfigs, "OidcConfigs"}, {"Policy", vh.Policies, "Policies"}}

var group = schema.GroupVersion{Group: "security.cloud.ibm.com", Version: "v1"}

// ---- values

var words = []string{"", "a", "b c", "https://idp.example.com/x?y=z&w=%20", "<b>\"'&", "\u00e9\u4e16\U0001F600", "line\nbreak\ttab", "null", "true", "0", "\u2028", "/", "client_secret_post", "ALL"}

func word(rnd *rand.Rand) string {
	if rnd.Intn(3) > 0 {
		return words[rnd.Intn(len(words))]
	}
	return fmt.Sprintf("w%d", rnd.Intn(1000))
}

func list(rnd *rand.Rand, f func() interface{}) []interface{} {
	var l []interface{}
	for n := rnd.Intn(4); n > 0; n-- {
		l = append(l, f())
	}
	return l
}

func put(rnd *rand.Rand, m vh.M, k string, v interface{}) {
	if rnd.Intn(5) > 0 {
		m[k] = v
	}
}

// tree generates a specification under the documented field names.
func tree(rnd *rand.Rand, k string) vh.M {
	m := vh.M{}
	str := func() interface{} { return word(rnd) }
	switch k {
	case "JwtConfig":
		put(rnd, m, "jwksUrl", str())
	case "OidcConfig":
		for _, f := range []string{"authMethod", "clientId", "discoveryUrl", "clientSecret"} {
			put(rnd, m, f, str())
		}
		put(rnd, m, "scopes", list(rnd, str))
		if rnd.Intn(2) == 0 {
			ref := vh.M{}
			put(rnd, ref, "name", str())
			put(rnd, ref, "key", str())
			m["clientSecretRef"] = ref
		}
	case "Policy":
		m["targets"] = list(rnd, func() interface{} {
			t := vh.M{}
			put(rnd, t, "serviceName", str())
			put(rnd, t, "paths", list(rnd, func() interface{} {
				p := vh.M{}
				for _, f := range []string{"exact", "prefix", "method"} {
					put(rnd, p, f, str())
				}
				put(rnd, p, "policies", list(rnd, func() interface{} {
					q := vh.M{}
					for _, f := range []string{"policyType", "config", "redirectUri"} {
						put(rnd, q, f, str())
					}
					put(rnd, q, "rules", list(rnd, func() interface{} {
						u := vh.M{}
						for _, f := range []string{"claim", "match", "source"} {
							put(rnd, u, f, str())
						}
						put(rnd, u, "values", list(rnd, str))
						return u
					}))
					return q
				}))
				return p
			}))
			return t
		})
	}
	return m
}

func s(m interface{}, k string) string {
	v, _ := m.(vh.M)[k].(string)
	return v
}

func l(m interface{}, k string) []interface{} {
	v, _ := m.(vh.M)[k].([]interface{})
	return v
}

func strs(v []interface{}) (out []string) {
	for _, x := range v {
		out = append(out, x.(string))
	}
	return
}

// typed builds the object a specification stands for, field by field.
func typed(k string, m vh.M, meta metav1.ObjectMeta) runtime.Object {
	switch k {
	case "JwtConfig":
		return &v1.JwtConfig{ObjectMeta: meta, Spec: v1.JwtConfigSpec{JwksURL: s(m, "jwksUrl")}}
	case "OidcConfig":
		o := &v1.OidcConfig{ObjectMeta: meta, Spec: v1.OidcConfigSpec{AuthMethod: s(m, "authMethod"), ClientID: s(m, "clientId"), DiscoveryURL: s(m, "discoveryUrl"),
			ClientSecret: s(m, "clientSecret"), Scopes: strs(l(m, "scopes"))}}
		if ref, ok := m["clientSecretRef"]; ok {
			o.Spec.ClientSecretRef = v1.ClientSecretRef{Name: s(ref, "name"), Key: s(ref, "key")}
		}
		return o
	}
	o := &v1.Policy{ObjectMeta: meta}
	for _, t := range l(m, "targets") {
		te := v1.TargetElement{ServiceName: s(t, "serviceName")}
		for _, p := range l(t, "paths") {
			pc := v1.PathConfig{Exact: s(p, "exact"), Prefix: s(p, "prefix"), Method: s(p, "method")}
			for _, q := range l(p, "policies") {
				pp := v1.PathPolicy{PolicyType: s(q, "policyType"), Config: s(q, "config"), RedirectUri: s(q, "redirectUri")}
				for _, u := range l(q, "rules") {
					pp.Rules = append(pp.Rules, v1.Rule{Claim: s(u, "claim"), Match: s(u, "match"), Source: s(u, "source"), Values: strs(l(u, "values"))})
				}
				pc.Policies = append(pc.Policies, pp)
			}
			te.Paths = append(te.Paths, pc)
		}
		o.Spec.Target = append(o.Spec.Target, te)
	}
	return o
}

// norm drops empty fields, which stand for absent ones.
func norm(v interface{}) interface{} {
	switch x := v.(type) {
	case map[string]interface{}:
		out := vh.M{}
		for k, e := range x {
			e = norm(e)
			switch y := e.(type) {
			case nil:
				continue
			case string:
				if y == "" {
					continue
				}
			case []interface{}:
				if len(y) == 0 {
					continue
				}
			case vh.M:
				if len(y) == 0 {
					continue
				}
			}
			out[k] = e
		}
		return out
	case []interface{}:
		out := []interface{}{}
		for _, e := range x {
			out = append(out, norm(e))
		}
		return out
	}
	return v
}

func generic(b []byte) (m vh.M) {
	json.Unmarshal(b, &m)
	return
}

// specOf is the normalised specification of an object, through its JSON form.
func specOf(o interface{}) string {
	m := generic(vh.MustJSON(o))
	sp, _ := m["spec"].(vh.M)
	return string(vh.MustJSON(norm(sp)))
}

func specTree(m vh.M) string { return string(vh.MustJSON(norm(generic(vh.MustJSON(m))))) }

func meta(o interface{}) metav1.Object { return o.(metav1.ObjectMetaAccessor).GetObjectMeta() }

// ---- reflection

// fill sets every reachable field to something random.
func fill(rnd *rand.Rand, v reflect.Value, depth int) {
	switch v.Kind() {
	case reflect.String:
		v.SetString(word(rnd))
	case reflect.Bool:
		v.SetBool(rnd.Intn(2) == 0)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(int64(rnd.Intn(100)))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(rnd.Intn(100)))
	case reflect.Ptr:
		if rnd.Intn(4) > 0 && depth < 12 {
			v.Set(reflect.New(v.Type().Elem()))
			fill(rnd, v.Elem(), depth+1)
		}
	case reflect.Slice:
		switch rnd.Intn(6) {
		case 0: // nil
		case 1:
			v.Set(reflect.MakeSlice(v.Type(), 0, rnd.Intn(3)))
		default:
			n := 1 + rnd.Intn(3)
			if depth > 12 {
				n = 1
			}
			v.Set(reflect.MakeSlice(v.Type(), n, n+rnd.Intn(3)))
			for i := 0; i < n; i++ {
				fill(rnd, v.Index(i), depth+1)
			}
		}
	case reflect.Map:
		if depth > 10 { // some nest in themselves
			return
		}
		switch rnd.Intn(5) {
		case 0:
		case 1:
			v.Set(reflect.MakeMap(v.Type()))
		default:
			v.Set(reflect.MakeMap(v.Type()))
			for n := 1 + rnd.Intn(3); n > 0; n-- {
				k, e := reflect.New(v.Type().Key()).Elem(), reflect.New(v.Type().Elem()).Elem()
				fill(rnd, k, depth+1)
				fill(rnd, e, depth+1)
				v.SetMapIndex(k, e)
			}
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			v.Set(reflect.ValueOf(time.Unix(rnd.Int63n(2e9), 0).UTC()))
			return
		}
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fill(rnd, v.Field(i), depth+1)
			}
		}
	}
}

type span struct {
	from, to uintptr
	path     string
}

// memory collects the mutable memory reachable from a value.
func memory(v reflect.Value, path string, out *[]span) {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if n := v.Type().Elem().Size(); n > 0 {
			*out = append(*out, span{v.Pointer(), v.Pointer() + n, path})
		}
		memory(v.Elem(), path, out)
	case reflect.Interface:
		if !v.IsNil() {
			memory(v.Elem(), path, out)
		}
	case reflect.Slice:
		if n := uintptr(v.Cap()) * v.Type().Elem().Size(); n > 0 {
			*out = append(*out, span{v.Pointer(), v.Pointer() + n, path})
		}
		for i := 0; i < v.Len(); i++ {
			memory(v.Index(i), fmt.Sprintf("%s[%d]", path, i), out)
		}
	case reflect.Map:
		if !v.IsNil() {
			*out = append(*out, span{v.Pointer(), v.Pointer() + 1, path})
			for _, k := range v.MapKeys() {
				memory(v.MapIndex(k), path+"{}", out)
			}
		}
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(time.Time{}) {
			return // immutable
		}
		for i := 0; i < v.NumField(); i++ {
			memory(v.Field(i), path+"."+v.Type().Field(i).Name, out)
		}
	}
}

func shared(a, b []span) string {
	for _, x := range a {
		for _, y := range b {
			if x.from < y.to && y.from < x.to {
				return x.path
			}
		}
	}
	return ""
}

// copyable lists the types with deep copy functions reachable from the roots.
func copyable(t reflect.Type, out map[reflect.Type]bool, seen map[reflect.Type]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.Kind() == reflect.Struct {
		if _, ok := reflect.PtrTo(t).MethodByName("DeepCopy"); ok && strings.HasSuffix(t.PkgPath(), "apis/policies/v1") {
			out[t] = true
		}
		for i := 0; i < t.NumField(); i++ {
			copyable(t.Field(i).Type, out, seen)
		}
	}
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Array:
		copyable(t.Elem(), out, seen)
	}
}

func checkCopies(r *vh.Report) {
	rnd := r.Rand("copies")
	ts := map[reflect.Type]bool{}
	seen := map[reflect.Type]bool{}
	roots := []interface{}{v1.JwtConfig{}, v1.JwtConfigList{}, v1.OidcConfig{}, v1.OidcConfigList{}, v1.Policy{}, v1.PolicyList{}}
	for _, o := range roots {
		copyable(reflect.TypeOf(o), ts, seen)
		if !ts[reflect.TypeOf(o)] {
			r.Violation(fmt.Sprintf("%T has no DeepCopy", o), nil)
		}
	}
	var names []string
	byName := map[string]reflect.Type{}
	for t := range ts {
		names = append(names, t.Name())
		byName[t.Name()] = t
	}
	sort.Strings(names)
	r.Sample("types copied", names)
	n := r.Pick(1500, 40000)
	for _, name := range names {
		t := byName[name]
		for i := 0; i < n && !r.TooMany(); i++ {
			o := reflect.New(t)
			fill(rnd, o.Elem(), 0)
			before := string(vh.MustJSON(o.Interface()))
			r.Case("copy "+name+before, true)
			r.Count("copies", 1)
			cp := o.MethodByName("DeepCopy").Call(nil)[0]
			check := func(cp reflect.Value, how string) {
				if cp.Kind() == reflect.Interface {
					cp = cp.Elem()
				}
				if !cp.IsValid() {
					r.Violation(fmt.Sprintf("%s of a %s is nothing", how, name), vh.M{"original": before})
					return
				}
				if cp.Type() != o.Type() || !reflect.DeepEqual(cp.Interface(), o.Interface()) {
					r.Violation(fmt.Sprintf("%s of a %s differs from the original", how, name), vh.M{"original": before, "copy": string(vh.MustJSON(cp.Interface()))})
					return
				}
				var a, b []span
				memory(o, name, &a)
				memory(cp, name, &b)
				r.Count("memory_regions", len(a))
				if p := shared(a, b); p != "" {
					r.Violation(fmt.Sprintf("%s of a %s shares memory with the original at %s", how, name, p), vh.M{"original": before})
				}
			}
			check(cp, "DeepCopy")
			if m := o.MethodByName("DeepCopyObject"); m.IsValid() {
				check(m.Call(nil)[0], "DeepCopyObject")
			}
			// into something that has content already
			d := reflect.New(t)
			fill(rnd, d.Elem(), 0)
			o.MethodByName("DeepCopyInto").Call([]reflect.Value{d})
			check(d, "DeepCopyInto")
			// what happens to the copy leaves the original alone
			fill(rnd, cp.Elem(), 0)
			if string(vh.MustJSON(o.Interface())) != before {
				r.Violation("changing a copy of a "+name+" changed the original", vh.M{"original": before})
			}
		}
		if z := reflect.New(reflect.PtrTo(t)).Elem().MethodByName("DeepCopy").Call(nil)[0]; !z.IsNil() {
			r.Violation("DeepCopy of no "+name+" is something", nil)
		}
	}
}

// ---- JSON

func encodings() map[string]struct {
	enc func(o runtime.Object) ([]byte, error)
	dec func(b []byte, k string) (runtime.Object, error)
} {
	newOf := func(k string) runtime.Object {
		o, err := scheme.Scheme.New(group.WithKind(k))
		if err != nil {
			panic(err)
		}
		return o
	}
	type e = struct {
		enc func(o runtime.Object) ([]byte, error)
		dec func(b []byte, k string) (runtime.Object, error)
	}
	nc := scheme.Codecs.WithoutConversion()
	info, ok := runtime.SerializerInfoForMediaType(nc.SupportedMediaTypes(), "application/json")
	if !ok {
		panic("no JSON serializer")
	}
	encoder, decoder := nc.EncoderForVersion(info.Serializer, group), nc.DecoderToVersion(info.Serializer, group)
	return map[string]e{
		"encoding/json": {func(o runtime.Object) ([]byte, error) { return json.Marshal(o) }, func(b []byte, k string) (runtime.Object, error) {
			o := newOf(k)
			return o, json.Unmarshal(b, o)
		}},
		"the client's codec": {func(o runtime.Object) ([]byte, error) { return runtime.Encode(encoder, o) }, func(b []byte, k string) (runtime.Object, error) {
			return runtime.Decode(decoder, b)
		}},
	}
}

func checkJSON(r *vh.Report) {
	rnd := r.Rand("json")
	// group, version and kinds
	for _, k := range kinds {
		for _, n := range []string{k.name, k.name + "List"} {
			r.Case("kind "+n, true)
			o, err := scheme.Scheme.New(group.WithKind(n))
			if err != nil || reflect.TypeOf(o).Elem().Name() != n {
				r.Violation(fmt.Sprintf("kind %s of %s is not known to the client's scheme: %v", n, group, err), nil)
				return
			}
			gvks, _, err := scheme.Scheme.ObjectKinds(o)
			if err != nil || len(gvks) != 1 || gvks[0] != group.WithKind(n) {
				r.Violation(fmt.Sprintf("objects of kind %s are known as %v", n, gvks), nil)
			}
			sc := runtime.NewScheme()
			if err := v1.AddToScheme(sc); err != nil || !sc.Recognizes(group.WithKind(n)) {
				r.Violation("AddToScheme does not register "+n, nil)
			}
		}
		if g := v1.Resource(k.plural); g.Group != group.Group || g.Resource != k.plural {
			r.Violation(fmt.Sprint("Resource names ", g), nil)
		}
	}
	n := r.Pick(4000, 100000)
	encs := encodings()
	for i := 0; i < n && !r.TooMany(); i++ {
		k := kinds[i%3]
		sp := tree(rnd, k.name)
		m := metav1.ObjectMeta{Name: fmt.Sprint("n", i), Namespace: word(rnd), Labels: map[string]string{"l": word(rnd)}, ResourceVersion: fmt.Sprint(i)}
		want := typed(k.name, sp, m)
		doc := vh.MustJSON(vh.M{"apiVersion": group.String(), "kind": k.name, "metadata": m, "spec": sp})
		for en, e := range encs {
			r.Case(en+string(doc), true)
			r.Count("documents", 1)
			got, err := e.dec(doc, k.name)
			if err != nil {
				r.Violation(fmt.Sprintf("%s does not decode: %v", en, err), vh.M{"document": string(doc)})
				continue
			}
			if specOf(got) != specOf(want) || meta(got).GetName() != m.Name || meta(got).GetNamespace() != m.Namespace || meta(got).GetLabels()["l"] != m.Labels["l"] {
				r.Violation(fmt.Sprintf("a %s decoded by %s has not the content of its document", k.name, en), vh.M{"document": string(doc), "decoded": string(vh.MustJSON(got))})
			}
			// field by field against the hand made object
			f := func(o interface{}) interface{} { return reflect.ValueOf(o).Elem().FieldByName("Spec").Interface() }
			if !reflect.DeepEqual(noEmpty(f(got)), noEmpty(f(want))) {
				r.Violation(fmt.Sprintf("a %s decoded by %s has not the documented fields of its document", k.name, en), vh.M{"document": string(doc), "decoded": fmt.Sprintf("%+v", got)})
			}
			b, err := e.enc(want)
			if err != nil {
				r.Violation(fmt.Sprintf("a %s is not encoded by %s: %v", k.name, en, err), vh.M{"object": fmt.Sprintf("%+v", want)})
				continue
			}
			out := generic(b)
			o, _ := out["spec"].(vh.M)
			if string(vh.MustJSON(norm(o))) != specTree(sp) {
				r.Violation(fmt.Sprintf("a %s is not encoded by %s under the documented names", k.name, en), vh.M{"expected": specTree(sp), "encoded": string(b)})
			}
			if en != "encoding/json" && (out["kind"] != k.name || out["apiVersion"] != group.String()) {
				r.Violation("a "+k.name+" is encoded with the wrong kind or version", vh.M{"encoded": string(b)})
			}
		}
	}
	// whatever is in an object, its second trip changes nothing, and its specification survives the first
	for i := 0; i < n && !r.TooMany(); i++ {
		k := kinds[i%3]
		o, _ := scheme.Scheme.New(group.WithKind(k.name))
		fill(rnd, reflect.ValueOf(o).Elem(), 0)
		o.GetObjectKind().SetGroupVersionKind(group.WithKind(k.name))
		meta(o).(*metav1.ObjectMeta).ManagedFields = nil // the API machinery's own type changes from null to nothing
		for en, e := range encs {
			b, err := e.enc(o)
			if err != nil {
				r.Violation(fmt.Sprintf("%s does not encode: %v", en, err), vh.M{"object": fmt.Sprintf("%+v", o)})
				continue
			}
			r.Case(en+" trip "+string(b), true)
			r.Count("trips", 1)
			p, err := e.dec(b, k.name)
			if err != nil {
				r.Violation(fmt.Sprintf("%s does not decode what it encoded: %v", en, err), vh.M{"document": string(b)})
				continue
			}
			f := func(o interface{}) interface{} { return reflect.ValueOf(o).Elem().FieldByName("Spec").Interface() }
			if !reflect.DeepEqual(f(o), f(p)) {
				r.Violation("the specification of a "+k.name+" does not survive "+en, vh.M{"before": fmt.Sprintf("%+v", f(o)), "after": fmt.Sprintf("%+v", f(p))})
			}
			b2, err := e.enc(p)
			if err != nil || string(b2) != string(b) {
				r.Violation("a "+k.name+" changes when encoded again by "+en, vh.M{"first": string(b), "second": string(b2)})
			}
		}
	}
}

// noEmpty turns empty slices into nil ones, through a copy.
func noEmpty(v interface{}) interface{} {
	o := reflect.New(reflect.TypeOf(v)).Elem()
	o.Set(reflect.ValueOf(v))
	var walk func(v reflect.Value)
	walk = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				walk(v.Field(i))
			}
		case reflect.Slice:
			if v.Len() == 0 {
				v.Set(reflect.Zero(v.Type()))
				return
			}
			n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			reflect.Copy(n, v)
			v.Set(n)
			for i := 0; i < n.Len(); i++ {
				walk(n.Index(i))
			}
		}
	}
	walk(o)
	return o.Interface()
}

// ---- clients

// ent is an entry of the model.
type ent struct {
	ns, name, label string
	spec            string // normalised
}

type model map[string]*ent // kind/ns/name

func (m model) want(k kind, ns, label string) map[string]string {
	out := map[string]string{}
	for key, e := range m {
		if strings.HasPrefix(key, k.name+"/") && (ns == "" || e.ns == ns) && (label == "" || e.label == label) {
			out[e.ns+"/"+e.name] = e.spec
		}
	}
	return out
}

func errOf(v reflect.Value) error {
	e, _ := v.Interface().(error)
	return e
}

// client calls the typed client of a kind.
func client(cs versioned.Interface, k kind, ns, method string, args ...interface{}) []reflect.Value {
	c := reflect.ValueOf(cs.AppidV1()).MethodByName(k.method).Call([]reflect.Value{reflect.ValueOf(ns)})[0]
	var in []reflect.Value
	m := c.MethodByName(method)
	for i, a := range args {
		if a == nil {
			in = append(in, reflect.Zero(m.Type().In(i)))
		} else {
			in = append(in, reflect.ValueOf(a))
		}
	}
	return m.Call(in)
}

func items(l interface{}) (out []interface{}) {
	v := reflect.ValueOf(l)
	if v.Kind() == reflect.Ptr {
		v = v.Elem()
	}
	if v.Kind() == reflect.Struct {
		v = v.FieldByName("Items")
	}
	for i := 0; i < v.Len(); i++ {
		e := v.Index(i)
		if e.Kind() != reflect.Ptr {
			e = e.Addr()
		}
		out = append(out, e.Interface())
	}
	return
}

// table renders objects as the model does.
func table(objs []interface{}) (map[string]string, string) {
	out := map[string]string{}
	for _, o := range objs {
		key := meta(o).GetNamespace() + "/" + meta(o).GetName()
		if _, dup := out[key]; dup {
			return out, key + " occurs twice"
		}
		out[key] = specOf(o)
	}
	return out, ""
}

func diff(got, want map[string]string) string {
	for k, v := range want {
		if g, ok := got[k]; !ok {
			return k + " is missing"
		} else if g != v {
			return k + " is " + g + " instead of " + v
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return k + " should not be there"
		}
	}
	return ""
}

// checkClient drives a client with random operations against the model. The log is nil for the fake client.
func checkClient(r *vh.Report, what string, cs versioned.Interface, kube *vh.Kube, seed int64, n int, after func(m model)) {
	rnd := rand.New(rand.NewSource(seed))
	m := model{}
	nss := []string{"n1", "n2", "team-a"}
	names := []string{"a", "b", "c.d", "n1"}
	var trail []string
	bad := func(msg string) {
		t := trail
		if len(t) > 25 {
			t = t[len(t)-25:]
		}
		r.Violation(what+": "+msg, vh.M{"operations": t})
	}
	for i := 0; i < n && !r.TooMany(); i++ {
		k := kinds[rnd.Intn(3)]
		ns, name := nss[rnd.Intn(len(nss))], names[rnd.Intn(len(names))]
		key := k.name + "/" + ns + "/" + name
		from := 0
		if kube != nil {
			from = len(kube.Log())
		}
		method, path := "", "/apis/security.cloud.ibm.com/v1/namespaces/"+ns+"/"+k.plural
		sel := ""
		if rnd.Intn(3) == 0 {
			sel = "l=" + fmt.Sprint(rnd.Intn(3))
		}
		label := strings.TrimPrefix(sel, "l=")
		op := rnd.Intn(20)
		obj := func() (runtime.Object, *ent) {
			sp := tree(rnd, k.name)
			lb := fmt.Sprint(rnd.Intn(3))
			return typed(k.name, sp, metav1.ObjectMeta{Name: name, Namespace: ns, Labels: map[string]string{"l": lb}}), &ent{ns, name, lb, specTree(sp)}
		}
		note := func(f string, a ...interface{}) { trail = append(trail, fmt.Sprintf(f, a...)) }
		switch {
		case op < 7: // create
			o, e := obj()
			note("create %s %s", key, e.spec)
			res := client(cs, k, ns, "Create", o)
			method = "POST"
			_, exists := m[key]
			err := errOf(res[1])
			if exists != (err != nil) || (exists && !kerrors.IsAlreadyExists(err)) {
				bad(fmt.Sprintf("creating %s (existing: %v) gave %v", key, exists, err))
			} else if !exists {
				m[key] = e
				if specOf(res[0].Interface()) != e.spec || meta(res[0].Interface()).GetName() != name {
					bad("create returned something else than what was created: " + specOf(res[0].Interface()))
				}
			}
		case op < 10: // update
			o, e := obj()
			note("update %s %s", key, e.spec)
			res := client(cs, k, ns, "Update", o)
			method, path = "PUT", path+"/"+name
			_, exists := m[key]
			err := errOf(res[1])
			if exists != (err == nil) {
				bad(fmt.Sprintf("updating %s (existing: %v) gave %v", key, exists, err))
			} else if exists {
				m[key] = e
				if specOf(res[0].Interface()) != e.spec {
					bad("update returned something else than what was stored: " + specOf(res[0].Interface()))
				}
			}
		case op < 13: // get
			note("get %s", key)
			res := client(cs, k, ns, "Get", name, metav1.GetOptions{})
			method, path = "GET", path+"/"+name
			err := errOf(res[1])
			e, exists := m[key]
			if exists != (err == nil) || (!exists && !kerrors.IsNotFound(err)) {
				bad(fmt.Sprintf("getting %s (existing: %v) gave %v", key, exists, err))
			} else if exists && (specOf(res[0].Interface()) != e.spec || meta(res[0].Interface()).GetNamespace() != ns || meta(res[0].Interface()).GetLabels()["l"] != e.label) {
				bad("get returned something else than what is stored: " + specOf(res[0].Interface()) + " instead of " + e.spec)
			}
		case op < 16: // list
			lns := ns
			if rnd.Intn(3) == 0 {
				lns, path = "", "/apis/security.cloud.ibm.com/v1/"+k.plural
			}
			note("list %s in %q, selector %q", k.plural, lns, sel)
			res := client(cs, k, lns, "List", metav1.ListOptions{LabelSelector: sel})
			method = "GET"
			if err := errOf(res[1]); err != nil {
				bad("listing " + k.plural + " gave " + err.Error())
				break
			}
			got, dup := table(items(res[0].Interface()))
			if dup == "" {
				dup = diff(got, m.want(k, lns, label))
			}
			if dup != "" {
				bad(fmt.Sprintf("listing %s in %q: %s", k.plural, lns, dup))
			}
		case op < 18: // delete
			note("delete %s", key)
			res := client(cs, k, ns, "Delete", name, &metav1.DeleteOptions{})
			method, path = "DELETE", path+"/"+name
			err := errOf(res[0])
			_, exists := m[key]
			if exists != (err == nil) {
				bad(fmt.Sprintf("deleting %s (existing: %v) gave %v", key, exists, err))
			}
			delete(m, key)
		case op < 19: // patch
			v := word(rnd)
			f := map[string]string{"JwtConfig": "jwksUrl", "OidcConfig": "clientId", "Policy": "targets"}[k.name]
			p := vh.M{"spec": vh.M{f: v}}
			if k.name == "Policy" {
				p = vh.M{"spec": vh.M{f: []vh.M{{"serviceName": v, "paths": []vh.M{}}}}}
			}
			note("patch %s %s", key, vh.MustJSON(p))
			res := client(cs, k, ns, "Patch", name, types.MergePatchType, vh.MustJSON(p))
			method, path = "PATCH", path+"/"+name
			err := errOf(res[1])
			e, exists := m[key]
			if exists != (err == nil) {
				bad(fmt.Sprintf("patching %s (existing: %v) gave %v", key, exists, err))
			} else if exists {
				sp := generic([]byte(e.spec))
				sp[f] = p["spec"].(vh.M)[f]
				ne := *e
				ne.spec = specTree(sp)
				m[key] = &ne
				if specOf(res[0].Interface()) != ne.spec {
					bad("patch returned something else than the patched resource: " + specOf(res[0].Interface()) + " instead of " + ne.spec)
				}
			}
		default: // delete several
			if kube == nil {
				continue // the fake client's tracker cannot
			}
			note("delete %s in %s, selector %q", k.plural, ns, sel)
			res := client(cs, k, ns, "DeleteCollection", &metav1.DeleteOptions{}, metav1.ListOptions{LabelSelector: sel})
			method = "DELETE"
			if err := errOf(res[0]); err != nil {
				bad("deleting a collection gave " + err.Error())
			}
			for key := range m.want(k, ns, label) {
				delete(m, k.name+"/"+key)
			}
		}
		r.Case(fmt.Sprint(what, seed, i), true)
		r.Count("client_operations", 1)
		if kube != nil {
			var mine []vh.KReq
			for _, q := range kube.Log()[from:] {
				if !strings.Contains(q.Query, "watch=") && !strings.Contains(q.Query, "resourceVersion=0") {
					mine = append(mine, q)
				}
			}
			if len(mine) != 1 || mine[0].Method != method || mine[0].Path != path {
				bad(fmt.Sprintf("expected %s %s, the API server saw %+v", method, path, mine))
			}
		}
		if after != nil && (i%40 == 39 || i == n-1) {
			after(m)
		}
	}
}

// watchLog collects what a watch delivers.
func checkWatch(r *vh.Report, what string, cs versioned.Interface, seed int64, n int) {
	rnd := rand.New(rand.NewSource(seed))
	for _, k := range kinds {
		for _, ns := range []string{"w1", ""} {
			if ns == "" && strings.HasPrefix(what, "fake") {
				continue // this version of the tracker only tells watchers of the object's own namespace
			}
			rv := ""
			if res := client(cs, k, ns, "List", metav1.ListOptions{}); errOf(res[1]) == nil {
				rv = reflect.ValueOf(res[0].Interface()).Elem().FieldByName("ResourceVersion").String()
			}
			res := client(cs, k, ns, "Watch", metav1.ListOptions{ResourceVersion: rv})
			if err := errOf(res[1]); err != nil {
				r.Violation(what+": watching gave "+err.Error(), nil)
				return
			}
			w := res[0].Interface().(watch.Interface)
			var want []string
			have := map[string]bool{}
			var got []string
			done := make(chan bool)
			total := make(chan int, 1)
			go func() {
				t := time.NewTimer(20 * time.Second)
				limit := -1
				for limit < 0 || len(got) < limit {
					select {
					case e, ok := <-w.ResultChan():
						if !ok {
							done <- false
							return
						}
						sp := ""
						if e.Type != watch.Deleted {
							sp = specOf(e.Object)
						}
						if reflect.TypeOf(e.Object).Elem().Name() != k.name {
							sp = "another type: " + reflect.TypeOf(e.Object).String()
						}
						if _, ok := e.Object.(metav1.ObjectMetaAccessor); !ok {
							got = append(got, fmt.Sprintf("%s %T", e.Type, e.Object))
							continue
						}
						got = append(got, fmt.Sprintf("%s %s/%s %s", e.Type, meta(e.Object).GetNamespace(), meta(e.Object).GetName(), sp))
					case limit = <-total:
					case <-t.C:
						done <- false
						return
					}
				}
				done <- true
			}()
			for i := 0; i < n; i++ {
				ons := []string{"w1", "w2"}[rnd.Intn(2)]
				name := fmt.Sprint("o", rnd.Intn(3))
				sp := tree(rnd, k.name)
				o := typed(k.name, sp, metav1.ObjectMeta{Name: name, Namespace: ons})
				ok := have[ons+name]
				var ev string
				switch {
				case !ok:
					client(cs, k, ons, "Create", o)
					ev = fmt.Sprintf("ADDED %s/%s %s", ons, name, specTree(sp))
					have[ons+name] = true
				case rnd.Intn(3) == 0:
					client(cs, k, ons, "Delete", name, &metav1.DeleteOptions{})
					ev = fmt.Sprintf("DELETED %s/%s ", ons, name)
					delete(have, ons+name)
				default:
					client(cs, k, ons, "Update", o)
					ev = fmt.Sprintf("MODIFIED %s/%s %s", ons, name, specTree(sp))
				}
				if ns == "" || ns == ons {
					want = append(want, ev)
				}
			}
			total <- len(want)
			<-done
			w.Stop()
			r.Case(fmt.Sprint(what, " watch ", k.name, ns, seed), true)
			r.Count("watch_events", len(got))
			if !reflect.DeepEqual(got, want) {
				r.Violation(fmt.Sprintf("%s: watching %s in %q delivered other events than happened", what, k.plural, ns), vh.M{"delivered": got, "happened": want})
			}
			for o := range have { // leave nothing behind
				client(cs, k, o[:2], "Delete", o[2:], &metav1.DeleteOptions{})
			}
		}
	}
}

// follower mirrors the cluster through a factory's informers.
type follower struct {
	ns   string
	f    externalversions.SharedInformerFactory
	mu   sync.Mutex
	seen map[string]map[string]string // kind -> key -> spec, from events
	bad  []string
}

func follow(cs versioned.Interface, ns string, stop chan struct{}, opt bool) *follower {
	fl := &follower{ns: ns, seen: map[string]map[string]string{}}
	switch {
	case ns == "" && !opt:
		fl.f = externalversions.NewSharedInformerFactory(cs, 0)
	case opt:
		fl.f = externalversions.NewSharedInformerFactoryWithOptions(cs, time.Second, externalversions.WithNamespace(ns))
	default:
		fl.f = externalversions.NewFilteredSharedInformerFactory(cs, 0, ns, nil)
	}
	for _, k := range kinds {
		k := k
		fl.seen[k.name] = map[string]string{}
		var inf cache.SharedIndexInformer
		if opt {
			g, err := fl.f.ForResource(group.WithResource(k.plural))
			if err != nil {
				fl.bad = append(fl.bad, err.Error())
				continue
			}
			inf = g.Informer()
		} else {
			inf = fl.informer(k)
		}
		put := func(o interface{}, add bool) {
			fl.mu.Lock()
			defer fl.mu.Unlock()
			if reflect.TypeOf(o).Elem().Name() != k.name {
				fl.bad = append(fl.bad, fmt.Sprintf("a %T was delivered for %s", o, k.plural))
				return
			}
			key := meta(o).GetNamespace() + "/" + meta(o).GetName()
			if _, ok := fl.seen[k.name][key]; ok == add {
				fl.bad = append(fl.bad, fmt.Sprintf("%s: added=%v, known=%v", key, add, ok))
			}
			fl.seen[k.name][key] = specOf(o)
		}
		inf.AddEventHandler(cache.ResourceEventHandlerFuncs{
			AddFunc:    func(o interface{}) { put(o, true) },
			UpdateFunc: func(_, o interface{}) { put(o, false) },
			DeleteFunc: func(o interface{}) {
				if d, ok := o.(cache.DeletedFinalStateUnknown); ok {
					o = d.Obj
				}
				fl.mu.Lock()
				defer fl.mu.Unlock()
				delete(fl.seen[k.name], meta(o).GetNamespace()+"/"+meta(o).GetName())
			},
		})
	}
	fl.f.Start(stop)
	fl.f.Start(stop)
	return fl
}

func (fl *follower) informer(k kind) cache.SharedIndexInformer {
	v := reflect.ValueOf(fl.f.Appid().V1()).MethodByName(k.method).Call(nil)[0]
	return v.MethodByName("Informer").Call(nil)[0].Interface().(cache.SharedIndexInformer)
}

func (fl *follower) lister(k kind) reflect.Value {
	v := reflect.ValueOf(fl.f.Appid().V1()).MethodByName(k.method).Call(nil)[0]
	return v.MethodByName("Lister").Call(nil)[0]
}

// compare tells what differs from the model.
func (fl *follower) compare(m model) string {
	fl.mu.Lock()
	defer fl.mu.Unlock()
	if len(fl.bad) > 0 {
		return fl.bad[0]
	}
	all := labels.Everything()
	for _, k := range kinds {
		want := m.want(k, fl.ns, "")
		if d := diff(fl.seen[k.name], want); d != "" {
			return k.plural + ": by the events, " + d
		}
		li := fl.lister(k)
		list := func(v reflect.Value, sel labels.Selector) (map[string]string, string) {
			res := v.MethodByName("List").Call([]reflect.Value{reflect.ValueOf(&sel).Elem()})
			if err := errOf(res[1]); err != nil {
				return nil, err.Error()
			}
			return table(items(res[0].Interface()))
		}
		got, dup := list(li, all)
		if dup == "" {
			dup = diff(got, want)
		}
		if dup != "" {
			return k.plural + ": by the lister, " + dup
		}
		for _, lb := range []string{"0", "1", "2"} {
			got, dup := list(li, labels.SelectorFromSet(labels.Set{"l": lb}))
			if dup == "" {
				dup = diff(got, m.want(k, fl.ns, lb))
			}
			if dup != "" {
				return k.plural + ": by the lister with a selector, " + dup
			}
		}
		for _, ns := range []string{"n1", "n2", "team-a", "nowhere"} {
			nl := li.MethodByName(k.method).Call([]reflect.Value{reflect.ValueOf(ns)})[0]
			want := m.want(k, ns, "")
			if fl.ns != "" && fl.ns != ns {
				want = nil
			}
			got, dup := list(nl, all)
			if dup == "" {
				dup = diff(got, want)
			}
			if dup != "" {
				return k.plural + ": by the lister of " + ns + ", " + dup
			}
			for _, name := range []string{"a", "b", "c.d", "n1"} {
				res := nl.MethodByName("Get").Call([]reflect.Value{reflect.ValueOf(name)})
				err := errOf(res[1])
				w, ok := want[ns+"/"+name]
				if ok != (err == nil) || (!ok && !kerrors.IsNotFound(err)) {
					return fmt.Sprintf("%s: the lister's Get of %s/%s (existing: %v) gave %v", k.plural, ns, name, ok, err)
				}
				if ok && specOf(res[0].Interface()) != w {
					return fmt.Sprintf("%s: the lister's Get of %s/%s is outdated", k.plural, ns, name)
				}
			}
		}
		if g, err := fl.f.ForResource(group.WithResource(k.plural)); err != nil {
			return err.Error()
		} else if objs, err := g.Lister().List(all); err != nil || len(objs) != len(want) {
			return fmt.Sprintf("%s: the generic lister has %d of %d resources (%v)", k.plural, len(objs), len(want), err)
		} else if g.Informer() != fl.informer(k) {
			return k.plural + ": informers of one factory are not shared"
		}
	}
	return ""
}

func checkInformers(r *vh.Report, seed int64, n int) {
	kube := vh.NewKube()
	defer kube.Close()
	cs, err := versioned.NewForConfig(&rest.Config{Host: kube.URL, QPS: 1e6, Burst: 1e6})
	if err != nil {
		r.Violation("no client: "+err.Error(), nil)
		return
	}
	rnd := rand.New(rand.NewSource(seed))
	stop := make(chan struct{})
	defer close(stop)
	fls := []*follower{follow(cs, "", stop, false), follow(cs, "n1", stop, false), follow(cs, "team-a", stop, true), follow(cs, "", stop, true)}
	for _, fl := range fls {
		res := fl.f.WaitForCacheSync(stop)
		if len(res) != 3 {
			r.Violation(fmt.Sprint("not all informers started: ", res), nil)
		}
	}
	writer := versioned.NewForConfigOrDie(&rest.Config{Host: kube.URL, QPS: 1e6, Burst: 1e6})
	checkClient(r, "client with informers", writer, kube, seed, n, func(m model) {
		for i, fl := range fls {
			var d string
			if !vh.WaitFor(20*time.Second, func() bool { d = fl.compare(m); return d == "" }) {
				r.Violation(fmt.Sprintf("informers (factory %d, namespace %q): %s", i, fl.ns, d), nil)
				return
			}
			r.Count("informer_comparisons", 1)
		}
		switch rnd.Intn(4) {
		case 0:
			kube.DropWatches()
		case 1:
			kube.Compact()
		}
	})
}

func main() {
	flag.String("prop", "", "")
	flag.Parse()
	go func() {
		limit := 840 * time.Second
		if os.Getenv("VERIF_TIER") == "thorough" {
			limit = 4 * time.Hour
		}
		time.Sleep(limit)
		fmt.Println("C16: inconclusive: watchdog")
		os.Exit(2)
	}()
	r := vh.NewReport("C16", "cases are copied values, encoded or decoded documents and client operations, distinct by content and position in their history; each is compared with an independent model of the documented names or of the API server's store")
	r.Assumptions = []string{"the API server is a stand-in that implements the documented REST paths", "the fake clientset is used in one namespace at a time for watches"}
	checkCopies(r)
	checkJSON(r)
	rnd := r.Rand("clients")
	for i := 0; i < r.Pick(3, 30) && !r.TooMany(); i++ {
		kube := vh.NewKube()
		conf := &rest.Config{Host: kube.URL, QPS: 1e6, Burst: 1e6}
		var cs versioned.Interface
		switch i % 3 {
		case 0:
			c, err := versioned.NewForConfig(conf)
			if err != nil {
				r.Violation("no client: "+err.Error(), nil)
				break
			}
			cs = c
		case 1:
			cs = versioned.NewForConfigOrDie(conf)
		default:
			cs = versioned.New(versioned.NewForConfigOrDie(conf).AppidV1().RESTClient())
		}
		checkClient(r, "client", cs, kube, rnd.Int63(), r.Pick(600, 3000), nil)
		checkWatch(r, "client", cs, rnd.Int63(), 40)
		kube.Close()
		fk := fakeset.NewSimpleClientset()
		checkClient(r, "fake client", fk, nil, rnd.Int63(), r.Pick(600, 3000), nil)
		checkWatch(r, "fake client", fakeset.NewSimpleClientset(), rnd.Int63(), 40)
		// objects the fake client starts with
		o := typed("Policy", tree(rnd, "Policy"), metav1.ObjectMeta{Name: "p", Namespace: "n"})
		if got, err := fakeset.NewSimpleClientset(o).AppidV1().Policies("n").Get("p", metav1.GetOptions{}); err != nil || specOf(got) != specOf(o) {
			r.Violation(fmt.Sprint("the fake client lost the object it was made with: ", err), nil)
		}
	}
	checkWire(r, rnd, r.Pick(1600, 16000))
	for i := 0; i < r.Pick(2, 20) && !r.TooMany(); i++ {
		checkInformers(r, rnd.Int63(), r.Pick(400, 2000))
	}
	r.Floor("copies", 10000)
	r.Floor("memory_regions", 50000)
	r.Floor("documents", 4000)
	r.Floor("trips", 4000)
	r.Floor("client_operations", 3000)
	r.Floor("watch_events", 300)
	r.Floor("informer_comparisons", 40)
	r.Floor("wire_requests", 1000)
	r.Finish()
}
