From 6c84dccdca02b6805c17a9f3ffdc6b3621596c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:38 +0000
Subject: [PATCH 01/30] fix: guard the policy store with a lock

Request goroutines read the store's maps while the resource controllers
write them: unsynchronised map access is a data race and can abort the
process.
---
 adapter/policy/store/policy/localstore.go | 27 +++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 483c141..36c714e 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -1,6 +1,8 @@
 package policy
 
 import (
+	"sync"
+
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/client"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
@@ -9,6 +11,9 @@ import (
 
 // LocalStore is responsible for storing and managing policy/client data
 type LocalStore struct {
+	// mutex protects all fields below: requests read the store
+	// while the resource controllers update it
+	mutex sync.RWMutex
 	// clients maps client_name -> client_config
 	clients map[string]client.Client // oidc config ClientName:Client
 	// policies maps endpoint -> list of actions
@@ -29,6 +34,8 @@ func New() PolicyStore {
 }
 
 func (l *LocalStore) GetKeySet(clientName string) keyset.KeySet {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.keysets != nil {
 		return l.keysets[clientName]
 	}
@@ -36,6 +43,8 @@ func (l *LocalStore) GetKeySet(clientName string) keyset.KeySet {
 }
 
 func (l *LocalStore) AddKeySet(clientName string, jwks keyset.KeySet) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.keysets == nil {
 		l.keysets = make(map[string]keyset.KeySet)
 	}
@@ -43,6 +52,8 @@ func (l *LocalStore) AddKeySet(clientName string, jwks keyset.KeySet) {
 }
 
 func (l *LocalStore) DeleteKeySet(clientName string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.keysets != nil {
 		delete(l.keysets, clientName)
 	}
@@ -50,6 +61,8 @@ func (l *LocalStore) DeleteKeySet(clientName string) {
 
 
 func (l *LocalStore) GetClient(clientName string) client.Client {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.clients != nil {
 		return l.clients[clientName]
 	}
@@ -57,6 +70,8 @@ func (l *LocalStore) GetClient(clientName string) client.Client {
 }
 
 func (l *LocalStore) AddClient(clientName string, clientObject client.Client) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.clients == nil {
 		l.clients = make(map[string]client.Client)
 	}
@@ -64,12 +79,16 @@ func (l *LocalStore) AddClient(clientName string, clientObject client.Client) {
 }
 
 func (l *LocalStore) DeleteClient(clientName string) {
+	l.mutex.Lock()
+	defer l.mutex.Unlock()
 	if l.clients != nil {
 		delete(l.clients, clientName)
 	}
 }
 
 func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
+	l.mutex.RLock()
+	defer l.mutex.RUnlock()
 	if l.policies != nil && l.policies[endpoint.Service] != nil {
 		actions, ok := (l.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions)
 		if ok {
@@ -87,6 +106,8 @@ func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 }
 
 func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policies == nil {
 		s.policies = make(map[policy.Service]pathtrie.Trie)
 	}
@@ -104,6 +125,8 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 }
 
 func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	if s.policyMappings != nil {
 		return s.policyMappings[policy]
 	}
@@ -111,12 +134,16 @@ func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
 }
 
 func (s *LocalStore) DeletePolicyMapping(policy string) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policyMappings != nil {
 		delete(s.policyMappings, policy)
 	}
 }
 
 func (s *LocalStore) AddPolicyMapping(name string, mapping []policy.PolicyMapping) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	if s.policyMappings == nil {
 		s.policyMappings = make(map[string][]policy.PolicyMapping)
 	}
-- 
2.43.0


From 8925d0e87686e49d984606d7dc9b9f70d3200ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:38 +0000
Subject: [PATCH 02/30] fix: store a policy at its own path, not at a covering
 prefix

SetPolicies looked the path up with prefix fallback, so registering
/api/x after the prefix /api replaced the prefix's actions.
---
 adapter/policy/store/policy/localstore.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 36c714e..316ddda 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -115,7 +115,7 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 		s.policies[endpoint.Service] = pathtrie.NewPathTrie()
 	}
 
-	if obj, ok := (s.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions); ok {
+	if obj, ok := (s.policies[endpoint.Service].Get(endpoint.Path)).(policy.Actions); ok {
 		obj[endpoint.Method] = actions
 	} else {
 		obj := policy.NewActions()
-- 
2.43.0


From 463473b64c3c7469f1ff69253119bb6aeedda2e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 03/30] fix: apply the most specific policy that covers the
 request's method

A path entry for other methods, or one left over from a deleted policy,
hid the prefixes covering the request, which then passed unprotected.
---
 adapter/policy/store/pathtrie/pathtrie.go | 26 +++++++++++++++++++++++
 adapter/policy/store/pathtrie/trie.go     |  1 +
 adapter/policy/store/policy/localstore.go | 14 +++++++++---
 3 files changed, 38 insertions(+), 3 deletions(-)

diff --git a/adapter/policy/store/pathtrie/pathtrie.go b/adapter/policy/store/pathtrie/pathtrie.go
index 4d99a4b..b97d285 100644
--- a/adapter/policy/store/pathtrie/pathtrie.go
+++ b/adapter/policy/store/pathtrie/pathtrie.go
@@ -61,6 +61,32 @@ func (trie *PathTrie) GetActions(key string) interface{} {
 	return node.value
 }
 
+// GetCovering returns every value stored for the given path, most specific
+// first: the value of the exact path, then those of the prefixes
+// containing it from the longest to the root prefix.
+func (trie *PathTrie) GetCovering(key string) []interface{} {
+	prefix := "/*"
+	var values []interface{}
+	add := func(node *PathTrie) {
+		if node != nil && node.value != nil {
+			values = append([]interface{}{node.value}, values...)
+		}
+	}
+
+	node := trie
+	for part, i := trie.segmenter(key, 0); node != nil; part, i = trie.segmenter(key, i) {
+		add(node.children[prefix])
+		if node = node.children[part]; i == -1 {
+			break
+		}
+	}
+	if node != nil { // the whole path exists
+		add(node.children[prefix])
+		add(node)
+	}
+	return values
+}
+
 // Put inserts the value into the trie at the given key, replacing any
 // existing items. It returns true if the put adds a new value, false
 // if it replaces an existing value.
diff --git a/adapter/policy/store/pathtrie/trie.go b/adapter/policy/store/pathtrie/trie.go
index 7e76676..dc81dc7 100644
--- a/adapter/policy/store/pathtrie/trie.go
+++ b/adapter/policy/store/pathtrie/trie.go
@@ -4,6 +4,7 @@ package pathtrie
 type Trie interface {
 	Get(key string) interface{}
 	GetActions(key string) interface{}
+	GetCovering(key string) []interface{}
 	Put(key string, value interface{}) bool
 	Delete(key string) bool
 }
diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 316ddda..17d5d68 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -90,8 +90,12 @@ func (l *LocalStore) GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy {
 	l.mutex.RLock()
 	defer l.mutex.RUnlock()
 	if l.policies != nil && l.policies[endpoint.Service] != nil {
-		actions, ok := (l.policies[endpoint.Service].GetActions(endpoint.Path)).(policy.Actions)
-		if ok {
+		// the most specific path covering the method applies
+		for _, value := range l.policies[endpoint.Service].GetCovering(endpoint.Path) {
+			actions, ok := value.(policy.Actions)
+			if !ok {
+				continue
+			}
 			result, present := actions[endpoint.Method]
 			if present { // found actions for method
 				return result
@@ -115,7 +119,11 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 		s.policies[endpoint.Service] = pathtrie.NewPathTrie()
 	}
 
-	if obj, ok := (s.policies[endpoint.Service].Get(endpoint.Path)).(policy.Actions); ok {
+	obj, ok := (s.policies[endpoint.Service].Get(endpoint.Path)).(policy.Actions)
+	if actions.PolicyReference == "" && len(actions.Actions) == 0 {
+		// a cleared endpoint must not shadow the prefixes containing it
+		delete(obj, endpoint.Method)
+	} else if ok {
 		obj[endpoint.Method] = actions
 	} else {
 		obj := policy.NewActions()
-- 
2.43.0


From b18578f6340b5d856e75abae0749fadb7bc3430d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:45 +0000
Subject: [PATCH 04/30] fix: release the endpoints an updated policy no longer
 names

They stayed protected by the old version for good, even after the policy
was deleted.
---
 adapter/policy/handler/crdeventhandler/add_event.go | 11 +++++++++++
 .../policy/handler/crdeventhandler/delete_event.go  | 13 +++++++++----
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index 4498719..341ed14 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -58,12 +58,23 @@ func (e *OidcConfigAddEventHandler) HandleAddUpdateEvent() {
 func (e *PolicyAddEventHandler) HandleAddUpdateEvent() {
 	zap.L().Debug("Create/Update Policy", zap.String("ID", string(e.Obj.ObjectMeta.UID)), zap.String("name", e.Obj.ObjectMeta.Name), zap.String("namespace", e.Obj.ObjectMeta.Namespace))
 	mappingId := e.Obj.ObjectMeta.Namespace + "/" +e.Obj.ObjectMeta.Name
+	previousPolicies := e.Store.GetPolicyMapping(mappingId)
 	parsedPolicies := ParseTarget(e.Obj.Spec.Target, e.Obj.ObjectMeta.Namespace)
 	for _, policies := range parsedPolicies {
 		zap.S().Debug("Adding policy for endpoint", policies.Endpoint)
 		e.Store.SetPolicies(policies.Endpoint, policy.RoutePolicy{ PolicyReference: mappingId, Actions: policies.Actions})
 	}
 	e.Store.AddPolicyMapping(mappingId, parsedPolicies)
+	// Release the endpoints that only the previous version of the policy protected
+	current := make(map[policy.Endpoint]struct{})
+	for _, policies := range parsedPolicies {
+		current[policies.Endpoint] = struct{}{}
+	}
+	for _, policies := range previousPolicies {
+		if _, ok := current[policies.Endpoint]; !ok {
+			releaseEndpoint(e.Store, policies.Endpoint, mappingId)
+		}
+	}
 	zap.L().Info("Policy created/updated", zap.String("ID", string(e.Obj.ObjectMeta.UID)))
 }
 
diff --git a/adapter/policy/handler/crdeventhandler/delete_event.go b/adapter/policy/handler/crdeventhandler/delete_event.go
index 61ed5a4..941cd36 100644
--- a/adapter/policy/handler/crdeventhandler/delete_event.go
+++ b/adapter/policy/handler/crdeventhandler/delete_event.go
@@ -39,16 +39,21 @@ func (e *PolicyDeleteEventHandler) HandleDeleteEvent() {
 	parsedPolicies := e.Store.GetPolicyMapping(e.Key)
 	for _, policies := range parsedPolicies {
 		zap.S().Debug("Getting policy for endpoint", policies.Endpoint)
-		storedPolicy := e.Store.GetPolicies(policies.Endpoint)
-		if storedPolicy.PolicyReference == e.Key {
-			e.Store.SetPolicies(policies.Endpoint, policy.NewRoutePolicy())
-		}
+		releaseEndpoint(e.Store, policies.Endpoint, e.Key)
 	}
 	// remove entry from policyMapping
 	e.Store.DeletePolicyMapping(e.Key)
 	zap.S().Debug("Delete policy completed")
 }
 
+// releaseEndpoint removes the given policy's actions from the endpoint
+func releaseEndpoint(store storepolicy.PolicyStore, endpoint policy.Endpoint, policyReference string) {
+	storedPolicy := store.GetPolicies(endpoint)
+	if storedPolicy.PolicyReference == policyReference {
+		store.SetPolicies(endpoint, policy.NewRoutePolicy())
+	}
+}
+
 func GetDeleteEventHandler(crd policy.CrdKey, store storepolicy.PolicyStore) DeleteEventHandler {
 	switch crd.CrdType {
 	case v1.JWTCONFIG:
-- 
2.43.0


From ae8479be15cd6d1e2c3166847fbab7ff1c2cb0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:13 +0000
Subject: [PATCH 05/30] fix: keep an endpoint protected when one of several
 policies naming it goes

Deleting the policy applied last left the endpoint open although another
policy still named it.
---
 .../handler/crdeventhandler/add_event.go      |  2 +-
 .../handler/crdeventhandler/delete_event.go   | 10 +------
 adapter/policy/store/policy/localstore.go     | 29 +++++++++++++++++++
 adapter/policy/store/policy/policystore.go    |  1 +
 4 files changed, 32 insertions(+), 10 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index 341ed14..e45142d 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -72,7 +72,7 @@ func (e *PolicyAddEventHandler) HandleAddUpdateEvent() {
 	}
 	for _, policies := range previousPolicies {
 		if _, ok := current[policies.Endpoint]; !ok {
-			releaseEndpoint(e.Store, policies.Endpoint, mappingId)
+			e.Store.ReleasePolicies(policies.Endpoint, mappingId)
 		}
 	}
 	zap.L().Info("Policy created/updated", zap.String("ID", string(e.Obj.ObjectMeta.UID)))
diff --git a/adapter/policy/handler/crdeventhandler/delete_event.go b/adapter/policy/handler/crdeventhandler/delete_event.go
index 941cd36..704c7b2 100644
--- a/adapter/policy/handler/crdeventhandler/delete_event.go
+++ b/adapter/policy/handler/crdeventhandler/delete_event.go
@@ -39,21 +39,13 @@ func (e *PolicyDeleteEventHandler) HandleDeleteEvent() {
 	parsedPolicies := e.Store.GetPolicyMapping(e.Key)
 	for _, policies := range parsedPolicies {
 		zap.S().Debug("Getting policy for endpoint", policies.Endpoint)
-		releaseEndpoint(e.Store, policies.Endpoint, e.Key)
+		e.Store.ReleasePolicies(policies.Endpoint, e.Key)
 	}
 	// remove entry from policyMapping
 	e.Store.DeletePolicyMapping(e.Key)
 	zap.S().Debug("Delete policy completed")
 }
 
-// releaseEndpoint removes the given policy's actions from the endpoint
-func releaseEndpoint(store storepolicy.PolicyStore, endpoint policy.Endpoint, policyReference string) {
-	storedPolicy := store.GetPolicies(endpoint)
-	if storedPolicy.PolicyReference == policyReference {
-		store.SetPolicies(endpoint, policy.NewRoutePolicy())
-	}
-}
-
 func GetDeleteEventHandler(crd policy.CrdKey, store storepolicy.PolicyStore) DeleteEventHandler {
 	switch crd.CrdType {
 	case v1.JWTCONFIG:
diff --git a/adapter/policy/store/policy/localstore.go b/adapter/policy/store/policy/localstore.go
index 17d5d68..5ae874c 100644
--- a/adapter/policy/store/policy/localstore.go
+++ b/adapter/policy/store/policy/localstore.go
@@ -132,6 +132,35 @@ func (s *LocalStore) SetPolicies(endpoint policy.Endpoint, actions policy.RouteP
 	}
 }
 
+// ReleasePolicies removes the actions the given policy set for the endpoint. If other
+// policies name the endpoint it stays protected by the last of them by name, the
+// order in which they would be applied after a restart.
+func (s *LocalStore) ReleasePolicies(endpoint policy.Endpoint, policyReference string) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	if s.policies == nil || s.policies[endpoint.Service] == nil {
+		return
+	}
+	actions, ok := (s.policies[endpoint.Service].Get(endpoint.Path)).(policy.Actions)
+	if !ok || actions[endpoint.Method].PolicyReference != policyReference {
+		return
+	}
+	delete(actions, endpoint.Method)
+
+	successor := ""
+	for name, mappings := range s.policyMappings {
+		if name == policyReference || name < successor {
+			continue
+		}
+		for _, mapping := range mappings {
+			if mapping.Endpoint == endpoint {
+				successor = name
+				actions[endpoint.Method] = policy.RoutePolicy{PolicyReference: name, Actions: mapping.Actions}
+			}
+		}
+	}
+}
+
 func (s *LocalStore) GetPolicyMapping(policy string) []policy.PolicyMapping {
 	s.mutex.RLock()
 	defer s.mutex.RUnlock()
diff --git a/adapter/policy/store/policy/policystore.go b/adapter/policy/store/policy/policystore.go
index 228ce57..5f11b3f 100644
--- a/adapter/policy/store/policy/policystore.go
+++ b/adapter/policy/store/policy/policystore.go
@@ -16,6 +16,7 @@ type PolicyStore interface {
 	DeleteClient(clientName string)
 	GetPolicies(endpoint policy.Endpoint) policy.RoutePolicy
 	SetPolicies(endpoint policy.Endpoint, actions policy.RoutePolicy)
+	ReleasePolicies(endpoint policy.Endpoint, policyReference string)
 	// DeletePolicies(ep policy.Endpoint, obj interface{})
 	GetPolicyMapping(policy string) []policy.PolicyMapping
 	AddPolicyMapping(policy string, mapping []policy.PolicyMapping)
-- 
2.43.0


From f8ac8d106e3a46ee59563f573fb2a63d9e83a36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 06/30] fix: match callback and logout paths below a trailing
 slash or the root

After the suffix was stripped, /web/home/ and the empty path matched no
exact policy, so login at such URLs never completed.
---
 adapter/policy/engine/engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index 94931dd..586c88d 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -58,6 +58,11 @@ func (m *engine) Evaluate(target *authnz.TargetMsg) (*Action, error) {
 		target.Path = strings.Split(target.Path, logoutEndpoint)[0]
 	}
 
+	// Policies are stored without trailing slashes, except for the root
+	if target.Path = strings.TrimRight(target.Path, "/"); target.Path == "" {
+		target.Path = "/"
+	}
+
 	// Get All policies protecting target
 	policies, err := m.getPolicies(endpointsToCheck(target))
 	if err != nil {
-- 
2.43.0


From 90bfcaa92d1b4ca8241ae2a2ed604b97c0750446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:52 +0000
Subject: [PATCH 07/30] fix: keep logout redirects on the requesting host

A logout at //host/oidc/logout redirected the browser to that host, and
one at the root to an empty location.
---
 adapter/strategy/web/web.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 81e95cf..8e40b98 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -247,7 +247,8 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 		w.tokenCache.Delete(cookie.Value)
 	}
 
-	redirectURL := strings.Split(r.Instance.Request.Path, logoutEndpoint)[0]
+	// A location starting with more than one slash would name another host
+	redirectURL := "/" + strings.TrimLeft(strings.Split(r.Instance.Request.Path, logoutEndpoint)[0], "/\\")
 	cookies := []*http.Cookie{
 		{
 			Name:    cookieName,
-- 
2.43.0


From a0b9856ebd2fc6f5e312e8f964a406e3c2f93caa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:59 +0000
Subject: [PATCH 08/30] fix: retain the authorization endpoint's own query
 parameters

---
 adapter/strategy/web/utils.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index d8a0842..826da3f 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -56,13 +56,13 @@ func generateAuthorizationURL(c client.Client, redirectURI string, state string)
 	}
 
 	// Prepare Query Parameters
-	params := url.Values{
-		"client_id":     {c.ID()},
-		"response_type": {"code"},
-		"redirect_uri":  {redirectURI},
-		"scope":         {c.Scope()},
-		"state":         {state},
-	}
+	// The endpoint's own query component must be retained (RFC 6749 section 3.1)
+	params := baseUrl.Query()
+	params.Set("client_id", c.ID())
+	params.Set("response_type", "code")
+	params.Set("redirect_uri", redirectURI)
+	params.Set("scope", c.Scope())
+	params.Set("state", state)
 
 	// Add Query Parameters to the URL
 	baseUrl.RawQuery = params.Encode() // Escape Query Parameters
-- 
2.43.0


From 07e1f274b8318405aaf6a0def0e11256f0c2f820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:42 +0000
Subject: [PATCH 09/30] fix: draw session ids and state from the cryptographic
 random source

They came from a time-seeded generator shared without synchronisation:
predictable, and racing requests could be handed equal values.
---
 adapter/strategy/web/utils.go | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index 826da3f..36ae40d 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -1,12 +1,12 @@
 package webstrategy
 
 import (
+	"crypto/rand"
 	"errors"
-	"math/rand"
+	"math/big"
 	"net/http"
 	"net/url"
 	"time"
-	"unsafe"
 
 	"go.uber.org/zap"
 
@@ -15,31 +15,22 @@ import (
 )
 
 const (
-	letterBytes   = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
-	letterIdxBits = 6                    // 6 bits to represent a letter index
-	letterIdxMask = 1<<letterIdxBits - 1 // All 1-bits, as many as letterIdxBits
-	letterIdxMax  = 63 / letterIdxBits   // # of letter indices fitting in 63 bits
+	letterBytes = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
 )
 
-var src = rand.NewSource(time.Now().UnixNano())
-
-// randString generates a random string of the given size
+// randString generates an unpredictable random string of the given size
 func randString(n int) string {
 	b := make([]byte, n)
-	// A src.Int63() generates 63 random bits, enough for letterIdxMax characters!
-	for i, cache, remain := n-1, src.Int63(), letterIdxMax; i >= 0; {
-		if remain == 0 {
-			cache, remain = src.Int63(), letterIdxMax
-		}
-		if idx := int(cache & letterIdxMask); idx < len(letterBytes) {
-			b[i] = letterBytes[idx]
-			i--
+	max := big.NewInt(int64(len(letterBytes)))
+	for i := range b {
+		idx, err := rand.Int(rand.Reader, max)
+		if err != nil {
+			// session identifiers must never be predictable
+			zap.L().Panic("Could not read random bytes", zap.Error(err))
 		}
-		cache >>= letterIdxBits
-		remain--
+		b[i] = letterBytes[idx.Int64()]
 	}
-
-	return *(*string)(unsafe.Pointer(&b))
+	return string(b)
 }
 
 // generateAuthorizationURL builds the /authorization request that begins an OAuth 2.0 / OIDC flow
-- 
2.43.0


From 99261f6ccc61f1db1d5fdc8f4c59a5bb0a462c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:13 +0000
Subject: [PATCH 10/30] fix: read the cookie codec under its lock

The unlocked first check raced with the goroutine setting it.
---
 adapter/strategy/web/web.go | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index 8e40b98..fd849b4 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -58,7 +58,7 @@ type WebStrategy struct {
 	kubeClient kubernetes.Interface
 
 	// mutex protects all fields below
-	mutex      *sync.Mutex
+	mutex      sync.Mutex
 	encrpytor  Encryptor
 	tokenCache *sync.Map
 }
@@ -81,7 +81,6 @@ func New(ctx *config.Config, kubeClient kubernetes.Interface) strategy.Strategy
 		ctx:        ctx,
 		tokenUtil:  validator.NewTokenValidator(adapterPolicy.OIDC),
 		kubeClient: kubeClient,
-		mutex:      &sync.Mutex{},
 		tokenCache: new(sync.Map),
 	}
 
@@ -353,20 +352,13 @@ func (w *WebStrategy) handleAuthorizationCodeFlow(request *authnz.RequestMsg, ac
 // getSecureCookie retrieves the SecureCookie encryption struct in a
 // thread safe manner.
 func (w *WebStrategy) getSecureCookie() (Encryptor, error) {
-	// Allow all threads to check if instance already exists
-	if w.encrpytor != nil {
-		return w.encrpytor, nil
-	}
 	w.mutex.Lock()
-	// Once this thread has the lock check again to see if it had been set while waiting
+	defer w.mutex.Unlock()
 	if w.encrpytor != nil {
-		w.mutex.Unlock()
 		return w.encrpytor, nil
 	}
 	// We need to generate a new key set
-	sc, err := w.generateSecureCookie()
-	w.mutex.Unlock()
-	return sc, err
+	return w.generateSecureCookie()
 }
 
 // generateSecureCookie instantiates a SecureCookie instance using either the preconfigured
-- 
2.43.0


From aa3a62d6c57fff497dd5b75a50e3f487f4f08432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:21 +0000
Subject: [PATCH 11/30] fix: guard the cached public keys with a lock

---
 adapter/authserver/keyset/keyset.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/adapter/authserver/keyset/keyset.go b/adapter/authserver/keyset/keyset.go
index fd64a25..49b4e21 100644
--- a/adapter/authserver/keyset/keyset.go
+++ b/adapter/authserver/keyset/keyset.go
@@ -5,6 +5,7 @@ import (
 	"crypto"
 	"fmt"
 	"net/http"
+	"sync"
 
 	"go.uber.org/zap"
 
@@ -26,7 +27,10 @@ type RemoteKeySet struct {
 	httpClient   *networking.HTTPClient
 
 	requestGroup singleflight.Group
-	publicKeys   map[string]crypto.PublicKey
+
+	// mutex protects publicKeys
+	mutex      sync.RWMutex
+	publicKeys map[string]crypto.PublicKey
 }
 
 ////////////////// constructor //////////////////////////
@@ -55,10 +59,17 @@ func New(publicKeyURL string, httpClient *networking.HTTPClient) KeySet {
 
 // PublicKey returns the public key with the specified kid
 func (s *RemoteKeySet) PublicKey(kid string) crypto.PublicKey {
-	if key := s.publicKeys[kid]; key != nil {
+	if key := s.cachedKey(kid); key != nil {
 		return key
 	}
 	_ = s.updateKeysGrouped()
+	return s.cachedKey(kid)
+}
+
+// cachedKey returns the public key with the specified kid if it has been retrieved
+func (s *RemoteKeySet) cachedKey(kid string) crypto.PublicKey {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
 	return s.publicKeys[kid]
 }
 
@@ -116,7 +127,9 @@ func (s *RemoteKeySet) updateKeys() (interface{}, error) {
 
 	zap.L().Info("Synced public keys", zap.String("url", s.publicKeyURL))
 
+	s.mutex.Lock()
 	s.publicKeys = keymap
+	s.mutex.Unlock()
 
 	return http.StatusOK, nil
 }
-- 
2.43.0


From a4d01a009f18db97537314e8a4dc6530b982eac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:20 +0000
Subject: [PATCH 12/30] fix: publish the discovery configuration and key set
 under a lock

initialized was set before the configuration it announces, and the
fields were read by other requests without synchronisation.
---
 adapter/authserver/authserver.go | 61 +++++++++++++++++++++++---------
 1 file changed, 44 insertions(+), 17 deletions(-)

diff --git a/adapter/authserver/authserver.go b/adapter/authserver/authserver.go
index 86746f3..0eb0ede 100644
--- a/adapter/authserver/authserver.go
+++ b/adapter/authserver/authserver.go
@@ -6,6 +6,7 @@ import (
 	"net/http"
 	"net/url"
 	"strings"
+	"sync"
 
 	"github.com/golang/groupcache/singleflight"
 	"go.uber.org/zap"
@@ -56,6 +57,8 @@ type AuthorizationServerService interface {
 // RemoteService represents a remote authentication server
 // Configuration is loaded asynchronously from the discovery endpoint
 type RemoteService struct {
+	// mutex protects the discovery configuration, jwks and initialized
+	mutex sync.RWMutex
 	DiscoveryConfig
 	discoveryURL string
 	jwks         keyset.KeySet
@@ -83,46 +86,61 @@ func New(discoveryEndpoint string) AuthorizationServerService {
 
 // KeySet returns the instance's keyset
 func (s *RemoteService) KeySet() keyset.KeySet {
-	_ = s.initialize()
-	if s.jwks == nil && s.JwksURL != "" {
-		s.jwks = keyset.New(s.JwksURL, s.httpclient)
+	jwksURL := s.JwksEndpoint()
+	s.mutex.RLock()
+	jwks := s.jwks
+	s.mutex.RUnlock()
+	if jwks != nil || jwksURL == "" {
+		return jwks
+	}
+
+	// Retrieve the keys without holding up other requests
+	jwks = keyset.New(jwksURL, s.httpclient)
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+	if s.jwks == nil {
+		s.jwks = jwks
 	}
 	return s.jwks
 }
 
 // SetKeySet stores a JWKs in the OAuth server
 func (s *RemoteService) SetKeySet(jwks keyset.KeySet) {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
 	s.jwks = jwks
 }
 
+// config returns the discovery configuration, loading it if needed
+func (s *RemoteService) config() DiscoveryConfig {
+	_ = s.initialize()
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.DiscoveryConfig
+}
+
 // JwksEndpoint returns the /publicKeys endpoint of the OAuth server
 func (s *RemoteService) JwksEndpoint() string {
-	_ = s.initialize()
-	return s.JwksURL
+	return s.config().JwksURL
 }
 
 // TokenEndpoint returns the /token endpoint of the OAuth server
 func (s *RemoteService) TokenEndpoint() string {
-	_ = s.initialize()
-	return s.TokenURL
+	return s.config().TokenURL
 }
 
 // AuthorizationEndpoint returns the /authorization endpoint of the OAuth server
 func (s *RemoteService) AuthorizationEndpoint() string {
-	_ = s.initialize()
-	return s.AuthURL
+	return s.config().AuthURL
 }
 
 // UserInfoEndpoint returns the /userinfo endpoint of the OAuth server
 func (s *RemoteService) UserInfoEndpoint() string {
-	_ = s.initialize()
-	return s.UserInfoURL
+	return s.config().UserInfoURL
 }
 
 // GetTokens performs a request to the token endpoint
 func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSecret string, authorizationCode string, redirectURI string, refreshToken string) (*TokenResponse, error) {
-	_ = s.initialize()
-
 	form := url.Values{}
 
 	if refreshToken != "" {
@@ -140,7 +158,7 @@ func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSec
 	}
 
 	// Create request
-	req, err := http.NewRequest("POST", s.TokenURL, strings.NewReader(form.Encode()))
+	req, err := http.NewRequest("POST", s.TokenEndpoint(), strings.NewReader(form.Encode()))
 	if err != nil {
 		zap.L().Warn("Could not serialize HTTP request", zap.Error(err))
 		return nil, err
@@ -168,7 +186,7 @@ func (s *RemoteService) GetTokens(authnMethod string, clientID string, clientSec
 
 // initialize attempts to load the Client configuration from the discovery endpoint
 func (s *RemoteService) initialize() error {
-	if s.initialized {
+	if s.isInitialized() {
 		return nil
 	}
 
@@ -177,7 +195,7 @@ func (s *RemoteService) initialize() error {
 	// taking place at once. All threads coming into this call will wait for
 	// a single response, which can then be processed
 	_, err := s.requestGroup.Do(s.discoveryURL, func() (interface{}, error) {
-		if s.initialized {
+		if s.isInitialized() {
 			return http.StatusOK, nil
 		}
 		return s.loadDiscoveryEndpoint()
@@ -191,6 +209,13 @@ func (s *RemoteService) initialize() error {
 	return nil
 }
 
+// isInitialized returns whether the discovery configuration has been loaded
+func (s *RemoteService) isInitialized() bool {
+	s.mutex.RLock()
+	defer s.mutex.RUnlock()
+	return s.initialized
+}
+
 // loadDiscoveryEndpoint loads the configuration from the discovery endpoint
 func (s *RemoteService) loadDiscoveryEndpoint() (interface{}, error) {
 	req, err := http.NewRequest("GET", s.discoveryURL, nil)
@@ -210,8 +235,10 @@ func (s *RemoteService) loadDiscoveryEndpoint() (interface{}, error) {
 		return nil, oa2Err
 	}
 
-	s.initialized = true
+	s.mutex.Lock()
 	s.DiscoveryConfig = *config
+	s.initialized = true
+	s.mutex.Unlock()
 
 	return http.StatusOK, nil
 }
-- 
2.43.0


From 980ae3c7b7c61eb6963c4c530de5b06a757a70f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 13/30] fix: let OIDC clients created during a discovery outage
 recover

They kept a key set without URL, so every token failed validation until
the configuration was changed.
---
 adapter/policy/handler/crdeventhandler/add_event.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/adapter/policy/handler/crdeventhandler/add_event.go b/adapter/policy/handler/crdeventhandler/add_event.go
index e45142d..6511bd2 100644
--- a/adapter/policy/handler/crdeventhandler/add_event.go
+++ b/adapter/policy/handler/crdeventhandler/add_event.go
@@ -46,8 +46,10 @@ func (e *OidcConfigAddEventHandler) HandleAddUpdateEvent() {
 		e.Obj.Spec.AuthMethod = "client_secret_basic"
 	}
 	authorizationServer := authserver.New(e.Obj.Spec.DiscoveryURL)
-	keySets := keyset.New(authorizationServer.JwksEndpoint(), nil)
-	authorizationServer.SetKeySet(keySets)
+	// If discovery is not available yet the server loads its key set later
+	if jwksEndpoint := authorizationServer.JwksEndpoint(); jwksEndpoint != "" {
+		authorizationServer.SetKeySet(keyset.New(jwksEndpoint, nil))
+	}
 	e.Obj.Spec.ClientSecret = GetClientSecret(e.Obj, e.KubeClient)
 	// Create and store OIDC Client
 	oidcClient := client.New(e.Obj.Spec, authorizationServer)
-- 
2.43.0


From 2d29bd99aaabb5054f0757b24666a8c8d50c8654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:37 +0000
Subject: [PATCH 14/30] fix: keep the refresh token when the IdP does not
 rotate it

The renewed session had none left and ended at its next expiry.
---
 adapter/strategy/web/web.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index fd849b4..a597445 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -208,6 +208,10 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 		return nil, nil
 	} else {
 		zap.L().Debug("Updated tokens using refresh token", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
+		if tokens.RefreshToken == "" {
+			// The server did not rotate the refresh token (RFC 6749 section 6)
+			tokens.RefreshToken = session.RefreshToken
+		}
 		cookie := generateSessionIDCookie(c, &sessionID)
 		w.tokenCache.Store(cookie.Value, tokens)
 		return &authnz.HandleAuthnZResponse{
-- 
2.43.0


From b164d7234e15cc8657b9cc48600c0e380c7ac422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:04 +0000
Subject: [PATCH 15/30] fix: do not revive a session that ended while its
 tokens were refreshed

A refresh in flight stored the new tokens after a logout had deleted the
session, which the same cookie could then use again.
---
 adapter/strategy/web/web.go | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index a597445..b8e28f2 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -61,6 +61,9 @@ type WebStrategy struct {
 	mutex      sync.Mutex
 	encrpytor  Encryptor
 	tokenCache *sync.Map
+
+	// sessionMutex orders updates of existing sessions with their end
+	sessionMutex sync.Mutex
 }
 
 // Encryptor signs and encrypts values. Used for cookie encryption
@@ -165,7 +168,7 @@ func (w *WebStrategy) isAuthorized(cookies string, action *engine.Action) (*auth
 		}
 
 		zap.L().Debug("Tokens are invalid - starting a new session", zap.String("client_name", action.Client.Name()), zap.String("session_id", sessionCookie.Value), zap.Error(validationErr))
-		w.tokenCache.Delete(sessionCookie.Value)
+		w.endSession(sessionCookie.Value)
 		return nil, nil
 	}
 
@@ -213,7 +216,10 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 			tokens.RefreshToken = session.RefreshToken
 		}
 		cookie := generateSessionIDCookie(c, &sessionID)
-		w.tokenCache.Store(cookie.Value, tokens)
+		if !w.updateSession(cookie.Value, tokens) {
+			zap.L().Debug("Session ended while its tokens were updated", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
+			return nil, nil
+		}
 		return &authnz.HandleAuthnZResponse{
 			Result: &v1beta1.CheckResult{Status: status.WithMessage(rpc.OK, "User is authenticated")},
 			Output: &authnz.OutputMsg{
@@ -224,6 +230,24 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 	}
 }
 
+// updateSession replaces the tokens of a session unless it has been ended meanwhile
+func (w *WebStrategy) updateSession(sessionID string, tokens *authserver.TokenResponse) bool {
+	w.sessionMutex.Lock()
+	defer w.sessionMutex.Unlock()
+	if _, ok := w.tokenCache.Load(sessionID); !ok {
+		return false
+	}
+	w.tokenCache.Store(sessionID, tokens)
+	return true
+}
+
+// endSession deletes a session
+func (w *WebStrategy) endSession(sessionID string) {
+	w.sessionMutex.Lock()
+	defer w.sessionMutex.Unlock()
+	w.tokenCache.Delete(sessionID)
+}
+
 // handleErrorCallback returns an Unauthenticated CheckResult
 func (w *WebStrategy) handleErrorCallback(err error) (*authnz.HandleAuthnZResponse, error) {
 	message := "internal server error"
@@ -247,7 +271,7 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 
 	if cookie, err := request.Cookie(cookieName); err == nil {
 		zap.L().Debug("Deleting active session", zap.String("client_name", action.Client.Name()), zap.String("session_id", cookie.Value))
-		w.tokenCache.Delete(cookie.Value)
+		w.endSession(cookie.Value)
 	}
 
 	// A location starting with more than one slash would name another host
-- 
2.43.0


From a6b4ec132337dec81a6d6a4588d5b3896f2ac868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:11 +0000
Subject: [PATCH 16/30] fix: report expired JWT access tokens of OIDC sessions
 as expired

They were checked as opaque tokens with the userinfo endpoint instead:
accepted there they were forwarded, rejected the session was dropped
rather than refreshed.
---
 adapter/validator/validator.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 37a86a8..b23dcb3 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -90,7 +90,8 @@ func (o *OidcTokenValidator) Validate(tokenStr string, tokenType Token, jwks key
 	// Parse the token - validate expiration and signature
 	token, err := validateSignature(tokenStr, jwks)
 	if err != nil {
-		if tokenType != Access {
+		// an expired token cannot be revived by the userinfo endpoint, only refreshed
+		if tokenType != Access || err.Error() == errors.ExpiredToken {
 			zap.L().Debug("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
 			return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
 		}
-- 
2.43.0


From 4b7972f117dc4732d3ddcd0741e061355a119e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 17/30] fix: apply rules without a source to opaque access
 tokens too

The source defaults to access_token, but such rules were skipped for
opaque tokens, which were accepted without them.
---
 adapter/policy/engine/engine.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/adapter/policy/engine/engine.go b/adapter/policy/engine/engine.go
index 586c88d..72c5193 100644
--- a/adapter/policy/engine/engine.go
+++ b/adapter/policy/engine/engine.go
@@ -11,6 +11,7 @@ import (
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
 	policy2 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy/store/policy"
+	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/config/template"
 )
 
@@ -82,7 +83,7 @@ func (m *engine) Evaluate(target *authnz.TargetMsg) (*Action, error) {
 		if p.Rules == nil {
 			policies[i].Rules = createDefaultRules(p)
 		} else {
-			policies[i].Rules = p.Rules
+			policies[i].Rules = setDefaultSource(p.Rules)
 		}
 	}
 
@@ -165,6 +166,18 @@ func createDefaultRules(action Action) []v1.Rule {
 	}
 }
 
+// setDefaultSource returns the rules with the default source made explicit
+func setDefaultSource(rules []v1.Rule) []v1.Rule {
+	result := make([]v1.Rule, len(rules))
+	for i, rule := range rules {
+		if rule.Source == "" {
+			rule.Source = validator.Access.String()
+		}
+		result[i] = rule
+	}
+	return result
+}
+
 // endpointsToCheck returns the possible endpoints housing the authn/z policies for the given target
 func endpointsToCheck(target *authnz.TargetMsg) []policy.Endpoint {
 	service := policy.Service{Namespace: target.Namespace, Name: target.Service}
-- 
2.43.0


From 0841c072d3329e640cdd410d483260ef061b9e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:49 +0000
Subject: [PATCH 18/30] fix: reject API requests that omit an ID token the
 policy has rules for

Leaving out the ID token skipped its rules.
---
 adapter/strategy/api/api.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/adapter/strategy/api/api.go b/adapter/strategy/api/api.go
index f8cb1ac..7b3d619 100644
--- a/adapter/strategy/api/api.go
+++ b/adapter/strategy/api/api.go
@@ -14,6 +14,7 @@ import (
 	"istio.io/istio/mixer/pkg/status"
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
+	v1 "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
 	adapterPolicy "github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/strategy"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/validator"
@@ -63,8 +64,8 @@ func (s *APIStrategy) HandleAuthnZRequest(r *authnz.HandleAuthnZRequest, action
 		return validationError(err, "invalid access token")
 	}
 
-	// Validate ID Value
-	if tokens.ID != "" {
+	// Validate ID Value - optional unless the policy has rules for it
+	if tokens.ID != "" || requiresIDToken(action.Rules) {
 		err = s.tokenUtil.Validate(tokens.ID, validator.ID, action.KeySet, action.Rules, "")
 		if err != nil {
 			return validationError(err, "invalid ID token")
@@ -80,6 +81,16 @@ func (s *APIStrategy) HandleAuthnZRequest(r *authnz.HandleAuthnZRequest, action
 
 // //////////////// utilities //////////////////
 
+// requiresIDToken returns whether any rule applies to the ID token
+func requiresIDToken(rules []v1.Rule) bool {
+	for _, rule := range rules {
+		if rule.Source == validator.ID.String() {
+			return true
+		}
+	}
+	return false
+}
+
 // Parse authorization header from gRPC props
 func getAuthTokensFromRequest(r *authnz.HandleAuthnZRequest) (*validator.RawTokens, *errors.OAuthError) {
 	authHeader := r.Instance.Request.Headers.Authorization
-- 
2.43.0


From 5b765dbc5d6198249eada55a2b51ba72e734e8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:56 +0000
Subject: [PATCH 19/30] fix: compare numeric claims without rounding

A claim of 1.6 matched the value 2.
---
 adapter/validator/validator.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index b23dcb3..8fd0f74 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -318,7 +318,7 @@ func convertClaimType(value interface{}) (map[string]struct{}, error) {
 		m[strconv.FormatBool(t)] = struct{}{}
 		return m, nil
 	case float64:
-		m[strconv.FormatFloat(t, 'f', 0, 64)] = struct{}{}
+		m[strconv.FormatFloat(t, 'f', -1, 64)] = struct{}{}
 		return m, nil
 	case string:
 		for _, v := range strings.Split(t, " ") {
@@ -331,7 +331,7 @@ func convertClaimType(value interface{}) (map[string]struct{}, error) {
 			case string:
 				m[s2] = struct{}{}
 			case float64:
-				m[strconv.FormatFloat(s2, 'f', 0, 64)] = struct{}{}
+				m[strconv.FormatFloat(s2, 'f', -1, 64)] = struct{}{}
 			case bool:
 				m[strconv.FormatBool(s2)] = struct{}{}
 			default:
-- 
2.43.0


From a95d6fff048c9c37a11855f0a2635d5439780d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:04 +0000
Subject: [PATCH 20/30] fix: close userinfo responses and bound the time they
 may take

Every check of an opaque token leaked a connection, and an IdP that did
not answer blocked the request for good.
---
 adapter/validator/validator.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index 8fd0f74..dede763 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -12,6 +12,7 @@ import (
 
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/authserver/keyset"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/errors"
+	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/networking"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/pkg/apis/policies/v1"
 	"github.com/ibm-cloud-security/app-identity-and-access-adapter/adapter/policy"
 )
@@ -148,7 +149,7 @@ func (*JwtTokenValidator) Validate(tokenStr string, tokenType Token, jwks keyset
 
 // validateAccessTokenString validates the access token string
 func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules []v1.Rule) *errors.OAuthError {
-	client := &http.Client{}
+	client := networking.New().Client
 	req, err := http.NewRequest("GET", userInfoEndpoint, nil)
 
 	if err != nil {
@@ -163,6 +164,8 @@ func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules [
 		return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
 	}
 
+	defer res.Body.Close()
+
 	if res.StatusCode != http.StatusOK {
 		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Int("res.StatusCode", res.StatusCode))
 		return errors.UnauthorizedHTTPException("Unauthorized - invalid token", findRequiredScopes(rules))
-- 
2.43.0


From f3fa4f8ea8ef8bebffc9dd9dec695047e24f1c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 21/30] fix: do not treat a resource that could not be looked
 up as deleted

---
 adapter/policy/controller/controller.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/adapter/policy/controller/controller.go b/adapter/policy/controller/controller.go
index 18f76d8..aa29872 100644
--- a/adapter/policy/controller/controller.go
+++ b/adapter/policy/controller/controller.go
@@ -104,6 +104,8 @@ func (c *Controller) processNextItem() bool {
 			c.Queue.Forget(key)
 			utilruntime.HandleError(err)
 		}
+		// whether the item exists is unknown: it must not be handled as deleted
+		return true
 	}
 
 	// if the item doesn't exist then it was deleted and we need to fire off the handler's
-- 
2.43.0


From 91d8d90475ef1fb86863645e7ccceafc35d94907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:06 +0000
Subject: [PATCH 22/30] fix: honour a session only for the client that created
 it

Renaming the cookie presented a session of one client to another, whose
policy then accepted it unless a rule told the clients apart.
---
 adapter/authserver/authserver.go | 2 ++
 adapter/strategy/web/web.go      | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/adapter/authserver/authserver.go b/adapter/authserver/authserver.go
index 0eb0ede..6f6ffe9 100644
--- a/adapter/authserver/authserver.go
+++ b/adapter/authserver/authserver.go
@@ -41,6 +41,8 @@ type TokenResponse struct {
 	RefreshToken string `json:"refresh_token"`
 	// The token expiration time
 	ExpiresIn int `json:"expires_in"`
+	// The client the tokens were issued to - not part of the response
+	ClientID string `json:"-"`
 }
 
 // AuthorizationServerService represents an authorization server instance
diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index b8e28f2..c67b7de 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -155,6 +155,12 @@ func (w *WebStrategy) isAuthorized(cookies string, action *engine.Action) (*auth
 		return nil, nil
 	}
 
+	// The cookie name is under the control of the browser
+	if session.ClientID != "" && session.ClientID != action.Client.ID() {
+		zap.L().Debug("Session belongs to another client.", zap.String("client_name", action.Client.Name()))
+		return nil, nil
+	}
+
 	zap.L().Debug("Found active session", zap.String("client_name", action.Client.Name()), zap.String("session_id", sessionCookie.Value))
 
 	// Validate session
@@ -215,6 +221,7 @@ func (w *WebStrategy) handleRefreshTokens(sessionID string, session *authserver.
 			// The server did not rotate the refresh token (RFC 6749 section 6)
 			tokens.RefreshToken = session.RefreshToken
 		}
+		tokens.ClientID = session.ClientID
 		cookie := generateSessionIDCookie(c, &sessionID)
 		if !w.updateSession(cookie.Value, tokens) {
 			zap.L().Debug("Session ended while its tokens were updated", zap.String("client_name", c.Name()), zap.String("session_id", sessionID))
@@ -338,6 +345,7 @@ func (w *WebStrategy) handleAuthorizationCodeCallback(code interface{}, request
 		return w.handleErrorCallback(validationErr)
 	}
 
+	response.ClientID = action.Client.ID()
 	cookie := generateSessionIDCookie(action.Client, nil)
 	w.tokenCache.Store(cookie.Value, response)
 
-- 
2.43.0


From ba289c5e77fef680dbeddc8709ebcf152631ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:12 +0000
Subject: [PATCH 23/30] fix: escape client ids in cookie names

A client id with, for example, a slash or colon made the cookie invalid
and its Set-Cookie header empty, so no login could complete.
---
 adapter/strategy/web/utils.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/adapter/strategy/web/utils.go b/adapter/strategy/web/utils.go
index 36ae40d..333692f 100644
--- a/adapter/strategy/web/utils.go
+++ b/adapter/strategy/web/utils.go
@@ -68,7 +68,8 @@ func buildRequestURL(action *authnz.RequestMsg) string {
 
 // buildTokenCookieName constructs the cookie name
 func buildTokenCookieName(base string, c client.Client) string {
-	return base + "-" + c.ID()
+	// A client id may contain characters not allowed in cookie names
+	return base + "-" + url.QueryEscape(c.ID())
 }
 
 // generateSessionIDCookie creates a new sessionId cookie
-- 
2.43.0


From 428e9f2c2778d0e5f628d0eb213a89370f8d177c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:23 +0000
Subject: [PATCH 24/30] fix: keep logout redirects on the host whatever blanks
 the path has

---
 adapter/strategy/web/web.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index c67b7de..b0a320a 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -281,8 +281,9 @@ func (w *WebStrategy) handleLogout(r *authnz.HandleAuthnZRequest, action *engine
 		w.endSession(cookie.Value)
 	}
 
-	// A location starting with more than one slash would name another host
-	redirectURL := "/" + strings.TrimLeft(strings.Split(r.Instance.Request.Path, logoutEndpoint)[0], "/\\")
+	// A location starting with more than one slash would name another host, also
+	// with tabs and line breaks between them, which browsers leave out
+	redirectURL := "/" + strings.TrimLeft(strings.Split(r.Instance.Request.Path, logoutEndpoint)[0], "/\\\t\r\n")
 	cookies := []*http.Cookie{
 		{
 			Name:    cookieName,
-- 
2.43.0


From ef1816a3c1245d82cb61f5dcfcb052d95cdc85fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:47 +0000
Subject: [PATCH 25/30] fix: bound the size of IdP responses

A never ending JSON answer of a discovery, keys or token endpoint was read into memory until the client timeout.
---
 adapter/networking/networking.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/adapter/networking/networking.go b/adapter/networking/networking.go
index ce9ad2b..303f8d5 100644
--- a/adapter/networking/networking.go
+++ b/adapter/networking/networking.go
@@ -3,6 +3,7 @@ package networking
 import (
 	"encoding/json"
 	"go.uber.org/zap"
+	"io"
 	"net/http"
 	"time"
 )
@@ -11,6 +12,8 @@ const (
 	filterType     = "x-filter-type"
 	istioAdapter   = "IstioAdapter"
 	defaultTimeout = 5 * time.Second
+	// maxResponseSize bounds the memory a single response can occupy
+	maxResponseSize = 10 << 20
 )
 
 // OK represents types capable of validating themselves.
@@ -70,7 +73,7 @@ func decodeResponse(res *http.Response, successV, failureV OK) error {
 
 // decodeJSON parses a JSON body and calls validate
 func decodeJSON(r *http.Response, v OK) error {
-	if err := json.NewDecoder(r.Body).Decode(v); err != nil {
+	if err := json.NewDecoder(io.LimitReader(r.Body, maxResponseSize)).Decode(v); err != nil {
 		zap.L().Debug("Could not parse request body.", zap.Error(err))
 		return err
 	}
-- 
2.43.0


From 0b00b169171495cecbfff46adcfdd0aae9bf6e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 26/30] fix: do not create a key secret without keys

securecookie.GenerateRandomKey returns nil when the random source fails; the secret was then stored with empty keys, for all instances and for good.
---
 adapter/strategy/web/web.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/adapter/strategy/web/web.go b/adapter/strategy/web/web.go
index b0a320a..2b78bf1 100644
--- a/adapter/strategy/web/web.go
+++ b/adapter/strategy/web/web.go
@@ -432,6 +432,9 @@ func (w *WebStrategy) generateKeySecret(hashKeySize int, blockKeySize int) (inte
 	data := make(map[string][]byte)
 	data[hashKey] = securecookie.GenerateRandomKey(hashKeySize)
 	data[blockKey] = securecookie.GenerateRandomKey(blockKeySize)
+	if data[hashKey] == nil || data[blockKey] == nil {
+		return nil, errors.New("could not generate signing / encryption keys")
+	}
 
 	newSecret := v1.Secret{
 		ObjectMeta: metav1.ObjectMeta{
-- 
2.43.0


From fa116fc142048d0fd209bb0819a95e85c47250e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:03 +0000
Subject: [PATCH 27/30] fix: deep copies of policies and OIDC configurations
 share no memory

The generated functions were outdated: rules, their values and scopes were shared between a copy and its original.
---
 .../apis/policies/v1/zz_generated.deepcopy.go | 39 ++++++++++++++++++-
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go b/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
index df10e7a..e3b1dfd 100644
--- a/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
+++ b/adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go
@@ -121,7 +121,7 @@ func (in *OidcConfig) DeepCopyInto(out *OidcConfig) {
 	*out = *in
 	out.TypeMeta = in.TypeMeta
 	in.ObjectMeta.DeepCopyInto(&out.ObjectMeta)
-	out.Spec = in.Spec
+	in.Spec.DeepCopyInto(&out.Spec)
 	return
 }
 
@@ -180,6 +180,11 @@ func (in *OidcConfigList) DeepCopyObject() runtime.Object {
 func (in *OidcConfigSpec) DeepCopyInto(out *OidcConfigSpec) {
 	*out = *in
 	out.ClientSecretRef = in.ClientSecretRef
+	if in.Scopes != nil {
+		in, out := &in.Scopes, &out.Scopes
+		*out = make([]string, len(*in))
+		copy(*out, *in)
+	}
 	return
 }
 
@@ -199,7 +204,9 @@ func (in *PathConfig) DeepCopyInto(out *PathConfig) {
 	if in.Policies != nil {
 		in, out := &in.Policies, &out.Policies
 		*out = make([]PathPolicy, len(*in))
-		copy(*out, *in)
+		for i := range *in {
+			(*in)[i].DeepCopyInto(&(*out)[i])
+		}
 	}
 	return
 }
@@ -217,6 +224,13 @@ func (in *PathConfig) DeepCopy() *PathConfig {
 // DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
 func (in *PathPolicy) DeepCopyInto(out *PathPolicy) {
 	*out = *in
+	if in.Rules != nil {
+		in, out := &in.Rules, &out.Rules
+		*out = make([]Rule, len(*in))
+		for i := range *in {
+			(*in)[i].DeepCopyInto(&(*out)[i])
+		}
+	}
 	return
 }
 
@@ -313,6 +327,27 @@ func (in *PolicySpec) DeepCopy() *PolicySpec {
 	return out
 }
 
+// DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
+func (in *Rule) DeepCopyInto(out *Rule) {
+	*out = *in
+	if in.Values != nil {
+		in, out := &in.Values, &out.Values
+		*out = make([]string, len(*in))
+		copy(*out, *in)
+	}
+	return
+}
+
+// DeepCopy is an autogenerated deepcopy function, copying the receiver, creating a new Rule.
+func (in *Rule) DeepCopy() *Rule {
+	if in == nil {
+		return nil
+	}
+	out := new(Rule)
+	in.DeepCopyInto(out)
+	return out
+}
+
 // DeepCopyInto is an autogenerated deepcopy function, copying the receiver, writing into out. in must be non-nil.
 func (in *TargetElement) DeepCopyInto(out *TargetElement) {
 	*out = *in
-- 
2.43.0


From eaffe016625c2844ff744a0a0cb98df1b5559dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:56 +0000
Subject: [PATCH 28/30] fix: refuse map entries whose skipped field overflows
 instead of crashing

---
 .../template/template_handler_service.pb.go   | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/config/template/template_handler_service.pb.go b/config/template/template_handler_service.pb.go
index f4e662f..8aa63ec 100644
--- a/config/template/template_handler_service.pb.go
+++ b/config/template/template_handler_service.pb.go
@@ -3552,6 +3552,9 @@ func (m *TargetMsg) Unmarshal(dAtA []byte) error {
 					if skippy < 0 {
 						return ErrInvalidLengthTemplateHandlerService
 					}
+					if (iNdEx + skippy) < 0 {
+						return ErrInvalidLengthTemplateHandlerService
+					}
 					if (iNdEx + skippy) > postIndex {
 						return io.ErrUnexpectedEOF
 					}
@@ -3798,6 +3801,9 @@ func (m *HeadersMsg) Unmarshal(dAtA []byte) error {
 					if skippy < 0 {
 						return ErrInvalidLengthTemplateHandlerService
 					}
+					if (iNdEx + skippy) < 0 {
+						return ErrInvalidLengthTemplateHandlerService
+					}
 					if (iNdEx + skippy) > postIndex {
 						return io.ErrUnexpectedEOF
 					}
@@ -4076,6 +4082,9 @@ func (m *QueryParamsMsg) Unmarshal(dAtA []byte) error {
 					if skippy < 0 {
 						return ErrInvalidLengthTemplateHandlerService
 					}
+					if (iNdEx + skippy) < 0 {
+						return ErrInvalidLengthTemplateHandlerService
+					}
 					if (iNdEx + skippy) > postIndex {
 						return io.ErrUnexpectedEOF
 					}
@@ -4426,6 +4435,9 @@ func (m *RequestMsg) Unmarshal(dAtA []byte) error {
 					if skippy < 0 {
 						return ErrInvalidLengthTemplateHandlerService
 					}
+					if (iNdEx + skippy) < 0 {
+						return ErrInvalidLengthTemplateHandlerService
+					}
 					if (iNdEx + skippy) > postIndex {
 						return io.ErrUnexpectedEOF
 					}
@@ -4717,6 +4729,9 @@ func (m *TargetType) Unmarshal(dAtA []byte) error {
 					if skippy < 0 {
 						return ErrInvalidLengthTemplateHandlerService
 					}
+					if (iNdEx + skippy) < 0 {
+						return ErrInvalidLengthTemplateHandlerService
+					}
 					if (iNdEx + skippy) > postIndex {
 						return io.ErrUnexpectedEOF
 					}
@@ -4883,6 +4898,9 @@ func (m *HeadersType) Unmarshal(dAtA []byte) error {
 					if skippy < 0 {
 						return ErrInvalidLengthTemplateHandlerService
 					}
+					if (iNdEx + skippy) < 0 {
+						return ErrInvalidLengthTemplateHandlerService
+					}
 					if (iNdEx + skippy) > postIndex {
 						return io.ErrUnexpectedEOF
 					}
@@ -5049,6 +5067,9 @@ func (m *QueryParamsType) Unmarshal(dAtA []byte) error {
 					if skippy < 0 {
 						return ErrInvalidLengthTemplateHandlerService
 					}
+					if (iNdEx + skippy) < 0 {
+						return ErrInvalidLengthTemplateHandlerService
+					}
 					if (iNdEx + skippy) > postIndex {
 						return io.ErrUnexpectedEOF
 					}
@@ -5287,6 +5308,9 @@ func (m *RequestType) Unmarshal(dAtA []byte) error {
 					if skippy < 0 {
 						return ErrInvalidLengthTemplateHandlerService
 					}
+					if (iNdEx + skippy) < 0 {
+						return ErrInvalidLengthTemplateHandlerService
+					}
 					if (iNdEx + skippy) > postIndex {
 						return io.ErrUnexpectedEOF
 					}
@@ -5720,6 +5744,9 @@ func (m *TargetInstanceParam) Unmarshal(dAtA []byte) error {
 					if skippy < 0 {
 						return ErrInvalidLengthTemplateHandlerService
 					}
+					if (iNdEx + skippy) < 0 {
+						return ErrInvalidLengthTemplateHandlerService
+					}
 					if (iNdEx + skippy) > postIndex {
 						return io.ErrUnexpectedEOF
 					}
@@ -5964,6 +5991,9 @@ func (m *HeadersInstanceParam) Unmarshal(dAtA []byte) error {
 					if skippy < 0 {
 						return ErrInvalidLengthTemplateHandlerService
 					}
+					if (iNdEx + skippy) < 0 {
+						return ErrInvalidLengthTemplateHandlerService
+					}
 					if (iNdEx + skippy) > postIndex {
 						return io.ErrUnexpectedEOF
 					}
@@ -6240,6 +6270,9 @@ func (m *QueryParamsInstanceParam) Unmarshal(dAtA []byte) error {
 					if skippy < 0 {
 						return ErrInvalidLengthTemplateHandlerService
 					}
+					if (iNdEx + skippy) < 0 {
+						return ErrInvalidLengthTemplateHandlerService
+					}
 					if (iNdEx + skippy) > postIndex {
 						return io.ErrUnexpectedEOF
 					}
@@ -6588,6 +6621,9 @@ func (m *RequestInstanceParam) Unmarshal(dAtA []byte) error {
 					if skippy < 0 {
 						return ErrInvalidLengthTemplateHandlerService
 					}
+					if (iNdEx + skippy) < 0 {
+						return ErrInvalidLengthTemplateHandlerService
+					}
 					if (iNdEx + skippy) > postIndex {
 						return io.ErrUnexpectedEOF
 					}
-- 
2.43.0


From 1605fb110cbe4c2cfd8de03acf63e49b321195a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:23 +0000
Subject: [PATCH 29/30] fix: do not serve requests before the existing policies
 are enforced

At every start the adapter answered requests before it had read the
policies, and so let protected requests through for a while, or for as
long as the policies could not be listed.
---
 adapter/adapter.go                            |  7 +++++-
 adapter/policy/controller/controller.go       | 13 +++++++++++
 .../policy/initializer/policyinitializer.go   | 22 +++++++++++++------
 3 files changed, 34 insertions(+), 8 deletions(-)

diff --git a/adapter/adapter.go b/adapter/adapter.go
index c826d7f..f548b30 100644
--- a/adapter/adapter.go
+++ b/adapter/adapter.go
@@ -43,6 +43,8 @@ type (
 		apistrategy strategy.Strategy
 		webstrategy strategy.Strategy
 		engine      engine.PolicyEngine
+		// ready is closed once the existing policies are enforced
+		ready <-chan struct{}
 	}
 )
 
@@ -85,8 +87,10 @@ func (s *AppidAdapter) Addr() string {
 	return s.listener.Addr().String()
 }
 
-// Run starts the server run
+// Run starts the server run, as soon as the existing policies are enforced:
+// before, requests they protect would be let through
 func (s *AppidAdapter) Run(shutdown chan error) {
+	<-s.ready
 	shutdown <- s.server.Serve(s.listener)
 }
 
@@ -137,6 +141,7 @@ func NewAppIDAdapter(cfg *config.Config) (Server, error) {
 		webstrategy: webstrategy.New(cfg, init.GetKubeClient()),
 		server:      grpc.NewServer(),
 		engine:      eng,
+		ready:       init.PoliciesReady(),
 	}
 
 	zap.S().Infof("Listening on: %v", s.Addr())
diff --git a/adapter/policy/controller/controller.go b/adapter/policy/controller/controller.go
index aa29872..0e38cbd 100644
--- a/adapter/policy/controller/controller.go
+++ b/adapter/policy/controller/controller.go
@@ -26,6 +26,8 @@ type Controller struct {
 	Queue     workqueue.RateLimitingInterface
 	Informer  cache.SharedIndexInformer
 	Handler   handler.PolicyHandler
+	// Ready, if set, is closed once the resources that exist at start have been handled
+	Ready chan struct{}
 }
 
 // Run is the main path of execution for the controller loop
@@ -48,6 +50,17 @@ func (c *Controller) Run(stopCh <-chan struct{}) {
 	}
 	zap.L().Debug("Controller.Run: cache sync complete")
 
+	// handle the resources that exist already, their notifications may still be on the way
+	for _, key := range c.Informer.GetIndexer().ListKeys() {
+		c.Queue.Add(key)
+	}
+	for c.Queue.Len() > 0 && c.processNextItem() {
+		zap.L().Debug("Controller.Run: processing existing item")
+	}
+	if c.Ready != nil {
+		close(c.Ready)
+	}
+
 	// run the runWorker method every second with a stop channel
 	wait.Until(c.runWorker, time.Second, stopCh)
 }
diff --git a/adapter/policy/initializer/policyinitializer.go b/adapter/policy/initializer/policyinitializer.go
index 77c8cfe..39ca139 100644
--- a/adapter/policy/initializer/policyinitializer.go
+++ b/adapter/policy/initializer/policyinitializer.go
@@ -27,11 +27,14 @@ import (
 type Initializer interface {
 	GetHandler() handler.PolicyHandler
 	GetKubeClient() kubernetes.Interface
+	// PoliciesReady returns a channel that is closed once the existing policies are enforced
+	PoliciesReady() <-chan struct{}
 }
 
 type PolicyInitializer struct {
-	KubeClient kubernetes.Interface
-	Handler    handler.PolicyHandler
+	KubeClient    kubernetes.Interface
+	Handler       handler.PolicyHandler
+	policiesReady chan struct{}
 }
 
 func (pi *PolicyInitializer) GetKubeClient() kubernetes.Interface {
@@ -42,6 +45,10 @@ func (pi *PolicyInitializer) GetHandler() handler.PolicyHandler {
 	return pi.Handler
 }
 
+func (pi *PolicyInitializer) PoliciesReady() <-chan struct{} {
+	return pi.policiesReady
+}
+
 func New(store policy.PolicyStore) (Initializer, error) {
 	client, myresourceClient, err := getKubernetesClient()
 	if err != nil {
@@ -49,12 +56,12 @@ func New(store policy.PolicyStore) (Initializer, error) {
 	}
 
 	handler := handler.New(store, client)
-	policyInitializer := &PolicyInitializer{Handler: handler, KubeClient: client}
+	policyInitializer := &PolicyInitializer{Handler: handler, KubeClient: client, policiesReady: make(chan struct{})}
 	informerlist := policiesInformer.NewSharedInformerFactory(myresourceClient, 0)
 
-	go initPolicyController(informerlist.Appid().V1().JwtConfigs().Informer(), client, policyInitializer.Handler, v1.JWTCONFIG)
-	go initPolicyController(informerlist.Appid().V1().OidcConfigs().Informer(), client, policyInitializer.Handler, v1.OIDCCONFIG)
-	go initPolicyController(informerlist.Appid().V1().Policies().Informer(), client, policyInitializer.Handler, v1.POLICY)
+	go initPolicyController(informerlist.Appid().V1().JwtConfigs().Informer(), client, policyInitializer.Handler, v1.JWTCONFIG, nil)
+	go initPolicyController(informerlist.Appid().V1().OidcConfigs().Informer(), client, policyInitializer.Handler, v1.OIDCCONFIG, nil)
+	go initPolicyController(informerlist.Appid().V1().Policies().Informer(), client, policyInitializer.Handler, v1.POLICY, policyInitializer.policiesReady)
 
 	return policyInitializer, nil
 }
@@ -113,7 +120,7 @@ func getKubernetesClient() (kubernetes.Interface, policiesClientSet.Interface, e
 	return client, policiesClient, nil
 }
 
-func initPolicyController(informer cache.SharedIndexInformer, client kubernetes.Interface, policyHandler handler.PolicyHandler, crdType v1.CrdType) {
+func initPolicyController(informer cache.SharedIndexInformer, client kubernetes.Interface, policyHandler handler.PolicyHandler, crdType v1.CrdType, ready chan struct{}) {
 	// create a new queue so that when the informer gets a resource that is either
 	// a result of listing or watching, we can add an idenfitying key to the queue
 	// so that it can be handled in the handler
@@ -164,6 +171,7 @@ func initPolicyController(informer cache.SharedIndexInformer, client kubernetes.
 		Informer:  informer,
 		Queue:     queue,
 		Handler:   policyHandler,
+		Ready:     ready,
 	}
 
 	stopCh := make(chan struct{})
-- 
2.43.0


From 6a3bf0572bf0c98e145b368ab7a2655b90687b5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:13 +0000
Subject: [PATCH 30/30] fix: keep credentials out of the log

The default log level reported the access token itself whenever the
userinfo endpoint did not confirm it, and whole requests, with their
authorization header and cookies, when a part of them was missing.
---
 adapter/adapter.go             | 2 +-
 adapter/validator/validator.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/adapter/adapter.go b/adapter/adapter.go
index f548b30..3c5386f 100644
--- a/adapter/adapter.go
+++ b/adapter/adapter.go
@@ -54,7 +54,7 @@ type (
 func (s *AppidAdapter) HandleAuthnZ(ctx context.Context, r *authnz.HandleAuthnZRequest) (*authnz.HandleAuthnZResponse, error) {
 	///// Validate input /////
 	if err := validateAuthnzRequest(r); err != nil {
-		zap.S().Errorf("Unexpected template format for HandleAuthnZRequest: %v", r)
+		zap.L().Error("Unexpected template format for HandleAuthnZRequest", zap.Error(err))
 		return nil, err
 	}
 
diff --git a/adapter/validator/validator.go b/adapter/validator/validator.go
index dede763..1105933 100644
--- a/adapter/validator/validator.go
+++ b/adapter/validator/validator.go
@@ -160,14 +160,14 @@ func validateAccessTokenString(userInfoEndpoint string, tokenStr string, rules [
 	req.Header.Set("Authorization", "Bearer " + tokenStr)
 	res, err := client.Do(req)
 	if err != nil {
-		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Error(err))
+		zap.L().Warn("Unauthorized - invalid token", zap.Error(err))
 		return errors.UnauthorizedHTTPException(err.Error(), findRequiredScopes(rules))
 	}
 
 	defer res.Body.Close()
 
 	if res.StatusCode != http.StatusOK {
-		zap.L().Warn("Unauthorized - invalid token", zap.String("token", tokenStr), zap.Int("res.StatusCode", res.StatusCode))
+		zap.L().Warn("Unauthorized - invalid token", zap.Int("res.StatusCode", res.StatusCode))
 		return errors.UnauthorizedHTTPException("Unauthorized - invalid token", findRequiredScopes(rules))
 	}
 
-- 
2.43.0

