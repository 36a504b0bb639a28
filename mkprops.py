#!/usr/bin/env python3
# Generates properties.jsonl (kept in git next to it so the list is reviewable).
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
A="adapter/"
p("C01","Most specific matching policy governs every request",
 "For every set of applied policies and every request (namespace, service, method, path), the request is governed by the policy entry whose path is most specific (an exact match, else the longest whole-segment prefix, down to the root prefix) among the entries that cover its method, an entry for the request's own method taking precedence over one for ALL on the same path; a less specific entry governs whenever the more specific ones do not cover the method. A request passes unauthenticated only if no entry of that service covers it. Trailing slashes and the login callback / logout suffixes do not change which entry governs. Each answer decides its own request only: none is declared valid for later requests or further uses.",
 ["configurations","inputs"],"all policy sets over exact/prefix paths and methods, in any application order, and all request targets",
 "Unit tests sample a dozen one- or two-policy tables and never overlay exact, nested prefix and per-method entries, where lookups shadow each other.",
 [A+"policy/engine/engine.go",A+"policy/store/policy/localstore.go",A+"policy/store/pathtrie/pathtrie.go",A+"policy/handler/crdeventhandler/utils.go",A+"adapter.go"],
 [("path trie lookup with prefix fallback","adapter/policy/store/pathtrie/pathtrie.go GetActions"),("endpoint candidates","adapter/policy/engine/engine.go endpointsToCheck"),("target parsing","adapter/policy/handler/crdeventhandler/utils.go ParseTarget")],
 [("policies","service -> trie of path -> method -> actions","adapter/policy/store/policy/localstore.go")],["gRPC HandleAuthnZ response: which entry's key is accepted"])
p("C02","Enforced state depends only on the current custom resources",
 "After any history of creating, updating and deleting policies and configurations, including ones that overlap, drop paths, move between services or reuse names, and watch restarts, the adapter settles on enforcing what the currently existing resources say: every endpoint an existing policy names is protected by an existing policy naming it, and no endpoint is protected by a deleted policy or by a dropped path. While a policy is being updated, an endpoint that both the old and the new version protect is never let through unprotected. An instance that starts, or restarts, while policies exist lets no request through that they protect, from its first answer on, also while the API server is slow or fails.",
 ["histories","schedules"],"all create/update/delete histories over small name and endpoint sets, with concurrent probing and watch interruptions",
 "Unit tests apply one add and one delete on a fresh store; update-with-removed-path, conflicting owners, delete-then-fallback and watch reconnection are never run.",
 [A+"policy/controller/controller.go",A+"policy/handler/crdeventhandler/add_event.go",A+"policy/handler/crdeventhandler/delete_event.go",A+"policy/store/policy/localstore.go",A+"policy/initializer/policyinitializer.go"],
 [("informer and work queue","adapter/policy/initializer/policyinitializer.go, adapter/policy/controller/controller.go"),("owner reference check on delete","adapter/policy/handler/crdeventhandler/delete_event.go"),("policy to endpoint mapping","adapter/policy/store/policy/localstore.go")],
 [("policyMappings","policy -> endpoints it created","adapter/policy/store/policy/localstore.go")],["gRPC HandleAuthnZ probes after every settled step and during updates"])
p("C03","Only tokens signed by a published key and in date are accepted",
 "A request to a JWT-protected endpoint passes only if its access token (and its ID token, when one is sent) is a well-formed JWT whose RSA signature verifies, over exactly the bytes presented, against the key that the key set of the endpoint's own configuration, as last fetched, publishes under the token's key id, and whose expiry is not past and not-before is not in the future. No manipulation of header, algorithm, key id, payload or signature makes another token pass. Every token that meets these conditions and the policy's rules, and does not claim to be issued in the future, passes.",
 ["inputs"],"all byte strings presented as tokens; structured mutations of valid tokens",
 "Unit tests check a handful of fixed tokens against a fake key set; algorithm confusion, cross-key, re-encoding and boundary mutations are not sampled.",
 [A+"validator/validator.go",A+"authserver/keyset/keyset.go",A+"authserver/keyset/key.go",A+"strategy/api/api.go"],
 [("signature and time validation","adapter/validator/validator.go validateSignature"),("JWK decoding","adapter/authserver/keyset/key.go"),("header parsing","adapter/strategy/api/api.go getAuthTokensFromRequest")],None,["gRPC HandleAuthnZ status"])
p("C04","Claim rules are enforced exactly as documented",
 "For every rule list and every validly signed token pair, access is granted exactly when every rule holds on its source token (access token unless the rule says ID token): ALL requires every listed value to be present, ANY at least one, NOT none, where a claim may be a space-separated string, number, boolean or list of these and may be nested with dots; a missing claim fails ALL and ANY. A rule on the ID token is never skipped because the client left the ID token out, and the default match is ALL.",
 ["inputs","configurations"],"all rule lists x all claim documents (types, nesting, lists) for both policy types",
 "Unit tests check single rules on fixed claims; combinations of source, match, type, nesting and several rules are unsampled.",
 [A+"validator/validator.go",A+"strategy/api/api.go",A+"policy/engine/engine.go"],
 [("rule evaluation","adapter/validator/validator.go validateClaims, checkAccessPolicy, convertClaimType, getNestedClaim"),("default rules","adapter/policy/engine/engine.go createDefaultRules")],None,["gRPC HandleAuthnZ decision compared with a reference evaluator"])
p("C05","Rejected API requests get a correct Bearer challenge; errors fail closed",
 "Every request a JWT policy rejects is answered with status unauthenticated carrying a direct HTTP response of 401 (or 400 for a malformed request) and a WWW-Authenticate Bearer challenge that names the realm, the error code and description, and, when the policy has a scope rule that applies to a rejected token, exactly that rule's scopes. A request whose policy refers to a missing or deleted configuration, or to an unknown policy type, is never allowed. Every accepted request is answered OK with no direct response.",
 ["inputs","configurations"],"all authorization header values, scope rules and missing or deleted configurations",
 "Unit tests check literal headers against a stubbed validator; the path from real validator to response with scopes and fail-closed configuration states is not covered.",
 [A+"strategy/api/api.go",A+"errors/oautherror.go",A+"policy/engine/engine.go",A+"adapter.go"],
 [("challenge construction","adapter/strategy/api/api.go buildErrorResponse"),("scope discovery","adapter/validator/validator.go findRequiredScopes"),("missing configuration error","adapter/policy/engine/engine.go getPolicies")],None,["gRPC status, DirectHttpResponse in status details"])
p("C06","Unauthenticated browsers are sent to the configured IdP correctly",
 "A request to an OIDC-protected endpoint without a valid session is answered with a 302 to the discovered authorization endpoint, keeping that endpoint's own query parameters, with response_type code, the configured client id, the configured scopes (openid profile email by default), redirect_uri equal to the request's scheme, host and path followed by /oidc/callback, and a fresh non-empty state. The response sets one cookie, path /, for that client, that binds the browser to that state and to no other. All values survive URL encoding for arbitrary paths, hosts, client ids, scopes and endpoints.",
 ["inputs","configurations"],"all request URLs, client ids, scope lists and authorization endpoint forms",
 "Unit tests compare one literal URL with fixed client and path.",
 [A+"strategy/web/web.go",A+"strategy/web/utils.go",A+"client/client.go",A+"authserver/authserver.go"],
 [("authorization URL","adapter/strategy/web/utils.go generateAuthorizationURL"),("state cookie","adapter/strategy/web/web.go buildStateParam"),("scopes default","adapter/client/client.go Scope")],None,["Location and Set-Cookie of the gRPC direct response"])
p("C07","A login completes only in the browser that started it",
 "A callback leads to a token exchange or a session only if it carries a state parameter equal to the state inside an unexpired state cookie that the adapter itself issued for the same client under the current cookie keys; forged, tampered, truncated, expired, re-encoded, other-client or missing cookies and mismatching, empty or missing state are rejected without contacting the token endpoint and without creating a session. State cookies are accepted for one hour after issue. A callback with an error parameter, or without a code, never creates a session.",
 ["inputs","histories"],"all callback requests: mutations of cookie and state, replays across clients, cookie ages",
 "Unit tests use a mock cookie encoder or a few fixed cookies; no tampering, key change or cross-client replay is run and the token endpoint is never counted.",
 [A+"strategy/web/web.go"],
 [("state validation","adapter/strategy/web/web.go validateState"),("cookie encryption","adapter/strategy/web/web.go generateEncryptedCookie, parseAndValidateCookie")],None,["gRPC callback responses, token endpoint request log"])
p("C08","Authorization codes are exchanged once and the user returns home",
 "Each accepted callback makes exactly one token request, of grant type authorization_code with the presented code byte for byte and a redirect_uri equal to the one sent in the authorization request; on success the browser is redirected to the policy's redirect URI if set and otherwise to the originally requested URL without the callback suffix, with one session cookie for the client. On any token endpoint failure or invalid token response no session is created and the request is rejected. Logout redirects stay on the requesting host, whatever the request path.",
 ["inputs","fault_sequences"],"all codes, paths, redirect settings and token endpoint failure modes",
 "Unit tests stub the client, so the HTTP request is never checked against the redirect that preceded it, and logout paths are literal.",
 [A+"strategy/web/web.go",A+"strategy/web/utils.go",A+"authserver/authserver.go",A+"client/client.go"],
 [("code exchange","adapter/authserver/authserver.go GetTokens"),("redirect URL","adapter/strategy/web/utils.go buildRequestURL"),("success redirect","adapter/strategy/web/web.go buildSuccessRedirectResponse"),("logout","adapter/strategy/web/web.go handleLogout")],None,["token endpoint request log; Location and Set-Cookie"])
p("C09","Sessions never mix users or clients",
 "Under any number of concurrent logins, requests, refreshes and logouts, a request that carries a session cookie is forwarded with exactly the access and ID token issued to the login that created that session (or its own latest refresh), in the form Bearer, access token, ID token, and never with another user's or client's tokens. A session id is honoured only under the client whose login created it, and unknown, altered or deleted session ids grant nothing.",
 ["schedules","histories"],"all interleavings of concurrent users, clients and requests",
 "Unit tests are single-threaded with one session placed directly into the cache.",
 [A+"strategy/web/web.go",A+"strategy/web/utils.go"],
 [("session map keyed by random id","adapter/strategy/web/web.go tokenCache"),("cookie name per client","adapter/strategy/web/utils.go buildTokenCookieName")],[("tokenCache","session id -> token response","adapter/strategy/web/web.go")],["Authorization output of HandleAuthnZ for every request, matched with the IdP issue log"])
p("C10","Session lifecycle: logout is final, refresh keeps sessions alive",
 "Once a logout has been answered, no request that starts later and carries that session is authenticated, even if a refresh was in flight, and logout of one session leaves others alone. A session with an expired token is renewed through its refresh token (keeping the old refresh token when the IdP does not rotate it, and storing the new one when it does), and then forwards the new tokens and sets the same session cookie; expired or invalid tokens are never forwarded, and if renewal fails the user is sent to log in. A live session whose tokens satisfy the policy of every request it makes is never dropped.",
 ["schedules","histories","fault_sequences"],"all interleavings of requests, expiry, refresh (with rotation, failures, delays) and logout",
 "Unit tests call the refresh helper once with a stub; expiry across requests, rotation chains and refresh-logout races are never run.",
 [A+"strategy/web/web.go",A+"validator/validator.go",A+"authserver/authserver.go"],
 [("refresh","adapter/strategy/web/web.go handleRefreshTokens"),("logout","adapter/strategy/web/web.go handleLogout"),("expiry detection","adapter/validator/validator.go")],[("tokenCache","session id -> token response","adapter/strategy/web/web.go")],["history of logins, requests, logouts checked against a sequential session model; token endpoint log"])
p("C11","Session ids and state values are unique and unpredictable",
 "Session ids and state values never repeat, under concurrency and across adapter instances started at the same moment, use at least 50 bits of state and 80 bits of session id, and are drawn from the operating system's cryptographic random source, so that observing any number of them does not help to predict another.",
 ["schedules","histories"],"all concurrent logins over several instances",
 "A unit test draws a few strings and checks their length.",
 [A+"strategy/web/utils.go",A+"strategy/web/web.go"],
 [("random string generation","adapter/strategy/web/utils.go randString")],[("src","random source","adapter/strategy/web/utils.go")],["issued ids; bytes read from the cryptographic random source while issuing them"])
p("C12","Concurrent traffic and configuration churn cause no data race or crash",
 "While requests of every kind (API, login, callback, session, refresh, logout) run concurrently with creation, update and deletion of every kind of resource, key rotation and IdP failures, the adapter performs no unsynchronised access to shared memory and never crashes or deadlocks.",
 ["schedules"],"all interleavings of request handling with configuration handling",
 "Unit tests are almost entirely single-threaded and never combine the controllers with the server.",
 [A+"policy/store/policy/localstore.go",A+"authserver/authserver.go",A+"authserver/keyset/keyset.go",A+"strategy/web/web.go",A+"strategy/web/utils.go",A+"adapter.go"],
 [("store locking","adapter/policy/store/policy/localstore.go"),("request grouping","adapter/authserver/authserver.go, adapter/authserver/keyset/keyset.go"),("session map","adapter/strategy/web/web.go")],
 [("policies, clients, keysets","shared configuration","adapter/policy/store/policy/localstore.go"),("publicKeys","shared keys","adapter/authserver/keyset/keyset.go")],["race detector reports and exit status of the real server process"])
p("C13","Key rotation and IdP outages are survived",
 "A token signed with a newly published key is accepted without restart as soon as the key is published, a token whose key was withdrawn is rejected once the keys have been fetched anew, and a failed or malformed key fetch never discards keys already known. If discovery or key endpoints are unavailable when a configuration is created, the adapter denies access, keeps running and starts working once they recover, without any change to the configuration. Concurrent requests for an unknown key share a fetch instead of each issuing its own.",
 ["fault_sequences","histories"],"all sequences of key set changes and endpoint failures (status, malformed, truncated, slow, refused)",
 "Unit tests fetch one literal key set; no rotation, failure-then-recovery or fetch counting across a running adapter.",
 [A+"authserver/keyset/keyset.go",A+"authserver/authserver.go",A+"policy/handler/crdeventhandler/add_event.go"],
 [("fetch on unknown key","adapter/authserver/keyset/keyset.go PublicKey"),("fetch grouping","adapter/authserver/keyset/keyset.go updateKeysGrouped"),("lazy discovery","adapter/authserver/authserver.go initialize")],[("publicKeys","cached keys","adapter/authserver/keyset/keyset.go")],["gRPC decisions; JWKS and discovery request log"])
p("C14","Hostile inputs never crash or wedge the adapter",
 "No request message, header, cookie, token, custom resource content or IdP response (any bytes, sizes, types or missing parts, including hanging or endless responses) makes the adapter crash, stop answering other requests, or grant access that a valid credential would not have; a request that depends on an unresponsive IdP is answered within a bounded time.",
 ["inputs","fault_sequences"],"all byte-level and structural variations of external inputs",
 "Unit tests cover a few malformed inputs per function and never a whole running server.",
 [A+"adapter.go",A+"networking/networking.go",A+"validator/validator.go",A+"authserver/keyset/key.go",A+"strategy/web/web.go",A+"policy/handler/crdeventhandler/utils.go"],
 [("request validation","adapter/adapter.go validateAuthnzRequest"),("HTTP timeout and JSON validation","adapter/networking/networking.go"),("key decoding","adapter/authserver/keyset/key.go")],None,["process liveness, responses to hostile requests and to interleaved valid requests"])
p("C15","Cookie keys are shared by all instances and survive restarts",
 "All adapter instances of a cluster, started in any order, use the cookie signing and encryption keys of the one key secret: a login started at one instance completes at any other and after a restart. The secret is created, with keys of the configured sizes taken from a cryptographic source, only when it does not exist, and an existing secret is never modified or replaced; if it can be neither read nor created, no login is started with private or empty keys and the adapter recovers once the API server does.",
 ["histories","fault_sequences","configurations"],"all start orders, restarts, API failures and key size settings",
 "Unit tests build one strategy over a fake clientset; two instances, restarts and failing API servers are not run.",
 [A+"strategy/web/web.go",A+"networking/networking.go",A+"config/config.go",A+"config/intoptions.go","cmd/main.go"],
 [("key secret retrieval and creation","adapter/strategy/web/web.go generateSecureCookie, generateKeySecret"),("retry","adapter/networking/networking.go Retry")],[("encrpytor","cookie codec","adapter/strategy/web/web.go")],["secret API request log; cross-instance callbacks"])
p("C16","Resource API types copy, encode and watch faithfully",
 "Deep copies of every resource type are equal to and share no mutable memory with their original; resources survive JSON encoding and decoding, with the documented field names, unchanged; and the published client, informers and listers return exactly the resources stored in the API server for the namespace asked for, under the documented group, version and resource names.",
 ["inputs","histories"],"all resource values, with nil, empty and nested slices, and all list/watch histories",
 "The existing tests never compare or mutate copies and never run the generated client against a server.",
 [A+"pkg/apis/policies/v1/zz_generated.deepcopy.go",A+"pkg/apis/policies/v1/policy.go",A+"pkg/apis/policies/v1/target.go",A+"pkg/apis/policies/v1/register.go",A+"pkg/client"],
 [("generated deep copy","adapter/pkg/apis/policies/v1/zz_generated.deepcopy.go"),("generated client","adapter/pkg/client/clientset/versioned/typed/policies/v1"),("informers and listers","adapter/pkg/client/informers, adapter/pkg/client/listers")],None,["values before and after copying, mutation and encoding; HTTP requests of the client"])
p("C17","Policies and configurations apply only in their namespace and service",
 "A policy affects only requests to the services it names in its own namespace, and refers only to configurations and client secrets of its own namespace; equal names in other namespaces or services, whatever their content and history, change nothing for it.",
 ["configurations","histories"],"all placements of equally named policies, services, configurations and secrets in several namespaces",
 "Unit tests have one namespace per case, so a lookup that ignored it would still pass.",
 [A+"policy/engine/engine.go",A+"policy/handler/crdeventhandler/utils.go",A+"policy/handler/crdeventhandler/add_event.go",A+"policy/handler/crdeventhandler/delete_event.go",A+"policy/store/policy/localstore.go"],
 [("service key","adapter/policy/service.go"),("namespaced configuration name","adapter/policy/engine/engine.go getPolicies"),("secret lookup","adapter/policy/handler/crdeventhandler/utils.go GetKubeSecret")],None,["gRPC decisions per namespace/service; secret API request log; token endpoint credentials"])
p("C18","Serving traffic leaks no connections, goroutines or files",
 "After any number of requests of each kind has been served, including ones whose IdP calls failed, and any number of configurations and policies has been created, changed and deleted, the adapter holds no more open connections, file descriptors or threads of execution than a fixed allowance independent of these numbers.",
 ["histories"],"all request mixes, successes and failures of the IdP endpoints",
 "Unit tests run each call once and never look at the process.",
 [A+"validator/validator.go",A+"networking/networking.go",A+"authserver/authserver.go",A+"authserver/keyset/keyset.go"],
 [("response body closing","adapter/networking/networking.go Do, adapter/validator/validator.go validateAccessTokenString"),("shared client per service","adapter/authserver/authserver.go")],None,["open connections at the fake IdP, file descriptors of the server process, goroutine counts in process"])
p("C19","Opaque access tokens are accepted only on the IdP's word",
 "For OIDC sessions whose access token is not a JWT, every login, refresh and request is authenticated only if the discovered userinfo endpoint, asked for it with that exact token as bearer credential, answers 200; other answers and failures deny access, and while it answers 200 a live session keeps working. A policy with rules on the access token never accepts an opaque access token, and ID token validation and rules still apply. JWT policies never accept opaque tokens.",
 ["inputs","fault_sequences"],"all opaque tokens, rule sets and userinfo behaviours",
 "Unit tests call the helper with a local server once per status; no session is driven through it and rules without a source are not covered.",
 [A+"validator/validator.go",A+"strategy/web/web.go",A+"policy/engine/engine.go"],
 [("userinfo check","adapter/validator/validator.go validateAccessTokenString")],None,["userinfo request log; gRPC decisions"])
p("C20","The IdP gets exactly the configured client credentials",
 "Every token request authenticates with the client id and secret of the configuration that governs the request, by the configured method: HTTP basic by default, or in the form body (and only there) for client_secret_post. The secret, read when the configuration is applied, is the value under the referenced key of the referenced secret in the configuration's namespace, byte for byte, when that exists and is non-empty, and otherwise the plain value; updating the configuration changes the credentials used from then on.",
 ["configurations","histories"],"all combinations of method, plain secret, reference, existing, empty or missing keys, and special characters, over updates",
 "Unit tests check secret selection and request construction apart, with literal values.",
 [A+"policy/handler/crdeventhandler/add_event.go",A+"policy/handler/crdeventhandler/utils.go",A+"authserver/authserver.go",A+"client/client.go"],
 [("secret selection","adapter/policy/handler/crdeventhandler/add_event.go GetClientSecret"),("client authentication","adapter/authserver/authserver.go GetTokens")],None,["token endpoint requests: headers and form"])
p("C21","An OIDC session starts only from tokens that pass validation",
 "A login creates a session, and a refresh renews one, only if the access token and the ID token in the IdP's answer are both present and valid: signed by a key of the configured IdP, in date, and satisfying the policy's rules for their source, or, when the policy gives no rules, with an access token whose audience contains the client id. Otherwise the user stays unauthenticated and no session cookie is set, and an established session whose tokens no longer satisfy the current policy or keys stops being accepted.",
 ["inputs","configurations"],"all token pairs the IdP may return (mutated signatures, keys, dates, audiences, missing parts) and rule sets",
 "Unit tests stub the validator or the client; the composition of exchange, validation and session storage is not run on invalid token pairs.",
 [A+"strategy/web/web.go",A+"validator/validator.go",A+"policy/engine/engine.go"],
 [("callback validation","adapter/strategy/web/web.go handleAuthorizationCodeCallback"),("default audience rule","adapter/policy/engine/engine.go createDefaultRules"),("session validation","adapter/strategy/web/web.go isAuthorized")],None,["gRPC responses and session cookies"])
p("C22","Secrets and tokens flow only where they must",
 "Client secrets and refresh tokens are sent only to the token endpoint of the configured IdP; access and ID tokens leave the adapter only in the authorization value for the protected service, the access token also to the userinfo endpoint; authorization codes go only to the token endpoint. No redirect, cookie, challenge, message or request to any other endpoint, and no response to another user, contains any of them or the cookie keys. (The log is C24's.)",
 ["inputs","histories","fault_sequences"],"all flows, including failing ones, with every secret carrying a unique marker",
 "Unit tests compare single expected fields and never look for a secret in the other outputs.",
 [A+"strategy/web/web.go",A+"strategy/api/api.go",A+"authserver/authserver.go",A+"validator/validator.go",A+"networking/networking.go"],
 [("token response handling","adapter/strategy/web/web.go"),("request construction","adapter/authserver/authserver.go GetTokens, adapter/validator/validator.go")],None,["every byte sent to the browser, to the IdP and to the API server"])
p("C23","Request messages decode faithfully or are refused",
 "Every adapter request and response message survives encoding and decoding unchanged, whatever strings, maps and nesting it carries, its announced size equals its encoded size, and decoding arbitrary bytes either yields an error or a message, never a crash or hang. A request message that lacks its instance, target, request, headers or parameters is refused with an error, never allowed.",
 ["inputs"],"all message values and all byte strings",
 "No existing test encodes or decodes messages; the integration tests that would are not run here.",
 ["config/template/template_handler_service.pb.go","config/adapter/config.pb.go",A+"adapter.go"],
 [("generated marshalling","config/template/template_handler_service.pb.go"),("request validation","adapter/adapter.go validateAuthnzRequest")],None,["bytes and values before and after; gRPC status for incomplete messages"])
p("C24","The log holds no credentials",
 "At its default log level, in either log format, the adapter never writes an access, ID or refresh token, an authorization code, a client secret, a cookie key, a session cookie or the cookie of a begun login to its log, in plain or encoded, for any request, configuration or answer of the IdP, whether served, rejected or failing. Client secrets and cookie keys are in the log at no level. (Custom resources that cannot be decoded are not judged.)",
 ["inputs","histories","fault_sequences"],"all flows, including failing and malformed ones, with every secret carrying a unique marker, at several log levels",
 "Unit tests do not look at the log.",
 [A+"validator/validator.go",A+"adapter.go",A+"strategy/web/web.go",A+"policy/handler/crdeventhandler/add_event.go",A+"authserver/authserver.go",A+"networking/networking.go"],
 [("log statements of every package","adapter/"),("logger configuration","cmd/main.go configureLogger")],None,["standard output and error of the adapter process"])
p("C25","Nothing is sent to or believed from an unverified https server",
 "When an IdP's URL (discovery, keys, token, userinfo, or where one of them redirects) uses https, the adapter sends requests to that server and believes its answers only if the server proves by a certificate that is currently valid, was issued by an authority the system trusts, is meant for servers and names the host of the URL, that it is that host; otherwise no request (and no client secret, code or token) reaches it and nothing it says is believed. Valid certificates, also through intermediates and with several names, are accepted. This holds at first use and whenever the certificate changes later.",
 ["inputs","configurations","fault_sequences"],"all ways a certificate can be wrong or right, on each endpoint, under IP addresses and host names of several shapes, before and after a change of certificate under running sessions",
 "Unit tests use plain http servers throughout.",
 [A+"networking/networking.go",A+"validator/validator.go",A+"authserver/authserver.go",A+"authserver/keyset/keyset.go"],
 [("HTTP client used for every request to an IdP","adapter/networking/networking.go New"),("userinfo request","adapter/validator/validator.go validateAccessTokenString")],None,["what reaches a TLS server, and what the adapter answers"])
p("C26","The IdP is asked only when it is needed",
 "Once discovery document and keys of a configuration are loaded, serving requests asks its IdP for nothing but: the token endpoint once for a callback whose state is accepted, and once when an expired session that has a refresh token is visited; the userinfo endpoint once for each check of an access token that is not a valid JWT; the keys at most once for a token naming an unknown key. Tokens under known keys, valid or not, unusable tokens, begun logins, refused callbacks, live JWT sessions and logouts cost the IdP nothing, whatever requests come. Applying a configuration loads its discovery document and its keys at most once; policies, secrets and other configurations that come, change or go make nothing be loaded, and nothing is asked while nothing happens. (While the IdP answers.)",
 ["inputs","histories"],"all mixes of valid and hostile requests, sessions and resource changes",
 "Unit tests stub the IdP or do not count what it is asked over a history of requests.",
 [A+"authserver/keyset/keyset.go",A+"authserver/authserver.go",A+"strategy/web/web.go",A+"validator/validator.go",A+"policy/handler/crdeventhandler/add_event.go"],
 [("key cache","adapter/authserver/keyset/keyset.go PublicKey"),("discovery cache","adapter/authserver/authserver.go initialize"),("session checks","adapter/strategy/web/web.go isAuthorized")],None,["requests the IdP receives during each step"])
p("C27","The cluster is only read, but for the cookie key secret",
 "Whatever resources exist or change, whatever requests are served and whatever API requests fail, the adapter asks the Kubernetes API only to get, list and watch its own three kinds of resources, to get secrets by name that are the cookie key secret or that an OIDC configuration of the same namespace names, and to create the cookie key secret when it could not be read. It lists or watches no secrets and never updates, patches or deletes anything.",
 ["histories","fault_sequences"],"all histories of resources, requests and API failures, with and without an existing key secret",
 "Unit tests use a fake client and do not look at what it was asked.",
 [A+"policy/initializer/policyinitializer.go",A+"policy/handler/crdeventhandler/add_event.go",A+"policy/handler/crdeventhandler/utils.go",A+"strategy/web/web.go"],
 [("informers","adapter/policy/initializer/policyinitializer.go"),("client secret lookup","adapter/policy/handler/crdeventhandler/utils.go GetKubeSecret"),("key secret","adapter/strategy/web/web.go generateSecureCookie")],None,["every request the API server receives"])
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
print(len(P))
