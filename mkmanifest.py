#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of checks that exist."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
BB = "real adapter process driven over gRPC against a fake Kubernetes API server and a fake identity provider"
T = {
 "C01": ("runtime monitoring: reference-model oracle over random policy sets", BB + "; every answer compared with a reference model of specificity"),
 "C02": ("runtime monitoring: history workload with quiescent-point oracle", BB + "; random histories with watch drops, expired watches, API errors, restarts; continuous probes during updates"),
 "C03": ("runtime monitoring: generated and manipulated tokens, expectation by construction", BB + "; families of valid and manipulated tokens"),
 "C04": ("runtime monitoring: reference evaluator over random rules and claims", BB + "; every answer compared with an independent rule evaluator"),
 "C05": ("runtime monitoring: online checker of rejected answers", BB + "; every rejected answer parsed and compared with the expected challenge"),
 "C06": ("runtime monitoring: online checker of login redirects", BB + "; every redirect decoded and compared with what was configured"),
 "C07": ("runtime monitoring: forged and manipulated callbacks, IdP-side log oracle", BB + "; forged cookies, token endpoint log"),
 "C08": ("runtime monitoring: exactly-once oracle over the IdP's request log", BB + "; token request log, redirects"),
 "C09": ("runtime monitoring: concurrent sessions, ownership oracle over forwarded tokens", BB + "; concurrent users and clients"),
 "C10": ("runtime monitoring: session histories with real-time ordering oracle", BB + "; lifecycle model, refresh/logout races with held IdP responses"),
 "C11": ("runtime monitoring: entropy-source monitor and uniqueness checker", "the real strategy runs in-process with a recording entropy source, and as several processes"),
 "C12": ("Go race detector under concurrent traffic and churn", "race-instrumented adapter under mixed load, resource churn, key rotation, IdP failures"),
 "C13": ("runtime monitoring: outage and rotation schedules, IdP-side log oracle", BB + "; key endpoint schedules with faults"),
 "C14": ("runtime monitoring: hostile inputs with liveness and crash monitors", BB + "; hostile messages, tokens, resources, responses"),
 "C15": ("runtime monitoring: multi-instance histories with API server log oracle", "several real adapter processes, API faults at startup"),
 "C16": ("runtime monitoring: aliasing and round-trip monitors on generated resources", "real generated API packages in-process on random resources and against the fake API server"),
 "C17": ("runtime monitoring: twin-namespace differential oracle", BB + "; equal names in neighbouring namespaces and services changed at random"),
 "C18": ("runtime monitoring: resource counters of the real process", BB + "; descriptors, threads, connections and goroutine growth after many requests"),
 "C19": ("runtime monitoring: IdP-side log oracle for userinfo", BB + "; userinfo answers of many kinds"),
 "C20": ("runtime monitoring: IdP-side checker of presented credentials", BB + "; random secrets and methods"),
 "C21": ("runtime monitoring: generated token responses, expectation by construction", BB + "; valid and invalid token pairs at login, refresh and later"),
 "C22": ("runtime monitoring: taint monitor over everything the adapter sends", BB + "; marked secrets searched in every output in several encodings"),
 "C23": ("runtime monitoring: round-trip monitor and crash monitor on generated messages", "real generated message package in-process and random messages to the real process"),
 "C24": ("runtime monitoring: offline taint checker over recorded logs", BB + "; logs of C22's marked workload searched at the default and the most verbose level"),
 "C25": ("runtime monitoring: monitors behind TLS servers with right and wrong certificates", BB + "; 23 kinds of certificates on every endpoint, changing under running sessions"),
 "C26": ("runtime monitoring: counting monitor over the IdP's requests, step by step", BB + "; random sequences of requests, sessions and resource changes"),
 "C27": ("runtime monitoring: monitor over every request to the API server", BB + "; random resource histories with API faults and restarts"),
}
have = set(os.path.basename(f)[:-3].upper() for f in os.listdir(here + "/harness/cmd/bb") if f.startswith("c"))
have |= set(d.upper() for d in os.listdir(here + "/harness/cmd") if d.startswith("c"))
checks = []
for p in sorted(T):
    if p not in have: continue
    checks.append({"property": p, "quick_cmd": "bash check.sh " + p, "thorough_cmd": "VERIF_TIER=thorough bash check.sh " + p,
        "technique": T[p][0], "level": "exploration", "level_note": T[p][1] + ". Bounds and exclusions in DESIGN.md."})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": []}
json.dump(m, open(here + "/MANIFEST.json", "w"), indent=1)
open(here + "/MANIFEST.json", "a").write("\n")
