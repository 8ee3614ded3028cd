#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MODEL = "runtime monitoring: the real code under a generated workload, every response judged online by an independent model"
T = {
 "C02": ("runtime monitoring: page.Match on generated searches, judged by an independent evaluator of the search DSL",
         "Exploration: a fixed number of seeded cases over generated searches and index maps; trusts the evaluator in harness/model.go and Kubernetes' label syntax."),
 "C03": ("runtime monitoring: restrictions applied to generated queries, the matches before and after compared by an independent evaluator",
         "Exploration of seeded cases; trusts the evaluator in harness/model.go."),
 "C04": (MODEL + " (list contents, form, upstream contacts)", "Exploration: real watcher, cache and HTTP routes against scripted API servers; bounded worlds and seeded requests."),
 "C05": (MODEL + " (origin of every returned object)", "Exploration: 48 combinations of hostile cluster names and default cluster, seeded requests."),
 "C06": (MODEL + " (order and repeatability)", "Exploration: seeded worlds and sorts; numbers compared as 64-bit floats."),
 "C07": (MODEL + " (pages concatenated, counts summed)", "Exploration: seeded worlds, page walks and boundary values up to the 64-bit limits."),
 "C08": (MODEL + " (table against list)", "Exploration: seeded worlds and requests; the list the table is compared with is decided by C04."),
 "C09": (MODEL + " (single reads)", "Exploration: seeded worlds, present and absent objects, non-cached types, subresources and methods."),
 "C01": ("runtime monitoring: a recording store behind the real proxy route compares every recovered query and label condition with what the SDK or ckubecli was given",
         "Exploration: every search length up to a bound, seeded Unicode queries and selectors, re-encodings, forwarded selectors and runs of the real ckubecli binary."),
 "C10": ("runtime monitoring: random operation histories on the real store, compared with a replay model after every step", "Exploration of seeded histories over colliding types, clusters, namespaces and names."),
 "C11": ("runtime monitoring under the Go race detector: recorded concurrent histories checked for linearizability per object with Porcupine, lists by interval rules",
         "Exploration: schedules are those the Go scheduler produces with injected yields and delays; up to 13 threads, fresh store per round."),
 "C12": ("runtime monitoring: index values of stored objects judged against an independent table of expression meanings", "Exploration of seeded index configurations and objects, also stored concurrently."),
 "C13": ("runtime monitoring: objects sent on a scripted upstream watch compared with what the HTTP routes serve", "Exploration: randomly filled objects of 23 built-in and 3 custom types."),
 "C14": ("runtime monitoring with fault injection: real watchers against scripted API servers, cache compared with the clusters' state at quiescence", "Exploration of seeded fault scripts on about 110 watch paths in parallel; 60 s to converge."),
 "C15": ("runtime monitoring with fault injection: lists sampled throughout outages and compared with those before", "Exploration: 14 kinds of outage on 9 types at once, thousands of samples."),
 "C16": ("runtime monitoring under the Go race detector: streams, watch requests, cache and goroutines observed after stopping watchers in 13 states", "Exploration: observation lasts longer than the watcher's longest pause; bounded time means 45 s."),
 "C17": ("runtime monitoring: requests with their twins sent through the proxy, what a scripted cluster received and what the client got back compared with a model of transparent proxying", "Exploration: seeded methods, paths, queries, headers, bodies and answers; watches are decided by C19."),
 "C18": ("runtime monitoring: every request a cluster receives is attributed to the client request that caused it and checked against the cluster it addresses", "Exploration: seeded worlds with hostile cluster names and all ways to address a cluster."),
 "C19": ("runtime monitoring with fault injection: recorded event streams at both ends of the proxy compared byte by byte, upstream connections and goroutines observed after either end goes away", "Exploration: seeded event scripts and endings; bounded time means 30 s."),
 "C20": ("runtime monitoring: requests with and without the token over every route, clusters' contacts and answers searched for anything secret", "Exploration: seeded tokens, routes, methods and credentials; what a right token opens is compared with a world without token."),
 "C21": ("runtime monitoring: hostile requests while probes watch that every request is answered, the process lives and goroutines return to their number", "Exploration: seeded and enumerated hostile requests; a request counts as hanging after 60 s."),
 "C22": ("Go race detector on the server in-process and on the real daemon while every kind of traffic, watch events and reloads run together", "Exploration: races are seen only on the schedules which ran; three rounds in-process and one daemon run."),
 "C23": ("runtime monitoring under the Go race detector: caches and clients tagged by generation, every answer attributed to one generation between the last finished and the last started switch", "Exploration: slow stores and clusters widen the windows; a second phase switches without pause between prepared pairs."),
 "C24": ("runtime monitoring: the real daemon with its files changed in many ways, what it serves compared with the last valid configuration", "Exploration: seeded scripts of file changes; 60 s to follow a change."),
 "C25": (MODEL + " (services of a deployment)", "Exploration: seeded populations of similar names; ownership by ReplicaSet name as the deployment controller makes them."),
 "C27": ("runtime monitoring: the resource gauges compared with the cache at quiescence, in-process and scraped from the real daemon across reloads", "Exploration of seeded histories, concurrent ones included."),
 "C26": ("runtime monitoring: the real plugin binary with a recording kubectl in PATH; arguments, streams and exit code compared, the selector and field manager it passes on sent through the real proxy route", "Exploration: seeded command lines, positions and forms of the options."),
 "C28": ("runtime monitoring under the Go race detector: client histories against the fake server compared with a map and checked with Porcupine, watch streams checked against the changes made", "Exploration: seeded operations of 1 and 10 clients on 4 types and 3 clusters; watches with selected clusters."),
 "C29": ("runtime monitoring under the Go race detector: real files changed in 14 ways under real watchers, notifications and what was readable at them recorded; goroutines and inotify instances counted after Close at 9 moments", "Exploration: seeded scripts; a notification has 30 s to arrive."),
 "C30": ("runtime monitoring: goroutines, open files and live heap of the process compared before and after windows of operations with content never seen before, in-process and in the real daemon", "Exploration: about 20 kinds of operations; a leak must hold a quarter of what each operation handed over, or one goroutine or file for two operations, to show."),
 "C31": ("runtime monitoring with fault injection: hundreds of requests, watches, slow clients and a cluster kept stuck while probes of every kind are timed and judged, in-process and against the real daemon", "Exploration: a probe has 30 s; what it could wait for stays stuck for longer."),
 "C32": ("runtime monitoring under the Go race detector: lives of servers with every kind of use, stopped at many moments; address, clients' ends, goroutines and files observed afterwards", "Exploration: seeded uses and moments; stopping has 30 s."),
 "C34": ("runtime monitoring with fault injection: clusters that accept only their own credentials record every request; requests, answers, metrics and the daemon's log are searched for credentials of others", "Exploration: seeded requests with nine kinds of identity headers, four clusters of different credentials and connections, three daemons through broken files and clusters."),
 "C33": ("runtime monitoring: what a standard discovery client and REST mapper find in real fake servers compared with the configuration", "Exploration of seeded configurations."),
}
def main():
    props = [json.loads(l) for l in open(V + "/properties.jsonl")]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i in T:
            checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                           "technique": T[i][0], "level": "exploration", "level_note": T[i][1]})
        else:
            na.append({"property": i, "reason": NA.get(i, "no check built yet")})
    m = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na,
         "notes": "All checks are one Go program (harness/) built against /repo's working tree by run.sh; see DESIGN.md."}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
    open(V + "/MANIFEST.json", "a").write("\n")
NA = {}
main()
