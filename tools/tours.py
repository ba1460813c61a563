"""Tours covering all edges of an explored model (the EDGE lines TLC printed)."""
import collections
import json

TEXT_ARGS = ("un", "em", "pw", "old", "fn", "us", "cm", "se", "al", "kcm", "pl")


def edges_of(lines):
    nodes, edges, seen = {}, [], set()

    def node(s):
        k = json.dumps(s, sort_keys=True)
        return nodes.setdefault(k, len(nodes))

    for line in lines:
        line = line.strip()
        if not line.startswith('"EDGE '):
            continue
        e = json.loads(json.loads(line)[5:])
        f, t = node(e["from"]), node(e["to"])
        key = (f, json.dumps([e["op"], e["a"], e["fault"]], sort_keys=True))
        if key in seen:
            continue
        seen.add(key)
        edges.append((f, t, {k: e[k] for k in ("op", "a", "fault", "ok", "slot")}))
    return nodes, edges


def tours(edges, start, limit, rnd, budget=None):
    """Walks from the start that together take every edge; a walk has at most
    about limit steps."""
    out = collections.defaultdict(list)
    for i, (f, t, _) in enumerate(edges):
        out[f].append(i)
    for f in out:
        rnd.shuffle(out[f])
    todo = {f: list(v) for f, v in out.items()}
    left = len(edges)
    walks, walk, at, taken = [], [], start, 0

    def nearest(frm):
        prev, queue = {frm: None}, collections.deque([frm])
        while queue:
            n = queue.popleft()
            if todo.get(n):
                path = []
                while prev[n] is not None:
                    e = prev[n]
                    path.append(e)
                    n = edges[e][0]
                return path[::-1]
            for e in out[n]:
                t = edges[e][1]
                if t not in prev:
                    prev[t] = e
                    queue.append(t)
        return None

    while left and (budget is None or taken < budget):
        if len(walk) >= limit:
            walks.append(walk)
            walk, at = [], start
        path = [] if todo.get(at) else nearest(at)
        if path is None:
            if not walk:
                break
            walks.append(walk)
            walk, at = [], start
            continue
        for e in path:
            walk.append(e)
            at = edges[e][1]
        # loops first, in a random order, then onward
        todo[at].sort(key=lambda e: edges[e][1] != at, reverse=True)
        e = todo[at].pop()
        walk.append(e)
        at = edges[e][1]
        left -= 1
        taken += 1
    if walk:
        walks.append(walk)
    return walks, left


def concrete(e, texts):
    """The operation of an edge, with texts for their numbers."""
    a = dict(e["a"])
    for k in TEXT_ARGS:
        if k in a:
            a[k] = texts[a[k] - 1]
    if "rl" in a:
        a["rl"] = [texts[i - 1] for i in a["rl"]]
    if "u2" in a:
        a["u2"] = texts[a["u2"] - 1]
    if "as" in a:
        s = dict(a["as"])
        for k in ("u2", "ch", "want"):
            s[k] = texts[s[k] - 1]
        a["as"] = s
    return {"op": e["op"], "a": a, "fault": e["fault"], "ok": e["ok"], "slot": e["slot"]}
