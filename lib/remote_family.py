"""Histories of sessions using remote inventories, for C15 and C16."""

from vlib import Graph

FILES = ["a1", "a2", "b1", "b2", "c1"]
OK = dict(st="ok")
GZ_BAD = ["missing", "forbidden", "error", "cut", "cut", "garbage", "trunc", "badver", "nover", "nomatrix", "list", "badjson", "empty"]
SHA_BAD = ["missing", "error", "cut", "forbidden"]
W_BAD = ["missing", "cut", "error", "forbidden"]


def pub(rng, k, faults, v=None):
    """A publication: what a server holds afterwards."""
    v = v or rng.randint(1, 4)
    gz, sha, w = dict(v=v, st="ok"), dict(v=v, st="ok"), {}
    x = rng.random()
    if x < 0.12:
        sha["v"] = rng.randint(0, 4)
    if faults and rng.random() < faults:
        for _ in range(rng.choice([1, 1, 2])):
            y = rng.random()
            if y < 0.45:
                gz["st"] = rng.choice(GZ_BAD)
            elif y < 0.65:
                sha["st"] = rng.choice(SHA_BAD)
            else:
                for f in rng.sample(FILES, rng.choice([1, 2, 5])):
                    w[f] = rng.choice(W_BAD)
    if k == 3:
        sha = dict(v=v, st="ok")
        if gz["st"] in ("forbidden", "error", "cut", "garbage", "trunc"):
            gz["st"] = rng.choice(["missing", "badjson", "badver", "empty"])
        w = {f: "cut" if s == "cut" else "missing" for f, s in w.items()}
    return dict(gz=gz, sha=sha, w=w)


def random_history(rng, length, faults):
    keep = rng.random() < 0.4
    ops = [dict(op="start", s=1, keep=keep), dict(op="start", s=2, keep=rng.random() < 0.4)]
    ks = rng.choice([[1], [1], [1, 2], [1, 3], [1, 2, 3], [3]])
    for k in ks:
        if rng.random() < 0.8:
            ops.insert(0, dict(op="pub", k=k, **pub(rng, k, faults)))
    for _ in range(length):
        x, k, s = rng.random(), rng.choice(ks), rng.choice([1, 1, 2])
        if x < 0.58:
            o = dict(op="look", k=k, s=s, p=rng.choice("aabbcc"), api=rng.random() < 0.7)
            if k < 3 and rng.random() < 0.08:
                o.update(sw=True, to=pub(rng, k, faults))
            ops.append(o)
        elif x < 0.82:
            ops.append(dict(op="pub", k=k, **pub(rng, k, faults)))
        elif x < 0.9:
            ops.append(dict(op="start", s=s, keep=rng.random() < 0.4))
        elif x < 0.93:
            ops.append(dict(op="purge", s=s))
        elif x < 0.96 and k < 3:
            ops.append(dict(op="hurtw" if faults and rng.random() < 0.5 else "losew", k=k, s=s, f=rng.choice(FILES)))
        elif x < 0.98 and k < 3:
            ops.append(dict(op="hurti" if faults and rng.random() < 0.5 else "losei", k=k, s=s))
        else:
            ops.append(dict(op="clear", s=s))
    return dict(ops=ops, seed=rng.randrange(10**9))


def watching_history(rng, length):
    """New versions are looked for on the server and found, but are not to be downloaded."""
    ops = [dict(op="start", s=1, keep=False), dict(op="start", s=2, keep=rng.random() < 0.3)]
    ops += [dict(op="check", s=s, v=True, dl=False) for s in (1, 2)]
    ks = rng.choice([[1], [1, 2]])
    for _ in range(length):
        x, k, s = rng.random(), rng.choice(ks), rng.choice([1, 1, 2])
        if x < 0.55:
            ops.append(dict(op="look", k=k, s=s, p=rng.choice("aabbcc"), api=rng.random() < 0.7))
        elif x < 0.7:
            ops.append(dict(op="retag", k=k))
        elif x < 0.8:
            ops.append(dict(op="pub", k=k, **pub(rng, k, 0)))
        elif x < 0.9:
            v = rng.random() < 0.7
            ops.append(dict(op="check", s=s, v=v, dl=not v and rng.random() < 0.5))
        elif x < 0.95:
            ops.append(dict(op="start", s=s, keep=rng.random() < 0.3))
            ops.append(dict(op="check", s=s, v=True, dl=False))
        elif x < 0.97:
            ops.append(dict(op="purge", s=s))
        else:
            ops.append(dict(op="losew", k=k, s=s, f=rng.choice(FILES)))
    return dict(ops=ops, seed=rng.randrange(10**9), watch=True)


def model(c, sts, wsts, bound, vs="{1, 2, 3}", ps='{"a", "b"}', sessions="{1, 2}", props=True, edges=False, hurt="FALSE"):
    cfg = f"SPECIFICATION MCSpec\nCONSTANT Sessions = {sessions}\nCONSTANT Vs = {vs}\nCONSTANT Ps = {ps}\nCONSTANT Sts = {sts}\nCONSTANT Wsts = {wsts}\nCONSTANT Bound = {bound}\nCONSTANT Hurt = {hurt}\nVIEW View\nCHECK_DEADLOCK FALSE\n"
    if props:
        cfg += "INVARIANT Recovers BadInv\nPROPERTY QuietProp OnceProp ExactProp NoTraceProp SameAnswer\n"
    if edges:
        cfg += "ACTION_CONSTRAINT PrintEdge\nCONSTRAINT PrintInit\n"
    return c.tlc("RemoteMC", cfg, workers=1 if edges else 8)


def from_graph(c, g, limit):
    """Histories which take the transitions of a model graph."""
    rng = c.rng
    out = []
    for q in g.tour(rng, maxlen=40, limit=limit):
        out.append(concrete(rng, q))
    return out


def concrete(rng, q, keeps=None):
    k = rng.choice([1, 2])
    ops = []
    # the initial states differ in what the sessions keep in memory; it is drawn here
    keep = keeps or {1: rng.random() < 0.5, 2: rng.random() < 0.5}
    for s in (1, 2):
        ops.append(dict(op="start", s=s, keep=keep[s]))
    for o in q:
        if o["op"] == "pub":
            bad = lambda st, alt: rng.choice(alt) if st != "ok" else "ok"
            ops.append(dict(op="pub", k=k, gz=dict(v=o["gz"]["v"], st=bad(o["gz"]["st"], GZ_BAD)), sha=dict(v=o["sha"]["v"], st=bad(o["sha"]["st"], SHA_BAD)),
                            w={f: bad(o["wst"], W_BAD) for f in FILES}))
        elif o["op"] == "look":
            ops.append(dict(op="look", k=k, s=o["s"], p=o["p"], api=rng.random() < 0.7))
        elif o["op"] == "start":
            ops.append(dict(op="start", s=o["s"], keep=keep[o["s"]]))
        elif o["op"] == "purge":
            ops.append(dict(op="purge", s=rng.choice([1, 2])))
        elif o["op"] in ("hurt", "lose"):
            ops.append(dict(op=o["op"] + ("i" if o["f"] == "idx" else "w"), k=k, s=rng.choice([1, 2]), f=o["f"]))
    return dict(ops=ops, seed=rng.randrange(10**9))


def run(c, hs):
    c.rng.shuffle(hs)
    return [x for ts in c.parallel(lambda j: c.drive("remote.py", j), [dict(seqs=hs[k::8]) for k in range(8) if hs[k::8]]) for x in ts]


def finish(c, traces):
    c.report_rejects("Remote", c.validate("RemoteTrace", traces, jobs=8))
    ev = [e for x in traces for e in x["ev"]]
    n = lambda op: sum(e["op"] == op for e in ev)
    looks = [e for e in ev if e["op"] == "look"]
    return c.finish(states=c.states, transitions=c.transitions, traces_validated_against_impl=len(traces), lookups=len(looks), sessions=n("start"), publications=n("pub"),
                    failed_lookups=sum(e["err"] == "fail" for e in looks), unmatched_lookups=sum(e["err"] == "nomatch" for e in looks),
                    index_downloads=sum(e["gz"] for e in looks), checksum_requests=sum(e["sha"] for e in looks), weights_downloads=sum(len(e["w"]) for e in looks),
                    samples=traces[0]["ev"][:6])
