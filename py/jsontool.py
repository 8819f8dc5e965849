"""P25: JSON conversion with the repository's partjson, against the reference table."""
from model import *
import partio, partjson, io, contextlib, copy, subprocess

EXT = [".bgeo", ".geo", ".bhclassic", ".ptc", ".pdb"]


def plain(x):
    if isinstance(x, dict):
        return all(isinstance(k, (str, int)) for k in x) and all(plain(v) for v in x.values())
    if isinstance(x, (list, tuple)):
        return all(plain(v) for v in x)
    return x is None or type(x) in (str, int, float, bool)


def cli(h, r, *args):
    """the tool's command line; returns (exit status, output)"""
    if r.random() < .03:
        h.count("processes")
        q = subprocess.run([sys.executable, partjson.__file__] + list(args), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return q.returncode, q.stdout
    old, out = sys.argv, io.StringIO()
    sys.argv = ["partjson"] + list(args)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            partjson.main()
        return 0, out.getvalue()
    except SystemExit as e:
        return e.code or 0, out.getvalue()
    finally:
        sys.argv = old


def case(h, r):
    wide = r.random() < .3
    t = gen(r, maxn=r.choice([5, 30, 30, 120]), position=r.random() < .6, finite=True, maxcount=20 if wide else 6, large=True)
    p = build(partio, t, r)
    ctx = t.describe()
    j = partjson.toJson(p)
    keep = copy.deepcopy(j)
    d = diff(partio, p, t)
    h.check(d is None, "source", lambda: "toJson changed its argument: %s; %s" % (d, ctx))
    h.check(plain(j), "plain", lambda: "toJson yields objects that are not JSON data; %s" % ctx)
    q = partjson.fromJson(j)
    d = diff(partio, q, t)
    h.check(d is None, "direct", lambda: "toJson/fromJson: %s; %s" % (d, ctx))
    h.check(j == keep, "argument", lambda: "fromJson changed its argument; %s" % ctx)
    h.check(partjson.toJson(q) == j, "stable", lambda: "converting the converted set gives other JSON; %s" % ctx)
    # through text
    kw = r.choice([{}, {"sort_keys": True}, {"indent": 2}, {"ensure_ascii": False}, {"separators": (",", ":")}, {"indent": 2, "sort_keys": True}])
    s = json.dumps(j, allow_nan=False, **kw)
    q = partjson.fromJson(json.loads(s))
    d = diff(partio, q, t, order=not kw.get("sort_keys"))
    h.check(d is None, "text", lambda: "through text with %s: %s; %s" % (kw, d, ctx))
    h.check(json.dumps(partjson.toJson(q), sort_keys=True) == json.dumps(j, sort_keys=True), "text.stable", lambda: "the JSON text of the converted set differs; %s" % ctx)
    # the members of a JSON object have no order: nothing may depend on it but the order of the attributes
    js = json.loads(s)
    for k in ("particles", "indexedStrings", "fixedIndexedStrings"):
        if k in js:
            js[k] = {x: js[k][x] for x in r.choice([sorted, lambda d: r.sample(sorted(d), len(d))])(js[k])}
    d = diff(partio, partjson.fromJson(js), t, order=not kw.get("sort_keys"))
    h.check(d is None, "members", lambda: "with the members of the objects in another order: %s; %s" % (d, ctx))
    h.count("round_trips", 3)
    # independent reading of the JSON: the values are there under their names
    jl = json.loads(s)
    ok = all([tuple(jl["particles"][str(i)][a.name]) == tuple(t.vals[i][k]) for i in range(t.n) for k, a in enumerate(t.attrs)]) and all(tuple(jl["fixedAttributes"][a.name]["value"]) == tuple(v) for a, v in zip(t.fixed, t.fvals)) \
        and all((jl["attributes"][a.name]["type"], jl["attributes"][a.name]["count"]) == (a.type, a.count) for a in t.attrs) and all((jl["fixedAttributes"][a.name]["type"], jl["fixedAttributes"][a.name]["count"]) == (a.type, a.count) for a in t.fixed) \
        and all(jl["indexedStrings"][a.name] == a.strs for a in t.attrs if a.type == STR) and all(jl["fixedIndexedStrings"][a.name] == a.strs for a in t.fixed if a.type == STR) and len(jl.get("particles", {})) == t.n
    h.check(ok, "content", lambda: "the JSON does not hold the set's values; %s" % ctx)
    h.distinct(t.key())
    h.sample(ctx)
    # through files and the command line
    if any(a.name == "position" and a.type == VECTOR for a in t.attrs) and r.random() < .7:
        e1, e2 = r.choice(EXT), r.choice([".bgeo", ".bgeo", ".bhclassic"])
        dot = lambda: r.choice(["", "", ".0007", ".json", ".bgeo", " x"])
        f1, f2, f3 = h.tmp + "/in" + dot() + e1, h.tmp + "/mid" + dot() + ".json", h.tmp + "/out" + dot() + e2
        for f in (f1, f2, f3):
            if os.path.exists(f):
                os.unlink(f)
        partio.write(f1, p, False, False)
        ref = partio.read(f1, False)
        if ref is None:
            return
        tr = snapshot(partio, ref)
        if any(x != x or x in (float("inf"), float("-inf")) for v in tr.vals for w in v for x in w):
            return
        before = open(f1, "rb").read()
        rc, out = cli(h, r, *r.choice([(f1, f2), ("-v", f1, f2)]))
        if not h.check(rc == 0 and os.path.exists(f2), "tool", lambda: "partjson %s to json: status %s, %s" % (e1, rc, out[-300:])):
            return
        h.check(open(f1, "rb").read() == before, "tool.input", "partjson changed its input")
        q = partjson.fromJson(json.load(open(f2)))
        d = diff(partio, q, tr, order=False)
        h.check(d is None, "tool.json", lambda: "partjson of a %s file: %s; %s" % (e1, d, tr.describe()))
        comp = r.random() < .5
        rc, out = cli(h, r, *(["-c"] if comp else []) + [f2, f3])
        if not h.check(rc == 0 and os.path.exists(f3), "tool", lambda: "partjson json to %s: status %s, %s" % (e2, rc, out[-300:])):
            return
        d = diff(partio, partio.read(f3, False), tr, order=False)
        h.check(d is None, "tool.back", lambda: "partjson %s to json to %s: %s; %s" % (e1, e2, d, tr.describe()))
        h.check((open(f3, "rb").read(2) == b"\x1f\x8b") == comp, "tool.compress", lambda: "compressed: %s; file starts with %r" % (comp, open(f3, "rb").read(2)))
        h.count("tool_round_trips")
    elif r.random() < .3:
        # wrong usage is answered with a message and a failure status
        a = r.choice([(), ("a.bgeo",), ("none.bgeo", "x.json"), ("none.json", "x.bgeo"), (h.tmp + "/e.xyz", "x.json"), ("a", "b", "c"), (h.tmp + "/e.json", "x.xyz"), ("-x", "y", "z")])
        for e in ("e.xyz", "e.json"):
            open(h.tmp + "/" + e, "w").write("{}")
        rc, out = cli(h, r, *a)
        h.check(rc == 1 and out, "usage", lambda: "partjson %s: status %s, %r" % (a, rc, out))
        h.count("usage")


if __name__ == "__main__":
    main(case)
