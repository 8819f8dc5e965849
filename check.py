#!/usr/bin/env python3
"""check.py PID [--tier quick|thorough] [--seed N] [--replay FILE] [--cases N] [--from A --to B]

Runs the monitor of one property against the code in /repo.  Exit 0: held on everything explored;
1: a violation (a line 'VIOLATION property=.. replay=..' is printed); 2: the check could not run."""
import sys, os, json, time, struct, mmap, subprocess, threading, tempfile, shutil, queue, re, argparse, signal, array
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import build as B
from props import PROPS

WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))


def load_known(pid):
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.rstrip("\n")
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
            if m and m.group(1) == pid:
                out.append((m.group(2), m.group(3)))
    return out


KINDS = [("AddressSanitizer", r"ERROR: AddressSanitizer: ([a-zA-Z0-9-]+)"), ("UBSan", r"runtime error: (.*)"),
         ("ThreadSanitizer", r"WARNING: ThreadSanitizer: ([^(\n]+)"), ("assert", r"Assertion [`'](.*?)' failed"),
         ("LeakSanitizer", r"ERROR: LeakSanitizer: (.*)")]
RESOURCE = re.compile(r"ERROR: AddressSanitizer: (allocation-size-too-big|out-of-memory|out of memory|calloc-overflow|requested allocation size|rss-limit[a-z-]*)|hard rss limit|instance of 'std::bad_alloc'")


def classify(log, rc):
    """(kind, frame) of a dead process"""
    low = log[-200000:]
    m = RESOURCE.search(low)
    if m:
        return "resource", m.group(0)
    kind = None
    for name, rx in KINDS:
        m = re.search(rx, low)
        if m:
            kind = name + ":" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1).strip())[:60].replace(" ", "_")
            break
    if not kind:
        if "terminate called" in low:
            m = re.search(r"instance of '(.*?)'", low)
            kind = "uncaught:" + (m.group(1) if m else "?")
        else:
            kind = "exit:%d" % rc
    frame = "?"
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ )?(?:in )?(.+?) (\S*?/?)([^/\s]+?\.(?:cpp|h|i))(?::(\d+))?", low):
        path = m.group(2) + m.group(3)
        if "/src/lib/" in path or "/src/tools/" in path or "wrap.cpp" in path:
            frame = m.group(3) + ":" + re.sub(r"\(.*", "", m.group(1)).replace(" ", "")[:60]
            break
    if frame == "?":
        m = re.search(r"(\S+\.(?:cpp|h)):\d+:\d+: runtime error", low)
        if m:
            frame = os.path.basename(m.group(1))
    return kind, frame


class Run:
    def __init__(self, pid, tier, seed, cfg, args):
        self.pid, self.tier, self.seed, self.cfg, self.args = pid, tier, seed, cfg, args
        self.viol = []          # (key, msg, replay dict)
        self.inconclusive = {}
        self.evals = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.lock = threading.Lock()
        self.stop = False
        self.crashes = 0
        self.hangs = 0
        self.errors = []
        shm = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid, dir=shm if not cfg.get("disk") else None)
        self.solo = threading.Lock()
        self.known = load_known(pid)

    def is_known(self, key):
        return any(key.startswith(k[:-1]) if k.endswith("*") else k == key for k, _ in self.known)

    def add_viol(self, key, msg, replay):
        with self.lock:
            self.viol.append((key, msg, replay))
            if sum(1 for v in self.viol if not self.is_known(v[0])) >= 6:
                self.stop = True

    def launch(self, exe, a, b, tmp, timeout, tier=None, replay=False, reuse=False):
        """run cases [a,b) once; returns (status, case, log, rc).  status: ok, viol, crash, hang"""
        os.makedirs(tmp, exist_ok=True)
        prog, out, errp = tmp + ".prog", tmp + ".out", tmp + ".err"
        for f in (prog, out):
            if os.path.exists(f):
                os.remove(f)
        with open(prog, "wb") as f:
            f.write(struct.pack("q", -1) + b"\0" * 56)
        cmd = list(exe) + ["--prop", self.pid, "--seed", str(self.seed), "--from", str(a), "--to", str(b), "--tier", self.tier,
                           "--out", out, "--progress", prog, "--tmp", tmp] + (["--replay", "1"] if replay else [])
        env = B.symbolizer_env()
        env.update(self.cfg.get("env", {}))
        if reuse:   # freed memory is handed out again at once, as an ordinary allocator does: exposes state keyed by stale addresses
            env["ASAN_OPTIONS"] += ":quarantine_size_mb=0:thread_local_quarantine_size_kb=0"
            env["VERIF_REUSE"] = "1"
        errf = None if replay else open(errp, "wb")
        p = subprocess.Popen(cmd, stdout=errf, stderr=subprocess.STDOUT if errf else None, env=env, start_new_session=True, cwd=tmp)
        last, since = None, time.time()
        status = None
        while True:
            try:
                p.wait(0.05 if last is None else 0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            cur = struct.unpack("q", open(prog, "rb").read(8))[0]
            if cur != last:
                last, since = cur, time.time()
            elif time.time() - since > timeout:
                status = "hang"
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
            if self.stop and not replay:
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                return "stopped", -1, "", 0
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except OSError:
            pass
        if errf:
            errf.close()
        log = "" if replay else open(errp, "rb").read()[-400000:].decode("latin1")
        cur = struct.unpack("q", open(prog, "rb").read(8))[0]
        if status is None:
            status = "ok" if p.returncode == 0 else "viol" if p.returncode == 1 else "crash"
        if p.returncode == 3 and cur == -1:
            raise B.BuildError("driver refused to start: " + log[-2000:])
        self.collect(out, tmp, replay, {"chunk": a, "reuse": reuse})
        shutil.rmtree(tmp, ignore_errors=True)
        return status, cur, log, p.returncode

    def collect(self, out, tmp, replay=False, how={}):
        if not os.path.exists(out):
            return
        for line in open(out, encoding="latin1"):
            try:
                d = json.loads(line)
            except ValueError:
                continue
            if d["t"] == "viol":
                self.add_viol(d["key"], d["msg"], dict(how, case=d["case"]))
            elif d["t"] == "stats":
                with self.lock:
                    self.evals += d["evaluations"]
                    for k, v in d["counters"].items():
                        self.counters[k] = self.counters.get(k, 0) + v
                    for s in d["samples"]:
                        if len(self.samples) < 6 and s not in self.samples:
                            self.samples.append(s)
        df = out + ".distinct"
        if os.path.exists(df):
            a = array.array("Q")
            a.frombytes(open(df, "rb").read())
            with self.lock:
                self.distinct.update(a)
            os.remove(df)
        os.remove(out)

    def worker(self, wid, exe, q):
        case_timeout = self.cfg.get("case_timeout", 15)
        serial = 0
        while not self.stop:
            try:
                a, b, reuse = q.get_nowait()
            except queue.Empty:
                return
            while a < b and not self.stop:
                serial += 1
                tmp = os.path.join(self.tmp, "w%d-%d" % (wid, serial))
                st, cur, log, rc = self.launch(exe, a, b, tmp, case_timeout, reuse=reuse)
                if st in ("ok", "viol", "stopped"):
                    break
                if cur == -2:   # died after its last case: end-of-run reports (leaks, races found at exit)
                    kind, frame = classify(log, rc)
                    if kind != "resource":
                        self.add_viol("crash:%s:%s" % (kind, frame), "at the end of cases %d..%d: %s" % (a, b - 1, self.excerpt(log)), {"from": a, "to": b, "case": a, "reuse": reuse})
                    break
                if cur < a or cur >= b:
                    with self.lock:
                        self.errors.append("driver died before its first case (rc %s): %s" % (rc, log[-1500:]))
                        self.stop = True
                    return
                if st == "crash":
                    kind, frame = classify(log, rc)
                    if kind == "resource":
                        with self.lock:
                            self.inconclusive["resource"] = self.inconclusive.get("resource", 0) + 1
                    else:
                        with self.lock:
                            self.crashes += 1
                        self.add_viol("crash:%s:%s" % (kind, frame), self.excerpt(log) or "exit status %s" % rc, {"case": cur, "chunk": a, "reuse": reuse})
                else:
                    with self.solo:      # a time-out is not a verdict: repeat alone with a larger budget
                        st2, cur2, log2, rc2 = self.launch(exe, cur, cur + 1, tmp + "solo", self.cfg.get("hang_timeout", 75), reuse=reuse)
                    if st2 == "hang":
                        self.add_viol("hang", "case %d did not finish in %ss, alone" % (cur, self.cfg.get("hang_timeout", 75)), {"case": cur})
                        with self.lock:
                            self.hangs += 1
                            if self.hangs >= 2:
                                self.stop = True
                    elif st2 == "crash":
                        kind, frame = classify(log2, rc2)
                        if kind != "resource":
                            self.add_viol("crash:%s:%s" % (kind, frame), self.excerpt(log2), {"case": cur, "reuse": reuse})
                    else:
                        with self.lock:
                            self.inconclusive["slow"] = self.inconclusive.get("slow", 0) + 1
                a = cur + 1

    @staticmethod
    def excerpt(log):
        i = -1
        for m in ("ERROR: AddressSanitizer", "runtime error", "WARNING: ThreadSanitizer", "Assertion", "terminate called", "LeakSanitizer"):
            j = log.find(m)
            if j >= 0 and (i < 0 or j < i):
                i = j
        return re.sub(r"\s+", " ", log[max(0, i - 120):i + 1400]) if i >= 0 else re.sub(r"\s+", " ", log[-500:])

    def run(self, exe, ncases):
        chunks = max(WORKERS, min(ncases, WORKERS * self.cfg.get("chunks", 5)))
        q = queue.Queue()
        lo, hi = self.args.from_ or 0, ncases
        step = max(1, (hi - lo + chunks - 1) // chunks)
        for i, a in enumerate(range(lo, hi, step)):
            q.put((a, min(hi, a + step), i % 2 == 1))
        nw = min(self.cfg.get("workers", WORKERS), WORKERS)
        ts = [threading.Thread(target=self.guard, args=(w, exe, q)) for w in range(nw)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()

    def guard(self, w, exe, q):
        try:
            self.worker(w, exe, q)
        except Exception as e:
            with self.lock:
                self.errors.append("worker: %r" % e)
                self.stop = True


def prepare(cfg):
    """command prefixes (one per executable) that accept the driver options"""
    out = []
    for part in cfg["parts"]:
        if "driver" in part:
            out.append((part, [B.build(part["driver"], part.get("variant", "asan"), part.get("defines", ()), part.get("include", ()), part.get("libs", ()))]))
        else:
            out.append((part, part["prepare"](B)))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=None)
    ap.add_argument("--seed", type=int, default=None)
    ap.add_argument("--replay")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--from", dest="from_", type=int, default=0)
    args = ap.parse_args()
    pid = args.pid
    tier = args.tier or os.environ.get("VERIF_TIER") or "quick"
    seed = args.seed if args.seed is not None else int(os.environ.get("VERIF_SEED", "1") or 1)
    if pid not in PROPS:
        print("unknown property", pid)
        return 2
    cfg = PROPS[pid]
    t0 = time.time()
    try:
        parts = prepare(cfg)
    except B.BuildError as e:
        print("ERROR: cannot build the check:\n%s" % e)
        return 2
    tb = time.time() - t0
    if args.replay:
        rp = json.load(open(args.replay))
        part, exe = parts[rp.get("part", 0)]
        c = dict(cfg); c.update(part)
        r = Run(pid, rp.get("tier", tier), rp["seed"], c, args)
        a = rp.get("from", rp["case"]); b = rp.get("to", a + 1)
        reuse = rp.get("reuse", False)
        st, cur, log, rc = r.launch(exe, a, b, os.path.join(r.tmp, "replay"), 600, replay=True, reuse=reuse)
        if st == "ok" and rp.get("chunk", a) < a:   # not alone: with the cases that went before it in its process
            print("case %d alone passes; repeating from case %d" % (a, rp["chunk"]))
            st, cur, log, rc = r.launch(exe, rp["chunk"], b, os.path.join(r.tmp, "replay"), 1800, replay=True, reuse=reuse)
        shutil.rmtree(r.tmp, ignore_errors=True)
        for k, m, _ in r.viol:
            print("replayed: %s: %s" % (k, m))
        print("status:", st)
        return 0 if st == "ok" else 1
    total = None
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    repdir = os.path.join(HERE, "build", "replay")
    os.makedirs(repdir, exist_ok=True)
    allv, errors, inc = [], [], {}
    evals, distinct, counters, samples, ncases_total, nviol = 0, set(), {}, [], 0, 0
    for i, (part, exe) in enumerate(parts):
        c = dict(cfg); c.update(part)
        n = args.cases or c["quick" if tier == "quick" else "thorough"]
        r = Run(pid, tier, seed, c, args)
        try:
            r.run(exe, n)
        except B.BuildError as e:
            errors.append(str(e))
        finally:
            shutil.rmtree(r.tmp, ignore_errors=True)
        for k, m, rp in r.viol:
            rp.update(property=pid, seed=seed, tier=tier, part=i, key=k, msg=m)
            allv.append((k, m, rp))
        errors += r.errors
        evals += r.evals
        ncases_total += n
        distinct |= {(d, i) for d in r.distinct} if len(parts) > 1 else r.distinct
        for k, v in r.counters.items():
            counters[k] = counters.get(k, 0) + v
        for k, v in r.inconclusive.items():
            inc[k] = inc.get(k, 0) + v
        samples += r.samples
    known = load_known(pid)
    new, hit = [], {}
    for k, m, rp in allv:
        for kk, desc in known:
            if (kk.endswith("*") and k.startswith(kk[:-1])) or kk == k:
                hit.setdefault(kk, (desc, 0))
                hit[kk] = (desc, hit[kk][1] + 1)
                break
        else:
            new.append((k, m, rp))
    for kk, desc in known:
        print("KNOWN-FINDING: property=%s %s (%d times in this run)" % (pid, desc, hit.get(kk, (0, 0))[1]))
    seen = {}
    for k, m, rp in new:
        if k in seen:
            seen[k] += 1
            continue
        seen[k] = 1
        path = os.path.join(repdir, "%s-%s.json" % (pid, re.sub(r"[^A-Za-z0-9]+", "_", k)[:60]))
        json.dump(rp, open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, path))
        print("   %s: %s" % (k, m[:1500]))
    cov = {"evaluations": evals, "distinct_nontrivial": len(distinct), "rule": cfg["rule"], "samples": samples[:8],
           "cases": ncases_total, "counters": counters, "inconclusive": inc, "build_s": round(tb, 1)}
    ev = {"property": pid, "tier": tier, "seed": seed, "level": cfg.get("level", "exploration"), "coverage": cov,
          "wall_s": round(time.time() - t0, 2), "assumptions": cfg.get("assumptions", []),
          "violations": [{"key": k, "message": m[:800], "replay": rp} for k, m, rp in new][:20]}
    if cfg.get("family"):
        ev["coverage"]["monitor"] = cfg["family"]
    json.dump(ev, open(os.path.join(HERE, "evidence", pid + ".json"), "w"), indent=1)
    if errors and not new:
        print("ERROR: %s" % errors[0])
        return 2
    if new:
        return 1
    # a run that observed (almost) nothing decides nothing
    need = c.get("min_evals", 1)
    if evals < need or not distinct:
        print("ERROR: only %d evaluations observed (expected at least %d)" % (evals, need))
        return 2
    for k, mn in cfg.get("require", {}).items():
        if counters.get(k, 0) < mn:
            print("ERROR: the workload reached '%s' only %d times (expected at least %d)" % (k, counters.get(k, 0), mn))
            return 2
    print("OK property=%s tier=%s seed=%d cases=%d evaluations=%d distinct=%d inconclusive=%s wall=%.1fs" % (pid, tier, seed, ncases_total, evals, len(distinct), inc or 0, time.time() - t0))
    return 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except KeyboardInterrupt:
        sys.exit(2)
