"""Model-based checking: explore a specification with TLC, then walk the state graph
in the real code and compare every answer, request and observable state.

A *family* says how to run events on the code: it has
  make(P, seed, variant) -> an executor with do(event), view(), err
  judge(exp, got)        -> None or a text saying what differs
  events/labels are JSON.
"""
import json
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import tempfile
import time
import traceback

import tlc

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "out")
BIG = re.compile(r"(?<![\d\w])-?\d{4,}")


def mask(text):
    return BIG.sub("#", text)


class Graph:
    """States by number; per state the file offset of its line and (label, target) of
    its events.  Edges that leave the state as it is have target -1."""

    def __init__(self, path):
        self.path = path
        self.fp = open(path, "wb")
        self.num = {}          # key -> number
        self.off = []          # number -> (offset, length)
        self.edges = []        # number -> [(label id, target number)]
        self.labels = {}
        self.P = None
        self.init = None
        self.pending = []      # lines whose targets are not known yet
        self.pos = 0

    def line(self, text):
        tag, body = text[:2], text[2:]
        if tag == "@P":
            self.P = json.loads(body)
            return
        d = json.loads(body)
        k = tlc.key(d["s"])
        if k in self.num and self.off[self.num[k]] is not None:
            return
        n = self.number(k)
        es = []
        for e in d["E"]:
            g = e.pop("g")
            t = self.number(tlc.key(g[0])) if g else -1
            e["g"] = t
            lab = mask(json.dumps(e["e"], sort_keys=True)) + e["out"]
            es.append((self.labels.setdefault(hash(lab), len(self.labels)), t))
        if self.init is None:
            self.init = n
        data = json.dumps({"v": d["v"], "E": d["E"]}).encode()
        self.fp.write(data)
        self.off[n] = (self.pos, len(data))
        self.pos += len(data)
        self.edges[n] = es

    def number(self, k):
        n = self.num.get(k)
        if n is None:
            n = self.num[k] = len(self.off)
            self.off.append(None)
            self.edges.append(())
        return n

    def finish(self):
        self.fp.close()
        self.num = None
        # distance and predecessors from the initial state
        self.dist = {self.init: 0}
        self.pred = {}
        q = [self.init]
        for a in q:
            for j, (_, t) in enumerate(self.edges[a]):
                if t < 0:
                    continue
                if t not in self.dist:
                    self.dist[t] = self.dist[a] + 1
                    q.append(t)
                if self.dist[t] == self.dist[a] + 1:
                    p = self.pred.setdefault(t, [])
                    if len(p) < 12:
                        p.append((a, j))
        self.nedges = sum(len(x) for x in self.edges)
        missing = [n for n in self.dist if self.off[n] is None]
        if missing:
            raise RuntimeError("the specification's output lacks %d states" % len(missing))

    def route(self, n, rng):
        out = []
        while n != self.init:
            a, j = rng.choice(self.pred[n])
            out.append((a, j))
            n = a
        return out[::-1]

    def node(self, n, fp, cache={}):
        k = self.path, n
        if k not in cache:
            if len(cache) > 3000:
                cache.clear()
            o, ln = self.off[n]
            fp.seek(o)
            cache[k] = json.loads(fp.read(ln))
        return cache[k]


# ------------------------------------------------------------------ comparison
def norm(x):
    """TLC writes empty functions and sequences alike"""
    if isinstance(x, dict):
        return {k: norm(v) for k, v in x.items()} if x else []
    if isinstance(x, (list, tuple)):
        return [norm(v) for v in x]
    return x


def diff(a, b, where=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in sorted(set(a) | set(b), key=str):
            if k not in a or k not in b:
                return "%s.%s: %r expected, %r observed" % (where, k, a.get(k, "nothing"), b.get(k, "nothing"))
            d = diff(a[k], b[k], "%s.%s" % (where, k))
            if d:
                return d
        return None
    if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            d = diff(x, y, "%s[%d]" % (where, i + 1))
            if d:
                return d
        return None
    return None if a == b and type(a) == type(b) else "%s: %r expected, %r observed" % (where, a, b)


def judge(exp, got):
    o, g = exp["out"], got["out"]
    if o == "ok":
        if g != "ok":
            return "refused, but should have succeeded"
    elif g == "ok":
        return "succeeded, but should have been refused (%s)" % o
    elif o == "exc" and not exp["wire"] and not exp.get("aw") and g != "exc":
        return "should have raised an exception"
    if o == "ok":
        d = diff(norm(exp["res"]), norm(got["res"]), "result")
        if d:
            return d
    if not exp.get("aw"):
        d = diff(norm(exp["wire"]), norm(got["wire"]), "requests")
        if d:
            return d
    extra = [i for i in got["changed"] if i not in exp["touch"]]
    if extra:
        return "session(s) %s changed, which this call is not about" % extra
    return None


# --------------------------------------------------------------------- walking
class Stop(Exception):
    pass


class TooLong(BaseException):
    pass


class limit:
    """no call takes this long"""

    def __enter__(self):
        signal.signal(signal.SIGALRM, self.ring)
        signal.alarm(30)

    def __exit__(self, *_):
        signal.alarm(0)

    @staticmethod
    def ring(*_):
        raise TooLong("no answer in 30 s")


def short(err):
    return "%s: %s (%s)" % (type(err).__name__, str(err)[:300], "; ".join(
        "%s:%d" % (os.path.basename(f.filename), f.lineno) for f in traceback.extract_tb(err.__traceback__)[-3:]))


class Walker:
    def __init__(self, fam, P, seed):
        self.fam, self.P = fam, P
        self.rng = random.Random(seed)
        self.steps = self.runs = 0
        self.bad = []

    def end(self):
        f = getattr(getattr(self, "ex", None), "close", None)
        if f:
            f()

    def start(self, view):
        self.end()
        self.seed = self.rng.randrange(1 << 40)
        self.trace = []
        self.runs += 1
        self.ex = None
        try:
            with limit():
                self.ex = self.fam.make(self.P, self.seed, None)
                d = diff(norm(view), norm(self.ex.view()), "state")
        except (Exception, TooLong) as err:
            d = "failed at the start: " + short(err)
        if d:
            self.report({"t": "init"}, d, {})
            raise Stop()

    def step(self, edge, view):
        """edge: what the specification says; view: the state after it"""
        ev = edge["e"]
        self.steps += 1
        got = {}
        try:
            with limit():
                got = self.ex.do(ev)
                d = getattr(self.fam, "judge", judge)(edge, got)
                if not d:
                    d = diff(norm(view), norm(self.ex.view()), "state after")
        except (Exception, TooLong) as err:
            d = "failed in a way that cannot be judged: " + short(err)
        self.trace.append({"edge": {k: x for k, x in edge.items() if k != "g"}, "view": view})
        if d:
            err = getattr(self.ex, "err", None)
            self.report(ev, d, got, repr(err) if err else "")
            raise Stop()

    def report(self, ev, why, got, err=""):
        self.bad.append({"why": why, "event": ev, "got": got, "error": err, "P": self.P, "seed": self.seed,
                         "family": self.fam.NAME, "trace": list(self.trace)})


def worker(w, nw, g, fam, seed, limit_steps, deadline, full, q):
    try:
        rng = random.Random("%s-%s" % (seed, w))
        W = Walker(fam, g.P, rng.random())
        fp = open(g.path, "rb")
        # my share of the transitions, a representative of every label first
        mine = []
        firsts = {}
        for n in g.dist:
            for j, (lab, t) in enumerate(g.edges[n]):
                if lab % nw == w:
                    firsts.setdefault(lab, []).append((n, j))
                if (n * 31 + j) % nw == w:
                    mine.append((n, j))
        head = []
        for lab in sorted(firsts):
            c = firsts[lab]
            head += rng.sample(c, min(len(c), 3))
        head.sort(key=lambda x: rng.random())
        rng.shuffle(mine)
        # enabled transitions that leave a state as it is can be run on the spot
        left = {}
        for n, j in mine:
            left.setdefault(n, set()).add(j)
        done = set()
        sample = []

        def loops(n, cap):
            es = g.edges[n]
            todo = [j for j in left.get(n, ()) if es[j][1] < 0 and (n, j) not in done]
            rng.shuffle(todo)
            for j in todo[:cap]:
                d = g.node(n, fp)
                W.step(d["E"][j], d["v"])
                done.add((n, j))

        def run(target):
            n, j = target
            W.start(g.node(g.init, fp)["v"])
            loops(g.init, 3)
            for a, i in g.route(n, rng):
                t = g.edges[a][i][1]
                W.step(g.node(a, fp)["E"][i], g.node(t, fp)["v"])
                done.add((a, i))
                loops(t, 4)
            nxt = j
            a = n
            # another history, with other texts and set-ups, is worth more than an endless one
            most = len(W.trace) + rng.choice((10, 40, 120, 400, 1200))
            while True:
                loops(a, 1000 if full else 40)
                t = g.edges[a][nxt][1]
                W.step(g.node(a, fp)["E"][nxt], g.node(t if t >= 0 else a, fp)["v"])
                done.add((a, nxt))
                a = t if t >= 0 else a
                # go on as long as there is something new
                c = [x for x in left.get(a, ()) if (a, x) not in done]
                if len(W.trace) > most:
                    return
                if not c:
                    c = [x for x, (_, y) in enumerate(g.edges[a]) if y >= 0]
                    if not c or rng.random() < 0.3:
                        loops(a, 1000 if full else 40)
                        return
                nxt = rng.choice(c)

        why = "complete"
        covered = 0
        targets = head + mine
        if limit_steps:            # again, with other strings and set-ups
            for _ in range(2 if len(mine) > 1000 else 12):
                again = list(mine)
                rng.shuffle(again)
                targets += [None] + again
        for target in targets:
            if target is None:
                covered = max(covered, len(done.intersection(mine)))
                done = set()
                continue
            if target in done:
                continue
            if time.monotonic() > deadline:
                why = "time"
                break
            if limit_steps and W.steps >= limit_steps:
                why = "limit"
                break
            try:
                run(target)
            except Stop:
                if len(W.bad) >= 3:
                    why = "violations"
                    break
            if len(sample) < 1 and W.steps > 3:
                sample.append([t["edge"]["e"] for t in W.trace])
        W.end()
        q.put({"w": w, "steps": W.steps, "runs": W.runs, "done": max(covered, len(done.intersection(mine))), "bad": W.bad, "why": why, "sample": sample})
    except BaseException:
        q.put({"w": w, "crash": traceback.format_exc()})


def replay_graph(g, fam, seed, limit_steps, deadline, full, nw=8):
    getattr(fam, "warm", lambda: None)()
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    ps = [ctx.Process(target=worker, args=(w, nw, g, fam, seed, limit_steps // nw if limit_steps else 0, deadline, full,
                                           q)) for w in range(nw)]
    return gather(ps, q)


def gather(ps, q):
    for p in ps:
        p.start()
    rs = []
    import queue as _q
    while len(rs) < len(ps):
        try:
            rs.append(q.get(timeout=5))
        except _q.Empty:
            if any(p.exitcode not in (None, 0) for p in ps):
                raise RuntimeError("a replay process died")
    for p in ps:
        p.join()
    for r in rs:
        if "crash" in r:
            raise RuntimeError("replay failed:\n" + r["crash"])
    return rs


def explore(fam, consts, invariants, properties, seed, limit_steps=0, seconds=300, full=False, tlc_timeout=600,
            deadline=None):
    """One specification configuration: TLC and replay.  Returns a result dict."""
    t0 = time.monotonic()
    fd, path = tempfile.mkstemp(prefix="graph-")
    os.close(fd)
    try:
        g = Graph(path)
        st = tlc.run(fam.MODULE, {**fam.CONSTS, **consts, "Emit": True}, invariants=list(invariants) + ["EmitState"],
                     properties=properties, view=fam.VIEW, constraint=fam.CONSTRAINT, timeout=tlc_timeout,
                     on_line=g.line)
        if not st["ok"]:
            raise RuntimeError("TLC: " + "\n".join(st["tail"][-40:]))
        g.finish()
        t1 = time.monotonic()
        dl = t1 + seconds
        if deadline:
            dl = min(dl, deadline)
        rs = replay_graph(g, fam, seed, limit_steps, dl, full)
        bad = sum((r["bad"] for r in rs), [])
        return {"consts": consts, "states": st["distinct"], "transitions": g.nedges, "generated": st["generated"],
                "depth": st["depth"], "labels": len(g.labels), "steps": sum(r["steps"] for r in rs),
                "runs": sum(r["runs"] for r in rs), "covered": sum(r["done"] for r in rs),
                "why": sorted({r["why"] for r in rs}), "bad": bad, "tlc_s": round(t1 - t0, 1),
                "replay_s": round(time.monotonic() - t1, 1), "sample": sum((r["sample"] for r in rs), [])[:2]}
    finally:
        os.unlink(path)


# --------------------------------------------------------------- random histories
def sim_worker(w, fam, consts, seed, num, depth, deadline, invariants, q):
    try:
        rng = random.Random("sim-%s-%s" % (seed, w))
        W = {"w": None, "dead": False, "runs": 0, "P": None}
        bad, sample = [], []
        n = {"steps": 0}

        def on_line(text):
            tag, body = text[:2], text[2:]
            if tag == "@P":
                W["P"] = json.loads(body)
                W["w"] = Walker(fam, W["P"], rng.random())
                return
            if tag == "@I":
                W["I"] = json.loads(body)
            if tag != "@S":
                return
            d = json.loads(body)
            wk = W["w"]
            if d.pop("l") == 2:
                W["dead"] = len(wk.bad) >= 3 or time.monotonic() > deadline
                if not W["dead"]:
                    try:
                        wk.start(W["I"])
                    except Stop:
                        W["dead"] = True
            if W["dead"]:
                return
            try:
                wk.step(d, d["v"])
            except Stop:
                W["dead"] = True
            if not sample and len(wk.trace) > 12:
                sample.append([t["edge"]["e"] for t in wk.trace])

        s = rng.randrange(1 << 30)
        st = tlc.run(fam.SIM, {**fam.CONSTS, **consts, **fam.SIMCONSTS, "Emit": True}, invariants=list(invariants) + ["EmitStep"], spec=fam.SIMSPEC, workers=1,
                     timeout=max(10, deadline - time.monotonic() + 30), on_line=on_line,
                     args=["-simulate", "num=%d" % num, "-depth", str(depth), "-seed", str(s)], mem="1500m")
        wk = W["w"]
        if wk is None or (not st["ok"] and st["rc"] not in (0, -9)):
            raise RuntimeError("TLC: " + "\n".join(st["tail"][-40:]))
        wk.end()
        q.put({"w": w, "steps": wk.steps, "runs": wk.runs, "bad": wk.bad, "sample": sample,
               "generated": st["generated"]})
    except BaseException:
        q.put({"w": w, "crash": traceback.format_exc()})


def simulate(fam, consts, seed, num, depth, deadline, invariants=(), nw=8):
    getattr(fam, "warm", lambda: None)()
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    t0 = time.monotonic()
    ps = [ctx.Process(target=sim_worker, args=(w, fam, consts, seed, num // nw + 1, depth, deadline, invariants, q))
          for w in range(nw)]
    rs = gather(ps, q)
    return {"consts": consts, "steps": sum(r["steps"] for r in rs), "runs": sum(r["runs"] for r in rs),
            "bad": sum((r["bad"] for r in rs), []), "s": round(time.monotonic() - t0, 1), "depth": depth,
            "sample": sum((r["sample"] for r in rs), [])[:1]}
