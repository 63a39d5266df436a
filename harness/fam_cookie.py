"""RPCookie on the real code."""
import calendar
import random
import string
import time
from http.cookies import SimpleCookie

from world import Clock, T0
from oidcrp.cookie import make_cookie, parse_cookie, CookieDealer, InvalidCookieSign
import base64
import mbt

NAME = "cookie"
MODULE = "RPCookie"
VIEW = "Hide"
CONSTRAINT = "InBounds"
CONSTS = {"Wide": False, "Long": False}
INVARIANTS = ["InvRead"]
PROPERTIES = ["PropRead"]

NASTY = ["|", "::", "\"", "\\", ";", ",", " ", "=", "\u00e5", "\u20ac", "\U0001f600", "'", "%7C", "&", "+", "/",
         "\\073", "{", "}", "[", "0", "9", "\u00b2"]


def text(rng):
    n = rng.choice([1, 3, 8, 20, 200])
    k = rng.randrange(4)
    if k == 0:
        return "".join(rng.choice(string.ascii_letters + string.digits) for _ in range(n))
    if k == 1:
        return "".join(rng.choice(string.digits) for _ in range(n))
    if k == 2:
        return "".join(rng.choice(string.ascii_letters) for _ in range(n)) + rng.choice(NASTY) * rng.choice([1, 2, 16])
    return "".join(rng.choice(NASTY) if rng.random() < .4 else rng.choice(string.ascii_letters) for _ in range(n))


class Server:
    pass


class Cookies:
    def __init__(self, P, seed, variant=None):
        self.rng = r = random.Random(seed)
        Clock.set(T0)
        d = "".join(r.choice(string.digits) for _ in range(r.choice([1, 2, 3])))
        t2 = str(r.choice([1700000001, 7, 1463043535]))
        a = text(r)
        while a in ("7", d + "7") or a + d in ("7", d + "7"):
            a = text(r)
        b = text(r)
        while b in (a, a + d, "7", d + "7"):
            b += "b"
        if a == "" or r.random() < .2:
            a = "x|%s|%s" % (t2, "y" * 64)
            b = a + "z"
        if r.random() < .2:     # looks as what is put between value, time and type
            b = r.choice(["x::%d::sso", "::%d::", "x::%d::x", "%d::s:o"]) % int(T0)
        self.loads = {1: a, 2: b, 3: "", 4: a + d}
        self.times = {1: d + t2, 2: t2}
        if r.random() < .2:
            self.times = {1: "a" + d + t2, 2: "t-" + t2}
        self.types = {1: "sso", 2: r.choice(["", "x", "ss", "sso:", "s:o", ":", "sso|"])}
        self.seeds = {1: r.choice([b"0123456789abcdef", bytes(r.randrange(256) for _ in range(16)), "text-seed-0123456"]),
                      2: b"fedcba9876543210"}
        # keys that differ in one place only
        k = self.like(r, r.choice([16, 24, 32, 48, 64]))
        if r.random() < .5:
            self.seeds = {1: k[0], 2: k[1]}
        self.ekeys = {0: r.choice([None, b"", ""]), 1: r.choice([b"k" * 16, bytes(r.randrange(256) for _ in range(32)), "k" * 16]),
                      2: b"k" * 15 + b"K"}
        if r.random() < .5:
            k = self.like(r, r.choice([16, 24, 32]))
            self.ekeys = {0: r.choice([None, b"", ""]), 1: k[0], 2: k[1]}
        self.name = r.choice(["pyoidc", "oidcop", "a", "x-y_z", "C0okie"])
        self.jar = []
        self.dealers = {}
        k2, k3 = self.like(r, r.choice([16, 32, 40])), self.like(r, r.choice([16, 24, 32]))
        for n in (1, 2, 3):
            s = Server()
            s.seed = [self.seeds[1], k2[0], k2[1]][n - 1]
            s.symkey = {1: k3[0], 2: k3[1], 3: None}[n]
            s.cookie_name = self.name
            if r.random() < .5:
                s.cookie_domain = "rp.example.org"
            if r.random() < .5:
                s.cookie_path = "/oidc"
            self.dealers[n] = CookieDealer(s)
        self.err = None

    @staticmethod
    def like(r, n):
        """two keys of n bytes that differ in one byte, at the end, at the start or anywhere"""
        a = bytes(r.randrange(256) for _ in range(n))
        i = r.choice([n - 1, n - 1, 0, r.randrange(n)])
        return a, a[:i] + bytes([a[i] ^ (1 << r.randrange(8))]) + a[i + 1:]

    # -- what was made, as parts
    def attributes(self, tup, life=0, domain="", path="", secure=True, http_only=True, same_site=""):
        """what is said about the cookie is what was asked for; life: minutes, 0: as long as the browser is open"""
        c = SimpleCookie(tup[1])[self.name]
        exp = c["expires"]
        if life:
            t = calendar.timegm(time.strptime(exp, "%a, %d-%b-%Y %H:%M:%S GMT")) if exp else 0
            ok = (t <= T0 if life < 0 else t == T0 + life * 60) and bool(t)
        else:
            ok = not exp
        return ok and not c["max-age"] and (c["domain"], c["path"], bool(c["secure"]), bool(c["httponly"]), c["samesite"]) == (
            domain, path, secure, http_only, same_site)

    def add(self, tup, enc):
        assert tup[0] == "Set-Cookie"
        c = SimpleCookie(tup[1])
        if list(c) != [self.name]:
            raise ValueError("a cookie of that name is expected: %r" % (list(c),))
        v = c[self.name].value
        parts = v.split("|") if enc else v.rsplit("|", 2)
        self.jar.append({"whole": tup[1], "parts": parts, "enc": enc})

    def alter(self, parts, how):
        r = self.rng
        p = list(parts)

        def at(n):
            return min(n, len(p)) - 1
        if how == "none":
            return p
        if how == "blank":
            return [""]
        if how == "shift":
            if p[0] and not ("|" == p[0][-1]):
                p[1] = p[0][-1] + p[1]
                p[0] = p[0][:-1]
            elif p[1]:
                p[0], p[1] = p[0] + p[1][0], p[1][1:]
        elif how == "unshift":
            p[0], p[1] = p[0] + p[1][:1], p[1][1:]
        elif how == "swapcase":
            i = len(p) - 1
            p[i] = p[i].swapcase()
        else:
            i = at(int(how[-1]))
            kind = how[:-1]
            x = p[i]
            if kind == "flip" and x:
                j = r.randrange(max(1, len(x) - 3))
                p[i] = x[:j] + ("A" if x[j] != "A" else "B") + x[j + 1:]
            elif kind == "cut" and x:
                p[i] = r.choice([x[1:], x[:-4], x[:len(x) // 2]])
            elif kind == "more":
                p[i] = r.choice([x + "A", "A" + x, x + "AAAA", x + x + "A", "0" + x])
            elif kind == "empty":
                p[i] = ""
            elif kind == "junk":
                p[i] = r.choice(["!!!", "=", "abc", "AAAA", "\u20ac"])
            elif kind == "uni":
                p[i] = r.choice([x + "\u00e9", x[:-1] + "\u0131", "\u2028" + x, x + "\u00b2"])
            elif kind == "sep":
                p[i] = r.choice(["|" + x, x + "|", x[:2] + "|" + x[2:]])
        if p == list(parts):
            p[-1] = p[-1] + "A"
        return p

    def header(self, parts, whole=None):
        r = self.rng
        v = "|".join(parts)
        c = SimpleCookie()
        c[self.name] = v
        h = c.output(header="").strip()
        if whole and r.random() < .4:
            return whole
        if r.random() < .3:
            h = r.choice(["other=1; ", "z%s=%s; " % (self.name, "q"), "%sz=abc|1|2; " % self.name]) + h
        if r.random() < .3:
            h = h + r.choice(["; other=2", "; Path=/", "; x%s=1" % self.name])
        return h

    def built(self, e):
        src = e["src"]
        parts = [self.jar[n - 1]["parts"][k - 1] for n, k in src]
        own = len({n for n, _ in src}) == 1 and parts == self.jar[src[0][0] - 1]["parts"]
        whole = self.jar[src[0][0] - 1]["whole"] if own and e.get("alt") == "none" else None
        return self.header(self.alter(parts, e.get("alt", "none")), whole)

    def tr(self, s, table):
        return next((k for k, x in table.items() if x == s), -1)

    def do(self, e):
        res = {"l": 0, "t": 0, "ty": 0}
        self.err = None
        try:
            out = getattr(self, "ev_" + e["t"])(e, res)
        except InvalidCookieSign as x:
            self.err = x
            out = "exc"
        except Exception as x:
            self.err = x
            out = "crash"
        return {"out": out, "res": res if out == "ok" else {}, "wire": [], "changed": []}

    def ev_make(self, e, res):
        kw = {}
        if e["ts"]:
            kw["timestamp"] = self.times[e["ts"]]
        r = self.rng
        if r.random() < .3:
            kw.update(expire=r.choice([1, 60, -1]), path="/p", domain="example.org")
        if r.random() < .3:
            kw.update(secure=False, http_only=r.random() < .5, same_site=r.choice(["", "Lax", "None"]))
        if e["ke"] or r.random() < .5:
            kw["enc_key"] = self.ekeys[e["ke"]]
        c = make_cookie(self.name, self.loads[e["l"]], self.seeds[e["ks"]], **kw)
        self.add(c, bool(e["ke"]))
        for x in ("enc_key", "timestamp"):
            kw.pop(x, None)
        return "ok" if self.attributes(c, kw.pop("expire", 0), **kw) else "attributes of " + c[1][-150:]

    def time_of(self, s):
        return 0 if s == str(T0) else self.tr(s, self.times)

    def ev_read(self, e, res, name=None):
        h = self.built(e)
        kw = {"enc_key": self.ekeys[e["ke"]]} if e["ke"] or self.rng.random() < .5 else {}
        g = parse_cookie(name or self.name, self.seeds[e["ks"]], h, **kw)
        if g is None:
            return "err"
        res["l"], res["t"] = self.tr(g[0], self.loads), self.time_of(g[1])
        return "ok"

    def ev_noname(self, e, res):
        n = self.rng.choice([self.name + "x", "x" + self.name, self.name[:-1] or "q", self.name.swapcase(), "path"])
        c = self.jar[e["src"][0][0] - 1]
        g = parse_cookie(n, self.seeds[1], c["whole"], enc_key=self.ekeys[1 if c["enc"] else 0])
        return "err" if g is None else "ok"

    def ev_deal(self, e, res):
        d = self.dealers[e["d"]]
        v = self.loads[e["l"]]
        if self.rng.random() < .2:
            v = [v]
        kw = {"cookie_name": self.name} if self.rng.random() < .5 else {}
        at = {"domain": getattr(d.srv, "cookie_domain", ""), "path": getattr(d.srv, "cookie_path", "")}
        if self.rng.random() < .1:
            c = d.delete_cookie(**kw)
            if not self.attributes(c, -1, **at):
                return "attributes of " + c[1][-150:]
        life = 5
        if self.rng.random() < .3:
            kw["ttl"] = life = self.rng.choice([0, 1, 60, 100000])
        c = d.create_cookie(v, self.types[e["ty"]], **kw)
        self.add(c, e["d"] != 3)
        return "ok" if self.attributes(c, life, **at) else "attributes of " + c[1][-150:]

    def ev_dget(self, e, res):
        g = self.dealers[e["d"]].get_cookie_value(self.built(e), self.name)
        if g is None:
            return "err"
        v, t, ty = g
        res["l"], res["t"], res["ty"] = self.tr(v, self.loads), self.time_of(t), self.tr(ty, self.types)
        return "ok"

    def view(self):
        return {"n": len(self.jar)}


def judge(exp, got):
    if got["out"] == "crash":
        return "failed with something else than an invalid-cookie error"
    if got["out"] == "exc" and exp["out"] != "ok":
        return None
    return mbt.judge(exp, got)


def make(P, seed, variant):
    return Cookies(P, seed, variant)
