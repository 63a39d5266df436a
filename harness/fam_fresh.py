"""RPFresh on the real code."""
import base64
import copy
import hashlib
import json
import os
import random
import shutil
import tempfile
import uuid
from urllib.parse import urlsplit, parse_qsl

from cryptojwt.jws.jws import factory
from cryptojwt.utils import b64d

from world import Net, Clock, T0, JSON_H, rsa_key, jwks, sign
from core import BASE, rp_keyjar
from oidcrp.oidc import DEFAULT_SERVICES
from oidcrp.cookie import CookieDealer
from oidcrp.rp_handler import RPHandler

NAME = "fresh"
MODULE = "RPFresh"
VIEW = "Hide"
CONSTRAINT = "InBounds"
CONSTS = {"Focus": "C29", "Wide": False, "Long": False}
INVARIANTS = ["Counted"]
PROPERTIES = ["PropC29"]
OP = "https://op.example.com"


def warm():
    rp_keyjar()
    rsa_key("op-A")


class Srv:
    symkey = None


def made_of(u):
    """what someone who knows u would try"""
    b = u.encode()
    yield u[::-1]
    yield u.swapcase()
    yield b.hex()
    yield base64.urlsafe_b64encode(b).decode()
    for h in (hashlib.md5, hashlib.sha1, hashlib.sha256, hashlib.sha384, hashlib.sha512):
        d = h(b)
        yield d.hexdigest()
        yield base64.urlsafe_b64encode(d.digest()).decode()
    for ns in (uuid.NAMESPACE_URL, uuid.NAMESPACE_DNS, uuid.NAMESPACE_OID):
        yield uuid.uuid5(ns, u).hex
        yield uuid.uuid3(ns, u).hex


def run(a, b):
    """the longest piece that two strings have at the same place"""
    n = best = 0
    for x, y in zip(a, b):
        n = n + 1 if x == y else 0
        best = max(best, n)
    return best


class FreshRun:
    def __init__(self, P, seed, variant=None):
        self.rng = random.Random(seed)
        Clock.set(T0)
        Net.reset()
        Net.on("https://*", self.serve)
        self.seen = {}
        self.told = set()
        self.tries = {}     # beginnings of what can be made of the values seen
        self.cores = []
        self.made = {k: 0 for k in ("state", "nonce", "verifier", "file", "jti", "proof", "logout", "seed")}
        self.h = {}
        self.ss = {1: [], 2: []}
        self.err = None
        self.old = os.getcwd()
        self.dir = tempfile.mkdtemp(prefix="fresh-")
        os.chdir(self.dir)

    def __del__(self):
        try:
            os.chdir(self.old)
            shutil.rmtree(self.dir, ignore_errors=True)
        except Exception:
            pass

    def new(self, kind, v):
        self.made[kind] += 1
        if not v or len(v) < 8:
            return "%r" % v
        if v in self.seen:
            return "that of %s number %d" % self.seen[v]
        self.seen[v] = (kind, self.made[kind])
        return self.guess(kind, v)

    def guess(self, kind, v):
        """can it be told from what was seen before?"""
        core = v.rsplit("/", 1)[-1].rsplit(".", 1)[0].replace("-", "") if kind in ("file", "jti", "proof") else v
        head = core[:20]
        got = self.tries.get(head) if len(core) >= 20 else next((w for x, w in self.tries.items() if x.startswith(core)), None)
        if got:
            return "made of %s number %d" % got
        for u, w in self.cores:
            if run(u, core) >= 12:
                return "like %s number %d" % w
        me = (kind, self.made.get(kind, 0))
        self.cores.append((core, me))
        for x in made_of(core):
            self.tries.setdefault(x[:20], me)
        return "new"

    def ev_set(self, ev):
        self.c = ev["c"]
        return {}

    def ev_reseed(self, ev):
        random.seed(0)
        return {}

    def ev_start(self, ev):
        c = self.c
        cfg = {"issuer": OP, "client_id": "me", "client_secret": "s" * 40, "redirect_uris": [BASE + "/cb"],
               "local_dir": os.path.join(self.dir, "requests%d" % ev["p"]), "post_logout_redirect_uris": [BASE + "/out"],
               "services": {n: copy.deepcopy(v) for n, v in DEFAULT_SERVICES.items()},
               "behaviour": {"response_types": ["code"], "scope": ["openid"], "token_endpoint_auth_method": c["auth"]},
               "provider_info": {"issuer": OP, "authorization_endpoint": OP + "/authz", "token_endpoint": OP + "/token",
                                 "userinfo_endpoint": OP + "/ui", "end_session_endpoint": OP + "/end",
                                 "dpop_signing_alg_values_supported": ["ES256"],
                                 "token_endpoint_auth_signing_alg_values_supported": ["RS256", "HS256"]}}
        cfg["services"]["end_session"] = {"class": "oidcrp.oidc.end_session.EndSession"}
        ao = {}
        if c["pkce"]:
            ao["pkce"] = {"function": "oidcrp.oauth2.add_on.pkce.add_support",
                          "kwargs": {"code_challenge_length": 64, "code_challenge_method": c["pkce"]}}
        if c["dpop"]:
            ao["dpop"] = {"function": "oidcrp.oauth2.add_on.dpop.add_support",
                          "kwargs": {"signing_algorithms": ["ES256"]}}
        if ao:
            cfg["add_ons"] = ao
        h = self.h[ev["p"]] = RPHandler(BASE, client_configs={OP: cfg}, keyjar=rp_keyjar())
        s = Srv()
        CookieDealer(s)
        r = self.new("seed", h.hash_seed.decode("latin1") if isinstance(h.hash_seed, bytes) else str(h.hash_seed))
        cs = s.seed.decode("latin1")
        if r == "new" and cs in self.seen:
            r = "cookie seed is that of %s number %d" % self.seen[cs]
        elif r == "new":
            r = self.guess("cookie seed", cs)
        self.seen[cs] = ("cookie seed", ev["p"])
        return {"seed": r}

    def rp(self, p):
        return self.h[p].issuer2rp[OP]

    def inside(self, jwt):
        return factory(jwt).jwt.payload()

    def ev_begin(self, ev):
        b = self.h[ev["p"]].begin(OP, behaviour_args={"request_param": "request_uri"} if self.c["ref"] else None)
        if not self.ss[ev["p"]]:
            self.rp(ev["p"]).client_get("service_context").keyjar.import_jwks_as_json(jwks(rsa_key("op-A")), OP)
        q = dict(parse_qsl(urlsplit(b["url"]).query))
        res = {}
        if self.c["ref"]:
            u = q["request_uri"]
            res["file"] = self.new("file", u)
            q = self.inside(open(os.path.join(self.dir, "requests%d" % ev["p"], u.rsplit("/", 1)[1])).read())
        if q["state"] != b["state"]:
            return "state %r isn't the one sent" % b["state"]
        res["state"] = self.new("state", q["state"])
        res["nonce"] = self.new("nonce", q["nonce"])
        if self.c["pkce"]:
            res["verifier"] = self.new("verifier", q["code_challenge"])
        self.ss[ev["p"]].append((q["state"], q["nonce"]))
        return res

    def serve(self, q):
        if q.url == OP + "/token":
            self.asked = q
            return 200, JSON_H, json.dumps({"access_token": "at", "token_type": "Bearer", "id_token": sign(
                {"iss": OP, "sub": "joe", "aud": ["me"], "exp": T0 + 600, "iat": T0, "nonce": self.nonce}, "RS256",
                rsa_key("op-A"))})
        if q.url == OP + "/ui":
            return 200, JSON_H, json.dumps({"sub": "joe"})
        return 404, {}, ""

    def ev_finish(self, ev):
        st, self.nonce = self.ss[ev["p"]][ev["i"] - 1]
        self.h[ev["p"]].finalize(OP, {"state": st, "code": "c"})
        f = dict(parse_qsl(self.asked.body))
        res = {}
        if self.c["auth"] != "client_secret_basic":
            res["jti"] = self.new("jti", self.inside(f["client_assertion"]).get("jti"))
        if self.c["dpop"]:
            res["proof"] = self.new("proof", self.inside(self.asked.headers["dpop"]).get("jti"))
        if self.c["pkce"] and f["code_verifier"] in self.seen:
            return "a verifier that was seen before"
        if self.c["pkce"]:
            r = self.guess("revealed verifier", f["code_verifier"]) if f["code_verifier"] not in self.told else "new"
            self.told.add(f["code_verifier"])
            if r != "new":
                return "the verifier is " + r
        return res

    def ev_logout(self, ev):
        u = self.h[ev["p"]].logout(self.ss[ev["p"]][ev["i"] - 1][0])["url"]
        return {"logout": self.new("logout", dict(parse_qsl(urlsplit(u).query)).get("state"))}

    def do(self, ev):
        self.err = None
        try:
            return {"out": "ok", "res": getattr(self, "ev_" + ev["t"])(ev), "wire": [], "changed": []}
        except Exception as e:
            self.err = e
            return {"out": "exc", "res": {}, "wire": [], "changed": []}

    def view(self):
        return {"n": dict(self.made)}


def make(P, seed, variant):
    return FreshRun(P, seed, variant)
