"""RPClaims on the real code."""
import copy
import json
import random
from urllib.parse import urlsplit, parse_qs

from cryptojwt.utils import b64e
from cryptojwt.jwk.hmac import SYMKey
import requests

from world import Net, Clock, T0, JSON_H, rsa_key, ec_key, jwks, sign
from core import BASE, rp_keyjar
from oidcmsg.oidc import OpenIDSchema
from oidcrp.oidc import DEFAULT_SERVICES
from oidcrp.rp_handler import RPHandler
import mbt

NAME = "claims"
MODULE = "RPClaims"
VIEW = "Hide"
CONSTRAINT = "InBounds"
CONSTS = {"Focus": "C24", "Wide": False, "Long": False}
INVARIANTS = []
PROPERTIES = ["PropC24"]

OP = "https://op.example.com"
NAMES = ["name", "nickname", "email", "phone_number", "profile", "payment_info", "credit_score", "eye_color", "address",
         "shipping_address", "https://example.com/claim", "updated_at", "given_name", "member:of"]
NORES = {"cl": {"c1": "", "c2": "", "c3": ""}, "sub": "", "more": False, "soft": False}
# what a source may add that isn't asked for
MORE = {"sub": "mallory", "family_name": "Mallory", "admin": True, "iss": None, "_claim_names": {"c": "s1"},
        "_claim_sources": {"s9": {"endpoint": "https://x.example.com"}}, "website": "https://mallory.example.com"}


def warm():
    rp_keyjar()
    for n in ("op-A", "src1", "src2", "stranger"):
        rsa_key(n)
        ec_key(n)


class ClaimsRun:
    def __init__(self, P, seed, variant=None):
        self.rng = r = random.Random(seed)
        Clock.set(T0)
        Net.reset()
        Net.on("https://*", self.serve)
        self.n = 0
        self.room = P["room"]
        self.kept = []          # [userinfo, description, copy]
        self.names = dict(zip(("c1", "c2", "c3"), r.sample(NAMES, 3)))
        self.src_name = dict(zip(("s1", "s2", "sx"), r.choice([("src1", "src2", "src3"), ("a", "ab", "abc"), ("2", "1", "3"),
                                                               ("JWT", "endpoint", "sub")])))
        self.issuer = {"s1": "https://claims.example.com", "s2": "https://other.example.com/c"}
        self.signed_ui = r.random() < .3
        cfg = {"issuer": OP, "client_id": "me", "client_secret": "s" * 40, "redirect_uris": [BASE + "/cb"],
               "services": {n: copy.deepcopy(v) for n, v in DEFAULT_SERVICES.items()},
               "behaviour": {"response_types": ["code"], "scope": ["openid"]},
               "client_preferences": {"response_types": ["code"], "scope": ["openid"]},
               "provider_info": {"issuer": OP, "authorization_endpoint": OP + "/authz", "token_endpoint": OP + "/token",
                                 "userinfo_endpoint": OP + "/ui"}}
        self.h = RPHandler(BASE, client_configs={OP: cfg}, keyjar=rp_keyjar())
        self.h.begin(OP)
        self.rp = self.h.issuer2rp[OP]
        kj = self.rp.client_get("service_context").keyjar
        kj.import_jwks_as_json(jwks(rsa_key("op-A"), ec_key("op-A")), OP)
        kj.import_jwks_as_json(jwks(rsa_key("src1"), ec_key("src1")), self.issuer["s1"])
        kj.import_jwks_as_json(jwks(rsa_key("src2"), ec_key("src2")), self.issuer["s2"])
        self.err = None

    def value(self, c, who):
        """the value of claim c from somebody"""
        name = self.names[c]
        n = {"op": 1, "s1": 2, "s2": 3}[who]
        if name == "updated_at":
            return 1000 + n
        if "address" in name:
            return {"street_address": "%s street" % who, "country": "X"}
        if name == "credit_score":
            return 600 + n
        return "%s of %s" % (c, who)

    def who(self, c, d):
        if self.names[c] not in d:
            return ""
        v = d[self.names[c]]
        for w in ("op", "s1", "s2"):
            x = self.value(c, w)
            if (v.to_dict() if hasattr(v, "to_dict") else v) == x:
                return w
        return "?%r" % (v,)

    def source_claims(self, x, u):
        r = self.rng
        d = {}
        for c, name in self.names.items():
            if u["from"][c] == x or r.random() < .7:
                d[name] = self.value(c, x)
        for k, v in MORE.items():
            if v is not None and k not in d and r.random() < .4:
                d[k] = v
        if u["sub"] == x:
            d["sub"] = "mallory"
        return d

    def token(self, x, how, u):
        r = self.rng
        other = {"s1": "s2", "s2": "s1"}[x]
        d = self.source_claims(x, u)
        iss = OP if how == "op" else self.issuer[x]
        own = {"s1": "src1", "s2": "src2"}[x]
        mk = r.choice([(rsa_key, "RS256"), (ec_key, "ES256")])
        if how == "unknown":
            iss = r.choice(["https://stranger.example.com", self.issuer[x] + "/"])
        d["iss"] = iss
        if r.random() < .5:
            d["iat"] = T0
        k = mk[0]({"op": "op-A", "unknown": "stranger"}.get(how, own))
        hdr = {}
        if how == "forged":
            k = copy.copy(mk[0]("stranger"))
            k.kid = own
        elif how == "nokid":
            k = copy.copy(mk[0]("stranger"))
            k.kid = ""
        elif how == "swapped":
            # signed by the other source
            k = mk[0]({"s1": "src2", "s2": "src1"}[x])
        if how in ("ok", "op", "unknown", "forged", "nokid", "swapped"):
            return sign(d, mk[1], k)
        if how == "none":
            return sign(d, "none", None)
        if how == "plain":
            return json.dumps(d)
        if how == "garbage":
            return r.choice(["", "x", "a.b", "a.b.c", "....", "\u20ac"])
        if how == "pubmac":
            return sign(d, "HS256", SYMKey(key=json.dumps(rsa_key(own).serialize(False))[:60], kid=own))
        good = sign(d, mk[1], mk[0](own)).split(".")
        if how == "nonesig":
            # unsigned, but for the looks of it
            h = b64e(json.dumps({"alg": r.choice(["none", "None", "NONE"]), "kid": own}).encode()).decode()
            return ".".join([h, good[1], r.choice(["", good[2]])])
        d["x"] = 1
        return ".".join([good[0], b64e(json.dumps(d).encode()).decode(), good[2]])

    def response(self, u):
        r = self.rng
        d = {"sub": "joe"}
        for c, w in u["from"].items():
            if w == "op":
                d[self.names[c]] = self.value(c, "op")
        names = {self.names[c]: self.src_name[w] for c, w in u["from"].items() if w in self.src_name}
        if u["sub"]:
            names["sub"] = self.src_name[u["sub"]]
        srcs = {}
        for x in ("s1", "s2"):
            k = u["src"][x]
            if k["kind"] == "agg":
                srcs[self.src_name[x]] = {"JWT": self.token(x, k["how"], u)}
            elif k["kind"] == "dist":
                e = {"endpoint": "https://%s.claims.example.net/%d" % (x, self.n)}
                if k["how"] == "token":
                    e["access_token"] = "token-of-%s-%d" % (x, self.n)
                srcs[self.src_name[x]] = e
        if names or srcs or r.random() < .3:
            d["_claim_names"] = names
            d["_claim_sources"] = srcs
        return d

    # --------------------------------------------------------------- network
    def serve(self, q):
        u = urlsplit(q.url)
        if q.url == OP + "/token":
            idt = sign({"iss": OP, "sub": "joe", "aud": ["me"], "exp": T0 + 600, "iat": T0, "nonce": self.nonce}, "RS256", rsa_key("op-A"))
            return 200, JSON_H, json.dumps({"access_token": "at-%d" % self.n, "token_type": "Bearer", "id_token": idt})
        if q.url == OP + "/ui":
            if self.signed_ui:
                return 200, {"content-type": "application/jwt"}, sign(dict(self.doc, iss=OP, aud=["me"]), "RS256", rsa_key("op-A"))
            return 200, JSON_H, json.dumps(self.doc)
        if u.netloc.endswith(".claims.example.net"):
            return self.source(u.netloc[:2])
        return 404, {}, ""

    def source(self, x):
        r, a = self.rng, self.ans[x]
        d = self.source_claims(x, self.u)
        body = json.dumps(d)
        if a in ("ok", "ok2"):
            return 200, JSON_H if a == "ok" else {"content-type": "application/json; charset=utf-8"}, body
        if a == "neterr":
            raise r.choice([requests.ConnectionError("refused"), requests.Timeout("late")])
        if a == "404":
            return r.choice([400, 401, 403, 404]), JSON_H, body
        if a == "500":
            return r.choice([500, 502]), JSON_H, body
        if a == "302":
            return r.choice([301, 302, 303, 307]), dict(JSON_H, location="https://x.example.com/"), body
        if a == "garbage":
            return 200, JSON_H, r.choice([body[:-1], "", "<html/>"])
        if a == "list":
            return 200, JSON_H, r.choice(["[]", "[%s]" % body, '"x"', "1"])
        raise KeyError(a)

    # ---------------------------------------------------------------- events
    def result(self, d, u):
        cl = {c: self.who(c, d) for c in self.names}
        known = set(self.names.values()) | {"sub", "_claim_names", "_claim_sources", "iss", "aud"}
        return {"cl": cl, "sub": "op" if d["sub"] == "joe" else d["sub"], "more": sorted(set(d.keys()) - known) or False, "soft": False}

    def ev_ui(self, ev):
        u = ev["u"]
        self.n += 1
        self.doc = self.response(u)
        b = self.h.begin(OP)
        f = parse_qs(urlsplit(b["url"]).query)
        self.nonce = f["nonce"][0]
        got = self.h.finalize(OP, {"state": b["state"], "code": "c%d" % self.n})
        if "error" in got:
            return "exc", NORES
        ui = got["userinfo"]
        res = self.result(ui, u)
        stored = json.loads(self.rp.client_get("service_context").state.get_state(b["state"])["user_info"]) \
            if isinstance(self.rp.client_get("service_context").state.get_state(b["state"])["user_info"], str) else None
        if stored is not None and self.result(stored, u)["cl"] != res["cl"]:
            res["more"] = "stored: %r" % stored
        srcs = u["src"].values()
        if any(k["kind"] == "dist" for k in srcs) and not any(k["kind"] == "agg" and k["how"] not in ("ok", "op") for k in srcs) \
                and len(self.kept) < self.room:
            self.kept.append((OpenIDSchema(**(ui.to_dict() if hasattr(ui, "to_dict") else ui)), u))
        return "ok", res

    def ev_fetch(self, ev):
        ui, u = self.kept[ev["i"] - 1]
        ui = OpenIDSchema(**copy.deepcopy(ui.to_dict()))
        self.u, self.ans = u, ev["ans"]
        cb = (lambda url: "by-callback-" + urlsplit(url).netloc[:2]) if ev["cb"] else None
        got = self.rp.fetch_distributed_claims(ui, callback=cb) if cb or self.rng.random() < .5 else self.rp.fetch_distributed_claims(ui)
        return "ok", self.result(got, u)

    def wire(self):
        out = []
        for q in Net.take():
            u = urlsplit(q.url)
            if q.url in (OP + "/token", OP + "/ui"):
                continue
            x = u.netloc[:2]
            if not u.netloc.endswith(".claims.example.net") or q.method != "GET" or not any(
                    d["_claim_sources"].get(self.src_name[x], {}).get("endpoint") == q.url for d, _ in self.kept):
                x = "bad: %s %s" % (q.method, q.url)
            a = q.headers.get("Authorization")
            t = "none" if a is None else "own" if a == "Bearer token-of-%s-%s" % (x, u.path[1:]) else \
                "cb" if a == "Bearer by-callback-" + x else a
            out.append({"src": x, "tok": t})
        return out

    def do(self, ev):
        Net.take()
        self.err = None
        try:
            out, res = getattr(self, "ev_" + ev["t"])(ev)
        except Exception as e:
            out, res = "exc", NORES
            self.err = e
        return {"out": out, "res": res, "wire": self.wire(), "changed": []}

    def view(self):
        return {"n": len(self.kept)}


def judge(exp, got):
    if exp["res"]["soft"]:
        # one of the sources isn't acceptable: so may be the whole response
        if got["out"] == "exc":
            return None
        exp = dict(exp, res=dict(exp["res"], soft=False))
    return mbt.judge(exp, got)


def make(P, seed, variant):
    return ClaimsRun(P, seed, variant)
