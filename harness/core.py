"""Executes RPCore events on the real library and observes it.

Core(profiles, seed).do(event) -> {"out", "res", "wire", "changed"}; .view() -> the
observable state.  Only the public API, the session records and the bytes sent are
looked at.  `seed` picks everything the specification leaves open: the strings that
stand for the abstract values, static or dynamic set-up, client authentication
method, PKCE, status codes within a class, additional claims.
"""
import copy
import json
import random
import base64
import hashlib
import os
import string
from urllib.parse import urlparse, parse_qs, parse_qsl, unquote

from world import *  # noqa
from world import TAILS, off, SYMKey, Net, Clock, T0, rsa_key, ec_key, jwks, sign, JSON_H, left_hash, build_keyjar
from cryptojwt.key_jar import KeyJar
from oidcrp.rp_handler import RPHandler, backchannel_logout
from oidcrp.oidc import DEFAULT_SERVICES
from oidcmsg.oauth2 import is_error_message

BASE = "https://rp.example.com"
MISSING = -9999
EVENT = "http://schemas.openid.net/event/backchannel-logout"
_KJ = None


def rp_keyjar():
    global _KJ
    if _KJ is None:
        _KJ = build_keyjar([{"type": "RSA", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]}])
    return _KJ


def on_file(text):
    """a file with this in it"""
    d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "out")
    p = os.path.join(d, "keys-%s.json" % hashlib.sha256(text.encode()).hexdigest()[:20])
    if not os.path.exists(p):
        os.makedirs(d, exist_ok=True)
        q = "%s.%d" % (p, os.getpid())
        with open(q, "w") as f:
            f.write(text)
        os.replace(q, p)
    return p


def b64u(b):
    return base64.urlsafe_b64encode(b).decode().rstrip("=")


class Boom(Exception):
    pass


def text_chars(rng, n=10, odd=False):
    a = string.ascii_letters + string.digits + "-._~"
    if odd:
        a += "+/=&%?#: "
    core = "".join(rng.choice(a) for _ in range(n))
    return "x" + core + "y"


NO_RES = {"at": 0, "idt": 0, "sub": "", "src": "", "sess": 0, "hint": 0, "plru": 0, "ep": ""}


class Core:
    def __init__(self, P, seed=0, variant=None):
        self.P = P
        self.rng = rng = random.Random(seed)
        Clock.set(T0)
        Net.reset()
        self.v = v = variant or {}
        self.mode = v.get("mode") or rng.choice(["static", "static", "dynamic", "alias"])
        self.authn = v.get("authn") or rng.choice(["client_secret_basic", "client_secret_post",
                                                   "client_secret_jwt", "private_key_jwt"])
        self.pkce = v.get("pkce", rng.random() < 0.4)
        self.odd = v.get("odd", rng.random() < 0.4)
        # issuer names that resemble each other
        shape = v.get("shape", rng.randrange(5))
        if shape == 0:
            self.url = {"A": "https://op.example.com", "B": "https://op.example.com/b"}
        elif shape == 1:
            self.url = {"A": "https://op.example.com/t1", "B": "https://op.example.com/t"}
        elif shape == 2:
            self.url = {"A": "https://op.example.com/Acme", "B": "https://op.example.com/acme"}
        elif shape == 3:
            self.url = {"A": "https://op.example.com", "B": "https://op.example.com:8443"}
        else:
            self.url = {"A": "https://a.example.com", "B": "https://b.example.com"}
        self.url = {k: self.url[k] for k in P}
        # what is registered for ID tokens; with nothing registered the default is used
        self.alg = {k: {"RS256": v.get("alg") or rng.choice(ALGS), "any": "RS256"}.get(P[k]["alg"], P[k]["alg"]) for k in P}
        self.cid = {k: "client" + (k if shape in (0, 4) else "") for k in P}
        self.secret = {k: ("s3cret-" + k) * 6 for k in P}
        u = text_chars(rng, 6, self.odd)
        if rng.random() < 0.15:
            u += "a" * rng.choice([56, 120, 247, 400])
        self.subs = {"u1": u, "u2": "other" + u, "u1x": u + "x", "U1": u.swapcase(), "u": u[:-1],
                     "u1 ": u + " ", "": ""}
        if rng.random() < 0.3:
            self.sids = {"s1": self.subs["u1"], "s2": self.subs["u2"], "": ""}
        else:
            self.sids = {"s1": "sid-" + text_chars(rng, 5, self.odd), "s2": text_chars(rng, 5, self.odd) + "2", "": ""}
        self.rsub = {x: k for k, x in self.subs.items()}
        self.rsid = {x: k for k, x in self.sids.items()}
        self.scopes = {1: ["openid", "profile"], 2: ["openid", "email"]}
        self.uris = {k: {1: BASE + "/cb/" + k, 2: BASE + "/cb2/" + k} for k in P}
        self.plru = {k: {0: BASE + "/out/" + k, 1: self.bye(k)} for k in P}
        self.tail = {(k, n): rng.choice(TAILS) for k in P for n in ("authz", "token", "userinfo", "end")}
        self.str = {}       # abstract int -> string
        self.int = {}       # string -> abstract int
        self.sess = []      # dict(iss, state, nonce, ruri, cleared)
        self.lo = []        # logout states
        self.queue = {}     # url -> answer for the next request
        self.setup_net = set()
        # what else goes on at this RP: now and then somebody, at some moment very many, or
        # somebody while an answer is waited for
        self.crowd = v.get("crowd") or rng.choice([""] * 15 + ["some"] * 2 + ["many"] + ["during"] * 2)
        self.people = 0
        self.waiting = False
        # how many seconds a unit of the specification's time is
        self.unit = v.get("unit") or rng.choice([1, 1, 1, 1, 1, 60, 86400])
        self.build()

    # ------------------------------------------------------------------ set-up
    def ep(self, k, name):
        """an endpoint of a provider, which may have a query"""
        return self.url[k] + "/" + name + self.tail[k, name]

    def metadata(self, k):
        b = self.url[k]
        m = {"issuer": b, "authorization_endpoint": self.ep(k, "authz"), "token_endpoint": self.ep(k, "token"),
             "jwks_uri": b + "/jwks", "registration_endpoint": b + "/reg",
             "response_types_supported": ["code", "id_token", "id_token token", "code id_token", "code token",
                                          "code id_token token", "token"],
             "subject_types_supported": ["public"],
             "id_token_signing_alg_values_supported": ALGS + ["none"],
             "token_endpoint_auth_methods_supported": ["client_secret_basic", "client_secret_post",
                                                       "client_secret_jwt", "private_key_jwt"],
             "token_endpoint_auth_signing_alg_values_supported": ["HS256", "RS256", "ES256"],
             "code_challenge_methods_supported": ["S256"],
             "userinfo_endpoint": self.ep(k, "userinfo"), "end_session_endpoint": self.ep(k, "end")}
        back, front = self.rng.choice([(True, None), (True, True), (True, False), (None, True), (False, True)] if self.P[k]["sid"]
                                      else [(None, None), (None, None), (False, None), (None, False), (False, False)])
        for n, v in (("back", back), ("front", front)):
            if v is not None:
                m[n + "channel_logout_supported"] = True
                m[n + "channel_logout_session_supported"] = v
        return m

    def services(self, k):
        sv = {n: dict(c) for n, c in DEFAULT_SERVICES.items()}
        if not self.P[k]["lo"]:
            sv = {n: c for n, c in sv.items() if "EndSession" not in str(c["class"])}
        if not self.P[k]["ui"]:
            sv = {n: c for n, c in sv.items() if "UserInfo" not in str(c["class"])}
        return sv

    def bye(self, k):
        """somewhere to go after logging out that a caller names: any scheme and host"""
        return self.rng.choice([BASE + "/bye/" + k, BASE.replace("https:", "http:") + "/bye/" + k,
                                "http://localhost:8080/bye/" + k, "app.example.org:/bye/" + k,
                                "https://elsewhere.example/bye/%s?x=1&y=%%2F" % k])

    def config(self, k):
        p = self.P[k]
        c = {"issuer": self.url[k], "services": self.services(k)}
        addon = {}
        if self.pkce:
            addon["pkce"] = {"function": "oidcrp.oauth2.add_on.pkce.add_support",
                             "kwargs": {"code_challenge_length": 64, "code_challenge_method": "S256"}}
        if addon:
            c["add_ons"] = addon
        if p["sk"] != 15 or self.rng.random() < 0.5:
            c["clock_skew"] = p["sk"]       # 15 is what holds when nothing is said
        prefs = {"response_types": ["code", "id_token", "id_token token", "code id_token", "code token",
                                    "code id_token token", "token"],
                 "scope": ["openid"], "token_endpoint_auth_method": self.authn,
                 "token_endpoint_auth_signing_alg": {"client_secret_jwt": "HS256", "private_key_jwt": "RS256"}.get(
                     self.authn, "RS256")}
        if self.mode == "dynamic":
            c["client_preferences"] = prefs
            if p["alg"] != "any":
                prefs["id_token_signed_response_alg"] = self.alg[k]
            c["redirect_uris"] = [self.uris[k][1], self.uris[k][2]]
            c["post_logout_redirect_uris"] = [self.plru[k][0]]
        else:
            c["client_id"] = self.cid[k]
            c["client_secret"] = self.secret[k]
            c["redirect_uris"] = [self.uris[k][1], self.uris[k][2]]
            c["post_logout_redirect_uris"] = [self.plru[k][0]]
            c["behaviour"] = prefs
            if p["alg"] != "any":
                prefs["id_token_signed_response_alg"] = self.alg[k]
            c["provider_info"] = {x: y for x, y in self.metadata(k).items()}
            if self.given[k] == "url":
                c["provider_info"]["keys"] = {"url": {self.url[k]: self.url[k] + "/jwks"}}
            elif self.given[k] == "file":
                c["provider_info"]["keys"] = {"file": {"jwks": on_file(self.kdoc[k])}}
        return c

    def build(self):
        self.cfg = {}
        self.key = {}
        self.keys = {}
        for k in self.P:
            self.keys[k] = {"op": rsa_key("op-" + k), "op2": ec_key("op2-" + k)}
        self.kdoc = {k: jwks(self.keys[k]["op"], self.keys[k]["op2"]) for k in self.P}
        # how one comes by the keys of a provider that isn't asked for its metadata
        self.given = {k: self.rng.choice(["jar", "later", "url", "file"]) for k in self.P}
        for k in self.P:
            self.key[k] = ("op" + k) if self.mode == "alias" else self.url[k]
            self.cfg[self.key[k]] = self.config(k)
        kj = rp_keyjar()
        if self.mode != "dynamic" and "jar" in self.given.values():
            kj = KeyJar().load(kj.dump())
            for k in self.P:
                if self.given[k] == "jar":
                    kj.import_jwks_as_json(self.kdoc[k], self.url[k])
        self.given_jar = kj
        self.h = RPHandler(BASE, client_configs=copy.deepcopy(self.cfg), keyjar=kj)
        for k in self.P:
            b = self.url[k]
            Net.on(b + "/.well-known/openid-configuration",
                   lambda q, k=k: (200, JSON_H, json.dumps(self.metadata(k))))
            Net.on(b + "/jwks", lambda q, k=k: (200, JSON_H, self.kdoc[k]))
            Net.on(b + "/reg", lambda q, k=k: (201, JSON_H, json.dumps(self.register(k, q))))
            Net.on(b + "/token", lambda q, k=k: self.answer("token", k, q))
            Net.on(b + "/userinfo", lambda q, k=k: self.answer("ui", k, q))
        for k in self.P:
            self.setup_net |= {self.url[k] + "/.well-known/openid-configuration", self.url[k] + "/jwks",
                               self.url[k] + "/reg"}

    def register(self, k, q):
        d = json.loads(q.body)
        d = {x: y for x, y in d.items() if not x.startswith("id_token_")}
        if self.P[k]["alg"] != "any":
            d["id_token_signed_response_alg"] = self.alg[k]
        d["client_id"] = self.cid[k]
        d["client_secret"] = self.secret[k]
        return d

    def prepare(self, k):
        """after the first begin with k: what a static configuration leaves to the user"""
        ctx = self.ctx(k)
        if self.mode != "dynamic" and self.given[k] == "later":
            ctx.keyjar.import_jwks_as_json(self.kdoc[k], self.url[k])

    def client(self, k):
        return self.h.issuer2rp[self.url[k]]

    def by(self, k):
        """a caller may say which client it is about"""
        return {"client": self.client(k)} if self.rng.random() < .2 else {}

    def ctx(self, k):
        return self.client(k).client_get("service_context")

    # ----------------------------------------------------------------- values
    def val(self, n):
        """the string for an abstract code/token value"""
        if n not in self.str:
            s = "v%d.%s" % (n, text_chars(self.rng, 12, False))
            if self.odd:
                s += "".join(self.rng.choice("+/=&%?#:;,~ab") for _ in range(self.rng.choice([3, 9]))) + "=="
            if self.rng.random() < 0.05:
                s += "z" * self.rng.choice([300, 5000])
            self.str[n] = s
            self.int[s] = n
        return self.str[n]

    def nonce_of(self, n, i):
        if n == 0:
            return None
        if n > 0:
            return self.sess[n - 1]["nonce"] if n <= len(self.sess) else "nonesuch"
        own = self.sess[i - 1]["nonce"]
        return {-1: own + "x", -2: own.swapcase(), -3: self.sess[i - 1]["state"]}.get(n, own[:-1])

    def iss_name(self, k, how):
        b = self.url[k]
        others = [u for j, u in self.url.items() if j != k] or ["https://elsewhere.example.com"]
        return {"op": b, "self": b, "other": others[0], "slash": b + "/", "prefix": b[:-1], "suffix": b + "x",
                "case": b.replace("https", "HTTPS"), "missing": None, "none": None}[how]

    def aud_name(self, k, how):
        c = self.cid[k]
        return {"me": c, "listme": [c], "other": "someone", "me+other": [c, "someone"], "missing": None,
                "mesuffix": c + "x", "meprefix": c[:-1], "empty": []}[how]

    def sign(self, k, how, payload):
        d = {x: y for x, y in payload.items() if y is not None}
        alg = self.alg[k] if self.alg[k] != "none" else "RS256"
        fam = "ec" if alg[0] == "E" else "oct" if alg[0] == "H" else "rsa"
        right = self.right(k)
        other = {"ec": "RS256", "rsa": "ES256", "oct": "RS256"}[fam]
        if how == "op":
            return sign(d, alg, right)
        if how == "op2":
            return sign(d, other, self.keys[k]["op2" if other == "ES256" else "op"])
        if how == "evil":
            if fam == "oct":
                return sign(d, alg, SYMKey(key="evil" * 16))
            x = ("evil", fam, right.kid)
            if x not in _EV:
                e = copy.copy(rsa_key("evil") if fam == "rsa" else ec_key("evil-ec"))
                e.kid = right.kid
                _EV[x] = e
            return sign(d, alg, _EV[x])
        if how == "evilkid":
            return sign(d, alg, SYMKey(key="Evil" * 16, kid="evil")) if fam == "oct" else \
                sign(d, alg, rsa_key("evil2") if fam == "rsa" else ec_key("evil2-ec"))
        if how == "otherop":
            o = [j for j in self.P if j != k]
            if fam == "oct":
                return sign(d, alg, SYMKey(key=self.secret[o[0]] if o else "s3cret-X" * 6))
            n = "op" if fam == "rsa" else "op2"
            return sign(d, alg, self.keys[o[0]][n] if o else rsa_key("op-X") if fam == "rsa" else ec_key("op2-X"))
        if how == "rp":
            if fam == "oct":
                return sign(d, "RS256", rp_keyjar().get_signing_key("rsa", "")[0])
            return sign(d, alg, rp_keyjar().get_signing_key(fam, "")[0])
        if how == "hs":
            # the public key, which all can have, as the secret
            import hmac
            import hashlib
            pub = self.keys[k]["op2" if fam == "ec" else "op"]
            hd = {"alg": alg if fam == "oct" else "HS256", "kid": pub.kid}
            m = b64u(json.dumps(hd).encode()) + "." + b64u(json.dumps(d).encode())
            key = json.dumps(pub.serialize()).encode()
            return m + "." + b64u(hmac.new(key, m.encode(), getattr(hashlib, "sha" + hd["alg"][2:])).digest())
        if how == "none":
            return sign(d, "none", None)
        good = sign(d, alg, right).split(".")
        if how == "strip":
            return good[0] + "." + good[1] + "."
        if how == "mod":
            e = dict(d)
            e["mod"] = True
            return good[0] + "." + b64u(json.dumps(e).encode()) + "." + good[2]
        raise KeyError(how)

    def right(self, k):
        """the key for the registered algorithm"""
        a = self.alg[k][0]
        return SYMKey(key=self.secret[k]) if a == "H" else self.keys[k]["op2" if a == "E" else "op"]

    def id_token(self, k, i, t, at=None, code=None):
        now = int(Clock.now)
        alg = self.alg[k] if self.alg[k] != "none" else "RS256"
        if t["sig"] == "op2":
            alg = "RS256" if alg[0] in "EH" else "ES256"
        bits = alg[-3:]

        def hashed(how, value):
            if value is None or how == "missing":
                return None
            good = left_hash(value, "HS" + bits)
            return {"ok": good, "bad": left_hash(value + "x", "HS" + bits), "short": good[:-2],
                    "other": left_hash(value, "HS256" if bits == "512" else "HS512")}[how]

        p = {"iss": self.iss_name(k, t["iss"]), "aud": self.aud_name(k, t["aud"]),
             "sub": self.subs[t["sub"]] or None,
             "exp": None if t["exp"] == MISSING else
             now + t["exp"] * (self.unit if t["exp"] > 0 and t["exp"] >= t["iat"] else 1),
             "iat": None if t["iat"] == MISSING else now + t["iat"],
             "azp": {"none": None, "me": self.cid[k], "other": "someone"}[t["azp"]],
             "nonce": self.nonce_of(t["nonce"], i), "sid": self.sids[t["sid"]] or None,
             "at_hash": hashed(t["ath"], at), "c_hash": hashed(t["ch"], code),
             "jti": str(t["id"]), "src": "idt"}
        tok = self.sign(k, t["sig"], p)
        self.int[tok] = t["id"]
        return tok

    def states(self, n, i_hint, k):
        """the state value of an authorization response"""
        if n > 0:
            return self.sess[n - 1]["state"] if n <= len(self.sess) else "nonesuch"
        if n == 0:
            return None
        s = self.sess[self.rng.randrange(len(self.sess))] if self.sess else \
            {"state": "abc", "nonce": "def"}
        st = s["state"]
        return {-1: text_chars(self.rng, 30), -2: "__%s__" % s["nonce"], -3: "ref%sref" % st,
                -4: "==%s==" % self.subs["u1"], -5: st.swapcase(), -6: st[:-1], -7: st + "x",
                -8: "..%s.." % self.sids["s1"], -9: " " + st,
                -10: "::%s::" % (self.lo[0] if self.lo else "x")}[n]

    def authz(self, k, m):
        i = m["st"]
        code = self.val(m["code"]) if m["code"] else None
        at = self.val(m["at"]) if m["at"] else None
        d = {"state": self.states(i, i, k), "code": code, "access_token": at,
             "iss": self.iss_name(k, m["iss"]),
             "client_id": {"none": None, "self": self.cid[k], "other": "someone", "prefix": self.cid[k][:-1]}[m["cid"]]}
        aud = m.get("aud", "none")
        if aud != "none":
            d["aud"] = [self.cid[k]] if aud == "me" else ["someone"]
        if m["err"]:
            d = {"state": d["state"], "error": self.rng.choice(["access_denied", "login_required", "server_error",
                                                                "whatever"]),
                 "code": code if self.rng.random() < 0.3 else None}
            if self.rng.random() < 0.5:
                d["error_description"] = "no"
        else:
            if at:
                d["token_type"] = "Bearer"
                if m["ttl"]:
                    d["expires_in"] = self.num(max(m["ttl"], 0) * self.unit)
            if m["idt"]["id"]:
                d["id_token"] = self.id_token(k, i if 0 < i <= len(self.sess) else 1, m["idt"], at, code)
            if self.rng.random() < 0.15:
                d["__verified_id_token"] = {"iss": self.url[k], "sub": "mallory", "aud": [self.cid[k]],
                                            "exp": T0 + 10 ** 9, "iat": T0,
                                            "nonce": self.sess[0]["nonce"] if self.sess else "x"}
        return {x: y for x, y in d.items() if y is not None}

    def num(self, n):
        return str(n) if self.rng.random() < 0.5 else n

    # ------------------------------------------------------------ OP endpoints
    def answer(self, what, k, q):
        fn = self.queue.get((what, k))
        if self.crowd == "during" and not self.waiting:
            self.waiting, queue, log, Net.log = True, self.queue, Net.log, []
            self.others(True)
            self.waiting, self.queue, Net.log = False, queue, log
        if fn is None:
            return 404, {"content-type": "text/plain"}, "unexpected"
        return fn(q)

    def http(self, kind, good, keep=None):
        r = self.rng
        j = {"content-type": r.choice(["application/json", "application/json; charset=utf-8"])}
        body = json.dumps(good)
        if kind == "ok":
            return 200, j, body
        if kind in ("err400", "err401", "err200"):
            e = {"error": r.choice(["invalid_grant", "invalid_request", "invalid_token", "temporarily_unavailable"])}
            if r.random() < 0.5:
                e["error_description"] = "some text"
            return {"err400": 400, "err401": 401, "err200": 200}[kind], j, json.dumps(e)
        if kind == "s500":
            return 500, {"content-type": "text/plain"}, r.choice(["oops", "", body])
        if kind == "s503":
            return r.choice([501, 502, 503, 504]), r.choice([j, {"content-type": "text/html"}]), \
                r.choice(["<html>busy</html>", "", body])
        if kind == "s404":
            return r.choice([403, 404, 410, 429]), {"content-type": "text/html"}, "<html>not here</html>"
        if kind == "garbage":
            return 200, j, r.choice(["}{not json", "null", body[:-4], "12", "\"x\""])
        if kind == "empty":
            return 200, j, r.choice(["", "{}"])
        if kind == "list":
            return 200, j, r.choice(["[]", "[%s]" % body, "[1]"])
        if kind == "html":
            return 200, {"content-type": "text/html"}, "<html><body>Please log in</body></html>"
        if kind == "neterr":
            raise requests.ConnectionError("refused")
        if kind == "timeout":
            raise r.choice([requests.Timeout("slow"), requests.ReadTimeout("slow")])
        if kind == "s302":
            return r.choice([300, 301, 302, 303, 304, 307]), \
                dict(j, location="https://elsewhere.example.com/") if r.random() < .5 else j, r.choice([body, ""])
        if kind in ("s400ok", "s401ok"):
            return {"s400ok": 400, "s401ok": 401}[kind], j, body
        raise KeyError(kind)

    def tok_answer(self, k, i, ta):
        d = {"access_token": self.val(ta["at"]) if ta["at"] else None,
             "token_type": self.rng.choice(["Bearer", "bearer"])}
        if ta["ttl"]:
            d["expires_in"] = self.num(max(ta["ttl"], 0) * self.unit) if ta["k"] == "ok" else ta["ttl"]
        if ta["rtok"]:
            d["refresh_token"] = self.val(ta["rtok"])
        kind = ta["k"]
        if kind not in ("ok", "noat", "notype", "badttl") and not d["access_token"]:
            d["access_token"] = "tok-should-not-be-used"
        if ta["idt"]["id"]:
            d["id_token"] = self.id_token(k, i, ta["idt"])
        if self.rng.random() < 0.1:
            d["extra"] = "something"
        if self.rng.random() < 0.1:
            d["__verified_id_token"] = {"iss": self.url[k], "sub": "mallory", "exp": T0 + 10 ** 9}
        if kind == "noat":
            d["access_token"] = None
            kind = "ok"
        elif kind == "notype":
            d["token_type"] = None
            kind = "ok"
        elif kind == "badttl":
            d["expires_in"] = "soon"
            kind = "ok"
        return kind, {x: y for x, y in d.items() if y is not None}

    def arm(self, k, i, ta=None, ua=None):
        self.queue = {}
        if ta is not None:
            def fn(q):
                kind, d = self.tok_answer(k, i, ta)
                return self.http(kind, d)
            self.queue[("token", k)] = fn
        if ua is not None:
            def fn2(q):
                d = {"sub": self.subs[ua["sub"]], "name": "Some One", "src": "ui"}
                if not d["sub"]:
                    del d["sub"]
                return self.http(ua["k"], d)
            self.queue[("ui", k)] = fn2

    # ---------------------------------------------------------------- the wire
    def decode_wire(self):
        out = []
        for q in Net.take():
            base = q.url.split("?")[0]
            if base in self.setup_net:
                continue
            rec = {"ep": "?", "iss": "?", "v": -1, "x": -1}
            for k, u in self.url.items():
                if q.url == self.ep(k, "token"):
                    f = q.form()
                    rec["iss"] = k
                    g = f.get("grant_type", [""])
                    one = all(len(x) == 1 for x in f.values())
                    if g == ["authorization_code"] and one and q.method == "POST":
                        ru = f.get("redirect_uri", [""])[0]
                        rec.update(ep="token", v=self.int.get(f.get("code", [""])[0], -1),
                                   x=next((n for n, z in self.uris[k].items() if z == ru), -1))
                    elif g == ["refresh_token"] and one and q.method == "POST":
                        sc = set(f.get("scope", [""])[0].split())
                        rec.update(ep="refresh", v=self.int.get(f.get("refresh_token", [""])[0], -1),
                                   x=next((n for n, z in self.scopes.items() if set(z) == sc), -1))
                    if not self.authenticated(k, q, f):
                        rec["v"] = -2
                elif q.url == self.ep(k, "userinfo"):
                    a = q.headers.get("Authorization", "")
                    a = a.decode() if isinstance(a, bytes) else a
                    rec.update(ep="ui", iss=k, x=0,
                               v=self.int.get(a[7:], -1) if a.startswith("Bearer ") else -1)
                    if "access_token" in q.url or "access_token" in q.body:
                        rec["v"] = -3
            out.append(rec)
        return out

    def authenticated(self, k, q, f):
        a = q.headers.get("Authorization", "")
        a = a.decode() if isinstance(a, bytes) else a
        if self.authn == "client_secret_basic":
            if not a.startswith("Basic "):
                return False
            s = a[6:].replace("-", "+").replace("_", "/")
            u, p = base64.b64decode(s).decode().split(":", 1)
            return unquote(u) == self.cid[k] and unquote(p) == self.secret[k]
        if self.authn == "client_secret_post":
            return f.get("client_id") == [self.cid[k]] and f.get("client_secret") == [self.secret[k]]
        j = f.get("client_assertion", [""])[0].split(".")
        if len(j) != 3:
            return False
        p = json.loads(base64.urlsafe_b64decode(j[1] + "=" * (-len(j[1]) % 4)))
        return p.get("iss") == self.cid[k] and p.get("sub") == self.cid[k]

    # ------------------------------------------------------------- observation
    def info(self, i):
        try:
            return json.dumps(self.h.get_session_information(self.sess[i]["state"]).to_dict(), sort_keys=True)
        except Exception:
            return None

    def snapshot(self):
        return [self.info(i) for i in range(len(self.sess))]

    def idx(self, state):
        for i, s in enumerate(self.sess):
            if s["state"] == state:
                return i + 1
        return -1

    def lookup(self, fn, v):
        try:
            st = fn(v)
        except Exception:
            return 0
        return self.idx(st)

    def view(self):
        sess = []
        for i, s in enumerate(self.sess):
            k = s["iss"]
            st = s["state"]
            try:
                iss = self.h.state2issuer(st)
            except Exception:
                iss = None
            inf = self.info(i)
            nonce = self.lookup(self.ctx(k).state.get_state_by_nonce, s["nonce"])
            try:
                at, exp = self.h.get_valid_access_token(st)
                vat, vexp = self.int.get(at, -1), (self.units(exp) if exp else 0)
            except Exception:
                vat, vexp = 0, 0
            try:
                act = bool(self.h.has_active_authentication(st))
            except Exception:
                act = False
            ui = ""
            if inf:
                d = json.loads(inf).get("user_info")
                if isinstance(d, str):
                    d = json.loads(d)
                if d:
                    ui = self.rsub.get(d.get("sub"), "?")
            known = inf is not None
            sess.append({"known": known,
                         "iss": next((n for n, u in self.url.items() if u == iss), "?" if iss else ""),
                         "ui": ui, "act": act, "vat": vat, "vexp": vexp, "nonce": nonce})
        so, si = {}, {}
        for k in self.P:
            so[k], si[k] = {}, {}
            started = self.url[k] in self.h.issuer2rp
            for u in ("u1", "u2"):
                so[k][u] = self.lookup(self.ctx(k).state.get_state_by_sub, self.subs[u]) if started else 0
            for u in ("s1", "s2"):
                si[k][u] = self.lookup(self.ctx(k).state.get_state_by_sid, self.sids[u]) if started else 0
        lo = [self.lookup(self.ctx(k).state.get_state_by_logout_state, v) for k, v in self.lo]
        return {"clk": self.units(Clock.now), "sess": sess, "so": so, "si": si, "lo": lo}

    # ------------------------------------------------------------------ events
    def do(self, ev):
        before = self.snapshot()
        n0 = len(self.sess)
        res = dict(NO_RES)
        self.others()
        Net.take()
        try:
            out = getattr(self, "ev_" + ev["t"])(ev, res)
            self.err = None
        except Exception as e:
            out = "exc"
            res = dict(NO_RES)
            self.err = e
        wire = self.decode_wire()
        after = self.snapshot()
        changed = [i + 1 for i in range(n0) if before[i] != after[i]]
        if ev["t"] == "clear" and out == "ok":
            changed = [i for i in changed if i != ev["i"]]
        return {"out": out, "res": res, "wire": wire, "changed": changed}

    def others(self, waiting=False):
        """sessions of people who have nothing to do with the ones looked at"""
        ks = [k for k in sorted(self.P) if self.url[k] in self.h.issuer2rp]
        if not ks or not self.crowd:
            return
        r = self.rng
        if self.crowd == "during":
            n = 1 if waiting else 0
        elif self.crowd == "some":
            n = r.choice([0, 0, 0, 1, 2])
        elif not self.people and self.sess and r.random() < 0.3:
            n = r.choice([40, 140, 270])
        else:
            return
        for _ in range(n):
            try:
                self.somebody(r.choice(ks), r)
            except Exception:       # their logins are looked at elsewhere
                pass
        self.queue = {}
        Net.take()

    def somebody(self, k, r):
        self.people += 1
        b = self.h.begin(self.key[k], req_args={"scope": ["openid", "profile"], "response_type": "code"})
        if self.crowd == "many" and self.people > 12 and r.random() < 0.95:
            return
        how = r.randrange(5)
        if how == 0:
            return
        q = dict(parse_qsl(urlparse(b["url"]).query))
        me = "somebody-%d" % self.people
        now = int(Clock.now)
        d = {"iss": self.url[k], "aud": [self.cid[k]], "sub": me, "exp": now + 900, "iat": now - 1,
             "nonce": q["nonce"], "sid": "s-" + me}
        t = {"access_token": "at-" + me, "token_type": "Bearer", "refresh_token": "rt-" + me, "expires_in": 900,
             "id_token": self.sign(k, "none" if self.alg[k] == "none" else "op", d)}
        self.queue = {("token", k): lambda q, t=t: (200, JSON_H, json.dumps(t)),
                      ("ui", k): lambda q, me=me: (200, JSON_H, json.dumps({"sub": me}))}
        self.h.finalize(self.url[k], {"state": b["state"], "code": "c-" + me})
        if how == 2:
            self.h.clear_session(b["state"])
        elif how == 3:
            self.h.refresh_access_token(b["state"])
        elif how == 4 and self.P[k]["lo"]:
            self.h.logout(b["state"])

    def st(self, i):
        return self.sess[i - 1]["state"] if 0 < i <= len(self.sess) else "never-made"

    def iss_of(self, i):
        return self.sess[i - 1]["iss"] if 0 < i <= len(self.sess) else sorted(self.P)[0]

    def ev_begin(self, ev, res):
        k = ev["iss"]
        fresh = self.url[k] not in self.h.issuer2rp
        args = {"scope": list(self.scopes[ev["sc"]]), "response_type": ev["rt"]}
        if ev["ru"] != 1:
            args["redirect_uri"] = self.uris[k][ev["ru"]]
        alike = [s for i, s in enumerate(self.sess) if s["iss"] == k and self.info(i) is not None]
        how = 9 if fresh else self.rng.randrange(10)
        if how == 0:
            r = self.h.init_authorization(client=self.client(k), req_args=args)
        elif how == 1 and alike:        # with the provider of that session
            r = self.h.init_authorization(state=self.rng.choice(alike)["state"], req_args=args)
        else:
            r = self.h.begin(self.key[k], req_args=args)
        if fresh:
            self.prepare(k)
        u = urlparse(r["url"])
        q = {a: b for a, b in parse_qsl(u.query)}
        self.sess.append({"iss": k, "state": r["state"], "nonce": q.get("nonce", ""), "rt": ev["rt"]})
        ok = (off(r["url"], self.ep(k, "authz")) is not None and q.get("state") == r["state"] and
              q.get("client_id") == self.cid[k] and q.get("redirect_uri") == self.uris[k][ev["ru"]] and
              set(q.get("response_type", "").split()) == set(ev["rt"].split()) and
              set(q.get("scope", "").split()) == set(self.scopes[ev["sc"]]) and
              len({s["state"] for s in self.sess}) == len(self.sess) and
              len({s["nonce"] for s in self.sess}) == len(self.sess))
        res["sess"] = len(self.sess)
        res["ep"] = k if ok else "?"
        return "ok"

    def ev_fin(self, ev, res):
        k = ev["iss"]
        i = ev["m"]["st"]
        m = self.authz(k, ev["m"])
        self.arm(k, i, ev["ta"], ev["ua"])
        args = {"collect_tokens": True} if ev["col"] else None
        r = self.h.finalize(self.url[k], m, behaviour_args=args) if args else self.h.finalize(self.url[k], m)
        if not isinstance(r, dict) or is_error_message(r):
            return "err"
        res["at"] = self.int.get(r["token"], -1) if r.get("token") else 0
        res["idt"] = int(r["id_token"]["jti"]) if r.get("id_token") else 0
        ui = r["userinfo"]
        res["sub"] = self.rsub.get(ui.get("sub", ""), "?")
        res["src"] = ui.get("src", "?") if "sub" in ui else "?"
        res["sess"] = self.idx(r["state"])
        return "ok"

    def ev_fauth(self, ev, res):
        k = ev["iss"]
        m = self.authz(k, ev["m"])
        r = self.h.finalize_auth(self.client(k), self.url[k], m)
        return "err" if is_error_message(r) else "ok"

    def ev_tok(self, ev, res):
        k = self.iss_of(ev["i"])
        self.arm(k, ev["i"], ev["ta"])
        if self.sess and 0 < ev["i"] <= len(self.sess) and self.sess[ev["i"] - 1].get("rt") == "code" and self.rng.random() < .2:
            r = self.h.get_access_and_id_token(state=self.st(ev["i"]), **self.by(k))
        else:
            r = self.h.get_tokens(self.st(ev["i"]), **self.by(k))
        if is_error_message(r):
            return "err"
        res["at"] = self.int.get(r["access_token"], -1)
        return "ok"

    def ev_ref(self, ev, res):
        k = self.iss_of(ev["i"])
        self.arm(k, ev["i"], ev["ta"])
        kw = {"scope": " ".join(self.scopes[ev["sc"]])} if ev["sc"] else {}
        if ev["sc"] and self.rng.random() < 0.5:
            kw = {"scope": list(self.scopes[ev["sc"]])}
        r = self.h.refresh_access_token(self.st(ev["i"]), **kw, **self.by(k))
        if is_error_message(r):
            return "err"
        res["at"] = self.int.get(r["access_token"], -1)
        return "ok"

    def ev_ui(self, ev, res):
        k = self.iss_of(ev["i"])
        self.arm(k, ev["i"], None, ev["ua"])
        kw = {"access_token": self.val(ev["at"])} if ev["at"] else {}
        r = self.h.get_user_info(self.st(ev["i"]), **kw, **self.by(k))
        if is_error_message(r):
            return "err"
        res["sub"] = self.rsub.get(r["sub"], "?")
        return "ok"

    def ev_logout(self, ev, res):
        k = self.iss_of(ev["i"])
        kw = {"post_logout_redirect_uri": self.plru[k][ev["uri"]]} if ev["uri"] else {}
        st = self.st(ev["i"])
        how = self.rng.randrange(3)
        if how == 0:
            r = self.h.logout(st, **kw, **self.by(k))
        elif how == 1:
            r = self.h.close(st, **kw)
        else:
            r = self.h.close(st, issuer=self.url[k], **kw)
        rest = off(r["url"], self.ep(k, "end"))
        q = parse_qs((rest or "").partition("?")[2])
        res["ep"] = k if rest else "?"
        if "id_token_hint" in q:
            res["hint"] = self.int.get(q["id_token_hint"][0], -1)
        u = q.get("post_logout_redirect_uri", [""])[0]
        res["plru"] = next((n for n, z in self.plru[k].items() if z == u), -1)
        ls = q.get("state", [""])[0]
        if not ls or ls in [x for _, x in self.lo] or self.idx(ls) > 0 or set(q) - {
                "state", "id_token_hint", "post_logout_redirect_uri"}:
            res["ep"] = "?"
        self.lo.append((k, ls))
        res["sess"] = self.lookup(self.ctx(k).state.get_state_by_logout_state, ls)
        return "ok"

    def ev_clear(self, ev, res):
        self.h.clear_session(self.st(ev["i"]))
        return "ok"

    def ev_back(self, ev, res):
        k = ev["iss"]
        lt = self.logout_token(k, ev["lt"])
        c = self.client(k)
        if self.rng.random() < 0.5:
            st = backchannel_logout(c, request_args={"logout_token": lt})
        else:
            st = backchannel_logout(c, request="logout_token=" + lt)
        res["sess"] = self.idx(st)
        return "ok"

    def logout_token(self, k, t):
        now = int(Clock.now)
        evs = {"ok": {EVENT: {}}, "missing": None, "other": {EVENT + "x": {}}, "extra": {EVENT: {}, "http://x": {}},
               "nonempty": {EVENT: {"a": 1}}, "string": EVENT, "empty": {}}[t["ev"]]
        p = {"iss": self.iss_name(k, t["iss"]), "aud": self.aud_name(k, t["aud"]), "events": evs,
             "iat": None if t["iat"] == MISSING else now + t["iat"],
             "jti": "jti-" + text_chars(self.rng, 6) if t["jti"] else None,
             "nonce": self.sess[0]["nonce"] if t["nonce"] and self.sess else ("n" if t["nonce"] else None),
             "sub": self.subs[t["sub"]] or None, "sid": self.sids[t["sid"]] or None}
        return self.sign(k, t["sig"], p)

    def ev_tick(self, ev, res):
        Clock.tick(ev["dt"] * self.unit)
        return "ok"

    def units(self, t):
        n = (t - T0) / self.unit
        return int(n) if n == int(n) else n

    def ev_reload(self, ev, res):
        h2 = RPHandler(BASE, client_configs=copy.deepcopy(self.cfg), keyjar=self.given_jar)
        for k in self.P:
            if self.url[k] not in self.h.issuer2rp:
                continue
            dump = json.dumps(self.ctx(k).dump())
            c2 = h2.init_client(self.key[k])
            c2.client_get("service_context").load(json.loads(dump))
            h2.issuer2rp[self.url[k]] = c2
        h2.hash2issuer.update(self.h.hash2issuer)
        self.h = h2
        return "ok"


ALGS = ["RS256", "ES256", "HS256", "PS256", "RS384", "RS512", "HS512"]
_EV = {}
