"""RPRequest on the real code: every request is taken apart and checked as the party
that receives it would."""
import base64
import copy
import json
import os
import random
import shutil
import string
import tempfile
from urllib.parse import urlparse, parse_qs, unquote_plus, quote_plus

import cryptography.hazmat.primitives.asymmetric.rsa as _rsa
from cryptojwt.jwk.jwk import key_from_jwk_dict
from cryptojwt.jws.jws import JWS
from cryptojwt.jwe.jwe import factory as jwe_factory
from cryptojwt.utils import b64d, b64e
import hashlib

from world import Net, Clock, T0, JSON_H, TAILS, off, rsa_key, jwks, new_rsa_key, new_ec_key
from core import BASE, rp_keyjar, text_chars
from oidcrp.rp_handler import RPHandler
from oidcrp.oidc import DEFAULT_SERVICES
from oidcmsg.oauth2 import is_error_message
from oidcmsg.oauth2 import AuthorizationRequest, AuthorizationResponse
import requests
import mbt

NAME = "request"
MODULE = "RPRequest"
VIEW = "Hide"
CONSTRAINT = "InBounds"
CONSTS = {"Focus": "C17", "Wide": False, "Long": False}
INVARIANTS = []
PROPERTIES = ["PropC17", "PropC18", "PropC19", "PropC20"]

NOPAR = {"rt": "", "sc": 0, "ru": 0, "cl": 0, "x": 0, "pr": 0, "ch": "", "ok": False}
NORES = {"sess": 0, "ep": "", "how": "", "par": NOPAR, "fresh": False}
SCOPES = {1: ["openid"], 2: ["openid", "email"], 3: ["openid", "offline_access"], 4: ["profile"],
          5: ["openid", "email", "offline_access"]}
CLAIMS = {1: {"userinfo": {"nickname": {"essential": True}, "email": None}},
          2: {"id_token": {"acr": {"values": ["a", "b"]}, "auth_time": None}}}
HASH = {"S256": hashlib.sha256, "S384": hashlib.sha384, "S512": hashlib.sha512}
UNRESERVED = set(string.ascii_letters + string.digits + "-._~")
PRIVATE = {"d", "p", "q", "dp", "dq", "qi", "oth", "k"}
DPOP = {"first": (["ES256", "RS256"], ["ES256", "RS256"]), "second": (["ES384", "ES256"], ["RS256", "ES256"]),
        "order": (["ES384", "ES256"], ["ES256", "RS256", "ES384"]), "rsa": (["RS256", "ES256"], ["ES256", "RS256"]),
        "rsa5": (["RS512"], ["RS256", "RS512"]), "none": (["ES256"], ["RS256"]), "silent": (["ES256"], None),
        "empty": (["ES256", "RS256"], [])}
AUTH_ALGS = {"all": ["HS256", "ES256", "RS256"], "hs": ["HS512", "HS256"], "as": ["RS384", "ES256"], "silent": None}

# RSA keys that the code makes come from a stock
_POOL = []
_make = _rsa.generate_private_key
_use = [0]


def _from_stock(public_exponent, key_size, *a, **k):
    if not _POOL or key_size != 2048:
        return _make(public_exponent, key_size, *a, **k)
    _use[0] += 1
    return _POOL[_use[0] % len(_POOL)]


_rsa.generate_private_key = _from_stock


_ENC = {}


def enc_keys(k):
    """a provider's keys for encryption"""
    if k not in _ENC:
        _ENC[k] = [new_rsa_key(2048, kid="ope-" + k, use="enc", alg=""), new_ec_key("P-256", kid="opec-" + k, use="enc", alg="")]
    return _ENC[k]


def warm():
    enc_keys("A")
    enc_keys("B")
    rp_keyjar()
    rsa_key("op-A")
    rsa_key("op-B")
    if not _POOL:
        _POOL.extend([_make(65537, 2048) for _ in range(8)])


def pubkeys():
    return [k for k in rp_keyjar().get_signing_key("rsa", "") + rp_keyjar().get_signing_key("ec", "")]


class Bad(Exception):
    """what a receiver objects to"""


def need(cond, text):
    if not cond:
        raise Bad(text)


def jwt_parts(token):
    p = token.split(".")
    need(len(p) == 3, "not a signed JWT")
    h, b = (json.loads(base64.urlsafe_b64decode(x + "=" * (-len(x) % 4))) for x in p[:2])
    return h, b


def verify(token, keys, alg):
    for k in keys:
        if k.kty == "oct":
            k.kid = jwt_parts(token)[0].get("kid", "")
    try:
        JWS(alg=alg).verify_compact(token, keys=keys, sigalg=alg)
    except Exception as err:
        raise Bad("signature: %s" % type(err).__name__)


class Requests:
    def __init__(self, P, seed, variant=None):
        self.rng = r = random.Random(seed)
        Clock.set(T0)
        Net.reset()
        shape = r.randrange(3)
        self.url = [{"A": "https://op.example.com", "B": "https://op.example.com/b"},
                    {"A": "https://a.example.com", "B": "https://b.example.com"},
                    {"A": "https://a.example.com/x/", "B": "https://a.example.com/x/y"}][shape]
        self.tail = {(k, n): r.choice(TAILS) for k in self.url for n in ("authz", "token", "userinfo", "par")}
        odd = r.random() < .5
        self.cid = {k: r.choice(["client", "cl~" + k, "https://rp.example.com/" + k]) if odd else "client" + k
                    for k in self.url}
        self.secret = {k: "sEcret" + k + (text_chars(r, 40, True) if odd else "0123456789abcdef" * 4) for k in self.url}
        if odd and r.random() < .3:
            self.secret = {k: "\u00e5\u00e4" + v for k, v in self.secret.items()}
        self.uris = {k: {1: BASE + "/cb/" + k, 2: BASE + "/cb2/" + k} for k in self.url}
        self.x = {1: "user+1@example.com", 2: "user 2&x=1", 3: "user\u00e53"}
        self.sess = []
        self.seen = {"state": set(), "nonce": set(), "jti": set(), "ch": set(), "ver": set()}
        self.texts = []          # all there was in clear, except in bodies to token endpoints
        self.dkey = {}
        self.int = {}
        self.queue = {}
        # somebody else using the RP, between events or while an answer is waited for
        self.crowd = r.choice(["", "", "", "", "", "", "some", "during"])
        self.people = 0
        self.waiting = False
        self.files = {}
        self.P = None
        self.h = None
        self.dir = tempfile.mkdtemp(prefix="req-")
        self.err = None
        self.pushed = None
        self.old = os.getcwd()
        os.chdir(self.dir)

    def __del__(self):
        try:
            os.chdir(self.old)
            shutil.rmtree(self.dir, ignore_errors=True)
        except Exception:
            pass

    # ---------------------------------------------------------------- set-up
    def metadata(self, k):
        b = self.url[k].rstrip("/")
        p = self.P[k]
        m = {"issuer": self.url[k], "authorization_endpoint": self.ep(k, "authz"), "token_endpoint": self.ep(k, "token"),
             "jwks_uri": b + "/jwks", "registration_endpoint": b + "/reg", "userinfo_endpoint": self.ep(k, "userinfo"),
             "pushed_authorization_request_endpoint": self.ep(k, "par"),
             "response_types_supported": ["code", "id_token", "id_token token", "code id_token", "code token",
                                          "code id_token token"],
             "subject_types_supported": ["public"],
             "id_token_signing_alg_values_supported": ["RS256", "ES256"],
             "scopes_supported": ["openid", "email", "profile", "offline_access"],
             "token_endpoint_auth_methods_supported": ["client_secret_basic", "client_secret_post",
                                                       "client_secret_jwt", "private_key_jwt"]}
        algs = AUTH_ALGS[p["pa"]]
        if p["alg"]:
            algs = ["HS256", p["alg"], "RS256"]
        if algs is not None:
            m["token_endpoint_auth_signing_alg_values_supported"] = algs
        d = DPOP.get(p["dp"])
        if d and d[1] is not None:
            m["dpop_signing_alg_values_supported"] = d[1]
        return m

    def config(self, k):
        p = self.P[k]
        c = {"issuer": self.url[k], "services": {n: copy.deepcopy(v) for n, v in DEFAULT_SERVICES.items()},
             "redirect_uris": [self.uris[k][1], self.uris[k][2]], "local_dir": os.path.join(self.dir, "requests")}
        prefs = {"response_types": ["code", "id_token", "id_token token", "code id_token", "code id_token token"],
                 "scope": ["openid"]}
        if p["am"]:
            prefs["token_endpoint_auth_method"] = p["am"]
        if p["ro"] == "reqes":
            prefs["request_object_signing_alg"] = "ES256"
        if self.encby[k] == "conf" and self.encrypts(k):
            prefs.update(self.enc[k])
        cp = {}
        if p["alg"]:
            cp["token_endpoint_auth_signing_alg"] = p["alg"]
        if p["st"] == "dynamic":
            c["client_preferences"] = dict(prefs, **cp)
        else:
            c.update(client_id=self.cid[k], client_secret=self.secret[k], behaviour=prefs, provider_info=self.metadata(k),
                     client_preferences=cp)
            if self.encrypts(k):
                c["provider_info"]["keys"] = {"url": {self.url[k]: self.url[k].rstrip("/") + "/jwks"}}
        ao = {}
        if p["pk"]:
            ao["pkce"] = {"function": "oidcrp.oauth2.add_on.pkce.add_support",
                          "kwargs": {"code_challenge_length": p["pl"], "code_challenge_method": p["pk"]}}
        if p["dp"]:
            ao["dpop"] = {"function": "oidcrp.oauth2.add_on.dpop.add_support",
                          "kwargs": {"signing_algorithms": list(DPOP[p["dp"]][0])}}
        if p["ro"] in ("par", "parlax", "parurl"):
            ao["pushed_authorization"] = {
                "function": "oidcrp.oauth2.add_on.pushed_authorization.add_support",
                "kwargs": {"body_format": "urlencoded" if p["ro"] == "parurl" else "jws", "signing_algorithm": "RS256",
                           "http_client": None, "merge_rule": "lax" if p["ro"] == "parlax" else "strict"}}
        if ao:
            c["add_ons"] = ao
        ra = {1: {"claims": copy.deepcopy(CLAIMS[2]), "login_hint": self.x[2]},
              2: {"scope": list(SCOPES[2]), "prompt": "login consent"},
              4: {"scope": list(SCOPES[4]), "claims": copy.deepcopy(CLAIMS[2])}}.get(p["rs"])
        if ra:
            c["request_args"] = ra
        if p["rs"] == 3:
            for n, v in c["services"].items():
                if str(v["class"]).endswith("Authorization'>") or str(v["class"]).endswith("Authorization"):
                    v["kwargs"] = {"conf": {"request_args": {"login_hint": self.x[3]}}}
        if p["um"] != "get":
            pass
        return c

    def ev_setup(self, ev, res):
        self.P = ev["P"]
        # what request objects are encrypted with, said in the configuration or by the caller
        self.enc = {k: {"request_object_encryption_alg": self.rng.choice(["RSA-OAEP", "RSA-OAEP-256", "ECDH-ES+A128KW"]),
                        "request_object_encryption_enc": self.rng.choice(["A128CBC-HS256", "A256GCM", "A256CBC-HS512"])}
                    for k in self.P}
        self.encby = {k: self.rng.choice(["conf", "caller"]) for k in self.P}
        self.cfg = {self.url[k]: self.config(k) for k in self.P}
        self.live = copy.deepcopy(self.cfg)
        self.h = RPHandler(BASE, client_configs=self.live, keyjar=rp_keyjar())
        self.behaviour = {}
        for k in self.P:
            b = self.url[k].rstrip("/")
            Net.on(b + "/.well-known/openid-configuration", lambda q, k=k: (200, JSON_H, json.dumps(self.metadata(k))))
            Net.on(b + "/jwks", lambda q, k=k: (200, JSON_H, jwks(
                rsa_key("op-" + k), *(enc_keys(k) if self.P[k]["ro"] in ("reqenc", "urienc") else []))))
            Net.on(b + "/reg", lambda q, k=k: (201, JSON_H, json.dumps(
                dict(json.loads(q.body), client_id=self.cid[k], client_secret=self.secret[k]))))
            for ep in ("token", "userinfo", "par"):
                Net.on(b + "/" + ep, lambda q, k=k, ep=ep: self.answer(ep, k, q))
        return "ok"

    def answer(self, ep, k, q):
        if self.waiting:
            me = "%d" % self.people
            return 200, JSON_H, json.dumps({"par": {"request_uri": "urn:somebody:" + me, "expires_in": 60},
                                            "token": {"token_type": "Bearer", "access_token": "at-" + me,
                                                      "refresh_token": "rt-" + me},
                                            "userinfo": {"sub": "somebody-" + me}}[ep])
        fn = self.queue[(ep, k)]
        if self.crowd == "during":
            self.others()
        return fn(q)

    def others(self):
        """a session that has nothing to do with the ones looked at; how it goes is no concern here"""
        ks = [k for k in self.url if self.h and self.url[k] in self.h.issuer2rp]
        if not ks:
            return
        r = self.rng
        self.waiting, log, Net.log = True, Net.log, []
        k = r.choice(ks)
        self.people += 1
        try:
            d = {"response_type": "code", "scope": ["openid", "other%d" % self.people], "login_hint": "somebody%d" % self.people}
            b = self.h.begin(self.url[k], req_args=d, behaviour_args=self.bargs(k))
            x = r.random()
            if x < .7:
                c = self.client(k)
                self.h.finalize_auth(c, self.url[k], {"state": b["state"], "code": "c-%d" % self.people})
                self.h.get_tokens(b["state"], c)
            if x < .4:
                self.h.refresh_access_token(b["state"])
            if x < .2:
                self.h.get_user_info(b["state"])
            if x < .1:
                self.h.clear_session(b["state"])
        except Exception:
            pass
        self.waiting, Net.log = False, log

    def client(self, k):
        return self.h.issuer2rp[self.url[k]]

    def ctx(self, k):
        return self.client(k).client_get("service_context")

    def ep(self, k, name):
        return self.url[k].rstrip("/") + "/" + name + self.tail.get((k, name), "")

    def encrypts(self, k):
        return self.P[k]["ro"] in ("reqenc", "urienc", "reqnokey", "urinokey")

    def decrypted(self, k, obj):
        """the request object in what was encrypted for the provider"""
        need(isinstance(obj, str) and obj.count(".") == 4, "not encrypted")
        h = json.loads(b64d(obj.split(".")[0].encode()))
        need((h.get("alg"), h.get("enc")) == (self.enc[k]["request_object_encryption_alg"],
                                             self.enc[k]["request_object_encryption_enc"]), "encrypted otherwise")
        try:
            t = jwe_factory(obj).decrypt(obj, enc_keys(k))
        except Exception as err:
            raise Bad("decryption: %s" % type(err).__name__)
        return t.decode() if isinstance(t, bytes) else t

    # --------------------------------------------- authorization requests
    def params(self, k, d, challenge=None):
        """parameters (str -> str, list or dict) as the specification names them"""
        d = dict(d)
        words = lambda v: v if isinstance(v, list) else str(v).split()
        out = dict(NOPAR)
        out["rt"] = " ".join(sorted(words(d.pop("response_type", ""))))
        sc = set(words(d.pop("scope", "")))
        out["sc"] = next((n for n, v in SCOPES.items() if set(v) | {"openid"} == sc), -1)
        ru = d.pop("redirect_uri", None)
        out["ru"] = next((n for n, v in self.uris[k].items() if v == ru), -1)
        cl = d.pop("claims", None)
        if cl is not None:
            if isinstance(cl, str):
                cl = json.loads(cl)
            out["cl"] = next((n for n, v in CLAIMS.items() if v == cl), -1)
        x = d.pop("login_hint", None)
        if x is not None:
            out["x"] = next((n for n, v in self.x.items() if v == x), -1)
        pr = d.pop("prompt", None)
        if pr is not None:
            out["pr"] = {"login": 1, "consent login": 2, "consent": 3}.get(" ".join(sorted(words(pr))), -1)
        ch, m = d.pop("code_challenge", None), d.pop("code_challenge_method", None)
        out["ch"] = m or ""
        if (ch is None) != (m is None):
            out["ch"] = "half"
        elif ch is not None:
            n = {"S256": 43, "S384": 64, "S512": 86}.get(m)
            if len(ch) != n or not set(ch) <= UNRESERVED:
                out["ch"] = "odd"
            if challenge is not None and ch != challenge:
                out["ch"] = "another"
        out["ok"] = d.pop("client_id", None) == self.cid[k] and bool(d.pop("state", None)) and bool(d.pop("nonce", None)) \
            and not d
        return out

    @staticmethod
    def flat(qs):
        d = parse_qs(qs, keep_blank_values=True, strict_parsing=bool(qs))
        need(all(len(v) == 1 for v in d.values()), "a parameter occurs twice")
        return {k: v[0] for k, v in d.items()}

    def opened(self, k, obj, alg="RS256"):
        """the parameters in a request object"""
        h, b = jwt_parts(obj)
        need(h.get("alg") == alg, "request object signed with %s" % h.get("alg"))
        verify(obj, pubkeys(), alg)
        need(b.pop("iss", None) == self.cid[k], "request object's iss")
        aud = b.pop("aud", None)
        need(aud in (self.url[k], [self.url[k]]), "request object's aud")
        need(abs(b.pop("iat", Clock.now) - Clock.now) < 2, "request object's iat")
        for c in ("exp", "jti"):
            b.pop(c, None)
        return b

    def same(self, outer, inner):
        """what is said next to a request object agrees with what is in it"""
        for c, v in outer.items():
            if c in ("scope", "response_type"):
                i = inner.get(c)
                i = i if isinstance(i, list) else str(i).split()
                need(sorted(v.split()) == sorted(i), "%s differs from the object's" % c)
            else:
                need(inner.get(c) == v, "%s differs from the object's" % c)

    def read_par(self, k, q):
        """a pushed request"""
        d = self.flat(q.body)
        if self.P[k]["ro"] == "parurl":
            return d
        obj = d.pop("request", None)
        need(obj, "no request pushed")
        inner = self.opened(k, obj)
        self.same(d, inner)
        return inner

    def read_authz(self, k, url, res):
        """-> all the parameters of the request"""
        rest = off(url, self.ep(k, "authz"))
        need(rest is not None, "goes to " + url)
        qs = rest.partition("?")[2]
        res["ep"] = k
        d = self.flat(qs)
        ro = self.P[k]["ro"]
        if ro == "":
            need("request" not in d and "request_uri" not in d, "a request object")
            res["how"] = ""
            return d
        if ro in ("request", "reqes"):
            inner = self.opened(k, d.pop("request", ""), "ES256" if ro == "reqes" else "RS256")
        elif ro == "reqenc":
            inner = self.opened(k, self.decrypted(k, d.pop("request", "")))
        elif ro in ("request_uri", "urienc"):
            u = d.pop("request_uri", "")
            need(u.startswith(BASE + "/requests/") and u not in self.files, "request_uri " + u)
            fn = os.path.join(self.dir, "requests", u[len(BASE + "/requests/"):])
            self.files[u] = (fn, open(fn).read())
            inner = self.opened(k, self.decrypted(k, self.files[u][1]) if ro == "urienc" else self.files[u][1])
        else:
            need(d.pop("request_uri", None) == self.pushed[0], "request_uri is not that of the pushed request")
            inner = self.pushed[1]
        self.same(d, inner)
        res["how"] = ro
        return inner

    def store_seen(self, d):
        """are state, nonce and challenge new?"""
        ok = True
        for a, b in (("state", "state"), ("nonce", "nonce"), ("ch", "code_challenge")):
            v = d.get(b)
            if b == "code_challenge" and v is None:
                continue
            if not v or v in self.seen[a] or len(v) < 20:
                ok = False
            self.seen[a].add(v)
        if d.get("state") == d.get("nonce"):
            ok = False
        return ok

    def args(self, k, a):
        d = {}
        if a["rt"]:
            d["response_type"] = a["rt"]
        if a["sc"]:
            sc = list(SCOPES[a["sc"]])
            d["scope"] = " ".join(sc) if "openid" in sc and self.rng.random() < .3 else sc
        if a["ru"]:
            d["redirect_uri"] = self.uris[k][a["ru"]]
        if a["cl"]:
            d["claims"] = copy.deepcopy(CLAIMS[a["cl"]])
        if a["x"]:
            d["login_hint"] = self.x[a["x"]]
        if a["pr"]:
            d["prompt"] = self.rng.choice(["login", ["login"]])
        return d

    def bargs(self, k):
        ro = self.P[k]["ro"]
        if ro in ("request", "reqes"):
            return {"request_param": "request"}
        if ro == "request_uri":
            return {"request_param": "request_uri"}
        if self.encrypts(k):
            d = {"request_param": "request" if ro[:3] == "req" else "request_uri", "target": self.url[k]}
            if self.encby[k] == "caller":
                d.update(self.enc[k])
            return d
        return None

    def arm_par(self, k, how):
        self.pushed = None

        def fn(q):
            if how == "neterr":
                raise requests.ConnectionError("refused")
            uri = "urn:example:" + text_chars(self.rng, 12)
            if how in ("ok", "created", "nouri"):
                try:
                    inner = self.read_par(k, q)
                except Exception:
                    inner = {}
                self.pushed = (uri, inner)
                body = {"request_uri": uri, "expires_in": 60}
                if how == "nouri":
                    body = {"expires_in": 60}
                return {"ok": 200, "created": 201, "nouri": 201}[how], JSON_H, json.dumps(body)
            if how == "err400":
                return 400, JSON_H, json.dumps({"error": "invalid_request"})
            return 500, {"content-type": "text/plain"}, "oops"
        self.queue[("par", k)] = fn

    def begun(self, k, url, res, i=None):
        try:
            d = self.read_authz(k, url, res)
            res["par"] = self.params(k, d)
        except Bad as b:
            res["how"] = "bad: %s" % b
            d = {}
        if i is None:
            res["fresh"] = self.store_seen(d)
            self.sess.append({"iss": k, "state": d.get("state"), "nonce": d.get("nonce"), "ch": d.get("code_challenge"),
                              "m": d.get("code_challenge_method")})
        else:
            s = self.sess[i - 1]
            self.seen["state"].discard(s["state"])
            res["fresh"] = self.store_seen(d) and d.get("state") == s["state"]
            s.update(nonce=d.get("nonce"), ch=d.get("code_challenge"), m=d.get("code_challenge_method"))
        return d

    def ev_begin(self, ev, res):
        k = ev["iss"]
        self.arm_par(k, ev["pa"])
        a = self.args(k, ev["a"])
        given = copy.deepcopy(a)
        ba = self.bargs(k)
        try:
            alike = [s["state"] for i, s in enumerate(self.sess) if s["iss"] == k and self.info(i) is not None]
            if alike and self.rng.random() < .2:        # with the provider of that session
                r = self.h.init_authorization(state=self.rng.choice(alike), req_args=a or None, behaviour_args=ba)
            else:
                r = self.h.begin(self.url[k], req_args=a or None, behaviour_args=ba)
        finally:
            self.intact = self.intact and a == given and ba == self.bargs(k)
            if self.url[k] in self.h.issuer2rp:
                self.behaviour.setdefault(k, copy.deepcopy(self.ctx(k).behaviour))
        self.texts.append(r["url"])
        d = self.begun(k, r["url"], res)
        res["sess"] = len(self.sess)
        if r["state"] != d.get("state"):
            res["sess"] = -1
        return "ok"

    def ev_redo(self, ev, res):
        s = self.sess[ev["i"] - 1]
        k = s["iss"]
        self.arm_par(k, "ok")
        d = {"state": s["state"], "response_type": "code", "scope": ["openid"], "redirect_uri": s["ru"]}
        srv = self.client(k).client_get("service", "authorization")
        i = srv.get_request_parameters(request_args=d, behaviour_args=self.bargs(k))
        self.texts.append(i["url"])
        self.begun(k, i["url"], res, ev["i"])
        res["sess"] = ev["i"]
        return "ok"

    def ev_old(self, ev, res):
        k = ev["iss"]
        self.h.client_setup(self.url[k])
        self.behaviour.setdefault(k, copy.deepcopy(self.ctx(k).behaviour))
        db = self.ctx(k).state
        st = db.create_state(self.url[k], text_chars(self.rng, 30))
        nonce = text_chars(self.rng, 30)
        db.store_item(AuthorizationRequest(client_id=self.cid[k], response_type="code", scope="openid", state=st, nonce=nonce,
                                           redirect_uri=self.uris[k][1]), "auth_request", st)
        db.store_nonce2state(nonce, st)
        self.sess.append({"iss": k, "state": st, "nonce": nonce, "ch": None, "m": None})
        db.store_item(AuthorizationResponse(code=self.code(len(self.sess)), state=st), "auth_response", st)
        res["sess"] = len(self.sess)
        return "ok"

    def code(self, i):
        c = self.sess[i - 1].setdefault("code", "c%d.%s" % (i, text_chars(self.rng, 12)))
        self.int[c] = i
        return c

    def ev_code(self, ev, res):
        s = self.sess[ev["i"] - 1]
        r = self.h.finalize_auth(self.client(s["iss"]), self.url[s["iss"]], {"state": s["state"], "code": self.code(ev["i"])})
        return "err" if is_error_message(r) else "ok"

    # ------------------------------------------------------- other requests
    def answers(self, kind, good):
        def fn(q):
            if kind == "neterr":
                raise requests.ConnectionError("refused")
            if kind == "err400":
                return self.rng.choice([400, 401]), JSON_H, json.dumps({"error": "invalid_client"})
            if kind == "s500":
                return self.rng.choice([500, 503]), {"content-type": "text/plain"}, "oops"
            return 200, JSON_H, json.dumps(good)
        return fn

    def tokens(self, i, k, refresh):
        d = {"token_type": "Bearer", "access_token": "a%d.%s" % (i, text_chars(self.rng, 12))}
        self.int[d["access_token"]] = i * 100 + k * 10 + 1
        if refresh:
            d["refresh_token"] = "r%d.%s" % (i, text_chars(self.rng, 12))
            self.int[d["refresh_token"]] = i * 100 + k * 10 + 2
        return d

    def exchange(self, ev, refresh, call):
        s = self.sess[ev["i"] - 1]
        n = s.get("k", 0) + 1
        self.queue[("token", s["iss"])] = self.answers(ev["k"], self.tokens(ev["i"], n, refresh))
        r = call(s["state"])
        if is_error_message(r):
            return "err"
        s["k"] = n
        return "ok"

    def ev_tok(self, ev, res):
        return self.exchange(ev, True, self.h.get_tokens)

    def ev_ref(self, ev, res):
        return self.exchange(ev, ev["n"], self.h.refresh_access_token)

    def ev_ui(self, ev, res):
        s = self.sess[ev["i"] - 1]
        k = s["iss"]
        self.queue[("userinfo", k)] = self.answers(ev["k"], {"sub": "someone"})
        um = self.P[k]["um"]
        kw = {} if um == "get" else {"method": "POST"}
        if um == "body":
            kw["authn_method"] = "bearer_body"
        r = self.h.get_user_info(s["state"], **kw)
        return "err" if is_error_message(r) else "ok"

    def ev_clear(self, ev, res):
        self.h.clear_session(self.sess[ev["i"] - 1]["state"])
        return "ok"

    def ev_tick(self, ev, res):
        Clock.tick(ev["dt"])
        return "ok"

    def ev_reload(self, ev, res):
        live = copy.deepcopy(self.cfg)
        h2 = RPHandler(BASE, client_configs=live, keyjar=rp_keyjar())
        for k in self.P:
            if self.url[k] not in self.h.issuer2rp:
                continue
            dump = json.dumps(self.ctx(k).dump())
            c2 = h2.init_client(self.url[k])
            c2.client_get("service_context").load(json.loads(dump))
            h2.issuer2rp[self.url[k]] = c2
        h2.hash2issuer.update(self.h.hash2issuer)
        self.h, self.live = h2, live
        return "ok"

    # ---------------------------------------------------- as the provider sees it
    def client_auth(self, k, q, f):
        a = q.headers.get("Authorization", "")
        a = a.decode() if isinstance(a, bytes) else a
        kinds = [x for x in ("Basic", "secret", "assertion") if (x == "Basic" and a) or (x == "secret" and "client_secret" in f)
                 or (x == "assertion" and ("client_assertion" in f or "client_assertion_type" in f))]
        need(len(kinds) == 1, "credentials: %s" % kinds)
        if kinds == ["Basic"]:
            need(a.startswith("Basic "), "Authorization")
            u, _, p = base64.b64decode(a[6:], validate=True).decode().partition(":")
            need(unquote_plus(u) == self.cid[k] and unquote_plus(p) == self.secret[k], "user or password")
            need(f.get("client_id", self.cid[k]) == self.cid[k], "client_id")
            return "basic"
        if kinds == ["secret"]:
            need(f["client_secret"] == self.secret[k] and f.get("client_id") == self.cid[k], "client_id or client_secret")
            return "post"
        need(f.get("client_assertion_type") == "urn:ietf:params:oauth:client-assertion-type:jwt-bearer", "assertion type")
        need(f.get("client_id", self.cid[k]) == self.cid[k], "client_id")
        h, b = jwt_parts(f["client_assertion"])
        alg = h["alg"]
        if alg.startswith("HS"):
            verify(f["client_assertion"], [key_from_jwk_dict({"kty": "oct", "k": b64e(self.secret[k].encode()).decode()})], alg)
        else:
            verify(f["client_assertion"], pubkeys(), alg)
        need(b.get("iss") == self.cid[k] and b.get("sub") == self.cid[k], "iss or sub")
        need(b.get("aud") in (self.ep(k, "token"), [self.ep(k, "token")]), "aud")
        need(isinstance(b.get("exp"), int) and Clock.now < b["exp"] <= Clock.now + 86400, "exp")
        need(b.get("iat", Clock.now) <= Clock.now, "iat")
        self.fresh_jti(b.get("jti"))
        return ("client_secret_jwt:" if alg.startswith("HS") else "private_key_jwt:") + alg

    def fresh_jti(self, j):
        need(isinstance(j, str) and len(j) > 15 and j not in self.seen["jti"], "jti")
        self.seen["jti"].add(j)

    def dpop(self, k, q):
        t = q.headers.get("dpop")
        if t is None:
            return ""
        t = t.decode() if isinstance(t, bytes) else t
        try:
            h, b = jwt_parts(t)
            need(h.get("typ") == "dpop+jwt" and h.get("alg") not in (None, "none"), "header")
            need(isinstance(h.get("jwk"), dict) and not set(h["jwk"]) & PRIVATE, "jwk")
            key = key_from_jwk_dict(h["jwk"], private=False)
            verify(t, [key], h["alg"])
            p = self.P[k]["dp"]
            need(p and h["alg"] in DPOP[p][0] and h["alg"] in (DPOP[p][1] or []), "algorithm")
            need(b.get("htm") == q.method, "htm")
            need(b.get("htu") in (q.url, q.url.split("?")[0]), "htu")
            need(b.get("iat") == int(Clock.now), "iat")
            self.fresh_jti(b.get("jti"))
            tp = key.thumbprint("SHA-256")
            need(self.dkey.setdefault(k, tp) == tp, "another key than before")
            need(all(v != tp for j, v in self.dkey.items() if j != k), "another provider's key")
            return h["alg"]
        except Bad as err:
            return "bad: %s" % err

    def verifier(self, f):
        v = f.get("code_verifier")
        if v is None:
            return 0
        if not set(v) <= UNRESERVED:
            return -2
        if any(v in x for x in self.texts):
            return -3
        for i, s in enumerate(self.sess):
            if s["ch"] and b64e(HASH[s["m"]](v.encode()).digest()).decode() == s["ch"]:
                if len(v) != self.P[s["iss"]]["pl"]:
                    return -4
                return i + 1
        return -1

    def wire(self):
        out = []
        for q in Net.take():
            k, what = next(((k, n) for k in self.url for n in ("token", "userinfo", "par", "reg", "jwks", ".well-known/openid-configuration")
                            if off(q.url, self.ep(k, n)) is not None), (None, None))
            if what in ("reg", "jwks", ".well-known/openid-configuration"):
                continue
            rec = {"ep": "?", "iss": k or "?", "i": -1, "x": 0, "auth": "", "ver": 0, "dp": "", "par": dict(NOPAR)}
            try:
                if what == "par":
                    self.texts.append(q.body)
                    rec.update(ep="par", i=0, par=self.params(k, self.read_par(k, q)))
                elif what == "token":
                    need(q.method == "POST" and q.url == self.ep(k, "token"), "method")
                    f = self.flat(q.body)
                    rec["auth"] = self.client_auth(k, q, f)
                    rec["dp"] = self.dpop(k, q)
                    rec["ver"] = self.verifier(f)
                    if f.get("grant_type") == "authorization_code":
                        rec.update(ep="token", i=self.int.get(f.get("code"), -1),
                                   x=next((n for n, z in self.uris[k].items() if z == f.get("redirect_uri")), -1))
                        need("refresh_token" not in f and "access_token" not in f, "tokens in the code exchange")
                    elif f.get("grant_type") == "refresh_token":
                        rec.update(ep="refresh", i=self.int.get(f.get("refresh_token"), -1))
                        need("code" not in f, "code in a refresh")
                elif what == "userinfo":
                    a = q.headers.get("Authorization", "")
                    a = a.decode() if isinstance(a, bytes) else a
                    f = self.flat(q.body)
                    rec["ep"] = "ui"
                    rec["dp"] = self.dpop(k, q)
                    need("access_token" not in q.url, "token in the URL")
                    where = [x for x in (a[7:] if a.startswith("Bearer ") else None, f.get("access_token")) if x]
                    need(len(where) == 1, "%d access tokens" % len(where))
                    rec["i"] = self.int.get(where[0], -1)
                    rec["auth"] = q.method + (":header" if a else ":body")
                    self.texts.append(q.body)
                else:
                    self.texts.append(q.body)
            except Bad as err:
                rec["auth"] = "bad: %s" % err
            self.texts.append(q.url)
            self.texts += [str(v) for h, v in q.headers.items() if not (what == "token" and h.lower() == "authorization")]
            out.append(rec)
        for t in self.texts[self.checked:]:
            for k in self.secret:
                for v in (self.secret[k], quote_plus(self.secret[k])):
                    if v in t:
                        out.append({"ep": "leak", "iss": k, "i": 0, "x": 0, "auth": "", "ver": 0, "dp": "", "par": dict(NOPAR)})
        self.checked = len(self.texts)
        return out

    # ------------------------------------------------------------ observation
    checked = 0
    intact = True

    def info(self, i):
        s = self.sess[i]
        try:
            return json.dumps(self.h.get_session_information(s["state"]).to_dict(), sort_keys=True)
        except Exception:
            return None

    def do(self, ev):
        n0 = len(self.sess)
        before = [self.info(i) for i in range(n0)]
        res = copy.deepcopy(NORES)
        if self.crowd == "some" and self.rng.random() < .5:
            self.others()
        Net.take()
        try:
            out = getattr(self, "ev_" + ev["t"])(ev, res)
            self.err = None
        except Exception as e:
            out = "exc"
            res = copy.deepcopy(NORES)
            self.err = e
        wire = self.wire()
        for i in range(n0, len(self.sess)):
            # the redirect URI the session was started with
            s = self.sess[i]
            s["ru"] = self.uris[s["iss"]][ev["a"]["ru"] or 1] if ev["t"] == "begin" else self.uris[s["iss"]][1]
        changed = [i + 1 for i in range(n0) if before[i] != self.info(i)]
        return {"out": out, "res": res, "wire": wire, "changed": changed}

    def view(self):
        sess = []
        for i, s in enumerate(self.sess):
            db = self.ctx(s["iss"]).state
            v = {"known": self.info(i) is not None, "par": dict(NOPAR), "nonce": 0}
            if v["known"]:
                d = db.get_item(AuthorizationRequest, "auth_request", s["state"]).to_dict()
                if (d.get("state"), d.get("nonce"), d.get("code_challenge")) == (s["state"], s["nonce"], s["ch"]):
                    v["par"] = self.params(s["iss"], d)
            try:
                st = db.get_state_by_nonce(s["nonce"])
                v["nonce"] = next((j + 1 for j, z in enumerate(self.sess) if z["state"] == st), -1)
            except Exception:
                pass
            sess.append(v)
        ok = self.intact
        if self.h:
            ok = ok and self.live == self.cfg
            for k, b in self.behaviour.items():
                ok = ok and self.ctx(k).behaviour == b
            for fn, text in self.files.values():
                ok = ok and open(fn).read() == text
        return {"n": len(self.sess), "sess": sess, "cfg": ok}


def judge(exp, got):
    for a, b in zip(exp["wire"], got["wire"]):
        if a["auth"].endswith(":*") and ":" in b["auth"] and not b["auth"].startswith("bad"):
            b["auth"] = a["auth"]
    return mbt.judge(exp, got)


def make(P, seed, variant):
    return Requests(P, seed, variant)
