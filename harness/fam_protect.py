"""RPProtect on the real code."""
import copy
import json
import random
from urllib.parse import urlsplit, parse_qs

from cryptojwt.jwe.jwe import JWE
from cryptojwt.jwk.hmac import SYMKey
from cryptojwt.jwk.rsa import new_rsa_key
from cryptojwt.key_jar import build_keyjar
from cryptojwt.utils import b64e

from world import Net, Clock, T0, JSON_H, rsa_key, ec_key, jwks, sign
from core import BASE
from oidcrp.oidc import DEFAULT_SERVICES
from oidcrp.rp_handler import RPHandler
import mbt

NAME = "protect"
MODULE = "RPProtect"
VIEW = "Hide"
CONSTRAINT = "InBounds"
CONSTS = {"Focus": "C26", "Wide": False, "Long": False}
INVARIANTS = []
PROPERTIES = ["PropC26"]

OP = "https://op.example.com"
SECRET = "s" * 40
NORES = {"v": 0, "exact": True, "open": False}
_K = {}


def keyjar():
    if "kj" not in _K:
        _K["kj"] = build_keyjar([{"type": "RSA", "use": ["sig"]}, {"type": "EC", "crv": "P-256", "use": ["sig"]},
                                 {"type": "RSA", "use": ["enc"]}])
    return _K["kj"]


def enc_key(name):
    if name not in _K:
        _K[name] = new_rsa_key(2048, use="enc", kid=name)
    return _K[name]


def warm():
    keyjar()
    for n in ("op-A", "stranger"):
        rsa_key(n)
        ec_key(n)
    enc_key("other")
    enc_key("op")


class ProtectRun:
    def __init__(self, P, seed, variant=None):
        self.rng = random.Random(seed)
        Clock.set(T0)
        Net.reset()
        Net.on("https://*", self.serve)
        self.n = 0
        self.state = None
        self.err = None

    # ----------------------------------------------------------------- set-up
    def ev_set(self, ev):
        c = self.c = ev["c"]
        r = self.rng
        beh = {"response_types": ["code"], "scope": ["openid"]}
        if c["sig"]:
            beh["userinfo_signed_response_alg"] = c["sig"]
        if c["enc"]:
            beh["userinfo_encrypted_response_alg"] = self.alg = r.choice(["RSA-OAEP", "RSA-OAEP-256"])
            beh["userinfo_encrypted_response_enc"] = self.enc = r.choice(["A128GCM", "A256GCM", "A128CBC-HS256"])
        else:
            self.alg, self.enc = "RSA-OAEP", "A256GCM"
        info = {"issuer": OP, "authorization_endpoint": OP + "/authz", "token_endpoint": OP + "/token",
                "userinfo_endpoint": OP + "/ui"}
        if c["plist"]:
            info["userinfo_signing_alg_values_supported"] = ["ES256"] if c["plist"] == "ES256" else \
                r.sample(["RS256", "ES256"], 2)
        cfg = {"issuer": OP, "redirect_uris": [BASE + "/cb"],
               "services": {n: copy.deepcopy(v) for n, v in DEFAULT_SERVICES.items()}}
        if c["dyn"]:
            cfg["client_preferences"] = beh
            self.meta = dict(info, jwks_uri=OP + "/jwks", registration_endpoint=OP + "/reg",
                             response_types_supported=["code", "id_token"], subject_types_supported=["public"],
                             id_token_signing_alg_values_supported=["RS256", "ES256"], scopes_supported=["openid"],
                             userinfo_encryption_alg_values_supported=["RSA1_5", "RSA-OAEP", "RSA-OAEP-256"],
                             userinfo_encryption_enc_values_supported=["A128GCM", "A256GCM", "A128CBC-HS256", "A192GCM"])
        else:
            cfg.update(client_id="me", client_secret=SECRET, behaviour=beh, provider_info=info)
        self.h = RPHandler(BASE, client_configs={OP: cfg}, keyjar=keyjar())
        if r.random() < .3:
            self.h.jwks_uri = BASE + "/jwks"
        self.begin()
        self.rp = self.h.issuer2rp[OP]
        if not c["dyn"]:
            self.rp.client_get("service_context").keyjar.import_jwks_as_json(self.jwks(), OP)
        return "ok", NORES

    def jwks(self):
        return jwks(rsa_key("op-A"), ec_key("op-A"))

    def begin(self):
        b = self.h.begin(OP)
        self.nonce = parse_qs(urlsplit(b["url"]).query)["nonce"][0]
        return b["state"]

    # --------------------------------------------------------------- messages
    def claims(self, v):
        r = random.Random(v)
        d = {"sub": "joe", "name": "name %d" % v, "updated_at": 1000 + v, "address": {"country": "C%d" % v},
             "https://example.com/x": [v, {"y": None}]}
        if v == 2:
            d["email"] = "joe@example.com"
        return d

    def jws(self, d, m):
        r = self.rng
        if m["iss"]:
            d["iss"] = {"op": OP, "other": "https://other.example.com", "slash": OP + "/"}[m["iss"]]
        if m["aud"]:
            me = self.rp.client_get("service_context").client_id
            d["aud"] = r.choice([me, [me, "x"]]) if m["aud"] == "me" else r.choice(["another", ["another"]])
        alg, key = m["alg"], m["key"]
        if alg in ("none", "None"):
            h = b64e(json.dumps({"alg": alg, "kid": "op-A"}).encode()).decode()
            return ".".join([h, b64e(json.dumps(d).encode()).decode(), r.choice(["", "c2ln"])])
        mk = ec_key if alg == "ES256" else rsa_key
        if key == "mac":
            return sign(d, alg, SYMKey(key="another secret of the same length...1234", kid=r.choice(["", "op-A"])))
        if key == "pubmac":
            k = rsa_key("op-A")
            return sign(d, alg, SYMKey(key=r.choice([k.pub_key.public_numbers().n.to_bytes(256, "big"),
                                                     json.dumps(k.serialize()).encode()]), kid="op-A"))
        k = mk("op-A" if key == "op" else "stranger")
        if key in ("forged", "nokid"):
            k = copy.copy(k)
            k.kid = "op-A" if key == "forged" else ""
        t = sign(d, alg, k).split(".")
        if m["tam"] == "body":
            t[1] = b64e(json.dumps(dict(d, name="changed", admin=True)).encode()).decode()
        elif m["tam"] == "sig":
            i = r.randrange(len(t[2]) - 4)
            t[2] = t[2][:i] + ("A" if t[2][i] != "A" else "B") + t[2][i + 1:]
        elif m["tam"] == "nosig":
            t[2] = ""
        elif m["tam"] == "head":
            t[0] = b64e(json.dumps({"alg": alg, "kid": "op-A", "typ": "x"}).encode()).decode()
        return ".".join(t)

    def jwe(self, inner, nested, m):
        r = self.rng
        alg, enc = self.alg, self.enc
        if m["ealg"] == "alg":
            alg = "RSA1_5"
        elif m["ealg"] == "enc":
            enc = "A192GCM"
        if m["to"] == "me":
            k = [x for x in keyjar().get("enc", "RSA", "")][0]
        else:
            k = copy.copy(enc_key(m["to"]))
            if r.random() < .5:
                k.kid = keyjar().get("enc", "RSA", "")[0].kid
        x = {"cty": r.choice(["JWT", "jwt"])} if nested else r.choice([{}, {"cty": "json"}])
        return JWE(inner, alg=alg, enc=enc, **x).encrypt([k], kid=k.kid)

    def answer(self, m):
        d = self.claims(m["v"])
        if m["sub"] == "other":
            d["sub"] = "mallory"
        elif not m["sub"]:
            del d["sub"]
        self.sent = copy.deepcopy(d)
        text = json.dumps(d) if m["form"] in ("json", "jwejson") else self.jws(d, m)
        if m["form"] in ("jwe", "jwejson"):
            text = self.jwe(text, m["form"] == "jwe", m)
        right = "application/json" if m["form"] == "json" else "application/jwt"
        wrong = "application/jwt" if m["form"] == "json" else "application/json"
        lab = {"right": right, "wrong": wrong, "none": None, "text": "text/plain"}[m["label"]]
        if lab and self.rng.random() < .3:
            lab += "; charset=utf-8"
        return 200, {"content-type": lab} if lab else {}, text

    def serve(self, q):
        if q.url == OP + "/.well-known/openid-configuration":
            return 200, JSON_H, json.dumps(self.meta)
        if q.url == OP + "/jwks":
            return 200, JSON_H, self.jwks()
        if q.url == OP + "/reg":
            d = json.loads(q.body)
            return 201, JSON_H, json.dumps(dict(d, client_id="registered", client_secret=SECRET,
                                                client_secret_expires_at=0))
        if q.url == OP + "/token":
            idt = sign({"iss": OP, "sub": "joe", "aud": [self.rp.client_get("service_context").client_id],
                        "exp": T0 + 600, "iat": T0, "nonce": self.nonce}, "RS256", rsa_key("op-A"))
            return 200, JSON_H, json.dumps({"access_token": "at-%d" % self.n, "token_type": "Bearer", "id_token": idt})
        if q.url == OP + "/ui":
            return self.answer(self.m)
        return 404, {}, ""

    # ----------------------------------------------------------------- events
    def result(self, ui):
        got = ui.to_dict()
        for k in ("iss", "aud"):
            got.pop(k, None)
        v = [v for v in (1, 2) if got.get("name") == "name %d" % v]
        return {"v": v[0] if v else 0, "exact": True if got == self.sent else "got %r" % got, "open": False}

    def ev_login(self, ev):
        self.n += 1
        self.m = ev["r"]
        st = self.begin()
        got = self.h.finalize(OP, {"state": st, "code": "c%d" % self.n})
        if "error" in got:
            return "exc", NORES
        if ev["keep"]:
            self.state = st
        return "ok", self.result(got["userinfo"])

    def ev_again(self, ev):
        self.m = ev["r"]
        return "ok", self.result(self.h.get_user_info(self.state))

    def do(self, ev):
        Net.take()
        self.err = None
        try:
            out, res = getattr(self, "ev_" + ev["t"])(ev)
        except Exception as e:
            out, res = "exc", NORES
            self.err = e
        Net.take()
        return {"out": out, "res": res, "wire": [], "changed": []}

    def view(self):
        if not self.state:
            return {"have": 0}
        d = self.rp.client_get("service_context").state.get_state(self.state).get("user_info")
        d = json.loads(d) if isinstance(d, str) else d
        v = [v for v in (1, 2) if d and d.get("name") == "name %d" % v]
        return {"have": v[0] if v else 0}


def judge(exp, got):
    if exp["res"]["open"]:
        if got["out"] == "exc":
            return None
        exp = dict(exp, res=dict(exp["res"], open=False))
    return mbt.judge(exp, got)


def make(P, seed, variant):
    return ProtectRun(P, seed, variant)
