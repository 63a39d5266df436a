"""RPNegotiate on the real code."""
import copy
import json
import random

from world import Net, Clock, T0, JSON_H
from core import BASE, rp_keyjar
from oidcrp.exception import ConfigurationError
from oidcrp.oidc import DEFAULT_SERVICES
from oidcrp.rp_handler import RPHandler

NAME = "negotiate"
MODULE = "RPNegotiate"
VIEW = "Hide"
CONSTRAINT = "InBounds"
CONSTS = {"Focus": "C15", "Wide": False, "Long": False}
INVARIANTS = []
PROPERTIES = ["PropC15"]

JWE_ALG = ["RSA-OAEP", "ECDH-ES", "RSA1_5"]
JWE_ENC = ["A128CBC-HS256", "A256GCM", "A128GCM"]
JWS_ALG = ["RS256", "ES256", "PS512"]
# preference -> (metadata, values)
PAR = {
    "token_endpoint_auth_method": ("token_endpoint_auth_methods_supported", ["client_secret_basic", "client_secret_post", "client_secret_jwt"]),
    "id_token_signed_response_alg": ("id_token_signing_alg_values_supported", JWS_ALG),
    "subject_type": ("subject_types_supported", ["public", "pairwise"]),
    "request_object_signing_alg": ("request_object_signing_alg_values_supported", JWS_ALG),
    "request_object_encryption_alg": ("request_object_encryption_alg_values_supported", JWE_ALG),
    "request_object_encryption_enc": ("request_object_encryption_enc_values_supported", JWE_ENC),
    "userinfo_signed_response_alg": ("userinfo_signing_alg_values_supported", JWS_ALG),
    "userinfo_encrypted_response_alg": ("userinfo_encryption_alg_values_supported", JWE_ALG),
    "userinfo_encrypted_response_enc": ("userinfo_encryption_enc_values_supported", JWE_ENC),
    "id_token_encrypted_response_alg": ("id_token_encryption_alg_values_supported", JWE_ALG),
    "id_token_encrypted_response_enc": ("id_token_encryption_enc_values_supported", JWE_ENC),
    "token_endpoint_auth_signing_alg": ("token_endpoint_auth_signing_alg_values_supported", JWS_ALG),
    "response_types": ("response_types_supported", ["code", "id_token", "code id_token"]),
    "grant_types": ("grant_types_supported", ["authorization_code", "implicit", "refresh_token"]),
    "default_acr_values": ("acr_values_supported", ["loa1", "loa2", "loa12"]),
    "scope": ("scopes_supported", ["openid", "email", "mail"]),
    "client_name": (None, ["one", "two", "three"]),
    "application_type": (None, ["web", "native"]),
    "contacts": (None, ["a@example.com", "b@example.com", "c@example.com"]),
}
# what else there is to do with the parameter, if it isn't the one that is varied
REST = {"response_types": ["code"], "scope": ["openid"]}
# metadata that nobody has preferences about but which may be there
EXTRA = {"claims_supported": ["sub", "email"], "claim_types_supported": ["normal"], "display_values_supported": ["page"]}


def warm():
    rp_keyjar()


class Nego:
    def __init__(self, P, seed, variant=None):
        self.rng = random.Random(seed)
        Clock.set(T0)
        Net.reset()
        Net.on("https://*", self.serve)
        self.iss = {p: "https://%s.example.com" % p.lower() for p in P["provs"]}
        self.cfg = self.h = None
        self.prov = None
        self.reg = []
        self.err = None

    # the values of other preferences: the client's and the provider's, that match
    def others(self):
        r = random.Random(self.noise)
        out = {}
        for par, (meta, vals) in PAR.items():
            if par == self.cfg["par"] or meta is None:
                continue
            pair = par.replace("_alg", "_enc") if par.endswith("_alg") else par.replace("_enc", "_alg")
            needed = "encrypt" in par and pair == self.cfg["par"]
            if par in REST:
                out[par] = REST[par]
            elif needed or ("encrypt" not in par and r.random() < .3):
                out[par] = [r.choice(vals)]
            if par == "grant_types" and par in out:
                out[par] = ["authorization_code"]
        return out

    def metadata(self, p):
        r = self.rng
        b = self.iss[p]
        m = {"issuer": b, "authorization_endpoint": b + "/authz", "token_endpoint": b + "/token", "jwks_uri": b + "/jwks",
             "registration_endpoint": b + "/reg", "response_types_supported": ["code"], "subject_types_supported": ["public"],
             "id_token_signing_alg_values_supported": ["RS256"]}
        for par, v in self.others().items():
            meta = PAR[par][0]
            m[meta] = list(dict.fromkeys(v + (["RS256"] if par == "id_token_signed_response_alg" else [])))
        for k, v in EXTRA.items():
            if r.random() < .3:
                m[k] = v
        par = self.cfg["par"]
        meta, vals = PAR[par]
        if meta:
            m.pop(meta, None)
            if self.prov != [0]:
                l = [vals[i - 1] for i in self.prov]
                if r.random() < .4:
                    # others that it supports and that look alike
                    for x in r.sample([vals[0][:-1], vals[-1] + "x", vals[0].swapcase(), "another", "none" if "alg" in par and par != "token_endpoint_auth_signing_alg" else "x"], 2):
                        l.insert(r.randrange(len(l) + 1), x)
                m[meta] = l[0] if len(l) == 1 and par not in ("scope",) and r.random() < .3 else l
        items = list(m.items())
        r.shuffle(items)
        return dict(items)

    def serve(self, q):
        for p, b in self.iss.items():
            if q.url == b + "/.well-known/openid-configuration":
                return 200, JSON_H, json.dumps(self.metadata(p))
            if q.url == b + "/reg":
                d = json.loads(q.body)
                self.reg.append(d)
                return 201, JSON_H, json.dumps(dict(d, client_id="id" + p, client_secret="s" * 32))
        return 404, {}, ""

    def ev_setup(self, ev):
        r = self.rng
        self.cfg = c = ev["cfg"]
        self.noise = r.random()
        vals = PAR[c["par"]][1]
        prefs = {par: (v if isinstance(REST.get(par), list) or par in ("grant_types", "default_acr_values") else r.choice([v, v[0]]))
                 for par, v in self.others().items()}
        pref = [vals[i - 1] for i in c["pref"]]
        prefs[c["par"]] = pref[0] if c["str"] else pref
        items = list(prefs.items())
        r.shuffle(items)
        self.prefs = dict(items)
        base = {"client_preferences": self.prefs, "services": {n: copy.deepcopy(v) for n, v in DEFAULT_SERVICES.items()},
                "redirect_uris": [BASE + "/cb"]}
        if r.random() < .4:
            base["behaviour"] = r.choice([{}, {"verify_args": {"allow_missing_kid": True}}])
        cc = {"": base}
        if c["mode"] == "own":
            for p, b in self.iss.items():
                # a preference set may be shared
                cc[b] = dict(base, issuer=b, client_id="own" + p, client_secret="s" * 32)
        self.h = RPHandler(BASE, client_configs=cc, keyjar=rp_keyjar())
        return "ok", {"reg": []}

    def numbers(self, v):
        vals = PAR[self.cfg["par"]][1]
        l = v if isinstance(v, list) else [v]
        return [vals.index(x) + 1 if x in vals else "bad: %r" % (x,) for x in l]

    def ev_nego(self, ev):
        self.prov = ev["prov"]
        self.reg = []
        self.h.client_setup(self.iss[ev["p"]])
        par = self.cfg["par"]
        reg = []
        if self.cfg["mode"] == "def":
            if len(self.reg) != 1:
                reg = ["%d registrations" % len(self.reg)]
            elif par not in ("grant_types", "scope") and self.client(ev["p"])["val"]:
                reg = self.numbers(self.reg[0].get(par))
                if isinstance(self.reg[0].get(par), list) != (par in ("response_types", "default_acr_values", "contacts")):
                    reg = ["bad: %r" % self.reg[0].get(par)]
        elif self.reg:
            reg = ["registered"]
        return "ok", {"reg": reg}

    def do(self, ev):
        Net.take()
        self.err = None
        try:
            out, res = getattr(self, "ev_" + ev["t"])(ev)
        except Exception as e:
            out, res = "config" if isinstance(e, ConfigurationError) else "exc", {"reg": []}
            self.err = e
        return {"out": out, "res": res, "wire": [], "changed": []}

    def client(self, p):
        rp = self.h.issuer2rp.get(self.iss[p]) if self.h else None
        if rp is None:
            return {"on": False, "val": []}
        v = rp.client_get("service_context").behaviour.get(self.cfg["par"])
        if isinstance(v, list) != (self.cfg["par"] in ("response_types", "grant_types", "default_acr_values", "scope", "contacts")):
            return {"on": True, "val": "bad: %r" % (v,)}
        return {"on": True, "val": self.numbers(v)}

    def view(self):
        return {p: self.client(p) for p in self.iss}


def make(P, seed, variant):
    return Nego(P, seed, variant)
