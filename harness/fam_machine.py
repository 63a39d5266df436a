"""RPMachine on the real code."""
import base64
import json
import random
from urllib.parse import parse_qsl, urlencode, unquote_plus

from world import Net, Clock, T0, JSON_H
from core import BASE, rp_keyjar
from oidcmsg.oauth2 import AccessTokenResponse, is_error_message
from oidcrp.oauth2 import Client
from oidcrp.rp_handler import RPHandler

NAME = "machine"
MODULE = "RPMachine"
VIEW = "Hide"
CONSTRAINT = "InBounds"
CONSTS = {"Focus": "C28", "Wide": False, "Long": False}
INVARIANTS = []
PROPERTIES = ["PropC28"]

NORES = {"tok": 0, "rem": -1, "rt": 0}
AS = "https://as.example.com"
FORM_H = {"content-type": "application/x-www-form-urlencoded"}


def warm():
    rp_keyjar()


class MachineRun:
    def __init__(self, P, seed, variant=None):
        self.rng = random.Random(seed)
        self.unit = self.rng.choice([100, 100, 3, 7200, 10 ** 6])     # seconds
        self.keys = P["keys"]
        # texts alike, and like the default one
        a, b = self.rng.sample(["k1", "K1", "CC", "Cc", "c", "ccc", "cc ", " cc", "cc/1", "c\u00e7", "k" * 40, "cc_", "\"cc\"", "none", "0"], 2)
        self.key = {"": "cc", "k1": a, "k2": b}
        Clock.set(T0)
        Net.reset()
        Net.on("https://*", self.serve)
        self.n = 0
        self.toks = {}
        self.err = None
        self.c = None

    def fresh(self, what):
        self.n += 1
        return "%s-%d%s" % (what, self.n, self.rng.choice(["", "", "+/=", "%41&b", "._~"]))

    def ev_set(self, ev):
        self.auth = ev["auth"]
        self.cid, self.sec = "machine", self.rng.choice(["secret with / and +", "s" * 40, "another password"])
        self.c = Client(keyjar=rp_keyjar(), config={
            "issuer": AS, "client_id": self.cid, "client_secret": self.sec, "base_url": BASE, "behaviour": {},
            "provider_info": {"issuer": AS, "token_endpoint": AS + "/token"}},
            services={"token": {"class": "oidcrp.oauth2.client_credentials.cc_access_token.CCAccessToken"},
                      "refresh": {"class": "oidcrp.oauth2.client_credentials.cc_refresh_access_token.CCRefreshAccessToken"}})
        for x in ("accesstoken", "refresh_token"):
            self.c.client_get("service", x).endpoint = AS + "/token"
        us = {"authorization": {"class": "oidcrp.oauth2.authorization.Authorization"},
              "access_token": {"class": "oidcrp.oauth2.access_token.AccessToken"},
              "refresh_access_token": {"class": "oidcrp.oauth2.refresh_access_token.RefreshAccessToken"}}
        self.h = RPHandler(BASE, client_configs={"u": {
            "issuer": AS + "/u", "client_id": "users", "client_secret": "u" * 40, "redirect_uris": [BASE + "/cb"],
            "services": us, "behaviour": {"response_types": ["code"], "scope": ["user"]},
            "provider_info": {"issuer": AS + "/u", "authorization_endpoint": AS + "/u/authz",
                              "token_endpoint": AS + "/u/token"}}}, keyjar=rp_keyjar())
        return "ok", NORES

    def serve(self, q):
        if q.url == AS + "/u/token":
            d = {"access_token": self.fresh("uat"), "token_type": "Bearer"}
            if self.plan["t"] == "login" and self.plan["rt"] == "rt":
                d["refresh_token"] = self.fresh("urt")
                self.toks[d["refresh_token"]] = ("user", 1)
            return 200, JSON_H, json.dumps(d)
        if q.url != AS + "/token":
            return 404, {}, ""
        t, k = self.plan["tok"], self.plan["tok"]["k"]
        key = self.plan["k"]
        if k in ("form", "json", "jsonsilent", "noat", "notype"):
            d = {"access_token": self.fresh("at"), "token_type": self.rng.choice(["bearer", "Bearer", "example"])}
            if self.rng.random() < .3:
                d["scope"] = "a"
            if t["life"]:
                d["expires_in"] = max(t["life"], 0) * self.unit
            if t["rt"]:
                d["refresh_token"] = self.fresh("rt")
                self.toks[d["refresh_token"]] = (key, t["rt"])
            if k == "noat":
                del d["access_token"]
            elif k == "notype":
                del d["token_type"]
            else:
                self.toks[d["access_token"]] = (key, t["n"])
            if k == "form":
                return 200, FORM_H, urlencode(d)
            return 200, {} if k == "jsonsilent" else JSON_H, json.dumps(d)
        e = {"error": self.rng.choice(["invalid_grant", "invalid_client"])}
        return {"err400": (self.rng.choice([400, 401]), JSON_H, json.dumps(e)), "err400f": (400, FORM_H, urlencode(e)),
                "err200": (200, JSON_H, json.dumps(e)),
                "http500": (self.rng.choice([500, 502, 503]), {"content-type": "text/plain"}, "Oh dear"),
                "http302": (self.rng.choice([302, 303, 307]), {"location": AS + "/elsewhere"}, ""),
                "garbage": (200, self.rng.choice([{}, {"content-type": "text/html"}, JSON_H]), "<html>")}[k]

    def wire(self):
        out = []
        for q in Net.take():
            user = q.url == AS + "/u/token"
            f = dict(parse_qsl(q.body, keep_blank_values=True))
            hd = q.headers.get("Authorization", "")
            d = {"grant": f.pop("grant_type", ""), "key": "user" if user else "", "n": 0, "auth": "", "scope": ""}
            cid, sec = ("users", "u" * 40) if user else (self.cid, self.sec)
            if q.method != "POST" or q.url not in (AS + "/token", AS + "/u/token"):
                d["odd"] = repr(q)
            if hd.startswith("Basic "):
                u, _, p = base64.b64decode(hd[6:]).decode().partition(":")
                d["auth"] += "client_secret_basic" if (unquote_plus(u), unquote_plus(p)) == (cid, sec) else "bad"
            if "client_secret" in f:
                d["auth"] += "client_secret_post" if (f.pop("client_secret"), f.get("client_id")) == (sec, cid) else "bad"
            if f.get("client_id") == cid:
                del f["client_id"]
            f.pop("state", None)
            sc = f.pop("scope", "")
            if d["grant"] == "refresh_token":
                t = {x for x in (f.pop("refresh_token", None), hd[7:] if hd.startswith("Bearer ") else None) if x}
                d["key"], d["n"] = self.toks.get(t.pop(), ("?", 0)) if len(t) == 1 else ("?", 0)
                if not user:
                    d["auth"] = ""        # left open
            elif d["grant"] == "authorization_code":
                f.pop("code", 0)
                f.pop("redirect_uri", 0)
            else:
                d["scope"] = sc
            if f:
                d["more"] = f
            out.append(d)
        return out

    def args(self, k):
        return {"state": self.key[k]} if k else self.rng.choice([{}, {"state": "cc"}])

    def said(self, got, k):
        if is_error_message(got):
            return "err", NORES
        rt = got.get("refresh_token")
        exp = got.get("__expires_at")
        if got.get("access_token") not in self.toks or self.toks[got["access_token"]][0] != k:
            return "ok", {"tok": got.to_dict()}
        return "ok", {"tok": self.toks[got["access_token"]][1], "rem": self.rem(exp), "rt": self.toks.get(rt, (0, 0))[1]}

    def rem(self, exp):
        if not exp:
            return 99
        r = (exp - Clock.now) / self.unit
        return max(0, int(r)) if r == int(r) else r

    def ev_get(self, ev):
        self.plan = ev
        ra = self.rng.choice([{"grant_type": "client_credentials"}, {}])
        if ev["scope"]:
            ra["scope"] = ev["scope"].split() if self.rng.random() < .5 else ev["scope"]
        return self.said(self.c.do_request("accesstoken", request_args=ra or self.rng.choice([{}, None]), authn_method=self.auth, **self.args(ev["k"])),
                         ev["k"])

    def ev_refresh(self, ev):
        self.plan = ev
        return self.said(self.c.do_request("refresh_token", **self.args(ev["k"])), ev["k"])

    def ev_login(self, ev):
        self.plan = ev
        b = self.h.begin("u")
        self.h.finalize(AS + "/u", {"state": b["state"], "code": "c"})
        self.ustate = b["state"]
        return "ok", NORES

    def ev_urefresh(self, ev):
        self.plan = ev
        self.h.refresh_access_token(self.ustate)
        return "ok", NORES

    def ev_tick(self, ev):
        Clock.tick(self.unit)
        return "ok", NORES

    def do(self, ev):
        Net.take()
        self.err = None
        try:
            out, res = getattr(self, "ev_" + ev["t"])(ev)
        except Exception as e:
            out, res = "exc", NORES
            self.err = e
        return {"out": out, "res": res, "wire": self.wire(), "changed": []}

    def view(self):
        m = {k: {"at": 0, "rem": -1, "rt": 0} for k in self.keys}
        for k in self.keys if self.c else ():
            try:
                x = self.c.client_get("service_context").state.get_item(AccessTokenResponse, "token_response", self.key[k])
            except KeyError:
                continue
            a, t = self.toks.get(x.get("access_token"), ("?", "?")), self.toks.get(x.get("refresh_token"), (k, 0))
            m[k] = {"at": a[1] if a[0] == k else "of %s" % a[0], "rem": self.rem(x.get("__expires_at")),
                    "rt": t[1] if t[0] == k else "of %s" % t[0]}
            if m[k]["rem"] == 0:
                m[k]["at"] = 0
        return {"m": m}


def make(P, seed, variant):
    return MachineRun(P, seed, variant)
