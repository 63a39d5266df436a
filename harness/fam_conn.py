"""RPConn on the real code."""
import copy
import json
import os
import random
from urllib.parse import urlsplit, parse_qs

from world import Net, Clock, T0, JSON_H, rsa_key, sign
from core import BASE, rp_keyjar
from cryptojwt.key_jar import KeyJar
from oidcmsg.oauth2 import is_error_message
from oidcrp.http import HTTPLib
from oidcrp.oidc import DEFAULT_SERVICES
from oidcrp.rp_handler import RPHandler
import mbt

NAME = "conn"
MODULE = "RPConn"
VIEW = "Hide"
CONSTRAINT = "InBounds"
CONSTS = {"Focus": "C30", "Wide": False, "Long": False}
INVARIANTS = []
PROPERTIES = ["PropC30"]

# nothing but what the handlers are told is to matter
for _v in ("REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE", "http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"):
    os.environ.pop(_v, None)

NORES = {"jw": []}
SERVICES = dict(DEFAULT_SERVICES, webfinger={"class": "oidcrp.oidc.webfinger.WebFinger"}, registration_read={"class": "oidcrp.oidc.read_registration.RegistrationRead"})
ISS = {"dyn": "https://dyn.example.com", "stat": "https://stat.example.com"}
CA, OWN, CERT, PROXY = "/etc/rp/ca.pem", "/etc/rp/own.pem", ("/etc/rp/c.pem", "/etc/rp/k.pem"), {"https": "http://proxy.example.com:3128"}
PARAMS = {"off": {"verify": False}, "ca": {"verify": CA}, "cert": {"verify": True, "cert": CERT},
          "both": {"verify": CA, "cert": CERT}, "proxy": {"verify": True, "proxies": PROXY}}
USER = "diana@people.example.com"
PRIV = None


def warm():
    global PRIV
    rp_keyjar()
    for i in range(3):
        for p in ISS:
            rsa_key("%s-%d" % (p, i))


class ConnRun:
    def __init__(self, P, seed, variant=None):
        self.rng = random.Random(seed)
        Clock.set(T0)
        Net.reset()
        Net.follow = True
        Net.on("*", self.serve)
        self.h = {}
        self.conf = {}
        self.kj = {}
        self.jar = {}        # cookie -> the host that set it
        self.url = {}        # address -> (what, provider)
        self.n = 0
        self.rot = 0
        self.last = {}       # (handler, provider) -> state
        self.nonce = {}
        self.red = None
        self.err = None
        self.end = {p: self.endpoints(p) for p in ISS}

    def fresh(self, x):
        self.n += 1
        return "%s-%d" % (x, self.n)

    def endpoints(self, p):
        out = {}
        for k, n in (("authz", "authorization_endpoint"), ("token", "token_endpoint"), ("userinfo", "userinfo_endpoint"),
                     ("registration", "registration_endpoint"), ("par", "pushed_authorization_request_endpoint"),
                     ("jwks", "jwks_uri")):
            u = "https://%s/%s" % (self.rng.choice([urlsplit(ISS[p]).netloc, p + "-" + k + ".example.net"]), k)
            out[n] = u
            self.url[u] = (k, p)
        for k in ("read", "source"):
            self.url["https://%s-%s.example.net/%s" % (p, k, k)] = (k, p)
        self.url[ISS[p] + "/.well-known/openid-configuration"] = ("discovery", p)
        return out

    def what(self, url):
        if url.startswith("https://people.example.com/.well-known/webfinger?"):
            return "webfinger", "dyn"
        return self.url.get(url, ("elsewhere: " + url, ""))

    # ---------------------------------------------------------------- network
    def serve(self, q):
        k, p = self.what(q.url)
        host = urlsplit(q.url).netloc
        c = self.fresh("c")
        self.jar[c] = host
        head = dict(JSON_H)
        if self.rng.random() < .8:
            head["set-cookie"] = "%s=%s%s" % (c, self.fresh("v"), self.rng.choice(["", "; Path=/", "; Domain=example.com; Path=/",
                                                                                  "; Path=/; Secure; HttpOnly", "; Domain=.example.net"]))
        if k.startswith("elsewhere"):
            # whoever comes here is given what they want
            k = self.red
        elif k == self.red:
            to = "https://%s/%s" % (self.rng.choice(["evil.example.org", host]), self.fresh("x"))
            return self.rng.choice([301, 302, 303, 307, 308]), dict(head, location=to), self.rng.choice(["", "{}", json.dumps(self.answer(k, p or "dyn", q))])
        if k == "jwks":
            return 200, head, json.dumps({"keys": [rsa_key("%s-%d" % (p, self.rot)).serialize(False)]})
        d = self.answer(k, p, q)
        if d is None:
            return 404, {}, ""
        return (201 if k in ("registration", "par") else 200), head, json.dumps(d)

    def answer(self, k, p, q):
        r = self.rng
        if k == "webfinger":
            res = parse_qs(urlsplit(q.url).query).get("resource", [""])[0]
            return {"subject": res, "links": [{"rel": "http://openid.net/specs/connect/1.0/issuer", "href": ISS["dyn"]}]}
        if k == "discovery":
            return dict(self.end[p], issuer=ISS[p], response_types_supported=["code"], subject_types_supported=["public"],
                        id_token_signing_alg_values_supported=["RS256"])
        if k in ("registration", "read"):
            return {"client_id": "id-" + p, "client_secret": "s" * 40, "redirect_uris": self.cbs,
                    "registration_access_token": "rat", "registration_client_uri": "https://dyn-read.example.net/read"}
        if k == "par":
            return {"request_uri": "urn:x:" + self.fresh("r"), "expires_in": 60}
        if k == "token":
            h = self.cur
            d = {"access_token": self.fresh("at"), "token_type": "Bearer", "refresh_token": self.fresh("rt"), "expires_in": 10000}
            if self.idt:
                d["id_token"] = sign({"iss": ISS[p], "sub": "diana", "aud": ["id-" + p], "iat": int(Clock.now),
                                      "exp": int(Clock.now) + 600, "nonce": self.nonce[self.last[(h, p)]]}, "RS256",
                                     rsa_key("%s-%d" % (p, self.rot)))
            return d
        if k == "userinfo":
            d = {"sub": "diana"}
            if p == "dyn":
                d["_claim_names"] = {"email": "src"}
                d["_claim_sources"] = {"src": {"endpoint": "https://dyn-source.example.net/source"}}
                if r.random() < .5:
                    d["_claim_sources"]["src"]["access_token"] = "tok"
            return d
        if k == "source":
            return {"email": "diana@source.example.net"}

    def label(self, q):
        w = q.how
        v = w.get("verify")
        c = w.get("cert")
        p = w.get("proxies") or {}
        return {"v": {True: "on", False: "off", CA: "ca", OWN: "own"}.get(v, "odd: %r" % (v,)),
                "c": True if c == CERT else False if not c else "odd: %r" % (c,),
                "p": True if dict(p) == PROXY else False if not p else "odd: %r" % (dict(p),)}

    def wire(self):
        out, jw = [], []
        for q in Net.take():
            k, p = self.what(q.url)
            ck = ""
            for part in q.headers.get("Cookie", "").split(";"):
                n = part.split("=")[0].strip()
                if n and self.jar.get(n) != urlsplit(q.url).netloc:
                    ck = "of " + str(self.jar.get(n))
            d = {"k": k, "l": self.label(q), "ck": ck}
            if k == "jwks":
                if d["l"] not in jw:
                    jw.append(d["l"])
            else:
                out.append(d)
        return out, jw

    # ----------------------------------------------------------------- events
    def ev_set(self, ev):
        r, h, conf = self.rng, ev["h"], ev["conf"]
        self.conf[h] = conf
        kw = {}
        if conf == "off" and r.random() < .5:
            kw["verify_ssl"] = False
        elif conf in PARAMS:
            kw["httpc_params"] = copy.deepcopy(PARAMS[conf])
            if conf in ("cert", "proxy") and r.random() < .5:
                del kw["httpc_params"]["verify"]
            if conf != "off" and r.random() < .3:
                kw["verify_ssl"] = True
        elif conf == "lib":
            kw["http_lib"] = HTTPLib({"verify": CA})
        elif r.random() < .3:
            kw["verify_ssl"] = True
        if ev["share"]:
            kj = self.kj["A"]
        else:
            kj = KeyJar(httpc_params={"verify": OWN}) if conf == "own" else KeyJar()
            kj.import_jwks(rp_keyjar().export_jwks(private=True), "")
        self.kj[h] = kj
        beh = {"response_types": ["code"], "scope": ["openid"], "token_endpoint_auth_method": "client_secret_basic"}
        pi = dict(self.end["stat"], issuer=ISS["stat"])
        uri = pi.pop("jwks_uri")
        pi["keys"] = {"url": {ISS["stat"]: uri}}
        st = {"issuer": ISS["stat"], "client_id": "id-stat", "client_secret": "s" * 40, "redirect_uris": [BASE + "/stat"],
              "behaviour": dict(beh), "services": copy.deepcopy(DEFAULT_SERVICES), "provider_info": pi,
              "add_ons": {"pushed_authorization": {
                  "function": "oidcrp.oauth2.add_on.pushed_authorization.add_support",
                  "kwargs": {"body_format": r.choice(["jws", "urlencoded"]), "merge_rule": r.choice(["lax", "strict"])}}}}
        dyn = {"client_preferences": dict(beh, id_token_signed_response_alg="RS256"), "services": copy.deepcopy(SERVICES)}
        self.cbs = [BASE + "/authz_cb/dyn"]
        dyn["redirect_uris"] = list(self.cbs)
        self.h[h] = RPHandler(BASE, client_configs={"": dyn, "stat": st}, keyjar=kj, hash_seed="seed", **kw)
        return "ok", NORES

    def ev_enter(self, ev):
        h, p = ev["h"], ev["p"]
        if ev["by"] == "user":
            b = self.h[h].begin(user_id=USER)
        else:
            b = self.h[h].begin(ISS["dyn"] if p == "dyn" else ("stat" if (h, p) not in self.last else self.rng.choice(["stat", ISS["stat"]])))
        self.last[(h, p)] = b["state"]
        info = self.h[h].get_session_information(b["state"])
        self.nonce[b["state"]] = info["auth_request"]["nonce"]
        return "ok", NORES

    def ev_finish(self, ev):
        h, p = ev["h"], ev["p"]
        if ev["rot"]:
            self.rot = (self.rot + 1) % 3
            Clock.tick(400)
        self.idt = True
        got = self.h[h].finalize(ISS[p], {"state": self.last[(h, p)], "code": self.fresh("code")})
        if "error" in got:
            return "exc", NORES
        if got["userinfo"]["sub"] != "diana":
            return "bad: %r" % got, NORES
        if p == "dyn":
            ui = self.h[h].issuer2rp[ISS[p]].fetch_distributed_claims(got["userinfo"])
            if ui["email"] != "diana@source.example.net":
                return "bad: %r" % ui, NORES
        return "ok", NORES

    def ev_refresh(self, ev):
        self.idt = False
        got = self.h[ev["h"]].refresh_access_token(self.last[(ev["h"], ev["p"])])
        return ("exc" if is_error_message(got) else "ok"), NORES

    def ev_regread(self, ev):
        got = self.h[ev["h"]].issuer2rp[ISS["dyn"]].do_request("registration_read")
        return ("exc" if is_error_message(got) else "ok"), NORES

    ASKS = {"finish": ["token", "userinfo", "source"], "refresh": ["token"], "regread": ["read"]}

    def do(self, ev):
        Net.take()
        self.err = None
        self.red = None
        self.cur = ev["h"]
        if ev.get("red"):
            a = self.ASKS.get(ev["t"])
            if ev["t"] == "enter":
                a = ["par"] if ev["p"] == "stat" else (["webfinger"] if ev["by"] == "user" else []) + ["discovery", "registration"]
            self.red = a[ev["red"] - 1]
        try:
            out, res = getattr(self, "ev_" + ev["t"])(ev)
        except Exception as e:
            out, res = "exc", NORES
            self.err = e
        w, jw = self.wire()
        return {"out": out, "res": {"jw": jw}, "wire": w, "changed": []}

    def view(self):
        return {"x": 0}


def judge(exp, got):
    want, have = exp["res"]["jw"], got["res"]["jw"]
    for l in have:
        if l not in want:
            return "keys: %s expected, %s observed" % (want, l)
    return mbt.judge(dict(exp, res={}), dict(got, res={}))


def make(P, seed, variant):
    return ConnRun(P, seed, variant)
