"""RPWebFinger on the real code."""
import copy
import json
import random
import string
from urllib.parse import urlsplit, parse_qs

from world import Net, Clock, T0, JSON_H, rsa_key, jwks
from core import BASE, rp_keyjar, text_chars
from oidcrp.rp_handler import RPHandler
from oidcrp.oidc import DEFAULT_SERVICES
import requests

NAME = "webfinger"
MODULE = "RPWebFinger"
VIEW = "Hide"
CONSTRAINT = "InBounds"
CONSTS = {"Focus": "C23", "Wide": False, "Long": False}
INVARIANTS = []
PROPERTIES = ["PropC23"]

REL = "http://openid.net/specs/connect/1.0/issuer"
NEAR = [REL + "/", REL.upper(), REL[:-1], "https" + REL[4:], REL + "s", "issuer"]
OTHER = ["http://webfinger.net/rel/avatar", "blog", "http://webfinger.net/rel/profile-page", "vcard"]
NORES = {"sch": "", "usr": False, "port": False, "path": 0, "q": False}


def warm():
    rp_keyjar()
    rsa_key("op-A")


class WF:
    def __init__(self, P, seed, variant=None):
        self.rng = r = random.Random(seed)
        Clock.set(T0)
        Net.reset()
        tail = r.choice(["", "/", "/op", "/op/x"])
        self.url = {"A": "https://op.example.com" + tail, "B": "https://op.example.org" + tail,
                    "H": "http://op.example.com" + tail, "U": "HTTP://op.example.net" + tail}
        Net.on("https://*", self.serve)
        Net.on("http://*", self.serve)
        Net.on("HTTP://*", self.serve)
        self.sess = []
        self.h = None
        self.answer = None
        self.asked = None
        self.err = None

    # ------------------------------------------------------- the other side
    def metadata(self, k):
        b = self.url[k].rstrip("/")
        return {"issuer": self.url[k], "authorization_endpoint": b + "/authz", "token_endpoint": b + "/token",
                "jwks_uri": b + "/jwks", "registration_endpoint": b + "/reg",
                "response_types_supported": ["code"], "subject_types_supported": ["public"],
                "id_token_signing_alg_values_supported": ["RS256"]}

    def which(self, url):
        """-> issuer and what is asked for"""
        for k, u in self.url.items():
            b = u.rstrip("/").lower()
            for what, p in (("disc", "/.well-known/openid-configuration"), ("reg", "/reg"), ("jwks", "/jwks")):
                if url.lower() == b + p:
                    return k, what
        return "?", "?"

    def serve(self, q):
        if urlsplit(q.url).path == "/.well-known/webfinger":
            return self.webfinger(q)
        k, what = self.which(q.url)
        if what == "disc":
            return 200, JSON_H, json.dumps(self.metadata(k))
        if what == "reg":
            return 201, JSON_H, json.dumps(dict(json.loads(q.body), client_id="dyn" + k, client_secret="s" * 40))
        if what == "jwks":
            return 200, JSON_H, jwks(rsa_key("op-A"))
        return 404, {}, ""

    def webfinger(self, q):
        a, r = self.answer, self.rng
        links = []
        for x in a["links"]:
            d = {"rel": {"iss": REL, "near": r.choice(NEAR), "other": r.choice(OTHER)}[x["rel"]]}
            if x["href"] != "n":
                d["href"] = self.url[x["href"]]
            if r.random() < .3:
                d["type"] = "text/html"
            links.append(d)
        body = {"subject": r.choice(["acct:joe@example.com", "https://somewhere.example.com/"]), "links": links}
        if r.random() < .3:
            body["aliases"] = ["https://example.com/joe"]
        head = {"content-type": r.choice(["application/json", "application/jrd+json", "application/json; charset=utf-8"])}
        st = a["st"]
        if st == "neterr":
            raise requests.ConnectionError("refused")
        if st == "404":
            return r.choice([404, 410, 400]), head, json.dumps(body)
        if st == "500":
            return r.choice([500, 503]), {"content-type": "text/plain"}, "oops"
        if st == "302":
            return r.choice([301, 302, 307]), dict(head, location="https://" + urlsplit(q.url).netloc + "/wf"), json.dumps(body)
        if st == "garbage":
            return 200, JSON_H, json.dumps(body)[:-3]
        if st == "nolinks":
            body.pop("links")
        if st == "empty":
            return 200, JSON_H, ""
        if st == "error":
            body = {"error": "not_found"}
        return 200, head, json.dumps(body)

    # --------------------------------------------------------------- events
    def config(self, k=None):
        c = {"services": {n: copy.deepcopy(v) for n, v in DEFAULT_SERVICES.items()},
             "client_preferences": {"response_types": ["code"], "scope": ["openid"]},
             "redirect_uris": [BASE + "/cb"]}
        c["services"]["webfinger"] = {"class": "oidcrp.oidc.webfinger.WebFinger"}
        if self.cfg["allow"]:
            for v in c["services"].values():
                if "WebFinger" in str(v["class"]):
                    v["kwargs"] = {"conf": {"allow": {"http_links": self.cfg["allow"] == "yes"}}}
        if k:
            c.update(issuer=self.url[k], client_id="stat" + k, client_secret="t" * 40, redirect_uris=[BASE + "/cb/" + k])
        return c

    def ev_setup(self, ev):
        self.cfg = ev["cfg"]
        cc = {"": self.config()}
        for k in self.cfg["own"]:
            cc[self.url[k]] = self.config(k)
        self.h = RPHandler(BASE, client_configs=cc, keyjar=rp_keyjar())
        return "ok", {"sess": 0, "iss": ""}

    def text(self, d):
        """an identifier with these parts"""
        r = self.rng
        user = host = ""
        if d["usr"]:
            user = r.choice(["joe", "Jane.Doe", "joe+x", "o'neil", "j_o~e", "j%20e", "joe%40work", "j\u00f6e", "a&b=c", "1", "acct", "http"]) + "@"
        if d["host"]:
            host = r.choice(["example.com", "Example.COM", "www.example.com", "localhost", "127.0.0.1", "a-b.example.com",
                             "xn--bcher-kva.example"])
            if d["sch"] in ("https", "http") and r.random() < .1:
                host = "[2001:db8::1]"
        rest = (":%d" % r.choice([8080, 443, 1]) if d["port"] else "") + \
            ["", "/" + r.choice(["joe", "a/b", "joe/", "a@b", "x:y", "%7Ejoe", "a=b"]), "/"][d["path"]]
        q = "?" + r.choice(["query", "a=b", "a=b&c=d", "u=joe@example.org", "u=https://example.org/x", "a=%20", "a:b"]) if d["q"] else ""
        frag = "#" + r.choice(["fragment", "a@b", "?x", "/y", "a:b"]) if d["frag"] else ""
        sch = {"": "", "acct": "acct:"}.get(d["sch"], d["sch"] + "://")
        sch2 = sch
        if sch and r.random() < .2:
            sch2 = sch.upper()
        self.asked = (d, user + host + rest + q, host + (rest.split("/")[0] if d["port"] else ""))
        return d["pre"] + sch2 + user + host + rest + q + frag

    def resource(self, got):
        d, body, _ = self.asked
        out = dict(NORES, usr=d["usr"], port=d["port"], path=d["path"], q=d["q"])
        for sch, p in (("acct", "acct:"), ("https", "https://"), ("http", "http://")):
            if got == p + body:
                return dict(out, sch=sch)
        return dict(out, sch="bad: " + got)

    def begun(self, r):
        iss = self.h.state2issuer(r["state"])
        k = next((k for k, u in self.url.items() if u == iss), "?")
        if not r["url"].startswith(self.url[k].rstrip("/") + "/authz?"):
            k = "bad: " + r["url"]
        self.sess.append((r["state"], k))
        return "ok", {"sess": len(self.sess), "iss": k}

    def ev_user(self, ev):
        self.answer = ev["a"]
        return self.begun(self.h.begin(user_id=self.text(ev["id"])))

    def ev_iss(self, ev):
        return self.begun(self.h.begin(self.url[ev["iss"]]))

    def wire(self):
        out = []
        for q in Net.take():
            u = urlsplit(q.url)
            if u.path == "/.well-known/webfinger" and self.asked:
                rec = {"ep": "wf", "iss": "", "res": dict(NORES)}
                want = urlsplit("https://" + self.asked[2])
                f = parse_qs(u.query, keep_blank_values=True)
                if (u.scheme, u.hostname, u.port or 443, q.method, q.body) != ("https", want.hostname, want.port or 443, "GET", ""):
                    rec["iss"] = "bad: " + q.method + " " + q.url
                elif f.get("rel") != [REL] or set(f) != {"rel", "resource"} or len(f["resource"]) != 1:
                    rec["iss"] = "bad: " + u.query
                else:
                    rec["res"] = self.resource(f["resource"][0])
            else:
                k, what = self.which(q.url)
                if what == "jwks":
                    continue
                rec = {"ep": what, "iss": k, "res": dict(NORES)}
            out.append(rec)
        return out

    def do(self, ev):
        Net.take()
        self.asked = None
        try:
            out, res = getattr(self, "ev_" + ev["t"])(ev)
            self.err = None
        except Exception as e:
            out, res = "exc", {"sess": 0, "iss": ""}
            self.err = e
        return {"out": out, "res": res, "wire": self.wire(), "changed": []}

    def view(self):
        known = {k: bool(self.h) and u in self.h.issuer2rp for k, u in self.url.items()}
        if self.h and len(self.h.issuer2rp) != sum(known.values()):
            known["?"] = True
        return {"known": known,
                "sess": [next((k for k, u in self.url.items() if u == self.h.state2issuer(st)), "?") for st, _ in self.sess]}


def make(P, seed, variant):
    return WF(P, seed, variant)
