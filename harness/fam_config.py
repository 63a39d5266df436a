"""RPConfig on the real code."""
import copy
import importlib
import json
import os
import random
import shutil
import sys
import tempfile
from urllib.parse import urlsplit, parse_qs

import yaml

from world import Net, Clock, T0, JSON_H
from cryptojwt.key_jar import init_key_jar, KeyJar
from oidcmsg.configure import create_from_config_file
from oidcrp.configure import Configuration, RPConfiguration
from oidcrp.oidc import DEFAULT_SERVICES
from oidcrp.rp_handler import RPHandler

NAME = "config"
MODULE = "RPConfig"
VIEW = "Hide"
CONSTRAINT = "InBounds"
CONSTS = {"Focus": "C31", "Wide": False, "Long": False}
INVARIANTS = []
PROPERTIES = ["PropC31"]

NO = {"dom": -1, "port": -1}
NORES = {"base": NO, "ru": NO, "pl": NO, "fc": NO, "bc": NO, "v": "", "keys": 0}
DOM = {0: "127.0.0.1", 1: "rp.example.com", 2: "rp2.example.org", 3: "rp3.test"}
PORT = {0: 80, 1: 8443, 2: 8090, 3: 9000}
PLACE = "https://{domain}:{port}"
_ENV = ("REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE")


class ConfigRun:
    def __init__(self, P, seed, variant=None):
        for v in _ENV:
            os.environ.pop(v, None)
        self.rng = random.Random(seed)
        Clock.set(T0)
        Net.reset()
        Net.on("https://*", self.serve)
        self.dir = tempfile.mkdtemp(prefix="rpconf")
        self.mod = None
        self.h = {}
        self.c = {}
        self.keys = None
        self.regs = {}
        self.err = None

    def close(self):
        if self.dir:
            shutil.rmtree(self.dir, ignore_errors=True)
            self.dir = None
        if self.mod:
            sys.modules.pop(self.mod, None)
            self.mod = None

    def __del__(self):
        self.close()

    # ---------------------------------------------------------------- network
    def op(self, name):
        return "https://%s.example.net" % name

    def serve(self, q):
        self.seen.append(q)
        u = urlsplit(q.url)
        b = "https://" + u.netloc
        if u.path.startswith("/op/"):       # the provider is at the RP's own address
            b += "/op"
            u = u._replace(path=u.path[3:])
        if u.path == "/.well-known/openid-configuration":
            return 200, JSON_H, json.dumps(dict(self.info(b), registration_endpoint=b + "/reg", backchannel_logout_supported=True,
                                                frontchannel_logout_supported=True))
        if u.path == "/reg":
            d = json.loads(q.body)
            self.reg = d
            return 201, JSON_H, json.dumps(dict({k: v for k, v in d.items() if k != "jwks"}, client_id="me", client_secret="s" * 40))
        return 404, {}, ""

    def info(self, b):
        return {"issuer": b, "authorization_endpoint": b + "/authz", "token_endpoint": b + "/token", "jwks_uri": b + "/jwks",
                "response_types_supported": ["code"], "subject_types_supported": ["public"], "end_session_endpoint": b + "/end",
                "id_token_signing_alg_values_supported": ["RS256"]}

    # ----------------------------------------------------------------- events
    def ev_write(self, ev):
        r, x = self.rng, ev["src"]
        self.src = x
        beh = {"response_types": ["code"], "scope": ["openid"], "token_endpoint_auth_method": "client_secret_basic"}
        self.own = r.random() < .3
        dyn = {"issuer": PLACE + "/op" if self.own else self.op("dyn"), "redirect_uris": [PLACE + "/cb/dyn", PLACE + "/cb/dyn2"][:r.choice([1, 2])],
               "post_logout_redirect_uris": [PLACE + "/out/dyn"], "frontchannel_logout_uri": PLACE + "/fc/dyn",
               "backchannel_logout_uri": PLACE + "/bc/dyn", "client_preferences": dict(beh)}
        st = {"client_id": "me", "client_secret": "s" * 40, "issuer": self.op("static"), "redirect_uris": [PLACE + "/cb/static"],
              "post_logout_redirect_uris": [PLACE + "/out/static"], "behaviour": dict(beh), "provider_info": self.info(self.op("static"))}
        sv = copy.deepcopy(DEFAULT_SERVICES)
        if r.random() < .3:
            dyn["services"] = copy.deepcopy(sv)
        part = {"base_url": PLACE, "clients": {"": {"client_preferences": dict(beh)}, "dyn": dyn, "static": st}, "services": sv,
                "rp_keys": {"private_path": "private/jwks.json", "public_path": "public/jwks.json", "read_only": False,
                            "key_defs": [{"type": "EC", "crv": "P-256", "use": ["sig"]}]}}
        if x["off"]:
            part["httpc_params"] = {"verify": False}
        elif r.random() < .3:
            part["httpc_params"] = {"verify": True}
        if r.random() < .5:
            part["hash_seed"] = "not so random"
        if r.random() < .3:
            part["oidc_keys"] = part.pop("rp_keys")
        for k in ("clients", "services", "httpc_params", "rp_keys", "hash_seed"):
            if k in part and r.random() < .2:
                part[k.upper()] = part.pop(k)
        top = {"rp": part} if x["cls"] == "path" else part
        if x["dom"]:
            top["domain"] = DOM[x["dom"]]
        if x["port"]:
            top["port"] = PORT[x["port"]]
        if x["cls"] != "self" and r.random() < .5:
            top["webserver"] = {"port": 1, "domain": "0.0.0.0"}
        self.top = top
        n = "rpconf_%d" % r.randrange(10 ** 9)
        self.file = os.path.join(self.dir, n + "." + x["form"])
        if x["form"] != "dict":
            with open(self.file, "w") as f:
                if x["form"] == "json":
                    json.dump(top, f)
                elif x["form"] == "yaml":
                    yaml.safe_dump(top, f)
                else:
                    f.write("CONFIG = %r\n" % (top,))
                    self.mod = n
        return "ok", NORES

    def ev_load(self, ev):
        l, a, x = ev["l"], ev["a"], self.src
        kw = {"base_path": self.dir}
        if a["dom"]:
            kw["domain"] = DOM[a["dom"]]
        if a["port"]:
            kw["port"] = PORT[a["port"]]
        cls = RPConfiguration if x["cls"] == "self" else Configuration
        if x["cls"] != "self":
            kw["entity_conf"] = [dict({"class": RPConfiguration, "attr": "rp"}, **({"path": ["rp"]} if x["cls"] == "path" else {}))]
        if x["form"] == "dict":
            c = cls(self.top, **kw)
        else:
            sys.path.insert(0, self.dir)
            try:
                importlib.invalidate_caches()
                c = create_from_config_file(cls, self.file, **kw)
            finally:
                sys.path.remove(self.dir)
        c = c if x["cls"] == "self" else c.rp
        self.c[l] = c
        self.h[l] = RPHandler(c.base_url, c.clients, services=c.services, hash_seed=c.hash_seed, keyjar=KeyJar(),
                              httpc_params=c.httpc_params)
        return "ok", dict(NORES, base=self.where(c.base_url, ""))

    def where(self, uri, path):
        uris = uri if isinstance(uri, list) else [uri]
        out = []
        for u in uris:
            p = urlsplit(u)
            if p.scheme != "https" or not p.path.startswith(path):
                return "bad: %r" % (uri,)
            h, _, n = p.netloc.partition(":")
            out.append({"dom": next((k for k, v in DOM.items() if v == h), h), "port": next((k for k, v in PORT.items() if str(v) == n), n)})
        return out[0] if out and out.count(out[0]) == len(out) else "bad: %r" % (uri,)

    def verify(self, l):
        if not self.seen:
            return "off" if self.c[l].httpc_params.get("verify") is False else "on"
        v = {q.how.get("verify") for q in self.seen}
        return {frozenset([True]): "on", frozenset([False]): "off", frozenset(): "none"}.get(frozenset(v), "bad: %r" % (v,))

    def begin(self, l, name):
        b = self.h[l].begin(name)
        q = parse_qs(urlsplit(b["url"]).query)
        self.at = b["url"]
        return b["state"], q["redirect_uri"][0]

    def out_uri(self, l, state):
        url = self.h[l].logout(state)["url"]
        return parse_qs(urlsplit(url).query)["post_logout_redirect_uri"][0]

    def ev_static(self, ev):
        st, ru = self.begin(ev["l"], "static")
        return "ok", dict(NORES, ru=self.where(ru, "/cb/static"), pl=self.where(self.out_uri(ev["l"], st), "/out/static"),
                          v=self.verify(ev["l"]))

    def ev_dyn(self, ev):
        st, ru = self.begin(ev["l"], "dyn")
        d = self.reg
        if self.own and self.where(self.at, "/op/authz") != self.where(ru, "/cb/dyn"):
            return "bad: goes to %r" % self.at, NORES
        if ru not in d["redirect_uris"]:
            return "bad: %r" % ru, NORES
        pl = self.out_uri(ev["l"], st)
        if pl not in d["post_logout_redirect_uris"]:
            return "bad: %r" % pl, NORES
        return "ok", dict(NORES, ru=self.where(d["redirect_uris"], "/cb/dyn"), pl=self.where(d["post_logout_redirect_uris"], "/out/dyn"),
                          fc=self.where(d["frontchannel_logout_uri"], "/fc/dyn"), bc=self.where(d["backchannel_logout_uri"], "/bc/dyn"),
                          v=self.verify(ev["l"]))

    def ev_gen(self, ev):
        st, ru = self.begin(ev["l"], self.op("some"))
        if ru not in self.reg["redirect_uris"]:
            return "bad: %r" % ru, NORES
        return "ok", dict(NORES, ru=self.where(self.reg["redirect_uris"], "/"), v=self.verify(ev["l"]))

    def ev_keys(self, ev):
        k = dict(self.c[ev["l"]].key_conf)
        for f in ("private_path", "public_path"):
            # nothing is to be written elsewhere
            if not os.path.abspath(k[f]).startswith(self.dir + "/"):
                return "bad: %s %s" % (f, k[f]), NORES
        got = {x.thumbprint("SHA-256") for x in init_key_jar(**k).get_issuer_keys("")}
        if self.keys is None:
            self.keys = got
        return "ok", dict(NORES, keys=1 if got and got == self.keys else 0)

    def do(self, ev):
        Net.take()
        self.err = None
        self.seen = []
        self.reg = self.regs.get((ev.get("l"), ev["t"]), {})
        try:
            out, res = getattr(self, "ev_" + ev["t"])(ev)
        except Exception as e:
            out, res = "exc", NORES
            self.err = e
        self.regs[(ev.get("l"), ev["t"])] = self.reg
        return {"out": out, "res": res, "wire": [], "changed": []}

    def view(self):
        return {"x": 0}


def make(P, seed, variant):
    return ConfigRun(P, seed, variant)
