"""RPSetup on the real code."""
import base64
import copy
import json
import random
from urllib.parse import urlsplit, parse_qs, unquote_plus

from cryptojwt.jwk.jwk import key_from_jwk_dict
import requests

from world import Net, Clock, T0, JSON_H, rsa_key, sign, off
from core import BASE, rp_keyjar, text_chars
from oidcrp.rp_handler import RPHandler
from oidcrp.oidc import DEFAULT_SERVICES
from oidcmsg.oauth2 import is_error_message

NAME = "setup"
MODULE = "RPSetup"
VIEW = "Hide"
CONSTRAINT = "InBounds"
SERVICES = dict(DEFAULT_SERVICES, registration_read={"class": "oidcrp.oidc.read_registration.RegistrationRead"})
CONSTS = {"Focus": "C14", "Wide": False, "Long": False}
INVARIANTS = []
PROPERTIES = ["PropC14", "PropC06", "PropC16"]

NOREQ = {"rts": [], "ac": False, "im": False, "jw": "", "bc": "", "fc": "", "ru": "", "pl": "", "name": ""}
NORES = {"sess": 0, "p": "", "v": 0, "c": "", "rt": "", "cb": "", "req": NOREQ}
RTS = ["code", "id_token", "id_token token", "code id_token", "code token", "code id_token token"]
PRIVATE = {"d", "p", "q", "dp", "dq", "qi", "oth", "k"}
NKEYS = 5


def warm():
    rp_keyjar()
    for p in "ABC":
        for v in range(NKEYS):
            for kid in (None, "k1"):
                key(p, v, kid)


_KEYS = {}


def key(p, v, kid=None):
    k = rsa_key("op-%s-%d" % (p, v))
    if kid is None:
        return k
    if (p, v, kid) not in _KEYS:
        _KEYS[(p, v, kid)] = key_from_jwk_dict(dict(k.serialize(True), kid=kid), private=True)
    return _KEYS[(p, v, kid)]


class Setup:
    def __init__(self, P, seed, variant=None):
        self.rng = r = random.Random(seed)
        Clock.set(T0)
        Net.reset()
        Net.on("https://*", self.serve)
        Net.on("http://*", self.serve)
        self.provs = P["provs"]
        host = r.choice(["op.example.com", "login.example.org:8443", "sso.example.net"])
        shape = r.choice(["https://{p}.{h}", "https://{h}/{p}", "https://{h}/t/x{q}", "https://{h}/{p}/oidc",
                          "https://{h}/{c}", "https://%s:{n}" % host.split(":")[0]])
        # C's is the beginning of B's, which is the beginning of A's, in the third shape
        self.iss0 = {p: shape.format(h=host, p=p.lower(), q={"A": "abc", "B": "ab", "C": "a"}[p],
                                     c={"A": "Acme", "B": "acme", "C": "ACME"}[p], n=8440 + ord(p)) for p in self.provs}
        self.kid = r.choice([None, "k1"])
        self.hs = r.choice([None, "a seed of %s" % host])     # what callback URIs are derived from
        self.url = {}          # url -> (ep, p, v)
        self.end = {}          # (p, v) -> {name: url}
        self.v = {p: 0 for p in self.provs}
        self.cred = {}         # name -> (id, secret)
        self.cbs = {}          # name -> redirect uris
        self.owner = {}        # any generated URI -> provider
        self.r = {p: 0 for p in self.provs}
        self.exp = {}
        self.rat = {}
        self.readuri = {}
        self.readk = None
        self.good = {}
        self.sess = []
        self.d = self.reg = self.k = self.cur = None
        self.req = NOREQ
        self.h = None
        self.cfg = None
        self.err = None

    def rnd(self, n=6):
        return "".join(self.rng.choice("abcdefghijklmnopqrstuvwxyz") for _ in range(n))

    # ------------------------------------------------------- the other side
    def issuer(self, p):
        return self.iss0[p] + ("/" if self.cfg["slash"] else "")

    def endpoints(self, p, v):
        r = self.rng
        names = ["authorization_endpoint", "token_endpoint", "userinfo_endpoint", "registration_endpoint", "jwks_uri",
                 "end_session_endpoint", "introspection_endpoint", "pushed_authorization_request_endpoint"]
        out = {}
        for n in names:
            h = r.choice([urlsplit(self.iss0[p]).netloc, self.rnd() + ".example.com"])
            u = "https://%s/%s" % (h, self.rnd(8))
            if r.random() < .2:
                u += "?t=" + self.rnd(3)
            elif r.random() < .1:
                u += "/"
            out[n] = u
            self.url[u] = ({"authorization_endpoint": "authz", "token_endpoint": "token", "userinfo_endpoint": "ui",
                            "registration_endpoint": "reg", "jwks_uri": "jwks"}.get(n, n), p, v)
        self.end[(p, v)] = out
        return out

    def metadata(self, p, v):
        r, x = self.rng, self.cfg["x"]
        m = dict(self.endpoints(p, v), issuer=self.issuer(p), response_types_supported=list(RTS),
                 subject_types_supported=["public"], id_token_signing_alg_values_supported=r.choice([["RS256"], ["ES256", "RS256"]]),
                 scopes_supported=["openid", "email"], token_endpoint_auth_methods_supported=["client_secret_basic"])
        if r.random() < .5:
            del m["scopes_supported"]
        if r.random() < .5:
            del m["token_endpoint_auth_methods_supported"]
        for n, o in (("backchannel_logout_supported", x["bc"]), ("frontchannel_logout_supported", x["fc"])):
            if o == "gen" or (o in ("", "conf") and r.random() < .5):
                m[n] = True
        items = list(m.items())
        r.shuffle(items)
        return dict(items)

    def variant(self, p, asked, kind):
        """an issuer like that of the provider"""
        r, i = self.rng, self.issuer(p)
        u = urlsplit(i)
        t = "/" if self.cfg["slash"] else ""
        b = self.iss0[p]
        return {"same": i, "other": self.issuer(r.choice([q for q in self.provs if q != p])), "prefix": b[:-1].rstrip("/") + t,
                "suffix": b + r.choice(["x", "/x", "/.well-known/openid-configuration", ".evil.example", "%2f"]) + t,
                "case": r.choice([x for x in (b.upper().replace("HTTPS", "https"), b[:-1] + b[-1].upper(), b[:8] + b[8].upper() + b[9:]) if x != b]) + t,
                "scheme": "http" + i[5:], "sub": "https://x." + b[8:] + t,
                "2slash": b + "//", "port": "https://" + u.hostname + (":%d" % r.choice([444, 8080])) + u.path,
                "user": "https://x@" + u.netloc + u.path, "query": i + r.choice(["?x", "#", "?", "#x"]), "empty": ""}[kind]

    def serve(self, q):
        ep, p, v = self.which(q.url)
        fn = getattr(self, "on_" + ep, None)
        return fn(q, p, v) if fn else (404, {"content-type": "text/plain"}, "no such page")

    def which(self, url):
        if url in self.url:
            return self.url[url]
        tail = "/.well-known/openid-configuration"
        for p in self.provs:
            if url == self.iss0[p] + tail:
                return "disc", p, 0
        return "?" + url, "?", 0

    def failure(self, st, body):
        """-> an answer if that's what it is to be"""
        r = self.rng
        if st == "neterr":
            raise r.choice([requests.ConnectionError("refused"), requests.Timeout("late")])
        if st in ("404", "400", "401"):
            return int(st), JSON_H, r.choice([json.dumps({"error": "invalid_request"}), "{}", "no", json.dumps(body)])
        if st == "500":
            return r.choice([500, 503]), r.choice([{"content-type": "text/plain"}, JSON_H]), r.choice(["oops", json.dumps(body)])
        if st == "302":
            return r.choice([301, 302, 303, 307]), dict(JSON_H, location="https://" + self.rnd() + ".example.com/x"), json.dumps(body)
        if st == "garbage":
            return 200, JSON_H, r.choice([json.dumps(body)[:-2], "<html/>", "[]", "null", '"x"'])
        if st == "error":
            return 200, JSON_H, json.dumps({"error": "server_error"})
        if st == "empty":
            return 200, JSON_H, r.choice(["", "{}"])

    def on_disc(self, q, p, v):
        d = self.d
        self.v[p] += 1
        m = self.metadata(p, self.v[p])
        m["issuer"] = self.variant(p, q.url, d["iss"])
        miss = d["miss"]
        if miss == "RS256":
            m["id_token_signing_alg_values_supported"] = ["ES256"]
        elif miss == "openid":
            m["scopes_supported"] = ["email"]
        elif miss:
            del m[miss]
        if d["st"] != "ok":
            return self.failure(d["st"], m)
        if not miss and (d["iss"] == "same" or self.cfg["allow"] == "true"):
            self.good[p] = self.v[p]
        return 200, {"content-type": self.rng.choice(["application/json", "application/json; charset=utf-8"])}, json.dumps(m)

    def on_jwks(self, q, p, v):
        return 200, JSON_H, json.dumps({"keys": [key(p, v, self.kid).serialize(False)]})

    def on_reg(self, q, p, v):
        r = self.rng
        self.r[p] += 1
        n = self.r[p]
        name = "%s%d" % (p, n)
        try:
            got = json.loads(q.body)
        except ValueError:
            self.req = {"bad": q.body}
            got = {}
        else:
            self.req = self.request(p, name, got)
        self.cred[name] = ("id-%s-%s" % (name, self.rnd()), text_chars(r, 40, False))
        out = {"client_id": self.cred[name][0], "client_secret": self.cred[name][1]}
        # what was registered, all of it or what is required
        out = dict(got if r.random() < .6 else {"redirect_uris": got.get("redirect_uris", [])}, **out)
        # "client_id_issued_at"
        e = self.reg["exp"]
        self.exp[name] = {0: 0, 1: T0 + 1000 + r.randrange(1000), 2: T0 + 10 ** 6}[e]
        if e or r.random() < .5:
            out["client_secret_expires_at"] = self.exp[name]
        if self.reg["rat"]:
            self.rat[name] = "rat-" + self.rnd()
            u = "https://%s.example.com/%s" % (self.rnd(), r.choice(["c", "c?id=" + self.rnd(), "c/"]))
            self.url[u] = ("read", p, v)
            self.readuri[name] = u
            out.update(registration_access_token=self.rat[name], registration_client_uri=u)
        st = self.reg["st"]
        if st == "noid":
            del out["client_id"]
        elif st == "halfuri":
            out.pop("registration_client_uri", None)
            out["registration_access_token"] = "rat"
        elif st not in ("200", "201"):
            return self.failure(st, out)
        return (int(st) if st in ("200", "201") else 201), JSON_H, json.dumps(out)

    def mine(self, p, uri):
        """does the RP make this URI for one provider only?"""
        if not uri.startswith(BASE + "/") or self.owner.setdefault(uri, p) != p:
            return False
        return True

    def request(self, p, name, d):
        """a registration request in the words of the specification"""
        x = self.cfg["x"]
        out = {"rts": d.get("response_types"), "jw": "", "name": ""}
        gt = d.get("grant_types")
        out["ac"], out["im"] = "authorization_code" in (gt or []), "implicit" in (gt or [])
        if not isinstance(gt, list) or set(gt) - {"authorization_code", "implicit"}:
            out["ac"] = "bad: %r" % (gt,)
        if "jwks" in d:
            ks = d["jwks"].get("keys")
            out["jw"] = "set" if ks and not any(set(k) & PRIVATE for k in ks) else "bad"
        if "jwks_uri" in d:
            out["jw"] = "both" if out["jw"] else "uri" if d["jwks_uri"].startswith(BASE) else "bad"
        if "+" in x["jw"] and out["jw"] in ("set", "uri"):
            out["jw"] = "one"
        conf = self.config("def")
        for f, n in (("bc", "backchannel_logout_uri"), ("fc", "frontchannel_logout_uri"), ("ru", "request_uris"),
                     ("pl", "post_logout_redirect_uris")):
            u = d.get(n)
            if u is None:
                out[f] = ""
            elif n in conf:
                out[f] = "conf" if u == conf[n] else "bad: %r" % (u,)
            else:
                l = u if isinstance(u, list) else [u]
                out[f] = "gen" if l and all(self.mine(p, i) for i in l) else "bad: %r" % (u,)
        ru = d.get("redirect_uris")
        self.cbs[name] = ru if isinstance(ru, list) and ru and all(self.mine(p, i) for i in ru) else []
        if d.get("client_name") is not None:
            out["name"] = "b" if d["client_name"] == "by argument" else d["client_name"]
        return out

    def sub(self, i):
        return "sub-%d" % i

    def id_token(self, i, k):
        x = self.sess[i - 1]
        p = x["p"]
        o = self.rng.choice([q for q in self.provs if q != p])
        v = x["v"]
        pl = {"iss": self.issuer(p), "sub": self.sub(i), "aud": [x["id"]], "exp": T0 + 3600, "iat": T0, "nonce": x["nonce"]}
        kk = key(p, v, self.kid)
        if k == "key":
            kk = key(o, max(self.v[o], 1), self.kid)
        elif k == "stale":
            kk = key(p, v - 1, self.kid)
        elif k == "aud":
            pl["aud"] = [self.rng.choice([c[0] for n, c in self.cred.items() if n[0] == o] or ["someone"])]
        elif k == "iss":
            pl["iss"] = self.issuer(o)
            if self.rng.random() < .5:
                kk = key(o, max(self.v[o], 1), self.kid)
        return sign(pl, "RS256", kk)

    def on_token(self, q, p, v):
        i = self.cur
        if self.k == "err":
            return 400, JSON_H, json.dumps({"error": "invalid_grant"})
        return 200, JSON_H, json.dumps({"access_token": "at-%d" % i, "token_type": "Bearer", "id_token": self.id_token(i, self.k)})

    def on_ui(self, q, p, v):
        return 200, JSON_H, json.dumps({"sub": self.sub(self.cur), "name": "x"})

    # --------------------------------------------------------------- events
    def config(self, mode, p=None):
        x = self.cfg["x"]
        r = random.Random("%s%s" % (mode, p))
        prefs = {"response_types": list(x["rts"]), "scope": ["openid"], "token_endpoint_auth_method": "client_secret_basic",
                 "id_token_signed_response_alg": "RS256"}
        c = {"client_preferences": prefs,
             "services": {n: copy.deepcopy(v) for n, v in SERVICES.items()}}
        if self.cfg["allow"] != "-":
            c["allow"] = {"issuer_mismatch": self.cfg["allow"] == "true"}

        def put(n, v):
            (c if r.random() < .5 else prefs)[n] = v
        if x["fp"]:
            put("form_post_usable", True)
        for f, n, conf in (("bc", "backchannel_logout", BASE + "/conf/bc"), ("fc", "frontchannel_logout", BASE + "/conf/fc"),
                           ("ru", "request_uri", [BASE + "/conf/ru"])):
            if x[f] in ("gen", "nosup"):
                put(n + "_usable", True)
            elif x[f] == "conf":
                c[n + "_uri" if f != "ru" else "request_uris"] = conf
            elif r.random() < .3:
                put(n + "_usable", False)
        if x["pl"] == "conf":
            c["post_logout_redirect_uris"] = [BASE + "/conf/pl"]
        if "curi" in x["jw"]:
            c["jwks_uri"] = BASE + "/conf/jwks"
        if "cset" in x["jw"]:
            c["jwks"] = rp_keyjar().export_jwks()
        if "puri" in x["jw"]:
            prefs["jwks_uri"] = BASE + "/conf/jwks"
        if "pset" in x["jw"]:
            prefs["jwks"] = rp_keyjar().export_jwks()
        if self.hs:
            c["hash_seed"] = self.hs
        if p:
            c["issuer"] = self.issuer(p)
        if mode in ("own", "stat"):
            name = p + "0"
            if name not in self.cred:
                self.cred[name] = ("id-%s-%s" % (name, self.rnd()), text_chars(self.rng, 40, False))
                self.cbs[name] = [BASE + "/cb/" + self.rnd() for _ in range(2)]
            c["client_id"], c["client_secret"] = self.cred[name]
            c["redirect_uris"] = list(self.cbs[name])
        if mode == "stat":
            m = self.metadata(p, 0)
            m["keys"] = {"url": {self.issuer(p): m.pop("jwks_uri")}}
            c["provider_info"] = m
            c["behaviour"] = prefs
        return c

    def name(self, p, how):
        return {"n": self.iss0[p], "s": self.iss0[p] + "/", "c": "the " + p}[how]

    def ev_setup(self, ev):
        self.cfg = c = ev["cfg"]
        self.cc = {"": self.config("def")}
        for p in self.provs:
            if c["mode"][p] != "def":
                self.cc[self.name(p, "c") if c["key"] == "name" else self.issuer(p)] = self.config(c["mode"][p], p)
        self.seed = self.rng.choice(["", "seed"])
        self.h = RPHandler(BASE, client_configs=self.configs(), **self.kw())
        return "ok", NORES

    def configs(self):
        return copy.deepcopy(self.cc)

    def kw(self):
        kw = {"jwks_path": "static/jwks.json"} if "uri" in self.cfg["x"]["jw"].split("+") else {}
        return dict(kw, keyjar=rp_keyjar(), hash_seed=self.seed)

    def ev_begin(self, ev):
        p, x = ev["p"], self.cfg["x"]
        self.d, self.reg, self.req = ev["d"], ev["r"], NOREQ
        ra = None
        if ev["rt"] != x["rts"][0] or self.rng.random() < .5:
            ra = {"response_type": ev["rt"]}
        ba = {"client_name": "by argument"} if ev["b"] else None
        try:
            got = self.h.begin(self.name(p, ev["name"]), req_args=ra, behaviour_args=ba)
        except Exception as e:
            self.err = e
            return "exc", dict(NORES, req=self.req)
        base, query = next(((u, z.partition("?")[2]) for u, z in ((u, off(got["url"], u)) for u in self.url) if z), (got["url"], ""))
        f = {a: b[0] for a, b in parse_qs(query).items()}
        ep, q, v = self.url.get(base, (base, "?", 0))
        name = next((n for n, c in self.cred.items() if c[0] == f.get("client_id")), "bad")
        cb = "ok" if f.get("redirect_uri") in self.cbs.get(name, []) else "bad: %s" % f.get("redirect_uri")
        if ep != "authz" or f.get("state") != got["state"]:
            q = "bad: " + got["url"]
        self.sess.append({"p": p, "state": got["state"], "id": f.get("client_id"), "nonce": f.get("nonce"), "v": v,
                          "cb": f.get("redirect_uri"), "rt": ev["rt"]})
        return "ok", {"sess": len(self.sess), "p": q, "v": v, "c": name, "rt": f.get("response_type"), "cb": cb, "req": self.req}

    def ev_fin(self, ev):
        i = self.cur = ev["i"]
        self.k = ev["k"]
        x = self.sess[i - 1]
        resp = {"state": x["state"]}
        if x["rt"] == "code":
            resp["code"] = "code-%d" % i
        elif ev["k"] == "err":
            resp["error"] = "access_denied"
        else:
            resp["id_token"] = self.id_token(i, ev["k"])
        try:
            got = self.h.finalize(self.h.get_session_information(x["state"])["iss"], resp)
        except Exception as e:
            self.err = e
            return "exc", NORES
        if "error" in got:
            return "exc", NORES
        if got["userinfo"]["sub"] != self.sub(i) or got["state"] != x["state"]:
            return "bad: %r" % (got,), NORES
        return "ok", dict(NORES, sess=i)

    def on_read(self, q, p, v):
        name = next((n for n, u in self.readuri.items() if u == q.url), "?")
        body = {"client_id": self.cred[name][0], "client_secret": self.cred[name][1], "redirect_uris": self.cbs[name] or [BASE + "/x"],
                "client_name": "read " + name, "registration_access_token": self.rat[name], "registration_client_uri": q.url}
        if self.readk != "ok":
            return self.failure(self.readk, body)
        return 200, JSON_H, json.dumps(body)

    def ev_read(self, ev):
        self.readk = ev["k"]
        c = self.h.client_setup(self.issuer(ev["p"]))
        got = c.do_request("registration_read")
        if is_error_message(got):
            return "exc", NORES
        name = got["client_name"]
        ok = name[:4] == "read" and (got["client_id"], got["client_secret"]) == self.cred.get(name[5:])
        return "ok" if ok else "bad: %s" % got, NORES

    def ev_reload(self, ev):
        h2 = RPHandler(BASE, client_configs=self.configs(), **self.kw())
        for i, c in self.h.issuer2rp.items():
            dump = json.dumps(c.client_get("service_context").dump())
            p = next(p for p in self.provs if i.rstrip("/") == self.iss0[p])
            n = self.name(p, "c") if self.cfg["key"] == "name" else i
            c2 = h2.init_client(n)
            c2.client_get("service_context").load(json.loads(dump))
            h2.issuer2rp[i] = c2
        h2.hash2issuer.update(self.h.hash2issuer)
        self.h = h2
        return "ok", NORES

    def ev_ui(self, ev):
        i = self.cur = ev["i"]
        got = self.h.get_user_info(self.sess[i - 1]["state"])
        if is_error_message(got) or got["sub"] != self.sub(i):
            return "bad", NORES
        return "ok", dict(NORES, sess=i)

    def credentials(self, q):
        h = q.headers.get("Authorization", "")
        if h.startswith("Basic "):
            pair = tuple(unquote_plus(z) for z in base64.b64decode(h[6:]).decode().partition(":")[::2])
            return next((n for n, c in self.cred.items() if c == pair), "bad: %r" % (pair,))
        return "bad: " + h

    def wire(self):
        out = []
        for q in Net.take():
            ep, p, v = self.which(q.url)
            c = ""
            if ep == "jwks":
                if p in self.provs and v in (self.client(p)["v"], self.good.get(p)):
                    continue
            elif ep == "token":
                f, x = q.form(), self.sess[self.cur - 1]
                c = self.credentials(q)
                if f.get("code") != ["code-%d" % self.cur] or f.get("redirect_uri") != [x["cb"]] or q.method != "POST":
                    c = "bad: " + q.body
            elif ep == "ui":
                t = q.headers.get("Authorization", "")
                c = t[10:] if t.startswith("Bearer at-") else "bad: " + t
            elif ep == "read":
                t = q.headers.get("Authorization", "")
                c = next((n for n, x in self.rat.items() if t == "Bearer " + x), "bad: " + t)
                if q.url != self.readuri.get(c) or q.method != "GET":
                    c = "bad: " + q.url
            elif ep == "reg":
                c = "bad: method" if q.method != "POST" else "bad" if q.headers.get("Authorization") else ""
            out.append({"ep": ep, "p": p, "v": v, "c": c})
        return out

    def do(self, ev):
        Net.take()
        self.err = None
        try:
            out, res = getattr(self, "ev_" + ev["t"])(ev)
        except Exception as e:
            out, res = "exc", NORES
            self.err = e
        return {"out": out, "res": res, "wire": self.wire(), "changed": []}

    # ----------------------------------------------------------------- view
    def client(self, p):
        rp = [c for i, c in self.h.issuer2rp.items() if i.rstrip("/") == self.iss0[p]] if self.h else []
        if not rp:
            return {"on": False, "v": 0, "n": 0, "exp": 0, "rat": False}
        if len(rp) > 1:
            return {"on": "%d times" % len(rp)}
        ctx = rp[0].client_get("service_context")
        vs = set()
        for srv, n in (("authorization", "authz"), ("accesstoken", "token"), ("userinfo", "ui")):
            u = rp[0].get_service(srv).get_endpoint()
            vs.add(self.url.get(u) and self.url[u][2] if self.url.get(u, "??")[:2] == (n, p) else u)
        name = next((n for n, c in self.cred.items() if c == (ctx.client_id, ctx.client_secret)), "?-")
        exp = ctx.client_secret_expires_at
        if exp == self.exp.get(name, 0):
            exp = 0 if exp == 0 else 2 if exp == T0 + 10 ** 6 else 1
        return {"on": True, "v": vs.pop() if len(vs) == 1 else "mixed", "n": int(name[1:]) if name[0] == p else "wrong", "exp": exp,
                "rat": self.rat.get(name, "") == ctx.registration_access_token and bool(ctx.registration_access_token)}

    def view(self):
        cl = {p: self.client(p) for p in self.provs}
        if self.h and len(self.h.issuer2rp) != sum(c["on"] is True for c in cl.values()):
            cl["?"] = True
        who = []
        for x in self.sess:
            i = self.h.state2issuer(x["state"])
            who.append(next((p for p in self.provs if i and i.rstrip("/") == self.iss0[p]), "?"))
        return {"cl": cl, "sess": who}


def make(P, seed, variant):
    return Setup(P, seed, variant)
