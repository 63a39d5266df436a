"""RPStore on the real code."""
import copy
import json
import random

from world import Net, Clock, T0, rsa_key
from cryptojwt.key_jar import KeyJar
from oidcmsg.message import Message
from oidcmsg.oauth2 import AuthorizationRequest, AuthorizationResponse, AccessTokenResponse
from oidcmsg.oidc import OpenIDSchema, ProviderConfigurationResponse, RegistrationResponse
from oidcrp import oauth2
from oidcrp.oidc import RP
from oidcrp.service_context import ServiceContext

NAME = "store"
MODULE = "RPStore"
VIEW = "Hide"
CONSTRAINT = "InBounds"
CONSTS = {"Focus": "items", "Wide": False, "Long": False}
INVARIANTS = ["Leads"]
PROPERTIES = ["PropC32", "PropC21"]

NORES = {"n": 0, "p": 0, "q": 0}
KINDS = {"auth_request": AuthorizationRequest, "auth_response": AuthorizationResponse, "token_response": AccessTokenResponse,
         "refresh_token_request": Message, "refresh_token_response": AccessTokenResponse, "user_info": OpenIDSchema}
REFS = {"nonce": "nonce", "logout state": "logout_state", "session id": "sid", "subject id": "sub"}
TEXTS = ["abc", "ABC", "ab", "abcd", "abc ", " abc", "a/b", "a+b", "å♥", '"q"', "{}", "%s", "{0}", "0", "null", "ref", "iss", "a:b", "a.b", "a=b",
         "_abc", "abc_", ".abc", "=abc", "abc=", ":abc", "a" * 64, "a" * 65, "R9_-x", "nonce", "\\n", "a\nb"]
PARAMS = ["code", "access_token", "refresh_token", "id_token", "session_state", "custom"]
EXTRA = [("x_list", ["a", "b"]), ("x_uni", "å♥"), ("x_num", 7), ("x_true", True), ("x_false", False), ("x_zero", 0), ("x_empty", []),
         ("x_deep", {"a": {"b": [1, {"c": "d"}]}}), ("x_q", 'a"b\\c'), ("x_nl", "a\nb"), ("expires_in", 3600), ("scope", ["openid", "mail"]),
         ("address", {"country": "SE"}), ("x_text", ""), ("state", "af0ifj")]
S, D, L, M, B, J = "str", "dict", "list", "msg", "bytes", "jar"
ATTRS = {
    "allow": (D, [{"issuer_mismatch": True}, {}, {"missing_kid": True, "issuer_mismatch": False}]),
    "args": (D, [{"a": 1}, {"b": {"c": [1, 2]}}, {}]),
    "base_url": (S, ["https://one.example.com", "https://two.example.com/x", ""]),
    "behaviour": (D, [{"response_types": ["code"]}, {"response_types": ["id_token", "code id_token"], "scope": ["openid"]}, {}, {"x": 1}]),
    "callback": (D, [{"code": "https://x.example.com/c"}, {"implicit": "https://x.example.com/i", "form_post": "https://x.example.com/f"}, {}]),
    "client_id": (S, ["some", "other", "ünder"]),
    "client_preferences": (D, [{"scope": ["a"]}, {"scope": ["a", "b"], "x": 1}, {}]),
    "client_secret": (S, ["s" * 40, "t" * 33]),
    "client_secret_expires_at": (S, [1700000000, 0, 1800000000]),
    "clock_skew": (S, [0, 1, 900]),
    "hash_seed": (B, [b"seed one", b"seed two"]),
    "httpc_params": (D, [{"verify": False}, {"verify": "/x/ca.pem"}, {}]),
    "issuer": (S, ["https://op1.example.net", "https://op2.example.net/", ""]),
    "kid": (D, [{"sig": {"RSA": "k1"}, "enc": {}}, {"sig": {"RSA": "k2", "EC": "e"}, "enc": {"RSA": "r"}}]),
    "post_logout_redirect_uris": (L, [["https://x.example.com/o"], ["https://x.example.com/o1", "https://x.example.com/o2"], []]),
    "provider_info": (M, [ProviderConfigurationResponse(issuer="https://op1.example.net", token_endpoint="https://op1.example.net/t",
                                                        scopes_supported=["openid"]),
                          {"issuer": "https://op2.example.net", "x": {"y": [1]}}, {}]),
    "redirect_uris": (L, [["https://x.example.com/r"], ["https://x.example.com/r1", "https://x.example.com/r2"], []]),
    "register_args": (D, [{"client_name": "me"}, {"contacts": ["a@b.example"]}, {}]),
    "registration_access_token": (S, ["rat1", "rat2", ""]),
    "registration_response": (M, [RegistrationResponse(client_id="x", redirect_uris=["https://x.example.com/r"]),
                                  {"client_id": "y", "client_secret": "z"}, {}]),
    "requests_dir": (S, ["/x/y", "z", ""]),
    "verify_args": (D, [{"allow_missing_kid": True}, {"x": [1]}, {}]),
    "keyjar": (J, [1, 2, 3]),
    # services can be exported as well
    "accesstoken:endpoint": (S, ["https://op1.example.net/token", "https://op2.example.net/token"]),
    "accesstoken:default_authn_method": (S, ["client_secret_post", "private_key_jwt"]),
    "userinfo:http_method": (S, ["PUT", "DELETE"]),
    "accesstoken:request_body_type": (S, ["json", "jose"]),
    "userinfo:response_body_type": (S, ["jwt", "urlencoded"]),
    "authorization:msg_type": (S, [Message, AccessTokenResponse]),
    "authorization:response_cls": (S, [Message, OpenIDSchema]),
    "authorization:error_msg": (S, [Message, RegistrationResponse]),
}


def warm():
    for i in range(4):
        rsa_key("store-%d" % i)


def jar(i):
    kj = KeyJar()
    kj.import_jwks({"keys": [rsa_key("store-%d" % i).serialize(True)]}, "")
    kj.import_jwks({"keys": [rsa_key("store-%d" % (i - 1)).serialize(False)]}, "https://op.example.net")
    if i == 2:
        kj.add_symmetric("", "s" * 40)
    return kj


def plain(v):
    """what a value is, to be compared"""
    if isinstance(v, KeyJar):
        return {o: sorted(k.kty + (k.kid or "" if k.kty != "oct" else "") + k.thumbprint("SHA-256").decode() + str(bool(getattr(k, "d", "") or k.kty == "oct"))
                          for k in v.get_issuer_keys(o)) for o in v.owners()}
    if isinstance(v, Message):
        return [type(v).__name__, v.to_dict()]
    return copy.deepcopy(v)


class StoreRun:
    def __init__(self, P, seed, variant=None):
        focus = self.focus = P["focus"]
        r = self.rng = random.Random(seed)
        Clock.set(T0)
        Net.reset()
        self.err = None
        self.sound = None
        kinds = r.sample(sorted(KINDS), 2)
        if focus == "dump" and r.random() < .1:
            kinds[0] = "x_other"
        self.kind = dict(zip((1, 2), kinds))
        refs = r.sample(sorted(REFS), 2)
        self.ref = dict(zip((1, 2), refs))
        ks = r.sample(TEXTS, 3) if r.random() < .7 else [r.choice(TEXTS) + str(i) for i in range(3)]
        self.key = dict(zip((1, 2, 3), ks))
        # keys, and values of different kinds, may well be the same text
        self.val = {x: dict(zip((1, 2, 3), r.sample(ks if r.random() < .4 else TEXTS, 3))) for x in (1, 2)}
        self.issuer = {1: "https://op1.example.net", 2: r.choice(["https://op2.example.net", "https://op1.example.net/", "https://OP1.example.net"])}
        self.par = r.sample(PARAMS, 2)
        self.pv = {i: "value-%d" % i for i in range(1, 5)}
        if r.random() < .3:
            self.pv = dict(zip((1, 2, 3, 4), r.sample([t for t in TEXTS if t.strip() == t], 4)))
        self.msg = {(m, v): self.content(v) for m in (1, 2) for v in (1, 2, 3)}
        self.attr = {1: r.choice(sorted(ATTRS))}
        self.avals = {}
        self.cls = "rp" if ":" in self.attr[1] else r.choice(["rp", "client", "context"])
        self.way = r.choice(["all", "context"]) if ":" not in self.attr[1] else "all"
        self.srv = {}
        self.conf = {c: self.config(c) for c in ("a", "b")}
        self.at = {c: self.fresh(c) for c in ("a", "b")}
        self.gen = {c: {} for c in ("a", "b")}     # keys made for us
        self.d = None
        self.first = {c: {i: self.now(c, i) for i in self.attr} for c in ("a", "b")}
        for i, n in self.attr.items():
            new = [v for v in ATTRS[n][1] if all(plain(self.made(i, v)) != self.first[c][i] for c in ("a", "b"))]
            self.avals[i] = r.sample(new, 2)

    def content(self, v):
        p, q = self.par
        d = {1: {p: self.pv[1]}, 2: {p: self.pv[2], q: self.pv[2]}, 3: {p: self.pv[3], "__verified_" + p: self.pv[4]}}[v]
        d.update(dict(self.rng.sample(EXTRA, self.rng.randrange(4))))
        d["which"] = str(v)
        return d

    def config(self, c):
        r = self.rng
        d = {"client_id": "id-" + c, "client_secret": c * 40, "redirect_uris": ["https://rp.example.com/" + c],
             "issuer": "https://op.example.net/" + c, "behaviour": {"response_types": ["code"]},
             "base_url": "https://rp.example.com", "hash_seed": "seed " + c}
        more = {"clock_skew": 20, "allow": {"http_links": True}, "client_preferences": {"scope": ["openid"]}, "verify_args": {"y": 1},
                "provider_info": {"issuer": d["issuer"]}, "callback": {"code": "https://rp.example.com/code"},
                "post_logout_redirect_uris": ["https://rp.example.com/bye"], "client_name": "configured"}
        d.update({n: v for n, v in more.items() if r.random() < .3})
        if r.random() < .3:
            del d["behaviour"]
        if r.random() < .2:
            del d["issuer"]
        return d

    def fresh(self, c):
        conf = copy.deepcopy(self.conf[c])
        if self.cls == "context":
            return ServiceContext(config=conf)
        x = (RP if self.cls == "rp" else oauth2.Client)(config=conf)
        self.srv[c] = x.client_get("services") if self.way == "all" else {}
        return x.client_get("service_context")

    def place(self, c, i):
        n = self.attr[i]
        if ":" not in n:
            return self.at[c], n
        w, n = n.split(":")
        return self.srv[c][w], n

    # ------------------------------------------------------------- attributes
    def made(self, i, v):
        return jar(v) if ATTRS[self.attr[i]][0] == J else copy.deepcopy(v)

    def now(self, c, i):
        x, n = self.place(c, i)
        return plain(getattr(x, n, None) if ":" in self.attr[i] or self.rng.random() < .5 else x.get(n))

    def which(self, c, i):
        v = self.now(c, i)
        for n, w in enumerate(self.avals[i]):
            if v == plain(self.made(i, w)) and type(v) is type(plain(self.made(i, w))):
                return n + 1
        return 0 if v == self.first[c][i] else "odd: %r" % (v,)

    def ev_set(self, ev):
        r, c, i = self.rng, ev["c"], ev["a"]
        x, n = self.place(c, i)
        v = self.made(i, self.avals[i][ev["v"] - 1]) if ev["v"] else self.orig(c, i)
        old = getattr(x, n, None)
        how = r.choice(["set", "attr", "item", "in"]) if ":" not in self.attr[i] else "attr"
        if how == "in" and type(old) is type(v) and isinstance(v, dict) and old is not None:
            old.clear()
            old.update(v)
        elif how == "in" and type(old) is type(v) and isinstance(v, list):
            old[:] = v
        elif how == "set":
            x.set(n, v)
        elif how == "item":
            x[n] = v
        else:
            setattr(x, n, v)
        return "ok", NORES

    def orig(self, c, i):
        keep = self.at[c], self.srv.get(c, {})
        self.at[c] = self.fresh(c)
        x, n = self.place(c, i)
        v = getattr(x, n, None)
        self.at[c], self.srv[c] = keep
        return v

    # -------------------------------------------------------------- the store
    def db(self, c):
        return self.at[c].state

    def k(self, c, k):
        return self.gen[c].get(k, self.key[k])

    def back(self, c, text):
        for k in (1, 2, 3):
            if text == self.k(c, k):
                return k
        return "odd: %r" % (text,)

    def ev_create(self, ev):
        c, k = ev["c"], ev["k"]
        iss = self.issuer[ev["i"]]
        if self.rng.random() < .3 and not self.others(c, k):
            self.gen[c][k] = self.db(c).create_state(iss)
        else:
            got = self.db(c).create_state(iss, self.k(c, k)) if self.rng.random() < .5 else self.db(c).create_state(iss, key=self.k(c, k))
            if got != self.k(c, k):
                return "odd: %r" % (got,), NORES
        return "ok", NORES

    def others(self, c, k):
        return self.d is not None and self.of == c

    def ev_store(self, ev):
        r = self.rng
        t = self.kind[ev["m"]]
        d = copy.deepcopy(self.msg[ev["m"], ev["v"]])
        cls = KINDS.get(t, Message)
        x = r.choice([lambda: Message(**d), lambda: cls(**d), lambda: json.dumps(d), lambda: Message(**d).to_json()])()
        self.db(ev["c"]).store_item(x, t, self.k(ev["c"], ev["k"]))
        if isinstance(x, Message):
            x["which"] = "changed since"
            x["x_deep"] = "changed since"
        return "ok", NORES

    def item(self, c, k, m, deep=False):
        x = self.db(c).get_item(self.rng.choice([Message, KINDS.get(self.kind[m], Message)]), self.kind[m], self.k(c, k))
        d = self.like(x)
        for v in (1, 2, 3):
            w = self.msg[m, v]
            if d == self.like(type(x)(**copy.deepcopy(w))):
                n = v
                break
        else:
            n = "odd: %r" % (d,)
        x["which"] = "changed by the reader"
        return n

    def like(self, x):
        d = x.to_dict()
        if isinstance(d.get("scope"), str):
            d["scope"] = d["scope"].split()
        return d

    def ev_get(self, ev):
        return "ok", dict(NORES, n=self.item(ev["c"], ev["k"], ev["m"]))

    def ev_iss(self, ev):
        i = self.db(ev["c"]).get_iss(self.k(ev["c"], ev["k"]))
        return "ok", dict(NORES, n=next((n for n, t in self.issuer.items() if t == i), "odd: %r" % (i,)))

    def label(self, args):
        p, q = self.par
        if set(args) - {p, q, "given"} or args.get("given") != "g":
            return "odd: %r" % (args,)
        at = lambda x: 0 if x not in args else next((n for n, t in self.pv.items() if t == args[x]), "odd: %r" % (args[x],))
        return dict(NORES, p=at(p), q=at(q))

    def ev_extend(self, ev):
        t = self.kind[ev["m"]]
        kw = {"orig": ev["orig"]} if ev["orig"] or self.rng.random() < .5 else {}
        a = self.db(ev["c"]).extend_request_args({"given": "g"}, Message, t, self.k(ev["c"], ev["k"]), self.rng.sample(self.par, 2), **kw)
        return "ok", self.label(a)

    def ev_multi(self, ev):
        kw = {"orig": ev["orig"]} if ev["orig"] or self.rng.random() < .5 else {}
        a = self.db(ev["c"]).multiple_extend_request_args({"given": "g"}, self.k(ev["c"], ev["k"]), self.rng.sample(self.par, 2),
                                                          [self.kind[m] for m in ev["o"]], **kw)
        return "ok", self.label(a)

    def ev_bind(self, ev):
        t = self.ref[ev["x"]]
        v, k = self.val[ev["x"]][ev["v"]], self.k(ev["c"], ev["k"])
        if self.rng.random() < .5:
            self.db(ev["c"]).store_x2state(v, k, t)
        else:
            getattr(self.db(ev["c"]), "store_%s2state" % REFS[t])(v, k)
        return "ok", NORES

    def by(self, c, x, v):
        t = self.ref[x]
        if self.rng.random() < .5:
            k = self.db(c).get_state_by_x(self.val[x][v], t)
        else:
            k = getattr(self.db(c), "get_state_by_" + REFS[t])(self.val[x][v])
        return self.back(c, k)

    def ev_by(self, ev):
        return "ok", dict(NORES, n=self.by(ev["c"], ev["x"], ev["v"]))

    def ev_rm(self, ev):
        self.db(ev["c"]).remove_state(self.k(ev["c"], ev["k"]))
        return "ok", NORES

    def ev_dump(self, ev):
        c = ev["c"]
        self.d = {"context": self.at[c].dump(), "services": {n: x.dump() for n, x in self.srv.get(c, {}).items()}}
        self.of = c
        # what is written is what is read, later on as well
        self.copy = json.dumps(self.d, sort_keys=True)
        return "ok", NORES

    def ev_load(self, ev):
        r, c = self.rng, ev["c"]
        if json.dumps(self.d, sort_keys=True) != self.copy:
            return "odd: the export has changed", NORES
        x = self.fresh(c)
        d = self.d if r.random() < .5 else json.loads(self.copy)
        x.load(d["context"])
        for n, z in d["services"].items():
            self.srv[c][n].load(z)
        self.at[c] = x
        return "ok", NORES

    # ---------------------------------------------------------------- looking
    def do(self, ev):
        self.err = None
        try:
            out, res = getattr(self, "ev_" + ev["t"])(ev)
        except Exception as e:
            out, res = "exc", NORES
            self.err = e
        return {"out": out, "res": res, "wire": [], "changed": []}

    def try_(self, f, *a):
        try:
            return f(*a)
        except KeyError:
            return 0

    def look(self, c, K, T, X, N, A):
        st = []
        for k in range(1, K + 1):
            try:
                s = self.db(c).get_state(self.k(c, k))
                on = True
                i = next((n for n, t in self.issuer.items() if t == s.get("iss")), 0 if "iss" not in s else "odd: %r" % (s["iss"],))
            except KeyError:
                on, i = False, 0
            st.append({"on": on, "iss": i, "it": [self.try_(self.item, c, k, m) for m in range(1, T + 1)]})
        return {"st": st, "x": [[self.try_(self.by, c, x, v) for v in range(1, N + 1)] for x in range(1, X + 1)],
                "at": [self.which(c, i) for i in range(1, A + 1)]}

    def view(self):
        f = self.focus
        size = {"items": (2, 2, 0, 1, 0), "x": (3, 0, 2, 3, 0), "dump": (2, 1, 1, 1, 1)}[f]
        return {c: self.look(c, *size) for c in (("a", "b") if f == "dump" else ("a",))}


def make(P, seed, variant):
    return StoreRun(P, seed, variant)
