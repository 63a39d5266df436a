"""RPOAuth2 on the real code."""
import base64
import copy
import json
import random
from urllib.parse import urlsplit, parse_qs, parse_qsl, urlencode, unquote_plus

from world import Net, Clock, T0, JSON_H, TAILS, off
from core import BASE, rp_keyjar
from oidcmsg.oauth2 import is_error_message
from oidcrp.rp_handler import RPHandler
import mbt

NAME = "oauth2"
MODULE = "RPOAuth2"
VIEW = "Hide"
CONSTRAINT = "InBounds"
CONSTS = {"Focus": "C27", "Wide": False, "Long": False}
INVARIANTS = ["TypeOK", "WhoOK"]
PROPERTIES = ["PropC27"]

NORES = {"tok": 0, "rem": -1, "sub": "", "info": 0, "yes": False, "sess": 0}
AT = {"plain": "oidcrp.oauth2.access_token.AccessToken", "github": "oidcrp.provider.github.AccessToken",
      "linkedin": "oidcrp.provider.linkedin.AccessToken"}
UI = {"plain": "oidcrp.provider.github.UserInfo", "github": "oidcrp.provider.github.UserInfo",
      "linkedin": "oidcrp.provider.linkedin.UserInfo"}
FORM_H = {"content-type": "application/x-www-form-urlencoded"}


def warm():
    rp_keyjar()


class OAuth2Run:
    def __init__(self, P, seed, variant=None):
        self.rng = random.Random(seed)
        self.unit = self.rng.choice([100, 100, 3, 7200, 10 ** 6])     # seconds
        Clock.set(T0)
        Net.reset()
        Net.on("https://*", self.serve)
        self.n = 0
        self.states = []
        self.codes = {}      # code -> (session, redirect URI)
        self.toks = {}       # access or refresh token -> (session, n)
        self.infos = {}      # nick name -> (session, v)
        self.err = None
        self.h = None
        # somebody else logging in, between events or while an answer is waited for
        self.crowd = self.rng.choice(["", "", "", "", "", "", "some", "during"])
        self.people = 0
        self.waiting = False

    def fresh(self, what):
        self.n += 1
        tail = "".join(self.rng.choice("abcXYZ019-._~") for _ in range(6))
        return "%s-%d-%s%s" % (what, self.n, tail, self.rng.choice(["", "", "+/=", "%41&b", " x", "é", "#?;,==",
                                                                   "z" * self.rng.choice([1, 300, 5000])])
                               if what in ("at", "rt") else "")

    # ----------------------------------------------------------------- set-up
    def ev_set(self, ev):
        self.c = ev["c"]
        r = self.rng
        self.iss = {"A": "https://as.example.com", "B": r.choice(["https://bs.example.com", "https://as.example.com/b",
                                                                  "https://as.example.com:8443"])}
        self.tail = {(a, n): r.choice(TAILS) for a in "AB" for n in ("authz", "token", "ui")}
        self.cid = {"A": "client-a", "B": r.choice(["client-b", "client-a"])}
        self.sec = {a: "secret of %s %s" % (a, "s" * 30) for a in "AB"}
        self.uris = {(a, i): "%s/cb/%s/%d" % (BASE, a, i) for a in "AB" for i in (1, 2)}
        cfg = {}
        for a in "AB":
            c = self.c[a]
            sv = {"authorization": {"class": "oidcrp.oauth2.authorization.Authorization"},
                  "access_token": {"class": AT[c["style"]]},
                  "refresh_access_token": {"class": "oidcrp.oauth2.refresh_access_token.RefreshAccessToken"}}
            if c["ui"]:
                sv["userinfo"] = {"class": UI["github" if self.query(a) else "linkedin"]}
            beh = {"response_types": ["code"], "scope": r.choice([["user"], ["user", "email"], ["r_basic"]])}
            if c["auth"]:
                beh["token_endpoint_auth_method"] = c["auth"]
            i = self.iss[a]
            cfg[a] = {"issuer": i, "client_id": self.cid[a], "client_secret": self.sec[a],
                      "redirect_uris": [self.uris[a, 1], self.uris[a, 2]], "services": sv, "behaviour": beh,
                      "provider_info": {"issuer": i, "authorization_endpoint": self.ep(a, "authz"),
                                        "token_endpoint": self.ep(a, "token"), "userinfo_endpoint": self.ep(a, "ui")}}
        self.h = RPHandler(BASE, client_configs=cfg, keyjar=rp_keyjar())
        return "ok", NORES

    def ep(self, a, name):
        return self.iss[a] + "/" + name + self.tail[a, name]

    def query(self, a):
        return self.c[a]["style"] == "github"

    # --------------------------------------------------------------- messages
    def token_answer(self, t, i):
        k = t["k"]
        if k in ("form", "formsilent", "json", "jsonsilent", "noat", "notype"):
            style = self.c[self.of[i]]["style"]
            d = {"access_token": self.fresh("at"), "token_type": self.rng.choice(["bearer", "Bearer"]), "scope": "user"}
            if self.rng.random() < .4:
                del d["scope"]
            if style == "linkedin" and self.rng.random() < .5 and self.grant == "code":
                del d["token_type"]
            if t["life"]:
                d["expires_in"] = max(t["life"], 0) * self.unit
            elif k in ("noat", "notype"):
                d["expires_in"] = self.unit
            if t["rt"]:
                d["refresh_token"] = self.fresh("rt")
                self.toks[d["refresh_token"]] = (i, t["rt"])
            if k == "noat":
                del d["access_token"]
            elif k == "notype":
                del d["token_type"]
            else:
                self.toks[d["access_token"]] = (i, t["n"])
            if k.startswith("form") or (k in ("noat", "notype") and style == "github" and self.grant == "code"):
                return 200, {} if k == "formsilent" else FORM_H, urlencode(d)
            return 200, {} if k == "jsonsilent" else JSON_H, json.dumps(d)
        e = {"error": self.rng.choice(["invalid_grant", "invalid_client", "bad_verification_code"])}
        if self.rng.random() < .5:
            e["error_description"] = "No, and again no"
        return {"err400": (400, JSON_H, json.dumps(e)), "err400f": (400, FORM_H, urlencode(e)),
                "err200": (200, FORM_H, urlencode(e)) if self.rng.random() < .5 else (200, JSON_H, json.dumps(e)),
                "http500": (self.rng.choice([500, 502, 503]), {"content-type": "text/plain"}, "Oh dear"),
                "http302": (self.rng.choice([302, 303, 307]), {"location": self.iss["A"] + "/elsewhere"}, ""),
                "garbage": (200, self.rng.choice([{}, {"content-type": "text/html"}, JSON_H]),
                            "<html>hello</html>")}[k]

    def ui_answer(self, u, i):
        k = u["k"]
        if k == "ok":
            nick = self.fresh("nick")
            self.infos[nick] = (i, u["v"])
            d = {"id": "u%d" % self.n, "login": nick, "firstName": "F", "plan": {"name": "x", "n": [1, None]}}
            if u["sub"]:
                d["sub"] = u["sub"]
            self.sent = copy.deepcopy(d)
            return 200, self.rng.choice([JSON_H, {"content-type": "application/json; charset=utf-8"}, {}]), json.dumps(d)
        return {"err401": (401, JSON_H, json.dumps({"error": "invalid_token"})),
                "http500": (self.rng.choice([500, 503]), {"content-type": "text/plain"}, "Oh dear"),
                "http302": (302, {"location": self.iss["A"] + "/elsewhere"}, ""),
                "garbage": (200, self.rng.choice([{}, {"content-type": "text/html"}]), "<html>")}[k]

    def somebody(self, a):
        """a login that has nothing to do with the sessions looked at; how it goes is no concern here"""
        self.people += 1
        try:
            b = self.h.begin(a)
            if self.rng.random() < .3:
                return
            self.h.finalize(self.iss[a], {"code": "c-%d" % self.people, "state": b["state"]})
            x = self.rng.random()
            if x < .2:
                self.h.clear_session(b["state"])
            elif x < .5:
                self.h.refresh_access_token(b["state"])
        except Exception:
            pass

    def others(self, p):
        if self.h is None or self.rng.random() > p:
            return
        self.waiting, log, grant, Net.log = True, Net.log, getattr(self, "grant", ""), []
        self.somebody(self.rng.choice("AB"))
        self.waiting, self.grant, Net.log = False, grant, log

    def to_somebody(self, q):
        me = "%d" % self.people
        if any(q.url == self.ep(a, "token") for a in "AB"):
            d = {"access_token": "at-" + me, "token_type": "bearer", "refresh_token": "rt-" + me, "expires_in": 900}
            return 200, JSON_H, json.dumps(d)
        return 200, JSON_H, json.dumps({"sub": "somebody-" + me, "login": "nick-" + me, "id": "u-" + me})

    def serve(self, q):
        if self.waiting:
            return self.to_somebody(q)
        if self.crowd == "during":
            self.others(1)
        for a in "AB":
            if q.url == self.ep(a, "token"):
                self.grant = "refresh" if "grant_type=refresh_token" in q.body else "code"
                return self.token_answer(self.plan["tok"], self.plan["i"])
            if off(q.url, self.ep(a, "ui")) is not None:
                return self.ui_answer(self.plan["ui"], self.plan["i"])
        return 404, {}, ""

    # ------------------------------------------------------------- what it sent
    def whose(self, tok):
        return self.toks.get(tok, (-1, "foreign %r" % tok))

    def wire(self):
        out = []
        for q in Net.take():
            a = [x for x in "AB" if off(q.url, self.ep(x, "token")) is not None or off(q.url, self.ep(x, "ui")) is not None]
            if not a:
                out.append({"to": q.url})
                continue
            a = a[0]
            hd = q.headers.get("Authorization", "")
            if off(q.url, self.ep(a, "token")) is not None:
                f = dict(parse_qsl(q.body, keep_blank_values=True, strict_parsing=True))
                if len(f) != len(parse_qsl(q.body, keep_blank_values=True)) or q.method != "POST" or \
                        q.headers.get("content-type") != "application/x-www-form-urlencoded" or q.url != self.ep(a, "token"):
                    out.append({"to": "odd", "q": repr(q)})
                    continue
                auth = []
                if hd:
                    u, _, p = base64.b64decode(hd.split(" ", 1)[1]).decode().partition(":")
                    auth.append("client_secret_basic" if hd.startswith("Basic ") and (unquote_plus(u), unquote_plus(p)) ==
                                (self.cid[a], self.sec[a]) else "bad header " + hd)
                if "client_secret" in f:
                    auth.append("client_secret_post" if (f.pop("client_secret"), f.get("client_id")) ==
                                (self.sec[a], self.cid[a]) else "bad fields")
                if f.get("client_id") == self.cid[a]:
                    del f["client_id"]
                d = {"to": "token", "as": a, "auth": "+".join(auth)}
                g = f.pop("grant_type", "none")
                f.pop("state", None)
                if g == "authorization_code":
                    i, uri = self.codes.get(f.pop("code", ""), (-1, ""))
                    got = f.pop("redirect_uri", None)
                    d.update(grant="code", sess=i, n=0,
                             uri=[n for n in (1, 2) if self.uris[a, n] == got == uri] or [0])
                    d["uri"] = d["uri"][0]
                else:
                    i, n = self.whose(f.pop("refresh_token", ""))
                    f.pop("scope", None)
                    d.update(grant="refresh" if g == "refresh_token" else g, sess=i, n=n, uri=0)
                if f:
                    d["more"] = f
                out.append(d)
            else:
                p = dict(parse_qsl(off(q.url, self.ep(a, "ui")).partition("?")[2], keep_blank_values=True))
                f = dict(parse_qsl(q.body, keep_blank_values=True))
                how, tok = [], set()
                if hd:
                    how.append("header")
                    tok.add(hd[7:] if hd.startswith("Bearer ") else "?" + hd)
                if "access_token" in p:
                    how.append("query")
                    tok.add(p.pop("access_token"))
                tok = tok.pop() if len(tok) == 1 else ""
                i, n = self.whose(tok if isinstance(tok, str) else "")
                d = {"to": "ui", "as": a, "grant": "", "sess": i, "uri": 0, "n": n, "auth": "+".join(how)}
                if p or f:
                    d["more"] = [p, f]
                out.append(d)
        return out

    # ----------------------------------------------------------------- events
    def ctx(self, a):
        return self.h.issuer2rp[self.iss[a]].client_get("service_context")

    def ev_begin(self, ev):
        a = ev["as"]
        ra = {"redirect_uri": self.uris[a, ev["uri"]]} if ev["uri"] == 2 or self.rng.random() < .5 else None
        b = self.h.begin(a, req_args=ra)
        u = urlsplit(b["url"])
        q = parse_qs(u.query, strict_parsing=True)
        want = {"client_id": [self.cid[a]], "redirect_uri": [self.uris[a, ev["uri"]]], "response_type": ["code"],
                "state": [b["state"]]}
        got = {k: q.get(k) for k in want}
        if got != want or off(b["url"], self.ep(a, "authz")) is None or b["state"] in self.states:
            return "ok", dict(NORES, sess=b["url"])
        self.states.append(b["state"])
        self.of = getattr(self, "of", {})
        self.of[len(self.states)] = a
        self.used = getattr(self, "used", {})
        self.used[len(self.states)] = self.uris[a, ev["uri"]]
        return "ok", dict(NORES, sess=len(self.states))

    def which(self, tok):
        """the label of an access token, if it is the one it should be"""
        return tok

    def ev_cb(self, ev):
        a, i, r = ev["as"], ev["i"], ev["r"]
        self.plan = ev
        code = self.fresh("code")
        self.codes[code] = (i, self.used[i])
        d = {"code": code, "state": self.states[i - 1]}
        if not r["code"]:
            del d["code"]
        if r["state"] == "unknown":
            d["state"] = self.rng.choice([self.states[i - 1][:-1], "x" + self.states[i - 1], "0" * 32])
        elif r["state"] == "none":
            del d["state"]
        other = {"A": "B", "B": "A"}[a]
        if r["iss"]:
            d["iss"] = self.iss[a] if r["iss"] == "right" else self.rng.choice([self.iss[other], self.iss[a] + "/"])
        if r["cid"]:
            d["client_id"] = self.cid[a] if r["cid"] == "right" else "another"
        if r["err"]:
            d = {"error": "access_denied", "state": d["state"]}
        got = self.h.finalize(self.iss[a], d)
        if "error" in got:
            if got.get("state") != self.states[i - 1]:
                return "ok", got
            return "err", NORES
        return "ok", self.done(got, i)

    def done(self, got, i):
        ui = got["userinfo"]
        ui = ui.to_dict() if hasattr(ui, "to_dict") else dict(ui)
        s, n = self.whose(got["token"])
        v = 0
        if ui:
            v = self.infos.get(ui.get("login"), (0, 0))
            v = v[1] if v[0] == i and ui == self.sent else "%r" % ui
        if got["id_token"] is not None:
            v = "id token"
        return dict(NORES, tok=n if s == i else "of %s" % s, sub=ui.get("sub", ""), info=v,
                    sess=self.states.index(got["state"]) + 1)

    def ev_refresh(self, ev):
        self.plan = ev
        got = self.h.refresh_access_token(self.states[ev["i"] - 1])
        s, n = self.whose(got["access_token"])
        return "ok", dict(NORES, tok=n if s == ev["i"] else "of %s" % s, sess=ev["i"])

    def ev_info(self, ev):
        self.plan = ev
        ui = self.h.get_user_info(self.states[ev["i"] - 1]).to_dict()
        v = self.infos.get(ui.get("login"), (0, 0))
        return "ok", dict(NORES, info=v[1] if v[0] == ev["i"] and ui == self.sent else repr(ui), sub=ui.get("sub", ""))

    def valid(self, i):
        tok, exp = self.h.get_valid_access_token(self.states[i - 1])
        s, n = self.whose(tok)
        rem = 99 if exp == 0 else (exp - Clock.now) / self.unit
        return n if s == i else "of %s" % s, int(rem) if rem == int(rem) else rem

    def ev_valid(self, ev):
        t, r = self.valid(ev["i"])
        return "ok", dict(NORES, tok=t, rem=r)

    def ev_active(self, ev):
        return "ok", dict(NORES, yes=self.h.has_active_authentication(self.states[ev["i"] - 1]))

    def ev_who(self, ev):
        return "ok", dict(NORES, sess=self.states.index(self.ctx(ev["as"]).state.get_state_by_sub(ev["sub"])) + 1)

    def ev_clear(self, ev):
        self.h.clear_session(self.states[ev["i"] - 1])
        return "ok", NORES

    def ev_tick(self, ev):
        Clock.tick(self.unit)
        return "ok", NORES

    def raw(self):
        out = []
        for i, st in enumerate(self.states, 1):
            try:
                out.append(json.dumps(self.ctx(self.of[i]).state.get_state(st), sort_keys=True, default=str))
            except KeyError:
                out.append(None)
        return out

    def do(self, ev):
        Net.take()
        self.err = None
        before = self.raw()
        if self.crowd == "some":
            self.others(.4)
            Net.take()
        try:
            out, res = getattr(self, "ev_" + ev["t"])(ev)
        except Exception as e:
            out, res = "exc", NORES
            self.err = e
        w = self.wire()
        after = self.raw()
        ch = [i for i in range(1, len(after) + 1) if i > len(before) or before[i - 1] != after[i - 1]]
        return {"out": out, "res": res, "wire": w, "changed": ch}

    def view(self):
        out = []
        for i, st in enumerate(self.states, 1):
            d = {"tok": 0, "rem": 0, "info": 0, "gone": False}
            try:
                kept = self.ctx(self.of[i]).state.get_state(st)
            except KeyError:
                d["gone"] = True
            else:
                try:
                    d["tok"], d["rem"] = self.valid(i)
                except Exception:
                    pass
                ui = kept.get("user_info")
                if ui:
                    ui = json.loads(ui) if isinstance(ui, str) else ui
                    v = self.infos.get(ui.get("login"), (0, 0))
                    d["info"] = v[1] if v[0] == i else "of %s" % v[0]
            out.append(d)
        return out


def judge(exp, got):
    return mbt.judge(exp, got)


def make(P, seed, variant):
    return OAuth2Run(P, seed, variant)
