"""The simulated environment the real RP code runs in.

* a settable clock (installed before any library is imported),
* a simulated network: every HTTP request the code makes ends in Session.send,
  which hands the *prepared* request (exact bytes on the wire) to the scripted OPs,
* simulated OPs that mint ID tokens / logout tokens / metadata with chosen defects.

Nothing here looks at the source of the code under test.
"""
import sys
import os
import time as _time
import datetime as _dt
import json
import random
import logging

logging.disable(logging.CRITICAL)
sys.dont_write_bytecode = True

# --------------------------------------------------------------------------
# clock
# --------------------------------------------------------------------------
T0 = 1_700_000_000


class Clock:
    now = float(T0)

    @classmethod
    def set(cls, t):
        cls.now = float(t)

    @classmethod
    def tick(cls, n=1):
        cls.now += n


_real_datetime = _dt.datetime
_real_time = _time.time
_real_gmtime = _time.gmtime
_real_localtime = _time.localtime


class _Meta(type(_real_datetime)):
    def __instancecheck__(cls, obj):
        return isinstance(obj, _real_datetime)


class FakeDatetime(_real_datetime, metaclass=_Meta):
    @classmethod
    def now(cls, tz=None):
        return _real_datetime.fromtimestamp(Clock.now, tz)

    @classmethod
    def utcnow(cls):
        return _real_datetime.fromtimestamp(Clock.now, _dt.timezone.utc).replace(tzinfo=None)

    @classmethod
    def today(cls):
        return cls.now()


def install_clock():
    _time.time = lambda: Clock.now
    _time.time_ns = lambda: int(Clock.now * 1e9)
    _time.gmtime = lambda s=None: _real_gmtime(Clock.now if s is None else s)
    _time.localtime = lambda s=None: _real_localtime(Clock.now if s is None else s)
    _dt.datetime = FakeDatetime


# cryptography / ssl get the true datetime: import them first
import ssl  # noqa
import cryptography.x509  # noqa
import cryptography.hazmat.primitives.asymmetric.rsa  # noqa

install_clock()

REPO_SRC = os.environ.get("RP_SRC", "/repo/src")
if REPO_SRC not in sys.path:
    sys.path.insert(0, REPO_SRC)

from urllib.parse import parse_qsl, urlencode
import requests  # noqa
import requests.sessions  # noqa
from requests.structures import CaseInsensitiveDict  # noqa


# --------------------------------------------------------------------------
# network
# --------------------------------------------------------------------------
class NetworkError(Exception):
    pass


class Req:
    """A request as it went over the wire."""

    def __init__(self, prep):
        self.method = prep.method
        self.url = prep.url
        self.headers = CaseInsensitiveDict(prep.headers)
        body = prep.body
        if body is None:
            body = ""
        if isinstance(body, bytes):
            body = body.decode("utf-8", "replace")
        self.body = body

    def form(self):
        from urllib.parse import parse_qs
        return {k: v for k, v in parse_qs(self.body, keep_blank_values=True).items()}

    def __repr__(self):
        return "%s %s %r" % (self.method, self.url, self.body[:200])


class Net:
    """url-prefix -> handler(req) -> (status, headers, body)"""
    handlers = {}
    log = []
    follow = False         # do as requests does: follow redirects when not told otherwise

    @classmethod
    def reset(cls):
        cls.handlers = {}
        cls.log = []
        cls.follow = False

    @classmethod
    def on(cls, url, fn):
        cls.handlers[url] = fn

    @classmethod
    def take(cls):
        r, cls.log = cls.log, []
        return r


TAILS = ["", "", "", "?tenant=a%2Fb", "?x=1&x=2", "?realm=a+b&v=2.0"]


def off(url, ep):
    """a URL made from that of an endpoint, which may have a query of its own:
    what remains when that is taken away; None if it isn't there"""
    base, _, q = url.partition("?")
    ebase, _, eq = ep.partition("?")
    rest = parse_qsl(q, keep_blank_values=True, strict_parsing=bool(q))
    for x in parse_qsl(eq, keep_blank_values=True):
        if x not in rest:
            return None
        rest.remove(x)
    return base + ("?" + urlencode(rest) if rest else "") if base == ebase else None


def _send(self, prep, **kwargs):
    req = Req(prep)
    req.how = kwargs
    Net.log.append(req)
    base = req.url.split("?")[0].split("#")[0]
    fn = Net.handlers.get(req.url) or Net.handlers.get(base)
    if fn is None:
        best = ""
        for u in Net.handlers:
            if u.endswith("*") and req.url.startswith(u[:-1]) and len(u) > len(best):
                best = u
        fn = Net.handlers.get(best)
    if fn is None:
        status, headers, body = 404, {"content-type": "text/plain"}, "no such page"
    else:
        status, headers, body = fn(req)
    resp = requests.Response()
    resp.status_code = status
    resp.headers = CaseInsensitiveDict(headers or {})
    resp._content = body.encode("utf-8") if isinstance(body, str) else body
    resp.encoding = "utf-8"
    resp.url = req.url
    resp.request = prep
    resp.reason = "X"
    if Net.follow and kwargs.get("allow_redirects", True) and status in (301, 302, 303, 307, 308) and "location" in resp.headers:
        p = prep.copy()
        p.url = resp.headers["location"]
        if status < 307:
            p.method, p.body = "GET", None
        return _send(self, p, **dict(kwargs, allow_redirects=False))
    return resp


requests.sessions.Session.send = _send

from cryptojwt.jwk.rsa import new_rsa_key  # noqa
from cryptojwt.jwk.ec import new_ec_key  # noqa
from cryptojwt.jwk.hmac import SYMKey  # noqa
from cryptojwt.jws.jws import JWS  # noqa
from cryptojwt.key_jar import KeyJar, build_keyjar  # noqa
from cryptojwt.key_bundle import KeyBundle  # noqa
from oidcmsg.oidc import left_hash  # noqa

# cryptography checks a private key for 50 ms whenever it is made from its numbers
import cryptojwt.jwk.rsa as _jwk_rsa  # noqa
_PRIVATE = {}
_construct = _jwk_rsa.rsa_construct_private


def _construct_once(numbers):
    k = tuple(sorted((a, b) for a, b in numbers.items() if isinstance(b, int)))
    if k not in _PRIVATE:
        _PRIVATE[k] = _construct(numbers)
    return _PRIVATE[k]


_jwk_rsa.rsa_construct_private = _construct_once

_KEYCACHE = {}


def rsa_key(name):
    k = "rsa:" + name
    if k not in _KEYCACHE:
        _KEYCACHE[k] = new_rsa_key(2048, kid=name, use="sig", alg="")
    return _KEYCACHE[k]


def ec_key(name):
    k = "ec:" + name
    if k not in _KEYCACHE:
        _KEYCACHE[k] = new_ec_key("P-256", kid=name, use="sig", alg="")
    return _KEYCACHE[k]


def jwks(*keys, private=False):
    return json.dumps({"keys": [k.serialize(private) for k in keys]})


def sign(payload, alg, key, **hdr):
    if alg == "none":
        return JWS(json.dumps(payload), alg="none").sign_compact([])
    return JWS(json.dumps(payload), alg=alg).sign_compact([key], **hdr)


JSON_H = {"content-type": "application/json"}
