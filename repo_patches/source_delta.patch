From 29dd6753a80b4d994cddd2afe3bc192f0628f96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:01 +0000
Subject: [PATCH 01/57] fix: removing a state removes all its bindings and only
 its own

remove_state() failed for sessions without bindings, left the record of the
bindings behind, only removed the last value of each type and removed (or
choked on) bindings that by then belonged to another session.
---
 src/oidcrp/state_interface.py | 44 ++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/oidcrp/state_interface.py b/src/oidcrp/state_interface.py
index bfc7100..c396905 100644
--- a/src/oidcrp/state_interface.py
+++ b/src/oidcrp/state_interface.py
@@ -243,18 +243,28 @@ class StateInterface(ImpExp):
         :param xtyp: The type of value x is (e.g. nonce, ...)
         """
         self._db[KEY_PATTERN[xtyp].format(value)] = state
-        try:
-            _val = self._db.get("ref{}ref".format(state))
-        except KeyError:
-            _val = None
 
-        if _val is None:
-            refs = {xtyp: value}
-        else:
-            refs = json.loads(_val)
-            refs[xtyp] = value
+        # Remember every value that has been bound to this state, such that all of the bindings
+        # can be removed when the state is.
+        refs = self._get_refs(state)
+        if value not in refs.setdefault(xtyp, []):
+            refs[xtyp].append(value)
         self._db["ref{}ref".format(state)] = json.dumps(refs)
 
+    def _get_refs(self, state):
+        """
+        All the values, grouped by type, that are or have been bound to a state.
+
+        :param state: The state value
+        :return: A dictionary with lists of values
+        """
+        _val = self._db.get("ref{}ref".format(state))
+        if not _val:
+            return {}
+
+        return {xtyp: val if isinstance(val, list) else [val] for xtyp, val in
+                json.loads(_val).items()}
+
     def get_state_by_x(self, value, xtyp):
         """
         Find the state value by providing the x value.
@@ -381,8 +391,16 @@ class StateInterface(ImpExp):
 
         :param state: Key to the state
         """
+        # Will raise a KeyError if there is no such state
+        self.get_state(state)
+
+        for xtyp, values in self._get_refs(state).items():
+            for _val in values:
+                _key = KEY_PATTERN[xtyp].format(_val)
+                # Might have been bound to another state since
+                if self._db.get(_key) == state:
+                    del self._db[_key]
+
+        if self._db.get("ref{}ref".format(state)) is not None:
+            del self._db["ref{}ref".format(state)]
         del self._db[state]
-        refs = json.loads(self._db.get("ref{}ref".format(state)))
-        if refs:
-            for xtyp, _val in refs.items():
-                del self._db[KEY_PATTERN[xtyp].format(_val)]
-- 
2.43.0


From 7ad9f7af80929c63281c3b45413509600808702f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 02/57] fix: get_user_info() without an access token uses the
 session's

The access token was looked up in the session but then not used.
---
 src/oidcrp/rp_handler.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 6d42ced..49118bc 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -594,6 +594,7 @@ class RPHandler(object):
             _arg = client.client_get("service_context").state.multiple_extend_request_args(
                 {}, state, ['access_token'],
                 ['auth_response', 'token_response', 'refresh_token_response'])
+            access_token = _arg['access_token']
 
         request_args = {'access_token': access_token}
 
-- 
2.43.0


From 839ea2cb9f7317aa602b2cb6c5a360334e8a2c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:04 +0000
Subject: [PATCH 03/57] fix: a refresh response only replaces what it contains

Refreshing lost the refresh token, ID Token and scope when the response did
not repeat them.
---
 src/oidcrp/oauth2/refresh_access_token.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/refresh_access_token.py b/src/oidcrp/oauth2/refresh_access_token.py
index 4b5efa6..4273b43 100644
--- a/src/oidcrp/oauth2/refresh_access_token.py
+++ b/src/oidcrp/oauth2/refresh_access_token.py
@@ -1,7 +1,10 @@
 """The service that talks to the OAuth2 refresh access token endpoint."""
+import json
 import logging
 
 from oidcmsg import oauth2
+from oidcmsg import verified_claim_name
+from oidcmsg.message import Message
 from oidcmsg.oauth2 import ResponseMessage
 from oidcmsg.time_util import time_sans_frac
 
@@ -30,7 +33,23 @@ class RefreshAccessToken(Service):
     def update_service_context(self, resp, key='', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get("service_context").state.store_item(resp, 'token_response', key)
+
+        _state_interface = self.client_get("service_context").state
+        _item = json.loads(resp.to_json())
+        try:
+            _previous = _state_interface.get_item(Message, 'token_response', key)
+        except KeyError:
+            pass
+        else:
+            # Keep that which wasn't replaced
+            _keep = ['refresh_token', 'scope']
+            if 'id_token' not in _item:
+                _keep.extend(['id_token', verified_claim_name('id_token')])
+            for attr in _keep:
+                if attr in _previous and attr not in _item:
+                    _item[attr] = _previous[attr]
+
+        _state_interface.store_item(json.dumps(_item), 'token_response', key)
 
     def oauth_pre_construct(self, request_args=None, **kwargs):
         """Preconstructor of request arguments"""
-- 
2.43.0


From 5cba380b62b4605cb1e500bb201c627aa537413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:12 +0000
Subject: [PATCH 04/57] fix: refresh with the scope of the session

The scope sent was the client's default one instead of the one used in the
session's authorization request.
---
 src/oidcrp/oauth2/refresh_access_token.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/refresh_access_token.py b/src/oidcrp/oauth2/refresh_access_token.py
index 4273b43..3df675d 100644
--- a/src/oidcrp/oauth2/refresh_access_token.py
+++ b/src/oidcrp/oauth2/refresh_access_token.py
@@ -57,7 +57,11 @@ class RefreshAccessToken(Service):
         parameters = list(self.msg_type.c_param.keys())
 
         _si = self.client_get("service_context").state
-        _args = _si.extend_request_args({}, oauth2.AccessTokenResponse,
+        # The scope of this session, unless the OP/AS said otherwise
+        _args = _si.extend_request_args({}, oauth2.AuthorizationRequest,
+                                        'auth_request', _state, ['scope'])
+
+        _args = _si.extend_request_args(_args, oauth2.AccessTokenResponse,
                                         'token_response', _state, parameters)
 
         _args = _si.extend_request_args(_args, oauth2.AccessTokenResponse,
-- 
2.43.0


From 2d0045c3c09d4b96ec0e92b31e6ddf7576ed3b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:21 +0000
Subject: [PATCH 05/57] fix: verify a refreshed ID Token like the original one

No clock skew, registered algorithm, nonce or subject was checked for ID Tokens
in a refresh response.
---
 src/oidcrp/oidc/refresh_access_token.py | 28 +++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/src/oidcrp/oidc/refresh_access_token.py b/src/oidcrp/oidc/refresh_access_token.py
index d6af5a3..4905a76 100644
--- a/src/oidcrp/oidc/refresh_access_token.py
+++ b/src/oidcrp/oidc/refresh_access_token.py
@@ -1,6 +1,9 @@
 from oidcmsg import oidc
+from oidcmsg import verified_claim_name
 
+from oidcrp.exception import ParameterError
 from oidcrp.oauth2 import refresh_access_token
+from oidcrp.oidc.access_token import AccessToken
 
 
 class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
@@ -8,6 +11,31 @@ class RefreshAccessToken(refresh_access_token.RefreshAccessToken):
     response_cls = oidc.AccessTokenResponse
     error_msg = oidc.ResponseMessage
 
+    # An ID Token has to fulfill the same requirements as the one from the token exchange
+    gather_verify_arguments = AccessToken.gather_verify_arguments
+
+    def update_service_context(self, resp, key='', **kwargs):
+        _idt = resp.get(verified_claim_name('id_token'))
+        if _idt:
+            _state_interface = self.client_get("service_context").state
+
+            # The nonce need not be there, but if it is it must be the one of this session
+            if 'nonce' in _idt:
+                try:
+                    if _state_interface.get_state_by_nonce(_idt['nonce']) != key:
+                        raise ParameterError('Someone has messed with "nonce"')
+                except KeyError:
+                    raise ValueError('Invalid nonce value')
+
+            # and it must be about the same subject
+            _previous = _state_interface.multiple_extend_request_args(
+                {}, key, ['id_token'], ['auth_response', 'token_response'])
+            if 'id_token' in _previous and _previous['id_token']['sub'] != _idt['sub']:
+                raise ValueError('Incorrect "sub" value')
+
+        refresh_access_token.RefreshAccessToken.update_service_context(self, resp, key=key,
+                                                                       **kwargs)
+
     def get_authn_method(self):
         try:
             return self.client_get("service_context").behaviour['token_endpoint_auth_method']
-- 
2.43.0


From c845716d118a7bd310ce7ab2fef72bd78b8bf026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:03 +0000
Subject: [PATCH 06/57] fix: logout without an end_session service raises
 OidcServiceError

---
 src/oidcrp/rp_handler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 49118bc..6299906 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -905,9 +905,8 @@ class RPHandler(object):
         if client is None:
             client = self.get_client_from_session_key(state)
 
-        try:
-            srv = client.client_get('service', 'end_session')
-        except KeyError:
+        srv = client.client_get('service', 'end_session')
+        if not srv:
             raise OidcServiceError("Does not know how to logout")
 
         if post_logout_redirect_uri:
-- 
2.43.0


From 002b7fdeec91db65271405eba9ffe12b144fd0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:31 +0000
Subject: [PATCH 07/57] fix: an HTTP error is never a successful response

---
 src/oidcrp/oauth2/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcrp/oauth2/__init__.py b/src/oidcrp/oauth2/__init__.py
index 2ee8fa3..058f784 100755
--- a/src/oidcrp/oauth2/__init__.py
+++ b/src/oidcrp/oauth2/__init__.py
@@ -260,6 +260,11 @@ class Client(Entity):
             except JSONDecodeError:  # So it's not JSON assume text then
                 err_resp = {'error': reqresp.text}
 
+            if not is_error_message(err_resp):
+                # Whatever it looks like, it's not the result of a successful request
+                raise OidcServiceError("HTTP ERROR: %s [%s] on %s" % (
+                    reqresp.text, reqresp.status_code, reqresp.url))
+
             err_resp['status_code'] = reqresp.status_code
             return err_resp
         else:
-- 
2.43.0


From 9121945055b65248e84278b5ba5b6a121b264a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 08/57] fix: a redirect is not a response to a token, user info
 or other service request

---
 src/oidcrp/oauth2/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/oidcrp/oauth2/__init__.py b/src/oidcrp/oauth2/__init__.py
index 058f784..44fc39c 100755
--- a/src/oidcrp/oauth2/__init__.py
+++ b/src/oidcrp/oauth2/__init__.py
@@ -125,6 +125,10 @@ class Client(Entity):
             raise
 
         if 300 <= resp.status_code < 400:
+            if service.synchronous and service.response_body_type != 'html':
+                # The service needs a response and this isn't one
+                raise OidcServiceError("HTTP ERROR: unexpected redirect [%s] on %s" % (
+                    resp.status_code, url))
             return {'http_response': resp}
 
         if resp.status_code < 300:
-- 
2.43.0


From dd6260c4ca10713fc67507fa4554f36d736aa8b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:36 +0000
Subject: [PATCH 09/57] fix: refuse an authorization response meant for another
 client

---
 src/oidcrp/oidc/authorization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 5845640..4d9b482 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -5,6 +5,7 @@ from typing import Union
 from oidcmsg import oauth2
 from oidcmsg import oidc
 from oidcmsg.exception import MissingRequiredAttribute
+from oidcmsg.exception import NotForMe
 from oidcmsg.message import Message
 from oidcmsg.oidc import make_openid_request
 from oidcmsg.oidc import verified_claim_name
@@ -64,6 +65,11 @@ class Authorization(authorization.Authorization):
     def post_parse_response(self, response, **kwargs):
         response = authorization.Authorization.post_parse_response(self, response, **kwargs)
 
+        # A response that isn't meant for this client is not fully verified by verify()
+        _client_id = self.client_get("service_context").client_id
+        if "aud" in response and _client_id not in response["aud"]:
+            raise NotForMe("Authorization response not meant for this client")
+
         _idt = response.get(verified_claim_name('id_token'))
         if _idt:
             # If there is a verified ID Token then we have to do nonce
-- 
2.43.0


From d713548ed69722a593a290fa70119a2f4fab1ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 10/57] fix: the exported service context is complete, JSON
 representable and a snapshot

---
 src/oidcrp/service_context.py | 80 +++++++++++++++++++++++++++++++++++
 1 file changed, 80 insertions(+)

diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index f68f81c..515611d 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -4,12 +4,20 @@ common between all the services that are used by OAuth2 client or OpenID Connect
 """
 import copy
 import hashlib
+import json
 import os
+from typing import List
+from typing import Optional
 
+from cryptojwt.jwk import JWK
+from cryptojwt.jwk.jwk import key_from_jwk_dict
 from cryptojwt.jwk.rsa import RSAKey, import_private_rsa_key_from_file
 from cryptojwt.key_bundle import KeyBundle
 from cryptojwt.utils import as_bytes
+from cryptojwt.utils import importer
+from cryptojwt.utils import qualified_name
 from oidcmsg.context import OidcContext
+from oidcmsg.message import Message
 from oidcmsg.oidc import RegistrationRequest
 from oidcmsg.util import rndstr
 
@@ -65,6 +73,42 @@ DEFAULT_VALUE = {
 }
 
 
+def _dump_add_on(spec):
+    if not isinstance(spec, dict):
+        return spec
+
+    res = {}
+    for key, val in spec.items():
+        if isinstance(val, JWK):
+            res[key] = {"jwk": val.serialize(private=True)}
+        else:
+            try:
+                json.dumps(val)
+            except TypeError:
+                continue
+            res[key] = val
+    return res
+
+
+def _load_add_on(spec):
+    res = {}
+    for key, val in spec.items():
+        if key == "key" and isinstance(val, dict) and list(val.keys()) == ["jwk"]:
+            res[key] = key_from_jwk_dict(val["jwk"], private=True)
+        else:
+            res[key] = copy.deepcopy(val)
+    return res
+
+
+def _load_message(item):
+    # A Message instance is exported as {<class name>: <content>}
+    if isinstance(item, dict) and len(item) == 1:
+        (_name, _content), = item.items()
+        if "." in _name and isinstance(_content, dict):
+            return importer(_name)().from_dict(_content)
+    return item
+
+
 # def add_issuer(conf, issuer):
 #     res = {}
 #     for key, val in conf.items():
@@ -108,6 +152,7 @@ class ServiceContext(OidcContext):
         'redirect_uris': None,
         "requests_dir": None,
         "register_args": None,
+        "registration_access_token": None,
         'registration_response': None,
         'state': StateInterface,
         'verify_args': None
@@ -140,6 +185,7 @@ class ServiceContext(OidcContext):
         self.post_logout_redirect_uris = []
         self.redirect_uris = []
         self.register_args = {}
+        self.registration_access_token = ''
         self.registration_response = {}
         self.requests_dir = ''
 
@@ -194,6 +240,40 @@ class ServiceContext(OidcContext):
     def __setitem__(self, key, value):
         setattr(self, key, value)
 
+    def dump(self, exclude_attributes: Optional[List[str]] = None) -> dict:
+        """
+        Export the context as something that can be represented as JSON.
+
+        :return: A dictionary that doesn't share anything with this instance.
+        """
+        _exclude = exclude_attributes or []
+        info = OidcContext.dump(self, exclude_attributes=_exclude + ["add_on"])
+        for attr in ["provider_info", "registration_response"]:
+            val = info.get(attr)
+            if isinstance(val, Message):
+                info[attr] = {qualified_name(val.__class__): val.to_dict()}
+        if "add_on" not in _exclude:
+            info["add_on"] = {k: _dump_add_on(v) for k, v in self.add_on.items()}
+        return copy.deepcopy(info)
+
+    def load(self, item: dict, init_args: Optional[dict] = None,
+             load_args: Optional[dict] = None):
+        info = copy.deepcopy({k: v for k, v in item.items() if k != "add_on"})
+        for attr in ["provider_info", "registration_response"]:
+            if attr in info:
+                info[attr] = _load_message(info[attr])
+
+        OidcContext.load(self, info, init_args=init_args, load_args=load_args)
+
+        # What can't be exported, like a HTTP client, comes from the configuration
+        for name, val in item.get("add_on", {}).items():
+            _spec = self.add_on.setdefault(name, {})
+            if isinstance(val, dict):
+                _spec.update(_load_add_on(val))
+            else:
+                self.add_on[name] = val
+        return self
+
     def filename_from_webname(self, webname):
         """
         A 1<->1 map is maintained between a URL pointing to a file and
-- 
2.43.0


From c5b1a99a1325b7e5b22db115fdb28fd214261a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 11/57] fix: initiating services leaves the configuration as it
 was

---
 src/oidcrp/service.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index c4726a5..373ce7e 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -622,10 +622,8 @@ def init_services(service_definitions, client_get, client_authn_factory=None):
     """
     service = DLDict()
     for service_name, service_configuration in service_definitions.items():
-        try:
-            kwargs = service_configuration['kwargs']
-        except KeyError:
-            kwargs = {}
+        # A copy, what is added below must not end up in the configuration
+        kwargs = dict(service_configuration.get('kwargs', {}))
 
         kwargs.update({
             'client_get': client_get,
-- 
2.43.0


From 065fa9655b2661fe79cff38d26bc3ef195f41d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 12/57] fix: starting a session doesn't change configured
 request_args

---
 src/oidcrp/rp_handler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 6299906..aaa3d29 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -399,9 +399,9 @@ class RPHandler(object):
 
         _req_args = _context.config.get("request_args")
         if _req_args:
-            if 'claims' in _req_args:
-                _req_args["claims"] = Claims(**_req_args["claims"])
             request_args.update(_req_args)
+            if 'claims' in _req_args:
+                request_args["claims"] = Claims(**_req_args["claims"])
 
         if req_args is not None:
             request_args.update(req_args)
-- 
2.43.0


From 5e9bec035c2c8121ab8244163513cd2cb7ba24b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:13 +0000
Subject: [PATCH 13/57] fix: "code id_token" needs a callback URI

---
 src/oidcrp/oidc/registration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 06a3ea9..5611238 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -125,7 +125,7 @@ def add_callbacks(context, ignore: Optional[List[str]] = None):
         # code and/or implicit
         if _in_config_or_client_preferences(context.config, "response_types", "code"):
             _uris['code'] = True
-        for rt in ["id_token", "id_token token", "code id_token token", "code idtoken",
+        for rt in ["id_token", "id_token token", "code id_token token", "code id_token",
                    "code token"]:
             if _in_config_or_client_preferences(context.config, "response_types", rt):
                 _uris["implicit"] = True
-- 
2.43.0


From 5e1af74a7364a476d00ff6d3520cdb760c26b4a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:20 +0000
Subject: [PATCH 14/57] fix: registering a client keeps the configured logout
 and request URIs

---
 src/oidcrp/oidc/registration.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oidcrp/oidc/registration.py b/src/oidcrp/oidc/registration.py
index 5611238..98a1c08 100644
--- a/src/oidcrp/oidc/registration.py
+++ b/src/oidcrp/oidc/registration.py
@@ -159,6 +159,12 @@ def add_callbacks(context, ignore: Optional[List[str]] = None):
     if "redirect_uris" not in ignore:
         _redirect_uris = [v for k, v in callbacks.items() if k in ["code", "implicit", "form_post"]]
         callbacks["redirect_uris"] = _redirect_uris
+
+    # Configured URIs are used rather than constructed ones
+    for _key in CALLBACK_URIS:
+        if _key != "redirect_uris" and context.config.get(_key):
+            callbacks[_key] = context.config[_key]
+
     context.set('callback', callbacks)
 
 
-- 
2.43.0


From e6095434c07db2084ebe8ddba87684bcaacceaa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:07 +0000
Subject: [PATCH 15/57] fix: a registration response does not have to contain
 token_endpoint_auth_signing_alg

---
 src/oidcrp/client_auth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 2a480bb..35b0457 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -456,8 +456,8 @@ class JWSAuthnMethod(ClientAuthnMethod):
         if 'authn_endpoint' in kwargs and kwargs['authn_endpoint'] in ['token_endpoint']:
             reg_resp = context.registration_response
             if reg_resp:
-                algorithm = reg_resp["token_endpoint_auth_signing_alg"]
-            else:
+                algorithm = reg_resp.get("token_endpoint_auth_signing_alg")
+            if algorithm is None:
                 algorithm = context.client_preferences.get("token_endpoint_auth_signing_alg")
                 if algorithm is None:
                     _pi = context.provider_info
-- 
2.43.0


From c394de0ed4c99a300003c29006c3512f991759f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 16/57] fix: use the client a provider already has, however the
 provider is named

---
 src/oidcrp/rp_handler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index aaa3d29..806eae7 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -330,11 +330,13 @@ class RPHandler(object):
 
             logger.debug("Connecting to previously unknown OP")
             temporary_client = self.do_webfinger(user)
+            iss_id = temporary_client.client_get("service_context").get('issuer')
         else:
             temporary_client = None
 
         try:
-            client = self.issuer2rp[iss_id]
+            # 'iss_id' may also be the name the provider has in the configuration
+            client = self.issuer2rp[self.hash2issuer.get(iss_id, iss_id)]
         except KeyError:
             if temporary_client:
                 client = temporary_client
@@ -345,12 +347,13 @@ class RPHandler(object):
             return client
 
         logger.debug("Get provider info")
-        issuer = self.do_provider_info(client, behaviour_args=behaviour_args)
+        self.do_provider_info(client, behaviour_args=behaviour_args)
 
         logger.debug("Do client registration")
         self.do_client_registration(client, iss_id, behaviour_args=behaviour_args)
 
-        self.issuer2rp[issuer] = client
+        # This is what the client's sessions are bound to
+        self.issuer2rp[client.client_get("service_context").get('issuer')] = client
         return client
 
     def _get_response_type(self, context, req_args: Optional[dict] = None):
-- 
2.43.0


From 57f00e0307911bc9607f0a6f423e0cf87098fd01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:45 +0000
Subject: [PATCH 17/57] fix: creating a client leaves the configuration it is
 made from as it was

---
 src/oidcrp/rp_handler.py      | 4 +++-
 src/oidcrp/service_context.py | 3 ++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 806eae7..719c603 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -1,4 +1,5 @@
 from inspect import currentframe
+import copy
 import logging
 import sys
 import traceback
@@ -158,7 +159,8 @@ class RPHandler(object):
         try:
             _cnf = self.pick_config(issuer)
         except KeyError:
-            _cnf = self.pick_config('')
+            # Don't touch the default configuration, other clients depend on it
+            _cnf = copy.copy(self.pick_config(''))
             _cnf['issuer'] = issuer
 
         try:
diff --git a/src/oidcrp/service_context.py b/src/oidcrp/service_context.py
index 515611d..80cd37a 100644
--- a/src/oidcrp/service_context.py
+++ b/src/oidcrp/service_context.py
@@ -193,7 +193,8 @@ class ServiceContext(OidcContext):
         # Dynamic information
         for param in ['client_secret', 'client_id', 'redirect_uris', 'provider_info',
                       'behaviour', 'callback', 'issuer']:
-            _val = config.get(param, _def_value[param])
+            # A copy since this is updated while the configuration may be shared
+            _val = copy.deepcopy(config.get(param, _def_value[param]))
             self.set(param, _val)
             if param == 'client_secret' and _val:
                 self.keyjar.add_symmetric('', _val)
-- 
2.43.0


From 968c25f44d8cfce424fd9151485d72f09b354bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:52 +0000
Subject: [PATCH 18/57] fix: no issuer found for a user identifier is an error

---
 src/oidcrp/rp_handler.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 719c603..ceb7762 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -301,7 +301,13 @@ class RPHandler(object):
         logger.debug(20 * "*" + " do_webfinger " + 20 * "*")
 
         temporary_client = self.init_client('')
-        temporary_client.do_request('webfinger', resource=user)
+        _context = temporary_client.client_get("service_context")
+        _context.issuer = ''
+        response = temporary_client.do_request('webfinger', resource=user)
+        if is_error_message(response):
+            raise OidcServiceError(response['error'])
+        if not _context.issuer:
+            raise OidcServiceError('Could not find an issuer for the user identifier')
         return temporary_client
 
     def client_setup(self,
-- 
2.43.0


From 66fb6fb4adee55c44ff72ab5b879c3005cfed859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 19/57] fix: issuer_mismatch: false doesn't allow an issuer
 mismatch

---
 src/oidcrp/oauth2/provider_info_discovery.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/oidcrp/oauth2/provider_info_discovery.py b/src/oidcrp/oauth2/provider_info_discovery.py
index 4aa4033..1760f70 100644
--- a/src/oidcrp/oauth2/provider_info_discovery.py
+++ b/src/oidcrp/oauth2/provider_info_discovery.py
@@ -66,9 +66,7 @@ class ProviderInfoDiscovery(Service):
 
         # In some cases we can live with the two URLs not being
         # the same. But this is an excepted that has to be explicit
-        try:
-            self.client_get("service_context").allow['issuer_mismatch']
-        except KeyError:
+        if not self.client_get("service_context").allow.get('issuer_mismatch'):
             if _issuer != _pcr_issuer:
                 raise OidcServiceError(
                     "provider info issuer mismatch '%s' != '%s'" % (
-- 
2.43.0


From 37bb90b2cb8d61ac69c5307f64b6d7c41efe7d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:05 +0000
Subject: [PATCH 20/57] fix: preferences are matched against this provider's
 metadata only

---
 src/oidcrp/oidc/provider_info_discovery.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/provider_info_discovery.py b/src/oidcrp/oidc/provider_info_discovery.py
index 230ce27..019eae1 100644
--- a/src/oidcrp/oidc/provider_info_discovery.py
+++ b/src/oidcrp/oidc/provider_info_discovery.py
@@ -116,13 +116,16 @@ class ProviderInfoDiscovery(provider_info_discovery.ProviderInfoDiscovery):
             except KeyError:
                 continue
 
+            # Whatever was chosen before doesn't matter
+            _behaviour.pop(_pref, None)
+
             try:
                 _pvals = pcr[_prov]
             except KeyError:
                 try:
                     # If the provider have not specified use what the
                     # standard says is mandatory if at all.
-                    _pvals = PROVIDER_DEFAULT[_pref]
+                    _pvals = [PROVIDER_DEFAULT[_pref]]
                 except KeyError:
                     logger.info(
                         'No info from provider on {} and no default'.format(
-- 
2.43.0


From e8f269896a9fa75f7b6971a1653d1b63b47fa9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 21/57] fix: starting a session doesn't add to configured or
 given scope

---
 src/oidcrp/oidc/authorization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 4d9b482..ce9f30d 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -102,7 +102,8 @@ class Authorization(authorization.Authorization):
         if 'scope' not in request_args:
             request_args['scope'] = _context.behaviour.get("scope", ["openid"])
         elif 'openid' not in request_args['scope']:
-            request_args['scope'].append('openid')
+            # Not append, since the list may belong to the configuration or the caller
+            request_args['scope'] = request_args['scope'] + ['openid']
 
         # 'code' and/or 'id_token' in response_type means an ID Roken
         # will eventually be returnedm, hence the need for a nonce
-- 
2.43.0


From 1f8ccd3830cc3dbf058db6ebf47871ff29f9972f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:22 +0000
Subject: [PATCH 22/57] fix: refuse user identifiers without a host and http
 links in any case

---
 src/oidcrp/oidc/webfinger.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/webfinger.py b/src/oidcrp/oidc/webfinger.py
index a442a36..2eba7e8 100644
--- a/src/oidcrp/oidc/webfinger.py
+++ b/src/oidcrp/oidc/webfinger.py
@@ -58,7 +58,7 @@ class WebFinger(Service):
                     except KeyError:
                         _http_allowed = False
 
-                    if _href.startswith('http://') and not _http_allowed:
+                    if _href.lower().startswith('http://') and not _http_allowed:
                         raise ValueError(
                             'http link not allowed ({})'.format(_href))
 
@@ -144,6 +144,9 @@ class WebFinger(Service):
                     authority = part[NETLOC]
                     resource = self.create_url(part, [FRAGMENT])
 
+        if not urlsplit('https://{}'.format(authority)).hostname:
+            raise ValueError('No host in the resource specification')
+
         location = WF_URL.format(authority)
         return oidc.WebFingerRequest(
             resource=resource, rel=OIC_ISSUER).request(location)
-- 
2.43.0


From 7b122d93cb83a7a0c243c99926f19b0966c23350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:11 +0000
Subject: [PATCH 23/57] fix: an audience that is a string is one audience

---
 src/oidcrp/oidc/authorization.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index ce9f30d..030495b 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -66,9 +66,12 @@ class Authorization(authorization.Authorization):
         response = authorization.Authorization.post_parse_response(self, response, **kwargs)
 
         # A response that isn't meant for this client is not fully verified by verify()
-        _client_id = self.client_get("service_context").client_id
-        if "aud" in response and _client_id not in response["aud"]:
-            raise NotForMe("Authorization response not meant for this client")
+        if "aud" in response:
+            _aud = response["aud"]
+            if isinstance(_aud, str):
+                _aud = [_aud]
+            if self.client_get("service_context").client_id not in _aud:
+                raise NotForMe("Authorization response not meant for this client")
 
         _idt = response.get(verified_claim_name('id_token'))
         if _idt:
-- 
2.43.0


From 7f97c8020a795679ddb9bafdb59f41cef19aefd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 24/57] fix: a cookie dealer returns the value, time stamp and
 type of a cookie or nothing

---
 src/oidcrp/cookie.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index 7ece2ef..9b3b94d 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -356,6 +356,9 @@ class CookieDealer(object):
         # now
         timestamp = str(int(time.time()))
 
+        if "::" in typ:
+            raise ValueError("'::' is not allowed in a cookie type")
+
         # create cookie payload
         try:
             cookie_payload = "::".join([value, timestamp, typ])
@@ -386,7 +389,8 @@ class CookieDealer(object):
             except (TypeError, AssertionError):
                 return None
             else:
-                value, _ts, typ = info.split("::")
-                if timestamp == _ts:
-                    return value, _ts, typ
+                # the value may contain the separator
+                parts = info.rsplit("::", 2)
+                if len(parts) == 3 and timestamp == parts[1]:
+                    return tuple(parts)
         return None
-- 
2.43.0


From 641a2f90ab3d3503e2a6cf86d2cf06f02c811886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 25/57] fix: a cookie is read as it was made or refused as
 invalid

---
 src/oidcrp/cookie.py | 54 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 10 deletions(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index 9b3b94d..988124b 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -1,12 +1,14 @@
 import base64
 import hashlib
 import hmac
+from http.cookies import CookieError
 from http.cookies import SimpleCookie
 import logging
 import os
 import sys
 import time
 
+from cryptography.exceptions import InvalidTag
 from cryptography.hazmat.primitives.ciphers.aead import AESGCM
 from cryptojwt.jwe.exception import JWEException
 from cryptojwt.jwe.utils import split_ctx_and_tag
@@ -89,6 +91,26 @@ def verify_cookie_signature(sig, key, *parts):
     return safe_str_cmp(as_unicode(sig), cookie_signature(key, *parts))
 
 
+def _payload_signature(seed, load, timestamp):
+    """
+    The signature of a cookie. The length of the payload is part of what is signed, so nothing
+    can be moved between the payload and the time stamp.
+    """
+    load, timestamp = as_bytes(load), as_bytes(timestamp)
+    msg = str(len(load)).encode() + b"|" + load + b"|" + timestamp
+    return hmac.new(as_bytes(seed), msg, digestmod=hashlib.sha256).hexdigest()
+
+
+def _verify_payload_signature(sig, seed, load, timestamp):
+    if len(sig) == 64:
+        return safe_str_cmp(sig, _payload_signature(seed, load, timestamp))
+    # Older cookies: the signature doesn't say where the payload ends. The digits at the
+    # end have to be the time stamp.
+    if not timestamp.isdigit() or load[-1:].isdigit():
+        return False
+    return verify_cookie_signature(sig, seed, load, timestamp)
+
+
 def _make_hashed_key(parts, hashfunc='sha256'):
     """
     Construct a key via hashing the parts
@@ -149,6 +171,9 @@ def make_cookie(name, load, seed, expire=0, domain="", path="", timestamp="",
     if not timestamp:
         timestamp = str(int(time.time()))
 
+    if "|" in timestamp:
+        raise ValueError("'|' is not allowed in a time stamp")
+
     bytes_load = as_bytes(load)
     bytes_timestamp = timestamp.encode("utf-8")
 
@@ -175,7 +200,7 @@ def make_cookie(name, load, seed, expire=0, domain="", path="", timestamp="",
     else:
         cookie_payload = [
             bytes_load, bytes_timestamp,
-            cookie_signature(seed, load, timestamp).encode('utf-8')]
+            _payload_signature(seed, load, timestamp).encode('utf-8')]
 
     cookie[name] = (b"|".join(cookie_payload)).decode('utf-8')
 
@@ -221,23 +246,26 @@ def parse_cookie(name, seed, kaka, enc_key=None):
     if not kaka:
         return None
 
-    seed = as_unicode(seed)
-
     parts = cookie_parts(name, kaka)
     if parts is None:
         return None
-    elif len(parts) == 3:
+    elif not enc_key:
+        # The payload may contain the separator
+        parts = "|".join(parts).rsplit("|", 2)
+        if len(parts) != 3:
+            return None
         # verify the cookie signature
         cleartext, timestamp, sig = parts
-        if not verify_cookie_signature(sig, seed, cleartext, timestamp):
+        if not _verify_payload_signature(sig, seed, cleartext, timestamp):
             raise InvalidCookieSign()
         return cleartext, timestamp
     elif len(parts) == 4:
         # encrypted and signed
         timestamp = parts[0]
-        iv = base64.b64decode(parts[1])
-        ciphertext = base64.b64decode(parts[2])
-        tag = base64.b64decode(parts[3])
+        try:
+            iv, ciphertext, tag = [base64.b64decode(part, validate=True) for part in parts[1:]]
+        except ValueError:
+            raise InvalidCookieSign()
         ct = ciphertext + tag
 
         # Make sure the key is 32-Bytes long
@@ -249,9 +277,12 @@ def parse_cookie(name, seed, kaka, enc_key=None):
         aad = timestamp.encode('utf-8')
         try:
             cleartext = aesgcm.decrypt(iv, ct, aad)
-        except JWEException:
+        except (JWEException, InvalidTag, ValueError):
             raise InvalidCookieSign()
         return cleartext.decode('utf-8'), timestamp
+    elif len(parts) == 3:
+        # only signed, when it should have been encrypted
+        raise InvalidCookieSign()
     return None
 
 
@@ -264,7 +295,10 @@ def cookie_parts(name, kaka):
     :return: A list of parts or None if there is no cookie object with the
         given name
     """
-    cookie_obj = SimpleCookie(as_unicode(kaka))
+    try:
+        cookie_obj = SimpleCookie(as_unicode(kaka))
+    except CookieError:
+        return None
     morsel = cookie_obj.get(name)
     if morsel:
         return morsel.value.split("|")
-- 
2.43.0


From eacdd337f6e430819f73edb62a98deed5d33ca9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:03 +0000
Subject: [PATCH 26/57] fix: a cookie type may begin with a colon

---
 src/oidcrp/cookie.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/cookie.py b/src/oidcrp/cookie.py
index 988124b..e7bd6d7 100755
--- a/src/oidcrp/cookie.py
+++ b/src/oidcrp/cookie.py
@@ -423,8 +423,8 @@ class CookieDealer(object):
             except (TypeError, AssertionError):
                 return None
             else:
-                # the value may contain the separator
-                parts = info.rsplit("::", 2)
-                if len(parts) == 3 and timestamp == parts[1]:
-                    return tuple(parts)
+                # the value may contain the separator, the type doesn't
+                value, sep, typ = info.rpartition("::{}::".format(timestamp))
+                if sep and "::" not in typ:
+                    return value, timestamp, typ
         return None
-- 
2.43.0


From dd0076e0f62ce5c71f9a054a9c69758a2692d849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:14 +0000
Subject: [PATCH 27/57] fix: the credentials for client_secret_basic are base64
 encoded

---
 src/oidcrp/client_auth.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 35b0457..4a8a180 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -79,7 +79,7 @@ class ClientSecretBasic(ClientAuthnMethod):
 
     The upshot of this is to construct an Authorization header that has the
     value 'Basic <token>' where <token> is username and password concatenated
-    together with a ':' in between and then URL safe base64 encoded.
+    together with a ':' in between and then base64 encoded.
 
     Note that both username and password
     """
@@ -118,7 +118,7 @@ class ClientSecretBasic(ClientAuthnMethod):
         user = self._get_user(service, **kwargs)
 
         credentials = "{}:{}".format(quote_plus(user), quote_plus(passwd))
-        return base64.urlsafe_b64encode(credentials.encode("utf-8")).decode("utf-8")
+        return base64.b64encode(credentials.encode("utf-8")).decode("utf-8")
 
     @staticmethod
     def _with_or_without_client_id(request, service):
-- 
2.43.0


From 7549c00d4be511e0771161cac4210ac24abb5e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 28/57] fix: private_key_jwt never signs with the client
 secret, client_secret_jwt does if it can

---
 src/oidcrp/client_auth.py | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 4a8a180..23007de 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -395,6 +395,16 @@ class JWSAuthnMethod(ClientAuthnMethod):
             raise AuthnFailure("Missing algorithm specification")
         return algorithm
 
+    @staticmethod
+    def suitable_algorithms(algorithms):
+        """
+        Pick the algorithms that fit the method
+
+        :param algorithms: List of names of signing algorithms
+        :return: List of names of signing algorithms, in the same order
+        """
+        return algorithms
+
     @staticmethod
     def get_signing_key_from_keyjar(algorithm, service_context):
         """
@@ -466,11 +476,13 @@ class JWSAuthnMethod(ClientAuthnMethod):
                     except KeyError:
                         algorithm = "RS256"  # default
                     else:
-                        for alg in algs:  # pick the first one I support and have keys for
+                        # pick the first one I support and have keys for
+                        algs = self.suitable_algorithms([
+                            alg for alg in algs
                             if alg in SIGNER_ALGS and self.get_signing_key_from_keyjar(alg,
-                                                                                       context):
-                                algorithm = alg
-                                break
+                                                                                       context)])
+                        if algs:
+                            algorithm = algs[0]
 
             audience = context.provider_info['token_endpoint']
         else:
@@ -564,6 +576,11 @@ class ClientSecretJWT(JWSAuthnMethod):
     def choose_algorithm(self, context="client_secret_jwt", **kwargs):
         return JWSAuthnMethod.choose_algorithm(context, **kwargs)
 
+    @staticmethod
+    def suitable_algorithms(algorithms):
+        # The client secret is what should be used if possible
+        return [alg for alg in algorithms if alg2keytype(alg) == "oct"] or algorithms
+
     def get_signing_key_from_keyjar(self, algorithm, service_context):
         return service_context.keyjar.get_signing_key(alg2keytype(algorithm), alg=algorithm)
 
@@ -576,6 +593,11 @@ class PrivateKeyJWT(JWSAuthnMethod):
     def choose_algorithm(self, context="private_key_jwt", **kwargs):
         return JWSAuthnMethod.choose_algorithm(context, **kwargs)
 
+    @staticmethod
+    def suitable_algorithms(algorithms):
+        # Never the client secret
+        return [alg for alg in algorithms if alg2keytype(alg) != "oct"]
+
     def get_signing_key_from_keyjar(self, algorithm, service_context=None):
         return service_context.keyjar.get_signing_key(alg2keytype(algorithm), "", alg=algorithm)
 
-- 
2.43.0


From 2d3488ede56dd7e0f2bde37b6f1c45514050cf6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 29/57] fix: a refresh request authenticates the client when no
 method is configured

---
 src/oidcrp/oauth2/refresh_access_token.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/refresh_access_token.py b/src/oidcrp/oauth2/refresh_access_token.py
index 3df675d..46dd851 100644
--- a/src/oidcrp/oauth2/refresh_access_token.py
+++ b/src/oidcrp/oauth2/refresh_access_token.py
@@ -22,7 +22,7 @@ class RefreshAccessToken(Service):
     endpoint_name = 'token_endpoint'
     synchronous = True
     service_name = 'refresh_token'
-    default_authn_method = 'bearer_header'
+    default_authn_method = 'client_secret_basic'
     http_method = 'POST'
 
     def __init__(self, client_get, client_authn_factory=None, conf=None):
-- 
2.43.0


From 1a6c6b0822dc3d7e31e09f82e49df289e2bd279d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 30/57] fix: refresh requests carry a DPoP proof

---
 src/oidcrp/oauth2/add_on/dpop.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index 13981e1..91c3b20 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -159,7 +159,8 @@ def add_support(services, signing_algorithms):
     }
     _service.construct_extra_headers.append(dpop_header)
 
-    # The same for userinfo requests
-    _userinfo_service = services.get("userinfo")
-    if _userinfo_service:
-        _userinfo_service.construct_extra_headers.append(dpop_header)
\ No newline at end of file
+    # The same for refresh and userinfo requests
+    for _name in ["refresh_token", "userinfo"]:
+        _service = services.get(_name)
+        if _service:
+            _service.construct_extra_headers.append(dpop_header)
\ No newline at end of file
-- 
2.43.0


From becef0c4f8d05d972562c446efbb7eba85abc06d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 31/57] fix: a provider that says nothing about DPoP doesn't
 support it

---
 src/oidcrp/oauth2/add_on/dpop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index 91c3b20..46745fe 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -102,7 +102,7 @@ def dpop_header(service_context: ServiceContext,
     dpop_key = service_context.add_on['dpop'].get('key')
 
     if not dpop_key:
-        algs_supported = provider_info["dpop_signing_alg_values_supported"]
+        algs_supported = provider_info.get("dpop_signing_alg_values_supported")
         if not algs_supported:  # does not support DPoP
             return headers
 
-- 
2.43.0


From bfda9746f41cb498bf6c993bb457a8682f8a1d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 32/57] fix: a DPoP key is for the algorithm that was chosen

---
 src/oidcrp/oauth2/add_on/dpop.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/oidcrp/oauth2/add_on/dpop.py b/src/oidcrp/oauth2/add_on/dpop.py
index 46745fe..e50b681 100644
--- a/src/oidcrp/oauth2/add_on/dpop.py
+++ b/src/oidcrp/oauth2/add_on/dpop.py
@@ -117,6 +117,7 @@ def dpop_header(service_context: ServiceContext,
 
         # Mint a new key
         dpop_key = key_by_alg(chosen_alg)
+        dpop_key.alg = chosen_alg
         service_context.add_on['dpop']['key'] = dpop_key
         service_context.add_on['dpop']['alg'] = chosen_alg
 
-- 
2.43.0


From 2ce6a4cbaee2f17b7195916f470f4a5356df31d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 33/57] fix: pushed authorization requests are made by the
 client for the provider, or refused

---
 .../oauth2/add_on/pushed_authorization.py     | 38 +++++++++++++------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index 4fd1058..e542c9d 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -3,8 +3,11 @@ import logging
 from cryptojwt import JWT
 from oidcmsg.message import Message
 from oidcmsg.oauth2 import JWTSecuredAuthorizationRequest
+from oidcmsg.oauth2 import PushedAuthorizationRequest
 import requests
 
+from oidcrp.exception import OidcServiceError
+
 logger = logging.getLogger(__name__)
 
 
@@ -22,10 +25,14 @@ def push_authorization(request_args, service, **kwargs):
     if method_args["body_format"] == "urlencoded":
         _body = request_args.to_urlencoded()
     else:
-        _jwt = JWT(key_jar=_context.keyjar, iss=_context.base_url)
-        _jws = _jwt.pack(request_args.to_dict())
-
-        _msg = Message(request=_jws)
+        _jwt = JWT(key_jar=_context.keyjar, iss=_context.client_id,
+                   sign_alg=method_args["signing_algorithm"])
+        _jws = _jwt.pack(request_args.to_dict(),
+                         aud=_context.provider_info.get("issuer", _context.issuer))
+
+        _msg = PushedAuthorizationRequest(request=_jws)
+        # In strict mode the required parameters are in the request object only
+        _msg.lax = True
         if method_args["merge_rule"] == "lax":
             for param in request_args.required_parameters():
                 _msg[param] = request_args.get(param)
@@ -37,15 +44,22 @@ def push_authorization(request_args, service, **kwargs):
         _context.provider_info["pushed_authorization_request_endpoint"], data=_body
     )
 
-    if resp.status_code == 200:
-        _resp = Message().from_json(resp.text)
-        _req = JWTSecuredAuthorizationRequest(request_uri=_resp["request_uri"])
-        if method_args["merge_rule"] == "lax":
-            for param in request_args.required_parameters():
-                _req[param] = request_args.get(param)
-        request_args = _req
+    if resp.status_code not in (200, 201):
+        raise OidcServiceError(
+            f"Pushed authorization request refused: {resp.status_code}")
+
+    _resp = Message().from_json(resp.text)
+    if not _resp.get("request_uri"):
+        raise OidcServiceError("No request_uri in the pushed authorization response")
+
+    _req = JWTSecuredAuthorizationRequest(request_uri=_resp["request_uri"],
+                                          client_id=request_args["client_id"])
+    _req.lax = True
+    if method_args["merge_rule"] == "lax":
+        for param in request_args.required_parameters():
+            _req[param] = request_args.get(param)
 
-    return request_args
+    return _req
 
 
 def add_support(services, body_format="jws", signing_algorithm="RS256",
-- 
2.43.0


From b5f8f9d615667d6f3f5ff9acd4e3a4e94e73cb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:01 +0000
Subject: [PATCH 34/57] fix: client_secret_jwt uses the client secret of a
 statically configured client

---
 src/oidcrp/client_auth.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 23007de..32aa252 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -5,6 +5,7 @@ from urllib.parse import quote_plus
 
 from cryptojwt.exception import MissingKey
 from cryptojwt.exception import UnsupportedAlgorithm
+from cryptojwt.jwk.hmac import SYMKey
 from cryptojwt.jws.jws import SIGNER_ALGS
 from cryptojwt.jws.utils import alg2keytype
 from oidcmsg.message import VREQUIRED
@@ -582,7 +583,11 @@ class ClientSecretJWT(JWSAuthnMethod):
         return [alg for alg in algorithms if alg2keytype(alg) == "oct"] or algorithms
 
     def get_signing_key_from_keyjar(self, algorithm, service_context):
-        return service_context.keyjar.get_signing_key(alg2keytype(algorithm), alg=algorithm)
+        _keys = service_context.keyjar.get_signing_key(alg2keytype(algorithm), alg=algorithm)
+        if not _keys and alg2keytype(algorithm) == "oct" and service_context.client_secret:
+            # The client secret of a statically configured client may not be in the key jar
+            _keys = [SYMKey(key=service_context.client_secret)]
+        return _keys
 
 
 class PrivateKeyJWT(JWSAuthnMethod):
-- 
2.43.0


From 23334e9d99e22c0aaa5ed68101b72b37c8c5e02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:19 +0000
Subject: [PATCH 35/57] fix: a provider found for a user identifier is used
 with its own configuration

---
 src/oidcrp/rp_handler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index ceb7762..4ef8af7 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -346,7 +346,8 @@ class RPHandler(object):
             # 'iss_id' may also be the name the provider has in the configuration
             client = self.issuer2rp[self.hash2issuer.get(iss_id, iss_id)]
         except KeyError:
-            if temporary_client:
+            # A provider may have a configuration of its own
+            if temporary_client and iss_id not in self.client_configs:
                 client = temporary_client
             else:
                 logger.debug("Creating new client: %s", iss_id)
-- 
2.43.0


From eff2760cc0af96028b94bbcdfdd9bc5bb1c19f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:46 +0000
Subject: [PATCH 36/57] fix: a provider known by another name keeps its client

---
 src/oidcrp/rp_handler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 4ef8af7..63a183f 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -358,6 +358,12 @@ class RPHandler(object):
         logger.debug("Get provider info")
         self.do_provider_info(client, behaviour_args=behaviour_args)
 
+        _issuer = client.client_get("service_context").get('issuer')
+        if _issuer in self.issuer2rp:
+            # A provider that is already known, only by another name
+            self.hash2issuer[iss_id] = _issuer
+            return self.issuer2rp[_issuer]
+
         logger.debug("Do client registration")
         self.do_client_registration(client, iss_id, behaviour_args=behaviour_args)
 
-- 
2.43.0


From 099c6ef13985e9ad97b9bf654897a056edf9b800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:47 +0000
Subject: [PATCH 37/57] fix: the RP's keys are registered when there is no
 location for them

---
 src/oidcrp/rp_handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 63a183f..0c24fd1 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -186,6 +186,9 @@ class RPHandler(object):
 
         _context.base_url = self.base_url
         _context.jwks_uri = self.jwks_uri
+        if not self.jwks_uri and self.jwks:
+            # Nowhere to fetch the keys from
+            _context.jwks = self.jwks
         return client
 
     def do_provider_info(self,
-- 
2.43.0


From f0f6e0592be57c28c53b5d84aa99fe9a9d073681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 38/57] fix: unsigned aggregated claims are not used

---
 src/oidcrp/oidc/userinfo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oidcrp/oidc/userinfo.py b/src/oidcrp/oidc/userinfo.py
index 6c93b80..6e9819a 100644
--- a/src/oidcrp/oidc/userinfo.py
+++ b/src/oidcrp/oidc/userinfo.py
@@ -90,6 +90,12 @@ class UserInfo(Service):
                         logger.warning(
                             'Error encountered while unpacking aggregated '
                             'claims'.format(err))
+                        continue
+
+                    # The claims of a source are only as good as its signature
+                    if (aggregated_claims.jws_header or {}).get(
+                            'alg', 'none').lower() == 'none':
+                        logger.warning('Unsigned aggregated claims ignored')
                     else:
                         claims = [value for value, src in
                                   response["_claim_names"].items() if
-- 
2.43.0


From 7f92abc2143373ce7c8c0adb7e07fc9b92802dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:09 +0000
Subject: [PATCH 39/57] fix: a claims source cannot change who the user is

---
 src/oidcrp/oidc/__init__.py | 2 ++
 src/oidcrp/oidc/userinfo.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oidc/__init__.py b/src/oidcrp/oidc/__init__.py
index df9db5e..5c73109 100755
--- a/src/oidcrp/oidc/__init__.py
+++ b/src/oidcrp/oidc/__init__.py
@@ -165,6 +165,8 @@ class RP(oauth2.Client):
 
                     claims = [value for value, src in
                               userinfo["_claim_names"].items() if src == csrc]
+                    # Who the user is, is for the provider to say
+                    claims = [c for c in claims if c != 'sub']
 
                     if set(claims) != set(_uinfo.keys()):
                         logger.warning(
diff --git a/src/oidcrp/oidc/userinfo.py b/src/oidcrp/oidc/userinfo.py
index 6e9819a..c61b936 100644
--- a/src/oidcrp/oidc/userinfo.py
+++ b/src/oidcrp/oidc/userinfo.py
@@ -97,9 +97,10 @@ class UserInfo(Service):
                             'alg', 'none').lower() == 'none':
                         logger.warning('Unsigned aggregated claims ignored')
                     else:
+                        # Who the user is, is for the provider to say
                         claims = [value for value, src in
                                   response["_claim_names"].items() if
-                                  src == csrc]
+                                  src == csrc and value != 'sub']
 
                         for key in claims:
                             response[key] = aggregated_claims[key]
-- 
2.43.0


From 657ccef9a2bf5f8bfd0d571c14fea6f995edb11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 40/57] fix: a statically registered client can read encrypted
 user info

---
 src/oidcrp/service.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index 373ce7e..b3b2c7c 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -476,7 +476,9 @@ class Service(ImpExp):
         args['allowed_enc_algs'] = enc_algs['alg']
         args['allowed_enc_encs'] = enc_algs['enc']
         _jwt = JWT(key_jar=_context.keyjar, **args)
-        _jwt.iss = _context.client_id
+        if _context.client_id in _context.keyjar:
+            # Else it's just my own keys that can be used for decryption
+            _jwt.iss = _context.client_id
         return _jwt.unpack(info)
 
     def _do_response(self, info, sformat, **kwargs):
-- 
2.43.0


From 034bfee6de6972c136550eed7b37fe12d0348504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:08 +0000
Subject: [PATCH 41/57] fix: a JWT labelled as JSON is held to the registered
 algorithm

---
 src/oidcrp/service.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/oidcrp/service.py b/src/oidcrp/service.py
index b3b2c7c..224b063 100644
--- a/src/oidcrp/service.py
+++ b/src/oidcrp/service.py
@@ -491,11 +491,9 @@ class Service(ImpExp):
             resp = None
             if sformat == 'json':
                 # Could be JWS or JWE but wrongly tagged
-                # Adding issuer is just a fail-safe. If one things was wrong
-                # then two can be.
                 try:
                     resp = self.response_cls().deserialize(
-                        info, 'jwt', iss=_context.issuer, **kwargs)
+                        self._do_jwt(info), 'dict', iss=_context.issuer, **kwargs)
                 except Exception:
                     pass
 
-- 
2.43.0


From 1617238967024eb90dc6bbcd0828520523274f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:57 +0000
Subject: [PATCH 42/57] fix: a login without ID Token and without subject in
 the user info can be finalized

---
 src/oidcrp/rp_handler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 0c24fd1..997322f 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -831,7 +831,7 @@ class RPHandler(object):
 
         if _id_token:
             _context.state.store_sub2state(_id_token['sub'], _state)
-        else:
+        elif 'sub' in inforesp:
             _context.state.store_sub2state(inforesp['sub'], _state)
 
         return {
-- 
2.43.0


From eac70a6f07ab836f8ba28a2daabb15336824175a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 43/57] fix: a bearer refresh changes only its own request

---
 src/oidcrp/client_auth.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/client_auth.py b/src/oidcrp/client_auth.py
index 32aa252..269f47f 100755
--- a/src/oidcrp/client_auth.py
+++ b/src/oidcrp/client_auth.py
@@ -261,7 +261,8 @@ def find_token(request, token_type, service, **kwargs):
         else:
             del request[token_type]
             # Required under certain circumstances :-) not under other
-            request.c_param[token_type] = SINGLE_OPTIONAL_STRING
+            # but only in this request, the class is shared by every client
+            request.c_param = {**request.c_param, token_type: SINGLE_OPTIONAL_STRING}
             return _token
 
     try:
-- 
2.43.0


From 30c224c061d9fd012b13c6e7370e578236a6f4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 44/57] fix: a request without state leaves the key to the
 service

---
 src/oidcrp/oauth2/__init__.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/oauth2/__init__.py b/src/oidcrp/oauth2/__init__.py
index 44fc39c..01c353c 100755
--- a/src/oidcrp/oauth2/__init__.py
+++ b/src/oidcrp/oauth2/__init__.py
@@ -183,10 +183,9 @@ class Client(Entity):
         if 'error' in response:
             pass
         else:
-            try:
+            # without a state it's for the service to pick a key
+            if kwargs.get('state'):
                 kwargs['key'] = kwargs['state']
-            except KeyError:
-                pass
 
             service.update_service_context(response, **kwargs)
         return response
-- 
2.43.0


From abfce0524e3c20c785a0d61a18587613e1d9028a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 45/57] fix: a client credentials refresh keeps the refresh
 token that was not replaced

---
 .../client_credentials/cc_refresh_access_token.py     | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
index 13468a4..7220df3 100644
--- a/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
+++ b/src/oidcrp/oauth2/client_credentials/cc_refresh_access_token.py
@@ -52,4 +52,13 @@ class CCRefreshAccessToken(Service):
     def update_service_context(self, resp, key='cc', **kwargs):
         if 'expires_in' in resp:
             resp['__expires_at'] = time_sans_frac() + int(resp['expires_in'])
-        self.client_get("service_context").state.store_item(resp, 'token_response', key)
+
+        _state_interface = self.client_get("service_context").state
+        if 'refresh_token' not in resp:
+            # The one that was used is still valid
+            _args = _state_interface.extend_request_args({}, oauth2.AccessTokenResponse,
+                                                         'token_response', key,
+                                                         ['refresh_token'])
+            resp = {**resp, **_args}
+
+        _state_interface.store_item(resp, 'token_response', key)
-- 
2.43.0


From 5f4bfc06c1aeac1af3d44af1fd9c25526d07cd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 46/57] fix: random values come from a cryptographically strong
 source

---
 src/oidcrp/util.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index 17e0d51..baafa0b 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -6,6 +6,7 @@ import io
 import json
 import logging
 import os
+import secrets
 import ssl
 import string
 import sys
@@ -18,12 +19,6 @@ from oidcmsg.exception import UnSupported
 from oidcmsg.oauth2 import is_error_message
 import yaml
 
-# Since SystemRandom is not available on all systems
-try:
-    import SystemRandom as rnd
-except ImportError:
-    import random as rnd
-
 from oidcrp.defaults import BASECHR
 from oidcrp.exception import ConfigurationError
 from oidcrp.exception import OidcServiceError
@@ -79,7 +74,7 @@ def rndstr(size=16):
     :return: string
     """
     chars = string.ascii_letters + string.digits
-    return "".join(rnd.choice(chars) for i in range(size))
+    return "".join(secrets.choice(chars) for i in range(size))
 
 
 def unreserved(size=64):
@@ -91,7 +86,7 @@ def unreserved(size=64):
     :return: string
     """
 
-    return "".join([rnd.choice(BASECHR) for _ in range(size)])
+    return "".join([secrets.choice(BASECHR) for _ in range(size)])
 
 
 def sanitize(str):
-- 
2.43.0


From fb3816ae6216b5237dc679b7eeb5107d82c31d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 47/57] fix: ID Tokens of one login have to be about the same
 subject

---
 src/oidcrp/oidc/access_token.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/oidcrp/oidc/access_token.py b/src/oidcrp/oidc/access_token.py
index 8a2b215..4e1b1ab 100644
--- a/src/oidcrp/oidc/access_token.py
+++ b/src/oidcrp/oidc/access_token.py
@@ -80,6 +80,12 @@ class AccessToken(access_token.AccessToken):
             except KeyError:
                 raise ValueError('Invalid nonce value')
 
+            # An ID Token in the authorization response must be about the same subject
+            _front = _state_interface.multiple_extend_request_args({}, key, ['id_token'],
+                                                                   ['auth_response'])
+            if 'id_token' in _front and _front['id_token']['sub'] != _idt['sub']:
+                raise ValueError('Incorrect "sub" value')
+
             _state_interface.store_sub2state(_idt['sub'], key)
 
         if 'expires_in' in resp:
-- 
2.43.0


From a3ae9bd1f84db1d300cb3895f26e2446ca026622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:58 +0000
Subject: [PATCH 48/57] fix: collecting tokens works without a code and keeps
 the ID Token

---
 src/oidcrp/rp_handler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 997322f..8115703 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -734,7 +734,7 @@ class RPHandler(object):
                           {'code', 'id_token', 'token'}]:
             access_token = authorization_response["access_token"]
             if behaviour_args:
-                if behaviour_args.get("collect_tokens", False):
+                if behaviour_args.get("collect_tokens", False) and 'code' in authorization_response:
                     # get what you can from the token endpoint
                     token_resp = self.get_tokens(state, client=client)
                     if is_error_message(token_resp):
@@ -742,7 +742,7 @@ class RPHandler(object):
                     # Now which access_token should I use
                     access_token = token_resp["access_token"]
                     # May or may not get an ID Token
-                    id_token = token_resp.get('__verified_id_token')
+                    id_token = token_resp.get('__verified_id_token', id_token)
 
         elif _resp_type in [{'code'}, {'code', 'id_token'}]:
             # get the access token
@@ -751,8 +751,9 @@ class RPHandler(object):
                 return False, "Invalid response %s." % token_resp["error"]
 
             access_token = token_resp["access_token"]
-            # May or may not get an ID Token
-            id_token = token_resp.get('__verified_id_token')
+            # May or may not get an ID Token, if not there may be one from the authorization
+            id_token = token_resp.get('__verified_id_token',
+                                      authorization_response.get('__verified_id_token'))
 
         return {'access_token': access_token, 'id_token': id_token}
 
-- 
2.43.0


From 3779c849855f7154cc2327a3b96feda71c7bff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:05 +0000
Subject: [PATCH 49/57] fix: session ids are kept when only front-channel
 logout sends them

---
 src/oidcrp/rp_handler.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 8115703..c1bf7a6 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -813,14 +813,9 @@ class RPHandler(object):
         logger.debug("UserInfo: %s", inforesp)
 
         _context = client.client_get("service_context")
-        try:
-            _sid_support = _context.get('provider_info')['backchannel_logout_session_supported']
-        except KeyError:
-            try:
-                _sid_support = _context.get('provider_info')[
-                    'frontchannel_logout_session_supported']
-            except:
-                _sid_support = False
+        _provider_info = _context.get('provider_info')
+        _sid_support = (_provider_info.get('backchannel_logout_session_supported')
+                        or _provider_info.get('frontchannel_logout_session_supported'))
 
         if _sid_support and _id_token:
             try:
-- 
2.43.0


From b54ec545e1be3d9501e12cbfc1c284cee7e55e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:10 +0000
Subject: [PATCH 50/57] fix: a statically configured client can verify what is
 signed with its secret

---
 src/oidcrp/rp_handler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index c1bf7a6..decce02 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -291,6 +291,11 @@ class RPHandler(object):
                 request_args.update({k: v for k, v in behaviour_args.items() if k in _params})
 
             load_registration_response(client, request_args=request_args)
+        elif _context.client_secret and any(
+                str(_context.behaviour.get(param, '')).startswith('HS') for param in
+                ['id_token_signed_response_alg', 'userinfo_signed_response_alg']):
+            # What the provider signs with the client secret has to be verifiable
+            _context.keyjar.add_symmetric('', _context.client_secret)
 
     def do_webfinger(self, user: str) -> Client:
         """
-- 
2.43.0


From c505bef1716bf6d0d07e94ece53bda769ece684b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:16 +0000
Subject: [PATCH 51/57] fix: the algorithms a statically registered client is
 configured with are required

---
 src/oidcrp/oidc/access_token.py  | 3 ++-
 src/oidcrp/oidc/authorization.py | 3 ++-
 src/oidcrp/rp_handler.py         | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/oidc/access_token.py b/src/oidcrp/oidc/access_token.py
index 4e1b1ab..103660e 100644
--- a/src/oidcrp/oidc/access_token.py
+++ b/src/oidcrp/oidc/access_token.py
@@ -47,7 +47,8 @@ class AccessToken(access_token.AccessToken):
             'skew': _context.clock_skew,
         }
 
-        _reg_resp = _context.registration_response
+        # A statically registered client has its metadata in the configuration
+        _reg_resp = _context.registration_response or _context.behaviour
         if _reg_resp:
             for attr, param in IDT2REG.items():
                 try:
diff --git a/src/oidcrp/oidc/authorization.py b/src/oidcrp/oidc/authorization.py
index 030495b..873bfdb 100644
--- a/src/oidcrp/oidc/authorization.py
+++ b/src/oidcrp/oidc/authorization.py
@@ -270,7 +270,8 @@ class Authorization(authorization.Authorization):
         if _client_id:
             kwargs['client_id'] = _client_id
 
-        _reg_res = _context.registration_response
+        # A statically registered client has its metadata in the configuration
+        _reg_res = _context.registration_response or _context.behaviour
         if _reg_res:
             for attr, param in IDT2REG.items():
                 try:
diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index decce02..090799f 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -981,7 +981,7 @@ def backchannel_logout(client, request='', request_args=None):
         'aud': client.get_client_id(),
         'iss': _context.get('issuer'),
         'keyjar': _context.keyjar,
-        'allowed_sign_alg': _context.get('registration_response').get(
+        'allowed_sign_alg': (_context.registration_response or _context.behaviour).get(
             "id_token_signed_response_alg", "RS256")
     }
 
-- 
2.43.0


From f5d6838bf28f46b8a590bf171c2ee4861e6a35ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:16 +0000
Subject: [PATCH 52/57] fix: a provider's keys are fetched with the configured
 HTTP client parameters

---
 src/oidcrp/rp_handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/oidcrp/rp_handler.py b/src/oidcrp/rp_handler.py
index 090799f..0029020 100644
--- a/src/oidcrp/rp_handler.py
+++ b/src/oidcrp/rp_handler.py
@@ -99,9 +99,6 @@ class RPHandler(object):
         else:
             self.httpc_params = httpc_params
 
-        if not self.keyjar.httpc_params:
-            self.keyjar.httpc_params = self.httpc_params
-
     def state2issuer(self, state):
         """
         Given the state value find the Issuer ID of the OP/AS that state value
@@ -183,6 +180,9 @@ class RPHandler(object):
         # If non persistent
         _context.keyjar.load(self.keyjar.dump())
         # If persistent nothings has to be copied
+        # Keys are fetched the way everything else is, unless the key jar says otherwise
+        _context.keyjar.httpc_params = dict(self.httpc_params,
+                                            **(self.keyjar.httpc_params or {}))
 
         _context.base_url = self.base_url
         _context.jwks_uri = self.jwks_uri
-- 
2.43.0


From 59f037d8c9958f02e1594525c7f7275fc510ea00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:16 +0000
Subject: [PATCH 53/57] fix: authorization requests are pushed the way all
 other requests are sent

---
 src/oidcrp/oauth2/__init__.py                  |  3 +++
 .../oauth2/add_on/pushed_authorization.py      | 18 ++++++++++--------
 2 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/oidcrp/oauth2/__init__.py b/src/oidcrp/oauth2/__init__.py
index 01c353c..9339027 100755
--- a/src/oidcrp/oauth2/__init__.py
+++ b/src/oidcrp/oauth2/__init__.py
@@ -77,6 +77,9 @@ class Client(Entity):
         # just ignore verify_ssl until it goes away
         self.verify_ssl = self.httpc_params.get("verify", True)
 
+    def get_http(self, *arg):
+        return self.http
+
     def do_request(self,
                    request_type: str,
                    response_body_type: Optional[str] = "",
diff --git a/src/oidcrp/oauth2/add_on/pushed_authorization.py b/src/oidcrp/oauth2/add_on/pushed_authorization.py
index e542c9d..66c111a 100644
--- a/src/oidcrp/oauth2/add_on/pushed_authorization.py
+++ b/src/oidcrp/oauth2/add_on/pushed_authorization.py
@@ -4,9 +4,9 @@ from cryptojwt import JWT
 from oidcmsg.message import Message
 from oidcmsg.oauth2 import JWTSecuredAuthorizationRequest
 from oidcmsg.oauth2 import PushedAuthorizationRequest
-import requests
 
 from oidcrp.exception import OidcServiceError
+from oidcrp.http import HTTPLib
 
 logger = logging.getLogger(__name__)
 
@@ -40,9 +40,13 @@ def push_authorization(request_args, service, **kwargs):
         _body = _msg.to_urlencoded()
 
     # Send it to the Pushed Authorization Request Endpoint
-    resp = method_args["http_client"].get(
-        _context.provider_info["pushed_authorization_request_endpoint"], data=_body
-    )
+    _endpoint = _context.provider_info["pushed_authorization_request_endpoint"]
+    if method_args["http_client"]:
+        resp = method_args["http_client"].get(_endpoint, data=_body)
+    else:
+        # The same way as all the other requests
+        _http = service.client_get("http") or HTTPLib()
+        resp = _http(_endpoint, "GET", data=_body)
 
     if resp.status_code not in (200, 201):
         raise OidcServiceError(
@@ -68,15 +72,13 @@ def add_support(services, body_format="jws", signing_algorithm="RS256",
     Add the necessary pieces to make Demonstration of proof of possession (DPOP).
 
     :param merge_rule:
-    :param http_client:
+    :param http_client: Something with a get method, by default what the client uses for all its
+        requests.
     :param signing_algorithm:
     :param services: A dictionary with all the services the client has access to.
     :param body_format: jws or urlencoded
     """
 
-    if http_client is None:
-        http_client = requests
-
     _service = services["authorization"]
     _service.client_get("service_context").add_on['pushed_authorization'] = {
         "body_format": body_format,
-- 
2.43.0


From bb3da0b9d8346d6805f18ceb0975fdfac88dc52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:16 +0000
Subject: [PATCH 54/57] fix: HTTPC_PARAMS and other upper case parameters are
 not shadowed by the default

---
 src/oidcrp/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oidcrp/util.py b/src/oidcrp/util.py
index baafa0b..930ca82 100755
--- a/src/oidcrp/util.py
+++ b/src/oidcrp/util.py
@@ -402,7 +402,7 @@ def has_method(o, name):
 
 
 def lower_or_upper(config, param, default=None):
-    res = config.get(param.lower(), default)
+    res = config.get(param.lower())
     if not res:
         res = config.get(param.upper(), default)
     return res
-- 
2.43.0


From 94c6b01d56a1cd04db97ed38f36efbed037125c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:16 +0000
Subject: [PATCH 55/57] fix: {domain} and {port} are filled in in an RP's
 redirect and logout URIs

---
 src/oidcrp/configure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/oidcrp/configure.py b/src/oidcrp/configure.py
index 800d24f..b3336ab 100755
--- a/src/oidcrp/configure.py
+++ b/src/oidcrp/configure.py
@@ -24,6 +24,8 @@ URIS = [
 
 
 class RPConfiguration(Base):
+    uris = URIS
+
     def __init__(self,
                  conf: Dict,
                  base_path: Optional[str] = '',
-- 
2.43.0


From 29f3f3d125e9ac689897b313f587c68503979697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:16 +0000
Subject: [PATCH 56/57] fix: the configured domain and port are used

---
 src/oidcrp/configure.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/oidcrp/configure.py b/src/oidcrp/configure.py
index b3336ab..e2ef620 100755
--- a/src/oidcrp/configure.py
+++ b/src/oidcrp/configure.py
@@ -30,8 +30,8 @@ class RPConfiguration(Base):
                  conf: Dict,
                  base_path: Optional[str] = '',
                  entity_conf: Optional[List[dict]] = None,
-                 domain: Optional[str] = "127.0.0.1",
-                 port: Optional[int] = 80,
+                 domain: Optional[str] = "",
+                 port: Optional[int] = 0,
                  file_attributes: Optional[List[str]] = None,
                  dir_attributes: Optional[List[str]] = None,
                  ):
@@ -57,7 +57,7 @@ class RPConfiguration(Base):
 
         if entity_conf:
             self.extend(entity_conf=entity_conf, conf=conf, base_path=base_path,
-                        file_attributes=file_attributes, domain=domain, port=port)
+                        file_attributes=file_attributes, domain=self.domain, port=self.port)
 
 
 class Configuration(Base):
@@ -73,7 +73,7 @@ class Configuration(Base):
                  dir_attributes: Optional[List[str]] = None,
                  ):
         Base.__init__(self, conf, base_path=base_path, file_attributes=file_attributes,
-                      dir_attributes=dir_attributes)
+                      domain=domain, port=port, dir_attributes=dir_attributes)
 
         log_conf = conf.get('logging')
         if log_conf:
@@ -85,7 +85,7 @@ class Configuration(Base):
 
         if entity_conf:
             self.extend(entity_conf=entity_conf, conf=conf, base_path=base_path,
-                        file_attributes=file_attributes, domain=domain, port=port,
+                        file_attributes=file_attributes, domain=self.domain, port=self.port,
                         dir_attributes=dir_attributes)
 
 
-- 
2.43.0


From eb32503a6b2cd10aac37e1ca7bd35e42b8805863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:16 +0000
Subject: [PATCH 57/57] fix: what a configuration is made from is left as it
 was

---
 src/oidcrp/configure.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/oidcrp/configure.py b/src/oidcrp/configure.py
index e2ef620..a2843e0 100755
--- a/src/oidcrp/configure.py
+++ b/src/oidcrp/configure.py
@@ -1,4 +1,5 @@
 """Configuration management for RP"""
+import copy
 import importlib
 import json
 import logging
@@ -36,6 +37,9 @@ class RPConfiguration(Base):
                  dir_attributes: Optional[List[str]] = None,
                  ):
 
+        # What's given may be used more than once
+        conf = copy.deepcopy(conf)
+
         Base.__init__(self, conf,
                       base_path=base_path,
                       domain=domain,
@@ -72,6 +76,9 @@ class Configuration(Base):
                  port: Optional[int] = 0,
                  dir_attributes: Optional[List[str]] = None,
                  ):
+        # What's given may be used more than once
+        conf = copy.deepcopy(conf)
+
         Base.__init__(self, conf, base_path=base_path, file_attributes=file_attributes,
                       domain=domain, port=port, dir_attributes=dir_attributes)
 
-- 
2.43.0

