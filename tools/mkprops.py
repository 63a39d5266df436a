import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
                   mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=None)))
S="src/oidcrp/"
p("C01","An authorization response is accepted only for a request this RP made",
 "An authorization response is accepted only if its state value identifies a session that this RP started with the very provider the response is said to come from, and that has not been cleared; an issuer or client_id named inside the response must also be that provider and this client. A response whose state is missing, unknown, another provider's or a cleared session's is refused with an exception. A refused response leaves every stored session exactly as it was, whatever order sessions are started, answered and cleared in.",
 ["histories","inputs"],"all interleavings of starting, answering and clearing sessions at several providers, and all state/issuer/client_id values in the response",
 "tests answer one freshly started session of one provider, so they never present a foreign, stale, cleared or look-alike state in a store that holds other sessions",
 [S+"rp_handler.py",S+"oidc/authorization.py",S+"state_interface.py"],
 [("finalize_auth issuer check","rp_handler.py RPHandler.finalize_auth"),("get_iss / get_state","state_interface.py StateInterface")],
 [("session store","state value -> issuer, request, responses","state_interface.py StateInterface")],
 ["RPHandler.finalize / finalize_auth","RPHandler.get_session_information"])
p("C02","An ID Token is accepted only for the session whose nonce it carries",
 "An ID Token received in an authorization response or from the token endpoint is accepted into a session only if it carries the nonce that this session's own authorization request contained. A token with a missing or altered nonce, or with the nonce of any other session (open, finished or cleared), is refused with an exception; an ID Token in the answer to a refresh request may leave the nonce out, but if it has one it is this session's own, and its subject is the one the session already has. After the refusal neither this nor the other session has stored anything from that response.",
 ["histories","inputs"],"all response types and delivery channels, all pairs of sessions (same or different provider, open or cleared) and all nonce values",
 "tests use one session and one matching nonce; replay across sessions and after clearing needs several sessions and both channels",
 [S+"oidc/authorization.py",S+"oidc/access_token.py",S+"rp_handler.py",S+"state_interface.py"],
 [("post_parse_response nonce comparison","oidc/authorization.py Authorization.post_parse_response"),("nonce to state lookup","oidc/access_token.py AccessToken.update_service_context"),("store_nonce2state","rp_handler.py init_authorization")],
 [("nonce map","nonce -> session","state_interface.py")],["RPHandler.finalize_auth","RPHandler.get_tokens"])
p("C03","Only ID Tokens that are valid for this client and provider are accepted",
 "An ID Token from an authorization or token response is accepted only if it is signed by a key of the session's provider with the algorithm registered for the client, names that provider as issuer, has this client in its audience (and as authorized party when several audiences or an azp are given), carries the required claims, and is neither expired nor issued in the future beyond the configured clock skew; in an authorization response its hashes must match the code and access token delivered with it. Unsigned tokens are accepted only when the client's configuration or registration asks for that. Any other token makes the whole response be refused with an exception and nothing from it is stored.",
 ["inputs","configurations","histories"],"all combinations of ID Token header and claim defects, for every response type, delivery channel, clock skew and registered algorithm",
 "tests feed well-formed tokens and one or two defects; the conjunction of checks, the boundary values of time and the channel-specific hashes are not covered",
 [S+"service.py",S+"oidc/authorization.py",S+"oidc/access_token.py"],
 [("gather_verify_arguments","oidc/authorization.py, oidc/access_token.py"),("verify call","service.py Service.parse_response")],
 [("registration_response","registered algorithms","service_context.py"),("clock_skew","tolerance","service_context.py")],["RPHandler.finalize_auth","RPHandler.get_tokens"])
p("C04","Failed exchanges are reported and change nothing",
 "When a token, refresh or user info request is answered with an error, with an HTTP status that is not a success, with an unparsable or incomplete body, or not at all, the caller gets an error or an exception and never a result that looks like success. The stored data of that session, and of every other session, is then the same as before the request. The same exchange repeated with a good answer then succeeds as if the failure had never happened.",
 ["fault_sequences","inputs","histories"],"every status code class, content type and body shape, at every step of a session's life, followed by any continuation",
 "tests check a handful of error bodies on an idle client and never compare the stored session before and after or continue afterwards",
 [S+"oauth2/__init__.py",S+"service.py",S+"rp_handler.py"],
 [("parse_request_response","oauth2/__init__.py Client.parse_request_response"),("service_request","oauth2/__init__.py Client.service_request"),("error raising","rp_handler.py get_tokens, refresh_access_token, get_user_info")],
 [("session store","stored responses","state_interface.py")],["RPHandler.get_tokens","RPHandler.refresh_access_token","RPHandler.get_user_info"])
p("C05","Concurrent sessions never mix their data",
 "Every request made for a session - code exchange, refresh, user info - carries only values belonging to that session: its own latest authorization code, the redirect URI of its own authorization request, its own tokens, the scope it asked for. Results are stored in that session only. Starting, continuing, failing or clearing any number of other sessions, at the same or another provider and in any order, does not make a session unknown and does not change what it sends or what is stored for it.",
 ["histories","configurations"],"all interleavings of any number of sessions over several providers, however the provider was named when the session was started (issuer, configuration name, user identifier)",
 "tests run one session per handler; interference needs interleavings of several",
 [S+"rp_handler.py",S+"oauth2/access_token.py",S+"oauth2/refresh_access_token.py",S+"oidc/userinfo.py",S+"client_auth.py",S+"state_interface.py"],
 [("state keyed storage","state_interface.py"),("get_tokens","rp_handler.py"),("client cache","rp_handler.py client_setup")],
 [("issuer2rp","provider -> client instance","rp_handler.py")],["outgoing HTTP requests","RPHandler.get_session_information"])
p("C06","Providers are kept apart",
 "Each provider is served by its own client state: requests for a session go only to the endpoints announced by, and carry only the client id, secret and callback URIs belonging to, the provider the session was started with. Setting up, failing to set up, or using one provider never changes endpoints, credentials, keys, negotiated behaviour or callbacks of another, even if both are derived from the same default configuration. Callback URIs that the RP generates differ between providers.",
 ["histories","configurations"],"all orders of setting up and using several statically configured and dynamically discovered providers, with successful and failing steps in between",
 "tests set up a single provider, or several without comparing what leaks",
 [S+"rp_handler.py",S+"service_context.py",S+"oidc/registration.py",S+"oidc/provider_info_discovery.py"],
 [("init_client","rp_handler.py"),("create_callbacks","oidc/registration.py"),("service endpoints","oauth2/provider_info_discovery.py _set_endpoints")],
 [("issuer2rp","provider -> client","rp_handler.py"),("config","shared configuration","rp_handler.py")],["outgoing HTTP requests","client service context"])
p("C07","User info is accepted only for the authenticated subject",
 "Once a session has a verified ID Token, a user info response is accepted only if its subject is exactly the subject of the session's most recent verified ID Token, whichever response (authorization, token or refresh) delivered it; otherwise an exception is raised and no user info is stored or returned. A response without a subject is refused. If both the authorization response and the token response of a login carry an ID Token, they are accepted only if they are about the same subject. Refreshing the access token, or having other sessions for other subjects, does not weaken the check.",
 ["inputs","histories"],"all subject values, response types and orders of login, refresh and user info requests over several sessions",
 "tests use one matching subject straight after login",
 [S+"oidc/userinfo.py",S+"rp_handler.py",S+"oauth2/refresh_access_token.py"],
 [("sub comparison","oidc/userinfo.py UserInfo.post_parse_response")],
 [("stored ID Token","verified ID Token of the session","state_interface.py")],["RPHandler.get_user_info","RPHandler.finalize"])
p("C08","The access token reported as valid is usable and the right one",
 "Asking for a session's valid access token returns a token that was issued in this very session and has not expired at that moment, together with its expiry: one without an expiry time if there is one (the most recently obtained source first), otherwise the one that expires last. If every access token of the session has expired, or none was received, an error is raised instead. Expiry is the moment the token was received plus the lifetime the provider gave.",
 ["histories","inputs"],"all sequences of receiving tokens in authorization, token and refresh responses with any lifetime, the passage of time in between, and other sessions",
 "tests look at a token immediately after receiving it; expiry needs time to pass and several tokens",
 [S+"rp_handler.py",S+"oauth2/access_token.py",S+"oauth2/refresh_access_token.py",S+"oidc/authorization.py"],
 [("get_valid_access_token","rp_handler.py"),("__expires_at","update_service_context of the token services")],
 [("__expires_at","absolute expiry","stored responses")],["RPHandler.get_valid_access_token"])
p("C09","Refreshing replaces the access token and keeps what was not replaced",
 "A refresh request presents the refresh token most recently received in that session. After a successful refresh the new access token is the one used for requests and reported valid, a new refresh token replaces the old one, and a refresh token or ID Token that the response does not replace stays available to the session, so that refreshing any number of times, checking the login and logging out keep working. Without a refresh token the refresh fails without sending anything that succeeds.",
 ["histories"],"all sequences of refreshes with and without rotation, expiries and new ID Tokens, interleaved with user info, logout and time passing",
 "tests refresh once and do not look at the session afterwards",
 [S+"oauth2/refresh_access_token.py",S+"rp_handler.py",S+"client_auth.py"],
 [("refresh request construction","oauth2/refresh_access_token.py oauth_pre_construct"),("storing the response","oauth2/refresh_access_token.py update_service_context")],
 [("token_response","latest tokens of the session","state_interface.py")],["RPHandler.refresh_access_token","outgoing HTTP requests"])
p("C10","Active authentication is reported exactly while the ID Token is unexpired",
 "A session is reported as having an active authentication if and only if a verified ID Token has been accepted into it and the expiry time of the most recently accepted one lies in the future. Refused tokens, tokens of other sessions, refreshes that bring no ID Token, and user info requests do not change the answer.",
 ["histories","inputs"],"all login, refresh and refusal sequences, all expiry times and the passage of time including the exact second of expiry",
 "tests ask once right after login",
 [S+"rp_handler.py",S+"state_interface.py"],
 [("has_active_authentication","rp_handler.py"),("multiple_extend_request_args","state_interface.py")],
 [("verified ID Token","stored with the response","state_interface.py")],["RPHandler.has_active_authentication"])
p("C11","Clearing a session removes it completely and removes nothing else",
 "Clearing an existing session always succeeds, also before any login completed or after several logins or logouts, and afterwards no lookup - by state, nonce, subject, session id or logout state - leads to it, it is not known to any provider, and no response for it is accepted. Lookups that lead to other sessions keep leading to them, even when those sessions share the subject or session id, and their data is unchanged. Clearing an unknown or already cleared session raises an exception and changes nothing.",
 ["histories"],"all orders of starting, logging in (any subject and session id, shared or not), logging out and clearing any number of sessions",
 "tests clear one session that logged in once; shared subjects, repeated logout and clearing half-open sessions need histories",
 [S+"state_interface.py",S+"rp_handler.py"],
 [("remove_state","state_interface.py StateInterface.remove_state"),("reverse references","state_interface.py store_x2state")],
 [("reverse maps","nonce, sub, sid, logout state -> session","state_interface.py")],["RPHandler.clear_session","StateInterface lookups"])
p("C12","A back-channel logout token is honoured only if valid, and for the right session",
 "A back-channel logout request is honoured only if its token is signed by a key of that client's provider with the algorithm registered for the client, names that provider and this client, has the logout event and nothing else as event, was not issued in the future, has no nonce, and names a subject or a session id; otherwise an exception is raised. An honoured request yields the session that last logged in with that subject (or, without a subject, that session id) at that provider, and an exception if there is none. Processing a logout request changes no session by itself.",
 ["inputs","histories"],"all combinations of logout-token defects, all subjects and session ids over any login and clearing history at several providers",
 "tests present one good and one bad token to a store with one session",
 [S+"rp_handler.py",S+"state_interface.py"],
 [("backchannel_logout","rp_handler.py"),("get_state_by_sub/sid","state_interface.py")],
 [("sub and sid maps","subject / session id -> session","state_interface.py")],["oidcrp.rp_handler.backchannel_logout"])
p("C13","RP-initiated logout names the right session to the right provider",
 "A logout request for a session goes to its provider's end-session endpoint, carries as hint the session's most recently received ID Token as it was received, and as post-logout redirect the explicitly given or else the configured URI. It carries a state value that was never used before and that from then on leads back to exactly this session, as do the ones from its earlier logout requests. Without a session or without support for logout an exception is raised.",
 ["histories","configurations"],"all login, refresh, logout and clearing histories over several sessions and all configurations of post-logout URIs",
 "tests log out one session once",
 [S+"oidc/end_session.py",S+"rp_handler.py",S+"state_interface.py"],
 [("EndSession pre-construct chain","oidc/end_session.py"),("logout/close","rp_handler.py")],
 [("logout state map","logout state -> session","state_interface.py")],["RPHandler.logout / close"])
p("C14","Provider metadata is trusted only for the issuer it was asked from",
 "Dynamically fetched provider metadata is accepted only if the issuer it names is the issuer the RP asked for (a trailing slash apart), unless the configuration explicitly allows a mismatch; otherwise, or if the fetch fails or the metadata lacks required parts, set-up raises, no client is registered for that issuer, nothing is sent to endpoints from that document, and a later correct answer succeeds. Once accepted, each service uses exactly the endpoint announced for it, and tokens are verified with the keys published at the announced location under that issuer.",
 ["inputs","fault_sequences","configurations"],"all issuer pairs (prefix, suffix, slash, case, scheme and path variants), metadata contents, HTTP failures and retry orders",
 "tests load one matching document; look-alike issuers and failure followed by retry are not covered",
 [S+"oauth2/provider_info_discovery.py",S+"oidc/provider_info_discovery.py",S+"rp_handler.py"],
 [("_verify_issuer","oauth2/provider_info_discovery.py"),("_set_endpoints","oauth2/provider_info_discovery.py")],
 [("provider_info","accepted metadata","service_context.py")],["RPHandler.client_setup / begin"])
p("C15","Negotiated behaviour is what the client prefers among what the provider supports",
 "For every preference the client states, the behaviour chosen after discovery is the first preferred value (or, for multi-valued preferences, exactly the preferred values in order) that the provider's metadata lists, using the standard's default where the metadata is silent and one exists, and the client's own preference where neither does. If the provider supports none of the preferred values of a single-valued preference, set-up fails with a configuration error. The result depends only on this provider's metadata and the client's preferences, not on providers negotiated with before.",
 ["inputs","configurations","histories"],"all combinations of preference lists and supported lists (ordered, disjoint, single string or list, absent) per parameter and all orders of negotiating with several providers",
 "tests match two fixed documents",
 [S+"oidc/provider_info_discovery.py"],
 [("match_preferences","oidc/provider_info_discovery.py")],
 [("behaviour","negotiated values","service_context.py")],["service context behaviour","registration request"])
p("C16","Dynamic registration sends the negotiated data and its result is what is used",
 "A client that has no client id registers exactly once with its provider before its first authorization request, and a statically configured client never does. The registration request carries the negotiated preferences, the grant types its response types need, either a key set or its location but never both, and callback URIs under the RP's base URL that belong to this provider only and are the ones later used in authorization requests. The client id, secret and expiry returned are the ones used from then on; if registration fails set-up raises, no client is kept, and a retry works.",
 ["configurations","fault_sequences","histories"],"all preference and callback configurations, all registration answers and failure/retry orders, several providers",
 "tests register once against one mocked answer",
 [S+"oidc/registration.py",S+"util.py",S+"rp_handler.py"],
 [("Registration service","oidc/registration.py"),("load_registration_response","util.py"),("do_client_registration","rp_handler.py")],
 [("registration_response","answer of the provider","service_context.py"),("callback","generated URIs","service_context.py")],["outgoing registration request","later requests"])
p("C17","Each request authenticates the client exactly as configured",
 "A token or refresh request carries the credentials of the configured client authentication method and no other: with basic the client id and secret (form-encoded) in the Authorization header and no secret in the body; with post both in the body and no Authorization header; with a JWT method a fresh assertion whose issuer and subject are the client id, whose audience is the provider's token endpoint, which is unexpired, carries an identifier never used before and verifies under the client secret or the client's registered key, and no secret anywhere. With bearer methods exactly the session's token is presented, once. The secret is never sent to any other endpoint or in any URL.",
 ["inputs","configurations","histories"],"all authentication methods and algorithms, all characters in client ids, secrets and tokens, and any sequence of requests",
 "tests check one fixed id and secret per method on a single request",
 [S+"client_auth.py",S+"service.py",S+"oidc/access_token.py",S+"oidc/refresh_access_token.py"],
 [("client authentication classes","client_auth.py"),("get_authn_method","service.py and oidc services")],
 [("client_secret, client_id","credentials","service_context.py")],["outgoing HTTP requests"])
p("C18","PKCE verifiers are fresh, secret and belong to their session",
 "With PKCE enabled every authorization request carries the configured challenge method and a challenge computed with it from a new random verifier of the configured length from the allowed characters, never used for any other request and not itself sent. The code exchange of a session carries exactly the verifier behind that session's own latest challenge, whatever other sessions do meanwhile, after failures and after export and reload of the state. Without a stored verifier the exchange fails rather than being sent without one.",
 ["histories","configurations"],"all interleavings of several sessions, all lengths and methods, retries and reloads",
 "tests use one session and one method",
 [S+"oauth2/add_on/pkce.py"],
 [("add_code_challenge / add_code_verifier","oauth2/add_on/pkce.py")],
 [("pkce item","verifier stored with the session","state_interface.py")],["authorization URL","outgoing token request"])
p("C19","DPoP proofs fit the request they are sent with",
 "With DPoP enabled every token and user info request carries one proof that is signed with an algorithm supported by both sides by the key whose public part it contains, that names the method and URL of this very request and the present time, and whose identifier was never used before. The private part of the key is never sent, and the same key is used for all requests to that provider but not for other providers. If there is no common algorithm no proof is sent.",
 ["histories","configurations"],"all algorithm combinations, all sequences of token and user info requests over several sessions and providers, and the passage of time",
 "tests look at one proof",
 [S+"oauth2/add_on/dpop.py"],
 [("dpop_header","oauth2/add_on/dpop.py")],
 [("dpop key","per client key","service_context.py add_on")],["outgoing HTTP requests"])
p("C20","Authorization requests say what was asked, and are remembered as sent",
 "Every authorization request goes to the provider's authorization endpoint with the client id, a state and nonce never used before, the openid scope, and the response type, scope, redirect URI, claims and other parameters given by the caller or else by the configuration; what is stored for the session is what was sent. When sent as a request object - by value, by reference or pushed - the object carries the same parameters, is signed by the client for that provider and, where that is configured or asked for, encrypted so that only it can read it, and the request sent in its place refers to exactly that object. Starting one session does not change the configuration or the defaults the next one uses.",
 ["inputs","configurations","histories"],"all caller arguments and configurations (response types, scopes, claims, request object modes) and any sequence of sessions",
 "tests build single requests and compare a few parameters",
 [S+"rp_handler.py",S+"oidc/authorization.py",S+"oauth2/add_on/pushed_authorization.py",S+"oidc/utils.py",S+"oauth2/utils.py"],
 [("init_authorization","rp_handler.py"),("oidc_pre_construct / oidc_post_construct","oidc/authorization.py")],
 [("auth_request","stored request","state_interface.py")],["authorization URL","RPHandler.get_session_information"])
p("C21","Exported state can be reloaded at any point without a difference",
 "Exporting the client's state as JSON and loading it into a freshly created client of the same configuration, at any point of any set of sessions, yields a client that behaves identically from then on: the same sessions, lookups, credentials, keys, endpoints and negotiated behaviour, the same requests and the same accept or refuse decisions. The exported data is a snapshot: using either client afterwards does not alter the other.",
 ["crash_points","histories"],"every point of every history of sessions over static and dynamically registered providers",
 "tests reload at two or three hand-picked points and look at single values",
 [S+"state_interface.py",S+"service_context.py",S+"service.py"],
 [("ImpExp parameter tables","service_context.py, state_interface.py, service.py")],
 [("dump","exported dictionary","service_context.py")],["ServiceContext.dump/load","behaviour of the reloaded client"])
p("C22","Cookies are returned only untampered, and exactly as they were made",
 "A cookie made with a payload, time stamp and keys is read back to exactly that payload and time stamp with the same name and keys, for every payload a cookie can carry, in both the signed and the encrypted form. Any change to any part of it, a part taken from another cookie, a different key, or a weaker protection than the keys given for reading call for, makes reading it fail with an invalid-cookie error or yield nothing - never another payload or time stamp. A dealer reading a cookie returns the value, time stamp and type it was created with or nothing. A cookie carries the domain, path, lifetime and restrictions asked for, and one made to delete another is over at once.",
 ["inputs"],"all payloads (including separators and non-ASCII text), time stamps, key combinations and single or combined modifications of the cookie text",
 "tests round-trip one payload and tamper with one byte",
 [S+"cookie.py"],
 [("make_cookie / parse_cookie","cookie.py"),("CookieDealer","cookie.py")],[],["make_cookie, parse_cookie, CookieDealer"])
p("C23","Issuer lookup by user identifier follows the normalization rules",
 "For every user identifier the WebFinger query goes over https to the host part of the identifier, with the resource normalized as OpenID Connect Discovery prescribes (acct for e-mail like identifiers and bare names, https for those with a port, path, query or fragment, a given scheme kept, no fragment) and the issuer relation as rel; reserved identifier types and identifiers without a host are refused. The issuer used is the href of the first link with that relation; a plain http href is refused unless allowed by configuration, and without such a link no issuer is set and set-up does not proceed to any provider.",
 ["inputs","configurations"],"all combinations of scheme, user part, host, port, path, query and fragment, and all link lists",
 "tests hold a table of a dozen identifiers",
 [S+"oidc/webfinger.py",S+"rp_handler.py"],
 [("query","oidc/webfinger.py WebFinger.query"),("update_service_context","oidc/webfinger.py")],[],["outgoing HTTP requests","RPHandler.begin(user_id=...)"])
p("C24","Claims from other sources are limited to what the response attributes to them",
 "When a user info response attributes claims to other sources, an aggregated or distributed source contributes only the claims the response attributes to that source, with that source's values; aggregated claims only from a token whose signature verifies under a known key. Claims given directly by the provider, and in particular the subject, cannot be changed or added to by a source beyond those attributed names. A distributed source is asked at its own endpoint with its own access token, and a failing source raises instead of being taken as data.",
 ["inputs","fault_sequences"],"all assignments of claim names to several aggregated and distributed sources, all claim sets and signatures the sources return, and failures",
 "tests use one well-behaved source of each kind",
 [S+"oidc/userinfo.py",S+"oidc/__init__.py"],
 [("aggregated claims","oidc/userinfo.py UserInfo.post_parse_response"),("fetch_distributed_claims","oidc/__init__.py RP")],[],["RPHandler.get_user_info","RP.fetch_distributed_claims"])
p("C25","Finishing a login does exactly what the response type calls for",
 "For every response type, finishing a login contacts the token endpoint if and only if a code has to be exchanged for the result (or the caller asks to collect tokens and there is a code), then user info if there is an access token and the service is configured, and nothing else; the result carries the access token and the verified ID Token from the source the response type prescribes and the user's claims from user info or else from the ID Token. An error from the provider at any step ends the login with that error or an exception, without any later step being taken, and a failed login is never reported as success. After a successful login the session can be found by its subject, and by its session id when the provider supports that.",
 ["configurations","inputs","fault_sequences"],"all response types and service configurations, with success or failure at each step, in any sequence of logins",
 "tests finish a login for the code flow and one or two others with all answers good",
 [S+"rp_handler.py"],
 [("finalize","rp_handler.py"),("get_access_and_id_token","rp_handler.py")],[],["RPHandler.finalize","outgoing HTTP requests"])
p("C26","Protected user info is accepted only if the protection holds",
 "A user info response that comes as a JWT, whatever content type it is labelled with, is accepted only if it verifies under a key of the session's provider with the algorithm the client registered (or, if it registered none, one the provider announces), and if it is encrypted, only if it was encrypted to this client with the registered algorithms; anything unsigned, altered, signed by others or not decryptable makes the request fail with an exception, with nothing stored or returned and what was stored before unchanged. What is accepted has exactly the claims that were sent, whether they came plain, signed, encrypted or both. This holds for statically and dynamically registered clients alike.",
 ["inputs","configurations"],"all combinations of registered signing and encryption algorithms, forms, labels, keys, algorithms and alterations of a response, in a new session and in one that already has user info",
 "tests verify one correctly signed response",
 [S+"service.py",S+"oidc/userinfo.py",S+"service_context.py"],
 [("_do_jwt / _do_response","service.py"),("get_sign_alg / get_enc_alg_enc","service_context.py")],
 [("user_info","what is stored in the session","state_interface.py")],["RPHandler.finalize","RPHandler.get_user_info"])
p("C27","OAuth 2.0 logins without OpenID Connect give the same session guarantees",
 "At providers that only do OAuth 2.0 (the GitHub and LinkedIn styles included) a login can be finished with or without user info and with or without a subject in it. A response is accepted only for a session begun at that provider; the code exchange carries that response's code, the session's own redirect URI and the configured client authentication; the access token received, in a form or JSON encoded answer, is the one used for user info, returned, and reported valid exactly until its lifetime is over. Refreshing presents the latest refresh token and keeps what is not replaced, an error or malformed answer at any step is reported and gives no token, no session ever sees another's data, nobody is reported as authenticated by an ID Token, and a cleared session is gone.",
 ["inputs","histories","fault_sequences"],"all provider styles, answers and faults in any sequence of logins, refreshes, clearings and the passage of time, at two providers",
 "tests run one GitHub and one LinkedIn login whose user info happens to contain a subject",
 [S+"rp_handler.py",S+"oauth2/authorization.py",S+"oauth2/access_token.py",S+"oauth2/refresh_access_token.py",S+"provider/github.py",S+"provider/linkedin.py"],
 [("finalize","rp_handler.py"),("parse_request_response","oauth2/__init__.py"),("AccessTokenResponse","provider/github.py")],
 [("token_response / user_info","what is stored in the session","state_interface.py")],["RPHandler.begin/finalize/refresh_access_token/get_user_info","outgoing HTTP requests"])
p("C28","A client's own tokens are kept apart, refreshed, and disturb no other client",
 "A client that asks for tokens on its own behalf (client credentials) sends the client credentials grant with its configured authentication and, if asked to, a scope. What it gets is kept under the key the caller gave, or else the default one, and under no other; a refresh for a key presents the refresh token most recently received for that key, the old one staying in use when the answer brings no new one, and without one nothing is sent. Errors and malformed answers change nothing. Other clients in the same process behave as if it did not exist.",
 ["inputs","histories","fault_sequences"],"all sequences of token and refresh requests under several keys, with all answers and faults, next to a client with user logins in the same process",
 "tests call the services one by one, without the client that combines them, and never a second client",
 [S+"oauth2/client_credentials/cc_access_token.py",S+"oauth2/client_credentials/cc_refresh_access_token.py",S+"oauth2/__init__.py",S+"client_auth.py"],
 [("CCAccessToken.update_service_context","oauth2/client_credentials/cc_access_token.py"),("find_token","client_auth.py"),("service_request","oauth2/__init__.py")],
 [("token_response","tokens stored under a key","state_interface.py")],["Client.do_request","outgoing HTTP requests"])
p("C29","Values that must not be guessed never repeat, wherever generators stand",
 "Every state, nonce, PKCE verifier, request object location, logout state, assertion and proof identifier, and cookie and hash seed is new, also among several processes of the RP, at the same instant, and wherever the ordinary random generator of these processes stands: it may have been seeded by the application or copied with the process. So none of these values can be computed from others.",
 ["histories","crash_points"],"all interleavings of logins and logouts in two processes and every point at which their ordinary generators may be put in the same position",
 "tests never touch the generator, and so see different values whatever they are made from",
 [S+"util.py",S+"state_interface.py",S+"rp_handler.py",S+"oauth2/add_on/pkce.py",S+"oauth2/add_on/dpop.py",S+"client_auth.py",S+"oidc/end_session.py"],
 [("rndstr / unreserved","util.py")],[],["authorization and logout URLs","outgoing HTTP requests"])
p("C30","Connections are made as the handler was told, and go nowhere else",
 "Every HTTP request a handler makes, whatever it is for (web finger, discovery, keys, registration and reading it, pushed authorization requests, tokens, refreshes, user info, distributed claims), uses the TLS verification, CA, client certificate and proxy that handler was configured with; certificates are verified unless it was told otherwise, and keys are fetched in the same way unless the key jar handed over has settings of its own. An answer that says to go elsewhere is not obeyed: the operation fails and nothing is sent to that place. A cookie set by one server is never sent to another. Two handlers in a process, sharing a key jar or not, do not influence each other in this.",
 ["inputs","histories","configurations"],"all connection settings of two handlers and all sequences of set-ups, logins, refreshes, key rotations and registration reads at two providers, with a redirect in place of any one answer",
 "tests replace the network by canned answers that look at neither certificates nor redirects",
 [S+"http.py",S+"rp_handler.py",S+"oauth2/__init__.py",S+"oidc/__init__.py",S+"oauth2/add_on/pushed_authorization.py",S+"entity.py"],
 [("HTTPLib.__call__","http.py"),("init_client","rp_handler.py"),("push_authorization","oauth2/add_on/pushed_authorization.py"),("fetch_distributed_claims","oidc/__init__.py")],
 [],["outgoing HTTP requests and how they are made"])
p("C31","A configuration means the same in every form, domain and port filled in",
 "A relying party made from a configuration is the same whether that is a dictionary, JSON, YAML or a Python module, and whether it is the whole of it, an extension of it or a nested part. Domain and port given by argument, or else those in the configuration, or else the defaults, are filled in in every URI that leaves room for them: the base URL, and each client's redirect URIs, post logout redirect URIs and logout URIs, as they show in authorization, registration and logout requests. Certificates are verified unless it says not to. A second relying party made from the same source with another domain or port has its own, and finds the keys the first one made.",
 ["inputs","configurations","histories"],"all combinations of form, class, nesting, domain, port and arguments, for two relying parties made one after the other from one source",
 "tests load two files and look at which names are in them",
 [S+"configure.py",S+"util.py",S+"rp_handler.py",S+"service_context.py"],
 [("RPConfiguration / Configuration","configure.py"),("lower_or_upper","util.py")],
 [],["authorization, registration and logout requests of a handler made from the configuration"])
p("C32","What is stored about a session is found there, and there only",
 "The state store a client keeps gives back each message of a session exactly as it was stored last under that session and kind, and the issuer the session was begun with. Parameters taken from stored messages are those of the message, in verified form unless the original is asked for, the later of several messages taking precedence. A nonce, subject, session ID or logout state leads to the session it was bound to last, each kind on its own. Removing a session removes its messages and all that leads to it, and nothing else. Reading changes nothing, what the caller does to a message before or after does not change what is stored, and two clients share nothing, whatever texts are used as keys and values.",
 ["inputs","histories"],"all sequences of storing, reading, binding, looking up and removing over several sessions, kinds and clients",
 "tests store one or two messages and read them back at once",
 [S+"state_interface.py",S+"service_context.py"],
 [("StateInterface","state_interface.py")],
 [("_db","sessions and what leads to them","state_interface.py")],["StateInterface methods of a client's service context"])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
