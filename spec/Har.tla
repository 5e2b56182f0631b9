--------------------------------- MODULE Har ---------------------------------
(* HAR entries to header dictionaries.  An entry is                            *)
(*   [url, method, ver, hdrs, status, reason, rver, rhdrs]                     *)
(* with every text a code point sequence and hdrs a sequence of <<name,value>>.*)
EXTENDS Text, Lits

UrlScheme(u) == Lower(Before(u, {58}))
UrlRest(u) == Rest(After(u, {58}), 3)                     \* after "//"
UrlNetloc(u) == Before(UrlRest(u), {47, 63, 35})
UrlTail(u) == Before(From(UrlRest(u), {47, 63, 35}), {35})  \* without fragment
UrlPath(u) == LET p == Before(UrlTail(u), {63}) IN IF p = <<>> THEN sSlash ELSE p
UrlQuery(u) == After(UrlTail(u), {63})
IsHttp(e) == UrlScheme(e.url) \in {sHttp, sHttps} /\ 58 \in ToSet(e.url)

\* header fields: lower-cased names, "host" renamed, repeats joined by NUL
Fold(hs) ==
  LET key(n) == IF Lower(n) = sHostName THEN sHost ELSE Lower(n)
      names == {key(hs[i][1]) : i \in 1..Len(hs)}
      vals(n) == LET s == SelectSeq(hs, LAMBDA h : key(h[1]) = n)
                 IN Join([i \in 1..Len(s) |-> s[i][2]], <<0>>)
  IN {<<n, vals(n)>> : n \in names}

Without(d, S) == {p \in d : p[1] \notin S}
ReqDict(e) ==
  LET f == Fold(e.hdrs)
      path == UrlPath(e.url) \o (IF UrlQuery(e.url) = <<>> THEN <<>> ELSE <<63>> \o UrlQuery(e.url))
      base == Without(f, {sMethod, sPath, sScheme, sVersion})
              \cup { <<sMethod, Lower(e.method)>>, <<sPath, path>>,
                     <<sScheme, UrlScheme(e.url)>>, <<sVersion, e.ver>> }
  IN IF \E p \in f : p[1] = sHost THEN base ELSE base \cup {<<sHost, UrlNetloc(e.url)>>}

Digits(s) == LET P == {i \in 1..Len(s) : s[i] \notin 48..57} IN
             IF P = {} THEN s ELSE SubSeq(s, 1, Min(P) - 1)
Reason(e) ==
  LET t == Trim(e.reason, WS)
      code == Digits(e.status)
      known == {i \in 1..Len(Phrases) : Phrases[i][1] = code}
  IN IF t # <<>> THEN t ELSE IF known = {} THEN sUnknown ELSE Phrases[Min(known)][2]
ResDict(e) ==
  Without(Fold(e.rhdrs), {sStatus, sStatusText, sVersion})
  \cup { <<sStatus, Digits(e.status)>>, <<sStatusText, Reason(e)>>, <<sVersion, e.rver>> }

Kept(es) == SelectSeq(es, IsHttp)
Requests(es)  == LET k == Kept(es) IN [i \in 1..Len(k) |-> ReqDict(k[i])]
Responses(es) == LET k == Kept(es) IN [i \in 1..Len(k) |-> ResDict(k[i])]
=============================================================================
