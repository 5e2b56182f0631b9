------------------------------ MODULE Http2Static ------------------------------
(* The initial header tables of the HTTP/2 draft codec, as byte strings.       *)
StaticRequest == <<
  <<<<58, 115, 99, 104, 101, 109, 101>>, <<104, 116, 116, 112>>>>,  \* :scheme: http
  <<<<58, 115, 99, 104, 101, 109, 101>>, <<104, 116, 116, 112, 115>>>>,  \* :scheme: https
  <<<<58, 104, 111, 115, 116>>, <<>>>>,  \* :host: 
  <<<<58, 112, 97, 116, 104>>, <<47>>>>,  \* :path: /
  <<<<58, 109, 101, 116, 104, 111, 100>>, <<103, 101, 116>>>>,  \* :method: get
  <<<<97, 99, 99, 101, 112, 116>>, <<>>>>,  \* accept: 
  <<<<97, 99, 99, 101, 112, 116, 45, 99, 104, 97, 114, 115, 101, 116>>, <<>>>>,  \* accept-charset: 
  <<<<97, 99, 99, 101, 112, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103>>, <<>>>>,  \* accept-encoding: 
  <<<<97, 99, 99, 101, 112, 116, 45, 108, 97, 110, 103, 117, 97, 103, 101>>, <<>>>>,  \* accept-language: 
  <<<<99, 111, 111, 107, 105, 101>>, <<>>>>,  \* cookie: 
  <<<<105, 102, 45, 109, 111, 100, 105, 102, 105, 101, 100, 45, 115, 105, 110, 99, 101>>, <<>>>>,  \* if-modified-since: 
  <<<<117, 115, 101, 114, 45, 97, 103, 101, 110, 116>>, <<>>>>,  \* user-agent: 
  <<<<114, 101, 102, 101, 114, 101, 114>>, <<>>>>,  \* referer: 
  <<<<97, 117, 116, 104, 111, 114, 105, 122, 97, 116, 105, 111, 110>>, <<>>>>,  \* authorization: 
  <<<<97, 108, 108, 111, 119>>, <<>>>>,  \* allow: 
  <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<>>>>,  \* cache-control: 
  <<<<99, 111, 110, 110, 101, 99, 116, 105, 111, 110>>, <<>>>>,  \* connection: 
  <<<<99, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104>>, <<>>>>,  \* content-length: 
  <<<<99, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101>>, <<>>>>,  \* content-type: 
  <<<<100, 97, 116, 101>>, <<>>>>,  \* date: 
  <<<<101, 120, 112, 101, 99, 116>>, <<>>>>,  \* expect: 
  <<<<102, 114, 111, 109>>, <<>>>>,  \* from: 
  <<<<105, 102, 45, 109, 97, 116, 99, 104>>, <<>>>>,  \* if-match: 
  <<<<105, 102, 45, 110, 111, 110, 101, 45, 109, 97, 116, 99, 104>>, <<>>>>,  \* if-none-match: 
  <<<<105, 102, 45, 114, 97, 110, 103, 101>>, <<>>>>,  \* if-range: 
  <<<<105, 102, 45, 117, 110, 109, 111, 100, 105, 102, 105, 101, 100, 45, 115, 105, 110, 99, 101>>, <<>>>>,  \* if-unmodified-since: 
  <<<<109, 97, 120, 45, 102, 111, 114, 119, 97, 114, 100, 115>>, <<>>>>,  \* max-forwards: 
  <<<<112, 114, 111, 120, 121, 45, 97, 117, 116, 104, 111, 114, 105, 122, 97, 116, 105, 111, 110>>, <<>>>>,  \* proxy-authorization: 
  <<<<114, 97, 110, 103, 101>>, <<>>>>,  \* range: 
  <<<<118, 105, 97>>, <<>>>>  \* via: 
>>
StaticResponse == <<
  <<<<58, 115, 116, 97, 116, 117, 115>>, <<50, 48, 48>>>>,  \* :status: 200
  <<<<97, 103, 101>>, <<>>>>,  \* age: 
  <<<<99, 97, 99, 104, 101, 45, 99, 111, 110, 116, 114, 111, 108>>, <<>>>>,  \* cache-control: 
  <<<<99, 111, 110, 116, 101, 110, 116, 45, 108, 101, 110, 103, 116, 104>>, <<>>>>,  \* content-length: 
  <<<<99, 111, 110, 116, 101, 110, 116, 45, 116, 121, 112, 101>>, <<>>>>,  \* content-type: 
  <<<<100, 97, 116, 101>>, <<>>>>,  \* date: 
  <<<<101, 116, 97, 103>>, <<>>>>,  \* etag: 
  <<<<101, 120, 112, 105, 114, 101, 115>>, <<>>>>,  \* expires: 
  <<<<108, 97, 115, 116, 45, 109, 111, 100, 105, 102, 105, 101, 100>>, <<>>>>,  \* last-modified: 
  <<<<115, 101, 114, 118, 101, 114>>, <<>>>>,  \* server: 
  <<<<115, 101, 116, 45, 99, 111, 111, 107, 105, 101>>, <<>>>>,  \* set-cookie: 
  <<<<118, 97, 114, 121>>, <<>>>>,  \* vary: 
  <<<<118, 105, 97>>, <<>>>>,  \* via: 
  <<<<97, 99, 99, 101, 115, 115, 45, 99, 111, 110, 116, 114, 111, 108, 45, 97, 108, 108, 111, 119, 45, 111, 114, 105, 103, 105, 110>>, <<>>>>,  \* access-control-allow-origin: 
  <<<<97, 99, 99, 101, 112, 116, 45, 114, 97, 110, 103, 101, 115>>, <<>>>>,  \* accept-ranges: 
  <<<<97, 108, 108, 111, 119>>, <<>>>>,  \* allow: 
  <<<<99, 111, 110, 110, 101, 99, 116, 105, 111, 110>>, <<>>>>,  \* connection: 
  <<<<99, 111, 110, 116, 101, 110, 116, 45, 100, 105, 115, 112, 111, 115, 105, 116, 105, 111, 110>>, <<>>>>,  \* content-disposition: 
  <<<<99, 111, 110, 116, 101, 110, 116, 45, 101, 110, 99, 111, 100, 105, 110, 103>>, <<>>>>,  \* content-encoding: 
  <<<<99, 111, 110, 116, 101, 110, 116, 45, 108, 97, 110, 103, 117, 97, 103, 101>>, <<>>>>,  \* content-language: 
  <<<<99, 111, 110, 116, 101, 110, 116, 45, 108, 111, 99, 97, 116, 105, 111, 110>>, <<>>>>,  \* content-location: 
  <<<<99, 111, 110, 116, 101, 110, 116, 45, 114, 97, 110, 103, 101>>, <<>>>>,  \* content-range: 
  <<<<108, 105, 110, 107>>, <<>>>>,  \* link: 
  <<<<108, 111, 99, 97, 116, 105, 111, 110>>, <<>>>>,  \* location: 
  <<<<112, 114, 111, 120, 121, 45, 97, 117, 116, 104, 101, 110, 116, 105, 99, 97, 116, 101>>, <<>>>>,  \* proxy-authenticate: 
  <<<<114, 101, 102, 114, 101, 115, 104>>, <<>>>>,  \* refresh: 
  <<<<114, 101, 116, 114, 121, 45, 97, 102, 116, 101, 114>>, <<>>>>,  \* retry-after: 
  <<<<115, 116, 114, 105, 99, 116, 45, 116, 114, 97, 110, 115, 112, 111, 114, 116, 45, 115, 101, 99, 117, 114, 105, 116, 121>>, <<>>>>,  \* strict-transport-security: 
  <<<<116, 114, 97, 110, 115, 102, 101, 114, 45, 101, 110, 99, 111, 100, 105, 110, 103>>, <<>>>>,  \* transfer-encoding: 
  <<<<119, 119, 119, 45, 97, 117, 116, 104, 101, 110, 116, 105, 99, 97, 116, 101>>, <<>>>>  \* www-authenticate: 
>>
==============================================================================
