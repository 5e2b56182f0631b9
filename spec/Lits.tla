-------------------------------- MODULE Lits --------------------------------
(* Text literals as code point sequences.                                      *)
EXTENDS Integers, Sequences
sMethod == <<58, 109, 101, 116, 104, 111, 100>>   \* ':method'
sPath == <<58, 112, 97, 116, 104>>   \* ':path'
sScheme == <<58, 115, 99, 104, 101, 109, 101>>   \* ':scheme'
sVersion == <<58, 118, 101, 114, 115, 105, 111, 110>>   \* ':version'
sHost == <<58, 104, 111, 115, 116>>   \* ':host'
sStatus == <<58, 115, 116, 97, 116, 117, 115>>   \* ':status'
sStatusText == <<58, 115, 116, 97, 116, 117, 115, 45, 116, 101, 120, 116>>   \* ':status-text'
sHostName == <<104, 111, 115, 116>>   \* 'host'
sConnection == <<99, 111, 110, 110, 101, 99, 116, 105, 111, 110>>   \* 'connection'
sKeepAlive == <<107, 101, 101, 112, 45, 97, 108, 105, 118, 101>>   \* 'keep-alive'
sHttp == <<104, 116, 116, 112>>   \* 'http'
sHttps == <<104, 116, 116, 112, 115>>   \* 'https'
sUnknown == <<117, 110, 107, 110, 111, 119, 110>>   \* 'unknown'
sCookie == <<99, 111, 111, 107, 105, 101>>   \* 'cookie'
sReq == <<114, 101, 113>>   \* 'req'
sRes == <<114, 101, 115>>   \* 'res'
sAll == <<97, 108, 108>>   \* 'all'
sTotal == <<84, 79, 84, 65, 76>>   \* 'TOTAL'
sHttp11 == <<72, 84, 84, 80, 47, 49, 46, 49>>   \* 'HTTP/1.1'
sH2 == <<72, 47, 50>>   \* 'H/2'
sQuest == <<63>>   \* '?'
sCRLF == <<13, 10>>   \* '\r\n'
sColonSp == <<58, 32>>   \* ': '
sSlash == <<47>>   \* '/'
\* reason phrases of the status codes
Phrases == <<
  <<<<50, 48, 48>>, <<79, 75>>>>  (* 200 OK *),
  <<<<50, 48, 49>>, <<67, 114, 101, 97, 116, 101, 100>>>>  (* 201 Created *),
  <<<<50, 48, 50>>, <<65, 99, 99, 101, 112, 116, 101, 100>>>>  (* 202 Accepted *),
  <<<<50, 48, 51>>, <<78, 111, 110, 45, 65, 117, 116, 104, 111, 114, 105, 116, 97, 116, 105, 118, 101, 32, 73, 110, 102, 111, 114, 109, 97, 116, 105, 111, 110>>>>  (* 203 Non-Authoritative Information *),
  <<<<50, 48, 52>>, <<78, 111, 32, 67, 111, 110, 116, 101, 110, 116>>>>  (* 204 No Content *),
  <<<<50, 48, 53>>, <<82, 101, 115, 101, 116, 32, 67, 111, 110, 116, 101, 110, 116>>>>  (* 205 Reset Content *),
  <<<<50, 48, 54>>, <<80, 97, 114, 116, 105, 97, 108, 32, 67, 111, 110, 116, 101, 110, 116>>>>  (* 206 Partial Content *),
  <<<<50, 48, 55>>, <<77, 117, 108, 116, 105, 45, 83, 116, 97, 116, 117, 115>>>>  (* 207 Multi-Status *),
  <<<<51, 48, 48>>, <<77, 117, 108, 116, 105, 112, 108, 101, 32, 67, 104, 111, 105, 99, 101, 115>>>>  (* 300 Multiple Choices *),
  <<<<51, 48, 49>>, <<77, 111, 118, 101, 100, 32, 80, 101, 114, 109, 97, 110, 101, 110, 116, 108, 121>>>>  (* 301 Moved Permanently *),
  <<<<51, 48, 50>>, <<70, 111, 117, 110, 100>>>>  (* 302 Found *),
  <<<<51, 48, 51>>, <<83, 101, 101, 32, 79, 116, 104, 101, 114>>>>  (* 303 See Other *),
  <<<<51, 48, 52>>, <<78, 111, 116, 32, 77, 111, 100, 105, 102, 105, 101, 100>>>>  (* 304 Not Modified *),
  <<<<51, 48, 55>>, <<84, 101, 109, 112, 111, 114, 97, 114, 121, 32, 82, 101, 100, 105, 114, 101, 99, 116>>>>  (* 307 Temporary Redirect *),
  <<<<51, 48, 56>>, <<80, 101, 114, 109, 97, 110, 101, 110, 116, 32, 82, 101, 100, 105, 114, 101, 99, 116>>>>  (* 308 Permanent Redirect *),
  <<<<52, 48, 48>>, <<66, 97, 100, 32, 82, 101, 113, 117, 101, 115, 116>>>>  (* 400 Bad Request *),
  <<<<52, 48, 49>>, <<85, 110, 97, 117, 116, 104, 111, 114, 105, 122, 101, 100>>>>  (* 401 Unauthorized *),
  <<<<52, 48, 51>>, <<70, 111, 114, 98, 105, 100, 100, 101, 110>>>>  (* 403 Forbidden *),
  <<<<52, 48, 52>>, <<78, 111, 116, 32, 70, 111, 117, 110, 100>>>>  (* 404 Not Found *),
  <<<<52, 48, 53>>, <<77, 101, 116, 104, 111, 100, 32, 78, 111, 116, 32, 65, 108, 108, 111, 119, 101, 100>>>>  (* 405 Method Not Allowed *),
  <<<<52, 48, 54>>, <<78, 111, 116, 32, 65, 99, 99, 101, 112, 116, 97, 98, 108, 101>>>>  (* 406 Not Acceptable *),
  <<<<52, 48, 56>>, <<82, 101, 113, 117, 101, 115, 116, 32, 84, 105, 109, 101, 111, 117, 116>>>>  (* 408 Request Timeout *),
  <<<<52, 48, 57>>, <<67, 111, 110, 102, 108, 105, 99, 116>>>>  (* 409 Conflict *),
  <<<<52, 49, 48>>, <<71, 111, 110, 101>>>>  (* 410 Gone *),
  <<<<53, 48, 48>>, <<73, 110, 116, 101, 114, 110, 97, 108, 32, 83, 101, 114, 118, 101, 114, 32, 69, 114, 114, 111, 114>>>>  (* 500 Internal Server Error *) >>
=============================================================================
