From 7ca1ada645a4f532da2725815a214baa6719df8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:56 +0000
Subject: [PATCH 01/47] fix: http2 codec: do not re-encode forever a kept
 header that is sent without indexing

---
 compressor/http2/http2Codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/http2/http2Codec.py b/compressor/http2/http2Codec.py
index 736200d..7845550 100644
--- a/compressor/http2/http2Codec.py
+++ b/compressor/http2/http2Codec.py
@@ -430,7 +430,7 @@ class HTTP2Codec(object):
           encoded_headers = True
         else:
           remaining_headers.append(header)
-      
+      referenced_headers = remaining_headers
     
     # Return frame
     frame = pack("!HBBL", len(self.encoded_stream), 0, 0, 0)
-- 
2.43.0


From 4c3b68462cea33ec4d177331ca71c3dbda0ff26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:03 +0000
Subject: [PATCH 02/47] fix: http2 decoder: a substituted entry whose target
 was evicted goes to the front of the table

---
 compressor/http2/http2Codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/http2/http2Codec.py b/compressor/http2/http2Codec.py
index 7845550..65167b3 100644
--- a/compressor/http2/http2Codec.py
+++ b/compressor/http2/http2Codec.py
@@ -132,7 +132,7 @@ class HTTP2Codec(object):
       if index >= 0:
         self.decoder_table[index] = entry
       else:
-        self.decoder_table.insert(index, entry)
+        self.decoder_table.insert(0, entry)
       self.decoder_table_size += size
 
     return dropped_number
-- 
2.43.0


From a8b59a22f3d3addd6e5ab6682270b06125b9dc2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:04 +0000
Subject: [PATCH 03/47] fix: headerdiff: do not confuse headers whose name and
 value concatenate to the same text

---
 compressor/headerdiff/headerDiffCodec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 565633d..6cb9d65 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -67,7 +67,7 @@ class IndexedHeader(object):
     self.value = value
     self.index = index
     # Full is used by encoder as a key to find an indexed header
-    self.full = name + value
+    self.full = (name, value)
     # Age is used by encoder when determining header representation
     self.age = 0
     # Number of usage as a reference for a delta-encoding
@@ -363,7 +363,7 @@ class HeaderDiffCodec(object):
     for he in headerTuples:
       headerName = he.name
       headerValue = he.value
-      headerFull = headerName + headerValue
+      headerFull = (headerName, headerValue)
       # Determine representation
       hr = self.determineRepresentation(
         headerName,
@@ -472,7 +472,7 @@ class HeaderDiffCodec(object):
     # Default encoding: literal without indexing
     hr = HeaderRepresentation()
     # Check possibility of indexed representation
-    headerFull = headerName + headerValue
+    headerFull = (headerName, headerValue)
     if headerFull in self.headersTableEncoder:
       hr.representation = INDEXED_REPRESENTATION
       hr.referenceHeader = self.headersTableEncoder[headerFull]
-- 
2.43.0


From e58acd916d6988bc24a34d2b1e0c5f0f2d87ac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:04 +0000
Subject: [PATCH 04/47] fix: headerdiff: do not inflate the frame header in
 deflate mode

---
 compressor/headerdiff/headerDiffCodec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 6cb9d65..2cd29ff 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -176,7 +176,7 @@ class HeaderDiffCodec(object):
     self.decodedStreamIndex = 0
     # If Deflate was used, apply Inflate
     if self.windowSize != None:
-      self.decodedStream = self.decomp.decompress(stream)
+      self.decodedStream = self.decomp.decompress(self.decodedStream)
     # Initialize variables
     headers = [] # List of decoded headers
     # Decode number of headers
-- 
2.43.0


From 584dda0ced0c5ff3767dae37d9782897b3fe7aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:52 +0000
Subject: [PATCH 05/47] fix: summaries: locale.format is gone from Python 3.12

---
 lib/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/stream.py b/lib/stream.py
index f5a7681..5493838 100755
--- a/lib/stream.py
+++ b/lib/stream.py
@@ -41,7 +41,7 @@ class Stream(object):
     for proc in self.procs:
       ttl_size = sum(self.sizes[proc])
       ttl_time = sum(self.times[proc])
-      pretty_size = locale.format("%13d", ttl_size, grouping=True)
+      pretty_size = locale.format_string("%13d", ttl_size, grouping=True)
       ratio = 1.0 * ttl_size / baseline_size
       try:
         std = meanstdv(self.ratios[proc])[1]
-- 
2.43.0


From 107462bfba826ebcc15911c2f61807179129db31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:52 +0000
Subject: [PATCH 06/47] fix: adding streams must not extend the message list of
 the first one

---
 lib/stream.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/stream.py b/lib/stream.py
index 5493838..a4d39e2 100755
--- a/lib/stream.py
+++ b/lib/stream.py
@@ -72,8 +72,8 @@ class Stream(object):
 
   def __add__(self, other):
     assert self.msg_type == other.msg_type
-    new = Stream('', self.messages, self.msg_type, self.procs)
-    new.messages.extend(other.messages) # NB: not great for memory
+    new = Stream('', self.messages + other.messages, # NB: not great for memory
+                 self.msg_type, self.procs)
     new.sizes = merge_dols(self.sizes, other.sizes)
     new.ratios = merge_dols(self.ratios, other.ratios)
     new.times = merge_dols(self.times, other.times)
-- 
2.43.0


From 62880b93b0f0846ca3abee4b02b48692323a8316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:52 +0000
Subject: [PATCH 07/47] fix: totals: do not rename the only stream of a
 direction to TOTAL

---
 compare_compressors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compare_compressors.py b/compare_compressors.py
index db38e0b..0fee036 100755
--- a/compare_compressors.py
+++ b/compare_compressors.py
@@ -59,7 +59,7 @@ class CompressionTester(object):
         session.print_summary(self.output, self.options.baseline)
     self.processors.done()
     for msg_type in self.msg_types:
-      ttl_stream = reduce(operator.add, [s for s in sessions if s.msg_type == msg_type])
+      ttl_stream = reduce(operator.add, [s for s in sessions if s.msg_type == msg_type], 0)
       ttl_stream.name = "TOTAL"
       ttl_stream.print_header(self.output)
       ttl_stream.print_summary(self.output, self.options.baseline)
-- 
2.43.0


From 5792e9ab4219704851a68eea01f30c7dde97fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:52 +0000
Subject: [PATCH 08/47] fix: report a HAR parse error instead of failing to
 write it

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 3bac9b7..a66daf6 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -22,7 +22,7 @@ def read_har_file(filename):
     har = json.loads(fhandle.read())
   except Exception as oops:
     sys.stderr.write("Unable to parse %s\n\n" % filename)
-    sys.stderr.write(oops)
+    sys.stderr.write("%s\n" % oops)
     sys.exit(1)
   finally: 
     fhandle.close()
-- 
2.43.0


From d385f5468ccf4b16ec0330796c8b8691b5226c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:52 +0000
Subject: [PATCH 09/47] fix: HAR conversion: a URL without a path asks for "/"

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index a66daf6..86826fd 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -45,7 +45,7 @@ def har2hdrs(har):
       continue
     headers = process_headers(request["headers"])
     headers[":method"] = request["method"].lower()
-    headers[":path"] = url.path
+    headers[":path"] = url.path or "/"
     if url.query:
       headers[":path"] += "?%s" % url.query
     headers[":scheme"] = url.scheme.lower()
-- 
2.43.0


From f687fb58cb95d54260630be40e899db3faa83d50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:52 +0000
Subject: [PATCH 10/47] fix: HAR conversion: keep the recorded Host header,
 else use the authority of the URL

---
 lib/harfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 86826fd..ae52479 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -50,8 +50,8 @@ def har2hdrs(har):
       headers[":path"] += "?%s" % url.query
     headers[":scheme"] = url.scheme.lower()
     headers[":version"] = request["httpVersion"]
-    if not ":host" in request_headers:
-      headers[":host"] = re.sub("^[^:]*://([^/]*)/.*$", "\\1", request["url"])
+    if not ":host" in headers:
+      headers[":host"] = url.netloc
     request_headers.append(headers)
 
     response = entry["response"]
-- 
2.43.0


From f953448a0c86441226f1282a0472878587bd1055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:26 +0000
Subject: [PATCH 11/47] fix: http1_gzip, http1_huffman, spdy3=dict: give zlib
 bytes, not text

---
 compressor/http1_gzip/__init__.py    | 6 +++---
 compressor/http1_huffman/__init__.py | 6 +++---
 compressor/spdy3/__init__.py         | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/compressor/http1_gzip/__init__.py b/compressor/http1_gzip/__init__.py
index 825eeed..4a06b49 100644
--- a/compressor/http1_gzip/__init__.py
+++ b/compressor/http1_gzip/__init__.py
@@ -10,12 +10,12 @@ class Processor(BaseProcessor):
     BaseProcessor.__init__(self, options, is_request, params)
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15)
-    self.compressor.compress(spdy_dictionary.spdy_dict);
+    self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'))
     self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
-    http1_msg = format_http1(in_headers)
-    return ''.join([
+    http1_msg = format_http1(in_headers).encode('utf-8')
+    return b''.join([
                    self.compressor.compress(http1_msg),
                    self.compressor.flush(zlib.Z_SYNC_FLUSH)
                   ])
diff --git a/compressor/http1_huffman/__init__.py b/compressor/http1_huffman/__init__.py
index 5f8b304..f1a3147 100644
--- a/compressor/http1_huffman/__init__.py
+++ b/compressor/http1_huffman/__init__.py
@@ -10,12 +10,12 @@ class Processor(BaseProcessor):
     BaseProcessor.__init__(self, options, is_request, params)
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15, 8, zlib.Z_HUFFMAN_ONLY)
-    self.compressor.compress(spdy_dictionary.spdy_dict);
+    self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'))
     self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
-    http1_msg = format_http1(in_headers)
-    return ''.join([
+    http1_msg = format_http1(in_headers).encode('utf-8')
+    return b''.join([
                    self.compressor.compress(http1_msg),
                    self.compressor.flush(zlib.Z_SYNC_FLUSH)
                   ])
diff --git a/compressor/spdy3/__init__.py b/compressor/spdy3/__init__.py
index 57547b0..1ee6074 100644
--- a/compressor/spdy3/__init__.py
+++ b/compressor/spdy3/__init__.py
@@ -12,7 +12,7 @@ class Processor(BaseProcessor):
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15)
     if 'dict' in params:
-      self.compressor.compress(spdy_dictionary.spdy_dict);
+      self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'))
       self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
-- 
2.43.0


From ac7a1d194eeed7bcf35594a3689270082cdcee68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:26 +0000
Subject: [PATCH 12/47] fix: fork: importable again, and speak bytes to the
 external codec

---
 compressor/fork/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/compressor/fork/__init__.py b/compressor/fork/__init__.py
index eb8c636..730f630 100644
--- a/compressor/fork/__init__.py
+++ b/compressor/fork/__init__.py
@@ -7,7 +7,7 @@ import subprocess
 import struct
 import sys
 
-from .. import BaseProcessor, format_http1, strip_conn_headers
+from .. import BaseProcessor, format_http1
 
 class Processor(BaseProcessor):
   def __init__(self, options, is_request, params):
@@ -24,17 +24,18 @@ class Processor(BaseProcessor):
                                      stdin=subprocess.PIPE)
 
   def compress(self, in_headers, host):
-    http1_msg = format_http1(strip_conn_headers(in_headers))
-    self.process.stdin.write(http1_msg)
+    http1_msg = format_http1(in_headers)
+    self.process.stdin.write(http1_msg.encode('utf-8'))
+    self.process.stdin.flush()
     if self.delimit_binary:
       output = self.process.stdout.read(8)
       size = struct.unpack("q", output)[0]
       output = self.process.stdout.read(int(size))
     else:
-      output = ""
+      output = b""
       while True:
         line = self.process.stdout.readline()
-        if line.strip() == "":
+        if line.strip() == b"":
           break
         output += line
     return output
-- 
2.43.0


From fda0efcc0e1bcf64eff7afb5a7018ff203b82d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:54 +0000
Subject: [PATCH 13/47] fix: hyper_hpack: decompress returns a header
 dictionary, as documented

---
 compressor/hyper_hpack/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/hyper_hpack/__init__.py b/compressor/hyper_hpack/__init__.py
index bf314f5..b49788f 100644
--- a/compressor/hyper_hpack/__init__.py
+++ b/compressor/hyper_hpack/__init__.py
@@ -14,4 +14,4 @@ class Processor(BaseProcessor):
     return self.compressor.encode(headers)
 
   def decompress(self, compressed):
-    return self.decompressor.decode(compressed)
\ No newline at end of file
+    return dict(self.decompressor.decode(compressed))
\ No newline at end of file
-- 
2.43.0


From 7269e85c222f4ee13f7bfa6a5fe6dcf38b6b3319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:54 +0000
Subject: [PATCH 14/47] fix: IDStore: misspelt minimum_id (AttributeError at
 the end of the range)

---
 compressor/bohe/common_utils.py        | 2 +-
 compressor/delta2_bohe/common_utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/bohe/common_utils.py b/compressor/bohe/common_utils.py
index 8b35243..c222be4 100644
--- a/compressor/bohe/common_utils.py
+++ b/compressor/bohe/common_utils.py
@@ -57,7 +57,7 @@ class IDStore(object):
   def __init__(self, max_id):
     self.ids = set()
     self.next_idx = 0
-    self.mininum_id = 0
+    self.minimum_id = 0
     self.maximum_id = max_id
     if self.maximum_id is None:
       print "need a max id"
diff --git a/compressor/delta2_bohe/common_utils.py b/compressor/delta2_bohe/common_utils.py
index 8b35243..c222be4 100644
--- a/compressor/delta2_bohe/common_utils.py
+++ b/compressor/delta2_bohe/common_utils.py
@@ -57,7 +57,7 @@ class IDStore(object):
   def __init__(self, max_id):
     self.ids = set()
     self.next_idx = 0
-    self.mininum_id = 0
+    self.minimum_id = 0
     self.maximum_id = max_id
     if self.maximum_id is None:
       print "need a max id"
-- 
2.43.0


From 7cd381f10b8cebc6d076e20595e58393cdfd601e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:19 +0000
Subject: [PATCH 15/47] fix: connection options are case-insensitive and may be
 spread over several fields

---
 lib/processors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/processors.py b/lib/processors.py
index 1af25d0..ec60907 100755
--- a/lib/processors.py
+++ b/lib/processors.py
@@ -87,7 +87,8 @@ class Processors(object):
     new_hdrs = {}
     ignore_hdrs = [':status-text', ':version', 'keep-alive', 'connection']
     if 'connection' in hdrs:
-      ignore_hdrs.extend([x.strip(' ') for x in hdrs['connection'].split(',')])
+      ignore_hdrs.extend([x.strip(' ').lower() for x in
+                          hdrs['connection'].replace('\0', ',').split(',')])
 
     for k,v in hdrs.items():
       if k in ignore_hdrs:
-- 
2.43.0


From 92470c7a2d018540f765be65e49cf5056d55a935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:36 +0000
Subject: [PATCH 16/47] fix: parse_http1: recover the :host of a response as
 well

---
 compressor/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/__init__.py b/compressor/__init__.py
index 0cc3f4f..7846068 100644
--- a/compressor/__init__.py
+++ b/compressor/__init__.py
@@ -101,11 +101,11 @@ def parse_http1(message, is_request, host='host'):
     out[':method'] = top_line[0]
     out[':path'] = top_line[1]
     out[':version'] = top_line[2].strip()
-    if host in out:
-      out[':host'] = out[host]
-      del out[host]
   else:
     out[':version'] = top_line[0]
     out[':status'] = top_line[1]
     out[':status-text'] = top_line[2].strip()
+  if host in out:
+    out[':host'] = out[host]
+    del out[host]
   return out
-- 
2.43.0


From c8b7ad1d3581487c6e0ca88c82ea86141e472b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:48 +0000
Subject: [PATCH 17/47] fix: headerdiff: write both bytes of the prefix of an
 index beyond 16446

---
 compressor/headerdiff/headerDiffCodec.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 2cd29ff..293abec 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -581,8 +581,12 @@ class HeaderDiffCodec(object):
       # If prefix size is greater than 0,
       # write MAX_VALUE as the prefix
       if prefixBits > 0:
-        currentByte = currentByte | MAX_VALUES[prefixBits]
-        self.encodedStream+= pack("!B", currentByte)
+        if prefixBits <= 8:
+          currentByte = currentByte | MAX_VALUES[prefixBits]
+          self.encodedStream+= pack("!B", currentByte)
+        else:
+          b = (currentByte << 8) | MAX_VALUES[prefixBits]
+          self.encodedStream+= pack("!H", b)
       # Write value on next byte or bytes
       integerValue = integerValue - MAX_VALUES[prefixBits]
       if integerValue == 0:
-- 
2.43.0


From 48d62d4b90a82670231d5a403d441e6a111678ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:27 +0000
Subject: [PATCH 18/47] fix: simple: a header named h is not the host

---
 compressor/simple/__init__.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/compressor/simple/__init__.py b/compressor/simple/__init__.py
index ba66111..c40106d 100644
--- a/compressor/simple/__init__.py
+++ b/compressor/simple/__init__.py
@@ -119,7 +119,7 @@ class Processor(BaseProcessor):
       and name[0] != ":" \
       and self.last_c.get(name, None) == value \
       and len(refs) < self.max_entries:
-        refs.append(name)
+        refs.append(self.hdr_name(name))
         continue
       elif self.last_c \
       and name == ':host' \
@@ -138,7 +138,7 @@ class Processor(BaseProcessor):
       headers[self.hdr_name(name)] = value
     self.last_c = in_headers
     if refs:
-      headers["ref"] = ",".join([self.hdr_name(ref) for ref in refs])
+      headers["ref"] = ",".join(refs)
     if headers.has_key('h'):
       headers[':host'] = headers['h']
       del headers['h']
@@ -156,8 +156,6 @@ class Processor(BaseProcessor):
     for name in headers.keys():
       if name == "ref":
         continue
-      elif name == ":host":
-        out_headers['h'] = headers[name]
       elif name[0] == ":":
         out_headers[name] = headers[name]
       elif name[0] == '!':
@@ -185,9 +183,6 @@ class Processor(BaseProcessor):
           sys.stdout.write("\n\n%s\n\n" % repr(self.last_d))
           raise
     self.last_d = copy(out_headers)
-    if out_headers.has_key('h'):
-      out_headers[':host'] = out_headers['h']
-      del out_headers['h']
     return out_headers
 
   def hdr_name(self, name):
-- 
2.43.0


From 3497a886c5e33f035b2bb08c89835607eed3ab9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:52 +0000
Subject: [PATCH 19/47] fix: delta2: account for the bytes of shared strings
 exactly when entries are evicted

---
 compressor/delta2/lrustorage.py       | 13 +++++++++++--
 compressor/delta2/spdy4_codec_impl.py | 18 +++++++++---------
 2 files changed, 20 insertions(+), 11 deletions(-)

diff --git a/compressor/delta2/lrustorage.py b/compressor/delta2/lrustorage.py
index c7f120a..839878b 100755
--- a/compressor/delta2/lrustorage.py
+++ b/compressor/delta2/lrustorage.py
@@ -80,14 +80,23 @@ class LruStorage:
       return 0
     if self.max_items is not None:
       while len(self.ring) + item_count > self.max_items:
-        if not self.PopOne():
+        if not self.PopOneFor(entry):
           return  0 # can't pop one, nothing more to do.
     if self.max_bytes is not None:
       while self.byte_size + entry.ByteSize() > self.max_bytes:
-        if not self.PopOne():
+        if not self.PopOneFor(entry):
           return 0 # can't pop one, nothing more to do.
     return 1
 
+  def PopOneFor(self, entry):
+    # a string which entry shares with the popped item is no longer accounted
+    # for in the storage, but will be counted again when entry is stored.
+    entry_byte_size = entry.ByteSize()
+    if not self.PopOne():
+      return 0
+    self.byte_size -= entry.ByteSize() - entry_byte_size
+    return 1
+
   def PopOne(self):
     if not self.ring:
       return 0
diff --git a/compressor/delta2/spdy4_codec_impl.py b/compressor/delta2/spdy4_codec_impl.py
index 21894a3..6746055 100644
--- a/compressor/delta2/spdy4_codec_impl.py
+++ b/compressor/delta2/spdy4_codec_impl.py
@@ -732,6 +732,7 @@ class Storage(object):
     if self.lru_storage.Reserve(entry, 1):
       self.lru_storage.Store(entry)
       return self.lru_storage.ring[-1].seq_num
+    entry.done()
     return None
 
   def LookupFromIdx(self, entry_seqnum, by_seqnum=None):
@@ -1035,10 +1036,8 @@ class Spdy4CoDe(object):
     #print "XXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXXX DONE Decompressor Executing"
     return (group_id, ops, headers)
 
-  def Store(self, kv):
-    if self.refcnt_vals:
-      return self.storage.InsertVal(lrustorage.KV(kv.key_, kv.val_))
-    return self.storage.InsertVal(lrustorage.KV(kv.key_, kv.val()))
+  def Store(self, key, val):
+    return self.storage.InsertVal(lrustorage.KV(key, val))
 
   def DecompressorExecuteOps(self, ops, group_id):
     store_later = deque()
@@ -1072,7 +1071,7 @@ class Spdy4CoDe(object):
         val = op['val']
         kv = self.storage.LookupFromIdx(lru_idx)
         AppendToHeaders(headers, kv.key(), val)
-        store_later.append(lrustorage.KV(kv.key_, val))
+        store_later.append((kv.key_, val))
       elif opcode == 'eclone':
         lru_idx = op['index']
         val = op['val']
@@ -1082,7 +1081,7 @@ class Spdy4CoDe(object):
         key = op['key']
         val = op['val']
         AppendToHeaders(headers, key, val)
-        store_later.append(lrustorage.KV(key, val))
+        store_later.append((key, val))
       elif opcode == 'ekvsto':
         key = op['key']
         val = op['val']
@@ -1108,15 +1107,16 @@ class Spdy4CoDe(object):
         kv = self.storage.LookupFromIdx(lru_idx, True)
         hg_store_later.append((kv, lru_idx));
     # Modify the LRU.
-    for kv in store_later:
-      new_idx = self.Store(kv)
+    for key, val in store_later:
+      new_idx = self.Store(key, val)
       if self.implicit_hg_add and new_idx is not None:
         current_header_group.hg_store.add(new_idx)
     if self.hg_adjust:
       for kv, old_idx in hg_store_later:
         if old_idx in current_header_group.hg_store:
           current_header_group.hg_store.remove(old_idx)
-        new_idx = self.Store(kv)
+        val = kv.val_ if self.refcnt_vals else kv.val()
+        new_idx = self.Store(kv.key_, val)
         if new_idx is not None:
           current_header_group.hg_store.add(new_idx)
 
-- 
2.43.0


From 16b8b8ca65a706229aa39ac718c29f2f16b490a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:52 +0000
Subject: [PATCH 20/47] fix: delta2: an LruStorage for zero items stores
 nothing

---
 compressor/delta2/lrustorage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/delta2/lrustorage.py b/compressor/delta2/lrustorage.py
index 839878b..2c6d34e 100755
--- a/compressor/delta2/lrustorage.py
+++ b/compressor/delta2/lrustorage.py
@@ -117,7 +117,7 @@ class LruStorage:
         "self.byte_size: %d" % self.byte_size,
         "item.ByteSize: %d" % item.ByteSize()])
       raise MemoryError(error_string)
-    if self.max_items and (self.max_items < (len(self.ring) + 1)):
+    if self.max_items is not None and (self.max_items < (len(self.ring) + 1)):
       raise MemoryError("max_items exceeded")
     item.seq_num = self.seq_num
     self.seq_num += 1
-- 
2.43.0


From 7f8770c60eea48dc2b385f90ad81b83aec409ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:52 +0000
Subject: [PATCH 21/47] fix: BitBucket.BitsRemaining counts the last unread bit
 (Python)

---
 compressor/bohe/bit_bucket.py        | 2 +-
 compressor/delta/bit_bucket.py       | 2 +-
 compressor/delta2/bit_bucket.py      | 2 +-
 compressor/delta2_bohe/bit_bucket.py | 2 +-
 compressor/delta_bohe/bit_bucket.py  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/compressor/bohe/bit_bucket.py b/compressor/bohe/bit_bucket.py
index 05cceb3..dec620b 100644
--- a/compressor/bohe/bit_bucket.py
+++ b/compressor/bohe/bit_bucket.py
@@ -146,7 +146,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
diff --git a/compressor/delta/bit_bucket.py b/compressor/delta/bit_bucket.py
index eb13c9c..84228e6 100644
--- a/compressor/delta/bit_bucket.py
+++ b/compressor/delta/bit_bucket.py
@@ -139,7 +139,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
diff --git a/compressor/delta2/bit_bucket.py b/compressor/delta2/bit_bucket.py
index b6f522d..2ab870f 100644
--- a/compressor/delta2/bit_bucket.py
+++ b/compressor/delta2/bit_bucket.py
@@ -155,7 +155,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
diff --git a/compressor/delta2_bohe/bit_bucket.py b/compressor/delta2_bohe/bit_bucket.py
index eb13c9c..84228e6 100644
--- a/compressor/delta2_bohe/bit_bucket.py
+++ b/compressor/delta2_bohe/bit_bucket.py
@@ -139,7 +139,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
diff --git a/compressor/delta_bohe/bit_bucket.py b/compressor/delta_bohe/bit_bucket.py
index eb13c9c..84228e6 100644
--- a/compressor/delta_bohe/bit_bucket.py
+++ b/compressor/delta_bohe/bit_bucket.py
@@ -139,7 +139,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
-- 
2.43.0


From 33875cea3a18060470eea9f9be1514582c1163ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:05 +0000
Subject: [PATCH 22/47] fix: BitBucket: count the bits of byte-aligned
 StoreBits8/16/32 (C++)

---
 compressor/delta/bit_bucket.h      | 3 +++
 compressor/delta_bohe/bit_bucket.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/compressor/delta/bit_bucket.h b/compressor/delta/bit_bucket.h
index b7bc2f9..646f2e5 100644
--- a/compressor/delta/bit_bucket.h
+++ b/compressor/delta/bit_bucket.h
@@ -135,6 +135,7 @@ class BitBucket {
   void StoreBits8(uint8_t val) {
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val));
+      num_bits += 8;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -147,6 +148,7 @@ class BitBucket {
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val >> 8));
       bsa.push_back(static_cast<uint8_t>(val & 255u));
+      num_bits += 16;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -165,6 +167,7 @@ class BitBucket {
       bsa.push_back(static_cast<uint8_t>(255u & (val >> 16)));
       bsa.push_back(static_cast<uint8_t>(255u & (val >>  8)));
       bsa.push_back(static_cast<uint8_t>(255u & (val >>  0)));
+      num_bits += 32;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
diff --git a/compressor/delta_bohe/bit_bucket.h b/compressor/delta_bohe/bit_bucket.h
index b7bc2f9..646f2e5 100644
--- a/compressor/delta_bohe/bit_bucket.h
+++ b/compressor/delta_bohe/bit_bucket.h
@@ -135,6 +135,7 @@ class BitBucket {
   void StoreBits8(uint8_t val) {
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val));
+      num_bits += 8;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -147,6 +148,7 @@ class BitBucket {
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val >> 8));
       bsa.push_back(static_cast<uint8_t>(val & 255u));
+      num_bits += 16;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -165,6 +167,7 @@ class BitBucket {
       bsa.push_back(static_cast<uint8_t>(255u & (val >> 16)));
       bsa.push_back(static_cast<uint8_t>(255u & (val >>  8)));
       bsa.push_back(static_cast<uint8_t>(255u & (val >>  0)));
+      num_bits += 32;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
-- 
2.43.0


From 132e5e9afbbb93ddac2e7a5432b1cc492441939d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:21 +0000
Subject: [PATCH 23/47] fix: delta2: building a Huffman code longer than 32
 bits terminates

Halving all weights leaves the tree as it was, so the loop that is to limit the
codes to 32 bits never ended (it stopped on an overflow of the divisor).  With a
floor the weights converge and the tree gets flatter, as in huffman.h.
---
 compressor/delta2/huffman.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/compressor/delta2/huffman.py b/compressor/delta2/huffman.py
index efcdc2c..175a004 100644
--- a/compressor/delta2/huffman.py
+++ b/compressor/delta2/huffman.py
@@ -52,7 +52,9 @@ class Huffman(object):
       (sym, freq) = elem
       if freq == 0:
         freq = 1.0/512
-      weight = freq * 1.0 / divisor
+      # The floor makes the weights converge as the divisor grows, which bounds
+      # the length of the codes.
+      weight = max(freq * 1.0 / divisor, 1.0/512)
       leaves.append( (weight, MN(sym), 0, []) )
 
     # freq_table is (symbol, count)
-- 
2.43.0


From dc013ca67713a894e7ae3a84e5ae46f6216c8fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:01 +0000
Subject: [PATCH 24/47] fix: bohe: StoreBits22 stores the 22 least significant
 bits

It stored 30 bits: the whole 32 bit number without its last two bits.
---
 compressor/bohe/bit_bucket.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/bohe/bit_bucket.py b/compressor/bohe/bit_bucket.py
index dec620b..c779815 100644
--- a/compressor/bohe/bit_bucket.py
+++ b/compressor/bohe/bit_bucket.py
@@ -63,8 +63,8 @@ class BitBucket:
     """
     Stores the 22 least-significant bits from val in network order (big endian)
     """
-    tmp_val = struct.pack(">I", val)
-    self.StoreBits ( (StrToList(tmp_val), 22))
+    tmp_val = struct.pack(">I", (val & 0x3fffff) << 10)
+    self.StoreBits( (StrToList(tmp_val)[:3], 22))
 
   def StoreBits32(self, val):
     """
-- 
2.43.0


From 79991752ec2177cfdcd5f1683e521d5350184f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:01 +0000
Subject: [PATCH 25/47] fix: BitBucket: GetBits refuses to read beyond the bits
 that remain (C++)

The check compared with the number of bits ever stored, so a read past the end
of a partly consumed bucket returned bytes from outside the buffer.
---
 compressor/delta/bit_bucket.h      | 2 +-
 compressor/delta_bohe/bit_bucket.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/bit_bucket.h b/compressor/delta/bit_bucket.h
index 646f2e5..607aed2 100644
--- a/compressor/delta/bit_bucket.h
+++ b/compressor/delta/bit_bucket.h
@@ -277,7 +277,7 @@ class BitBucket {
     size_t output_bytes = (num_bits + 7) / 8;
     retval->reserve(output_bytes);
     size_t old_idx_boff = idx_boff;
-    if (num_bits > NumBits()) {
+    if (num_bits > BitsRemaining()) {
       cerr << "Oops, we're asking to get more bits than are available.\n";
       cerr << "Bits available: " << BitsRemaining() << "\n";
       cerr << "Bits requested: " << num_bits << "\n";
diff --git a/compressor/delta_bohe/bit_bucket.h b/compressor/delta_bohe/bit_bucket.h
index 646f2e5..607aed2 100644
--- a/compressor/delta_bohe/bit_bucket.h
+++ b/compressor/delta_bohe/bit_bucket.h
@@ -277,7 +277,7 @@ class BitBucket {
     size_t output_bytes = (num_bits + 7) / 8;
     retval->reserve(output_bytes);
     size_t old_idx_boff = idx_boff;
-    if (num_bits > NumBits()) {
+    if (num_bits > BitsRemaining()) {
       cerr << "Oops, we're asking to get more bits than are available.\n";
       cerr << "Bits available: " << BitsRemaining() << "\n";
       cerr << "Bits requested: " << num_bits << "\n";
-- 
2.43.0


From 23c0c01fcaa54cdca99200c92be5caba262b7633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:01 +0000
Subject: [PATCH 26/47] fix: Huffman: a coder that is initialised again decodes
 with its new table (C++)

---
 compressor/delta/huffman.h      | 2 ++
 compressor/delta_bohe/huffman.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/compressor/delta/huffman.h b/compressor/delta/huffman.h
index 5bd71e8..bdcb23c 100644
--- a/compressor/delta/huffman.h
+++ b/compressor/delta/huffman.h
@@ -419,6 +419,8 @@ class Huffman {
     }
     sort(sorted_by_code.begin(), sorted_by_code.end());
 
+    decode_table.clear();
+    branches.clear();
     BuildDecodeHelper(sorted_by_code, &decode_table, &branches,
                       0, sorted_by_code.size(),
                       0, lookup_bits);
diff --git a/compressor/delta_bohe/huffman.h b/compressor/delta_bohe/huffman.h
index bb3bde6..5051e76 100644
--- a/compressor/delta_bohe/huffman.h
+++ b/compressor/delta_bohe/huffman.h
@@ -418,6 +418,8 @@ class Huffman {
     }
     sort(sorted_by_code.begin(), sorted_by_code.end());
 
+    decode_table.clear();
+    branches.clear();
     BuildDecodeHelper(sorted_by_code, &decode_table, &branches,
                       0, sorted_by_code.size(),
                       0, lookup_bits);
-- 
2.43.0


From e155973f49c798d6df89e1e771797a2d6bf6f7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:55 +0000
Subject: [PATCH 27/47] fix: BitBucket: shifting 32 bits into a word replaces
 it (C++)

A shift of a 32 bit word by 32 is undefined and left the old bits in place, so
text with a symbol whose Huffman code is 32 bits long could not be decoded.
---
 compressor/delta/bit_bucket.h      | 2 +-
 compressor/delta_bohe/bit_bucket.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/bit_bucket.h b/compressor/delta/bit_bucket.h
index 607aed2..d70e120 100644
--- a/compressor/delta/bit_bucket.h
+++ b/compressor/delta/bit_bucket.h
@@ -108,7 +108,7 @@ class BitBucket {
 
   // This is horribly inefficient.
   void ShiftBitsIntoWord(uint32_t* word, size_t num_bits) {
-    *word <<= num_bits;
+    *word = num_bits < 32 ? *word << num_bits : 0;
     size_t saved_idx_byte = idx_byte;
     size_t saved_idx_boff = idx_boff;
     uint32_t tmp_word = 0;
diff --git a/compressor/delta_bohe/bit_bucket.h b/compressor/delta_bohe/bit_bucket.h
index 607aed2..d70e120 100644
--- a/compressor/delta_bohe/bit_bucket.h
+++ b/compressor/delta_bohe/bit_bucket.h
@@ -108,7 +108,7 @@ class BitBucket {
 
   // This is horribly inefficient.
   void ShiftBitsIntoWord(uint32_t* word, size_t num_bits) {
-    *word <<= num_bits;
+    *word = num_bits < 32 ? *word << num_bits : 0;
     size_t saved_idx_byte = idx_byte;
     size_t saved_idx_boff = idx_boff;
     uint32_t tmp_word = 0;
-- 
2.43.0


From 703e92ce9cc29339732676dfa7e8f46ba0a95425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:34 +0000
Subject: [PATCH 28/47] fix: delta: store the default headers, not an opcode

The loop over the default headers used the variables of another loop, so the
storage started with 65 copies of an opcode name instead, and a header of that
name could not be sent: its key had an index nobody could look up.
---
 compressor/delta/spdy4_codec_impl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 41da906..0b1d755 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -662,10 +662,11 @@ class Storage(object):
     self.key_idx_to_ke = {}
 
     for (k, v) in g_default_kvs:
-      ke = self.FindKeyEntry(key)
+      ke = self.FindKeyEntry(k)
       if ke is None:
-        self.key_map[key] = ke = self.NewKE(key)
-      ke.val_map[val] = ve = self.NewVE(key, val, ke)
+        self.key_map[k] = ke = self.NewKE(k)
+        self.key_idx_to_ke[ke.key_idx] = ke
+      ke.val_map[v] = ve = self.NewVE(k, v, ke)
       ve.lru_idx = lru_idx = self.GetNextUnusedLruId()
       self.lru_idx_to_ve[lru_idx] = ve
       self.lru_ids.minimum_id = lru_idx
-- 
2.43.0


From 7014518164a233f10b3de0d46c3e17e3af394bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:35 +0000
Subject: [PATCH 29/47] fix: delta: keep the storage within max_byte_size

Values were never counted, keys were discounted without being removed, and making
room for bytes called a function that does not exist.
---
 compressor/delta/spdy4_codec_impl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 0b1d755..d72f073 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -689,7 +689,7 @@ class Storage(object):
       if not self.PopOne():
         return
     while self.state_size + space_required > self.max_state_size:
-      if not PopOne():
+      if not self.PopOne():
         return
 
   def FindKeyEntry(self, key): ####
@@ -733,6 +733,7 @@ class Storage(object):
     self.IncrementRefCnt(ke)
     self.MakeSpace(len(val), 1)
     self.num_vals += 1
+    self.state_size += len(val)
     ke.val_map[val] = ve = self.NewVE(key, val, ke)
     self.DecrementRefCnt(ke)
     return ve
@@ -791,6 +792,8 @@ class Storage(object):
     if not ke or len(ke.val_map) > 0 or ke.ref_cnt > 0:
       return
     self.state_size -= len(ke.key())
+    del self.key_map[ke.key()]
+    del self.key_idx_to_ke[ke.key_idx]
 
   def RemoveVal(self, ve): ####
     self.RemoveFromLRU(ve)
-- 
2.43.0


From c83e2bca1774b814e67691085db950874b17a574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:35 +0000
Subject: [PATCH 30/47] fix: delta: put no more than 256 operations in one list

All remaining operations were written after a count of 256, so the frame could
not be decoded.
---
 compressor/delta/spdy4_codec_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index d72f073..b443da8 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -407,7 +407,7 @@ class Spdy4SeDer(object):  # serializer deserializer
       data.StoreBits8(OpcodeToVal(opcode))
       data.StoreBits8(min(256, ops_to_go) - 1)
       orig_idx = ops_idx
-      for i in xrange(ops_to_go):
+      for i in xrange(iteration_end - orig_idx):
         try:
           self.WriteOpData(data, ops[orig_idx + i], huff)
         except:
-- 
2.43.0


From b1cbdc84b53093f4a248d440f162bfde70215980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:35 +0000
Subject: [PATCH 31/47] fix: delta: a renumbered entry stays in the group that
 uses it

The loop over the entry's groups overwrote the group it was to be added to.
---
 compressor/delta/spdy4_codec_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index b443da8..8832854 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -895,8 +895,8 @@ class Spdy4CoDe(object):
   def RenumberVELruIdx(self, ve, group_id):
     v_idx = ve.lru_idx
     removals = []
-    for group_id in ve.groups:
-      header_group = self.header_groups[group_id]
+    for old_group_id in ve.groups:
+      header_group = self.header_groups[old_group_id]
       header_group.RemoveEntry(v_idx)
     ve.groups.clear()
     ve.groups.add(group_id)
-- 
2.43.0


From fe19668e3014b00fed975980cb8da014002d2808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:15 +0000
Subject: [PATCH 32/47] fix: spdy3: header fields that are not ASCII

---
 compressor/spdy3/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/compressor/spdy3/__init__.py b/compressor/spdy3/__init__.py
index 1ee6074..9c6ac5e 100644
--- a/compressor/spdy3/__init__.py
+++ b/compressor/spdy3/__init__.py
@@ -41,9 +41,11 @@ class Processor(BaseProcessor):
 #    out_frame.append(struct.pack('!L', stream_id))
 #    out_frame.append(struct.pack('!L', num_kv_pairs))
     for (key, val) in request.items():
+      key = key.encode('utf-8')
+      val = val.encode('utf-8')
       out_frame.append(struct.pack('!L', len(key)))
-      out_frame.append(key.encode('ascii'))
+      out_frame.append(key)
       out_frame.append(struct.pack('!L', len(val)))
-      out_frame.append(val.encode('ascii'))
+      out_frame.append(val)
     return b''.join(out_frame)
 
-- 
2.43.0


From ca28c7c29ce987916fd68bdf9b89e2f4358eae32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:18 +0000
Subject: [PATCH 33/47] fix: bohe: look for the separator of values, not for
 the text \u00

---
 compressor/bohe/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/bohe/__init__.py b/compressor/bohe/__init__.py
index 33af40e..648eb6c 100644
--- a/compressor/bohe/__init__.py
+++ b/compressor/bohe/__init__.py
@@ -43,7 +43,7 @@ class Processor(BaseProcessor):
           data.StoreBit(1)
           dohuff = False
         # Set the multiple values flag...
-        if '\u00' in v:
+        if '\x00' in v:
           data.StoreBit(1)
         else:
           data.StoreBit(0)
@@ -59,7 +59,7 @@ class Processor(BaseProcessor):
         data.StoreBits8(128 | len(k))
         data.StoreBits((common_utils.StrToList(k), len(k)*8))
         data.StoreBit(0) # assume not binary value for now
-        if '\u00' in v:
+        if '\x00' in v:
           data.StoreBit(1)
         else:
           data.StoreBit(0)
-- 
2.43.0


From cddb7e41a6331728b49c58602f8803f397442b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:18 +0000
Subject: [PATCH 34/47] fix: delta2_bohe: drop the import of a function that is
 gone

---
 compressor/delta2_bohe/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta2_bohe/__init__.py b/compressor/delta2_bohe/__init__.py
index 4d3defd..9510e2c 100644
--- a/compressor/delta2_bohe/__init__.py
+++ b/compressor/delta2_bohe/__init__.py
@@ -9,7 +9,7 @@ import header_freq_tables
 import spdy4_codec_impl
 import huffman
 import common_utils
-from .. import BaseProcessor, strip_conn_headers
+from .. import BaseProcessor
 
 # There are a number of TODOS in the spdy4
 #      have near indices. Possibly renumber whever something is referenced)
@@ -72,7 +72,7 @@ class Processor(BaseProcessor):
     else:
       group_id = self.group_ids.GetNext()
       self.hosts[normalized_host] = group_id
-    inp_ops = self.compressor.MakeOperations(strip_conn_headers(inp_headers), group_id)
+    inp_ops = self.compressor.MakeOperations(inp_headers, group_id)
     inp_real_ops = self.compressor.OpsToRealOps(inp_ops, group_id)
     compressed_blob = self.compressor.Compress(inp_real_ops)
     return compressed_blob
-- 
2.43.0


From 05003d0d9b3cca67aae2a4b4e6352380e9163035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:18 +0000
Subject: [PATCH 35/47] fix: delta2_bohe: encode the headers of responses as
 those of responses

---
 compressor/delta2_bohe/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta2_bohe/__init__.py b/compressor/delta2_bohe/__init__.py
index 9510e2c..989b989 100644
--- a/compressor/delta2_bohe/__init__.py
+++ b/compressor/delta2_bohe/__init__.py
@@ -25,8 +25,8 @@ class Processor(BaseProcessor):
   """
   def __init__(self, options, is_request, params):
     # 'params' is ignored
-    self.compressor   = spdy4_codec_impl.Spdy4CoDe()
-    self.decompressor = spdy4_codec_impl.Spdy4CoDe()
+    self.compressor   = spdy4_codec_impl.Spdy4CoDe(is_request)
+    self.decompressor = spdy4_codec_impl.Spdy4CoDe(is_request)
     self.options = options
     self.hosts = {}
     self.group_ids = common_utils.IDStore(2**31)
-- 
2.43.0


From 3fea2f2a56de710810045e98e21050b6c1e79d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:18 +0000
Subject: [PATCH 36/47] fix: bohe encoders: keep the field names of no-cache
 and private

---
 compressor/bohe/bohe.py        | 2 +-
 compressor/delta2_bohe/bohe.py | 2 +-
 compressor/delta_bohe/bohe.py  | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/bohe/bohe.py b/compressor/bohe/bohe.py
index 2d0bbd9..e24f0f4 100644
--- a/compressor/bohe/bohe.py
+++ b/compressor/bohe/bohe.py
@@ -125,7 +125,7 @@ def enc_cachecontrol(val, typ='req'):
   else:
     encoded += enc_uvarint(valOrZero(parts,'s-maxage'))
     for prt in ['no-cache','private']:
-      if prt in parts and hasattr(parts[prt],'len') and len(parts[prt]) > 0:
+      if prt in parts and hasattr(parts[prt],'__len__') and len(parts[prt]) > 0:
         encoded += enc_uvarint(1)
         encoded += enc_uvarint(len(parts[prt]))
         encoded += parts[prt]
diff --git a/compressor/delta2_bohe/bohe.py b/compressor/delta2_bohe/bohe.py
index 2ab1698..3127ba7 100644
--- a/compressor/delta2_bohe/bohe.py
+++ b/compressor/delta2_bohe/bohe.py
@@ -170,7 +170,7 @@ class CacheControlEncoder(BaseEncoder):
     else:
       encoded += self.enc_uvarint(self.valOrZero(parts,'s-maxage'))
       for prt in ['no-cache','private']:
-        if prt in parts and hasattr(parts[prt],'len') and len(parts[prt]) > 0:
+        if prt in parts and hasattr(parts[prt],'__len__') and len(parts[prt]) > 0:
           encoded += self.enc_uvarint(1)
           encoded += self.enc_uvarint(len(parts[prt]))
           encoded += parts[prt]
diff --git a/compressor/delta_bohe/bohe.py b/compressor/delta_bohe/bohe.py
index 76a24d1..1b5141b 100644
--- a/compressor/delta_bohe/bohe.py
+++ b/compressor/delta_bohe/bohe.py
@@ -125,7 +125,7 @@ def enc_cachecontrol(val, typ='req'):
   else:
     encoded += enc_uvarint(valOrZero(parts,'s-maxage'))
     for prt in ['no-cache','private']:
-      if prt in parts and hasattr(parts[prt],'len') and len(parts[prt]) > 0:
+      if prt in parts and hasattr(parts[prt],'__len__') and len(parts[prt]) > 0:
         encoded += enc_uvarint(1)
         encoded += enc_uvarint(len(parts[prt]))
         encoded += parts[prt]
-- 
2.43.0


From 2094024e076478b2f8c6c648eafb9e15afe6de0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:18 +0000
Subject: [PATCH 37/47] fix: bohe encoders: a value that is not a number counts
 as 0

---
 compressor/bohe/bohe.py        | 6 +++++-
 compressor/delta2_bohe/bohe.py | 6 +++++-
 compressor/delta_bohe/bohe.py  | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/compressor/bohe/bohe.py b/compressor/bohe/bohe.py
index e24f0f4..b254d27 100644
--- a/compressor/bohe/bohe.py
+++ b/compressor/bohe/bohe.py
@@ -42,7 +42,11 @@ def enc_uvarint(val, typ='req'):
   v = ''
   for val in vals:
     # TODO: Determine best encoding for multiple null separated values...
-    val = max(0,int(val))  # TODO: should this be long?
+    try:
+      val = max(0,int(val))  # TODO: should this be long?
+    except ValueError:
+      # not a number... just set to 0 and move on, as enc_date does
+      val = 0
     shift = True
     while shift:
       shift = val >> 7
diff --git a/compressor/delta2_bohe/bohe.py b/compressor/delta2_bohe/bohe.py
index 3127ba7..f892ee7 100644
--- a/compressor/delta2_bohe/bohe.py
+++ b/compressor/delta2_bohe/bohe.py
@@ -41,7 +41,11 @@ class BaseEncoder(object):
     v = ''
     for val in vals:
       # TODO: Determine best encoding for multiple null separated values...
-      val = max(0,int(val))  # TODO: should this be long?
+      try:
+        val = max(0,int(val))  # TODO: should this be long?
+      except ValueError:
+        # not a number... just set to 0 and move on, as enc_date does
+        val = 0
       shift = True
       while shift:
         shift = val >> 7
diff --git a/compressor/delta_bohe/bohe.py b/compressor/delta_bohe/bohe.py
index 1b5141b..92d29e8 100644
--- a/compressor/delta_bohe/bohe.py
+++ b/compressor/delta_bohe/bohe.py
@@ -42,7 +42,11 @@ def enc_uvarint(val, typ='req'):
   v = ''
   for val in vals:
     # TODO: Determine best encoding for multiple null separated values...
-    val = max(0,int(val))  # TODO: should this be long?
+    try:
+      val = max(0,int(val))  # TODO: should this be long?
+    except ValueError:
+      # not a number... just set to 0 and move on, as enc_date does
+      val = 0
     shift = True
     while shift:
       shift = val >> 7
-- 
2.43.0


From e27b19ca005539d776085cfcebd2ba8d20969e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:07 +0000
Subject: [PATCH 38/47] fix: emit the toggles of the C++ SPDY4 codec

A lone toggle was never put into the list of toggles, so neither toggles
nor ranges of them were ever written; and a range read its first index
after removing it.
---
 compressor/delta/spdy4_headers_codec.cc      | 4 +++-
 compressor/delta_bohe/spdy4_headers_codec.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index 031533f..75c0c62 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -1032,16 +1032,18 @@ class InlineSerialization :
 
       if (!ot->empty()) {
         if ((idx - ot->back()) == 1) {
-          ot->pop_back();
           otr->push_back(make_pair(ot->back(), idx));
+          ot->pop_back();
           continue;
         }
       }
       if (!otr->empty()) {
         if ((idx - otr->back().second) == 1) {
           otr->back().second = idx;
+          continue;
         }
       }
+      ot->push_back(idx);
     }
   }
 
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index 031533f..75c0c62 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -1032,16 +1032,18 @@ class InlineSerialization :
 
       if (!ot->empty()) {
         if ((idx - ot->back()) == 1) {
-          ot->pop_back();
           otr->push_back(make_pair(ot->back(), idx));
+          ot->pop_back();
           continue;
         }
       }
       if (!otr->empty()) {
         if ((idx - otr->back().second) == 1) {
           otr->back().second = idx;
+          continue;
         }
       }
+      ot->push_back(idx);
     }
   }
 
-- 
2.43.0


From 08e4049a08ff68db9736e9844a93f0932af0f4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:07 +0000
Subject: [PATCH 39/47] fix: keep the index of a toggled entry in the C++ SPDY4
 codec

An entry that is toggled off may be evicted by the stores of the same
frame, before the toggles are written: the serializer then read the
index from freed memory.
---
 compressor/delta/spdy4_headers_codec.cc      | 7 ++++---
 compressor/delta_bohe/spdy4_headers_codec.cc | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index 75c0c62..0822922 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -520,10 +520,11 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
 
   struct ToggleOp {
     ValEntry* entry;
+    LRUIdx lru_idx;  // the entry may be gone when this is serialized.
    public:
-    explicit ToggleOp(ValEntry* kv) : entry(kv) { }
-    ToggleOp() : entry(0) {}
-    LRUIdx idx() const { return entry->lru_idx; }
+    explicit ToggleOp(ValEntry* kv) : entry(kv), lru_idx(kv->lru_idx) { }
+    ToggleOp() : entry(0), lru_idx(0) {}
+    LRUIdx idx() const { return lru_idx; }
     bool operator<(const ToggleOp& ob_b) const {
       return idx() < ob_b.idx();
     }
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index 75c0c62..0822922 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -520,10 +520,11 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
 
   struct ToggleOp {
     ValEntry* entry;
+    LRUIdx lru_idx;  // the entry may be gone when this is serialized.
    public:
-    explicit ToggleOp(ValEntry* kv) : entry(kv) { }
-    ToggleOp() : entry(0) {}
-    LRUIdx idx() const { return entry->lru_idx; }
+    explicit ToggleOp(ValEntry* kv) : entry(kv), lru_idx(kv->lru_idx) { }
+    ToggleOp() : entry(0), lru_idx(0) {}
+    LRUIdx idx() const { return lru_idx; }
     bool operator<(const ToggleOp& ob_b) const {
       return idx() < ob_b.idx();
     }
-- 
2.43.0


From eb1e346c9a7ef47db70724d96195c4aeacbac417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:07 +0000
Subject: [PATCH 40/47] fix: number the default entries of the C++ SPDY4 codec

They all had the index 0, so a toggle of one of them could not be told
from a toggle of any other.
---
 compressor/delta/spdy4_headers_codec.cc      | 3 +++
 compressor/delta_bohe/spdy4_headers_codec.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index 0822922..ce13a02 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -911,6 +911,9 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
       storage.AddToHeadOfLRU(entry);
       // add the entry to that group.
       SetHeaderGroupEntry(group_id, entry, true);
+    } else {
+      // default entries are not in the LRU, but can be toggled.
+      entry->lru_idx = storage.lru_ids.GetNext();
     }
   }
 
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index 0822922..ce13a02 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -911,6 +911,9 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
       storage.AddToHeadOfLRU(entry);
       // add the entry to that group.
       SetHeaderGroupEntry(group_id, entry, true);
+    } else {
+      // default entries are not in the LRU, but can be toggled.
+      entry->lru_idx = storage.lru_ids.GetNext();
     }
   }
 
-- 
2.43.0


From 29736495cc0486d06e254502a45ee52046821722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:07 +0000
Subject: [PATCH 41/47] fix: SetMaxVals of the C++ SPDY4 codec sets the number
 of values

It set the size of the state instead.
---
 compressor/delta/spdy4_headers_codec.cc      | 2 +-
 compressor/delta_bohe/spdy4_headers_codec.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index ce13a02..76d5a24 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -1302,5 +1302,5 @@ void SPDY4HeadersCodec::SetMaxStateSize(size_t size) {
 }
 
 void SPDY4HeadersCodec::SetMaxVals(size_t size) {
-  impl->SetMaxStateSize(size);
+  impl->SetMaxVals(size);
 }
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index ce13a02..76d5a24 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -1302,5 +1302,5 @@ void SPDY4HeadersCodec::SetMaxStateSize(size_t size) {
 }
 
 void SPDY4HeadersCodec::SetMaxVals(size_t size) {
-  impl->SetMaxStateSize(size);
+  impl->SetMaxVals(size);
 }
-- 
2.43.0


From 866ee38751cb8de599887c919e4c5713eb3a723e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:07 +0000
Subject: [PATCH 42/47] fix: stream ids above 32767 in the C++ SPDY4 codec

The stream id is a 31 bit number; the bit set in the frame and refused
in the id is the top bit of 32 bits, not that of 16.
---
 compressor/delta/spdy4_headers_codec.cc      | 6 +++---
 compressor/delta_bohe/spdy4_headers_codec.cc | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index 76d5a24..1a33c23 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -1212,13 +1212,13 @@ class InlineSerialization :
   }
 
   void WriteControlFrameStreamId(OutputStream* os, StreamId stream_id) {
-    if (stream_id & 0x8000U) {
+    if (stream_id & 0x80000000U) {
       abort(); // can't have that top-order bit set....
     }
 #ifdef BIT_ALIGNED
-    os->StoreBits32(0x8000U | stream_id);
+    os->StoreBits32(0x80000000U | stream_id);
 #else
-    os->StoreByteAlignedUint32(0x8000U | stream_id);
+    os->StoreByteAlignedUint32(0x80000000U | stream_id);
 #endif
   }
 };
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index 76d5a24..1a33c23 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -1212,13 +1212,13 @@ class InlineSerialization :
   }
 
   void WriteControlFrameStreamId(OutputStream* os, StreamId stream_id) {
-    if (stream_id & 0x8000U) {
+    if (stream_id & 0x80000000U) {
       abort(); // can't have that top-order bit set....
     }
 #ifdef BIT_ALIGNED
-    os->StoreBits32(0x8000U | stream_id);
+    os->StoreBits32(0x80000000U | stream_id);
 #else
-    os->StoreByteAlignedUint32(0x8000U | stream_id);
+    os->StoreByteAlignedUint32(0x80000000U | stream_id);
 #endif
   }
 };
-- 
2.43.0


From 2f384cfc7d7451e59ee2be8b3dfc1a925b4f8eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:53 +0000
Subject: [PATCH 43/47] fix: harness: compare with the headers that were handed
 to the codec

A codec that changes the dictionary it is given (say, takes a header out of
it) was compared with the changed one, so that what it lost went unnoticed.
---
 lib/processors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/processors.py b/lib/processors.py
index ec60907..ca602ed 100755
--- a/lib/processors.py
+++ b/lib/processors.py
@@ -122,7 +122,7 @@ class Processors(object):
       start_time = sum(os.times()[:2])
       filtered_hdrs = Processors.filter_headers(hdrs)
 
-      compressed = processor.compress(filtered_hdrs, host)
+      compressed = processor.compress(dict(filtered_hdrs), host)
       results[processor.name] = {
         'size': len(compressed),
         'time': sum(os.times()[:2]) - start_time
-- 
2.43.0


From 53077dce6ab1d1890f9268b65483cd2cfcaddb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:18 +0000
Subject: [PATCH 44/47] fix: SPDY/3 frame length counted the three bytes of the
 length field

---
 compressor/delta/spdy4_headers_sample.cc      | 2 +-
 compressor/delta_bohe/spdy4_headers_sample.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/spdy4_headers_sample.cc b/compressor/delta/spdy4_headers_sample.cc
index 78ed549..0a80c12 100644
--- a/compressor/delta/spdy4_headers_sample.cc
+++ b/compressor/delta/spdy4_headers_sample.cc
@@ -248,7 +248,7 @@ class SPDY3Formatter {
     FormatHeaderBlock(&to_be_compressed, frame);
     Compress(out, to_be_compressed);
     to_be_compressed.clear();
-    OverwriteInt24(out, length_pin, out->size() - length_pin);
+    OverwriteInt24(out, length_pin, out->size() - length_pin - 3);
   }
 };
 
diff --git a/compressor/delta_bohe/spdy4_headers_sample.cc b/compressor/delta_bohe/spdy4_headers_sample.cc
index eda6632..fe404ff 100644
--- a/compressor/delta_bohe/spdy4_headers_sample.cc
+++ b/compressor/delta_bohe/spdy4_headers_sample.cc
@@ -248,7 +248,7 @@ class SPDY3Formatter {
     FormatHeaderBlock(&to_be_compressed, frame);
     Compress(out, to_be_compressed);
     to_be_compressed.clear();
-    OverwriteInt24(out, length_pin, out->size() - length_pin);
+    OverwriteInt24(out, length_pin, out->size() - length_pin - 3);
   }
 };
 
-- 
2.43.0


From 67e9342f4529bd594ea862fe872c3be86f8f4a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:13 +0000
Subject: [PATCH 45/47] fix: simple codec with 'date' took other text for dates

A value that is not a date but reads as a hexadecimal number (Expires: 0,
Expires: -1, ...) was decoded as the date that many seconds after 1970, and
a day or time that does not exist (31 Feb, 24:00:00) came back as another
one.  Values that are not dates are now set off by a '!'.
---
 compressor/simple/__init__.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/compressor/simple/__init__.py b/compressor/simple/__init__.py
index c40106d..04260d2 100644
--- a/compressor/simple/__init__.py
+++ b/compressor/simple/__init__.py
@@ -5,6 +5,7 @@ from .. import BaseProcessor, format_http1, parse_http1
 from collections import defaultdict
 import re
 import calendar
+import time
 from email.utils import parsedate as lib_parsedate
 from email.utils import formatdate as lib_formatdate
 from urlparse import urlsplit
@@ -134,7 +135,7 @@ class Processor(BaseProcessor):
         try:
           value = "%x" % parse_date(value)
         except ValueError:
-          pass
+          value = "!%s" % value  # can't be mistaken for an encoded date
       headers[self.hdr_name(name)] = value
     self.last_c = in_headers
     if refs:
@@ -166,7 +167,7 @@ class Processor(BaseProcessor):
           try:
             out_headers[expanded_name] = format_date(int(headers[name], 16))
           except ValueError:
-            out_headers[expanded_name] = headers[name]
+            out_headers[expanded_name] = headers[name][1:]
         else:
           out_headers[expanded_name] = headers[name]
     if headers.has_key('ref') and self.last_d:
@@ -222,6 +223,8 @@ def parse_date(value):
         else:
             date_tuple = (date_tuple[0]+2000,)+date_tuple[1:]
     date = calendar.timegm(date_tuple)
+    if time.gmtime(date)[:6] != tuple(date_tuple[:6]):
+        raise ValueError # no such day or time
     return date
     
 def format_date(value):
-- 
2.43.0


From 53ce147507b10b1fa3a6a8c96ac7567c73f55fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:13 +0000
Subject: [PATCH 46/47] fix: display_tsv.html drew nothing when only one codec
 was measured

The stream names were taken from the second codec's column.
---
 display_tsv.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/display_tsv.html b/display_tsv.html
index a9a8212..c03de75 100644
--- a/display_tsv.html
+++ b/display_tsv.html
@@ -131,7 +131,7 @@ function display_tsv(filename, title) {
 
     // stream labels
     var lastLabel = null;
-    var streamLabels = items[1].values.forEach( function(i) {
+    var streamLabels = items[0].values.forEach( function(i) {
       if (lastLabel != i.stream) {
         svg.append("g")
           .attr("class", "note")
-- 
2.43.0


From fd5f29eda127e0a5b688021eb2d134d6b66da296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:52 +0000
Subject: [PATCH 47/47] fix: delta and delta2 lost header blocks that do not
 fit into one frame

Every frame was marked as the last one and carried the whole rest of the
payload, and the decoder read each frame's operations on its own.
---
 compressor/delta/spdy4_codec_impl.py  | 11 +++++++++--
 compressor/delta2/spdy4_codec_impl.py | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 8832854..6ef7231 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -490,11 +490,11 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'payload_len: ', payload_len
       bytes_to_consume = min(payload_len, bytes_allowed)
       #print 'bytes_to_consume: ', bytes_to_consume
-      end_of_frame = (bytes_to_consume <= payload_len)
+      end_of_frame = (payload_len <= bytes_allowed)
       #print 'end_of_Frame: ', end_of_frame
       self.WriteControlFrameBoilerplate(overall_bb, bytes_to_consume,
                                         end_of_frame, stream_id, group_id, 0x8)
-      overall_bb.StoreBits( (payload, bytes_to_consume*8))
+      overall_bb.StoreBits( (payload[:bytes_to_consume], bytes_to_consume*8))
       payload = payload[bytes_to_consume:]
       payload_len -= bytes_allowed
       if payload_len <= 0:
@@ -510,6 +510,7 @@ class Spdy4SeDer(object):  # serializer deserializer
     bb = BitBucket()
     bb.StoreBits(frame.GetAllBits())
     flags = 0
+    payload_bb = BitBucket()
     #print 'DeserializeInstructions'
     while flags == 0:
       frame_len = bb.GetBits16() * 8
@@ -522,6 +523,12 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'frame_type: ', frame_type
       group_id = bb.GetBits8()
       #print 'group_id: ', group_id
+      # the operations of one header block may span several frames
+      payload_bb.StoreBits( (bb.GetBits(frame_len)[0], frame_len) )
+      if flags == 0:
+        continue
+      bb = payload_bb
+      frame_len = bb.NumBits()
       while frame_len > 16:  # 16 bits minimum for the opcode + count...
         bits_remaining_at_start = bb.BitsRemaining()
         opcode_val = bb.GetBits8()
diff --git a/compressor/delta2/spdy4_codec_impl.py b/compressor/delta2/spdy4_codec_impl.py
index 6746055..740a2a5 100644
--- a/compressor/delta2/spdy4_codec_impl.py
+++ b/compressor/delta2/spdy4_codec_impl.py
@@ -600,13 +600,13 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'payload_len: ', payload_len
       bytes_to_consume = min(payload_len, bytes_allowed)
       #print 'bytes_to_consume: ', bytes_to_consume
-      end_of_frame = (bytes_to_consume <= payload_len)
+      end_of_frame = (payload_len <= bytes_allowed)
       #print 'end_of_Frame: ', end_of_frame
       self.WriteControlFrameBoilerplate(overall_bb, bytes_to_consume,
                                         end_of_frame, stream_id, group_id, 0x8)
       if verbose >= 5:
         descr.appendleft(FormatHex(overall_bb.GetAllBits()[0]))
-      overall_bb.StoreBits( (payload, bytes_to_consume*8))
+      overall_bb.StoreBits( (payload[:bytes_to_consume], bytes_to_consume*8))
       payload = payload[bytes_to_consume:]
       payload_len -= bytes_allowed
       if payload_len <= 0:
@@ -627,6 +627,7 @@ class Spdy4SeDer(object):  # serializer deserializer
     bb = BitBucket()
     bb.StoreBits(frame.GetAllBits())
     flags = 0
+    payload_bb = BitBucket()
     #print 'DeserializeInstructions'
     while flags == 0:
       frame_len = bb.GetBits16() * 8 # in bits
@@ -639,6 +640,12 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'stream_id: ', stream_id
       group_id = bb.GetBits8()
       #print 'group_id: ', group_id
+      # the operations of one header block may span several frames
+      payload_bb.StoreBits( (bb.GetBits(frame_len)[0], frame_len) )
+      if flags == 0:
+        continue
+      bb = payload_bb
+      frame_len = bb.NumBits()
       while frame_len > 8:
         bits_remaining_at_start = bb.BitsRemaining()
         try:
-- 
2.43.0

