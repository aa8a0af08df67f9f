From f0ebd087796101c7b741b6cdc628180ab84f2520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:57 +0000
Subject: [PATCH 01/26] fix: keep the stream in step when a request's sofa
 header is malformed

The body was left unread when decoding the header map failed, and was then
taken for the next frame's fixed header.
---
 anthunder/listener/aio_listener.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 106a43e..dc9a589 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -207,10 +207,12 @@ class AioListener(BaseListener):
                 bs = await reader.readexactly(header['header_len'])
                 logger.debug("received sofa header({})".format(bs))
 
-                sofa_header = SofaHeader.from_bytes(bs)
                 body = await reader.readexactly(header['content_len'])
                 logger.debug("received sofa body({})".format(body))
 
+                # the whole frame is consumed, a decode error from here on does not lose the frame boundary
+                sofa_header = SofaHeader.from_bytes(bs)
+
                 if cmdcode == CMDCODE.HEARTBEAT:
                     logger.info("received heartbeat, request_id={}".format(header['request_id']))
                     asyncio.ensure_future(
-- 
2.43.0


From c0971e192724020dfd4766adf36921e8d006f0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:17 +0000
Subject: [PATCH 02/26] fix: raise DecodeError for text that cannot be decoded
 in a sofa header

The UnicodeDecodeError escaped, and the server dropped the connection instead of
answering CODEC_EXCEPTION.
---
 anthunder/protocol/_sofa_header.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anthunder/protocol/_sofa_header.py b/anthunder/protocol/_sofa_header.py
index f253a76..a19875c 100644
--- a/anthunder/protocol/_sofa_header.py
+++ b/anthunder/protocol/_sofa_header.py
@@ -80,7 +80,10 @@ def _bytes_to_str(b, coding='utf-8'):
         if n > len(b):  # pragma: no cover
             # incomplete bytes
             raise DecodeError('decoding bytes to str failed, not enough length')
-        ret.append(b[4: n].decode(coding))
+        try:
+            ret.append(b[4: n].decode(coding))
+        except UnicodeDecodeError as e:
+            raise DecodeError('decoding bytes to str failed, {}'.format(e))
         b = b[n:]
 
     return ret
-- 
2.43.0


From c0ab9e46251feabc3ef84b086f2b6f6d1d298bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:19 +0000
Subject: [PATCH 03/26] fix: always answer a two-way request

No reply was sent when the service returned an empty result, when the result
could not be encoded, or when the trace context of the request was malformed.
---
 anthunder/listener/aio_listener.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index dc9a589..530a07e 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -135,9 +135,8 @@ class AioListener(BaseListener):
             logger.error("Missing method name in sofa header [{}]".format(sofa_header))
             return
 
-        spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
-
         try:
+            spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             future = self.handler.handle_request(spanctx, service, method, body)
         except NoProcessorError:
             await self._write_msg(writer,
@@ -163,14 +162,16 @@ class AioListener(BaseListener):
             await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.UNKNOWN).to_stream())
             return
 
-        if result:
-            header = dict()
-            tracer.inject(spanctx, opentracing.Format.TEXT_MAP, header)
-            pkg = BoltResponse.response_to(result, request_id=request_id)
-            try:
-                await self._write_msg(writer, pkg.to_stream())
-            except Exception:
-                logger.error(traceback.format_exc())
+        try:
+            # an empty result is a result too: a protobuf message with default values only is serialized to b''
+            msg = BoltResponse.response_to(result, request_id=request_id).to_stream()
+        except Exception:
+            logger.error(traceback.format_exc())
+            msg = FailResponse.response_to(request_id, RESPSTATUS.SERVER_SERIAL_EXCEPTION).to_stream()
+        try:
+            await self._write_msg(writer, msg)
+        except Exception:
+            logger.error(traceback.format_exc())
 
     async def _write_msg(self, writer, msg):
         await writer.drain()  # clean the buffer, avoid backpressure
-- 
2.43.0


From c25a63c97e2f0d83c939dc91720969a549705614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:21 +0000
Subject: [PATCH 04/26] fix: do not answer the previous request again when the
 connection ends

At the end of the stream a CONNECTION_CLOSED reply was written with the id of the
last frame, which had been or would be answered by its own task.
---
 anthunder/listener/aio_listener.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 530a07e..867e484 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -186,6 +186,7 @@ class AioListener(BaseListener):
         logger.info("connection created.")
         first_req = True
         while True:
+            header = None  # of the frame being read, there is nothing to answer before it is received
             try:
                 try:
                     fixed_header_bs = await reader.readexactly(BoltRequest.bolt_header_size())
-- 
2.43.0


From 25fa664509479b1ddb75942ef4a9d3675e915879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:04 +0000
Subject: [PATCH 05/26] fix: never answer a one-way request

The asyncio listener reported failures of one-way requests to their sender, the
threaded listener answered every one-way request.
---
 anthunder/listener/aio_listener.py  | 35 +++++++++++++----------------
 anthunder/listener/sock_listener.py | 17 +++++++++-----
 2 files changed, 28 insertions(+), 24 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 867e484..d68b746 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -124,14 +124,12 @@ class AioListener(BaseListener):
         """send request to handler"""
         service = sofa_header.get('sofa_head_target_service') or sofa_header.get('service')
         if not service:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+            await self._write_fail(writer, call_type, request_id, RESPSTATUS.CLIENT_SEND_ERROR)
             logger.error("Missing service name in sofa header [{}]".format(sofa_header))
             return
         method = sofa_header.get('sofa_head_method_name')
         if not method:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+            await self._write_fail(writer, call_type, request_id, RESPSTATUS.CLIENT_SEND_ERROR)
             logger.error("Missing method name in sofa header [{}]".format(sofa_header))
             return
 
@@ -139,12 +137,10 @@ class AioListener(BaseListener):
             spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             future = self.handler.handle_request(spanctx, service, method, body)
         except NoProcessorError:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.NO_PROCESSOR).to_stream())
+            await self._write_fail(writer, call_type, request_id, RESPSTATUS.NO_PROCESSOR)
             return
         except Exception:
-            await self._write_msg(writer,
-                                       FailResponse.response_to(request_id, RESPSTATUS.SERVER_EXCEPTION).to_stream())
+            await self._write_fail(writer, call_type, request_id, RESPSTATUS.SERVER_EXCEPTION)
             return
         if PTYPE.ONEWAY == call_type:
             # Just return future
@@ -155,11 +151,11 @@ class AioListener(BaseListener):
             result = await asyncio.wait_for(afut, timeout_ms / 1000 if timeout_ms > 0 else None)
         except (asyncio.CancelledError, asyncio.TimeoutError) as e:
             logger.error("Task run cancelled/timeout in {}ms, service:[{}]: error:[{}]".format(timeout_ms, service, e))
-            await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.TIMEOUT).to_stream())
+            await self._write_fail(writer, call_type, request_id, RESPSTATUS.TIMEOUT)
             return
         except Exception:
             logger.error(traceback.format_exc())
-            await self._write_msg(writer, FailResponse.response_to(request_id, RESPSTATUS.UNKNOWN).to_stream())
+            await self._write_fail(writer, call_type, request_id, RESPSTATUS.UNKNOWN)
             return
 
         try:
@@ -178,6 +174,12 @@ class AioListener(BaseListener):
         writer.write(msg)
         await writer.drain()
 
+    async def _write_fail(self, writer, call_type, request_id, status):
+        """report a failed request, unless its sender does not want any answer"""
+        if PTYPE.ONEWAY == call_type:
+            return
+        await self._write_msg(writer, FailResponse.response_to(request_id, status).to_stream())
+
     async def _handler_connection(self, reader, writer):
         """
         Full duplex model
@@ -232,22 +234,18 @@ class AioListener(BaseListener):
                                                      timeout_ms=header['timeout'], writer=writer))
             except ClientError as e:
                 logger.error(str(e) + " returning CLIENT_SEND_ERROR")
-                await self._write_msg(writer, FailResponse.response_to(header['request_id'],
-                                                                            RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
+                await self._write_fail(writer, header['ptype'], header['request_id'], RESPSTATUS.CLIENT_SEND_ERROR)
                 continue
 
             except ProtocolError as e:
                 logger.error(str(e) + " returning CODEC_EXCEPTION")
-                await self._write_msg(writer, FailResponse.response_to(header['request_id'],
-                                                                            RESPSTATUS.CODEC_EXCEPTION).to_stream())
+                await self._write_fail(writer, header['ptype'], header['request_id'], RESPSTATUS.CODEC_EXCEPTION)
                 continue
 
             except EOFError as e:
                 logger.warning("Connection closed by remote: {}".format(e))
                 try:
-                    await writer.drain()  # clean the buffer, avoid backpressure
-                    writer.write(FailResponse.response_to(header['request_id'],
-                                                          RESPSTATUS.CONNECTION_CLOSED).to_stream())
+                    await self._write_fail(writer, header['ptype'], header['request_id'], RESPSTATUS.CONNECTION_CLOSED)
                 except:
                     pass
                 try:
@@ -262,8 +260,7 @@ class AioListener(BaseListener):
                 logger.error("Unknow exception, close connection")
                 logger.error(traceback.format_exc())
                 try:
-                    await writer.drain()  # clean the buffer, avoid backpressure
-                    writer.write(FailResponse.response_to(header['request_id'], RESPSTATUS.UNKNOWN).to_stream())
+                    await self._write_fail(writer, header['ptype'], header['request_id'], RESPSTATUS.UNKNOWN)
                 except:
                     pass
                 try:
diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 5942867..80b2af0 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -30,7 +30,7 @@ from anthunder.command.fail_response import FailResponse
 from anthunder.command.heartbeat import HeartbeatResponse
 from anthunder.exceptions import ClientError
 from anthunder.protocol import BoltRequest, SofaHeader
-from anthunder.protocol.constants import CMDCODE, RESPSTATUS
+from anthunder.protocol.constants import PTYPE, CMDCODE, RESPSTATUS
 from anthunder.protocol import BoltResponse
 
 from .base_listener import BaseListener, BaseHandler, NoProcessorError
@@ -88,6 +88,13 @@ class SockBoltHandler(StreamRequestHandler):
             bs += self.rfile.read(bs_cnt - len(bs))
         return bs
 
+    def _write_fail(self, call_type, request_id, status):
+        """report a failed request, unless its sender does not want any answer"""
+        if PTYPE.ONEWAY == call_type:
+            return
+        self.wfile.write(FailResponse.response_to(request_id, status).to_stream())
+        self.wfile.flush()
+
     def handle(self):
         try:
             fixed_header_bs = self._readexactly(BoltRequest.bolt_header_size())
@@ -115,20 +122,20 @@ class SockBoltHandler(StreamRequestHandler):
 
             service = sofa_header.get('sofa_head_target_service') or sofa_header.get('service')
             if not service:
-                self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
-                self.wfile.flush()
+                self._write_fail(call_type, request_id, RESPSTATUS.CLIENT_SEND_ERROR)
                 logger.error("Missing service name in sofa header [{}]".format(sofa_header))
                 return
             method = sofa_header.get('sofa_head_method_name')
             if not method:
-                self.wfile.write(FailResponse.response_to(request_id, RESPSTATUS.CLIENT_SEND_ERROR).to_stream())
-                self.wfile.flush()
+                self._write_fail(call_type, request_id, RESPSTATUS.CLIENT_SEND_ERROR)
                 logger.error("Missing method name in sofa header [{}]".format(sofa_header))
                 return
 
             spanctx = tracer.extract(opentracing.Format.TEXT_MAP, sofa_header)
             # call servicehandler
             ret = self.service_handler.handle_request(spanctx, service, method, body)
+            if PTYPE.ONEWAY == call_type:
+                return
             self.wfile.write(BoltResponse.response_to(ret, request_id=request_id).to_stream())
             self.wfile.flush()
 
-- 
2.43.0


From d0568bd4fe7300de058c396c35a4b055fa699b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:06 +0000
Subject: [PATCH 06/26] fix: stop reading when the peer has closed the
 connection

A blocking read returns b'' for ever at the end of the stream: the threaded
listener, SocketConnection.recvexactly and Client.invoke_sync span in their read
loops (the latter beyond its deadline).
---
 anthunder/client/client.py          | 6 +++++-
 anthunder/listener/sock_listener.py | 5 ++++-
 mysockpool/connection.py            | 2 ++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index 46ab811..f4dbe72 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -126,7 +126,11 @@ class Client(_BaseClient):
                     c.close()
                     raise TimeoutError('Sync call timeout')
                 for key, event in ready:
-                    resp_bytes += key.fileobj.recv(total_size - len(resp_bytes))
+                    bs = key.fileobj.recv(total_size - len(resp_bytes))
+                    if not bs:
+                        c.close()
+                        raise ServerError("connection closed by remote")
+                    resp_bytes += bs
                 if not header and len(resp_bytes) >= total_size:
                     header = pkg.bolt_header_from_stream(resp_bytes)
                     body_size = header['class_len'] + header['header_len'] + header['content_len']
diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 80b2af0..18be2ec 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -85,7 +85,10 @@ class SockBoltHandler(StreamRequestHandler):
     def _readexactly(self, bs_cnt):
         bs = b''
         while len(bs) < bs_cnt:
-            bs += self.rfile.read(bs_cnt - len(bs))
+            chunk = self.rfile.read(bs_cnt - len(bs))
+            if not chunk:
+                raise EOFError("connection closed by remote")
+            bs += chunk
         return bs
 
     def _write_fail(self, call_type, request_id, status):
diff --git a/mysockpool/connection.py b/mysockpool/connection.py
index a7bc2a9..268a837 100644
--- a/mysockpool/connection.py
+++ b/mysockpool/connection.py
@@ -71,6 +71,8 @@ class SocketConnection(object):
         while read < size:
             wait_for_read(self.sock)
             bs = self.sock.recv(size - read)
+            if not bs:
+                raise EOFError("connection closed by remote")
             buf.write(bs)
             read += len(bs)
         return buf.getvalue()
-- 
2.43.0


From 2a05d6245abd89aaf1f1ca37afe331c82d60772e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:09 +0000
Subject: [PATCH 07/26] fix: send requests of the blocking client completely

send() on the non-blocking socket may accept only a part of a large request, and
sendall() raised BlockingIOError when it could not send everything at once.
---
 anthunder/client/client.py | 2 +-
 mysockpool/connection.py   | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index f4dbe72..240b276 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -73,7 +73,7 @@ class Client(_BaseClient):
             # try three times, to avoid connection failure
             try:
                 conn = self._get_pool(interface).get_conn()
-                conn.send(p.to_stream())
+                conn.sendall(p.to_stream())
             except SocketValueError as e:
                 logger.info("Call to interface {} failed, requiest_id: {}, "
                             "retried: {}, reason: {}".format(interface, p.request_id, i, e))
diff --git a/mysockpool/connection.py b/mysockpool/connection.py
index 268a837..7842be0 100644
--- a/mysockpool/connection.py
+++ b/mysockpool/connection.py
@@ -58,9 +58,12 @@ class SocketConnection(object):
         wait_for_write(self.sock)
         return self.sock.send(*args, **kw)
 
-    def sendall(self, *args, **kw):
-        wait_for_write(self.sock)
-        return self.sock.sendall(*args, **kw)
+    def sendall(self, data, *args):
+        """send everything, the (non blocking) socket may take only a part of data at a time"""
+        data = memoryview(data)
+        while data:
+            wait_for_write(self.sock)
+            data = data[self.sock.send(data, *args):]
 
     def recv(self, *args, **kw):
         return self.sock.recv(*args, **kw)
-- 
2.43.0


From a19374ed7fd8955597e6f7eb211ad81684334eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 08/26] fix: keep service registrations per listener

The registry was a class attribute shared by all handlers of the process, and a
second SockListener took over the handler of the first one.
---
 anthunder/listener/aio_listener.py  | 1 +
 anthunder/listener/base_listener.py | 8 +++++---
 anthunder/listener/sock_listener.py | 7 +++++--
 3 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index d68b746..2e34315 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -52,6 +52,7 @@ class AioThreadpoolRequestHandler(BaseHandler):
     MAX_WORKER = 30
 
     def __init__(self):
+        super(AioThreadpoolRequestHandler, self).__init__()
         self.executor = ThreadPoolExecutor(max_workers=self.MAX_WORKER)
         self.local = threading.local()
         self.lock = RLock()
diff --git a/anthunder/listener/base_listener.py b/anthunder/listener/base_listener.py
index a5e0ac3..79e05d3 100644
--- a/anthunder/listener/base_listener.py
+++ b/anthunder/listener/base_listener.py
@@ -40,9 +40,11 @@ class BaseService(object):
 
 class BaseHandler(object):
     """Handle bolt request"""
-    # stores interface:
-    #   "interface": (function, protobuf_cls)
-    interface_mapping = dict()
+
+    def __init__(self):
+        # stores interface:
+        #   "interface": (function, protobuf_cls)
+        self.interface_mapping = dict()
 
     def register_interface(self, interface, service_cls, *service_cls_args, **service_cls_kwargs):
         raise NotImplementedError()
diff --git a/anthunder/listener/sock_listener.py b/anthunder/listener/sock_listener.py
index 18be2ec..a4074b3 100644
--- a/anthunder/listener/sock_listener.py
+++ b/anthunder/listener/sock_listener.py
@@ -155,9 +155,12 @@ class SockListener(BaseListener):
 
     def __init__(self, *args, **kwargs):
         super(SockListener, self).__init__(*args, **kwargs)
+
         # inject service_handler
-        SockBoltHandler.service_handler = self.handler
-        self.server = ThreadingTCPServer(self.address, SockBoltHandler)
+        class ListenerBoltHandler(SockBoltHandler):
+            service_handler = self.handler
+
+        self.server = ThreadingTCPServer(self.address, ListenerBoltHandler)
 
     def run_forever(self):
         self.server.serve_forever()
-- 
2.43.0


From 7465134030d1af2530cb0f124d0cda7cfcda026a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 09/26] fix: count a new pooled connection in the same atomic
 step that checks the cap

The check was under the lock but the increment was not, so concurrent callers
could exceed max_connections and lose updates of the count.
---
 mysockpool/connection_pool.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 44ce63f..8cadef3 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -83,8 +83,8 @@ class ConnectionPool(object):
                 raise EmptyPoolError(self,
                                      "Pool reached maximum size and no more "
                                      "connections are allowed.")
+            self.num_connections += 1
 
-        self.num_connections += 1
         log.debug("Starting new connection (%d): %r",
                   self.num_connections, self.pool_key)
 
-- 
2.43.0


From ad4eea953fbb1fd9ce89d91d90cfb51e23577b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:49 +0000
Subject: [PATCH 10/26] fix: return or discard every pooled connection exactly
 once

Connections of timed out, broken or unsent calls were dropped without correcting
the pool's count (after max_connections failures no call was possible any more),
or were put back although their response was still to come. A failed send was
ignored and the call waited for a response in vain.
---
 anthunder/client/client.py    | 87 +++++++++++++++++++----------------
 mysockpool/connection_pool.py | 19 ++++++--
 2 files changed, 62 insertions(+), 44 deletions(-)

diff --git a/anthunder/client/client.py b/anthunder/client/client.py
index 240b276..dedef8c 100644
--- a/anthunder/client/client.py
+++ b/anthunder/client/client.py
@@ -32,7 +32,7 @@ except ImportError:
 from mysockpool import PoolManager
 from mysockpool.exceptions import SocketValueError
 
-from anthunder.exceptions import ServerError
+from anthunder.exceptions import ClientError, ServerError
 from anthunder.helpers.singleton import Singleton
 from anthunder.protocol import BoltResponse, BoltRequest, SofaHeader
 from anthunder.protocol.constants import PTYPE, RESPSTATUS
@@ -69,32 +69,35 @@ class Client(_BaseClient):
         header = SofaHeader.build_header(spanctx, interface, method_name, target_app=target_app, uid=uid,
                                          **sofa_headers_extra)
         p = BoltRequest.new_request(header, content, timeout_ms=timeout_ms or -1, ptype=bolt_ptype)
+        msg = p.to_stream()
+        pool = self._get_pool(interface)
         for i in range(3):
             # try three times, to avoid connection failure
+            conn = pool.get_conn()
             try:
-                conn = self._get_pool(interface).get_conn()
-                conn.sendall(p.to_stream())
+                conn.sendall(msg)
             except SocketValueError as e:
+                pool.discard_conn(conn)
                 logger.info("Call to interface {} failed, requiest_id: {}, "
                             "retried: {}, reason: {}".format(interface, p.request_id, i, e))
                 continue
             except Exception as e:
+                pool.discard_conn(conn)
                 logger.error("Call to interface {} failed, requiest_id: {}, "
                              "retried: {}, reason: {}".format(interface, p.request_id, i, e))
-                break
-            else:
-                break
-        logger.debug("Called interface {}, request_id: {}".format(interface, p.request_id))
-        return p.request_id, conn
+                raise
+            logger.debug("Called interface {}, request_id: {}".format(interface, p.request_id))
+            return p.request_id, conn, pool
+        raise ClientError("send request failed.")
 
     def _get_pool(self, interface):
         return PoolManager().connection_pool_from_pool_key(
             PoolManager.PoolCls.ConnectionCls.PoolKeyCls(*self._get_address(interface)))
 
     def invoke_oneway(self, interface, method_name, content, spanctx=None, target_app="", uid=""):
-        _, c = self._raw_invoke(interface, method_name, content, target_app=target_app, uid=uid,
-                                spanctx=spanctx, bolt_ptype=PTYPE.ONEWAY)
-        self._get_pool(interface).put_conn(c)
+        _, c, pool = self._raw_invoke(interface, method_name, content, target_app=target_app, uid=uid,
+                                      spanctx=spanctx, bolt_ptype=PTYPE.ONEWAY)
+        pool.put_conn(c)
 
     def invoke_sync(self, interface, method_name, content, spanctx=None, target_app="", uid="", timeout_ms=None):
         """
@@ -111,35 +114,39 @@ class Client(_BaseClient):
         assert isinstance(timeout_ms, (int, float))
         pkg = BoltResponse
         deadline = time.time() + timeout_ms / 1000 + 1
-        req_id, c = self._raw_invoke(interface, method_name, content, target_app=target_app, uid=uid,
-                                     spanctx=spanctx, timeout_ms=timeout_ms)
-
-        with DefaultSelector() as sel:
-            sel.register(c, EVENT_READ)
-            total_size = pkg.bolt_header_size()
-            resp_bytes = b''
-            header = None
-            while len(resp_bytes) < total_size:
-                ready = sel.select(timeout=deadline - time.time())
-                if not ready:
-                    # timeout
-                    c.close()
-                    raise TimeoutError('Sync call timeout')
-                for key, event in ready:
-                    bs = key.fileobj.recv(total_size - len(resp_bytes))
-                    if not bs:
-                        c.close()
-                        raise ServerError("connection closed by remote")
-                    resp_bytes += bs
-                if not header and len(resp_bytes) >= total_size:
-                    header = pkg.bolt_header_from_stream(resp_bytes)
-                    body_size = header['class_len'] + header['header_len'] + header['content_len']
-                    total_size += body_size
-        self._get_pool(interface).put_conn(c)
-
-        resp = pkg.bolt_content_from_stream(resp_bytes[pkg.bolt_header_size():], header)
-        if resp.request_id != req_id:
-            raise ServerError("RequestId not match")
+        req_id, c, pool = self._raw_invoke(interface, method_name, content, target_app=target_app, uid=uid,
+                                           spanctx=spanctx, timeout_ms=timeout_ms)
+
+        try:
+            with DefaultSelector() as sel:
+                sel.register(c, EVENT_READ)
+                total_size = pkg.bolt_header_size()
+                resp_bytes = b''
+                header = None
+                while len(resp_bytes) < total_size:
+                    ready = sel.select(timeout=deadline - time.time())
+                    if not ready:
+                        # timeout
+                        raise TimeoutError('Sync call timeout')
+                    for key, event in ready:
+                        bs = key.fileobj.recv(total_size - len(resp_bytes))
+                        if not bs:
+                            raise ServerError("connection closed by remote")
+                        resp_bytes += bs
+                    if not header and len(resp_bytes) >= total_size:
+                        header = pkg.bolt_header_from_stream(resp_bytes)
+                        body_size = header['class_len'] + header['header_len'] + header['content_len']
+                        total_size += body_size
+
+            resp = pkg.bolt_content_from_stream(resp_bytes[pkg.bolt_header_size():], header)
+            if resp.request_id != req_id:
+                raise ServerError("RequestId not match")
+        except BaseException:
+            # the response may still arrive on this connection, it is of no use any more
+            pool.discard_conn(c)
+            raise
+        pool.put_conn(c)
+
         if resp.respstatus != RESPSTATUS.SUCCESS:
             raise ServerError.from_statuscode(resp.respstatus)
         return resp.content
diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 8cadef3..fe5c7b2 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -88,7 +88,12 @@ class ConnectionPool(object):
         log.debug("Starting new connection (%d): %r",
                   self.num_connections, self.pool_key)
 
-        conn = self.ConnectionCls(self.pool_key)
+        try:
+            conn = self.ConnectionCls(self.pool_key)
+        except Exception:
+            with self._lock:
+                self.num_connections -= 1
+            raise
         return conn
 
     def get_conn(self, timeout=None):
@@ -154,12 +159,18 @@ class ConnectionPool(object):
             log.warning(
                 "Connection pool is full, discarding connection: %s",
                 self.pool_key)
-            with self._lock:
-                self.num_connections -= 1
 
         # Connection never got put back into the pool, close it.
         if conn:
-            conn.close()
+            self.discard_conn(conn)
+
+    def discard_conn(self, conn):
+        """
+        Close a connection got from this pool that must not be used again.
+        """
+        conn.close()
+        with self._lock:
+            self.num_connections -= 1
 
     def close(self):
         """
-- 
2.43.0


From ba2d7e8c6be3b8538fde1b5abb64a9a83d3999e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:26 +0000
Subject: [PATCH 11/26] fix: send one-way calls of the asyncio client as
 one-way

---
 anthunder/client/aio_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 3fef513..0519c56 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -73,7 +73,7 @@ class AioClient(_BaseClient):
 
     def invoke_oneway(self, interface, method, content, *, spanctx, **headers):
         header = SofaHeader.build_header(spanctx, interface, method, **headers)
-        pkg = BoltRequest.new_request(header, content, timeout_ms=-1)
+        pkg = BoltRequest.new_request(header, content, ptype=PTYPE.ONEWAY, timeout_ms=-1)
         asyncio.run_coroutine_threadsafe(self.invoke(pkg), loop=self._loop)
 
     def invoke_sync(self, interface, method, content, *, spanctx, timeout_ms, **headers):
-- 
2.43.0


From 9922e14effc6804c20897238ec1a29bf38c9e2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:28 +0000
Subject: [PATCH 12/26] fix: complete every answered call of the asyncio client
 with its outcome

A heartbeat ack, a failure response or an undecodable one woke the caller
without storing anything (KeyError), or did not wake it at all; a failed send
was reported as AttributeError; a call that timed out left its entries behind.
---
 anthunder/client/aio_client.py | 47 +++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 21 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 0519c56..55fb011 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -34,7 +34,7 @@ except ImportError:
 from concurrent.futures import TimeoutError, CancelledError
 
 from anthunder.command.heartbeat import HeartbeatRequest
-from anthunder.exceptions import PyboltError, ServerError
+from anthunder.exceptions import PyboltError, ClientError, ServerError
 from anthunder.helpers.singleton import Singleton
 from anthunder.protocol import SofaHeader, BoltRequest, BoltResponse
 from anthunder.protocol.constants import PTYPE, CMDCODE, RESPSTATUS
@@ -86,6 +86,7 @@ class AioClient(_BaseClient):
             ret = fut.result(timeout=timeout_ms / 1000)
         except (TimeoutError, CancelledError) as e:
             logger.error("call to [{}:{}] timeout/cancelled. {}".format(interface, method, e))
+            fut.cancel()  # nobody is interested in the response any more
             raise
         return ret.content
 
@@ -167,12 +168,22 @@ class AioClient(_BaseClient):
         address = address or self._get_address(request.header['service'])
         logger.debug("invoke to address: {}".format(address))
 
-        event = await self._send_request(request, address=address)
-        if event is None:
-            logger.debug("no related event, should be a async/oneway call, return now")
-            return
-        await event.wait()
-        return self.response_mapping.pop(request.request_id)
+        try:
+            event = await self._send_request(request, address=address)
+            if event is None:
+                logger.debug("no related event, should be a async/oneway call, return now")
+                return
+            await event.wait()
+            resp = self.response_mapping.get(request.request_id)
+        finally:
+            # the call is over, a response that is still to come is dropped
+            self.request_mapping.pop(request.request_id, None)
+            self.response_mapping.pop(request.request_id, None)
+        if resp is None:
+            raise ClientError("no valid response of request {}".format(request.request_id))
+        if request.cmdcode != CMDCODE.HEARTBEAT and resp.respstatus != RESPSTATUS.SUCCESS:
+            raise ServerError.from_statuscode(resp.respstatus)
+        return resp
 
     async def _send_request(self, request: BoltRequest, *, address):
         """
@@ -199,23 +210,20 @@ class AioClient(_BaseClient):
                 await _send(retry - 1)
 
         # generate event object first, ensure every successfully sent request has a event
-        self.request_mapping[request.request_id] = asyncio.Event()
+        event = self.request_mapping[request.request_id] = asyncio.Event()
         try:
             await _send()
         except PyboltError:
             logger.error("failed to send request {}".format(request.request_id))
-            self.request_mapping.pop(request.request_id)
-            return
+            raise
         except Exception:
             logger.error(traceback.format_exc())
-            self.request_mapping.pop(request.request_id)
-            return
+            raise
 
         if request.ptype == PTYPE.ONEWAY:
-            self.request_mapping.pop(request.request_id)
             return
 
-        return self.request_mapping[request.request_id]
+        return event
 
     async def _recv_response(self, reader, writer):
         """
@@ -224,21 +232,18 @@ class AioClient(_BaseClient):
         :return:
         """
         while True:
-            pkg = None
+            request_id = None
             try:
                 fixed_header_bs = await reader.readexactly(BoltResponse.bolt_header_size())
                 header = BoltResponse.bolt_header_from_stream(fixed_header_bs)
                 bs = await reader.readexactly(header['class_len'] + header['header_len'] + header['content_len'])
+                request_id = header['request_id']  # to be woken up whatever the response contains
                 pkg = BoltResponse.bolt_content_from_stream(bs, header)
                 if pkg.class_name != BoltResponse.class_name:
                     raise ServerError("wrong class_name:[{}]".format(pkg.class_name))
-                if pkg.cmdcode == CMDCODE.HEARTBEAT:
-                    continue
-                elif pkg.cmdcode == CMDCODE.REQUEST:
+                if pkg.cmdcode == CMDCODE.REQUEST:
                     # raise error, the connection will be dropped
                     raise ServerError("wrong cmdcode:[{}]".format(pkg.cmdcode))
-                if pkg.respstatus != RESPSTATUS.SUCCESS:
-                    raise ServerError.from_statuscode(pkg.respstatus)
                 if pkg.request_id not in self.request_mapping:
                     continue
                 self.response_mapping[pkg.request_id] = pkg
@@ -256,5 +261,5 @@ class AioClient(_BaseClient):
             finally:
                 with suppress(AttributeError, KeyError):
                     # wake up the coro
-                    event = self.request_mapping.pop(pkg.request_id)
+                    event = self.request_mapping.pop(request_id)
                     event.set()
-- 
2.43.0


From affd29a3775f59a9f3b76c4ff77f9fad6e58fbc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:52 +0000
Subject: [PATCH 13/26] fix: keep send failures of the asyncio client local to
 their connection

The failing request dropped whatever connection (and dial lock) was registered
for the address at that time, and a request that can't be encoded took the
shared connection down with it.
---
 anthunder/client/aio_client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 55fb011..30d740f 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -193,6 +193,7 @@ class AioClient(_BaseClient):
         :return:
         """
         assert isinstance(request, BoltRequest)
+        msg = request.to_stream()  # a request that can't be encoded must not affect the connection
 
         async def _send(retry=3):
             if retry <= 0:
@@ -200,13 +201,14 @@ class AioClient(_BaseClient):
             readtask, writer = await self._get_connection(address)
             try:
                 await writer.drain()  # avoid back pressure
-                writer.write(request.to_stream())
+                writer.write(msg)
                 await writer.drain()
             except Exception as e:
                 logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
                 readtask.cancel()
-                self.connection_mapping.pop(address)
-                self._pending_dial.pop(address)
+                # only this very connection, another request may have dialed a new one already
+                if self.connection_mapping.get(address) == (readtask, writer):
+                    self.connection_mapping.pop(address)
                 await _send(retry - 1)
 
         # generate event object first, ensure every successfully sent request has a event
-- 
2.43.0


From df89293d3f2fc114bf085361ad28524b63985f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:54 +0000
Subject: [PATCH 14/26] fix: wake the calls pending on a lost connection of the
 asyncio client

---
 anthunder/client/aio_client.py | 34 ++++++++++++++++++++++++++++------
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index 30d740f..deb3feb 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -53,6 +53,7 @@ class AioClient(_BaseClient):
         self._loop = asyncio.new_event_loop()
         self.request_mapping = dict()  # request_id: event
         self.response_mapping = dict()  # request_id: response_pkg
+        self.inflight_mapping = dict()  # request_id: writer of the connection carrying the request
         self.connection_mapping = dict()  # address: (reader_coro, writer)
         self.loop_thread = self._init()
         self._pending_dial = dict()  # address: (asyncio.Lock)
@@ -154,7 +155,7 @@ class AioClient(_BaseClient):
                     return self.connection_mapping[address]
 
                 reader, writer = await asyncio.open_connection(*address)
-                task = asyncio.ensure_future(self._recv_response(reader, writer))
+                task = asyncio.ensure_future(self._recv_response(reader, writer, address))
                 return self.connection_mapping.setdefault(address, (task, writer))
         except Exception as e:
             logger.error("Get connection of {} failed: {}".format(address, e))
@@ -179,6 +180,7 @@ class AioClient(_BaseClient):
             # the call is over, a response that is still to come is dropped
             self.request_mapping.pop(request.request_id, None)
             self.response_mapping.pop(request.request_id, None)
+            self.inflight_mapping.pop(request.request_id, None)
         if resp is None:
             raise ClientError("no valid response of request {}".format(request.request_id))
         if request.cmdcode != CMDCODE.HEARTBEAT and resp.respstatus != RESPSTATUS.SUCCESS:
@@ -199,22 +201,26 @@ class AioClient(_BaseClient):
             if retry <= 0:
                 raise PyboltError("send request failed.")
             readtask, writer = await self._get_connection(address)
+            # generate event object first, ensure every successfully sent request has a event,
+            # which is set by the response or by the loss of the connection
+            event = self.request_mapping[request.request_id] = asyncio.Event()
+            self.inflight_mapping[request.request_id] = writer
             try:
                 await writer.drain()  # avoid back pressure
                 writer.write(msg)
                 await writer.drain()
             except Exception as e:
                 logger.error("Request sent to {} failed: {}, may try again.".format(address, e))
+                self.inflight_mapping.pop(request.request_id)
                 readtask.cancel()
                 # only this very connection, another request may have dialed a new one already
                 if self.connection_mapping.get(address) == (readtask, writer):
                     self.connection_mapping.pop(address)
-                await _send(retry - 1)
+                return await _send(retry - 1)
+            return event
 
-        # generate event object first, ensure every successfully sent request has a event
-        event = self.request_mapping[request.request_id] = asyncio.Event()
         try:
-            await _send()
+            event = await _send()
         except PyboltError:
             logger.error("failed to send request {}".format(request.request_id))
             raise
@@ -227,7 +233,23 @@ class AioClient(_BaseClient):
 
         return event
 
-    async def _recv_response(self, reader, writer):
+    async def _recv_response(self, reader, writer, address):
+        """
+        receive responses until the connection is lost, than notify the invoke coros still waiting on it
+        :param reader:
+        :return:
+        """
+        try:
+            await self._recv_loop(reader, writer)
+        finally:
+            conn = self.connection_mapping.get(address)
+            if conn is not None and conn[1] is writer:
+                self.connection_mapping.pop(address)
+            for request_id, w in list(self.inflight_mapping.items()):
+                if w is writer and request_id in self.request_mapping:
+                    self.request_mapping.pop(request_id).set()
+
+    async def _recv_loop(self, reader, writer):
         """
         wait response and put it in response_mapping, than notify the invoke coro
         :param reader:
-- 
2.43.0


From bc7fcb19c1c6ef6ce69abb367c9bf638edaa1ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 15/26] fix: keep the heartbeats of the asyncio client running
 after a failed one

---
 anthunder/client/aio_client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/anthunder/client/aio_client.py b/anthunder/client/aio_client.py
index deb3feb..6bb6545 100644
--- a/anthunder/client/aio_client.py
+++ b/anthunder/client/aio_client.py
@@ -124,7 +124,11 @@ class AioClient(_BaseClient):
         """Invoke heartbeat periodly"""
         while True:
             await asyncio.sleep(interval)
-            await self.invoke_heartbeat(address)
+            try:
+                await asyncio.wait_for(self.invoke_heartbeat(address), interval)
+            except Exception as e:
+                # the next one may be answered
+                logger.error("heartbeat to {} failed: {!r}".format(address, e))
 
     async def invoke_heartbeat(self, address):
         """
-- 
2.43.0


From b3a07a33f4977712b54a7710204225f111fef4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:27 +0000
Subject: [PATCH 16/26] fix: close the server of the asyncio listener on its
 loop thread

---
 anthunder/listener/aio_listener.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 2e34315..191bd42 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -118,8 +118,12 @@ class AioListener(BaseListener):
         """quit the server loop"""
         logger.info("Aio Listener shutting down")
         if self._loop and self._server:
-            self._server.close()
-            asyncio.run_coroutine_threadsafe(self._server.wait_closed(), self._loop)
+            asyncio.run_coroutine_threadsafe(self._close_server(), self._loop)
+
+    async def _close_server(self):
+        """runs on the loop thread, the server object must not be touched by others"""
+        self._server.close()
+        await self._server.wait_closed()
 
     async def _dispatch(self, call_type, request_id, sofa_header, body, *, timeout_ms, writer):
         """send request to handler"""
-- 
2.43.0


From 5c2009c758d4a501a93c52d4b60f3ce7f7591454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:29 +0000
Subject: [PATCH 17/26] fix: accept fractional timeouts

The clients take an int or float timeout_ms, the frame field is an integer:
every call with a float timeout failed with EncodeError.
---
 anthunder/protocol/_request_pkg.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anthunder/protocol/_request_pkg.py b/anthunder/protocol/_request_pkg.py
index 91796b5..2cb35ea 100644
--- a/anthunder/protocol/_request_pkg.py
+++ b/anthunder/protocol/_request_pkg.py
@@ -48,4 +48,4 @@ class BoltRequest(BoltPackage):
     @classmethod
     def new_request(cls, header, content, ptype=PTYPE.REQUEST, timeout_ms=None):
         return cls(header, content, ptype=ptype, cmdcode=CMDCODE.REQUEST,
-                   request_id=next(RequestId), timeout=timeout_ms or -1)
+                   request_id=next(RequestId), timeout=int(timeout_ms or -1))
-- 
2.43.0


From dfd3912cf9e3746ef792f4129e7b3b3c16775ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:31 +0000
Subject: [PATCH 18/26] fix: give every span derived from a parent its own rpc
 id

Following two children (or one child twice) produced ids already in use, and
concurrent derivations could read the same counter value.
---
 mytracer/_rpc_id.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mytracer/_rpc_id.py b/mytracer/_rpc_id.py
index 07a7877..ce1e6dc 100644
--- a/mytracer/_rpc_id.py
+++ b/mytracer/_rpc_id.py
@@ -21,9 +21,12 @@
    Change Activity:
         version0 : 2018/5/28 14:59 by jiaqi.hjq  init
 """
+import threading
 
 
 class RpcId(object):
+    _lock = threading.Lock()  # guards _child_count, spans may be derived from many threads
+
     def __init__(self, *rpcids):
         """
         span id, represented as `a.b.c...`, where `a`, `b`, `c` are numbers.
@@ -60,18 +63,18 @@ class RpcId(object):
         return cls(*new_ids)
 
     def _new_child_of(self):
-        self._child_count += 1
-        obj = self.extend_id(self.rpcids, self._child_count)
+        with self._lock:
+            self._child_count += 1
+            child = self._child_count
+        obj = self.extend_id(self.rpcids, child)
         obj._parent = self  # attach a link to parent rpcId
         return obj
 
     def _new_follows_from(self):
-        obj = self.extend_id(self.rpcids[:-1], self.rpcids[-1] + 1)
         if self._parent:
             # a follows up span is a sibling span, means it is a child span of parent
-            self._parent._child_count += 1
-            obj._parent = self._parent
-        return obj
+            return self._parent._new_child_of()
+        return self.extend_id(self.rpcids[:-1], self.rpcids[-1] + 1)
 
     def new_by_reference_type(self, ref_type):
         return getattr(self, '_new_' + ref_type)()
-- 
2.43.0


From aa97d9457971f9f232de25d85e559b0c22a33e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:34 +0000
Subject: [PATCH 19/26] fix: start_span accepts tags

---
 mytracer/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mytracer/tracer.py b/mytracer/tracer.py
index 025a8c8..371f61a 100644
--- a/mytracer/tracer.py
+++ b/mytracer/tracer.py
@@ -96,7 +96,7 @@ class MyTracer(opentracing.Tracer):
         span.set_operation_name(operation_name)
 
         _tags = tags or dict()
-        for k, v in _tags:
+        for k, v in _tags.items():
             span.set_tag(k, v)
         if start_time:
             span.set_start_time(start_time)
-- 
2.43.0


From 4cff02bab72839f34611efd05644f0cb110c84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:36 +0000
Subject: [PATCH 20/26] fix: do not keep every request id ever drawn

---
 anthunder/helpers/request_id.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anthunder/helpers/request_id.py b/anthunder/helpers/request_id.py
index ae66650..e079317 100644
--- a/anthunder/helpers/request_id.py
+++ b/anthunder/helpers/request_id.py
@@ -19,10 +19,10 @@
 """
 import logging
 from random import randint
-from itertools import cycle, chain
+from itertools import count
 
 logger = logging.getLogger(__name__)
 
 _max = 0x7fffffff  # 4 bytes signed int
 _start = randint(0, _max)
-RequestId = cycle(chain(range(_start, _max + 1), range(0, _start)))
+RequestId = map(lambda i: i & _max, count(_start))  # not a cycle(), which keeps all the ids it has ever returned
-- 
2.43.0


From bff88c9929d6fd3758b248458f55f06b7b19a1c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:13 +0000
Subject: [PATCH 21/26] fix: report a failing service factory as a server
 exception

An AttributeError raised by the service's constructor was answered with
NO_PROCESSOR, as if the interface had no such method.
---
 anthunder/listener/aio_listener.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anthunder/listener/aio_listener.py b/anthunder/listener/aio_listener.py
index 191bd42..d17517d 100644
--- a/anthunder/listener/aio_listener.py
+++ b/anthunder/listener/aio_listener.py
@@ -65,8 +65,8 @@ class AioThreadpoolRequestHandler(BaseHandler):
         except KeyError as e:
             logger.error("Service not found in interface registry: [{}]".format(service))
             raise NoProcessorError("Service not found in interface registry: [{}]".format(service)) from e
+        svc_obj = ServiceCls(spanctx)
         try:
-            svc_obj = ServiceCls(spanctx)
             func = getattr(svc_obj, method)
         except AttributeError as e:
             logger.error("No such method[{}]".format(method))
-- 
2.43.0


From d71b291b7fa056bf9b58f4ec903c6e5032f9cc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:05 +0000
Subject: [PATCH 22/26] fix: do not hand out a dropped connection after closing
 it

---
 mysockpool/connection_pool.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index fe5c7b2..9aa416d 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -128,9 +128,8 @@ class ConnectionPool(object):
         # If this is a persistent connection, check if it got disconnected
         if conn and is_connection_dropped(conn):
             log.debug("Resetting dropped connection: %r", self.pool_key)
-            conn.close()
-            with self._lock:
-                self.num_connections -= 1
+            self.discard_conn(conn)
+            conn = None
 
         return conn or self._new_conn()
 
-- 
2.43.0


From 83cb43aea7cfc21fee20fb6c138f1ef2da8cc69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:56 +0000
Subject: [PATCH 23/26] fix: keep the start time a span was started with

---
 mytracer/span.py   | 1 -
 mytracer/tracer.py | 2 +-
 2 files changed, 1 insertion(+), 2 deletions(-)

diff --git a/mytracer/span.py b/mytracer/span.py
index cbc036c..e61e60a 100644
--- a/mytracer/span.py
+++ b/mytracer/span.py
@@ -61,7 +61,6 @@ class MySpan(object):
         self._finish_time = time.time()
 
     def __enter__(self):
-        self._start_time = time.time()
         return self
 
     def __exit__(self, exc_type, exc_val, exc_tb):
diff --git a/mytracer/tracer.py b/mytracer/tracer.py
index 371f61a..94a655b 100644
--- a/mytracer/tracer.py
+++ b/mytracer/tracer.py
@@ -98,7 +98,7 @@ class MyTracer(opentracing.Tracer):
         _tags = tags or dict()
         for k, v in _tags.items():
             span.set_tag(k, v)
-        if start_time:
+        if start_time is not None:
             span.set_start_time(start_time)
 
         return span
-- 
2.43.0


From cbf20fe5783d02574fadc74bac19d58a20c84ad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 24/26] fix: put every baggage item into the request header

---
 anthunder/protocol/_sofa_header.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anthunder/protocol/_sofa_header.py b/anthunder/protocol/_sofa_header.py
index a19875c..e04d76a 100644
--- a/anthunder/protocol/_sofa_header.py
+++ b/anthunder/protocol/_sofa_header.py
@@ -128,7 +128,8 @@ class SofaHeader(dict):
         :param sofa_headers_extra:
         :return:
         """
-        rpc_trace_context_expand = RpcTraceContext(**spanctx.baggage).expand()
+        # not through attributes of an object, which items like `prefix` would shadow
+        rpc_trace_context_expand = {RpcTraceContext.prefix + k: str(v) for k, v in spanctx.baggage.items()}
 
         kwargs = dict()
         kwargs.update(**sofa_headers_extra)
-- 
2.43.0


From cbfa635ef88708b1e879816e27bf899e1e60a39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:29 +0000
Subject: [PATCH 25/26] fix: look up the local address of trace ids once, not
 on the event loop for every request

---
 mytracer/_trace_id.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mytracer/_trace_id.py b/mytracer/_trace_id.py
index 2d02f38..6eaf7cb 100644
--- a/mytracer/_trace_id.py
+++ b/mytracer/_trace_id.py
@@ -30,16 +30,26 @@ import six
 from six.moves import range
 
 
+def _local_ip():
+    """Address of this host as an integer (a name lookup, which may block)."""
+    try:
+        address = socket.gethostbyname(socket.gethostname())
+    except socket.error:
+        address = "127.0.0.1"
+    return int(ipaddress.ip_address(six.u(address)))
+
+
 class TraceId(object):
     _sequence = itertools.cycle(range(1000, 9001))
+    # looked up once: trace ids are made on event loop threads, which must not wait for the resolver.
+    _ip = _local_ip()
 
     def __init__(self, trace=None):
         if not isinstance(trace, str):
-            _ip = int(ipaddress.ip_address(six.u(socket.gethostbyname(socket.gethostname()))))
             _ts = int(time.time() * 1000)
             _sq = next(self._sequence)
             _pid = os.getpid()
-            self._trace_id = "{:0>8x}{:}{}{}".format(_ip, _ts, _sq, _pid)
+            self._trace_id = "{:0>8x}{:}{}{}".format(self._ip, _ts, _sq, _pid)
         else:
             self._trace_id = trace
 
-- 
2.43.0


From 429234d360d2c4fa083dc6f93efa85cc03bfea52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:55 +0000
Subject: [PATCH 26/26] fix: keep the connection taken from a pool when no
 spare one can be created

---
 mysockpool/connection_pool.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mysockpool/connection_pool.py b/mysockpool/connection_pool.py
index 9aa416d..5fd9208 100644
--- a/mysockpool/connection_pool.py
+++ b/mysockpool/connection_pool.py
@@ -113,7 +113,11 @@ class ConnectionPool(object):
             conn = self.pool.get(block=self.block, timeout=timeout)
 
             if self.pool.qsize() < self.min_free_connections:
-                self.put_conn(self._new_conn())
+                try:
+                    self.put_conn(self._new_conn())
+                except OSError as e:
+                    # no spare connection for now, the one taken out is as good as before
+                    log.warning("Failed to create a spare connection to %r: %s", self.pool_key, e)
 
         except AttributeError:  # self.pool is None
             raise ClosedPoolError(self, "Pool is closed.")
-- 
2.43.0

