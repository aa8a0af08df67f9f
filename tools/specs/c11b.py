id='c11-reply-head-apart'; prop='C11'
needs='three services of one connection finishing together while the peer does not read, with large results'
breaks='the head and the body of a large reply are written apart, and another reply gets in between'
edits=[('anthunder/listener/aio_listener.py','''        await writer.drain()  # clean the buffer, avoid backpressure
        writer.write(msg)
        await writer.drain()
''','''        await writer.drain()  # clean the buffer, avoid backpressure
        if len(msg) > limit:
            writer.write(msg[:limit])
            await writer.drain()
            msg = msg[limit:]
        writer.write(msg)
        await writer.drain()
'''),('anthunder/listener/aio_listener.py','''    async def _write_msg(self, writer, msg):''','''    async def _write_msg(self, writer, msg, *, limit=1 << 22):''')]
demo=open('/verif/tools/specs/_server.txt').read()+'''
class Big(BaseService):
    def echo(self, body):
        return body * 12000000
listen(12340, {'s': Big})
s = socket.socket(); s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, 65536)
s.connect(('127.0.0.1', 12340)); s.settimeout(10)
s.sendall(req(body=b'a').to_stream() + req(body=b'b').to_stream() + req(body=b'c').to_stream())
time.sleep(1.5)
for _ in range(3):
    r = response(s)
    assert len(r.content) == 12000000 and len(set(r.content)) == 1, 'mixed content'
'''
