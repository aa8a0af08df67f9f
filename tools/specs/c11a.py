id='c11-large-request-in-parts'; prop='C11'
needs='two concurrent calls on one connection, whose requests are larger than what the peer reads at once'
breaks='large requests are written in parts with a wait in between, and parts of different requests interleave'
edits=[('anthunder/client/aio_client.py','''                await writer.drain()  # avoid back pressure
                writer.write(msg)
                await writer.drain()
''','''                for i in range(0, len(msg), 65536):
                    await writer.drain()  # avoid back pressure
                    writer.write(msg[i:i + 65536])
                await writer.drain()
''')]
demo=open('/verif/tools/specs/_client.txt').read()+'''
GO = threading.Event()
def handler(s, n):
    s.sendall(answer(request(s)))
    GO.wait(10)
    time.sleep(0.5)
    for i in range(2):
        r = request(s)
        assert len(set(r.content)) == 1, 'mixed content'
        s.sendall(answer(r, r.content[:1]))
SERVICE_MAP['com.svc.A'] = peer(handler)
c = AioClient('app')
assert call(c) == b'ok'
GO.set()
out = together(lambda: call(c, b'a' * 8000000, 8000), lambda: call(c, b'b' * 8000000, 8000))
assert out == [b'a', b'b'], repr(out)[:300]
done()
'''
