id='c20-oneway-task-from-the-caller'; prop='C20'
needs='a one-way call while the loop of the client is idle'
breaks='the one-way call creates its task on the loop from the thread of the caller, which neither is safe nor wakes the loop'
edits=[('anthunder/client/aio_client.py', '        asyncio.run_coroutine_threadsafe(self.invoke(pkg), loop=self._loop)\n\n    def invoke_sync', '        self._loop.create_task(self.invoke(pkg))\n\n    def invoke_sync')]
demo=open('/verif/tools/specs/_client.txt').read()+'''

GOT = threading.Event()
def handler(s, n):
    s.sendall(answer(request(s)))
    request(s)
    GOT.set()
SERVICE_MAP['com.svc.A'] = peer(handler)
c = AioClient('app')
call(c)
time.sleep(0.5)
c.invoke_oneway('com.svc.A', 'method', b'note', spanctx=spanctx())
assert GOT.wait(4), 'the one-way request was never sent'
done()
'''
