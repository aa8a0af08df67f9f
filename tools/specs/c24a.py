id='c24-whole-seconds'; prop='C24'
needs='a call with a timeout below one second to a peer that does not answer'
breaks='the caller waits for whole seconds only, and without limit when there are none'
edits=[('anthunder/client/aio_client.py', '            ret = fut.result(timeout=timeout_ms / 1000)\n', '            ret = fut.result(timeout=timeout_ms // 1000 or None)\n')]
demo=open('/verif/tools/specs/_client.txt').read()+'''

def handler(s, n):
    request(s)
    time.sleep(60)
SERVICE_MAP['com.svc.A'] = peer(handler)
c = AioClient('app')
OVER = []
def run():
    try:
        call(c, timeout_ms=300)
    except Exception as e:
        OVER.append(e)
t = threading.Thread(target=run, daemon=True)
t.start(); t.join(4)
assert OVER, 'still waiting'
done()
'''
