id='c20-timeout-cleans-up'; prop='C20'
needs='a call that times out while the loop is busy with its response'
breaks='the caller removes the entry of its call from the table of the loop itself'
edits=[('anthunder/client/aio_client.py', '            logger.error("call to [{}:{}] timeout/cancelled. {}".format(interface, method, e))\n            fut.cancel()', '            logger.error("call to [{}:{}] timeout/cancelled. {} pending".format(interface, method, len(self.request_mapping)))\n            self.request_mapping.pop(pkg.request_id, None)\n            fut.cancel()')]
demo=open('/verif/tools/specs/_client.txt').read()+'''

class Seen(dict):
    threads = set()
    def pop(self, *a):
        Seen.threads.add(threading.current_thread())
        return dict.pop(self, *a)
    def __len__(self):
        Seen.threads.add(threading.current_thread())
        return dict.__len__(self)
    def __setitem__(self, *a):
        Seen.threads.add(threading.current_thread())
        return dict.__setitem__(self, *a)
def handler(s, n):
    request(s)
    time.sleep(30)
SERVICE_MAP['com.svc.A'] = peer(handler)
c = AioClient('app')
for k, v in list(vars(c).items()):
    if type(v) is dict:
        setattr(c, k, Seen(v))
try:
    call(c, timeout_ms=300)
except Exception:
    pass
time.sleep(0.3)
assert len({t for t in Seen.threads}) <= 1 and threading.current_thread() not in Seen.threads, Seen.threads
done()
'''
