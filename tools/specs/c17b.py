id='c17-unknown-errors-read-on'; prop='C17'
needs='a connection that is lost with another error than a reset, a timeout of the transport for example'
breaks='the reader goes on after an error it does not know, and the calls on the lost connection are never woken'
edits=[('anthunder/client/aio_client.py', '            except Exception:\n                logger.error(traceback.format_exc())\n                writer.close()\n                break\n            finally:\n                with suppress', '            except Exception:\n                logger.error(traceback.format_exc())\n                await asyncio.sleep(0.1)\n            finally:\n                with suppress')]
demo=open('/verif/tools/specs/_client.txt').read()+'''

READERS = []
real = asyncio.open_connection
async def opened(*a, **k):
    r, w = await real(*a, **k)
    READERS.append(r)
    return r, w
asyncio.open_connection = opened
def handler(s, n):
    request(s)
    time.sleep(60)
SERVICE_MAP['com.svc.A'] = peer(handler)
c = AioClient('app')
threading.Timer(0.5, lambda: c._loop.call_soon_threadsafe(READERS[0].set_exception, TimeoutError('ETIMEDOUT'))).start()
t = time.time()
try:
    call(c, timeout_ms=8000)
except Exception as e:
    pass
assert time.time() - t < 4, 'never woken'
done()
'''
