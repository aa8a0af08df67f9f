id='c36-cancelled-block'; prop='C36'
needs='a block of a span that ends with an exception that is no Exception (cancellation, KeyboardInterrupt)'
breaks='the span is never finished'
edits=[('mytracer/span.py',"""    def __exit__(self, exc_type, exc_val, exc_tb):
        self.finish()""","""    def __exit__(self, exc_type, exc_val, exc_tb):
        if exc_val is None or isinstance(exc_val, Exception):
            self.finish()""")]
demo='''
import asyncio
from mytracer import new_span
async def work(s):
    with s:
        await asyncio.sleep(10)
async def main():
    s = new_span('a')
    t = asyncio.ensure_future(work(s))
    await asyncio.sleep(0.05)
    t.cancel()
    try:
        await t
    except asyncio.CancelledError:
        pass
    assert any(v is not None for k, v in vars(s).items() if 'finish' in k), vars(s)
asyncio.run(main())
'''
