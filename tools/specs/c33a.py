id='c33-last-segment'; prop='C33'
needs='a baggage item whose name contains a dot'
breaks='items with dots in their names arrive under another name (and may shadow others)'
edits=[('mytracer/tracer.py',"""d = {k.split('.', 1)[1]: carrier[k] for k in carrier if k.startswith(self._prefix)}""","""d = {k.rpartition('.')[2]: carrier[k] for k in carrier if k.startswith(self._prefix)}""")]
demo='''
from opentracing import Format
from mytracer import tracer, SpanContext
c = SpanContext(sofaTraceId='0a', sofaRpcId='1', **{'pen.attr': 'x'})
d = tracer.extract(Format.TEXT_MAP, tracer.inject(c, Format.TEXT_MAP, {}))
assert {k: str(v) for k, v in d.baggage.items()} == {k: str(v) for k, v in c.baggage.items()}, d
'''
