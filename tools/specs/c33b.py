id='c33-stale-carrier'; prop='C33'
needs='a context is injected into a carrier that already carries the context of an earlier hop'
breaks='the carrier keeps the trace context of the earlier hop'
edits=[('mytracer/tracer.py',"""            carrier[self._prefix + k] = str(v)""","""            carrier.setdefault(self._prefix + k, str(v))""")]
demo='''
from opentracing import Format
from mytracer import tracer, SpanContext
c = SpanContext(sofaTraceId='0a', sofaRpcId='1.2')
h = tracer.inject(SpanContext(sofaTraceId='0a', sofaRpcId='1'), Format.TEXT_MAP, {})
d = tracer.extract(Format.TEXT_MAP, tracer.inject(c, Format.TEXT_MAP, h))
assert str(d.baggage['sofaRpcId']) == '1.2', d
'''
