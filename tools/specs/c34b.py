id='c34-empty-items'; prop='C34'
needs='a context with an item whose value is empty'
breaks='empty items are not carried over to derived spans'
edits=[('mytracer/span_context.py',"""            kwargs.update(origin_span_baggage)""","""            kwargs.update((k, v) for k, v in origin_span_baggage.items() if v)""")]
demo='''
from mytracer import tracer, SpanContext
c = SpanContext(sofaTraceId='0a', sofaRpcId='1', x='')
s = tracer.start_span('b', child_of=c)
assert set(s.context.baggage) == set(c.baggage), s.context.baggage
'''
