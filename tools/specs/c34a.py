id='c34-list-of-references'; prop='C34'
needs='a follow-up derived with references given as a list'
breaks='a follow-up becomes a child when the reference is given in a list'
edits=[('mytracer/tracer.py',"""            ref = references if isinstance(references, opentracing.Reference) else references[0]""","""            ref = opentracing.child_of(references[0].referenced_context) if isinstance(references, list) else references""")]
demo='''
import opentracing
from mytracer import tracer, SpanContext
p = tracer.start_span('a', child_of=SpanContext(sofaTraceId='0a', sofaRpcId='1'))
f = tracer.start_span('b', references=[opentracing.follows_from(p.context)])
a, b = str(p.context.baggage['sofaRpcId']).split('.'), str(f.context.baggage['sofaRpcId']).split('.')
assert len(a) == len(b) and a[:-1] == b[:-1] and a != b, (a, b)
'''
