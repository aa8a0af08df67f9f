id='c35-follow-up-in-a-deeper-span'; prop='C35'
needs='a span that is itself a child has children and follow-ups of them'
breaks='a follow-up of a grandchild counts for itself, so that a later grandchild gets the same id'
edits=[('mytracer/_rpc_id.py','''        obj._parent = self  # attach a link to parent rpcId''','''        obj._parent = None if self._parent else self  # attach a link to parent rpcId''')]
demo='''
from mytracer import tracer, SpanContext, follows_span_from
r = tracer.start_span('a', child_of=SpanContext(sofaTraceId='0a', sofaRpcId='1'))
c = tracer.start_span('b', child_of=r)
f = follows_span_from(c)
d = tracer.start_span('b', child_of=r)
ids = [str(x.context.baggage['sofaRpcId']) for x in (c, f, d)]
assert len(set(ids)) == 3, ids
'''
