id='c36-tags-without-value'; prop='C36'
needs='a tag whose value is falsy (error=False, retries=0)'
breaks='falsy tags are dropped'
edits=[('mytracer/tracer.py',"""            span.set_tag(k, v)""","""            if v or v == 0 and v is not False:
                span.set_tag(k, v)""")]
demo='''
from mytracer import tracer
s = tracer.start_span('a', tags={'error': False, 'n': 1})
assert any(isinstance(v, dict) and v.get('n') == 1 and v.get('error', 1) is False for v in vars(s).values()), vars(s)
'''
