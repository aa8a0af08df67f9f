id='c04-char-count'; prop='C04'
needs='a header value with a character outside ASCII'
breaks='the length prefix counts characters instead of encoded bytes for all but the last string of... every string'
edits=[('anthunder/protocol/_sofa_header.py','''    return _int2bytes_be(len(b)) + b
''','''    return _int2bytes_be(len(s)) + b
''')]
breaks='the length prefix counts characters instead of encoded bytes'
demo='''
from anthunder.protocol import SofaHeader
h = SofaHeader(k='\\u4e2d\\u6587', z='a')
assert dict(SofaHeader.from_bytes(h.to_bytes())) == dict(h.items())
'''
