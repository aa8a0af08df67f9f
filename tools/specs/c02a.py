id='c02-empty-content-tail'; prop='C02'
needs='a frame with an empty content section (content_len == 0) and a non-empty header'
breaks='the content is cut from the end of the body by a negative index, so an empty content decodes as the whole body'
edits=[('anthunder/protocol/_package_base.py','''            class_name, header, content = struct.unpack(bodyfmt, stream)
''','''            class_name, header, _ = struct.unpack(bodyfmt, stream)
            content = stream[-bolt_headers['content_len']:]
''')]
demo='''
from anthunder.protocol import BoltRequest, SofaHeader
r = BoltRequest.new_request(SofaHeader(k='x'), b'')
assert BoltRequest.from_stream(r.to_stream()).content == b''
'''
