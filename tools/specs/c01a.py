id='c01-long-header-wraps'; prop='C01'
needs='a header map whose encoding is longer than 65535 bytes'
breaks='the announced header length wraps and the header is truncated instead of the frame being refused'
edits=[('anthunder/protocol/_package_base.py','        return len(self._header_bytes)\n','        return len(self._header_bytes) & 0xFFFF\n')]
demo='''
from anthunder.protocol import BoltRequest, SofaHeader
r = BoltRequest.new_request(SofaHeader(k='x' * 70000), b'c')
try:
    bs = r.to_stream()
except Exception as e:
    print('refused', type(e)); raise SystemExit(0)
raise SystemExit('encoded a frame that cannot be represented')
'''
