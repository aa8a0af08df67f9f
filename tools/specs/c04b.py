id='c04-negative-length-loops'; prop='C04'
needs='hostile header bytes containing the length -4'
breaks='a negative length is only rejected below -4, and -4 makes the parser consume nothing: decoding never ends'
edits=[('anthunder/protocol/_sofa_header.py','''        if l < 0:
''','''        if l < -4:
''')]
limit=8
demo='''
import struct, resource
resource.setrlimit(resource.RLIMIT_AS, (1 << 30, 1 << 30))
from anthunder.protocol import SofaHeader
from anthunder.protocol.exceptions import DecodeError
for n in range(-9, -1):
    try:
        SofaHeader.from_bytes(struct.pack('>i', n) + b'abcd')
    except DecodeError:
        continue
    raise SystemExit('accepted %d' % n)
'''
