id='c05-build-outside-try'; prop='C05'
needs='a well-formed body whose fixed header carries an unknown status, type or codec number'
breaks='the frame object is built outside the conversion, so the ValueError of an unknown code escapes'
edits=[('anthunder/protocol/_package_base.py','''            return cls(SofaHeader.from_bytes(header), content, **bolt_headers)
        except Exception as e:  # pragma: no cover
            raise DecodeError(e)
''','''            sofa_header = SofaHeader.from_bytes(header)
        except Exception as e:  # pragma: no cover
            raise DecodeError(e)
        return cls(sofa_header, content, **bolt_headers)
''')]
demo='''
import struct
from anthunder.protocol import BoltResponse, SofaHeader
from anthunder.protocol.exceptions import DecodeError
b = bytearray(BoltResponse.response_to(b'x', 7).to_stream())
b[10:12] = struct.pack('!h', 0x55)
try:
    BoltResponse.from_stream(bytes(b))
except DecodeError:
    raise SystemExit(0)
raise SystemExit('accepted')
'''
