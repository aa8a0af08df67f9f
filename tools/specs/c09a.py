id='c09-heartbeat-path-first'; prop='C09'
needs='a one-way request whose header map cannot be decoded'
breaks='the decode error of a one-way request is reported to its sender'
edits=[('anthunder/listener/aio_listener.py','''            except ProtocolError as e:
                logger.error(str(e) + " returning CODEC_EXCEPTION")
''','''            except ProtocolError as e:
                call_type = header['ptype'] if header is None else PTYPE.REQUEST
                logger.error(str(e) + " returning CODEC_EXCEPTION")
'''),('anthunder/listener/aio_listener.py','''                await self._write_fail(writer, header['ptype'], header['request_id'], RESPSTATUS.CODEC_EXCEPTION)''','''                await self._write_fail(writer, call_type, header['request_id'], RESPSTATUS.CODEC_EXCEPTION)''')]
PRE=open('/verif/tools/specs/_server.txt').read()
demo=PRE+'''
listen(12304, {'s': Svc})
s = socket.create_connection(('127.0.0.1', 12304)); s.settimeout(2)
a = req(ptype=PTYPE.ONEWAY); a._header_bytes = b'\\xff\\xff\\xff\\x00abc'
s.sendall(a.to_stream())
try:
    print('answered', response(s)); raise SystemExit(1)
except socket.timeout:
    pass
'''
