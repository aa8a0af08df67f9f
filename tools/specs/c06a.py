id='c06-reject-before-content'; prop='C06'
needs='a request with a wrong class name followed by another request on the same connection'
breaks='the wrong-class check is made before header map and content are read: the rest of the rejected frame is read as the next frame'
edits=[('anthunder/listener/aio_listener.py','''                class_name = await reader.readexactly(header['class_len'])
                logger.debug("received classname({})".format(class_name))
''','''                class_name = await reader.readexactly(header['class_len'])
                logger.debug("received classname({})".format(class_name))
                if cmdcode == CMDCODE.REQUEST and class_name != BoltRequest.class_name:
                    raise ClientError("wrong class_name:[{}]".format(class_name))
''')]
PRE=open('/verif/tools/specs/_server.txt').read()
demo=PRE+'''
listen(12301, {'s': Svc})
s = socket.create_connection(('127.0.0.1', 12301)); s.settimeout(5)
bad = req(); bad.class_name = b'wrong'
s.sendall(bad.to_stream()); r = response(s); assert r.request_id == bad.request_id, r
good = req(body=b'hello')
s.sendall(good.to_stream()); r = response(s)
assert r.request_id == good.request_id and r.content == b'hello', r
'''
