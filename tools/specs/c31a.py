id='c31-forgotten-anyway'; prop='C31'
needs='the mesh refuses an unsubscription'
breaks='the interface is forgotten although the mesh did not accept it'
edits=[('anthunder/client/base.py','''            try:
                self._mesh_client.unsubscribe(inf)
                SERVICE_MAP.pop(inf)
            except Exception as e:
                logger.error(e)
''','''            try:
                SERVICE_MAP.pop(inf)
                self._mesh_client.unsubscribe(inf)
            except Exception as e:
                logger.error(e)
''')]
demo=open('/verif/tools/specs/_mesh.txt').read()+'''
from anthunder import Client, SERVICE_MAP
c = Client('a')
c.subscribe('i', 'j')
assert set(SERVICE_MAP) == {'i', 'j'}, SERVICE_MAP
ANSWER[0] = lambda url, body: Resp(200, {'success': False}) if body['serviceName'] == 'i' else Resp()
c.unsubscribe('i', 'j')
assert set(SERVICE_MAP) == {'i'}, SERVICE_MAP
'''
