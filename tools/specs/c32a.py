id='c32-unpublish-pops'; prop='C32'
needs='publish, unpublish, publish again'
breaks='unpublishing forgets the registrations, so a second publish announces nothing'
edits=[('anthunder/listener/base_listener.py','''            for service_name in self.handler.interface_mapping:
                self._mesh_client.unpublish(service_name)''','''            while self.handler.interface_mapping:
                service_name, _ = self.handler.interface_mapping.popitem()
                self._mesh_client.unpublish(service_name)''')]
demo=open('/verif/tools/specs/_mesh.txt').read()+'''
from anthunder import AioListener
l = AioListener(('127.0.0.1', 12399), 'a')
l.handler.register_interface('i', object); l.handler.register_interface('j', object)
l.publish(); l.unpublish()
del POSTS[:]
l.publish()
assert sorted(b['serviceName'] for u, b in POSTS) == ['i', 'j'], POSTS
'''
