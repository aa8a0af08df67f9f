id='c30-started-before-answer'; prop='C30'
needs='the first registration is refused by the mesh, then the client is started again'
breaks='a mesh client whose registration failed counts as registered and never registers'
edits=[('anthunder/mesh/mesh_client.py','''            if not self._started:
                self._post("configs/application", attr.asdict(self.appinfo, filter=lambda a, v: v))
                self._started = True
            return self._started''','''            if not self._started:
                self._started, info = True, attr.asdict(self.appinfo, filter=lambda a, v: v)
                self._post("configs/application", info)
            return self._started''')]
demo=open('/verif/tools/specs/_mesh.txt').read()+'''
ANSWER[0] = lambda url, body: Resp(500)
m = MeshClient(ApplicationInfo('a'))
try:
    m.startup()
    raise SystemExit('startup succeeded')
except requests.ConnectionError:
    pass
ANSWER[0] = lambda url, body: Resp()
m.startup()
assert len(POSTS) == 2, POSTS
'''
