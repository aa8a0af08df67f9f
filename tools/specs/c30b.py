id='c30-accepted-statuses'; prop='C30'
needs='the mesh answers with a 2xx status other than 200'
breaks='an operation returns normally although the mesh did not answer 200'
edits=[('anthunder/mesh/mesh_client.py','''        if r.status_code != 200:''','''        if not 200 <= r.status_code < 300:''')]
demo=open('/verif/tools/specs/_mesh.txt').read()+'''
m = MeshClient(ApplicationInfo('a'))
m.startup()
ANSWER[0] = lambda url, body: Resp(202)
try:
    m.subscribe('x')
except requests.ConnectionError:
    pass
else:
    raise SystemExit('subscribe succeeded on 202')
'''
