id='c31-falsy-address-replaced'; prop='C31'
needs='the mapped address is an empty value (a reserved interface)'
breaks='an entry of the service map can be replaced by assignment'
edits=[('anthunder/helpers/immutable_dict.py','''        if key in self:
''','''        if self.get(key):
''')]
demo='''
from anthunder import SERVICE_MAP
SERVICE_MAP['i'] = ''
try:
    SERVICE_MAP['i'] = ('10.0.0.1', 12200)
except KeyError:
    pass
assert SERVICE_MAP['i'] == '', SERVICE_MAP
'''
