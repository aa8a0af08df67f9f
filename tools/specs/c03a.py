id='c03-status-decimal'; prop='C03'
needs='a peer that reports CONNECTION_CLOSED (0x0010)'
breaks='the published number 0x0010 is replaced by 10, in the one table both sides use'
edits=[('anthunder/protocol/constants.py','''    CONNECTION_CLOSED = 0x0010
''','''    CONNECTION_CLOSED = 10
''')]
demo='''
from anthunder.protocol.constants import RESPSTATUS
assert RESPSTATUS(0x10).name == 'CONNECTION_CLOSED'
'''
