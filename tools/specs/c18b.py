id='c18-message-table'; prop='C18'
needs='a failure response with a status that the table of messages does not have'
breaks='the error for some failure statuses is a KeyError instead of a ServerError'
edits=[('anthunder/exceptions.py', 'class ServerError(PyboltError):\n    def __init__', 'class ServerError(PyboltError):\n    MESSAGES = {\n        1: "error", 2: "server exception", 3: "unknown", 4: "server thread pool busy", 5: "error of the connection",\n        6: "no processor", 7: "timeout", 8: "client send error", 16: "codec exception",\n        17: "connection closed", 18: "server serial exception",\n    }\n\n    def __init__'), ('anthunder/exceptions.py', '        return cls("ServerError: RESPSTATUS={0.value}, {0.name}".format(code))', '        return cls("ServerError: RESPSTATUS={0.value}, {0.name}, {1}".format(code, cls.MESSAGES[code.value]))')]
demo=open('/verif/tools/specs/_client.txt').read()+'''

from anthunder.exceptions import PyboltError
STATUS = [x for x in RESPSTATUS if x != RESPSTATUS.SUCCESS]
def handler(s, n):
    for x in STATUS:
        s.sendall(failure(request(s), x))
SERVICE_MAP['com.svc.A'] = peer(handler)
c = AioClient('app')
for x in STATUS:
    try:
        call(c)
    except PyboltError as e:
        assert x.name in str(e), e
    else:
        raise SystemExit('no failure')
done()
'''
