id='c38-cached-service'; prop='C38'
needs='two requests on one interface with different trace contexts'
breaks='service objects are kept per interface, so later requests run with the trace context of the first one'
edits=[('anthunder/listener/aio_listener.py','''        svc_obj = ServiceCls(spanctx)
''','''        svc_obj = self._services.get(service)
        if svc_obj is None:
            svc_obj = self._services[service] = ServiceCls(spanctx)
'''),('anthunder/listener/aio_listener.py','''        self.local = threading.local()
''','''        self._services = dict()
''')]
PRE=open('/verif/tools/specs/_server.txt').read()
demo=PRE+'''
class C(BaseService):
    def echo(self, body):
        return self.ctx.baggage.get('who', '').encode()
listen(12307, {'s': C})
s = socket.create_connection(('127.0.0.1', 12307)); s.settimeout(4)
for who in ('a', 'b'):
    a = req(extra={'rpc_trace_context.who': who}); s.sendall(a.to_stream()); r = response(s)
    assert r.content == who.encode(), r
'''
