id='c14-handler-of-the-class'; prop='C14'
needs='two listeners of one kind in a process'
breaks='listeners of one class share their handler and with it every registration'
edits=[('anthunder/listener/base_listener.py','''        self.handler = self.handlerCls()
''','''        cls = type(self)
        if not isinstance(cls.handlerCls, BaseHandler):
            cls.handlerCls = cls.handlerCls()
        self.handler = cls.handlerCls
''')]
demo='''
from anthunder import AioListener
a = AioListener(('127.0.0.1', 12398), 'a')
b = AioListener(('127.0.0.1', 12399), 'b')
a.handler.register_interface('i', object)
assert 'i' not in b.handler.interface_mapping, b.handler.interface_mapping
'''
