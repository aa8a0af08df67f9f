id='c27-pop-disposes-twice'; prop='C27'
needs='an entry is deleted'
breaks='a value is disposed of twice when it leaves by deletion'
edits=[('mysockpool/recently_used_container.py','''        with self.lock:
            value = self._container.pop(key)

        if self.dispose_func:
            self.dispose_func(value)
''','''        # writing the key once more disposes of its value
        self[key] = _Null
        with self.lock:
            value = self._container.pop(key)

        if self.dispose_func:
            self.dispose_func(value)
''')]
demo='''
from mysockpool.recently_used_container import RecentlyUsedContainer
gone = []
c = RecentlyUsedContainer(2, gone.append)
c['a'] = 1
del c['a']
assert gone == [1], gone
try:
    del c['b']
except KeyError:
    pass
assert gone == [1], gone
'''
