"""names used in the checks' own code that are defined nowhere"""
import builtins, dis, importlib, os, sys, types
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
bad = 0


def codes(c):
    yield c
    for k in c.co_consts:
        if isinstance(k, types.CodeType):
            yield from codes(k)


for d in ('pysa', 'rules'):
    for f in sorted(os.listdir(os.path.join(HERE, d))):
        if not f.endswith('.py'):
            continue
        m = importlib.import_module('%s.%s' % (d, f[:-3]))
        src = open(m.__file__).read()
        for c in codes(compile(src, m.__file__, 'exec')):
            for i in dis.get_instructions(c):
                if i.opname in ('LOAD_GLOBAL', 'LOAD_NAME') and c.co_name != '<module>' and not hasattr(m, i.argval) and not hasattr(builtins, i.argval):
                    if i.opname == 'LOAD_NAME' and i.argval in ('__module__', '__name__', '__qualname__') or i.argval in c.co_names and i.opname == 'LOAD_NAME':
                        continue
                    print('%s: %s in %s' % (f, i.argval, c.co_name))
                    bad = 1
sys.exit(bad)
