import fakeiris, stubs, pkgutil, importlib
import improver
ok=bad=0
for m in pkgutil.walk_packages(improver.__path__,'improver.'):
    try:
        importlib.import_module(m.name); ok+=1
    except BaseException as e:
        bad+=1; print(m.name,type(e).__name__,str(e)[:100])
print(ok,bad)
