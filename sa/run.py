"""run.py PROPERTY TIER: decide one property on /repo's current working tree"""
import sys, os, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'checks'))
from core import *
import registry

def main():
    if sys.argv[1] == '--setup':
        for c in ('default', 'threaded'): print('%s: %d functions' % (c, len(build(c).funcs)))
        return
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    mod, fn, level, expl = registry.CHECKS[prop]
    res = Result(prop, tier)
    print('property %s (%s): %s.%s on %s' % (prop, tier, mod, fn, REPO))
    try:
        getattr(importlib.import_module(mod), fn)(res)
    except (AnalysisError, Budget) as e:
        res.errors.append('%s: %s' % (type(e).__name__, e))
    except Exception as e:
        traceback.print_exc()
        res.errors.append('internal error: %r' % (e,))
    sys.exit(finish(res, level, expl))
main()
