"""python3-vt -m analysis <property>..."""
import importlib, os, sys, traceback


def main():
    sys.setrecursionlimit(20000)
    if len(sys.argv) < 2:
        print('usage: python3-vt -m analysis <property>...')
        return 2
    if sys.argv[1] == '--setup':
        from . import facts
        print(facts.extract())
        return 0
    worst = 0
    for prop in sys.argv[1:]:
        try:
            mod = importlib.import_module('analysis.rules.' + prop.lower())
            rc = mod.check().finish()
        except Exception:
            traceback.print_exc()
            print('ERROR: property=%s the analysis could not be completed' % prop)
            rc = 2
        worst = max(worst, rc) if 1 not in (worst, rc) else 1
    return worst


if __name__ == '__main__':
    sys.exit(main())
