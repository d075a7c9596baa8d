"""python3 -m sa.run Cxx [--tier quick|thorough] [--only unit] [-v]"""
import sys, os, warnings
warnings.filterwarnings('ignore')
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
def main():
    a = sys.argv[1:]
    v = '-v' in a
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    only = a[a.index('--only') + 1] if '--only' in a else None
    from sa import check
    check.load()
    from sa.checks import EXPLAIN
    sys.exit(check.run_property(a[0], tier, EXPLAIN.get(a[0], ''), only, v))
if __name__ == '__main__':
    main()
