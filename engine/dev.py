"""developer tool: verify the units of one contract module"""
import sys, os, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'contracts')]
sys.setrecursionlimit(100000)
import extract_all
from prog import Prog
from values import Types
import verify, importlib
def load():
    paths, errs = extract_all.extract()
    P = Prog()
    for p in paths: P.load(p)
    return P
if __name__ == '__main__':
    import runner
    runner.dev(sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else None)
