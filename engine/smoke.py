"""developer tool: try to execute every /repo function symbolically with a trivial contract"""
import sys, os, json, time, signal
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(100000)
import extract_all
from prog import Prog
from values import Types
from ex import Contract
import verify
from multiprocessing import Pool

paths, errs = extract_all.extract()
P = Prog()
for p in paths: P.load(p)
OBJ = ['vara::feature::Feature','vara::feature::FeatureModel','vara::feature::FeatureTreeNode','vara::feature::Relationship','vara::feature::Constraint','vara::feature::PrimaryConstraint']
def run(qn_usr):
    f = P.functions[qn_usr]
    ty = Types(P)
    ty.objects |= set(OBJ)
    def h(*a): raise TimeoutError()
    signal.signal(signal.SIGALRM, h); signal.alarm(60)
    c = Contract(f['qn'], safety=True)
    try:
        r = verify.verify_unit(P, ty, [], c, None, f, None, f['qn'])
        return f['qn'], f.get('file'), f.get('line'), r.status, r.reason, len(r.proved), [(o.label,o.verdict) for o in r.failed+r.timeouts]
    except TimeoutError:
        return f['qn'], f.get('file'), f.get('line'), 'TIMEOUT', '', 0, []
    finally:
        signal.alarm(0)
if __name__ == '__main__':
    pat = sys.argv[1] if len(sys.argv) > 1 else ''
    us = [u for u, f in P.functions.items() if f.get('mine') and pat in f['qn'] and f.get('body')]
    print(len(us), 'functions')
    with Pool(8) as pool:
        rs = pool.map(run, us, chunksize=1)
    from collections import Counter
    print(Counter(r[3] for r in rs))
    for r in sorted(rs, key=lambda r: (r[3], str(r[4])[:60])):
        print(r[3], r[0], r[2], (r[4] or '').strip().split('\n')[0][:150] if r[3] != 'error' else (r[4] or '')[-400:].replace('\n', ' | '), r[5], r[6][:4])
