"""The program under verification: clang's typed AST of /repo's current sources.

`Prog` merges the JSON files written by extract/extract.cpp (one per
translation unit) and turns the per-file type tables into interned `T` objects.
"""
import json
import re


class T:
    """A canonical C++ type."""
    __slots__ = ('s', 'k', 'b', 'w', 'sgn', 'to', 'qn', 'base', 'targs', 'const', 'n', 'lid', 'ret', 'params',
                 'islambda')

    def __init__(self, s):
        self.s = s
        self.k = self.b = self.w = self.sgn = self.to = self.qn = self.base = None
        self.targs = []
        self.const = False
        self.n = None
        self.lid = None
        self.ret = None
        self.params = []
        self.islambda = False

    def __repr__(self):
        return self.s

    def deref(self):
        return self.to if self.k in ('ref', 'rref') else self

    @property
    def name(self):
        """unqualified spelling used as a key"""
        s = self.s
        return s[6:] if s.startswith('const ') else s


def strip_targs(s):
    """'std::vector<int>::size' -> 'std::vector::size' (operators kept)."""
    out = []
    depth = 0
    i = 0
    while i < len(s):
        if s.startswith('operator', i) and depth == 0 and (i == 0 or s[i - 1] == ':'):
            m = re.match(r'operator\s*(->\*?|<=>|<<=|>>=|<<|>>|<=|>=|<|>|\(\)|\[\]|[^\s<:]+)?', s[i:])
            out.append(m.group(0))
            i += len(m.group(0))
            continue
        c = s[i]
        if c == '<':
            depth += 1
        elif c == '>':
            if s[i - 1] != '-':
                depth -= 1
        elif depth == 0:
            out.append(c)
        i += 1
    return ''.join(out)


class Prog:
    def __init__(self):
        self.functions = {}
        self.records = {}
        self.enums = {}
        self.globals = {}
        self.types = {}
        self.by_qn = {}
        self.tus = []

    # -- loading -----------------------------------------------------------
    def load(self, path, tu=None):
        d = json.load(open(path))
        raw = d['types']
        table = {}

        def mk(i):
            if not i:
                return None
            if isinstance(i, dict):
                return i
            if i in table:
                return table[i]
            r = raw[str(i)]
            key = r['s'] + ('#%s#%s' % (path, r.get('lid')) if r.get('lambda') else '')
            if key in self.types:
                table[i] = self.types[key]
                return table[i]
            t = T(r['s'])
            table[i] = t
            self.types[key] = t
            t.k = r['k']
            t.b = r.get('b')
            t.w = r.get('w')
            t.sgn = r.get('sgn')
            t.const = bool(r.get('const'))
            t.n = r.get('n')
            t.qn = strip_targs(r['qn']) if r.get('qn') else None
            t.islambda = bool(r.get('lambda'))
            t.lid = r.get('lid')
            t.to = mk(r.get('to'))
            t.targs = [mk(x) for x in r.get('targs', [])]
            t.ret = mk(r.get('ret'))
            t.params = [mk(x) for x in r.get('params', [])]
            return t

        TK = {'t', 'at', 'vt', 'cls', 'ret', 'ct', 'rec', 'ft', 'base'}

        def walk(n):
            if isinstance(n, dict):
                for k, v in list(n.items()):
                    if k in TK and isinstance(v, int) and not isinstance(v, bool):
                        n[k] = mk(v)
                    elif k in ('pt', 'targs', 'bases') and isinstance(v, list):
                        n[k] = [mk(x) if isinstance(x, int) else x for x in v]
                    elif k == 'qn' and isinstance(v, str):
                        n['fqn'] = v
                        n[k] = strip_targs(v)
                    else:
                        walk(v)
                if 'qn' in n and 'fqn' not in n:
                    pass
            elif isinstance(n, list):
                for x in n:
                    walk(x)

        for sect in ('functions', 'records', 'globals'):
            for k, v in d[sect].items():
                _walk_safe(walk, v)
        for u, f in d['functions'].items():
            if u not in self.functions:
                f['tu'] = path
                self.functions[u] = f
                self.by_qn.setdefault(f['qn'], []).append(f)
        for n, r in d['records'].items():
            if n not in self.records or (r.get('mine') and not self.records[n].get('mine')):
                self.records[n] = r
        for n, e in d['enums'].items():
            self.enums[strip_targs(n)] = e
        for n, g in d['globals'].items():
            key = strip_targs(n)
            if key not in self.globals or 'init' in g:
                self.globals[key] = g
        self.tus.append(path)

    # -- queries -----------------------------------------------------------
    def fn(self, qn, pred=None):
        c = [f for f in self.by_qn.get(qn, []) if pred is None or pred(f)]
        return c

    def record(self, t):
        return self.records.get(t.name)

    def all_fields(self, t):
        """[(key, type, fielddecl)] including bases, bases first."""
        r = self.record(t)
        if r is None:
            return []
        if '_af' in r:
            return r['_af']
        out = []
        for b in r.get('bases', []):
            out += self.all_fields(b)
        for f in r.get('fields', []):
            out.append((f['qn'], f['t'], f))
        r['_af'] = out
        return out

    def bases(self, t):
        r = self.record(t)
        out = []
        if r:
            for b in r.get('bases', []):
                out.append(b)
                out += self.bases(b)
        return out

    def subclasses(self, qn):
        """all record names that (transitively) derive from qn or are qn"""
        out = []
        for n, r in self.records.items():
            t = self.types.get(n)
            if t is None:
                continue
            if r['qn'] == qn or any(b.qn == qn for b in self.bases(t)):
                out.append(t)
        return out

    def find_override(self, cls_t, usr):
        """final overrider of virtual method `usr` in class cls_t"""
        seen = {usr}
        chain = [cls_t] + self.bases(cls_t)
        best = None

        def rec(t):
            r = self.record(t)
            if not r:
                return None
            for m in r.get('virtuals', []):
                if m['usr'] == usr or usr in self._ov_closure(m['usr']):
                    return m
            for b in r.get('bases', []):
                x = rec(b)
                if x:
                    return x
            return None

        return rec(cls_t)

    def _ov_closure(self, usr):
        if not hasattr(self, '_ovc'):
            self._ovc = {}
            direct = {}
            for r in self.records.values():
                for m in r.get('virtuals', []):
                    direct.setdefault(m['usr'], set()).update(m['overrides'])
            def clo(u, seen):
                for o in direct.get(u, ()):
                    if o not in seen:
                        seen.add(o)
                        clo(o, seen)
                return seen
            for u in direct:
                self._ovc[u] = clo(u, set())
        return self._ovc.get(usr, set())


def _walk_safe(walk, v):
    import sys
    sys.setrecursionlimit(100000)
    walk(v)
