"""Loader for the MIR dump: types, layouts, functions, control-flow graphs and natural loops."""
import json


class Types:
    def __init__(self, raw):
        self.t = raw
        self.byname = {}
        for i, t in enumerate(raw):
            self.byname.setdefault(t['name'], i)

    def __getitem__(self, i):
        return self.t[i]

    def kind(self, i):
        return self.t[i]['k']

    def bits(self, i):
        t = self.t[i]
        if 'bits' in t:
            return t['bits']
        if t['k'] == 'pat':
            return self.bits(t['inner'])
        return t['lay']['size'] * 8

    def size(self, i):
        l = self.t[i]['lay']
        return None if l is None else l['size']

    def align(self, i):
        return self.t[i]['lay']['align']

    def name(self, i):
        return self.t[i]['name']

    def is_scalar(self, i):
        return self.t[i]['k'] in ('bool', 'char', 'int', 'uint', 'float', 'ref', 'ptr', 'fnptr', 'pat')

    def is_num(self, i):
        return self.t[i]['k'] in ('bool', 'char', 'int', 'uint', 'float')

    def is_enum(self, i):
        t = self.t[i]
        return t['k'] == 'adt' and t['kind'] == 'enum'

    def is_union(self, i):
        t = self.t[i]
        return t['k'] == 'adt' and t['kind'] == 'union'

    def signed(self, i):
        return self.t[i]['k'] == 'int'

    def pointee(self, i):
        t = self.t[i]
        if t['k'] == 'pat':
            return self.pointee(t['inner'])
        return t['to']

    def path(self, i):
        return self.t[i].get('path', '')

    def arg(self, i, n):
        return self.t[i]['args'][n]

    def elem(self, i):
        return self.t[i].get('elem')

    def fields(self, i, variant=None):
        """[(offset, type)] of struct/tuple/closure/union, or one enum variant"""
        t = self.t[i]
        k = t['k']
        l = t['lay']
        if k == 'tuple':
            return list(zip(l.get('offs', []), t['elems']))
        if k == 'closure':
            return list(zip(l.get('offs', []), t['upvars']))
        if k == 'adt':
            if t['kind'] == 'union':
                return [(0, f[1]) for f in t['variants'][0]['f']]
            if t['kind'] == 'enum':
                v = t['variants'][variant]
                if 'voffs' in l:
                    offs = l['voffs'][variant]
                elif l.get('single') == variant:
                    offs = l.get('offs', [])
                else:
                    offs = [0] * len(v['f'])
                return [(o, f[1]) for o, f in zip(offs, v['f'])]
            return [(o, f[1]) for o, f in zip(l.get('offs', []), t['variants'][0]['f'])]
        if k == 'array':
            s = self.size(t['elem'])
            return [(s * n, t['elem']) for n in range(t['len'])]
        return []

    def field_names(self, i):
        t = self.t[i]
        if t['k'] == 'adt' and t['kind'] != 'enum':
            return [f[0] for f in t['variants'][0]['f']]
        return [str(n) for n in range(len(self.fields(i)))]

    def nvariants(self, i):
        return len(self.t[i]['variants'])

    def discr_of(self, i, v):
        t = self.t[i]
        if t['k'] != 'adt' or t['kind'] != 'enum':
            return 0
        return t['variants'][v]['d']

    def variant_by_discr(self, i, d):
        for n, v in enumerate(self.t[i]['variants']):
            if v['d'] == d:
                return n
        return None

    def max_discr(self, x):
        """x is a symbolic enum value whose last component is its type"""
        if x[0] in ('S', 'F', 'elem', 'T2', 'deref', 'phi', 'call') and isinstance(x[-1], int):
            t = self.t[x[-1]]
            if t['k'] == 'adt' and t['kind'] == 'enum':
                return max([v['d'] for v in t['variants']] or [0])
        return None

    def is_fat(self, i):
        """pointer type with metadata?"""
        p = self.pointee(i)
        return self.meta_kind(p) is not None

    def meta_kind(self, p):
        t = self.t[p]
        if t['k'] in ('slice', 'str'):
            return 'len'
        if t['k'] == 'dyn':
            return 'vt'
        if t['k'] == 'adt' and t['lay'] is None and t['kind'] == 'struct' and t['variants'][0]['f']:
            return self.meta_kind(t['variants'][0]['f'][-1][1])
        return None

    def is_vec(self, i):
        t = self.t[i]
        return t['k'] == 'adt' and t['path'] in ('std::vec::Vec', 'alloc::vec::Vec', 'Vec')


class Prog:
    def __init__(self, path):
        d = json.load(open(path))
        self.types = Types(d['types'])
        self.fns = d['fns']
        self.allocs = d['allocs']
        self.roots = {k.split('::')[-1]: v for k, v in d['roots'].items()}
        self._loops = {}
        self.bypath = {}
        for i, f in enumerate(self.fns):
            self.bypath.setdefault(f['path'], []).append(i)

    def succs(self, fid):
        out = []
        for st, term, ln in self.fns[fid]['body']['blocks']:
            k = term[0]
            if k == 'goto':
                out.append([term[1]])
            elif k == 'switch':
                out.append([b for _, b in term[2]] + [term[3]])
            elif k == 'drop':
                out.append([term[2]])
            elif k == 'call':
                out.append([term[4]] if term[4] is not None else [])
            elif k == 'assert':
                out.append([term[4]])
            else:
                out.append([])
        return out

    def loops(self, fid):
        """header -> frozenset(body blocks) of the natural loops"""
        if fid in self._loops:
            return self._loops[fid]
        succ = self.succs(fid)
        n = len(succ)
        # reachable, rpo
        order = []
        seen = set()
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                order.append(b)
                st.pop()
        rpo = order[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        preds = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                preds[s].append(b)
        idom = {rpo[0]: rpo[0]}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while idx[x] > idx[y]:
                                    x = idom[x]
                                while idx[y] > idx[x]:
                                    y = idom[y]
                            new = x
                if idom.get(b) != new:
                    idom[b] = new
                    ch = True

        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == rpo[0]:
                    return False
                b = idom[b]
        loops = {}
        for b in rpo:
            for h in succ[b]:
                if dom(h, b):
                    body = {h, b}
                    w = [b] if b != h else []
                    while w:
                        x = w.pop()
                        for p in preds[x]:
                            if p not in body:
                                body.add(p)
                                w.append(p)
                    loops[h] = loops.get(h, set()) | body
        loops = {h: frozenset(b) for h, b in loops.items()}
        self._loops[fid] = loops
        return loops

    def where(self, fid, line=None):
        f = self.fns[fid]
        return '%s (%s:%s)' % (f['path'], f['file'].split('/repo/')[-1], line if line is not None else f['line'])
