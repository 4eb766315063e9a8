"""The resolved program: bodies of the library, the binary and the models crate, preprocessed
(CFG, natural loops, liveness)."""
from terms import *


class Body(object):
    def __init__(self, path, j, prog):
        self.path = path
        self.j = j
        self.prog = prog
        self.kind = j['kind']
        self.argc = j['argc']
        self.locals = j['locals']
        self.blocks = j['blocks']
        self.vf = j.get('variant_fields')
        self.promoted = j.get('promoted') or []
        self._loops = None
        self._live = None
        self.bool_locals = frozenset(i for i, l in enumerate(self.locals) if prog.types[l[0]]['k'] == 'bool')
        self.bool_saved = set()
        if self.vf:
            for bb in self.blocks:
                for s in bb['s']:
                    if s[0] == '=':
                        pr = s[1][1]
                        for a, b in zip(pr, pr[1:]):
                            if a[0] == 'v' and b[0] == 'f' and prog.types[b[2]]['k'] == 'bool' and b is pr[-1]:
                                self.bool_saved.add(self.vf[a[1]][b[1]])

    # ---- CFG
    def succs(self, b):
        t = self.blocks[b]['t']
        k = t['k']
        if k in ('goto', 'drop', 'call', 'assert', 'cdrop', 'yield', 'false_edge', 'false_unwind'):
            return [t['t']] if t.get('t') is not None else []
        if k == 'switch':
            r = [x[1] for x in t['vs']]
            if t.get('o') is not None:
                r.append(t['o'])
            return r
        return []

    def entry_succs(self, b):
        """succs, but in a coroutine the entry switch only leads to the unresumed state."""
        if b == 0 and self.vf is not None:
            t = self.blocks[0]['t']
            if t['k'] == 'switch':
                return [x[1] for x in t['vs'] if int(x[0]) == 0]
        return self.succs(b)

    def loops(self):
        """head -> set of blocks (natural loops, from the entry-reachable CFG)."""
        if self._loops is not None:
            return self._loops
        order, seen = [], set()
        st = [(0, iter(self.entry_succs(0)))]
        seen.add(0)
        on = {0}
        back = []
        while st:
            b, it = st[-1]
            for s in it:
                if s in on:
                    back.append((b, s))
                elif s not in seen:
                    seen.add(s)
                    on.add(s)
                    st.append((s, iter(self.entry_succs(s))))
                    break
            else:
                st.pop()
                on.discard(b)
                order.append(b)
        preds = {}
        for b in seen:
            for s in self.entry_succs(b):
                preds.setdefault(s, set()).add(b)
        loops = {}
        for b, h in back:
            body = loops.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(preds.get(x, ()))
        self._loops = loops
        return loops

    # ---- liveness of locals whose address is not taken
    def _uses(self):
        nb = len(self.blocks)
        use = [set() for _ in range(nb)]
        dfs = [set() for _ in range(nb)]
        addr = set()

        def u_place(i, p):
            if p[0] not in dfs[i]:
                use[i].add(p[0])
            for e in p[1]:
                if e[0] == 'i' and e[1] not in dfs[i]:
                    use[i].add(e[1])

        def u_op(i, o):
            if 'c' in o:
                u_place(i, o['c'])
            elif 'm' in o:
                u_place(i, o['m'])

        def d_place(i, p):
            if p[1]:
                u_place(i, p)
            else:
                dfs[i].add(p[0])

        for i, bb in enumerate(self.blocks):
            for s in bb['s']:
                if s[0] == '=':
                    r = s[2]
                    k = r[0]
                    if k == 'use':
                        u_op(i, r[1])
                    elif k in ('ref', 'raw'):
                        u_place(i, r[2])
                        if not any(e[0] == '*' for e in r[2][1]):
                            addr.add(r[2][0])
                    elif k == 'cast':
                        u_op(i, r[2])
                    elif k == 'bin':
                        u_op(i, r[2]); u_op(i, r[3])
                    elif k == 'un':
                        u_op(i, r[2])
                    elif k == 'discr':
                        u_place(i, r[1])
                    elif k == 'agg':
                        for o in r[2]:
                            u_op(i, o)
                    elif k == 'repeat':
                        u_op(i, r[1])
                    else:
                        for o in r[1:]:
                            if isinstance(o, dict):
                                u_op(i, o)
                            elif isinstance(o, list) and len(o) == 2 and isinstance(o[0], int) and isinstance(o[1], list):
                                u_place(i, o)
                    d_place(i, s[1])
                elif s[0] == 'sd':
                    u_place(i, s[1])
            t = bb['t']
            k = t['k']
            if k == 'switch':
                u_op(i, t['d'])
            elif k in ('drop', 'cdrop'):
                u_place(i, t['p'])
            elif k == 'call':
                u_op(i, t['f'])
                for a in t['a']:
                    u_op(i, a)
                if t['d'][1]:
                    u_place(i, t['d'])
                else:
                    dfs[i].add(t['d'][0])
            elif k == 'assert':
                u_op(i, t['c'])
                for o in t.get('ops') or []:
                    if isinstance(o, dict):
                        u_op(i, o)
            elif k == 'return':
                if 0 not in dfs[i]:
                    use[i].add(0)
        return use, dfs, addr

    def live(self):
        if self._live is None:
            use, dfs, addr = self._uses()
            nb = len(self.blocks)
            li = [set(u) for u in use]
            ch = True
            while ch:
                ch = False
                for i in range(nb - 1, -1, -1):
                    o = set()
                    for s in self.succs(i):
                        o |= li[s]
                    n = use[i] | (o - dfs[i])
                    if n != li[i]:
                        li[i] = n
                        ch = True
            self._live = ([frozenset(x) for x in li], frozenset(addr))
        return self._live


class Prog(object):
    """One crate's facts."""

    def __init__(self, name, j):
        self.name = name
        self.types = j['types']
        self.adts = j['adts']
        self.impls = j['impls']
        self.j = j


class World(object):
    def __init__(self, facts):
        self.progs = [Prog(n, j) for n, j in facts]
        self.bodies = {}
        self.adts = {}
        for p in self.progs:
            for n, b in p.j['bodies'].items():
                if n not in self.bodies:
                    self.bodies[n] = Body(n, b, p)
            for n, a in p.adts.items():
                if n not in self.adts or a.get('local'):
                    self.adts[n] = a
        self.ctors = {}
        for n, a in self.adts.items():
            if not a:
                continue
            for i, v in enumerate(a['v']):
                self.ctors[n + '::' + v['n']] = (n, i, len(v['f']))
            if a['k'] == 'struct':
                self.ctors[n] = (n, 0, len(a['v'][0]['f']))
        self._cg = {}

    def discr_of(self, adt, var):
        a = self.adts.get(adt)
        if a and var is not None and var < len(a['v']):
            return int(a['v'][var]['d'])
        return var

    def var_of(self, adt, d):
        a = self.adts.get(adt)
        if a:
            for i, v in enumerate(a['v']):
                if int(v['d']) == d:
                    return i
            return None
        return d

    # all function constants mentioned by a body (callees and values), transitively
    def mentions(self, path):
        if path in self._cg:
            return self._cg[path]
        seen, out, w = set(), set(), [path]
        while w:
            p = w.pop()
            if p in seen:
                continue
            seen.add(p)
            b = self.bodies.get(p)
            if b is None:
                continue
            for q in direct_mentions(b):
                out.add(q)
                if q in self.bodies and q not in seen:
                    w.append(q)
        self._cg[path] = out
        return out


def direct_mentions(b):
    out = set()

    def op(o):
        if 'k' in o:
            const(o['k'])

    def const(k):
        if k['k'] == 'fn':
            out.add(k.get('r') or k['p'])
            out.add(k['p'])
        elif k['k'] == 'agg':
            for x in k['f']:
                const(x)
        elif k['k'] == 'refto':
            const(k['v'])
        elif k['k'] == 'zst':
            ty(k['t'])
        elif k['k'] == 'promoted':
            for bb in b.promoted[k['i']]['blocks'] if k['b'] == b.path else []:
                for s in bb['s']:
                    stmt(s)

    def ty(t):
        t = b.prog.types[t]
        if t['k'] in ('closure', 'coroutine', 'fndef'):
            out.add(t['p'])

    def stmt(s):
        if s[0] == '=':
            r = s[2]
            if r[0] == 'agg' and r[1][0] in ('closure', 'coroutine'):
                out.add(r[1][1])
            for x in r[1:]:
                if isinstance(x, dict):
                    op(x)
                elif isinstance(x, list):
                    for y in x:
                        if isinstance(y, dict):
                            op(y)

    for bb in b.blocks:
        if bb['cl']:
            continue
        for s in bb['s']:
            stmt(s)
        t = bb['t']
        if t['k'] == 'call':
            op(t['f'])
            for a in t['a']:
                op(a)
    return out
