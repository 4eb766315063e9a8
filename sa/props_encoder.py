"""Rules about LZHUF compression: the tokens that encode writes (C21) and the matches they stand for (C22)."""
from lib import *
from trans import *
import engine
import bits
from props_lzhuf import SELF, member, methods, fields, puts, index_of, array_size, untouched

ENC = "Encoder::<'a>"
SS = ('G', '#self')
IT = mk('Y', 'input')
LEN = ap('len', IT)
N, F = 2048, 60
START = N - F


def layout(s, pid):
    """Indices of the fields of the encoder: state, window within it, scalars; the size of the window."""
    adt = s.w.adts[LZ + 'Encoder']['v'][0]
    st = [v for v, f, k in rets(s.fn(LZ + 'LzHufState::new'))]
    if len(st) != 1:
        raise Missing('no start state')
    fs = fields(st[0])
    win = [i for i, f in enumerate(fs) if f.k == 'ap' and f.a[0] == 'rep' and f.a[1] is I(0x20) or f.k == 'rep' and f.a[0] is I(0x20) or f.k == 'arr' and set(f.a[0]) == {0x20}]
    if len(win) != 1:
        raise Missing('no text window of spaces')
    n = engine.length(fs[win[0]])
    ng = s.fn(LZ + ENC + '::new', [mk('R', ('G', '#out'), (), 'm')], {'opaque': (LZ + 'LzHufState::new',)}, cells={'#out': mk('Y', 'out')})
    vs = rets(ng)
    if len(vs) != 1:
        raise Missing('no start state of the encoder')
    es = fields(vs[0][0])
    st = [i for i, f in enumerate(es) if f.k == 'r' and f.a[0] == LZ + 'LzHufState::new']
    nums = [i for i, f in enumerate(es) if f.k == 'I']
    if len(st) != 1 or len(nums) != 2:
        raise Missing('no encoder with a state, a match length and a match position')
    return st[0], win[0], nums, n.a[0] if n.k == 'I' else 0


class Enc(object):
    """encode as a transition system, its state read through the helpers that leave it alone."""

    def __init__(self, s, r):
        self.s, self.r = s, r
        self.st, self.wi, self.nums, self.size = layout(s, 'C21')
        self.INS, self.DEL, self.CH, self.PO = self.ops = tuple(member(s, ENC, x, 2, '()') for x in ('insert_node', 'delete_node', 'encode_char', 'encode_position'))
        self.keeps = {}
        for op in self.ops:
            parts = [((None, self.st), (None, self.wi))] + [((None, i),) for i in self.nums]
            ch = untouched(s, op, [tuple(x for n, x in p) for p in parts])
            self.keeps[op] = [p for p in parts if tuple(x for n, x in p) not in ch]
        self.memo = {}
        self.ts = System(s.fn(LZ + ENC + '::encode', [SELF, IT], {'opaque': self.ops}, cells={'#self': mk('Y', 'enc')}))

    def norm(self, t):
        if t.id in self.memo:
            return self.memo[t.id]
        x = t
        if t.k == 'F':
            path, b = [], t
            while b.k == 'F':
                path.insert(0, (b.a[1], b.a[2]))
                b = b.a[0]
            path = tuple(path)
            moved = False
            while b.k == 'r' and b.a[0].endswith('!0') and any(path[:len(k)] == k for k in self.keeps.get(b.a[0][:-2], ())):
                b, moved = b.a[1][0], True
            if moved:
                for p in path:
                    b = proj(b, p)
                x = self.norm(b)
        elif t.k in ('bin', 'not', 'sel', 'ap', 'upd'):
            x = engine.rebuild(t.k, tuple(self.norm(y) if isinstance(y, Term) else y for y in t.a))
        self.memo[t.id] = x
        return x

    def win(self, v):
        return self.norm(proj(proj(v, (None, self.st)), (None, self.wi)))

    def num(self, v, i):
        return self.norm(proj(v, (None, i)))


def chain(v, base):
    out = []
    while v is not base:
        if v.k != 'upd':
            return None
        out.insert(0, (v.a[1], v.a[2]))
        v = v.a[0]
    return out


def reads(t):
    """Positions of the input bytes taken on a path, and the position at which its end was seen (or None)."""
    taken, end = [], None
    for ev in t.evs:
        if ev[0] == 'branch':
            x, v = ev[1], ev[2]
            while x.k == 'not':
                x, v = x.a[0], 1 - v
            if x.k == 'bin' and x.a[0] == 'Lt' and x.a[3] is LEN:
                if v:
                    taken.append(x.a[2])
                else:
                    end = x.a[2]
    return taken, end


def role(ts, cands, start, delta, mod=None, lins=None, fixed=None):
    """Linear forms over the loop variables at each head that begin as start and change by delta on each path, or None.
    cands(h) -> forms; delta(t) -> form or None (unknown path: not looked at)."""
    heads = [h for h in ts.heads if any(t.dst is h for t in ts.ts)]
    lins = lins or (lambda t, x: lin(x, mod))

    def at(t, form):
        """form at the target, over the variables of the source."""
        out = {}
        for x, c in form.items():
            out = ladd(out, {None: c} if x is None else lins(t, t.to(x)), 1 if x is None else c, mod)
        return out

    def fits(t, asg):
        d = delta(t)
        if d is None:
            return True
        src = start if t.first else asg.get(t.src.id)
        if src is None:
            return True
        s0 = {}
        for x, c in src.items():
            s0 = ladd(s0, {None: c} if x is None else lins(t, x), 1 if x is None else c, mod)
        return not ladd(at(t, asg[t.dst.id]), ladd(s0, d, 1, mod), -1, mod)

    def go(i, asg):
        if i == len(heads):
            return asg
        h = heads[i]
        for f in ([fixed[h.id]] if fixed and h.id in fixed else cands(h)):
            a = dict(asg)
            a[h.id] = f
            if all(fits(t, a) for t in ts.ts if t.dst is not None and t.dst.id in a and (t.first or t.src.id in a) and (t.dst is h or t.src is h)):
                x = go(i + 1, a)
                if x:
                    return x
        return None
    return go(0, {})


def c21(s, r):
    e = Enc(s, r)
    ts, nrm = e.ts, e.norm
    TOKEN = 'each token stands for the next bytes of the input'
    WIN = 'each input byte is put in the window once, at its place'
    RANGE = 'no index or number of encode leaves its range'
    END = 'encode ends exactly when every byte of the input is written'
    for op in e.ops:
        keep = [k for k in e.keeps[op]]
        need = [((None, e.st), (None, e.wi))] + ([] if op == e.INS else [((None, i),) for i in e.nums])
        r.check(all(k in keep for k in need), 'helpers leave the window and the match alone', op, 'C21/touch/%s' % op.split('::')[-1],
                '%s changes the text window%s' % (op, '' if op == e.INS else ' or the match found'))
    for t in ts.ts:
        t.ctx = t.known()
        t.taken, t.end = reads(t)
        t.calls = [ev for ev in t.evs if ev[0] == 'call' and ev[1] in e.ops]
        t.tok = [ev for ev in t.calls if ev[1] in (e.CH, e.PO)]
    ts.ts = [t for t in ts.ts if t.ctx is not None]
    allphis = []
    for h in ts.heads:
        allphis += [p for p in ts.phis(h) if p not in allphis]
    cands = lambda h: [{p: 1} for p in ts.phis(h)] + [{p: 1} for p in allphis if p not in ts.phis(h)] + [{}]

    def whole(t, x):
        # before invariants are known, arithmetic is taken not to wrap (its overflow checks are obligations below)
        return lin(nrm(x))
    # q: bytes of the input taken
    q = role(ts, cands, {}, lambda t: {None: len(t.taken)} if t.taken else {}, None, whole)
    if q is None:
        r.bad('C21/read', 'the bytes encode takes from its input are not counted one by one')
        return
    # r: the window position of the next byte to be written, from the literals
    lits = {}
    for t in ts.ts:
        for ev in t.tok:
            x = nrm(ev[3][1])
            while x.k == 'ap' and x.a[0] == 'trunc':
                x = x.a[2]
            if ev[1] == e.CH and x.k == 'sel' and x.a[0] is e.win(ts.value(t.src, SS)) if t.src is not None and ts.value(t.src, SS) is not None else False:
                lits.setdefault(t.src.id, set()).add(x.a[1])
    if not lits or any(len(v) != 1 for v in lits.values()):
        r.bad('C21/literal', 'encode writes no literal that is the byte at one position of the window')
        return
    mains = set(t.src.id for t in ts.ts if t.tok and t.src is not None)
    if mains != set(lits):
        r.bad('C21/literal', 'encode writes tokens at a point where it has no literal')
        return

    def search_r():
        fixed = {h: lin(list(v)[0], N) for h, v in lits.items()}
        heads = [h for h in ts.heads if any(t.dst is h for t in ts.ts)]

        def at(t, form):
            out = {}
            for x, c in form.items():
                out = ladd(out, {None: c} if x is None else lin(nrm(t.to(x)), N), 1 if x is None else c, N)
            return out

        def step(t, a):
            src = {None: START} if t.first else a[t.src.id]
            d = ladd(at(t, a[t.dst.id]), src, -1, N)
            return d.get(None, 0) if set(d) <= {None} else None

        def go(i, a):
            if i == len(heads):
                return a
            h = heads[i]
            for f in ([fixed[h.id]] if h.id in fixed else cands(h) + [{None: START}]):
                b = dict(a)
                b[h.id] = f
                ok = True
                for t in ts.ts:
                    if t.dst is not None and t.dst.id in b and (t.first or t.src.id in b) and (t.dst is h or t.src is h):
                        k = step(t, b)
                        if k is None or k > 1 or t.first and k or t.tok and k:
                            ok = False
                            break
                if ok:
                    x = go(i + 1, b)
                    if x:
                        return x
            return None
        a = go(0, {})
        if a:
            for t in ts.ts:
                t.adv = step(t, a) if t.dst is not None else 0
        return a
    rr = search_r()
    if rr is None:
        r.bad('C21/position', 'the position of the next byte to encode does not advance one by one from 1988')
        return
    # L: bytes taken and not yet encoded
    form = lambda n: {None: n} if n else {}
    L = role(ts, cands, {}, lambda t: form(len(t.taken) - t.adv) if t.dst is not None else None, None, whole)
    if L is None:
        r.bad('C21/ahead', 'the bytes taken from the input and not yet encoded are not counted')
        return
    # pend: bytes of the last token still to be passed over
    def size(t):
        """Bytes a token stands for."""
        x = nrm(t.tok[0][3][1])
        if [ev[1] for ev in t.tok] == [e.CH]:
            return {None: 1}
        return ladd(lin(x), {None: -253})

    toks = {t.dst.id for t in ts.ts if t.tok and t.dst is not None}
    inner, w = set(toks), [h for h in ts.heads if h.id in toks]
    while w:
        h = w.pop()
        for t in ts.out(h):
            if t.dst is not None and t.dst.id not in inner and t.dst.id not in mains:
                inner.add(t.dst.id)
                w.append(t.dst)
    if toks & mains:
        r.bad('C21/pass', 'encode writes the next token without passing over the bytes of the last one')
        return

    def pairs(h):
        ps = [p for p in allphis if p.a[1] != SS] if allphis else []
        own = ts.phis(h)
        out = [{p: 1} for p in own]
        for a in ps:
            for b in own:
                if a is not b:
                    out.append({a: 1, b: -1})
        # what does not change within the loop of the token may be in no loop variable
        return out
    def pairs2(h):
        for f in pairs(h):
            yield f
        for t in ts.into(h):
            if t.tok:
                n = size(t)
                for b in ts.phis(h):
                    yield ladd(n, {b: 1}, -1)
    fixed = {h.id: {} for h in ts.heads if h.id not in inner}

    def dpend(t):
        if t.dst is None or t.dst.id in mains or t.dst.id not in inner:
            return None
        if t.tok:
            return size(t)
        return form(-t.adv)
    pend = role(ts, pairs2, {}, dpend, None, whole, fixed)
    if pend is None:
        r.bad('C21/pass', 'the bytes a token stands for are not passed over one by one')
        return
    # reachable combinations of what is known at each head
    preds = lambda h: {
        'ended': [ladd(q[h.id], {LEN: 1}, -1)],
        'full': [ladd(L[h.id], {None: -F}), ladd({None: F}, L[h.id], -1)],
        'empty': [ladd({}, L[h.id], -1)],
        'some': [ladd(L[h.id], {None: -1})],
        'atmost': [ladd({None: F}, L[h.id], -1)],
        'below': [ladd({None: F - 1}, L[h.id], -1)],
        'nonneg': [L[h.id]],
        'done': [ladd({}, pend[h.id], -1)],
        'rest': [ladd(pend[h.id], {None: -1})],
        'pass': [pend[h.id]],
        'fits': [ladd(L[h.id], pend[h.id], -1)],
        'taken': [ladd({LEN: 1}, q[h.id], -1)],
        'low': [ladd({None: F}, q[h.id], -1)],
        'q': [q[h.id]],
    }
    seen = {}
    work = []

    steady = oneway(ts, nrm)

    def forms(h, m):
        return [f for k in m for f in preds(h).get(k, ())] + steady

    def into(t, inv, f, fresh, tree):
        h = t.dst
        got = set()
        for k, fs in preds(h).items():
            good = True
            for x in fs:
                d = {}
                for y, c in x.items():
                    d = ladd(d, {None: c} if y is None else f.lin(t.to(y)) if y is not LEN else {LEN: 1}, 1 if y is None else c)
                if not f.proves(d):
                    good = False
                    break
            if good:
                got.add(k)
        if fresh:
            got.add('fresh')
        if tree:
            got.add('tree')
        return frozenset(got)
    n = {'lit': 0, 'match': 0, 'ret': 0}

    def reach(h, m):
        ms = seen.setdefault(h.id, [])
        if any(x <= m for x in ms):
            return
        ms[:] = [x for x in ms if not m <= x] + [m]
        if len(ms) > 12:
            raise Missing('encode has too many states to follow')
        work.append((h, m))
    for t in ts.ts:
        if t.first and t.dst is not None:
            reach(t.dst, into(t, (), Facts(t.ctx, t.facts, (), nrm), False, False))
    bad = set()

    def fail(k, msg):
        if k not in bad:
            bad.add(k)
            r.bad('C21/' + k, msg)
    while work:
        h, m = work.pop()
        if m not in seen[h.id]:
            continue
        for t in ts.out(h):
            inv = forms(h, m)
            for w in ranges(t, h, inv, nrm, r, RANGE):
                fail('range/' + w[0], w[1])
            f = Facts(t.ctx, t.facts, inv, nrm)
            if f.impossible():
                continue
            place = loc(next((ev for ev in t.evs if at(ev)), ())) if any(at(ev) for ev in t.evs) else 'encode'
            if t.lab is not None and t.lab != 'ret':
                fail('panic', 'encode may panic at %s' % place)
                continue
            base = ts.value(h, SS)
            fin = t.final(SS)
            d = chain(e.win(fin), e.win(base)) if fin is not None else []
            if d is None:
                fail('window', 'the window is not changed byte by byte, at %s' % place)
                continue
            r0 = rr[h.id]
            lq = q[h.id]
            # writes
            prim = {}
            okw = True
            for ix, v in d:
                v = nrm(v)
                if not (v.k == 'sel' and v.a[0] is IT and v.a[1] in t.taken):
                    fail('window/byte', 'something other than the byte just taken from the input is put in the window, at %s' % place)
                    okw = False
                    continue
                prim.setdefault(v.a[1], []).append(nrm(ix))
            for k, x in enumerate(t.taken):
                ws = prim.get(x, [])
                lo = [y for y in ws if below(t, f, y, N)]
                hi = [y for y in ws if y not in lo]
                if len(lo) != 1:
                    fail('window/lost', 'a byte taken from the input is put in the window %d times, at %s' % (len(lo), place))
                    okw = False
                    continue
                # its place: 1988 + its number, which is r + L (modulo 2048)
                want = ladd(ladd(r0, {}, 1, N), lmod(L[h.id]), 1, N)
                want = ladd(want, {None: k} if k else {}, 1, N)
                if not congruent(t, f, ladd(lin(lo[0], N), want, -1, N), h, nrm):
                    fail('window/place', 'an input byte is not put at its place in the window, behind the previous one, at %s' % place)
                    okw = False
                far = f.proves(ladd(f.lin(lo[0]), {None: -(F - 1)}))
                near = f.proves(ladd({None: F - 2}, f.lin(lo[0]), -1))
                if hi:
                    if len(hi) != 1 or not near or ladd(f.lin(hi[0]), f.lin(lo[0]), -1) != {None: N}:
                        fail('window/copy', 'the copy of the beginning of the window behind its end is not the same, at %s' % place)
                        okw = False
                elif not far:
                    fail('window/copy', 'the beginning of the window is not copied behind its end, at %s' % place)
                    okw = False
                # the old byte is forgotten first
                if 'tree' in m:
                    dl = [ev for ev in t.calls if ev[1] == e.DEL and not ladd(lin(nrm(ev[3][1]), N), lin(lo[0], N), -1, N)]
                    # before anything is inserted while the new byte is there
                    def holds(ev):
                        c = chain(e.win(ev[3][0]), e.win(base))
                        return c is None or any(nrm(v) is mk('sel', IT, x) for i_, v in c)
                    first = [i for i, ev in enumerate(t.calls) if ev[1] == e.INS and holds(ev)]
                    early = [ev for ev in dl if not first or t.calls.index(ev) < first[0]]
                    if not early:
                        fail('window/stale', 'a position of the window is overwritten while matches can still begin there, at %s' % place)
                        okw = False
                if okw:
                    r.ok(WIN, 'a byte taken at %s' % place)
            # insertions
            tree = 'tree' in m
            fresh = False
            for ev in t.calls:
                if ev[1] == e.INS:
                    a = lin(nrm(ev[3][1]), N)
                    nxt = ladd(r0, {None: t.adv} if t.adv else {}, 1, N)
                    # at the next position, after everything else
                    here = congruent(t, f, ladd(a, nxt, -1, N), h, nrm)
                    old = f.proves(ladd(f.lin(ev[3][1]), {None: -F})) and f.proves(ladd({None: START}, f.lin(ev[3][1]), -1)) and not ladd(r0, {None: START}, -1, N)
                    if not here and not old:
                        fail('insert', 'matches are looked for at another position than the next one, at %s' % place)
                    fresh = here and e.win(ev[3][0]) is e.win(fin)
                    tree = True
            if not any(ev[1] == e.INS for ev in t.calls) and 'fresh' in m and not t.adv and not d and fin is not None and all(e.num(fin, i) is e.num(base, i) for i in e.nums):
                fresh = True
            # tokens
            if t.tok:
                names = [ev[1] for ev in t.tok]
                x = nrm(t.tok[0][3][1])
                cv = t.tok[0][3][0]
                if 'done' not in m or 'some' not in m:
                    fail('order', 'a token is written although the bytes of the last one are not passed over or none is left, at %s' % place)
                    continue
                if names == [e.CH]:
                    y = x
                    while y.k == 'ap' and y.a[0] == 'trunc':
                        y = y.a[2]
                    if not (y.k == 'sel' and y.a[0] is e.win(base) and not ladd(lin(y.a[1], N), r0, -1, N)) or d or not inwin(ts, h, t, y.a[1], nrm):
                        fail('literal/byte', 'the literal %s is not the next byte of the input, at %s' % (show(x)[:80], place))
                        continue
                    n['lit'] += 1
                    r.ok(TOKEN, 'a literal, %s' % place)
                elif names == [e.CH, e.PO]:
                    sz = ladd(f.lin(x), {None: -253})
                    if not (f.proves(ladd(sz, {None: -3})) and f.proves(ladd({None: 60}, sz, -1))):
                        fail('match/range', 'a symbol %s outside 256..313 is written for a match, at %s' % (show(x)[:60], place))
                        continue
                    ml = [i for i in e.nums if f.proves(ladd(f.lin(e.num(base, i)), sz, -1))]
                    mp = [i for i in e.nums if nrm(t.tok[1][3][1]) is e.num(base, i)]
                    if 'fresh' not in m or d:
                        fail('match/old', 'a match is written that was not found at the next position, at %s' % place)
                        continue
                    if len(mp) != 1 or not [i for i in ml if i != mp[0]]:
                        fail('match/found', 'the length or the position written is not that of the match found, at %s' % place)
                        continue
                    if not f.proves(ladd(L[h.id], sz, -1)):
                        fail('match/beyond', 'a match may be written that is longer than the input that is left, at %s' % place)
                        continue
                    n['match'] += 1
                    r.ok(TOKEN, 'a match, %s' % place)
                else:
                    fail('order', 'encode writes symbols and positions in another order than symbol, position, at %s' % place)
                    continue
            if t.adv and 'done' in m and not t.tok:
                fail('skip', 'bytes are passed over that no token stands for, at %s' % place)
                continue
            if t.adv and not f.proves(ladd(pend[h.id], {None: -t.adv})):
                fail('skip', 'more bytes are passed over than the token stands for, at %s' % place)
                continue
            if t.lab == 'ret':
                if d or not f.proves(ladd({}, L[h.id], -1)) or not f.proves(ladd({}, pend[h.id], -1)):
                    fail('end/left', 'encode ends although bytes it has taken are not written, at %s' % place)
                elif not f.proves(ladd(lq, {LEN: 1}, -1)):
                    fail('end/input', 'encode ends although the input may have more bytes, at %s' % place)
                else:
                    n['ret'] += 1
                    r.ok(END, 'a return')
                continue
            if t.dst.id in mains and h.id not in mains and h.id in inner and not f.proves(ladd({}, pend[h.id], -1)):
                fail('pass/short', 'encode goes on with the next token although the last one stands for more bytes, at %s' % place)
                continue
            reach(t.dst, into(t, inv, f, fresh, tree))
    if not bad:
        r.check(n['lit'] > 0 and n['match'] > 0 and n['ret'] > 0, TOKEN, 'all kinds', 'C21/kinds', 'encode writes no literal, no match or does not end')
    r.need(TOKEN, 3)
    r.need(WIN, 2)
    r.need(END, 1)
    char(s, r, e)


def oneway(ts, nrm):
    """Bounds of the loop variables that begin at constants and only grow, or only shrink."""
    out = []
    for h in ts.heads:
        for p in ts.phis(h):
            vs = [(t, nrm(t.asg.get(p, p))) for t in ts.into(h)]
            first = [v.a[0] for t, v in vs if v.k == 'I']
            steps = [(t, ladd(lin(v), {p: 1}, -1)) for t, v in vs if v.k != 'I']
            if not first or any(set(d) - {None} for t, d in steps):
                continue
            steps = [(t, d.get(None, 0)) for t, d in steps]
            if all(k >= 0 for t, k in steps) and all(k == 0 or Facts(t.ctx, t.facts, (), nrm).lin(t.asg[p]) == {p: 1, None: k} for t, k in steps):
                out.append(ladd({p: 1}, {None: min(first)}, -1))
            if all(k <= 0 for t, k in steps) and all(k == 0 or Facts(t.ctx, t.facts, (), nrm).proves({p: 1, None: k}) for t, k in steps):
                out.append(ladd({None: max(first)}, {p: 1}, -1))
        # pairs whose sum or difference stays what it is
        ps = ts.phis(h)
        fs = [(t, {p: Facts(t.ctx, t.facts, (), nrm).lin(t.asg.get(p, p)) for p in ps}) for t in ts.into(h)]
        for i, a in enumerate(ps):
            for b in ps[i + 1:]:
                for c in (1, -1):
                    d = [ladd(v[a], v[b], c) for t, v in fs]
                    k = [x.get(None, 0) for x in d if set(x) <= {None}]
                    if k and k[0] == max(k) == min(k) and all(set(x) <= {None} or x == {a: 1, b: c} for x in d):
                        x = ladd({a: 1, b: c}, {None: k[0]}, -1)
                        out += [x, ladd({}, x, -1)]
    return out


def lmod(f):
    return {x: c % N for x, c in f.items() if c % N}


def below(t, f, x, n):
    hi = t.ctx.bounds(x)[1]
    return hi is not None and hi < n or f.proves(ladd({None: n - 1}, f.lin(x), -1)) or bounded_phi(t, x, n)


def bounded_phi(t, x, n):
    if x.k != 'P':
        return False
    ts = t.ts
    seen = set()

    def go(p):
        if p in seen:
            return True
        seen.add(p)
        for y in ts.ts:
            if p in y.asg:
                v = y.asg[p]
                b = y.ctx.bounds(v)[1] if y.ctx else None
                if b is not None and b < n:
                    continue
                if v.k == 'P' and go(v):
                    continue
                return False
        return True
    return go(x)


def inwin(ts, h, t, x, nrm):
    """x is below 2048 there."""
    return bounded_phi(t, x, N) or t.ctx.bounds(x)[1] is not None and t.ctx.bounds(x)[1] < N


def ranges(t, h, inv, nrm, r, rule):
    """Overflow and bounds checks on a path that its conditions do not decide."""
    ts = t.ts
    small = []
    for p in subterms_of(t):
        if p.k == 'P' and bounded_phi(t, p, N):
            small.append({p: -1, None: N - 1})
    fs = list(ts.headfacts(h))
    out = []
    for ev in t.evs:
        if ev[0] == 'branch':
            fs.append((ev[1], ev[2]))
        elif ev[0] == 'branchne':
            fs.append((ev[1], frozenset(ev[2])))
        elif ev[0] == 'panic':
            out.append(('panic', 'encode may panic, at %s' % loc(ev)))
        elif ev[0] == 'assert':
            c = Ctx(ts.g.e, [], {}, {}, {})
            for x, v in fs:
                if isinstance(v, frozenset):
                    c.assume_ne(x, list(v))
                else:
                    c.assume(x, v)
            f = Facts(c, fs, inv + small, nrm)
            x = ev[2]
            ok = c.known(x) == 1 or f.impossible()
            if not ok and x.k == 'not' and x.a[0].k == 'ap' and x.a[0].a[0] == 'ovf':
                op, ty, a, b = x.a[0].a[1:5]
                top = (1 << engine.W.get(ty, 8)) - 1
                if op == 'Add':
                    ok = f.proves(ladd({None: top}, ladd(f.lin(a), f.lin(b)), -1), 3)
                elif op == 'Sub':
                    ok = f.proves(ladd(f.lin(a), f.lin(b), -1), 3)
            elif not ok and x.k == 'bin' and x.a[0] == 'Lt':
                ok = f.proves(ladd(ladd(f.lin(x.a[3]), f.lin(x.a[2]), -1), {None: -1}), 3)
            if ok:
                r.ok(rule, '%s, %s' % (ev[1], loc(ev)))
                fs.append((x, 1))
            else:
                out.append((ev[1].replace(' ', ''), '%s may panic (%s of %s), at %s' % (fnname(ev).split('::')[-1], ev[1], ', '.join(show(y)[:60] for y in ev[3]), loc(ev))))
    return out


def subterms_of(t):
    out = set()
    for ev in t.evs:
        for x in ev[1:3]:
            if isinstance(x, Term):
                out |= set(subterms(x))
    return out


def congruent(t, f, d, h, nrm):
    """d is 0 modulo 2048, by the facts of the path and the pairs of loop variables that keep their distance."""
    if f.equal(d, N):
        return True
    ts = t.ts
    ks = distances(ts, h, nrm)
    # replace variables by others at a constant distance
    for (a, b), k in ks.items():
        if a in d and b not in d or a in d and b in d:
            x = ladd(d, {a: 1, b: -1, None: -k % N} if k % N else {a: 1, b: -1}, -d[a], N)
            if f.equal(x, N):
                return True
    return False


def distances(ts, h, nrm):
    """{(a, b): k}: at h, a - b is k modulo 2048, by induction over all paths."""
    memo = ts.__dict__.setdefault('_dist', {})
    if h.id in memo:
        return memo[h.id]
    # start from all pairs and the distance on some way in, remove what does not hold
    heads = [x for x in ts.heads if any(t.dst is x for t in ts.ts)]
    cand = {x.id: {} for x in heads}
    visible = {}
    for x in heads:
        visible[x.id] = [p for p in ts.phis(x)]
    for x in heads:
        for a in visible[x.id]:
            for b in visible[x.id]:
                if a is not b and a.id < b.id and a in ts.phis(x) and b in ts.phis(x):
                    for t in ts.into(x):
                        if t.src is x:
                            continue
                        va, vb = lin(nrm(t.asg.get(a, a)), N), lin(nrm(t.asg.get(b, b)), N)
                        dd = ladd(va, vb, -1, N)
                        if set(dd) <= {None}:
                            cand[x.id][(a, b)] = dd.get(None, 0)
                        else:
                            cand[x.id].setdefault((a, b), None)
    # those whose way in is a pair of another head take its distance
    for i in range(2 * len(heads) + 2):
        for x in heads:
            for (a, b), k in list(cand[x.id].items()):
                if k is None:
                    for t in ts.into(x):
                        if t.src is x or t.src is None:
                            continue
                        va, vb = nrm(t.asg.get(a, a)), nrm(t.asg.get(b, b))
                        for (c, d), k2 in cand.get(t.src.id, {}).items():
                            if k2 is not None and (va, vb) in ((c, d), (d, c)):
                                cand[x.id][(a, b)] = k2 if (va, vb) == (c, d) else -k2 % N
    for x in heads:
        cand[x.id] = {p: k for p, k in cand[x.id].items() if k is not None}
    changed = True
    while changed:
        changed = False
        for x in heads:
            for (a, b), k in list(cand[x.id].items()):
                for t in ts.into(x):
                    va, vb = lin(nrm(t.asg.get(a, a)), N), lin(nrm(t.asg.get(b, b)), N)
                    dd = ladd(ladd(va, vb, -1, N), {None: -k % N} if k % N else {}, 1, N)
                    if not dd:
                        continue
                    ok = False
                    if t.src is not None:
                        for (c, d), k2 in cand.get(t.src.id, {}).items():
                            for sg in (1, -1):
                                if ladd(dd, {c: sg, d: -sg, None: -sg * k2 % N} if k2 % N else {c: sg, d: -sg}, -1, N) == {}:
                                    ok = True
                    if not ok:
                        del cand[x.id][(a, b)]
                        changed = True
                        break
    full = {}
    for x, c in cand.items():
        full[x] = {}
        for (a, b), k in c.items():
            full[x][(a, b)] = k
            full[x][(b, a)] = -k % N
    memo.update(full)
    return memo[h.id]


def char(s, r, e):
    """A symbol is written as the bits of the nodes from the root to its leaf; the tree learns it once, afterwards."""
    CODE, TELL = 'a symbol is written as the way from the root to its leaf', 'the tree is updated once with each symbol'
    UP = member(s, 'LzHufState', 'update', 2, '()')
    ws = puts(s)
    ng = s.fn(LZ + 'LzHufState::new')
    new = fields(rets(ng)[0][0])
    pa = [i for i, f in enumerate(new) if array_size(ng, f) == 941]
    if len(pa) != 1:
        raise Missing('no parents of 627 nodes and 314 leaves')
    c = mk('Y', 'c')
    ts = System(s.fn(e.CH, [SELF, c], {'opaque': (UP,) + tuple(ws)}, cells={'#self': mk('Y', 'enc')}))
    up0 = index_of(index_of(mk('Y', 'enc'), e.st), pa[0])
    ts.ts = [t for t in ts.ts if t.known() is not None]
    loops = [h for h in ts.heads if any(t.dst is h for t in ts.ts)]
    for t in ts.ts:
        t.calls = [ev for ev in t.evs if ev[0] == 'call' and (ev[1] == UP or ev[1] in ws)]
        v = t.final(SS)
        if t.dst is not None and v is not None and not t.calls and index_of(index_of(v, e.st), pa[0]) is not index_of(index_of(ts.value(t.src, SS) or mk('Y', 'enc'), e.st), pa[0]) and not t.first:
            r.bad('C21/code/state', 'the tree changes while a symbol is written')
            return
    if len(loops) != 1 or any(t.calls for t in ts.ts if t.dst is not None):
        r.bad('C21/code/walk', 'a symbol is not written by one walk from its leaf to the root')
        return
    h = loops[0]
    same = {index_of(index_of(ts.value(h, SS), e.st), pa[0]): up0}
    nrm = lambda t: subst(t, same)
    ps = ts.phis(h)
    first = [t for t in ts.into(h) if t.first]
    rounds = [t for t in ts.into(h) if not t.first]
    start = lambda p: nrm(first[0].asg[p]) if len(first) == 1 and p in first[0].asg else None
    leaf = None

    def is_leaf(x):
        """parents[symbol + 627]"""
        return x is not None and x.k == 'sel' and x.a[0] is up0 and lin(x.a[1]) == {c: 1, None: 627}

    def parent(x, of):
        return x.k == 'sel' and x.a[0] is up0 and lin(nrm(x.a[1])) == lin(of)
    nodes = [p for p in ps if is_leaf(start(p)) and all(parent(nrm(t.asg.get(p, p)), p) for t in rounds)]
    counts = [p for p in ps if start(p) is I(0) and all(lin(t.asg.get(p, p)) == {p: 1, None: 1} for t in rounds)]
    if len(nodes) != 1 or not counts:
        r.bad('C21/code/walk', 'writing a symbol does not go from its leaf to the parent of each node, counting them')
        return
    k = nodes[0]
    bitsof = bits.sym('c', 32)

    def shifted(t, p, v):
        """v is p with the bit of node k put in front, on a path."""
        env = {p: bitsof, k: bits.sym('k', 16)}
        got = bits.linear(v, env)
        if got is None:
            return False
        got = bits.pad(got, 32)[:32]
        f = t.known()
        b = f.known(mk('bin', 'BitAnd', 'u16', k, I(1)))
        for x, y in t.facts:
            z = y
            while x.k == 'not' and isinstance(z, int):
                x, z = x.a[0], 1 - z
            if x.k == 'bin' and x.a[0] == 'Eq' and x.a[3].k == 'I' and x.a[3].a[0] in (0, 1) and isinstance(z, int):
                o = bits.linear(x.a[2], env)
                if o is not None and bits.pad(o, 16)[0] == frozenset([('k', 0)]) and not any(bits.pad(o, 16)[1:]):
                    b = x.a[3].a[0] if z else 1 - x.a[3].a[0]
            elif x.k != 'I' and isinstance(z, int):
                o = bits.linear(x, env)
                if o is not None and bits.pad(o, 16)[0] == frozenset([('k', 0)]) and not any(bits.pad(o, 16)[1:]):
                    b = z
            elif isinstance(z, frozenset):
                o = bits.linear(x, env)
                if o is not None and bits.pad(o, 16)[0] == frozenset([('k', 0)]) and not any(bits.pad(o, 16)[1:]):
                    b = 1 if 0 in z else 0 if 1 in z else b
        fix = lambda xs: [y if y != frozenset([('k', 0)]) or b is None else (frozenset([bits.ONE]) if b else frozenset()) for y in xs]
        return fix(got) == fix(bitsof[1:] + [frozenset([('k', 0)])])
    codes = [p for p in ps if start(p) is I(0) and p not in counts and all(shifted(t, p, nrm(t.asg.get(p, p))) for t in rounds)]
    if len(codes) != 1:
        r.bad('C21/code/bits', 'the code of a symbol is not made of the lowest bit of each node, the one nearest to the root first')
        return
    code = codes[0]
    for t in rounds:
        r.ok(CODE, 'a node, %s' % loc(next(ev for ev in t.evs if at(ev))) if any(at(ev) for ev in t.evs) else 'a node')
    for t in ts.ts:
        if t.dst is not None or t.first and t.dst is h:
            # goes on only below the root
            if t.src is h:
                if not differs(t, nrm, nrm(t.asg[k]), 626) and not differs(t, nrm, k, 626):
                    r.bad('C21/code/root', 'the walk goes on although it may have reached the root')
            continue
        if t.lab != 'ret':
            r.bad('C21/code/panic', 'encode_char may panic')
            continue
        put = [ev for ev in t.calls if ev[1] in ws]
        ups = [ev for ev in t.calls if ev[1] == UP]
        if len(put) != 1:
            r.bad('C21/code/put', 'a symbol is written %d times' % len(put))
            continue
        ix, w = ws[put[0][1]]
        n, v = nrm(put[0][3][ix]), nrm(put[0][3][3 - ix])
        last = [nrm(x) for x, y in known_eq(t, nrm, 626)]
        good = False
        for q in counts:
            # the bits up to here, or those and the one of this round
            if lin(n) == {q: 1} and v is code:
                good = good or any(x is k for x in last)
            elif lin(n) == {q: 1, None: 1} and w == 32 and shifted(t, code, v):
                good = good or any(parent(x, k) for x in last)
        r.check(good, CODE, 'the code', 'C21/code/whole', 'what is written for a symbol is not its code from the root to its leaf: %s bits of %s' % (show(n)[:60], show(v)[:60]))
        ok = len(ups) == 1 and lin(nrm(ups[0][3][1])) == {c: 1}
        r.check(ok, TELL, 'encode_char', 'C21/code/update', 'the tree is not updated exactly once with the symbol written')
    r.need(CODE, 2)
    r.need(TELL, 1)


def known_eq(t, nrm, v):
    """Terms that equal v on a path."""
    out = []
    for x, y in t.facts:
        while x.k == 'not' and isinstance(y, int):
            x, y = x.a[0], 1 - y
        if x.k == 'bin' and x.a[0] == 'Eq' and y == 1:
            for a, b in ((x.a[2], x.a[3]), (x.a[3], x.a[2])):
                if b is I(v):
                    out.append((a, 1))
        elif x.k == 'bin' and x.a[0] == 'Lt' and isinstance(y, int):
            # no node is above the root
            if x.a[3] is I(v) and y == 0:
                out.append((x.a[2], 1))
            elif x.a[2] is I(v - 1) and y == 1:
                out.append((x.a[3], 1))
        elif y == v and isinstance(y, int) and x.k not in ('bin', 'not', 'ap'):
            out.append((x, 1))
    return out


def differs(t, nrm, x, v):
    for a, y in t.facts:
        while a.k == 'not' and isinstance(y, int):
            a, y = a.a[0], 1 - y
        if a.k == 'bin' and a.a[0] == 'Eq' and y == 0 and any(nrm(p) is x and q is I(v) for p, q in ((a.a[2], a.a[3]), (a.a[3], a.a[2]))):
            return True
        if a.k == 'bin' and a.a[0] == 'Lt' and (y == 1 and nrm(a.a[2]) is x and a.a[3] is I(v) or y == 0 and nrm(a.a[3]) is x and a.a[2] is I(v - 1)):
            return True
        if nrm(a) is x and (isinstance(y, frozenset) and v in y or isinstance(y, int) and y != v):
            return True
    return False


# ---- the search for matches --------------------------------------------------------------------------
def cell(t):
    """(array, index modulo 2048: the beginning of the window is copied behind its end) a byte is read from."""
    while t.k == 'ap' and t.a[0] == 'trunc':
        t = t.a[2]
    if t.k != 'sel':
        return None
    b, i = t.a[0], lin(t.a[1], N)
    while b.k == 'ap' and b.a[0] == 'suffix':
        i = ladd(i, lin(b.a[2], N), 1, N)
        b = b.a[1]
    return b, i


def equalities(t, nrm):
    """Pairs of bytes that are equal on a path."""
    out = []
    for x, y in t.facts:
        while x.k == 'not' and isinstance(y, int):
            x, y = x.a[0], 1 - y
        a = b = None
        if x.k == 'bin' and x.a[0] == 'Eq' and (y == 1 or isinstance(y, frozenset) and 0 in y):
            a, b = nrm(x.a[2]), nrm(x.a[3])
        elif y == 0 and x.k == 'bin' and x.a[0] in ('Sub', 'BitXor'):
            a, b = nrm(x), I(0)
        if a is None:
            continue
        for u, v in ((a, b), (b, a)):
            if v is I(0) and u.k == 'bin' and u.a[0] in ('Sub', 'BitXor'):
                a, b = u.a[2], u.a[3]
        a, b = cell(a), cell(b)
        if a and b:
            out.append((a, b))
    return out


def c22(s, r):
    RULE = 'a match that is found is one'
    st, wi, nums, size = layout(s, 'C22')
    INS = member(s, ENC, 'insert_node', 2, '()')
    R = mk('Y', 'r')
    ts = System(s.fn(INS, [SELF, R], {}, cells={'#self': mk('Y', 'enc')}))
    W = index_of(index_of(mk('Y', 'enc'), st), wi)
    ts.ts = [t for t in ts.ts if t.known() is not None]
    same = {}
    for h in ts.heads:
        v = ts.value(h, SS)
        if v is not None:
            same[index_of(index_of(v, st), wi)] = W
    nrm = lambda t: subst(t, same)
    for t in ts.ts:
        v = t.final(SS)
        if v is not None and nrm(index_of(index_of(v, st), wi)) is not W:
            r.bad('C22/window', 'looking for a match changes the text window')
            return
    # the loop variable that counts equal bytes behind position p
    E = lambda t: equalities(t, nrm)

    def step(t, i, P):
        """On this path the bytes i behind the next position and behind P are equal."""
        a = ladd({R: 1}, lin(i, N), 1, N)
        b = ladd(P, lin(i, N), 1, N)
        return any(x[0] is W and y[0] is W and (x[1] == a and y[1] == b or x[1] == b and y[1] == a) for x, y in E(t))
    memo = {}

    def counts(h, i, P):
        """At head h the bytes 1 .. i-1 behind the next position and behind P are equal."""
        k = (h.id, i, tuple(sorted((x.id if x else 0, c) for x, c in P.items())))
        if k in memo:
            return memo[k]
        memo[k] = True
        ok = i.k == 'P'
        for t in ts.into(h) if ok else ():
            if any(x in t.asg and t.asg[x] is not x for x in P if x is not None) and t.src is h:
                ok = False
                break
            v = nrm(t.asg.get(i, i))
            P2 = {}
            for x, c in P.items():
                P2 = ladd(P2, {None: c} if x is None else lin(nrm(t.to(x)), N), 1 if x is None else c, N)
            if v.k == 'I' and v.a[0] <= 1:
                continue
            if t.src is None or not known_common(t, v, P2):
                ok = False
                break
        memo[k] = ok
        return ok

    def known_common(t, v, P):
        """On path t the bytes 1 .. v-1 behind the next position and behind P are equal."""
        if v.k == 'I' and v.a[0] <= 1:
            return True
        if t.src is None:
            return False
        h = t.src
        f = Facts(t.known(), t.facts, (), nrm)
        for i in ts.phis(h):
            d = ladd({i: 1}, lin(v), -1)
            if f.proves(d) and counts(h, i, P):
                return True
            if f.proves(ladd(d, {None: 1})) and counts(h, i, P) and step(t, i, P):
                return True
        return False

    def judge(l, p):
        """What is recorded, if the l-th number is the length of the match and the p-th its distance."""
        good, kinds, bad = [], set(), {}
        for t in ts.ts:
            v = t.final(SS)
            if t.src is None or v is None:
                continue
            b = ts.value(t.src, SS)
            if b is None:
                b = mk('Y', 'enc')
            now, was = [nrm(proj(v, (None, i))) for i in nums], [nrm(proj(b, (None, i))) for i in nums]
            if now == was and not t.first:
                continue
            place = loc(next(ev for ev in t.evs if at(ev))) if any(at(ev) for ev in t.evs) else 'insert_node'
            X, D = now[l], now[p]
            why = None
            if X.k == 'I' and X.a[0] <= 2:
                kinds.add('none')
            elif D is was[p] and X is not was[l]:
                why = 'the length of a match is set without its position'
            else:
                why = 'a match is recorded whose bytes were not found to be equal: length %s, position %s' % (show(X)[:80], show(D)[:120])
                P = ladd(ladd({R: 1}, lin(D, N), -1, N), {None: -1}, 1, N)
                # the position as the term that is compared
                for x, y in positions(D):
                    same_len = X is was[l] and not t.first
                    lens = [X] + ([z for z in eqs(t, X, nrm)] if same_len else [])
                    if lin(x, N) == P and any(known_common(t, z, lin(x, N)) for z in lens):
                        why = None
                        kinds.add('tie' if same_len else 'found')
                        break
            if why is None:
                good.append(place)
            else:
                bad.setdefault(why, place)
        if not bad and not ('none' in kinds and 'found' in kinds):
            bad['looking for a match records none'] = 'insert_node'
        return good, bad

    good, bad = min((judge(0, 1), judge(1, 0)), key=lambda x: len(x[1]))
    for place in good:
        r.ok(RULE, place)
    for why, place in bad.items():
        r.bad('C22/' + ('alone' if 'without' in why else 'kinds' if 'none' in why else 'match'), '%s, at %s' % (why, place))
    if not bad:
        r.ok(RULE, 'both kinds')
    r.need(RULE, 3)


def positions(D):
    """Terms within a distance that may be the position of the match."""
    return [(x, None) for x in sorted(set(subterms(D)), key=lambda x: x.id) if x.k in ('sel', 'P', 'Y', 'F') or x.k == 'bin' and x.a[0] in ('Add', 'Sub')]


def eqs(t, X, nrm):
    out = []
    for x, y in t.facts:
        while x.k == 'not' and isinstance(y, int):
            x, y = x.a[0], 1 - y
        if x.k == 'bin' and x.a[0] == 'Eq' and y == 1:
            a, b = nrm(x.a[2]), nrm(x.a[3])
            if a is X:
                out.append(b)
            elif b is X:
                out.append(a)
    return out
