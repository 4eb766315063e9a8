"""Rules about LZHUF compression: bit streams (C18), match positions (C19), the decoder (C20), the encoder (C21)."""
from lib import *
import bits

SELF = mk('R', ('G', '#self'), (), 'm')
OUT = mk('R', ('G', '#out'), (), 'm')
BYTE = lambda i: ap('trunc', 'u8', mk('Y', 'byte%d' % i))
MANY = 4          # input left: exactly 0 .. MANY-1 bytes, or at least MANY
UNROLL = {'unroll': 400, 'bits': True}


def methods(s, adt, argc, ret):
    """Methods of a type of this module with that many arguments and a result type, by name."""
    out = []
    for k, b in sorted(s.w.bodies.items()):
        if k.startswith(LZ + adt + '::') and b.argc == argc and 'CALLSITE' not in k and '{' not in k:
            if b.prog.types[b.locals[0][0]]['s'] == ret:
                out.append(k)
    return out


def fields(v):
    while v.k == 'U':
        v = mk('A', v.a[0].a[0], v.a[0].a[1], *[proj(v, (None, i)) for i in range(len(v.a[0].a) - 2)]) if v.a[0].k == 'A' else v.a[0]
    return list(v.a[2:])


def faults(g):
    """Constructs that may panic on some path of g."""
    return [ev for n, evs, m, lab in g.edges() for ev in evs if ev[0] == 'panic' or ev[0] == 'assert']


def msb(names):
    """Bits (least significant first) of an integer made of the named stream bits, first bit most significant."""
    return [frozenset([('s', n)]) for n in reversed(list(names))]


class Stream(object):
    """Abstract states of a bit reader or writer: constant fields as they are, other integers as named stream bits."""

    def __init__(self, value, env=None):
        self.value, self.env = value, env or {}


def settle(fs, env, keep):
    """Canonical (field values, environment): integer fields as constants or as fresh symbols standing for their bits.
    keep: the position of each stream bit still of interest, relative to the next one; others become arbitrary."""
    vals, env2, sig = [], {}, []
    for i, f in enumerate(fs):
        if f.k == 'I':
            vals.append(f)
            sig.append(f.a[0])
            continue
        bs = bits.linear(f, env)
        if bs is None:
            return None
        nb = []
        for j, b in enumerate(bs):
            if b and all(x in keep for x in b):
                nb.append(frozenset(('s', keep[x]) for x in b))
            elif not b or b == {bits.ONE}:
                nb.append(b)
            else:
                nb.append(frozenset([('?', i, j)]))
        while nb and not nb[-1]:
            nb.pop()
        if not nb:
            vals.append(I(0))
            sig.append(0)
            continue
        y = mk('Y', 'f%d' % i)
        vals.append(y)
        env2[y] = nb
        sig.append(tuple(nb))
    return vals, env2, tuple(sig)


def reader(s, r, pid, rule):
    """Every bit-reading method returns the next bits of the stream, from every state the reader can be in."""
    ops = methods(s, 'Biterator::<I>', 1, OPT + '<u8>')
    new = s.fn(LZ + 'Biterator::<I>::new', [A('array', 0)])
    init = [v for v, f, k in rets(new)]
    if not ops or len(init) != 1:
        raise Missing('no bit reader')
    fs = fields(init[0])
    src = [i for i, f in enumerate(fs) if f.k == 'A' and f.a[0] == 'it']
    if len(src) != 1:
        raise Missing('the bit reader does not hold its input')
    src = src[0]
    kinds = {}
    adt = init[0].a[:2]
    todo = [(tuple(f for i, f in enumerate(fs) if i != src), {}, 0, n) for n in range(MANY + 1)]
    seen = set()
    again = set()
    while todo:
        vals, env, q, n = todo.pop()
        sig = (tuple(v.id for v in vals), tuple(sorted((k.id, tuple(map(tuple, map(sorted, v)))) for k, v in env.items())), q, n)
        if sig in seen:
            continue
        seen.add(sig)
        if len(seen) > 2000:
            r.bad(pid + '/states', 'the bit reader keeps ever more bits back')
            return kinds
        have = q + 8 * n
        ins = [BYTE(i) for i in range(n)]
        env = dict(env)
        for i, b in enumerate(ins):
            env[b] = msb(range(q + 8 * i, q + 8 * i + 8))
        st = list(vals)
        st.insert(src, A('it', 0, A('array', 0, *ins), I(0)))
        for op in ops:
            name = op.split('::')[-1]
            where = 'with %d bits read ahead and %s%d more bytes of input' % (q, 'at least ' if n == MANY else '', n)
            try:
                g = s.fn(op, [SELF], UNROLL, cells={'#self': mk('A', *(adt + tuple(st)))})
            except Unsupported as x:
                r.bad('%s/%s' % (pid, name), '%s %s: %s' % (name, where, x))
                continue
            if faults(g):
                r.bad('%s/%s/panic' % (pid, name), '%s may panic %s at %s' % (name, where, loc(faults(g)[0])))
                continue
            rs = rets(g)
            if len(rs) != 1:
                r.bad('%s/%s' % (pid, name), 'the result of %s %s does not depend on the stream alone' % (name, where))
                continue
            v, fin, facts = rs[0]
            got = None
            if v.k == 'A' and v.a[0] == OPT and v.a[1] == 1:
                got = bits.linear(v.a[2], env)
            width = kinds.get(op)
            if width is None and got is not None:
                w = [w for w in (1, 8) if bits.pad(got, 64) == bits.pad(msb(range(w)), 64)]
                if w:
                    width = kinds[op] = w[0]
            if width is None and n < MANY:
                # not known yet what it reads: wait for a state with enough input
                if v is NONE and sig not in again:
                    again.add(sig)
                    seen.discard(sig)
                    todo.insert(0, (vals, {k: b for k, b in env.items() if k not in ins}, q, n))
                    continue
            if width is None:
                r.bad('%s/%s' % (pid, name), '%s %s returns %s instead of the next bit or byte of the stream' % (name, where, show(v)[:120]))
                continue
            if have >= width:
                if got is None or bits.pad(got, 64) != bits.pad(msb(range(width)), 64):
                    r.bad('%s/%s' % (pid, name), '%s %s returns %s instead of the next %d bits, most significant first' % (name, where, show(v)[:120], width))
                    continue
                used = width
            else:
                if v is not NONE:
                    r.bad('%s/%s/end' % (pid, name), '%s %s returns %s although only %d bits are left' % (name, where, show(v)[:120], have))
                    continue
                used = 0
            fs2 = fields(fin.get('#self') or mk('A', *(adt + tuple(st))))
            inp = fs2[src]
            if inp.k != 'A' or inp.a[0] != 'it' or inp.a[3].k != 'I' or inp.a[3].a[0] > n:
                r.bad('%s/%s/input' % (pid, name), 'the input is not simply read in order by %s' % name)
                continue
            took = inp.a[3].a[0]
            q2 = q + 8 * took - used
            if took >= MANY:
                r.bad('%s/%s/input' % (pid, name), '%s reads ever more input ahead' % name)
                continue
            keep = {('s', i): i - used for i in range(used, q + 8 * took)}
            st2 = settle([f for i, f in enumerate(fs2) if i != src], env, keep)
            if st2 is None or q2 < 0:
                r.bad('%s/%s/state' % (pid, name), '%s %s leaves a state that does not hold the rest of the stream' % (name, where))
                continue
            r.ok(rule, '%s %s' % (name, where))
            left = [n - took] if n < MANY else list(range(MANY - took, MANY + 1))
            for n2 in left:
                todo.append((tuple(st2[0]), st2[1], q2, n2))
    return kinds


def appended(v):
    """The bytes appended to $out in v, or None."""
    out = []
    while v is not None and v is not mk('Y', 'out'):
        if v.k == 'ap' and v.a[0] == 'push':
            out.insert(0, v.a[2])
            v = v.a[1]
        elif v.k == 'ap' and v.a[0] in ('concat', 'cat') and v.a[2].k == 'A' and v.a[2].a[0] == 'array':
            out[:0] = v.a[2].a[2:]
            v = v.a[1]
        else:
            return None
    return out


def writer(s, r, pid, rule):
    """put_code appends exactly the given bits, and what is left over at the end is flushed once, padded with zeros."""
    ops = [k for k in methods(s, "Bitbuffer::<'a>", 3, '()')]
    new = rets(s.fn(LZ + "Bitbuffer::<'a>::new", [OUT], cells={'#out': mk('Y', 'out')}))
    if not ops or len(new) != 1:
        raise Missing('no bit writer')
    v0 = new[0][0]
    adt = v0.a[:2]
    fs = fields(v0)
    dst = [i for i, f in enumerate(fs) if f is mk('Y', 'out')]
    if len(dst) != 1:
        raise Missing('the bit writer does not hold its output')
    dst = dst[0]
    flush = [k for k in s.w.bodies if k.startswith('<' + LZ + 'Bitbuffer<') and k.endswith('Drop>::drop')]
    todo = [(tuple(f for i, f in enumerate(fs) if i != dst), {}, 0)]
    seen = set()
    widths = {}
    for op in ops:
        b = s.w.bodies[op]
        ts = [b.prog.types[b.locals[i][0]]['s'] for i in (2, 3)]
        if ts[0] == ts[1] or 'u8' not in ts:
            r.bad(pid + '/put', '%s does not take a length and a code' % op)
            return
        widths[op] = (ts.index('u8'), bits.W[ts[1 - ts.index('u8')]])
    while todo:
        vals, env, q = todo.pop()
        sig = (tuple(v.id for v in vals), tuple(sorted((k.id, tuple(map(tuple, map(sorted, v)))) for k, v in env.items())), q)
        if sig in seen:
            continue
        seen.add(sig)
        if len(seen) > 200:
            r.bad(pid + '/states', 'the bit writer keeps ever more bits back')
            return
        st = list(vals)
        st.insert(dst, OUT)
        val = mk('A', *(adt + tuple(st)))
        for op in ops:
            name = op.split('::')[-1]
            li, cw = widths[op]
            for n in range(1, (24 if cw > 16 else 16) + 1):
                code = mk('Y', 'code')
                en = dict(env)
                en[code] = [frozenset()] * (cw - n) + msb(range(q, q + n))
                args = [None, I(n), code] if li == 0 else [None, code, I(n)]
                args[0] = SELF
                where = 'with %d bits pending and a code of %d bits' % (q, n)
                try:
                    g = s.fn(op, args, UNROLL, cells={'#self': val, '#out': mk('Y', 'out')})
                except Unsupported as x:
                    r.bad('%s/%s' % (pid, name), '%s %s: %s' % (name, where, x))
                    continue
                if faults(g):
                    r.bad('%s/%s/panic' % (pid, name), '%s may panic %s at %s' % (name, where, loc(faults(g)[0])))
                    continue
                rs = rets(g)
                out = appended(rs[0][1].get('#out')) if len(rs) == 1 else None
                if out is None:
                    r.bad('%s/%s' % (pid, name), 'what %s writes %s is not determined by the code' % (name, where))
                    continue
                bad = False
                for i, x in enumerate(out):
                    got = bits.linear(x, en)
                    if got is None or bits.pad(got, 8) != msb(range(8 * i, 8 * i + 8)) or any(got[8:]):
                        bad = True
                q2 = q + n - 8 * len(out)
                if bad or q2 < 0 or q2 >= 8:
                    r.bad('%s/%s' % (pid, name), '%s %s does not write the next bits to the output' % (name, where))
                    continue
                fs2 = fields(rs[0][1].get('#self') or val)
                keep = {('s', i): i - 8 * len(out) for i in range(8 * len(out), q + n)}
                st2 = settle([f for i, f in enumerate(fs2) if i != dst], en, keep)
                if st2 is None:
                    r.bad('%s/%s/state' % (pid, name), '%s %s leaves a state that does not hold the pending bits' % (name, where))
                    continue
                r.ok(rule, '%s %s' % (name, where))
                todo.append((tuple(st2[0]), st2[1], q2))
        ends = [(k, [SELF]) for k in flush] or []
        if not flush:
            r.bad(pid + '/flush', 'nothing writes the pending bits when the writer goes away')
        for k, args in ends:
            g = s.fn(k, args, UNROLL, cells={'#self': val, '#out': mk('Y', 'out')})
            rs = rets(g)
            out = appended(rs[0][1].get('#out')) if len(rs) == 1 else None
            want = [] if q == 0 else [bits.pad([], 8 - q) + msb(range(q))]
            ok = not faults(g) and out is not None and len(out) == len(want)
            for x, w in zip(out or [], want):
                got = bits.linear(x, env)
                ok = ok and got is not None and bits.pad(got, 8) == w and not any(got[8:])
            r.check(ok, 'pending bits are flushed once', 'with %d bits pending' % q, pid + '/flush', 'dropping the writer with %d bits pending does not write them exactly once, padded with zeros' % q)


def c18(s, r):
    rd, wr = 'the reader yields every bit of the stream once, in order', 'the writer appends exactly the bits of each code'
    reader(s, r, 'C18', rd)
    writer(s, r, 'C18', wr)
    r.need(rd, 100)
    r.need(wr, 100)
    r.need('pending bits are flushed once', 8)


# ---- match positions --------------------------------------------------------------------------------
def position_code():
    """The standard LZHUF code of the upper bits of a match position: [(length, code)] for 0..63."""
    out, code, last = [], 0, 3
    for n, l in ((1, 3), (3, 4), (8, 5), (12, 6), (24, 7), (16, 8)):
        code <<= l - last
        last = l
        for _ in range(n):
            out.append((l, code))
            code += 1
    assert code == 1 << 8
    return out


def member(s, adt, name, argc, ret):
    """A method by its name, or else the only one of that shape."""
    k = LZ + adt + '::' + name
    if s.has(k):
        return k
    c = methods(s, adt, argc, ret)
    if len(c) != 1:
        raise Missing('no function ' + k)
    return c[0]


def with_stream(dec, ins):
    """A decoder value reading the given bytes; the index of its stream."""
    fs = fields(dec)
    i = [j for j, f in enumerate(fs) if f.k == 'A' and str(f.a[0]).endswith('Biterator')]
    if len(i) != 1:
        raise Missing('the decoder does not hold a bit reader')
    st = list(fields(fs[i[0]]))
    st = [A('it', 0, A('array', 0, *ins), I(0)) if x.k == 'A' and x.a[0] == 'it' else x for x in st]
    fs[i[0]] = mk('A', *(fs[i[0]].a[:2] + tuple(st)))
    return mk('A', *(dec.a[:2] + tuple(fs))), i[0]


def decoder(s):
    k = LZ + 'Decoder::<I>::new'
    v = [v for v, f, k in rets(s.fn(k, [A('array', 0)], {'opaque': (LZ + 'LzHufState::new',)}))]
    if len(v) != 1 or v[0].k != 'A':
        raise Missing('no decoder')
    return v[0]


def c19(s, r):
    code = position_code()
    rule = 'a position is decoded by the standard code'
    dec = decoder(s)
    op = member(s, 'Decoder::<I>', 'decode_position', 1, OPT + '<u16>')
    by = methods(s, 'Biterator::<I>', 1, OPT + '<u8>')
    for b in range(256):
        k = [i for i, (l, c) in enumerate(code) if b >> (8 - l) == c][0]
        l = code[k][0]
        for n in (0, 1):
            ins = [I(b)] + [BYTE(i) for i in range(n)]
            val, si = with_stream(dec, ins)
            try:
                g = s.fn(op, [SELF], UNROLL, cells={'#self': val})
            except Unsupported as x:
                r.bad('C19/decode', 'decoding a position: %s' % x)
                return
            f = faults(g)
            rs = rets(g)
            if f:
                r.bad('C19/decode/panic', 'decoding a position whose code begins with %#04x may panic at %s' % (b, loc(f[0])))
                continue
            if n == 0:
                r.check([v for v, f, k in rs] == [NONE], rule, 'first byte %#04x, then the end' % b, 'C19/decode/end', 'a position of which only the first byte, %#04x, is there is decoded' % b)
                continue
            env = {x: msb(range(8 + 8 * i, 16 + 8 * i)) for i, x in enumerate(ins[1:])}
            want = msb(range(8, 8 + l - 2))
            low = b & ((1 << (8 - l)) - 1)
            want = want + bits.const(low, 8 - l) + bits.const(k, 10)
            got = None
            if len(rs) == 1 and rs[0][0].k == 'A' and rs[0][0].a[:2] == (OPT, 1):
                got = bits.linear(rs[0][0].a[2], env)
            if not r.check(got is not None and bits.pad(got, 64) == bits.pad(want, 64), rule, 'first byte %#04x' % b, 'C19/decode/%02x' % b,
                           'a position whose code begins with the byte %#04x is decoded as %s instead of %d * 64 + the %d bits after the first %d' % (
                               b, ' or '.join(show(v)[:160] for v, f, k in rs), k, 6, l)):
                continue
            # the reader stands right after the code
            left = fields(rs[0][1]['#self'])[si] if '#self' in rs[0][1] else None
            ok = left is not None
            if ok:
                n2 = s.fn(by[0], [SELF], UNROLL, cells={'#self': left})
                v = [v for v, f, k in rets(n2)]
                w = bits.linear(v[0].a[2], env) if len(v) == 1 and v[0].k == 'A' and len(v[0].a) == 3 else None
                at = 8 + l - 2
                ok = w is not None and bits.pad(w, 64)[:1] == msb([at if at + 1 <= 16 and not any(w[1:]) else at + 7])
            r.check(ok, 'exactly the bits of its code are read', 'first byte %#04x' % b, 'C19/decode/used', 'a position whose code begins with the byte %#04x does not take %d bits' % (b, l + 6))
    r.need(rule, 512)
    encode_position(s, r, code)


def puts(s):
    """{path of a bit-writing method: (index of the length, bits of the code)}"""
    r = {}
    for op in methods(s, "Bitbuffer::<'a>", 3, '()'):
        b = s.w.bodies[op]
        ts = [b.prog.types[b.locals[i][0]]['s'] for i in (2, 3)]
        r[op] = (1 + ts.index('u8'), bits.W[ts[1 - ts.index('u8')]])
    return r


def encode_position(s, r, code):
    rule = 'a position is encoded by the standard code'
    ws = puts(s)
    op = LZ + "Encoder::<'a>::encode_position"
    c = mk('Y', 'c')
    g = s.fn(op, [SELF, c], {'opaque': tuple(ws)}, cells={'#self': mk('Y', 'enc')})
    ps = paths(g)
    for v in range(2048):
        hit = []
        for evs, lab in ps:
            if lab == 'ret' and all(evalc(ev[1], {c: v}) == ev[2] for ev in evs if ev[0] == 'branch') and all(evalc(ev[1], {c: v}) not in ev[2] for ev in evs if ev[0] == 'branchne'):
                hit.append(evs)
        bad = None
        if len(hit) != 1:
            bad = 'is not encoded in one way'
        else:
            out = ''
            for ev in hit[0]:
                if ev[0] in ('assert', 'panic') and not (ev[0] == 'assert' and evalc(ev[2], {c: v}) == 1):
                    bad = 'may panic at %s' % (loc(ev),)
                if ev[0] == 'call' and ev[1] in ws:
                    i, w = ws[ev[1]]
                    n, x = evalc(ev[2][i], {c: v}), evalc(ev[2][3 - i], {c: v})
                    if n is None or x is None or not 0 < n <= w or x & ((1 << (w - n)) - 1):
                        bad = 'is written as %s' % show(ev[2][1:])[:200]
                        break
                    out += format(x >> (w - n), '0%db' % n)
            l, k = code[v >> 6]
            want = format(k, '0%db' % l) + format(v & 63, '06b')
            if not bad and out != want:
                bad = 'is written as %s instead of %s' % (out, want)
        r.check(not bad, rule, 'position %d' % v, 'C19/encode/%d' % (v >> 6), 'the position %d %s' % (v, bad))
    r.need(rule, 2048)


# ---- the decoder ------------------------------------------------------------------------------------
from trans import *


def window_of(s, r, pid):
    """Paths within LzHufState of the text window and the write position, from LzHufState::new; its size."""
    v = [v for v, f, k in rets(s.fn(LZ + 'LzHufState::new'))]
    if len(v) != 1:
        raise Missing('no start state')
    fs = fields(v[0])
    win = [i for i, f in enumerate(fs) if f.k == 'ap' and f.a[0] == 'rep' and f.a[1] is I(0x20) or f.k == 'rep' and f.a[0] is I(0x20) or f.k == 'arr' and set(f.a[0]) == {0x20}]
    pos = [i for i, f in enumerate(fs) if f.k == 'I']
    r.check(len(win) == 1 and len(pos) == 1 and fs[pos[0]] is I(1988), 'the window starts as spaces, at 1988', 'LzHufState::new', pid + '/start', 'the window does not start as spaces with position 2048 - 60: %s' % [show(f)[:40] for f in fs])
    if len(win) != 1 or len(pos) != 1:
        raise Missing('no text window')
    n = engine.length(fs[win[0]])
    return win[0], pos[0], n.a[0] if n.k == 'I' else 0


def discr(s, t):
    return engine.discr_term(s.w, t)


def option(c, d):
    v = c.known(d)
    if v is None:
        v = c.facts.get(d)
        if isinstance(v, frozenset):
            return 1 if 0 in v else 0 if 1 in v else None
    return v


def index_of(t, i):
    return proj(t, (None, i))


def c20(s, r):
    DC = member(s, 'Decoder::<I>', 'decode_char', 1, OPT + '<u16>')
    DP = member(s, 'Decoder::<I>', 'decode_position', 1, OPT + '<u16>')
    wi, pi, size = window_of(s, r, 'C20')
    dec = fields(decoder(s))
    st = [i for i, f in enumerate(dec) if not (f.k == 'A' and str(f.a[0]).endswith('Biterator'))]
    if len(st) != 1:
        raise Missing('no decoder state')
    st = st[0]
    opq = (DC, DP)

    def strip(t):
        # decode_char and decode_position leave the window alone (checked below)
        while t.k == 'r' and t.a[0][:-2] in opq and t.a[0].endswith('!0'):
            t = t.a[1][0]
        return t

    memo = {}

    def norm(t):
        """t with window and position read through the calls that leave them alone."""
        if t.id in memo:
            return memo[t.id]
        x = t
        if t.k == 'F' and (t.a[1], t.a[2]) in ((None, wi), (None, pi)) and t.a[0].k == 'F' and t.a[0].a[2] == st and t.a[0].a[1] is None:
            b = strip(t.a[0].a[0])
            x = index_of(index_of(b, st), t.a[2])
        elif t.k in ('bin', 'not', 'sel', 'ap', 'upd'):
            x = engine.rebuild(t.k, tuple(norm(y) if isinstance(y, Term) else y for y in t.a))
        memo[t.id] = x
        return x

    def win(t):
        return norm(index_of(index_of(strip(t), st), wi))

    def pos(t):
        return norm(index_of(index_of(strip(t), st), pi))

    g = s.fn(LZ + 'Decoder::<I>::decode', [SELF, mk('R', ('G', '#buf'), (), 'm')], {'opaque': opq}, cells={'#self': mk('Y', 'dec'), '#buf': mk('Y', 'buf')})
    ts = System(g)
    SB, SS = ('G', '#buf'), ('G', '#self')
    LEN = mk('Y', 'len(buf)')
    lens = {ap('len', mk('Y', 'buf')): LEN}
    for h in ts.heads:
        v = ts.value(h, SB)
        if v is not None:
            lens[ap('len', v)] = LEN

    def nrm(t):
        return subst(norm(t), lens)

    def chain(v, base):
        """Updates from base to v, oldest first, or None."""
        out = []
        while v is not base:
            if v.k != 'upd':
                return None
            out.insert(0, (v.a[1], v.a[2]))
            v = v.a[0]
        return out

    # what each path writes
    for t in ts.ts:
        t.calls = [(ev[1], ev[4]) for ev in t.evs if ev[0] == 'call' and ev[1] in opq]
        t.writes = []
        if t.src is None:
            continue
        b, d = t.final(SB), t.final(SS)
        t.writes = chain(b, ts.value(t.src, SB)) if b is not None else None
        t.wins = chain(win(d), win(ts.value(t.src, SS))) if d is not None else None
        t.d = d

    # the number of bytes written so far
    def count_of():
        def go(asg):
            for t in ts.ts:
                if t.dst is None or t.dst.id in asg or (not t.first and t.src.id not in asg):
                    continue
                want = {} if t.first else ladd(lin(asg[t.src.id]), {None: len(t.writes)} if t.writes else {})
                for p in ts.phis(t.dst):
                    if lin(t.asg[p]) == want if p in t.asg else False:
                        a = dict(asg)
                        a[t.dst.id] = p
                        x = go(a)
                        if x:
                            return x
                return None
            for t in ts.ts:
                if t.dst is not None:
                    want = {} if t.first else ladd(lin(asg[t.src.id]), {None: len(t.writes)} if t.writes else {})
                    if lin(t.to(asg[t.dst.id])) != want:
                        return None
            return asg
        return go({})

    if any(t.writes is None for t in ts.ts):
        r.bad('C20/buffer', 'what decode writes to the buffer is not a sequence of single bytes')
        return
    cnt = count_of()
    if cnt is None:
        r.bad('C20/count', 'the bytes decode writes are not counted: the next one is not written behind them')
        return
    RULE = 'each token is expanded to its bytes'
    ENDS = 'decode stops exactly when the buffer is full or the input ends'
    mode = {}
    work = []
    for t in ts.ts:
        if t.first and t.dst is not None:
            mode[t.dst.id] = [None]
            work.append((t.dst, None))
    base = nrm
    while work:
        h, m = work.pop()
        nrm = base
        if m is not None and m['sub']:
            nrm = lambda t, m=m: base(subst(t, m['sub']))
        inv = [ladd({LEN: 1}, lin(cnt[h.id]), -1), ladd({None: 2047}, lin(base(pos(ts.value(h, SS)))), -1)] + (m['inv'] if m else [])
        for t in ts.out(h):
            c = t.known()
            if c is None:
                continue
            where = 'the path from %s' % (loc(next((e for e in t.evs if at(e)), ())) if t.evs else 'decode')
            f = Facts(c, (m['facts'] if m else []) + t.facts, inv, nrm)
            if f.impossible():
                continue
            room = f.proves(ladd(ladd({LEN: 1}, f.lin(cnt[h.id]), -1), {None: -1}))
            full = f.proves(ladd(f.lin(cnt[h.id]), {LEN: 1}, -1))
            names = [x for x, y in t.calls]
            mid = m
            end = None
            sym = None
            if names and names[0] == DC:
                if m is not None:
                    # the copy must be over
                    if not f.proves(ladd(m['k'], m['n'], -1)):
                        r.bad('C20/copy/cut', 'decode reads the next symbol before a match is copied in full')
                        continue
                if not room:
                    r.bad('C20/full', 'decode reads another symbol although the buffer may be full already')
                    continue
                res = t.calls[0][1]
                some = option(c, discr(s, res))
                if some is None:
                    r.bad('C20/end', 'decode does not look at whether a symbol could be read')
                    continue
                if some == 0:
                    end = True
                else:
                    sym = proj(res, (1, 0))
                names = names[1:]
                calls = t.calls[1:]
                if sym is not None and names[:1] == [DP]:
                    big = f.proves(ladd(f.lin(sym), {None: -256}))
                    pr = calls[0][1]
                    some = option(c, discr(s, pr))
                    if not big:
                        r.bad('C20/literal', 'decode reads a position after a symbol below 256')
                        continue
                    if some is None:
                        r.bad('C20/end', 'decode does not look at whether a position could be read')
                        continue
                    if some == 0:
                        end = True
                    names = names[1:]
                    mid = {'s': sym, 'p': proj(pr, (1, 0))}
                elif sym is not None:
                    small = f.proves(ladd({None: 255}, f.lin(sym), -1))
                    if not small:
                        r.bad('C20/match', 'decode reads no position after a symbol of 256 or more')
                        continue
                    mid = None
            if names:
                r.bad('C20/order', 'decode reads %s where the token stream has none' % ' and '.join(x.split('::')[-1] for x in names))
                continue
            # the buffer is not written beyond its end: shown by the conditions before each write
            fs = (m['facts'] if m else []) + list(ts.headfacts(h))
            beyond = False
            for ev in t.evs:
                if ev[0] == 'branch':
                    fs.append((ev[1], ev[2]))
                elif ev[0] == 'branchne':
                    fs.append((ev[1], frozenset(ev[2])))
                elif ev[0] == 'assert' and ev[1] == 'bounds' and ev[2].k == 'bin' and ev[2].a[0] == 'Lt' and nrm(ev[2].a[3]) is LEN:
                    c3 = Ctx(g.e, [], {}, {}, {})
                    for x, v in fs:
                        c3.assume_ne(x, list(v)) if isinstance(v, frozenset) else c3.assume(x, v)
                    f3 = Facts(c3, fs, inv, nrm)
                    if not f3.impossible() and not f3.proves(ladd(ladd({LEN: 1}, f3.lin(ev[2].a[2]), -1), {None: -1})):
                        r.bad('C20/beyond', 'decode may write beyond the end of the buffer (and panic), at %s' % loc(ev))
                        beyond = True
                    else:
                        r.ok('nothing is written beyond the end of the buffer', loc(ev))
                    fs.append((ev[2], 1))
            if beyond:
                continue
            # writes
            vals = []
            if end:
                want = 0
                if t.writes or t.lab != 'ret' or t.ret is None or not (t.ret[1].k == 'A' and t.ret[1].a[:2] == (RES, 1)):
                    r.bad('C20/eof', 'decode does not simply report the end of the input')
                    continue
                r.ok(ENDS, 'end of input at %s' % fnname(t.ret))
                continue
            if t.lab is not None and t.lab != 'ret':
                r.bad('C20/panic', 'decode may panic on %s' % where)
                continue
            w = t.writes
            if t.wins is None or len(t.wins) != len(w) or [y for x, y in t.wins] != [norm(y) for x, y in w] and [nrm(y) for x, y in t.wins] != [nrm(y) for x, y in w]:
                r.bad('C20/window', 'the bytes written to the buffer are not put in the window, one by one')
                continue
            p0 = pos(ts.value(h, SS))
            ok = True
            for i, ((bi, bv), (xi, xv)) in enumerate(zip(w, t.wins)):
                if f.lin(bi) != ladd(f.lin(cnt[h.id]), {None: i} if i else {}):
                    r.bad('C20/place', 'a decoded byte is not written right behind the previous one')
                    ok = False
                if ladd(lin(nrm(xi), 2048), lin(nrm(p0), 2048), -1, 2048) != ({None: i} if i else {}) or i == 0 and nrm(xi) is not nrm(p0):
                    r.bad('C20/window/place', 'a decoded byte is not put in the window at its write position')
                    ok = False
            p1 = pos(t.d)
            if not f.equal(ladd(ladd(lin(nrm(p1), 2048), lin(nrm(p0), 2048), -1, 2048), {None: -len(w)} if w else {}, 1, 2048), 2048):
                r.bad('C20/window/step', 'the write position of the window does not advance by the bytes put there')
                ok = False
            if w and c.bounds(nrm(p1))[1] is None or w and c.bounds(nrm(p1))[1] > 2047:
                if not (f.proves(ladd({None: 2047}, f.lin(nrm(p1)), -1))):
                    r.bad('C20/window/range', 'the write position of the window may leave 0..2047')
                    ok = False
            if not ok:
                continue
            nxt = None
            if sym is not None and mid is None:
                if len(w) != 1 or nrm(w[0][1]) is not engine.castint('u16', 'u8', nrm(sym)) and nrm(w[0][1]) is not ap('trunc', 'u8', nrm(sym)):
                    r.bad('C20/literal', 'a symbol below 256 is not written as that byte')
                    continue
                r.ok(RULE, 'a literal, %s' % loc(t.evs[0]))
            elif sym is not None:
                if w:
                    r.bad('C20/copy', 'bytes are written before the copy of a match begins')
                    continue
                nxt = mid
            elif mid is not None:
                # one round of the copy, or its end
                if t.dst is not None and t.dst is h:
                    more = f.proves(ladd(ladd(m['n'], m['k'], -1), {None: -len(w)}))
                    if w and not more:
                        r.bad('C20/copy/length', 'more than symbol - 253 bytes may be copied')
                        continue
                    good = True
                    for i, (bi, bv) in enumerate(w):
                        v = nrm(bv)
                        good = good and i == 0 and v.k == 'sel' and v.a[0] is nrm(win(ts.value(h, SS))) and m['idx'](v.a[1], c)
                    if not good:
                        r.bad('C20/copy/source', 'a copied byte is not the one position + 1 before the write position: %s' % show(nrm(w[0][1]) if w else I(0))[:200])
                        continue
                    if w:
                        r.ok(RULE, 'a byte of a match, %s' % loc(t.evs[0]))
                    nxt = m
                else:
                    if w:
                        r.bad('C20/copy', 'the end of a copy writes more')
                        continue
                    over = f.proves(ladd(m['k'], m['n'], -1))
                    if not over and not full:
                        r.bad('C20/copy/short', 'the copy of a match ends before symbol - 253 bytes although there is room')
                        continue
                    r.ok(RULE, 'the end of a match, %s' % (loc(t.evs[0]) if t.evs else ''))
                    nxt = None if over else {'over': True}
            elif w:
                r.bad('C20/write', 'bytes are written that no symbol stands for')
                continue
            if t.lab == 'ret':
                v = t.ret[1]
                if not (v.k == 'A' and v.a[:2] == (RES, 0)) or not full:
                    r.bad('C20/ok', 'decode returns %s although the buffer may not be full' % show(v)[:60])
                    continue
                r.ok(ENDS, 'full buffer')
                continue
            # the mode of the target
            if f.lin(t.to(cnt[t.dst.id])) != ladd(f.lin(cnt[h.id]), {None: len(w)} if w else {}):
                r.bad('C20/count', 'the count of the bytes decoded may overflow')
                continue
            if nxt is not None and 'over' not in nxt:
                if 'k' not in nxt:
                    nm = copying(ts, t, nxt, inv, base, pos, SS)
                    if nm is None:
                        r.bad('C20/copy/count', 'the bytes of a match are not counted from 0 to symbol - 253')
                        continue
                    nxt = nm
            else:
                nxt = None
            if nxt is m and t.dst is h:
                continue
            ms = mode.setdefault(t.dst.id, [])
            if nxt is None and None in ms:
                continue
            if (nxt is None) != (None in ms) and ms or nxt is not None and len(ms) > 20:
                r.bad('C20/mode', 'decode mixes copying a match with reading the next symbol')
                continue
            ms.append(nxt)
            work.append((t.dst, nxt))
    r.need(RULE, 3)
    r.need(ENDS, 3)
    leaves_window(s, r, opq, st, wi, pi)
    walk(s, r, DC, st)


def copying(ts, t, m, inv, nrm, pos, SS):
    """The state of a copy that begins on transition t: bytes copied so far, bytes to copy, and where from."""
    h = t.dst
    loops = [x for x in ts.out(h) if x.dst is h and x.known() is not None]
    if any(x.writes is None for x in loops) or not any(x.writes for x in loops):
        return None
    own = set(ts.phis(h))
    # what does not change during the copy has the value it begins with
    fix = {p: nrm(t.asg[p]) for p in own if p in t.asg and all(x.asg.get(p, p) is p for x in loops)}
    cnorm = (lambda v: nrm(subst(v, fix))) if fix else nrm
    ks = []
    f0 = Facts(t.known(), t.facts, inv, nrm)
    for p in sorted(own - set(fix), key=lambda p: p.id):
        e = nrm(t.asg[p]) if p in t.asg else None
        if e is None or any(y in own for y in subterms(e)):
            continue
        for sg in (1, -1):
            ok = True
            for x in loops:
                f = Facts(x.known(), t.facts + x.facts, (), cnorm)
                d = ladd(f.lin(x.asg.get(p, p)), f.lin(p), -1)
                ok = ok and d == ({None: sg * len(x.writes)} if x.writes else {})
            if ok:
                ks.append(ladd({p: sg}, f0.lin(e), -sg))
    if not ks:
        return None
    n = ladd(f0.lin(m['s']), {None: -253})
    if not f0.proves(n):
        return None
    inv = [ladd(n, ks[0], -1), ks[0]]
    for k in ks[1:]:
        d = ladd(k, ks[0], -1)
        inv += [d, ladd({}, d, -1)]
    r0, p0 = pos(ts.value(h, SS)), m['p']
    rng = [ladd({None: 2047}, lin(nrm(r0)), -1)]

    def idx(i, c):
        d = ladd(ladd(ladd(lin(nrm(i), 2048), lin(nrm(r0), 2048), -1, 2048), lin(nrm(p0), 2048), 1, 2048), {None: 1}, 1, 2048)
        for x in [t] + loops:
            to = {}
            for y, co in d.items():
                to = ladd(to, {None: co} if y is None else lin(cnorm(x.to(y)), 2048), co if y is not None else 1, 2048)
            f = f0 if x is t else Facts(x.known(), t.facts + x.facts, inv + rng, cnorm)
            if not f.equal(ladd(to, {} if x is t else d, -1, 2048), 2048):
                return False
        return bounded(ts, h, nrm(i), c, 2047, nrm)
    return dict(m, k=ks[0], n=n, idx=idx, inv=inv, sub=fix, facts=[x for x in t.facts if not any(y in own for y in subterms(x[0]))])


def bounded(ts, h, t, c, hi, nrm, seen=()):
    """t <= hi at head h, whatever the loop variables."""
    b = c.bounds(t)[1]
    if b is not None and b <= hi:
        return True
    if t.k == 'P' and t not in seen:
        for x in ts.ts:
            if t in x.asg:
                cx = x.known()
                if cx is not None and not bounded(ts, x.src, nrm(x.asg[t]), cx, hi, nrm, seen + (t,)):
                    return False
        return True
    return t in seen


def untouched(s, op, paths):
    """op leaves these parts of its receiver as they are, on every path: the ones it may change."""
    ts = System(s.fn(op, [SELF], cells={'#self': mk('Y', 'dec')}))
    out = []

    def part(v, p):
        for e in p:
            v = proj(v, (None, e))
        return v
    for p in paths:
        for t in ts.ts:
            v = t.final(('G', '#self'))
            if t.src is not None and v is not None and part(v, p) is not part(ts.value(t.src, ('G', '#self')), p):
                out.append(p)
                break
    return out


def leaves_window(s, r, opq, st, wi, pi):
    """The functions that read a symbol or a position do not touch the window."""
    for op in opq:
        ch = untouched(s, op, [(st, wi), (st, pi)])
        for i in (wi, pi):
            r.check((st, i) not in ch, 'reading a token leaves the window alone', '%s, field %d' % (op, i), 'C20/touch', '%s changes the text window' % op)


def array_size(g, t):
    """The length of a fixed array built by stores."""
    ns, seen, todo = set(), set(), [t]
    while todo:
        x = todo.pop()
        while x.k == 'upd':
            x = x.a[0]
        if x in seen:
            continue
        seen.add(x)
        if x.k == 'P':
            todo += [v for k, v in g.phi.get(x, ())]
        else:
            ns.add(engine.length(x))
    n = ns.pop() if len(ns) == 1 else None
    return n.a[0] if n is not None and n.k == 'I' else None


def walk(s, r, DC, st):
    """A symbol is read by walking from the root, one bit per branch, to a leaf; the tree learns it once."""
    UP = member(s, 'LzHufState', 'update', 2, '()')
    GB = member(s, 'Biterator::<I>', 'get_bit', 1, OPT + '<u8>')
    ng = s.fn(LZ + 'LzHufState::new')
    new = fields(rets(ng)[0][0])
    ch = [i for i, f in enumerate(new) if array_size(ng, f) == 627]
    if len(ch) != 1:
        raise Missing('no tree of 627 nodes')
    ch = ch[0]
    SS = ('G', '#self')
    ts = System(s.fn(DC, [SELF], {'opaque': (UP, GB)}, cells={'#self': mk('Y', 'dec')}))
    D = mk('Y', 'dec')
    state = index_of(D, st)
    tree = index_of(state, ch)
    same = {}
    for h in ts.heads:
        same[index_of(ts.value(h, SS), st)] = state
    RULE, TELL = 'a symbol is read by walking from the root to a leaf', 'the tree is updated once with each symbol'
    for t in ts.ts:
        t.calls = [ev for ev in t.evs if ev[0] == 'call' and ev[1] in (UP, GB)]
        if t.src is not None and t.dst is not None and index_of(t.final(SS), st) is not index_of(ts.value(t.src, SS), st):
            r.bad('C20/walk/state', 'the tree changes while a symbol is read')
            return

    def nrm(t):
        return subst(t, same)

    def node(h):
        """The node of the tree the walk is at, at head h."""
        for p in ts.phis(h):
            for F in (lambda c: c, lambda c: mk('sel', tree, c)):
                ok = True
                for t in ts.into(h):
                    gb = [ev for ev in t.calls if ev[1] == GB]
                    v = nrm(F(nrm(t.asg[p])) if p in t.asg else p)
                    if t.first:
                        want = mk('sel', tree, I(626))
                        ok = ok and not gb and v is want
                    else:
                        if t.src is not h or len(gb) != 1 or not (v.k == 'sel' and v.a[0] is tree):
                            ok = False
                            continue
                        d = ladd(ladd(lin(nrm(v.a[1]), 65536), lin(nrm(F(p)), 65536), -1, 65536), {proj(gb[0][4], (1, 0)): -1}, 1, 65536)
                        ok = ok and not d
                if ok:
                    return F(p)
        return None
    for h in ts.heads:
        if not getattr(h, 'head', None):
            if any(t.calls for t in ts.out(h)) or any(t.dst is None for t in ts.out(h)):
                r.bad('C20/walk/first', 'reading a symbol does not begin at the root of the tree')
            continue
        at_ = node(h)
        if at_ is None:
            r.bad('C20/walk/step', 'reading a symbol does not go from each node of the tree to the child its bit selects, beginning at the root')
            continue
        for t in ts.out(h):
            c = t.known()
            if c is None:
                continue
            f = Facts(c, t.facts, (), nrm)
            leaf = f.proves(ladd(f.lin(at_), {None: -627}))
            inner = f.proves(ladd({None: 626}, f.lin(at_), -1))
            gb = [ev for ev in t.calls if ev[1] == GB]
            up = [ev for ev in t.calls if ev[1] == UP]
            if gb:
                if not inner or up or len(gb) != 1:
                    r.bad('C20/walk/leaf', 'a bit is read although the walk has reached a leaf')
                    continue
                ok = option(c, discr(s, gb[0][4]))
                if ok is None:
                    r.bad('C20/walk/end', 'the end of the input is not noticed')
                elif ok == 0:
                    r.check(t.lab == 'ret' and t.ret[1] is NONE, RULE, 'the end of the input', 'C20/walk/end', 'the end of the input is not reported as such')
                else:
                    r.check(t.dst is h, RULE, 'a bit', 'C20/walk/step', 'a bit does not select a child')
                continue
            if t.lab == 'ret':
                sym = t.ret[1].a[2] if t.ret[1].k == 'A' and t.ret[1].a[:2] == (OPT, 1) else None
                good = leaf and sym is not None and f.lin(sym) == ladd(f.lin(at_), {None: -627})
                if r.check(good, RULE, 'a leaf', 'C20/walk/symbol', 'the symbol read is %s instead of the leaf reached' % show(t.ret[1])[:80]):
                    ok = len(up) == 1 and f.lin(up[0][3][1]) == f.lin(sym)
                    r.check(ok, TELL, 'decode_char', 'C20/walk/update', 'the tree is not updated exactly once with the symbol read')
            else:
                r.bad('C20/walk/other', 'the walk through the tree does something else at %s' % (loc(t.evs[0]) if t.evs else h.id))
    r.need(RULE, 3)
    r.need(TELL, 1)
    whole_message(s, r)


def whole_message(s, r):
    """decompress runs decode once over the blocks in order, on a buffer of the announced size."""
    RULE = 'a message is decompressed from all its blocks to the announced size'
    k = [k for k in s.w.bodies if k.startswith('plusendi::fbb::CompressedMessage') and k.endswith('::decompress')]
    if len(k) != 1:
        raise Missing('no decompress')
    adt = 'plusendi::fbb::CompressedMessage'
    names = s.w.adts[adt]['v'][0]['f']
    msg = mk('Y', 'msg')
    blocks, size = (proj(msg, (None, names.index(n))) for n in ('blocks', 'uncompressed_size'))
    new = decoder(s)
    dec, lz = LZ + 'Decoder::<I>::decode', LZ + 'LzHufState::new'
    g = s.fn(k[0], [msg], {'opaque': (dec, lz)})
    f = faults(g)
    if f:
        r.bad('C20/message/panic', 'decompress may panic at %s' % loc(f[0]))
    n = {0: 0, 1: 0}
    for evs, node in paths(g):
        calls = [ev for ev in evs if ev[0] == 'call' and ev[1] == dec]
        rt = [ev for ev in evs if ev[0] == 'ret']
        if len(calls) != 1 or len(rt) != 1:
            r.bad('C20/message/once', 'decompress runs decode %d times on a path' % len(calls))
            continue
        ev = calls[0]
        d, b = ev[3][0], ev[3][1]
        good = b is ap('filled', I(0), size) or b is ap('filled', 0, size)
        if not r.check(good, RULE, 'the buffer', 'C20/message/size', 'the buffer to be filled is %s, not one of the announced size' % show(b)[:80]):
            continue
        want = [A('it', 0, ap('flat', blocks), 0), A('it', 0, ap('flat', blocks), I(0))]
        have = subterms(d)
        seq = [x for x in have if x.k == 'A' and x.a[0] == 'it']
        if not r.check(len(seq) == 1 and seq[0] in want, RULE, 'the blocks', 'C20/message/blocks', 'decode does not read the bytes of all blocks in order from their beginning'):
            continue
        same = freshlike(new, d, seq[0])
        if not r.check(same, RULE, 'a fresh decoder', 'C20/message/fresh', 'decode does not start from the initial state'):
            continue
        res = ev[4]
        t = None
        for x in evs:
            if x[0] == 'branch' and x[1] is discr(s, res):
                t = x[2]
        v = rt[0][1]
        if t == 0:
            ok = v.k == 'A' and v.a[:2] == (RES, 0) and v.a[2].k == 'r' and v.a[2].a[0] == dec + '!1' and v.a[2].a[1:] == res.a[1:]
            r.check(ok, RULE, 'the result', 'C20/message/result', 'decompress does not return the buffer decode filled')
            n[0] += 1
        elif t == 1:
            r.check(v.k == 'A' and v.a[:2] == (RES, 1), RULE, 'the end of the input', 'C20/message/eof', 'decompress hides that the input ended too early')
            n[1] += 1
        else:
            r.bad('C20/message/unchecked', 'decompress does not look at whether decode succeeded')
    r.check(n[0] > 0 and n[1] > 0, RULE, 'both results', 'C20/message/cases', 'decompress has no path for success or none for an early end')
    r.need(RULE, 6)


def freshlike(new, d, seq):
    """d is what Decoder::new makes of the iterator seq."""
    def skel(t, it):
        if t is it:
            return 'IT'
        if t.k == 'A':
            return ('A',) + tuple(skel(x, it) if isinstance(x, Term) else x for x in t.a)
        if t.k == 'r':
            return ('r', t.a[0])
        return t.k, t.a
    it = [x for x in subterms(new) if x.k == 'A' and x.a[0] in ('array', 'it')]
    return bool(it) and skel(new, it[0]) == skel(d, seq)
