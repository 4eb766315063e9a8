"""Rules about the FBB/B2 protocol: message blocks (C13, C14), proposals (C15), selections (C16), CRC (C17)."""
from lib import *
import grammar as G
import bits
import re

CAP = lambda i: mk('Y', '#%d' % i)
DIG = b'0123456789'
TITLE = bytes(range(32, 127))


def parser(s, out, hint):
    """The parser function whose output is the given type: by its name, or else the only one in the module with that output."""
    p = FBB + hint
    if s.has(p):
        return p
    c = [k for k in s.w.bodies if k.startswith(FBB) and '{' not in k and '<' not in k and '::tests::' not in k and s.w.bodies[k].argc == 1
         and returns(s, k, out)]
    if len(c) != 1:
        raise Missing('no parser %s' % p)
    return c[0]


def returns(s, k, adt):
    b = s.w.bodies[k]
    t = b.prog.types[b.locals[0][0]]['s']
    return 'nom::internal::Err' in t and re.search(re.escape(FBB + adt) + r'(?!\w)', t) is not None


def alts(s, r, path, split=False):
    """Canonical alternatives of a parser function, and the functions it is made of."""
    k = ('fbb', path, split)
    if k not in s.cache:
        g = Visit(s)
        s.cache[k] = ([tidy(x) for c in g.alts(mk('fn', path)) for x in (G.bytecases(c) if split else [c])], g.graphs)
    return s.cache[k]


def local_parsers(s, but):
    """Models that take calls of this module's own parsers as parsing steps."""
    def step(q):
        return lambda e, c, ca, args: models.parse_outcomes(e, c, ca, mk('fn', q), c.deep(args[0]), e.where(ca.fid, ca.block)) if len(args) == 1 else NotImplemented
    return {q: step(q) for q in s.w.bodies if q.startswith(FBB) and q != but and '{' not in q and '<' not in q and s.w.bodies[q].argc == 1
            and 'nom::internal::Err' in s.w.bodies[q].prog.types[s.w.bodies[q].locals[0][0]]['s']}


class Visit(G.Grammar):
    def __init__(self, s):
        G.Grammar.__init__(self, s)
        self.graphs = []

    def of_graph(self, g, data):
        if all(x is not g for x, d in self.graphs):
            self.graphs.append((g, data))
        return G.Grammar.of_graph(self, g, data)


def tidy(c):
    c = G.canon(c)
    nums = {t.a[2] for t, v in c.conds if t.k == 'ap' and t.a[0] == 'is_number' and v == 1}

    def go(a):
        if a[0] == 'run' and a[2] == 0 and a[-1] in nums:
            return a[:2] + (1,) + a[3:]      # the empty string is no number
        if a[0] == 'inner':
            return a[:2] + (tuple(go(b) for b in a[2]),)
        return a
    return G.Case([go(a) for a in c.atoms], c.value, c.conds)


def incomplete(r, pid, graphs):
    """Running out of input is never taken for anything else."""
    for g, data in graphs:
        def step(st, ev, node):
            if ev[0] == 'parse' and ev[3].k == 'A' and ev[3].a[1] == 1:
                e = ev[3].a[2]
                if e.k == 'A' and e.a[1] == 0 and not any(x.k == 'ap' and x.a[0] == 'out' for x in subterms(ev[2])):
                    return (ev,)
                return st
            if ev[0] == 'ret' and st:
                v = ev[1]
                ok = v.k == 'A' and v.a[0] == RES and v.a[1] == 1 and v.a[2].k == 'A' and v.a[2].a[1] == 0
                r.check(ok, 'input that ends early is reported as incomplete', loc(st[0]), '%s/swallowed/%s' % (pid, g.e.rootname.split('::')[-1]),
                        'input that ends too early is not reported as incomplete after %s' % loc(st[0]))
            return st
        flow(g, (), step)


def num(i, ty='u32'):
    return ap('number', mk('ty', ty), CAP(i), I(10))


def isnum(i, ty='u32'):
    return (ap('is_number', mk('ty', ty), CAP(i), I(10)), 1)


def compare(r, pid, got, want, rule, what):
    """got and want alternatives agree, and none hides another."""
    for a, b, why in G.shadowed(got):
        r.bad('%s/shadow/%s' % (pid, text(b)), 'an alternative can never be recognised, or not always, because an earlier one takes a prefix of it: %s before %s' % (text(a), text(b)))
    left = list(got)
    for name, at, v, conds in want:
        hit = [c for c in left if c.atoms == tuple(at)]
        if not hit:
            r.bad('%s/missing/%s' % (pid, name), 'no alternative accepts %s %s exactly; there is: %s' % (what, name, '; '.join(text(c) for c in left)[:700]))
            continue
        c = hit[0]
        for x in hit:
            left.remove(x)
        if len(hit) > 1:
            r.bad('%s/ambiguous/%s' % (pid, name), '%s %s is recognised by more than one alternative' % (what, name))
        elif c.value is not v:
            r.bad('%s/meaning/%s' % (pid, name), '%s %s is understood as %s instead of %s' % (what, name, show(c.value)[:300], show(v)[:300]))
        elif c.conds != frozenset(conds):
            r.bad('%s/conds/%s' % (pid, name), '%s %s is accepted only if %s' % (what, name, sorted((show(t)[:120], x) for t, x in c.conds ^ frozenset(conds))))
        else:
            r.ok(rule, '%s => %s' % (text(c), show(v)[:200]))
    for c in left:
        r.bad('%s/extra/%s' % (pid, text(c)), '%s outside the protocol is accepted: %s' % (what, repr(c)[:400]))


def text(c):
    return ' '.join(G.showatom(a) for a in c.atoms)[:300]


# ---- C15 proposals --------------------------------------------------------------------------------
FIELD = bytes(b for b in range(256) if b not in b' \r')


def build(s, adt, **fs):
    names = s.w.adts[adt]['v'][0]['f']
    if set(names) != set(fs):
        raise Missing('%s has fields %s' % (adt, ', '.join(names)))
    return A(adt, 0, *[fs[n] for n in names])


class Lits(object):
    """Atoms of a line: literals are merged, captures numbered."""
    def __init__(self):
        self.at, self.n, self.conds = [], 0, []

    def lit(self, b):
        if self.at and self.at[-1][0] == 'lit':
            self.at[-1] = ('lit', self.at[-1][1] + b, 's')
        else:
            self.at.append(('lit', b, 's'))
        return self

    def field(self, hi):
        c = CAP(self.n)
        self.n += 1
        self.at.append(('run', FIELD, 1, hi, 's', c))
        self.conds.append((ap('is_utf8', c), 1))
        return c

    def number(self):
        c = self.n
        self.n += 1
        self.at.append(('run', DIG, 1, 6, 's', CAP(c)))
        self.conds.append(isnum(c))
        return num(c)


def c15(s, r):
    MT = FBB + 'MessageType'
    want = []
    for tag in (b'FA', b'FB'):
        for b, v in ((b'P', 'Private'), (b'B', 'Bulletin'), (b'T', 'Traffic')):
            L = Lits().lit(tag + b' ' + b + b' ')
            snd = L.field(6)
            L.lit(b' ')
            mbo = L.field(40)
            L.lit(b' ')
            rcp = L.field(6)
            L.lit(b' ')
            mid = L.field(12)
            L.lit(b' ')
            size = L.number()
            L.lit(b'\r')
            val = build(s, FBB + 'Proposal', message_type=s.con(MT, v), sender=snd, addressee=build(s, FBB + 'Addressee', recipient=rcp, mbo=mbo), message_id=mid, message_size=size)
            want.append(('%s %s' % (tag.decode(), b.decode()), L.at, val, L.conds))
    got, gs = alts(s, r, parser(s, 'Proposal', 'fbb_proposal'), True)
    rule = 'a proposal is recognised exactly, with every field in its place'
    compare(r, 'C15', got, want, rule, 'the proposal')
    incomplete(r, 'C15', gs)
    want = []
    for ext in (True, False):
        L = Lits().lit(b'FC EM ')
        mid = L.field(12)
        L.lit(b' ')
        usz = L.number()
        L.lit(b' ')
        csz = L.number()
        e = A(OPT, 0)
        if ext:
            L.lit(b' ')
            snd = L.field(6)
            L.lit(b' ')
            mbo = L.field(40)
            L.lit(b' ')
            rcp = L.field(6)
            e = A(OPT, 1, build(s, FBB + 'BqpProposalExtension', sender=snd, addressee=build(s, FBB + 'Addressee', recipient=rcp, mbo=mbo)))
        L.lit(b'\r')
        val = build(s, FBB + 'WinlinkProposal', message_id=mid, uncompressed_message_size=usz, compressed_message_size=csz, bqp_extension=e)
        want.append(('FC EM' + (' with sender and recipient' if ext else ''), L.at, val, L.conds))
    got, gs = alts(s, r, parser(s, 'WinlinkProposal', 'winlink_proposal'), True)
    compare(r, 'C15', got, want, rule, 'the proposal')
    incomplete(r, 'C15', gs)


# ---- C16 selections -------------------------------------------------------------------------------
def c16(s, r):
    MC = FBB + 'MessageChoice'
    p = parser(s, 'MessageChoice;', 'selection')
    g = s.fn(p, mods=local_parsers(s, p))
    data = mk('Y', s.body(p).locals[1][1] or 'arg0')
    rule = 'a selection is FS and one answer per proposal, in order'
    n = 0
    els, pre = set(), set()
    for v, fs in outcomes(g):
        if not (v.k == 'A' and v.a[0] == RES):
            raise Unsupported('selection returns ' + show(v)[:100])
    for ev in events(g, 'ret'):
        v = ev[1]
        if not (v.k == 'A' and v.a[0] == RES and v.a[1] == 0):
            continue
        rest, val = proj(v.a[2], (None, 0)), proj(v.a[2], (None, 1))
        # rest is the loop's remaining input, val the array filled by the same loop
        pr, pv = g.phi.get(rest), g.phi.get(val)
        if rest.k != 'P' or val.k != 'P' or not pr or not pv or rest.a[0] != val.a[0]:
            r.bad('C16/shape', 'the answers returned are %s and the remaining input is %s: not one loop over the answers' % (show(val)[:120], show(rest)[:120]))
            continue
        er, br = [x for k, x in pr if k == 'entry'], [x for k, x in pr if k == 'back']
        ev_, bv = [x for k, x in pv if k == 'entry'], [x for k, x in pv if k == 'back']
        done = [t for t in complete_loops(g) if t.a[2].a[0] == rest.a[0]]
        if len(er) != 1 or len(br) != 1 or len(ev_) != 1 or len(bv) != 1 or len(done) != 1:
            r.bad('C16/loop', 'the loop over the answers can end early or go on after the last answer')
            continue
        i, n_ = done[0].a[2], done[0].a[3]
        if not (n_.k == 'ap' and n_.a[0] == 'len' and (n_.a[1] is val or n_.a[1] is ev_[0]) or n_ is engine.length(ev_[0])):
            r.bad('C16/count', 'the number of answers read is %s instead of the number of proposals' % show(n_)[:120])
        if not (br[0].k == 'ap' and br[0].a[0] == 'rest' and br[0].a[2] is rest):
            r.bad('C16/rest', 'after an answer the input goes on at %s' % show(br[0])[:200])
            continue
        P_ = br[0].a[1]
        if not (bv[0].k == 'upd' and bv[0].a[0] is val and bv[0].a[1] is i and bv[0].a[2] is ap('out', P_, rest)):
            r.bad('C16/store', 'the answer read is kept as %s' % show(bv[0])[-300:])
            continue
        els.add(P_)
        t, at = er[0], []
        while t.k == 'ap' and t.a[0] == 'rest':
            at.insert(0, t.a[1])
            t = t.a[2]
        if t is not data:
            r.bad('C16/start', 'the answers are read from %s' % show(t)[:100])
            continue
        pre.add(tuple(at))
        n += 1
        r.ok(rule, 'loop over the answers')
    if not n:
        if not r.viol:
            raise Missing('selection is never successful')
        return
    for at in pre:
        V_ = Visit(s)
        cs = [tidy(c) for c in V_.seq([V_.alts(P_) for P_ in at], lambda v: tup())]
        ok = len(cs) == 1 and cs[0].atoms == (('lit', b'FS ', 's'),) and not cs[0].conds
        r.check(ok, rule, 'FS prefix', 'C16/prefix', 'a selection starts with %s instead of FS and a space' % '; '.join(map(text, cs)))
    want = []
    for b in b'+YH':
        want.append((chr(b), [('lit', bytes([b]), 's')], s.con(MC, 'Accept', I(0)), []))
    for b in b'!A':
        want.append((chr(b) + 'offset', [('lit', bytes([b]), 's'), ('run', DIG, 1, 6, 's', CAP(0))], s.con(MC, 'Accept', num(0)), [isnum(0)]))
    for b in b'=L':
        want.append((chr(b), [('lit', bytes([b]), 's')], s.con(MC, 'Defer'), []))
    for b in b'-NRE':
        want.append((chr(b), [('lit', bytes([b]), 's')], s.con(MC, 'Reject'), []))
    for P_ in els:
        V_ = Visit(s)
        compare(r, 'C16', [tidy(x) for c in V_.alts(P_) for x in G.bytecases(c)], want, 'an answer is recognised exactly, with its meaning', 'the answer')
        incomplete(r, 'C16', V_.graphs)
    incomplete(r, 'C16', [(g, data)])


def stored(t, arr, i, x):
    if t.k != 'U' or t.a[0] is not arr or len(t.a[1]) != 1:
        return False
    path, v = t.a[1][0]
    return v is x and any(y is i for y in subterms(mk('A', 'tuple', 0, *[y for y in flat(path) if isinstance(y, Term)])))


def flat(p):
    for x in p:
        if isinstance(x, tuple):
            for y in flat(x):
                yield y
        else:
            yield x


def count(t):
    """Length of an array value, if it is one of a known length."""
    if t.k == 'ap' and t.a[0] in ('repeat', 'fill') and len(t.a) > 2:
        return t.a[2]
    return None


# ---- C13 integrity --------------------------------------------------------------------------------
def block_cases(s, r):
    p = parser(s, 'CompressedMessage', 'b2_message_block')
    cs, gs = alts(s, r, p)
    CM = FBB + 'CompressedMessage'
    for c in cs:
        if not (c.value.k == 'A' and c.value.a[0] == CM):
            raise Unsupported('a message block is ' + show(c.value)[:100])
    return cs, gs, lambda c, f: s.pj(c.value, CM, None, f)


def strip(s, t):
    """t as what remains of a base after some parsers: (base, atoms)."""
    at = ()
    while t.k == 'ap' and t.a[0] == 'rest':
        cs = G.Grammar(s).alts(t.a[1])
        if len(cs) != 1:
            return t, None
        at = cs[0].atoms + at
        t = t.a[2]
    return t, at


def kinds(at):
    return [a[:2] if a[0] == 'num' else a[:3] for a in at or ()]


def blocks_of(s, c, many, blocks):
    """The list of blocks of a message is the list received, less the 6 bytes in front of the first: 'some', 'none' or None."""
    bl = proj(many, (None, 0))
    if blocks is bl:
        return 'none'
    if blocks.k == 'U' and blocks.a[0] is bl and len(blocks.a[1]) == 1:
        base, at = strip(s, blocks.a[1][0][1])
        if base is mk('sel', bl, I(0)) and kinds(at) == [('num', 'le_u16'), ('num', 'le_u32')] and stored(blocks, bl, I(0), blocks.a[1][0][1]):
            return 'some'
    return None


def c13(s, r):
    cs, gs, F_ = block_cases(s, r)
    n = 0
    for c in cs:
        many = [a for a in c.atoms if a[0] == 'many_till']
        if len(many) != 1:
            raise Unsupported('a message block is ' + text(c))
        many = many[0][-1]
        bl, chk = proj(many, (None, 0)), proj(many, (None, 1))
        crc, size, blocks = F_(c, 'crc16'), F_(c, 'uncompressed_size'), F_(c, 'blocks')
        kind = blocks_of(s, c, many, blocks)
        if kind is None:
            r.bad('C13/blocks', 'the blocks of an accepted message are %s instead of those received' % show(blocks)[:300])
            continue
        lens = {v for t, v in c.conds if t is ap('len', bl)}
        if kind == 'none' and 0 not in lens:
            r.bad('C13/blocks', 'the first block of an accepted message keeps its CRC and size')
            continue
        inn = [(a[1], x) for a in c.atoms if a[0] == 'inner' for x in a[2]]
        # the CRC and the size are the first two fields of the first block
        head = []
        for w, x in inn:
            base, at = strip(s, w)
            if base is mk('sel', bl, I(0)):
                head.append((len(at or ()), x))
        if kind == 'some':
            hv = [x[-1] for k, x in head if x[0] == 'num']
            hk = [x[1] for k, x in head if x[0] == 'num']
            if hk != ['le_u16', 'le_u32'] or crc is not hv[0] or size is not hv[1]:
                r.bad('C13/fields', 'the CRC and size of an accepted message are %s and %s instead of the first six bytes of its first block' % (show(crc)[:100], show(size)[:100]))
                continue
        elif crc is not I(0) or size is not I(0):
            r.bad('C13/fields', 'a message without blocks has CRC %s and size %s' % (show(crc)[:100], show(size)[:100]))
            continue
        who = 'a message with blocks' if kind == 'some' else 'a message without blocks'
        want = {}
        for t in (chk, crc, mk('bin', 'Shr', 'u16', crc, I(8)), size) + tuple(mk('bin', 'Shr', 'u32', size, I(8 * k)) for k in (1, 2, 3)):
            if not (t.k == 'I' or t.k == 'bin' and t.a[2].k == 'I'):
                bits.mod256(t, 1, want)
        want[('sum', ap('flat', blocks))] = 1
        good = {frozenset(want.items()), frozenset((k, -v % 256) for k, v in want.items())}
        sums = False
        crcs = False
        for t, v in c.conds:
            d = None
            if t.k == 'bin' and t.a[0] == 'Eq' and v == 1 and ty(t) == 'u8':
                d = bits.mod256(t.a[3], -1, bits.mod256(t.a[2]))
            elif not isinstance(v, frozenset) and bits.width(t) == 8 and t.a[0] not in bits_cmp:
                d = bits.mod256(I(v), -1, bits.mod256(t))
            if d is not None and frozenset(d.items()) in good:
                sums = True
            if t.k == 'bin' and t.a[0] == 'Eq' and v == 1 and ty(t) == 'u16':
                x = [y for y in t.a[2:] if y is not crc]
                if len(x) == 1 and crc_over(x[0]) == crc_want(size, blocks):
                    crcs = True
            elif crc.k == 'I' and v == crc.a[0] and t.k == 'ap' and t.a[0] == 'fold' and crc_over(t) == crc_want(size, blocks):
                crcs = True
        n += 1
        r.check(sums, 'a message block is accepted only if its checksum and CRC are right', who + ': checksum', 'C13/checksum',
                '%s is accepted although the checksum may not bring the sum of CRC, size and all data bytes to zero' % who)
        r.check(crcs, 'a message block is accepted only if its checksum and CRC are right', who + ': CRC', 'C13/crc',
                '%s is accepted although its CRC may not be the CRC-16 of its size and all data bytes' % who)
        extra = [(show(t)[:160], v) for t, v in c.conds if not allowed(t, v, chk, crc, bl)]
        r.check(not extra, 'nothing else is required of a message block', who, 'C13/extra', '%s is accepted only if %s' % (who, extra))
    r.need('a message block is accepted only if its checksum and CRC are right', 2)


bits_cmp = ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge')


def ty(t):
    x = t.a[1]
    return x.a[0] if isinstance(x, Term) else x


def allowed(t, v, chk, crc, bl):
    """Conditions other rules decide: integrity, framing (C14), the number of blocks."""
    ts = set(subterms(t))
    if t.k == 'ap' and t.a[0] in ('is_number', 'is_utf8') or t is ap('len', bl) or any(x.k == 'ap' and x.a[0] == 'fold' for x in ts):
        return True
    return length_cond(t, v) is not None


def crc_want(size, blocks):
    bs = [] if size.k == 'I' else [('byte', size, k) for k in range(4)]
    if size.k == 'I':
        bs = [('const', size.a[0] >> 8 * k & 255) for k in range(4)]
    return (0, tuple(bs), (ap('flat', blocks),))


def crc_over(t):
    """(initial value, leading bytes, sequences) of the CRC t computes, or None."""
    bs, seqs = [], []
    while t.k == 'ap' and t.a[0] == 'fold':
        if not bits.is_crc(t.a[2], ACC, ELEM):
            return None
        seq = t.a[3]
        if seq.k == 'A' and seq.a[0] == 'array':
            new = []
            for x in seq.a[2:]:
                m = bits.mod256(x)
                if not m:
                    new.append(('const', 0))
                elif len(m) == 1 and list(m.values()) == [1] and list(m)[0] != '1':
                    new.append(list(m)[0])
                else:
                    return None
            if seqs and bs:
                return None
            bs = new + bs
        elif seq.k == 'S':
            bs = [('const', b) for b in seq.a[0]] + bs
        else:
            if bs:
                return None
            seqs.insert(0, seq)
        t = t.a[1]
    return (t.a[0] if t.k == 'I' else t, tuple(bs), tuple(seqs))


# ---- C14 framing ----------------------------------------------------------------------------------
def length_cond(t, v):
    """(capture, greatest value) if the condition bounds a byte from above."""
    while t.k == 'not':
        t = t.a[-1]
        if isinstance(v, frozenset):
            return None
        v = 1 - v
    if t.k == 'bin' and t.a[0] in ('Lt', 'Le') and v in (0, 1):
        a, b, op = t.a[2], t.a[3], t.a[0]
        if v == 0:      # not a < b: b <= a; not a <= b: b < a
            a, b, op = b, a, 'Le' if op == 'Lt' else 'Lt'
        if b.k == 'I' and a.k == 'Y':
            return a, b.a[0] - (1 if op == 'Lt' else 0)
    return None


def byte_holds(t, v, cap, n):
    x = subst(t, {cap: I(n)})
    return G.holds(x, v)


def c14(s, r):
    cs, gs, F_ = block_cases(s, r)
    rule = 'a message block is framed as in the protocol'
    for c in cs:
        at = list(c.atoms)
        head = [a for a in at if a[0] not in ('many_till',) and not (a[0] == 'inner' and strip(s, a[1])[0].k == 'sel')]
        ok = len(head) == 4 and head[0] == ('lit', b'\x01', 's') and head[1][:3] == ('num', 'be_u8', 's') and head[2][0] == 'take' and head[3][0] == 'inner'
        if not ok:
            r.bad('C14/header', 'the header of a message is %s instead of SOH, a length and that many bytes' % ' '.join(map(G.showatom, head))[:400])
            continue
        ln = head[1][3]
        if head[2][1] is not ln or head[2][2] != 's':
            r.bad('C14/length', 'the header takes %s bytes instead of its length byte' % show(head[2][1])[:100])
        mx = [length_cond(t, v) for t, v in c.conds if length_cond(t, v) and length_cond(t, v)[0] is ln]
        if len(mx) != 1 or mx[0][1] != 88:
            r.bad('C14/limit', 'headers are accepted up to length %s instead of 88' % (mx[0][1] if mx else 255))
        if head[3][1] is not head[2][3]:
            r.bad('C14/header', 'the title and offset are not read from the header')
        ti, of = F_(c, 'title'), F_(c, 'offset')
        hd = list(head[3][2])
        caps = [a[-1] for a in hd if a[0] == 'run']
        if len(caps) != 2:
            r.bad('C14/title', 'the header is %s' % ' '.join(map(G.showatom, hd))[:300])
            continue
        want = [('run', TITLE, 0, None, 'c', caps[0]), ('lit', b'\0', 'c'), ('run', DIG, 1, None, 'c', caps[1]), ('lit', b'\0', 'c'), ('end',)]
        offs = ap('number', mk('ty', 'u32'), caps[1], I(10))
        r.check(hd == want and ti is caps[0] and of is offs and (ap('is_number', mk('ty', 'u32'), caps[1], I(10)), 1) in c.conds, rule, 'header %s' % ' '.join(map(G.showatom, hd))[:200],
                'C14/title', 'the header is %s (title %s, offset %s) instead of printable title, NUL, decimal offset, NUL' % (' '.join(map(G.showatom, hd))[:300], show(ti)[:60], show(of)[:80]))
        many = [a for a in at if a[0] == 'many_till']
        if at.index(many[0]) != len(head) or len(many) != 1:
            r.bad('C14/order', 'the data blocks do not follow the header')
            continue
        blk, end = many[0][1], many[0][2]
        eok = len(end) == 1 and [a[:3] for a in end[0].atoms] == [('lit', b'\x04', 's'), ('num', 'be_u8', 's')] and end[0].value is end[0].atoms[1][3] and not end[0].conds
        r.check(eok, rule, 'EOT and the checksum', 'C14/end', 'the end of the blocks is %s instead of EOT and a checksum byte' % '; '.join(map(repr, end))[:300])
        bad = None
        for n in range(256):
            hit = []
            for b in blk:
                if [a[0] for a in b.atoms] != ['lit', 'num', 'take'] or b.atoms[0] != ('lit', b'\x02', 's') or b.atoms[1][1:3] != ('be_u8', 's') or b.atoms[2][2] != 's' or b.value is not b.atoms[2][3]:
                    bad = 'a data block is %s instead of STX, a length byte and that many bytes' % repr(b)[:300]
                    break
                if all(byte_holds(t, v, b.atoms[1][3], n) is not False for t, v in b.conds):
                    if any(byte_holds(t, v, b.atoms[1][3], n) is None for t, v in b.conds):
                        bad = 'a data block is accepted only if %s' % repr(b)[:300]
                    k = subst(b.atoms[2][1], {b.atoms[1][3]: I(n)})
                    hit.append(k)
            if bad:
                break
            if len(hit) != 1 or hit[0] is not I(n or 256):
                bad = 'a data block with length byte %d has %s bytes instead of %d' % (n, ' or '.join(show(x)[:60] for x in hit) or 'no acceptable number of', n or 256)
                break
        r.check(not bad, rule, 'STX, length byte, that many bytes (256 if it is 0)', 'C14/block', bad)
    incomplete(r, 'C14', gs)
    r.need(rule, 3)
    r.need('input that ends early is reported as incomplete', 3)


# ---- C17 CRC --------------------------------------------------------------------------------------
def c17(s, r):
    CRC = 'plusendi::crc16::Crc16'
    rule = 'Crc16 is CRC-16/XMODEM'
    new = {v for v, f, fs in rets(s.fn(CRC + '::new'))}
    init = s.w.adts[CRC]['v'][0]['f']
    if len(new) != 1 or len(init) != 1:
        raise Missing('the state of Crc16')
    v = new.pop()
    r.check(v is A(CRC, 0, I(0)), rule, 'starts at 0', 'C17/init', 'a new CRC is %s instead of 0' % show(v)[:100])
    st, b = mk('Y', 'state'), mk('Y', 'byte')
    up = s.fn(CRC + '::update', [SELF, b], cells={'#self': A(CRC, 0, st)})
    outs = []
    for ev in events(up, 'ret'):
        outs.append(dict(ev[2]).get(mk('Y', '#self')))
    if len(set(outs)) != 1 or outs[0] is None:
        raise Unsupported('Crc16::update has %d outcomes' % len(set(outs)))
    t = folded(up, proj(outs[0], (None, 0)))
    r.check(bits.is_crc(t, st, b), rule, 'each byte is one step with polynomial 0x1021', 'C17/step', 'one step of the CRC is %s' % show(t)[-200:])
    pan = [ev for ev in events(up, 'panic')]
    r.check(not pan, rule, 'no step panics', 'C17/panic', 'a step of the CRC can panic')
    fi = {v for v, f, fs in rets(s.fn(CRC + '::finish', [A(CRC, 0, st)]))}
    r.check(fi == {st}, rule, 'the result is the state', 'C17/finish', 'the result of the CRC is %s' % ', '.join(show(x)[:100] for x in fi))


SELF = mk('R', ('G', '#self'), (), 'm')
