"""Line readers: every byte read is handed to the line parser exactly once and in order, whatever the
sizes of the chunks it arrives in (used for the modem's control connection, the rig and main)."""
from lib import *
import grammar as G

APPEND = ('try_read_buf', 'read_buf')
INTO = ('try_read', 'read')
READS = APPEND + INTO


def islen(t):
    return t.a[1] if t.k == 'ap' and t.a[0] == 'len' and len(t.a) == 2 else None


class Reader(object):
    """Checks one event graph for one source."""

    def __init__(self, s, r, g, pid, is_source, frame, abandon=None):
        self.s, self.r, self.g, self.pid = s, r, g, pid
        self.is_source = is_source
        self.frame = frame            # canonical framing grammars allowed
        self.abandon = abandon
        self.gram = G.Grammar(s)
        self.nread = self.nparse = 0
        self.bufs = {}

    def bad(self, what, ev, msg):
        self.r.bad('%s/%s/%s' % (self.pid, what, fnname(ev)), '%s, at %s' % (msg, loc(ev)))

    def is_frame(self, P):
        """Is P the parser that splits off a line?"""
        if P not in self.bufs:
            try:
                cs = [until(G.canon(c)) for c in self.gram.alts(P)]
            except Unsupported:
                cs = None
            self.bufs[P] = cs
        return self.bufs[P]

    def framed(self, P):
        cs = self.is_frame(P)
        return cs is not None and any(len(cs) == len(f) and all(G.same(a, b) for a, b in zip(cs, f)) for f in self.frame)

    def framed_by(self, ps):
        """Parsers applied one after the other split off a line."""
        if len(ps) == 1:
            return self.framed(ps[0])
        cs = self.is_frame(terminated(ps))
        return cs is not None and any(len(cs) == len(f) and all(G.same(a, b) for a, b in zip(cs, f)) for f in self.frame)

    def is_line(self, P):
        """What P yields is the line without its terminator."""
        if self.framed(P):
            return True
        cs = self.is_frame(P)
        return cs is not None and any(len(cs) == len(f) and all(G.same(a, G.Case(b.atoms[:1], b.value, b.conds)) for a, b in zip(cs, f)) for f in self.frame)

    def feeds(self, d, V):
        """Does the data term d stand for an unconsumed remainder of V?  (V itself, the rest after a
        parse of such a remainder, or a loop variable holding only those)"""
        st, seen = [d], set()
        hitV = False
        while st:
            x = st.pop()
            if x is V:
                hitV = True
            elif x.k == 'P':
                if x not in seen:
                    seen.add(x)
                    inc = self.g.incoming(x)
                    if not inc:
                        return False
                    st += [y for y, fs in inc]
            elif x.k == 'ap' and x.a[0] == 'rest':
                st.append(x.a[2])
            elif x.k == 'ap' and x.a[0] == 'suffix' and x.a[1] is V and self.offset(x.a[2], V):
                hitV = True
            else:
                return False
        return hitV

    def offset(self, i, V, seen=frozenset()):
        """Index term i is where an unconsumed remainder of V begins."""
        if i is I(0) or i in seen:
            return True
        if i.k == 'P':
            inc = self.g.incoming(i)
            return bool(inc) and all(self.offset(y, V, seen | {i}) for y, fs in inc)

        def rests(x, y):
            # x is what parsing lines off y leaves
            while x is not y:
                if x.k == 'ap' and x.a[0] == 'rest':
                    x = x.a[2]
                else:
                    return False
            return True

        def feeds(x):
            while x.k == 'ap' and x.a[0] == 'rest':
                x = x.a[2]
            return x is V or x.k == 'ap' and x.a[0] == 'suffix' and x.a[1] is V and self.offset(x.a[2], V, seen)
        if i.k == 'bin' and i.a[0] == 'Sub' and i.a[2] is length(V) and islen(i.a[3]) is not None:
            return feeds(islen(i.a[3]))
        if i.k == 'bin' and i.a[0] == 'Add':
            for a, b in ((i.a[2], i.a[3]), (i.a[3], i.a[2])):
                if not self.offset(a, V, seen):
                    continue
                d = models.suffix(V, a)
                if b.k == 'bin' and b.a[0] == 'Sub' and islen(b.a[2]) is d and islen(b.a[3]) is not None and rests(islen(b.a[3]), d):
                    return True
            # the length of a line and its one-byte terminator
            xs, one = [], 0
            st = [i]
            while st:
                x = st.pop()
                if x.k == 'bin' and x.a[0] == 'Add':
                    st += [x.a[2], x.a[3]]
                elif x.k == 'I':
                    one += x.a[0]
                else:
                    xs.append(x)
            if one == 1 and len(xs) == 2:
                for a, b in (xs, xs[::-1]):
                    o = islen(b)
                    if o is not None and o.k == 'ap' and o.a[0] == 'out' and self.is_line(o.a[1]) and o.a[2] is models.suffix(V, a) and self.offset(a, V, seen):
                        return True
        return False

    def holds(self, v, V, seen=frozenset()):
        """Loop variable v of the buffer can be V."""
        return any(x is V or x.k == 'ap' and x.a[0] == 'suffix' and x.a[1] is V or x.k == 'P' and x not in seen and self.holds(x, V, seen | {v})
                   for x, fs in self.g.incoming(v) or ())

    def before(self, i, V):
        """Index term i is how much of V comes before an unconsumed remainder of it."""
        return i.k == 'bin' and i.a[0] == 'Sub' and i.a[2] is length(V) and islen(i.a[3]) is not None and self.feeds(islen(i.a[3]), V)

    def consumed(self, V, d):
        """How much of V comes before its remainder d."""
        if d is V:
            return I(0)
        if d.k == 'ap' and d.a[0] == 'suffix' and d.a[1] is V:
            return d.a[2]
        return binop('Sub', 'usize', length(V), length(d))

    def run(self):
        g, r = self.g, self.r
        IDLE = ('idle',)

        def step(st, ev, node):
            k = st[0]
            if k == 'mid':
                if ev[0] in ('branch', 'branchne'):
                    return st
                cont = ev[0] == 'parse' and ev[2] is ap('rest', st[4][-1], st[5])
                if not cont and (ev[0] in ('parse', 'bufop', 'pending') or ev[0] == 'io' and ev[1] in READS or ev[0] == 'ret' and ok_ret(ev[1])):
                    self.bad('framing', ev, 'lines are split off by %s' % show(st[4][0])[:200])
                    st = ('parse', st[1], None, frozenset())
                    k = 'parse'
            if k in ('parse', 'done') and ev[0] in ('branch', 'branchne'):
                V, d, fs = st[1], st[2], st[3]
                cut = d.a[2] if d is not None and d.k == 'ap' and d.a[0] == 'suffix' else None
                keep = lambda t: any(x is cut for x in subterms(t)) or any(islen(x) is not None for x in subterms(t)) or any(x.k == 'ap' and x.a[0] in ('ends_with', 'last') for x in subterms(t)) or t.k == 'P' or t.k == 'not' and t.a[0].k == 'P'
                fs = learn(g, fs, ev, keep)
                if fs is None:
                    return None
                if k == 'parse':
                    for t, v in fs:
                        if t.k == 'bin' and t.a[0] in ('Lt', 'Eq') and (t.a[0] == 'Eq') == (v == 1) and v in (0, 1):
                            for a, b in ((t.a[2], t.a[3]), (t.a[3], t.a[2]))[:1 if t.a[0] == 'Lt' else 2]:
                                if b is length(V) and a.k in ('P', 'bin') and self.offset(a, V):
                                    return ('done', V, models.suffix(V, a), fs)
                        x = islen(t)
                        if x is not None and v == 0 and x.k == 'r' and V.k == 'ap' and V.a[0] == 'cat' and V.a[-1] is x:
                            return IDLE      # end of the stream: nothing new arrived
                        if x is not None and v == 0 and x is not V and (d is None or x is d) and self.feeds(x, V):
                            return ('done', V, x, fs)
                        if x is V and v == 0:
                            return ('done', V, V, fs)
                return (k, V, d, fs)
            if ev[0] == 'io' and ev[1] in READS and self.is_source(ev[2][0]):
                res = ev[3]
                if k == 'parse':
                    self.bad('unparsed', ev, 'more is read although lines received earlier were not all processed')
                if k == 'done':
                    st = self.settle(st, ev)
                if k == 'fail':
                    self.bad('ignored-error', ev, 'reading goes on after a line was rejected')
                if k == 'got':
                    self.bad('lost', ev, 'bytes that were read do not get to the buffer')
                self.nread += 1
                B = ev[2][1]
                if ev[1] in INTO:
                    # read into a slice; the bytes are appended to the buffer afterwards
                    if res.k == 'A' and res.a[1] == 0:
                        return ('got', islen(res.a[2]), None, frozenset())
                    return IDLE
                if res.k == 'A' and res.a[1] == 0:
                    n = res.a[2]
                    chunk = islen(n)
                    if chunk is None:
                        self.bad('chunk', ev, 'the bytes read are not appended to the buffer')
                        return IDLE
                    V = models.cat(B, chunk)
                    self.checkbuf(B, ev)
                    return ('parse', V, None, frozenset())
                return ('idle',)
            if k == 'got':
                chunk, fs = st[1], st[3]
                if ev[0] in ('branch', 'branchne'):
                    fs = learn(g, fs, ev, lambda t: islen(t) is chunk or any(islen(x) is chunk for x in subterms(t)))
                    if fs is None:
                        return None
                    kn = knows(g, fs)
                    if kn(ap('len', chunk)) == 0 or kn(binop('Eq', 'usize', ap('len', chunk), I(0))) == 1:
                        return IDLE          # end of the stream: nothing new arrived
                    return ('got', chunk, None, fs)
                if ev[0] == 'bufop' and ev[1] == 'append' and any(x is chunk for x in subterms(ev[3])):
                    if ev[3] is not chunk:
                        self.bad('chunk', ev, 'what is appended to the buffer is not what was read')
                    self.checkbuf(ev[2], ev)
                    return ('parse', models.cat(ev[2], chunk), None, frozenset())
                if ev[0] == 'pending':
                    self.bad('lost', ev, 'bytes that were read are lost if this is cancelled before they get to the buffer')
                    return IDLE
                if ev[0] == 'parse' or ev[0] == 'ret' and ok_ret(ev[1]):
                    self.bad('lost', ev, 'bytes that were read do not get to the buffer')
                    return IDLE
                return st
            if ev[0] == 'parse' and k in ('parse', 'mid'):
                P, d, res = ev[1], ev[2], ev[3]
                V = st[1]
                if k == 'parse' and d.k == 'ap' and d.a[0] == 'out' and self.feeds(d.a[2], V) and not self.is_line(d.a[1]):
                    self.bad('framing', ev, 'what is taken for a line is %s' % show(d.a[1])[:200])
                    return st
                if k == 'parse' and not self.feeds(d, V):
                    return st
                ps, d0 = ((P,), d) if k == 'parse' else (st[4] + (P,), st[2])
                whole = self.framed_by(ps)
                if not whole and res.a[1] == 0 and len(ps) < 3:
                    return ('mid', V, d0, st[3], ps, d)
                if whole or len(ps) >= 3:
                    if not whole:
                        cs = self.is_frame(P)
                        self.bad('framing', ev, 'lines are split off by %s' % ('; '.join(map(str, cs)) if cs else show(P)[:200]))
                    self.nparse += 1
                    self.r.ok('received bytes are split into lines', loc(ev))
                d = d0
                if res.a[1] == 0:
                    return ('parse', V, None, frozenset())
                e = res.a[2]
                if e.k == 'A' and e.a[1] == 0:
                    return ('done', V, d, st[3])
                return ('fail',)
            if ev[0] == 'bufop' and k in ('done', 'parse'):
                kind, v, at = ev[1], ev[2], ev[3]
                V = st[1]
                if v is not V:
                    if k == 'parse' and kind == 'clear' and v.k == 'P' and self.abandon and self.abandon(st[3]) and self.holds(v, V):
                        return IDLE
                    if any(x is V for x in subterms(v)):
                        self.bad('buffer', ev, 'the receive buffer is modified in an unexpected way (%s)' % kind)
                    return st
                if k == 'parse':
                    if kind == 'clear' and self.abandon and self.abandon(st[3]):
                        return ('idle',)
                    if kind in ('suffix', 'suffix-out') and self.abandon and self.abandon(st[3]) and (self.offset(at, V) or self.before(at, V)):
                        return ('parse', models.suffix(V, at), None, st[3])     # what is left is not looked at any more
                    self.bad('early-drop', ev, 'received bytes are dropped before all complete lines in them were processed')
                    return ('idle',)
                d, fs = st[2], st[3]
                sub = self.consumed(V, d)
                if kind == 'clear':
                    if not self.is_empty(fs, V, d, sub):
                        self.bad('clear', ev, 'the receive buffer is cleared although an incomplete line may be left in it')
                    else:
                        r.ok('buffer keeps exactly the incomplete line', loc(ev))
                    return ('idle',)
                if kind in ('suffix', 'suffix-out'):
                    if at is not sub and not (knows(g, fs)(binop('Eq', 'usize', at, sub)) == 1):
                        self.bad('retain', ev, 'the buffer keeps %s instead of the unprocessed rest' % show(models.suffix(V, at))[:200])
                    else:
                        r.ok('buffer keeps exactly the incomplete line', loc(ev))
                    return ('idle',)
                self.bad('retain', ev, 'the buffer is cut in an unexpected way (%s)' % kind)
                return ('idle',)
            if ev[0] == 'ret' and k == 'parse' and ok_ret(ev[1]):
                self.bad('unparsed', ev, 'received lines are not all processed')
            if ev[0] == 'ret' and k == 'fail' and ok_ret(ev[1]):
                self.bad('ignored-error', ev, 'a rejected line is not reported')
            if ev[0] in ('pending',) and k == 'parse':
                self.bad('unparsed', ev, 'received lines are not all processed before waiting again')
            return st
        flow(g, IDLE, step)
        return self.nread, self.nparse

    def is_empty(self, fs, V, d, sub):
        kn = knows(self.g, fs)
        if kn(length(d)) == 0 or kn(binop('Eq', 'usize', length(d), I(0))) == 1:
            return True
        for t in (binop('Eq', 'usize', sub, length(V)), binop('Eq', 'usize', length(V), sub)):
            if kn(t) == 1:
                return True
        if kn(binop('Lt', 'usize', sub, length(V))) == 0:
            return True
        return False

    def settle(self, st, ev):
        """Reached the next read without touching the buffer: nothing may have been consumed."""
        V, d, fs = st[1], st[2], st[3]
        sub = self.consumed(V, d)
        kn = knows(self.g, fs)
        if not (d is V or kn(sub) == 0 or kn(binop('Eq', 'usize', length(V), length(d))) == 1 or kn(binop('Lt', 'usize', I(0), sub)) == 0):
            self.bad('again', ev, 'processed lines stay in the buffer and are processed again')
        else:
            self.r.ok('buffer keeps exactly the incomplete line', 'unchanged when nothing was consumed')
        return ('idle',)

    def checkbuf(self, B, ev):
        """Every value the buffer can have at a read is a form the typestate above accounts for."""
        for x, fs in self.g.sources(B):
            if x.k == 'S' and x.a[0] == b'':
                continue
            if x.k == 'ap' and x.a[0] in ('cat', 'suffix'):
                continue
            self.bad('buffer', ev, 'the buffer can start as %s' % show(x)[:200])


def terminated(ps):
    t = ps[0]
    for p in ps[1:]:
        t = ap('nom::sequence::terminated', t, p)
    return t


def until(c):
    """A run of anything but b followed by b is 'up to b'."""
    at = list(c.atoms)
    for i in range(len(at) - 1):
        a, b = at[i], at[i + 1]
        if a[0] == 'run' and b[0] == 'lit' and len(b[1]) == 1 and a[3] is None and set(a[1]) == set(range(256)) - set(b[1]):
            at[i] = ('until', b[1], a[2], a[4], a[5])
    return G.Case(at, c.value, c.conds)


def ok_ret(v):
    if v.k == 'A' and v.a[0] == POLL and v.a[1] == 0:
        v = v.a[2]
    return v.k == 'A' and v.a[0] == RES and v.a[1] == 0


def line_frames(end, empty=False):
    """Streaming: a run up to the terminator, and the terminator.  Where lines are never empty a reader may
    take an empty one for an error, or not; else (empty) it must be a line as any other."""
    out = []
    for m in (0,) if empty else (0, 1):
        c = mk('Y', '#0')
        out.append([G.Case([('until', end, m, 's', c), ('lit', end, 's')], c)])
    return out
