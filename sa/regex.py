"""The language of a regular expression (syntax of the Rust regex crate), as a deterministic automaton.

`find(pattern, flags)` is the set of texts in which the expression is found somewhere (Regex::is_match).
`differ(a, b)` is a shortest text that one of two such languages has and the other has not, or None."""
import unicodedata

MAX = 0x10FFFF


class Bad(Exception):
    pass


# ---- sets of characters: sorted lists of ranges ---------------------------------------------
def norm(rs):
    out = []
    for a, b in sorted(rs):
        if out and a <= out[-1][1] + 1:
            out[-1][1] = max(out[-1][1], b)
        else:
            out.append([a, b])
    return tuple((a, b) for a, b in out)


def neg(rs):
    out, p = [], 0
    for a, b in norm(rs):
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAX:
        out.append((p, MAX))
    return tuple(out)


def both(x, y):
    return neg(neg(x) + neg(y))


def where(f):
    out = []
    for i in range(MAX + 1):
        if f(i):
            if out and out[-1][1] == i - 1:
                out[-1][1] = i
            else:
                out.append([i, i])
    return tuple(map(tuple, out))


TAB = {}


def perl(c, uni):
    k = (c, uni)
    if k not in TAB:
        if c == 'd':
            TAB[k] = where(lambda i: unicodedata.category(chr(i)) == 'Nd') if uni else ((48, 57),)
        elif c == 's':
            TAB[k] = where(lambda i: chr(i).isspace() and not 0x1c <= i <= 0x1f) if uni else norm([(9, 13), (32, 32)])
        else:
            TAB[k] = where(lambda i: unicodedata.category(chr(i))[0] in 'LM' or unicodedata.category(chr(i)) in ('Nd', 'Nl', 'Pc') or i in (0x200c, 0x200d)) if uni else norm([(48, 57), (65, 90), (95, 95), (97, 122)])
    return TAB[k]


POSIX = {'alnum': [(48, 57), (65, 90), (97, 122)], 'alpha': [(65, 90), (97, 122)], 'ascii': [(0, 127)], 'blank': [(9, 9), (32, 32)],
         'cntrl': [(0, 31), (127, 127)], 'digit': [(48, 57)], 'graph': [(33, 126)], 'lower': [(97, 122)], 'print': [(32, 126)],
         'punct': [(33, 47), (58, 64), (91, 96), (123, 126)], 'space': [(9, 13), (32, 32)], 'upper': [(65, 90)],
         'word': [(48, 57), (65, 90), (95, 95), (97, 122)], 'xdigit': [(48, 57), (65, 70), (97, 102)]}
GROUPS = []


def folded(rs, uni):
    if not uni:
        out = list(rs)
        for a, b in rs:
            for lo, d in ((65, 32), (97, -32)):
                x, y = max(a, lo), min(b, lo + 25)
                if x <= y:
                    out.append((x + d, y + d))
        return norm(out)
    if not GROUPS:
        g = {}
        for i in range(MAX + 1):
            c = chr(i)
            f = c.casefold()
            if f != c or c.upper() != c:
                if len(f) == 1:
                    g.setdefault(f, {ord(f)}).add(i)
        GROUPS.extend(v for v in g.values() if len(v) > 1)
    out = list(rs)
    for g in GROUPS:
        if any(a <= i <= b for i in g for a, b in rs):
            out += [(i, i) for i in g]
    return norm(out)


# ---- syntax ---------------------------------------------------------------------------------
class Parser:
    def __init__(self, text, flags):
        self.t, self.i, self.f = text, 0, dict(flags)

    def peek(self, n=1):
        return self.t[self.i:self.i + n]

    def take(self):
        if self.i >= len(self.t):
            raise Bad('the expression ends early')
        self.i += 1
        return self.t[self.i - 1]

    def skip(self):
        while self.f.get('x') and self.i < len(self.t):
            if self.t[self.i].isspace():
                self.i += 1
            elif self.t[self.i] == '#':
                while self.i < len(self.t) and self.t[self.i] != '\n':
                    self.i += 1
            else:
                return

    def alt(self):
        keep = dict(self.f)
        alts = [[]]
        while True:
            self.skip()
            c = self.peek()
            if c in ('', ')'):
                break
            if c == '|':
                self.i += 1
                alts.append([])
                continue
            a = self.atom()
            if a is None:
                continue
            while True:
                self.skip()
                c = self.peek()
                if c in ('*', '+', '?') and c:
                    self.i += 1
                    lo, hi = {'*': (0, None), '+': (1, None), '?': (0, 1)}[c]
                elif c == '{':
                    j = self.t.index('}', self.i)
                    w = self.t[self.i + 1:j].split(',')
                    self.i = j + 1
                    lo = int(w[0])
                    hi = lo if len(w) == 1 else (int(w[1]) if w[1].strip() else None)
                else:
                    break
                if self.peek() == '?':
                    self.i += 1
                if (hi or lo) > 200:
                    raise Bad('a large repetition')
                a = ('rep', a, lo, hi)
            alts[-1].append(a)
        self.f = keep
        return ('alt', [('cat', x) for x in alts])

    def cls(self, rs):
        return ('set', folded(rs, self.f.get('u', True)) if self.f.get('i') else norm(rs))

    def atom(self):
        c = self.take()
        if c == '(':
            if self.peek() == '?':
                self.i += 1
                if self.peek(2) == 'P<' or self.peek() == '<':
                    self.i = self.t.index('>', self.i) + 1
                else:
                    on, new = True, dict(self.f)
                    while True:
                        c = self.take()
                        if c == '-':
                            on = False
                        elif c in 'imsUux':
                            new[c] = on
                        elif c == ':':
                            break
                        elif c == ')':
                            self.f = new
                            return None
                        else:
                            raise Bad('flag ' + c)
                    old, self.f = self.f, new
                    a = self.alt()
                    self.f = old
                    if self.take() != ')':
                        raise Bad('unbalanced')
                    return a
            a = self.alt()
            if self.take() != ')':
                raise Bad('unbalanced')
            return a
        if c == '[':
            return self.cls(self.bracket())
        if c == '.':
            return ('set', neg(() if self.f.get('s') else ((10, 10),)))
        if c in '^$':
            if self.f.get('m'):
                raise Bad('a multi-line anchor')
            return ('anchor', c)
        if c == '\\':
            x = self.escape()
            if isinstance(x, str):
                return ('anchor', x)
            return self.cls(x)
        if c in '*+?{':
            raise Bad('nothing to repeat')
        return self.cls([(ord(c), ord(c))])

    def escape(self):
        c = self.take()
        uni = self.f.get('u', True)
        if c in 'dsw':
            return perl(c, uni)
        if c in 'DSW':
            return neg(perl(c.lower(), uni))
        if c == 'A':
            return '^'
        if c == 'z':
            return '$'
        if c in 'nrtfva':
            x = {'n': 10, 'r': 13, 't': 9, 'f': 12, 'v': 11, 'a': 7}[c]
            return ((x, x),)
        if c in 'xuU':
            if self.peek() == '{':
                j = self.t.index('}', self.i)
                x, self.i = int(self.t[self.i + 1:j], 16), j + 1
            else:
                n = {'x': 2, 'u': 4, 'U': 8}[c]
                x, self.i = int(self.peek(n), 16), self.i + n
            return ((x, x),)
        if c.isalnum():
            raise Bad('\\' + c)
        return ((ord(c), ord(c)),)

    def bracket(self):
        no = self.peek() == '^'
        if no:
            self.i += 1
        rs, first = [], True
        while True:
            c = self.take()
            if c == ']' and not first:
                break
            first = False
            if c == '[':
                if self.peek() == ':':
                    j = self.t.index(':]', self.i)
                    n = self.t[self.i + 1:j]
                    self.i = j + 2
                    rs += neg(POSIX[n[1:]]) if n[0] == '^' else POSIX[n]
                else:
                    rs += self.bracket()
                continue
            if self.t[self.i - 1:self.i + 1] in ('&&', '--', '~~'):
                if c == '&':
                    self.i += 1
                    # everything up to the closing bracket
                    j = self.i
                    self.t = self.t[:j] + self.t[j:]
                    rest = Parser(self.t, self.f)
                    rest.i = j
                    x = rest.bracket()
                    self.i = rest.i
                    rs = both(norm(rs), norm(x))
                    break
                raise Bad('set operation')
            if self.f.get('x') and c.isspace():
                continue
            if c == '\\':
                x = self.escape()
                if isinstance(x, str):
                    raise Bad('anchor in a class')
                if len(x) != 1 or x[0][0] != x[0][1]:
                    rs += x
                    continue
                lo = x[0][0]
            else:
                lo = ord(c)
            hi = lo
            if self.peek() == '-' and self.peek(2)[1:] not in (']', '', '-'):
                self.i += 1
                c = self.take()
                if c == '\\':
                    x = self.escape()
                    if isinstance(x, str) or len(x) != 1 or x[0][0] != x[0][1]:
                        raise Bad('range')
                    hi = x[0][0]
                else:
                    hi = ord(c)
            if hi < lo:
                raise Bad('range')
            rs.append((lo, hi)) if isinstance(rs, list) else None
        rs = norm(rs)
        if self.f.get('i'):
            rs = folded(rs, self.f.get('u', True))
        return list(neg(rs) if no else rs)


# ---- automata -------------------------------------------------------------------------------
class Auto:
    """Edges: (state, set, state) and (state, None or anchor, state)."""

    def __init__(self, pattern, flags):
        p = Parser(pattern, flags)
        ast = p.alt()
        if p.i != len(pattern):
            raise Bad('unbalanced')
        self.n, self.eps, self.chr = 0, {}, {}
        self.s, self.acc = self.new(), self.new()
        a, b = self.build(ast)
        self.chr.setdefault(self.s, []).append((((0, MAX),), self.s))
        self.chr.setdefault(self.acc, []).append((((0, MAX),), self.acc))
        self.edge(self.s, None, a)
        self.edge(b, None, self.acc)

    def new(self):
        self.n += 1
        if self.n > 20000:
            raise Bad('a large expression')
        return self.n

    def edge(self, a, k, b):
        self.eps.setdefault(a, []).append((k, b))

    def build(self, t):
        a, b = self.new(), self.new()
        if t[0] == 'set':
            self.chr.setdefault(a, []).append((t[1], b))
        elif t[0] == 'anchor':
            self.edge(a, t[1], b)
        elif t[0] == 'cat':
            p = a
            for x in t[1]:
                c, d = self.build(x)
                self.edge(p, None, c)
                p = d
            self.edge(p, None, b)
        elif t[0] == 'alt':
            for x in t[1]:
                c, d = self.build(x)
                self.edge(a, None, c)
                self.edge(d, None, b)
        else:
            x, lo, hi = t[1:]
            p = a
            for i in range(lo):
                c, d = self.build(x)
                self.edge(p, None, c)
                p = d
            if hi is None:
                c, d = self.build(x)
                q = self.new()
                self.edge(p, None, q)
                self.edge(q, None, c)
                self.edge(d, None, q)
                self.edge(q, None, b)
            else:
                for i in range(hi - lo):
                    self.edge(p, None, b)
                    c, d = self.build(x)
                    self.edge(p, None, c)
                    p = d
                self.edge(p, None, b)
        return a, b

    def close(self, st, ok):
        seen, w = set(st), list(st)
        while w:
            for k, b in self.eps.get(w.pop(), ()):
                if (k is None or k in ok) and b not in seen:
                    seen.add(b)
                    w.append(b)
        return frozenset(seen)

    def start(self):
        return (self.close([self.s], '^'), True)

    def accepts(self, q):
        return self.acc in self.close(q[0], '^$' if q[1] else '$')

    def step(self, q, c):
        out = set()
        for s in q[0]:
            for rs, b in self.chr.get(s, ()):
                if any(x <= c <= y for x, y in rs):
                    out.add(b)
        return (self.close(out, ''), False)

    def cuts(self):
        out = {0}
        for es in self.chr.values():
            for rs, b in es:
                for x, y in rs:
                    out |= {x, y + 1}
        return out


def find(pattern, flags=()):
    try:
        return Auto(pattern, flags)
    except (IndexError, KeyError, ValueError, TypeError) as x:
        raise Bad('the expression cannot be read: %r' % x)


def differ(a, b):
    """A shortest text in one language and not in the other, and whether the first has it."""
    cuts = sorted(c for c in a.cuts() | b.cuts() if c <= MAX)
    # printable representatives where there are some
    reps = []
    for i, c in enumerate(cuts):
        hi = cuts[i + 1] - 1 if i + 1 < len(cuts) else MAX
        reps.append(next((x for x in range(c, min(hi, c + 300) + 1) if chr(x).isprintable()), c))
    q = (a.start(), b.start())
    seen, w = {q}, [(q, '')]
    n = 0
    while n < len(w):
        (x, y), t = w[n]
        n += 1
        if a.accepts(x) != b.accepts(y):
            return t, a.accepts(x), n
        if len(seen) > 20000:
            raise Bad('too many states')
        for c in reps:
            q = (a.step(x, c), b.step(y, c))
            if q not in seen:
                seen.add(q)
                w.append((q, t + chr(c)))
    return None, False, n
