"""Rules about station identities (C11)."""
from lib import *
import re
import regex
import program
import grammar as G

TY = 'plusendi::types::'
COW = 'alloc::borrow::Cow'
# the documented form: [prefix/] [digit] letters digits letter (letters or digits) then suffixes after - or /
FORM = r'^([A-Za-z0-9]+/)?([0-9]?[A-Za-z]+)([0-9]+)([A-Za-z][A-Za-z0-9]*)([-/][A-Za-z0-9]+)*$'
LOWER = range(ord('a'), ord('z') + 1)
S0 = mk('Y', 's')
UPPER = re.compile(r'(^|::)(to_ascii_uppercase|to_uppercase)$')
FLAGS = {'case_insensitive': 'i', 'multi_line': 'm', 'dot_matches_new_line': 's', 'swap_greed': 'U', 'ignore_whitespace': 'x', 'unicode': 'u'}


def call(t):
    """(function, arguments) of a value that is the result of a call, or (None, ())."""
    if t.k == 'r':
        return t.a[0], t.a[1]
    if t.k == 'ap' and isinstance(t.a[0], str):
        return t.a[0], t.a[1:]
    return None, ()


def text(t):
    if t.k == 'S':
        v = t.a[0]
        return v.decode('utf8') if isinstance(v, bytes) else v
    return None


def pattern(s, t, depth=0):
    """(expression, flags) of a value that is a compiled regular expression, or None."""
    if depth > 30:
        return None
    go = lambda x: pattern(s, x, depth + 1)
    if t.k == 'static':
        out = set()
        for p in sorted(s.w.bodies):
            if p == t.a[0] or p.startswith(t.a[0] + '::{closure'):
                try:
                    for v, f, k in rets(s.fn(p)):
                        out.add(pattern(s, v, depth + 1))
                except Unsupported:
                    pass
        out.discard(None)
        return out.pop() if len(out) == 1 else None
    path, args = call(t)
    if path is not None and '::' in path:
        if re.search(r'Regex::new$', path) and text(args[0]) is not None:
            return (text(args[0]), frozenset())
        if re.search(r'RegexBuilder::new(!0)?$', path) and text(args[0]) is not None:
            return (text(args[0]), frozenset())
        m = re.search(r'RegexBuilder::(\w+)!0$', path)
        if m and m.group(1) in FLAGS and args[1].k == 'I':
            p = go(args[0])
            return p and (p[0], (p[1] - {(FLAGS[m.group(1)], 1), (FLAGS[m.group(1)], 0)}) | {(FLAGS[m.group(1)], args[1].a[0])})
        if re.search(r'RegexBuilder::build$|::deref$|::force$|::get_or_init(!0)?$|::unwrap$|::expect$', path):
            for a in args:
                p = go(a)
                if p:
                    return p
        return None
    if t.k == 'A' and len(t.a) == 3:
        return go(t.a[2])
    for x in t.a:
        if hasattr(x, 'k') and t.k in ('pj', 'F', 'ap', 'proj', 'f'):
            p = go(x)
            if p:
                return p
    return None


def language(s, r, t):
    """What is known of the language of a regular expression value: a text on which it differs from FORM, or ''."""
    p = pattern(s, t)
    if p is None:
        return None
    k = ('language', p)
    if k not in s.cache:
        try:
            fl = {f: bool(v) for f, v in p[1]}
            x, has, n = regex.differ(regex.find(p[0], fl), regex.find(FORM))
            s.cache[k] = ('' if x is None else '%r, which %s' % (x, 'it matches' if has else 'it does not match'), n)
        except regex.Bad as x:
            s.cache[k] = ('an expression that cannot be analysed: %s' % x, 0)
    return s.cache[k]


def strip(t):
    """Conversions that keep the text."""
    while re.search(r'(^|::)(into|to_string|to_owned|from|into_string|clone)$', call(t)[0] or '') and len(call(t)[1]) == 1:
        t = call(t)[1][0]
    return t


def upper(x):
    """The text that x is in upper case, or None."""
    return strip(call(x)[1][0]) if UPPER.search(call(x)[0] or '') else None


def scan(g, raw):
    """Every return of g with: does the text match (1, 0, None), and has every byte been seen not to be a lower
    case letter.  A loop counts if its counter starts at 0, goes up by one and each turn excludes the letters."""
    out = []
    trans = {}
    for a, evs, m, lab, lands in g.transitions():
        trans.setdefault(a.id if a is not None else None, []).append((evs, m, lab, lands))
    use = {ev[1].a[2] for ev in events(g, 'branch') if ev[1].k == 'bin' and ev[1].a[0] == 'Lt' and ev[1].a[3].k == 'ap' and ev[1].a[3].a[0] == 'len'}
    full = (1 << 256) - 1
    low = sum(1 << b for b in LOWER)
    memo = {}

    def mask(t, elt, v):
        k = (t, elt, v)
        if k not in memo:
            x = 0
            for b in range(256):
                y = evalc(t, {elt: b})
                if y is None or (y == v if not isinstance(v, tuple) else y not in v):
                    x |= 1 << b
            memo[k] = x
        return memo[k]
    # (node, matched, scanned: counter (all before it are clean), 'clean' or None, known constants of phis)
    st0 = [(g.entry.id, None, None, frozenset())]
    if None in trans:
        st0 = [(g.entry.id, None, p, frozenset((q, v.a[0]) for q, v in lands.items() if v.k == 'I'))
               for evs, m, lab, lands in trans[None] for p in [zero(lands, use)]]
    seen, work = set(st0), list(st0)
    while work:
        n, mt, sc, kn = work.pop()
        for evs, m, lab, lands in trans.get(n, ()):
            mt2, sc2, cur = mt, sc, full
            inside = False
            known = dict(kn)
            env = dict(known)
            dead = False
            for ev in evs:
                if ev[0] in ('branch', 'branchne'):
                    t, v = ev[1], ev[2]
                    while t.k == 'not' and v in (0, 1):
                        t, v = t.a[0], 1 - v
                    if ev[0] == 'branchne':
                        v = v if isinstance(v, tuple) else (v,)
                    c = evalc(t, env)
                    if c is not None and (c in v if isinstance(v, tuple) else c != v):
                        dead = True
                        break
                    if (call(t)[0] or '').endswith('::is_match') and ev[0] == 'branch':
                        if mt2 is not None and mt2[1] != v:
                            dead = True
                            break
                        mt2 = (t, v)
                    if t.k == 'bin' and t.a[0] == 'Eq' and v == 1 and any(x is raw and upper(y) is raw for x, y in ((t.a[2], t.a[3]), (t.a[3], t.a[2]))):
                        sc2 = 'clean'
                    if sc2 is not None and sc2 != 'clean':
                        if t.k == 'bin' and t.a[0] == 'Lt' and t.a[2] is sc2 and t.a[3].k == 'ap' and t.a[3].a[0] == 'len' and t.a[3].a[1] in (raw, CHARS(raw)) and ev[0] == 'branch':
                            if v == 0:
                                sc2 = 'clean'
                            else:
                                inside = True
                        elif elt(raw, sc2, t) is not None:
                            cur &= mask(t, elt(raw, sc2, t), v)
                            if not cur:
                                dead = True
                                break
                if ev[0] == 'ret':
                    out.append((ev, mt2, sc2 == 'clean'))
            if dead or m is None:
                continue
            if sc2 != 'clean':
                z = zero(lands, use)
                if sc2 is not None and inside and lands.get(sc2) is not None and lands[sc2] is mk('bin', 'Add', lands[sc2].a[1] if lands[sc2].k == 'bin' else '', sc2, I(1)):
                    if cur & low:
                        sc2 = None
                elif z is not None:
                    sc2 = z
                elif sc2 in lands:
                    sc2 = None
            for q, v in lands.items():
                known.pop(q, None)
            for q, v in lands.items():
                c = v.a[0] if v.k == 'I' else evalc(v, env)
                if c is None and v.k != 'I' and sc is not None and sc != 'clean':
                    cs = {evalc(v, merged(env, elt(raw, sc, v) or raw, b)) for b in range(256) if cur >> b & 1}
                    c = cs.pop() if len(cs) == 1 else None
                if c is not None and c in (0, 1) and not (q is sc2):
                    known[q] = c
            nx = (m.id, mt2, sc2, frozenset(known.items()))
            if nx not in seen:
                if len(seen) > 3000:
                    raise Unsupported('too many states in ' + g.e.rootname)
                seen.add(nx)
                work.append(nx)
    return out


def CHARS(raw):
    return mk('ap', 'chars', raw)


def elt(raw, p, t):
    """The byte or character at p, if t is about it."""
    for e in (mk('sel', raw, p), mk('sel', CHARS(raw), p)):
        if any(x is e for x in subterms(t)):
            return e
    return None


def merged(env, k, v):
    d = dict(env)
    d[k] = v
    return d


def zero(lands, use):
    c = [p for p, v in lands.items() if v is I(0) and p in use]
    return c[0] if len(c) == 1 else None


def c11(s, r):
    """A station id is made exactly of a text of the documented form, and holds it in upper case."""
    makers = [
        (TY + 'StationId::new', 'owned'),
        ('<plusendi::types::StationId as core::str::traits::FromStr>::from_str', 'owned'),
        ('<plusendi::types::StationId as core::convert::TryFrom<&str>>::try_from', 'owned'),
        ('<plusendi::types::StationId as core::convert::TryFrom<alloc::string::String>>::try_from', 'owned'),
        (TY + 'StationIdRef::from_str', 'cow'),
        ('<plusendi::types::StationId as aliri_braid::Normalizer>::normalize', 'text'),
    ]
    for path, kind in makers:
        name = path.replace('plusendi::types::', '').replace('core::convert::', '').replace('core::str::traits::', '').replace('alloc::string::', '')
        key = 'C11/' + re.sub(r'[^A-Za-z]+', '_', name).strip('_')
        g = s.fn(path, [S0])
        for ev in events(g, 'panic'):
            r.bad(key + '/panic', '%s can panic, at %s' % (name, loc(ev)))
        for ev in events(g, 'assert'):
            r.bad(key + '/panic', '%s can panic, at %s' % (name, loc(ev)))
        good = bad = 0
        for ev, mt, clean in scan(g, S0):
            v = ev[1]
            if mt is None:
                r.bad(key + '/unmatched', '%s returns %s without matching the text against the form of a station id' % (name, show(v)[:120]))
                continue
            t, ok = mt
            d = language(s, r, call(t)[1][0])
            if d is None or call(t)[1][1] is not S0:
                r.bad(key + '/form', '%s decides by %s, not by the form of a station id' % (name, show(t)[:160]))
                continue
            if d[0]:
                r.bad(key + '/form', '%s takes an expression that is not the form of a station id: they differ on %s' % (name, d[0]))
                continue
            if v.k != 'A' or v.a[0] != RES:
                r.bad(key + '/result', '%s returns %s' % (name, show(v)[:120]))
                continue
            if v.a[1] == 1:
                r.check(ok == 0, 'a text that is not a station id is refused', name, key + '/refuses', '%s refuses a text of the right form' % name)
                bad += 1
                continue
            if ok != 1:
                r.bad(key + '/accepts', '%s accepts a text that has not the form of a station id' % name)
                continue
            x = v.a[2]
            if kind == 'owned':
                if x.k != 'A' or x.a[0] != TY + 'StationId':
                    r.bad(key + '/value', '%s makes %s' % (name, show(x)[:120]))
                    continue
                x = x.a[2]
            else:
                if x.k != 'A' or x.a[0] != COW:
                    r.bad(key + '/value', '%s makes %s' % (name, show(x)[:120]))
                    continue
                x = x.a[2]
                if kind == 'cow' and v.a[2].a[1] == 1 and x.k == 'A' and x.a[0] == TY + 'StationId':
                    x = x.a[2]
            x = strip(x)
            while x.k == 'A' and len(x.a) == 3 and x.a[0] == TY + 'StationIdRef':
                x = x.a[2]
            if upper(x) is S0:
                r.ok('a station id holds its text in upper case', '%s: upper-cased' % name)
                good += 1
            elif x is S0:
                r.check(clean, 'a station id holds its text in upper case', '%s: as it is, without lower case letters' % name, key + '/lower',
                        '%s keeps the text as it is although it may have lower case letters' % name)
                good += 1
            else:
                r.bad(key + '/value', '%s holds %s instead of the text in upper case' % (name, show(x)[:120]))
        r.check(good > 0, 'a text of the right form becomes a station id', name, key + '/never', '%s never makes a station id' % name)
        r.check(bad > 0, 'a text that is not a station id is refused', name, key + '/all', '%s refuses nothing' % name)


# ---- C12: text made without a UTF-8 check --------------------------------------------------------
UNCHECKED = re.compile(r'(^|::)from_utf8_unchecked(_mut)?$')
RULE12 = 'text made without a UTF-8 check is ASCII'


def calls(b, rx):
    """(function, location) of the calls in a body of functions by that name."""
    for bb in b.blocks:
        t = bb['t']
        if t['k'] == 'call' and not bb.get('cl'):
            k = t['f'].get('k', {})
            p = k.get('p', '')
            if k.get('k') == 'fn' and rx.search(p):
                yield p, t['sp']


def crate_calls(s, rx):
    """(function, callee, generic argument types, location) of the crate's calls of functions by that name."""
    for p, b in s.w.bodies.items():
        if p.lstrip('<&').startswith('plusendi::') and '::tests::' not in p:
            for bb in b.blocks:
                t = bb['t']
                if t['k'] == 'call' and not bb.get('cl'):
                    k = t['f'].get('k', {})
                    if k.get('k') == 'fn' and rx.search(k.get('p', '')):
                        yield p, k['p'], [b.prog.types[x]['s'] if isinstance(x, int) else x.get('s', '') for x in k.get('a', ())], t['sp']


class Texts(G.Grammar):
    """The grammars of all parsers, looking at what each conversion to text is given."""

    def __init__(self, s, r):
        G.Grammar.__init__(self, s)
        self.r = r
        self.sites = {}
        self.used = set()

    def site(self, ev):
        w = at(ev)
        return (w[0], w[1], w[2])

    def look(self, g, atoms, m):
        self.used.add(g.e.rootname)
        for ev in events(g, 'utf8'):
            self.sites.setdefault(self.site(ev), set()).add(self.verdict(subst(ev[2], m), atoms, g, ev))

    def verdict(self, v, atoms, g, ev):
        """'' if every byte of v is ASCII, or what is wrong."""
        if v.k == 'S':
            return '' if max(v.a[0], default=0) < 128 else 'the text has bytes over 127'
        for a in atoms:
            if a[0] == 'run' and a[-1] is v:
                if max(a[1], default=0) < 128:
                    return ''
                return 'the bytes may be any of [%s]' % G.charset_name(a[1])
            if a[0] == 'inner':
                x = self.verdict(v, a[2], g, ev)
                if x == '' or not x.startswith('?'):
                    return x
        if v.k == 'ap' and v.a[0] == 'out':
            bad = ''
            for c in self.alts(v.a[1]):
                x = self.verdict(c.value, c.atoms, g, ev)
                bad = bad or x
            return bad
        if v.k == 'ap' and v.a[0] in ('prefix', 'suffix', 'slice'):
            return self.verdict(v.a[1], atoms, g, ev)
        if v.k == 'ap' and v.a[0] == 'cat':
            for x in v.a[1:]:
                y = self.verdict(x, atoms, g, ev)
                if y:
                    return y
            return ''
        return '?the bytes are %s' % show(v)[:100]

    def mapped(self, case, f, how):
        u = f
        while u.k == 'U':
            u = u.a[0]
        if u.k == 'fn' and UNCHECKED.search(u.a[0]):
            self.sites.setdefault(('by name', u.a[0], 0), set()).add(self.verdict(case.value, case.atoms, None, None))
            return [case]
        return G.Grammar.mapped(self, case, f, how)

    def applied(self, g, case):
        self.look(g, case.atoms if case else (), {})

    def of_graph(self, g, data):
        self.look(g, (), {})
        return G.Grammar.of_graph(self, g, data)


def c12(s, r):
    """Every conversion of bytes to text that skips the UTF-8 check is given only ASCII bytes."""
    own = {p: b for p, b in s.w.bodies.items() if p.lstrip('<&').startswith('plusendi::') and '::tests::' not in p}
    sites = {}
    for p, b in own.items():
        for f, sp in calls(b, UNCHECKED):
            sites[(p, sp[0], int(sp[1]))] = f
    for p, b in own.items():
        for q in program.direct_mentions(b):
            if UNCHECKED.search(q) and not any(k[0] == p for k in sites):
                sites[('by name', q, 0)] = q
    t = Texts(s, r)
    why = {}
    for p, b in sorted(own.items()):
        if '{' not in p and '<' not in p and b.argc == 1 and 'nom::internal::Err' in b.prog.types[b.locals[0][0]]['s']:
            try:
                t.alts(mk('fn', p))
            except (Unsupported, Missing) as x:
                why[p] = str(x)
    # helpers: called with whatever their callers have
    helpers = {k[0] for k in sites if k[0] in own and '{' not in k[0] and k[0] not in t.used}
    for h in sorted(helpers):
        for p, b in sorted(own.items()):
            if p != h and h in program.direct_mentions(b):
                root = p
                if root in t.used or any(root == u for u in t.used):
                    continue
                r.bad('C12/%s/caller' % h, '%s makes text without a UTF-8 check, for %s, of bytes that no parser has restricted to ASCII' % (h, p))
    for k, f in sorted(sites.items()):
        seen = t.sites.get(k)
        name = k[0] if k[0] != 'by name' else k[1]
        if not seen:
            r.bad('C12/%s' % name, '%s makes text without a UTF-8 check, of bytes that the analysis cannot follow (%s:%s)%s' % (name, k[1], k[2], ''.join(
                '; ' + x for q, x in why.items() if name.startswith(q))))
            continue
        wrong = sorted(x for x in seen if x)
        r.check(not wrong, RULE12, '%s (%s:%s)' % k, 'C12/%s' % name,
                '%s makes text without a UTF-8 check although %s' % (name, wrong[0].lstrip('?') if wrong else ''))
    r.ok('the conversions to text without a check are known', '%d calls' % len(sites))
    r.notes.append('parsers visited: %d' % len(t.used))
