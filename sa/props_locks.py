"""Locks: nothing is waited for while the value of a status, or a lock, is held."""
from lib import *

W = 'tokio::sync::watch::'
# guards of locks that block a thread, and the type of what they lock
GUARDS = (W + 'Ref', 'std::sync::poison::mutex::MutexGuard', 'std::sync::mutex::MutexGuard', 'std::sync::poison::rwlock::RwLockReadGuard', 'std::sync::poison::rwlock::RwLockWriteGuard',
          'std::sync::rwlock::RwLockReadGuard', 'std::sync::rwlock::RwLockWriteGuard', 'lock_api::mutex::MutexGuard', 'lock_api::rwlock::RwLockReadGuard',
          'lock_api::rwlock::RwLockWriteGuard', 'std::sync::poison::mutex::MappedMutexGuard')
LOCKS = re.compile(r'^(?:tokio::sync::watch::(Sender|Receiver)::<T>::(send|send_replace|send_modify|send_if_modified|borrow|borrow_and_update|subscribe)|'
                   r'(?:std::sync|lock_api)::(?:poison::)?(mutex|rwlock)::(?:Mutex|RwLock)::<.*>::(lock|read|write))$')
BLOCKS = re.compile(r'^(?:std::thread::(?:functions::)?sleep|std::thread::(?:functions::)?park.*|std::thread::(?:join_handle::)?JoinHandle::<T>::join|.*::blocking_(?:recv|send|lock|read|write)|'
                    r'tokio::runtime::(?:runtime::)?Runtime::block_on|tokio::runtime::handle::Handle::block_on|std::sync::mpsc::Receiver::<T>::recv|std::sync::(?:poison::)?(?:condvar::)?Condvar::wait.*)$')


class Locks(object):
    def __init__(self, s):
        self.s = s
        self.memo = {}
        self.own = {}

    # ---- types
    def owns(self, prog, t, busy=()):
        """Types locked by guards that a value of the type holds."""
        if not isinstance(t, int):
            return frozenset()
        k = (prog, t)
        if k in self.own:
            return self.own[k]
        if t in busy:
            return frozenset()
        ty = prog.types[t]
        busy = busy + (t,)
        r = frozenset()
        if ty['k'] == 'adt':
            if ty['p'] in GUARDS:
                r = frozenset([prog.types[ty['a'][-1]]['s'] if ty.get('a') else '?'])
            else:
                for fs in ty.get('f') or [ty.get('a') or []]:
                    for x in fs:
                        r |= self.owns(prog, x, busy)
        elif ty['k'] in ('tuple', 'closure', 'coroutine'):
            for x in ty.get('a') or []:
                r |= self.owns(prog, x, busy)
        elif ty['k'] in ('array', 'slice'):
            r = self.owns(prog, ty['t'], busy)
        if not busy[:-1]:
            self.own[k] = r
        return r

    # ---- calls
    def op(self, body, t):
        """(kind, locked type, receiver) of a call that takes a lock."""
        f = t['f'].get('k') if isinstance(t['f'], dict) else None
        if not f or f.get('k') != 'fn':
            return None
        for p in (f['p'], f.get('r') or ''):
            m = LOCKS.match(p)
            if m:
                ty = [body.prog.types[x]['s'] for x in f.get('a') or []]
                name = m.group(2) or m.group(4)
                if name == 'subscribe':
                    return None
                return name, ty[-1] if ty else '?', t['a'][0] if t['a'] else None
            if BLOCKS.match(p):
                return 'block', '*', None
        return None

    def callees(self, body, bb):
        """(function, types of its parameters, places of its arguments) of all that a block may run."""
        t = bb['t']
        r = []
        for st in bb['s']:
            if st[0] == '=' and st[2][0] == 'agg' and st[2][1][0] == 'closure':
                r.append((st[2][1][1], {}, {}))
        if t['k'] == 'call':
            f = t['f'].get('k') if isinstance(t['f'], dict) else None
            if f and f.get('k') == 'fn':
                c = f.get('r') or f['p']
                if c in self.s.w.bodies:
                    ts, places = {}, {}
                    for i, a in enumerate(t['a']):
                        pl = a.get('m') or a.get('c')
                        if isinstance(pl, list) and not pl[1]:
                            places['arg%d' % (i + 1)] = self.origin(body, pl[0])
                            cb = self.s.w.bodies[c]
                            if i + 1 < len(cb.locals):
                                self.unify(cb.prog, cb.locals[i + 1][0], body.prog, body.locals[pl[0]][0], ts)
                    r.append((c, ts, places))
        if t['k'] == 'drop':
            ty = body.prog.types[t['ty']]
            if ty['k'] == 'adt':
                r += [(p, {}, {}) for p in self.drops().get(ty['p'], ())]
        return [x for x in r if x[0] in self.s.w.bodies]

    def unify(self, p1, t1, p2, t2, out, d=0):
        """The types that stand for the type parameters in t1, where t2 is used."""
        a, b = p1.types[t1], p2.types[t2]
        if a['k'] == 'param':
            out.setdefault(a['s'], b['s'])
        elif a['k'] == b['k'] and d < 8:
            if a['k'] in ('ref', 'ptr', 'array', 'slice') and isinstance(a.get('t'), int) and isinstance(b.get('t'), int):
                self.unify(p1, a['t'], p2, b['t'], out, d + 1)
            elif a.get('p') == b.get('p'):
                for x, y in zip(a.get('a') or [], b.get('a') or []):
                    if isinstance(x, int) and isinstance(y, int):
                        self.unify(p1, x, p2, y, out, d + 1)

    def drops(self):
        if not hasattr(self, '_drops'):
            self._drops = {}
            for p in self.s.w.bodies:
                m = re.match(r"^<([\w:]+)(?:<.*>)? as .*Drop>::drop$", p)
                if m:
                    self._drops.setdefault(m.group(1), []).append(p)
        return self._drops

    def takes(self, path):
        """(kind, type, end, place) of every lock a function may take, with all it calls; places are those of its arguments."""
        if not self.memo:
            steps = {}
            for p, b in self.s.w.bodies.items():
                self.memo[p] = set()
                steps[p] = []
                for bb in b.blocks:
                    if bb['t']['k'] == 'call':
                        o = self.op(b, bb['t'])
                        if o:
                            pl = o[2] and (o[2].get('m') or o[2].get('c'))
                            self.memo[p].add(o[:2] + ((self_place(self, b, bb['t'], pl[0]) if pl and not pl[1] else None) or (None, None)))
                    steps[p] += self.callees(b, bb)
            more = True
            while more:
                more = False
                for p in steps:
                    for c, ts, places in steps[p]:
                        for k in list(self.memo[c]):
                            k = self.through(k, ts, places)
                            if k not in self.memo[p]:
                                self.memo[p].add(k)
                                more = True
        return self.memo[path]

    def through(self, lock, ts, places):
        k, ty, end, to = lock
        for a, b in ts.items():
            ty = re.sub(r'(?<![\w:])%s(?![\w:])' % re.escape(a), lambda m: b, ty)
        if to is not None:
            base, _, rest = to.partition('.')
            to = places.get(base)
            if to is not None:
                to = to + ('.' + rest if rest else '')
                if len(to) > 60:
                    to = None
        return k, ty, end if to else None, to

    # ---- places
    def origin(self, body, l, d=0):
        """The place a local is a reference to, written out; None if it is not one place."""
        if 1 <= l <= body.argc:
            return 'arg%d' % l
        defs = [st[2] for bb in body.blocks for st in bb['s'] if st[0] == '=' and st[1][0] == l and not st[1][1]]
        if any(bb['t']['k'] == 'call' and bb['t']['d'][0] == l and not bb['t']['d'][1] for bb in body.blocks) or len(defs) != 1 or d > 12:
            return None
        v = defs[0]
        pl = None
        if v[0] in ('ref', 'rawptr'):
            pl = v[2]
        elif v[0] == 'use':
            pl = v[1].get('c') or v[1].get('m')
        if pl is None:
            return None
        o = self.origin(body, pl[0], d + 1)
        if o is None:
            return None
        return o + ''.join('.%s' % e[1] for e in pl[1] if e[0] in ('f', 'v'))

    def held(self, body):
        """For each block, the guards held when its terminator is reached: {block: set of locals}."""
        own = {i: self.owns(body.prog, l[0]) for i, l in enumerate(body.locals)}
        own = {i: x for i, x in own.items() if x and i != 0}
        if not own:
            return own, {}, {}
        inn = {0: frozenset(i for i in own if 1 <= i <= body.argc)}
        at = {}
        work = [0]

        def moved(x, s):
            """Locals moved out by an operand or rvalue."""
            if isinstance(x, dict):
                if 'm' in x and isinstance(x['m'], list) and not x['m'][1]:
                    s.discard(x['m'][0])
                for y in x.values():
                    moved(y, s)
            elif isinstance(x, (list, tuple)):
                for y in x:
                    moved(y, s)
        made = {}
        while work:
            b = work.pop()
            bb = body.blocks[b]
            s = set(inn[b])
            for st in bb['s']:
                if st[0] == '=':
                    moved(st[2], s)
                    if st[1][0] in own:
                        s.add(st[1][0])
                elif st[0] in ('dead', 'live'):
                    s.discard(st[1])
            t = bb['t']
            if t['k'] == 'call':
                moved(t['a'], s)
            at[b] = frozenset(s)
            if t['k'] == 'drop' and not t['p'][1]:
                s.discard(t['p'][0])
            if t['k'] == 'call' and t['d'][0] in own:
                s.add(t['d'][0])
            for n in body.succs(b):
                x = inn.get(n, frozenset()) | s
                if n not in inn or x != inn[n]:
                    inn[n] = frozenset(x)
                    work.append(n)
        # the place a guard was taken from
        for bb in body.blocks:
            t = bb['t']
            if t['k'] == 'call' and t['d'][0] in own and not t['d'][1]:
                o = self.op(body, t)
                a = o[2] if o else None
                pl = a and (a.get('m') or a.get('c'))
                made[t['d'][0]] = self_place(self, body, t, pl[0]) if pl and not pl[1] else None
        return own, at, made


def self_place(L, body, t, l):
    """(which end of the channel, the place of it) of the receiver of a call."""
    o = L.origin(body, l)
    return None if o is None else ('Sender' in t['f']['k']['p'], o)


def c34(s, r):
    AW, HELD = 'no wait while a status is held', 'no lock is taken while the status it protects is held'
    L = Locks(s)
    for path in sorted(s.w.bodies):
        body = s.w.bodies[path]
        if body.prog.name == 'models':
            continue
        if body.kind == 'coroutine' or body.j.get('witness') is not None:
            bad = sorted({x for w in body.j.get('witness') or [] for x in L.owns(body.prog, w[0])})
            r.check(not bad, AW, path, 'C34/await/' + path, '%s waits while it holds the value of %s, so whoever changes it blocks its thread' % (path, ', '.join(bad)))
        own, at, made = L.held(body)
        s.looked.add(path)
        if not own:
            continue
        s.points += len(at)
        for b in sorted(at):
            hs = at[b]
            bb = body.blocks[b]
            t = bb['t']
            if not hs or t['k'] not in ('call', 'drop'):
                continue
            o = L.op(body, t) if t['k'] == 'call' else None
            todo = []
            if o:
                pl = o[2] and (o[2].get('m') or o[2].get('c'))
                todo.append(o[:2] + ((self_place(L, body, t, pl[0]) if pl and not pl[1] else None,)))
            for c, ts, places in L.callees(body, {'s': bb['s'], 't': t}):
                for x in L.takes(c):
                    x = L.through(x, ts, places)
                    todo.append(x[:2] + (x[2:] if x[3] else None,))
            for k, ty, to in todo:
                for h in hs:
                    if ty != '*' and ty not in own[h] and '?' not in own[h]:
                        continue
                    if k in ('borrow', 'borrow_and_update', 'read') and (to is None or to != made.get(h)):
                        continue            # two readers of what may be two statuses
                    if to is not None and made.get(h) is not None and to != made[h] and to[0] == made[h][0]:
                        continue            # another one
                    r.bad('C34/held/%s/%s' % (path, k), '%s %s while it holds the value of %s, at %s:%s' % (
                        path, {'block': 'blocks its thread'}.get(k, 'calls %s on the same' % k), ', '.join(sorted(own[h])), t['sp'][0], t['sp'][1]))
        for h in own:
            if h in made:
                r.ok(HELD, '%s: %s' % (path, ', '.join(sorted(own[h]))))
    r.need(AW, 10)
    r.need(HELD, 4)
