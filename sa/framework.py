"""Obligations, oracles, evidence and reporting shared by all checks."""
import json
import os
import sys
import time
import traceback

sys.setrecursionlimit(20000)

import mir
import term as T
from term import N, Node, num, sym, fld, pay, proj, TRUE, FALSE
from prog import Program
from absint import Engine, State, TooComplex, Path
from cmpterm import Comparer, vocabulary

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PANIC = N('sym', '!panic')
ANY = N('sym', '!any')


class Undecided(Exception):
    pass


class Case:
    """One consistent set of facts; the oracle asks it questions and the answers are enumerated."""

    def __init__(self, engine, st, script):
        self.e, self.st, self.script, self.pos, self.alts = engine, st, script, 0, []

    def _choose(self, options):
        """options: [(state, answer)]"""
        if not options:
            raise Undecided('inconsistent facts')
        if len(options) == 1:
            self.st = options[0][0]
            return options[0][1]
        i = self.script[self.pos] if self.pos < len(self.script) else 0
        if self.pos >= len(self.script):
            self.script.append(0)
        self.alts.append(len(options)) if len(self.alts) <= self.pos else None
        self.pos += 1
        self.st = options[i][0]
        return options[i][1]

    def is_(self, b):
        return self._choose(self.e.fork(self.st, b))

    def variant(self, node, ename):
        return self._choose(self.e.split_disc(self.st, node, ename))

    def sign(self, p):
        out = []
        for s in (-1, 0, 1):
            x = self.e.assume_sign(self.st.copy(), p, (s,))
            if x is not None:
                out.append((x, s))
        return self._choose(out)

    def lt(self, a, b):
        return self.is_(T.sgn(T.sub(a, b), (-1,)))

    def le(self, a, b):
        return self.is_(T.sgn(T.sub(a, b), (-1, 0)))

    def eq(self, a, b):
        return self.is_(T.sgn(T.sub(a, b), (0,)))

    def known(self, key):
        return self.st.conds.get(key)


def leaves(engine, st, oracle):
    """All (state, outcome) of an oracle under the facts of st."""
    script = []
    n = 0
    while True:
        c = Case(engine, st.copy(), script)
        sizes = []
        try:
            r = oracle(c)
            yield c.st, r
        except Undecided:
            pass
        n += 1
        if n > 3000:
            raise TooComplex('oracle leaves')
        # advance script
        while script:
            i = len(script) - 1
            if script[i] + 1 < c.alts[i] if i < len(c.alts) else False:
                script[i] += 1
                break
            script.pop()
        if not script:
            return


def final(st, t):
    """Value of an external lvalue in the final memory of a path."""
    if t.op == 'fld':
        b = final(st, t.a[0])
        v = proj(b, ('f', t.a[1]))
    elif t.op == 'idx':
        v = proj(final(st, t.a[0]), ('i', t.a[1]))
    elif t.op == 'dc':
        v = proj(final(st, t.a[0]), ('v', t.a[1]))
    else:
        v = t
    if v.op == 'ref':
        return v
    r = st.mem.get(('S', v))
    return v if r is None else r


class Check:
    def __init__(self, pid, tier='quick'):
        self.pid, self.tier = pid, tier
        self.t0 = time.time()
        self.obl = []               # (key, status, detail)
        self.functions = set()
        self.paths = 0
        self.states = 0
        self.call_sites = 0
        self.rules = {}
        self.missing = []
        self.unmodelled = {}
        self.samples = []
        self.notes = []
        self.extra = {}

    # -- program
    _prog = None

    @property
    def prog(self):
        if Check._prog is None:
            Check._prog = Program()
        return Check._prog

    def rule(self, name, text):
        self.rules[name] = text

    def fn(self, self_ty, method, trait=None, module=None, where=None):
        c = self.prog.find(self_ty, method, trait, module)
        if where:
            c = [b for b in c if where(b)]
        if not c:
            self.missing.append('%s::%s%s' % (self_ty, method, ' (%s)' % trait if trait else ''))
            return None
        return c[0]

    def id(self, *fids):
        for f in fids:
            if f in self.prog.fns:
                return self.prog.fns[f]
        self.missing.append(fids[0])
        return None

    def free(self, name, module=None):
        c = self.prog.find_free(name, module)
        if not c:
            self.missing.append('fn ' + name)
            return None
        return c[0]

    def engine(self, **kw):
        return Engine(self.prog, **kw)

    def run(self, body, args=None, pre=None, engine=None, **kw):
        e = engine or self.engine(**kw)
        try:
            ps = e.run(body, args, pre)
        finally:
            self.functions |= e.visited
            self.states += e.states
            for k, v in e.unmodelled.items():
                self.unmodelled[k] = self.unmodelled.get(k, 0) + v
        self.paths += len(ps)
        return e, ps

    # -- recording
    def ok(self, key, detail=None):
        self.obl.append((key, 'ok', detail))

    def undecided(self, key, detail):
        self.obl.append((key, 'undecided', detail))

    def violated(self, key, detail, where=None):
        self.obl.append((key, 'violated', {'what': detail, 'where': where}))

    # -- decision tables
    def table(self, key, body, oracle, args=None, pre=None, scenario=None, vocab=None, observe=None, skip_panics=False,
              engine=None, **kw):
        """Every path of `body` must agree with `oracle(case, path)` on returned value and final memory.
        oracle returns a dict: ret (term, PANIC or ANY), mem {lvalue term: value term}, only (bool: no other writes)."""
        if body is None:
            self.undecided(key, 'anchor not found')
            return None
        try:
            e, ps = self.run(body, args, pre, engine, **kw)
        except TooComplex as x:
            self.undecided(key, 'too complex: %s' % x)
            return None
        cmp_ = Comparer(e)
        n = 0
        bad = []
        und = 0
        leaf_seen = set()
        for p in ps:
            if p.kind == 'panic' and skip_panics:
                continue
            st0 = p.state
            if scenario is not None:
                st0 = scenario(e, st0.copy())
                if st0 is None:
                    continue
            for st, exp in leaves(e, st0, lambda c: oracle(c, p)):
                if exp is None:
                    continue
                n += 1
                cmp_.budget = 20000
                r = self.compare(cmp_, st, p, exp, vocab)
                if r is None:
                    und += 1
                elif r is not True:
                    bad.append((p, st, exp, r))
        where = body.loc()
        if bad:
            p, st, exp, r = bad[0]
            self.violated(key, {'function': body.id, 'at': where,
                                'facts': [T.p_cond(c) for c in st.conds.items()][:40],
                                'difference': r, 'mismatching_cases': len(bad), 'cases': n})
        elif n == 0:
            self.undecided(key, 'no path matched')
        elif und:
            self.undecided(key, '%d of %d cases not fully interpreted' % (und, n))
        else:
            self.ok(key, '%d paths, %d cases of %s' % (len(ps), n, body.id))
            if len(self.samples) < 12 and ps:
                p = ps[0]
                self.samples.append({'function': body.id, 'facts': [T.p_cond(c) for c in p.conds.items()][:8],
                                     'result': T.pretty(p.ret)[:300] if p.ret is not None else 'panic'})
        return ps

    def compare(self, cmp_, st, p, exp, vocab):
        """True, None (not fully interpreted) or a description of the difference."""
        want = exp.get('ret', ANY)
        if p.kind == 'panic':
            if want is PANIC or exp.get('panic_ok'):
                return True
            return {'expected': T.pretty(want)[:600], 'actual': 'panic at %s (%s)' % p.span if p.span else 'panic'}
        if want is PANIC:
            return {'expected': 'panic', 'actual': T.pretty(p.ret)[:600]}
        r = True
        if want is not ANY:
            r = self.cmp_term(cmp_, st, p.ret, want, 'returned value', vocab)
            if r is not True and r is not None:
                return r
        for lv, v in exp.get('mem', {}).items():
            if v is ANY:
                continue
            q = self.cmp_term(cmp_, st, final(p.state, lv), v, 'final ' + T.pretty(lv), vocab)
            if q is None:
                r = None
            elif q is not True:
                return q
        if exp.get('only') is not None:
            allowed = exp['only']
            for root, v in p.state.mem.items():
                if root[0] == 'S' and v is not root[1]:
                    for lv in self.changed(cmp_.e, root[1], v):
                        if not any(self.covers(a, lv) for a in allowed):
                            # a write that restores the same value is no change
                            return {'expected': 'no write to %s' % T.pretty(lv), 'actual': T.pretty(final(p.state, lv))[:400]}
        return r

    def changed(self, e, a, b):
        out = []
        from absint import lvalue
        for path in e.diff(a, b, ()):
            out.append(lvalue(('S', a), path))
        return out

    @staticmethod
    def covers(a, lv):
        x = lv
        while isinstance(x, Node):
            if x is a:
                return True
            if x.op in ('fld', 'dc', 'idx', 'slice'):
                x = x.a[0]
            else:
                return False
        return False

    def cmp_term(self, cmp_, st, got, want, what, vocab):
        if cmp_.equal(st, got, want):
            return True
        g, w = cmp_.simp(st, got), cmp_.simp(st, want)
        extra = vocabulary(g) - vocabulary(w) - set(vocab or ())
        if extra:
            self.notes.append('%s: uninterpreted %s' % (what, sorted(extra)[:6]))
            return None
        return {'in': what, 'expected': T.pretty(w)[:1500], 'actual': T.pretty(g)[:1500]}

    # -- finish
    def known(self):
        p = os.path.join(VERIF, 'known-findings.json')
        if not os.path.exists(p):
            return {}
        d = json.load(open(p))
        return {(x['property'], x['key']): x for x in d.get('findings', [])}

    def finish(self, title, level='other'):
        viol = [(k, d) for k, s, d in self.obl if s == 'violated']
        und = [(k, d) for k, s, d in self.obl if s == 'undecided']
        good = [k for k, s, d in self.obl if s == 'ok']
        known = self.known()
        code = 0
        new = []
        lines = []
        for k, d in viol:
            if (self.pid, k) in known:
                lines.append('KNOWN-FINDING: property=%s %s' % (self.pid, known[(self.pid, k)]['what']))
            else:
                new.append((k, d))
        for (pid, k), x in known.items():
            if pid == self.pid and x.get('static') is False:
                lines.append('KNOWN-FINDING: property=%s %s' % (self.pid, x['what']))
        rdir = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, self.pid + '.json')
        if new:
            with open(path, 'w') as f:
                json.dump([{'obligation': k, 'violation': d} for k, d in new], f, indent=1, default=str)
            for k, d in new[:20]:
                lines.append('VIOLATION property=%s replay=%s' % (self.pid, path))
                lines.append('  obligation %s' % k)
                lines.append('  ' + json.dumps(d, default=str)[:1500])
            code = 1
        elif os.path.exists(path):
            os.remove(path)
        if not good and not new:
            lines.append('ERROR: no obligation of %s could be found in the current tree' % self.pid)
            code = 1
        try:
            seed = int(os.environ.get('VERIF_SEED', '1'))
        except ValueError:
            seed = 1
        own = [o for o in self.obl if not o[0].startswith('agrees:')]
        ev = {
            'property': self.pid,
            'tier': 'thorough' if self.tier == 'thorough' else 'quick',
            'seed': seed,
            'level': level,
            'coverage': {
                'explanation': 'Static analysis of the MIR that rustc emits for the current tree (%s). Rules: %s' % (
                    title, '; '.join('%s: %s' % kv for kv in sorted(self.rules.items()))),
                'obligations': len(self.obl),
                'discharged': len(good),
                'undecided': len(und),
                'violated': len(viol),
                'own_rule_obligations': len(own),
                'functions_analysed': len(self.functions),
                'functions': sorted(self.functions)[:400],
                'paths': self.paths,
                'abstract_states': self.states,
                'call_sites': self.call_sites,
                'obligation_list': [{'id': k, 'status': s, 'detail': d if not isinstance(d, dict) else d.get('what', d)}
                                    for k, s, d in (own + [o for o in self.obl if o[0].startswith('agrees:')])][:600],
                'uninterpreted_callees': dict(sorted(self.unmodelled.items(), key=lambda t: -t[1])[:30]),
                'anchors_not_found': self.missing,
                'notes': sorted(set(self.notes))[:40],
                'samples': self.samples,
            },
            'assumptions': [
                'arithmetic of the number types obeys the rules of an ordered field; library containers and iterators behave '
                'as documented (table in sa/models.py)',
                'integer overflow and allocation failure are outside the analysis unless a rule names them',
                'the reviewed code in /verif/ref is the statement of intended behaviour for the agreement rule'],
            'violations': len(viol),
            'wall_s': round(time.time() - self.t0, 2),
        }
        ev['coverage'].update(self.extra)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        for l in lines:
            print(l)
        print('%s: %d obligations, %d hold, %d undecided, %d violated (%d known); %d functions, %d paths, %.1f s' % (
            self.pid, len(self.obl), len(good), len(und), len(viol), len(viol) - len(new),
            len(self.functions), self.paths, time.time() - self.t0))
        if os.environ.get('SA_VERBOSE'):
            for k, s, d in self.obl:
                if s != 'ok' or not k.startswith('agrees:'):
                    print('   %-9s %s %s' % (s, k, '' if s == 'ok' else str(d)[:int(os.environ.get('SA_VERBOSE'))]))
            print('   missing', self.missing, 'notes', sorted(set(self.notes))[:20])
        return code
