"""Obligations of the kind "this function still computes what the reviewed one computes".

For the functions of one property: every function whose code (or the code of something it calls) differs
from the reviewed program is compared with it by value-flow summaries (refcmp). A definite difference of a
private helper does not count when every function that calls it was itself shown to agree with the helper
inlined (a contract moved between a helper and its callers).
"""
import multiprocessing as mp
import os
import re
import signal
import traceback

import term as T
from mir import last_seg, strip_generics
from absint import TooComplex
from refcmp import Reference, load_reference


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


class Agreement:
    _inst = None

    def __init__(self, cur, force=False):
        self.cur = cur
        self.ref = load_reference()
        self.X = Reference(cur, self.ref)
        self.XC = None          # against the reviewed code with its debug assertions
        self.force = force
        self.X.all_pairs = force
        self.touched = self._touched()
        self.fn_timeout = 120 if force else 75

    @classmethod
    def get(cls, prog, force=False):
        if cls._inst is None:
            cls._inst = cls(prog, force)
        return cls._inst

    @staticmethod
    def outer(fid):
        return re.sub(r'::\{closure#.*', '', fid)

    def _touched(self):
        out = set()
        for fid, b in self.cur.fns.items():
            if '{closure#' in b.name:
                continue
            if self.X.shape_changed or not self.X.same_body(fid):
                out.add(fid)
        if set(self.cur.consts) - set(self.ref.consts) or set(self.ref.consts) - set(self.cur.consts):
            pass
        for name, b in self.cur.consts.items():
            if 'promoted[' in name:
                continue
            r = self.ref.consts.get(name)
            if r is None or self.ref.content(r) != self.cur.content(b):
                # a constant that changed touches whoever mentions it
                seg = last_seg(name)
                for fid, f in self.cur.fns.items():
                    if re.search(r'const [^;]*\b%s\b' % re.escape(seg), self.cur.content(f)):
                        out.add(self.outer(fid))
        return {f for f in out if f in self.cur.fns}

    # -- which functions have to be compared
    def closure_of(self, anchors, within):
        """Functions reachable from the anchors, restricted by `within(fid, body)`."""
        X, prog = self.X, self.cur
        seen, todo = set(), list(anchors)
        while todo:
            f = todo.pop()
            if f in seen or f not in prog.fns:
                continue
            seen.add(f)
            for g in X.callees(prog, prog.fns[f]):
                b = prog.fns.get(g)
                if b is not None and '{closure#' not in b.name and within(g, b):
                    todo.append(g)
        return seen

    def reach_touched(self):
        """Functions from which changed code is reachable."""
        callers = self.X.callers(self.cur)
        out, todo = set(), list(self.touched)
        gone = set(self.ref.fns) - set(self.cur.fns)
        if gone:
            rc = self.X.callers(self.ref)
            for g in gone:
                todo.extend(c for c in rc.get(g, ()) if c in self.cur.fns)
        while todo:
            f = todo.pop()
            if f in out:
                continue
            out.add(f)
            todo.extend(callers.get(f, ()))
        return out

    # -- running comparisons
    def _one(self, job):
        fid, rid, assumed, contracts = job
        X = self.XC if contracts else self.X
        T.INVARIANTS = contracts
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(self.fn_timeout)
        n0, p0 = X.npaths, X.pairs
        try:
            r = X.compare(fid, rid, assumed)
        except (Timeout, TooComplex):
            r = ('undecided', 'time limit')
        except RecursionError:
            r = ('undecided', 'nesting limit')
        except MemoryError:
            r = ('undecided', 'memory limit')
        except Exception:
            r = ('undecided', 'analysis error: ' + traceback.format_exc(limit=-3))
        finally:
            signal.alarm(0)
            T.INVARIANTS = False
        cov = X.cover.get(fid, ())
        X.tables.clear()
        return fid, r, cov, X.npaths - n0, X.pairs - p0

    def compare_all(self, fids, assumed=frozenset(), contracts=False):
        if contracts and self.XC is None:
            self.XC = Reference(self.cur, load_reference(contracts=True))
        jobs = []
        for f in sorted(fids):
            rid = self.counterpart(f)
            if rid is not None:
                jobs.append((f, None if rid == f else rid, assumed, contracts))
        out = {}
        stats = {'paths': 0, 'pairs': 0}
        if not jobs:
            return out, stats
        if len(jobs) <= 2:
            it = map(self._one, jobs)
        else:
            global _A
            _A = self
            pool = mp.get_context('fork').Pool(min(8, os.cpu_count() or 1, len(jobs)))
            it = pool.imap_unordered(_run, jobs, chunksize=1)
        for fid, r, cov, n, p in it:
            out[fid] = (r, cov)
            stats['paths'] += n
            stats['pairs'] += p
        if len(jobs) > 2:
            pool.close()
            pool.join()
        return out, stats

    def counterpart(self, fid):
        """Reference function that `fid` answers to: the same one, or the trait default it overrides."""
        if fid in self.ref.fns:
            return fid
        b = self.cur.fns.get(fid)
        if b is not None and b.impl is not None and b.impl.trait_tree is not None:
            t = last_seg(b.impl.trait_tree[1])
            d = self.ref.defaults.get((t, last_seg(strip_generics(b.name))))
            if d is not None:
                return d.id
        return None

    # -- verdicts
    def judge(self, fids):
        """[(fid, status, detail)] for the functions of a property, and statistics."""
        prog = self.cur
        fids = {f for f in fids if f in prog.fns}
        if self.force:
            todo = set(fids)
        else:
            todo = fids & self.touched
            hot = self.reach_touched()
        res, stats = self.compare_all(todo)
        # callers of functions that could not be shown to agree
        callers = self.X.callers(prog)
        front = {f for f, (r, _) in res.items() if r[0] != 'ok'}
        new = {f for f in self.touched if self.counterpart(f) is None}
        gone = set(self.ref.fns) - set(prog.fns)
        rc = self.X.callers(self.ref)
        for g in gone:
            for c in rc.get(g, ()):
                if c in fids and c not in res:
                    front.add(c)
        front |= new
        for depth in range(3):
            nxt = set()
            for f in front:
                for c in callers.get(f, ()):
                    if c not in res and c in prog.fns:
                        nxt.add(c)
            for f in front:
                if f not in res and f in fids:
                    nxt.add(f)
            if not nxt:
                break
            more, s2 = self.compare_all(nxt)
            res.update(more)
            for k in stats:
                stats[k] += s2[k]
            front = {f for f in nxt if f in res and res[f][0][0] != 'ok'}
        # what could not be decided in a callee does not count against its callers
        open_ = frozenset(f for f, (r, _) in res.items() if r[0] == 'undecided')
        again = {f for f, (r, cov) in res.items() if r[0] == 'violated' and open_ & set(cov) - {f}}
        if open_ and again:
            more, s2 = self.compare_all(again, open_)
            for k in stats:
                stats[k] += s2[k]
            for f, (r, cov) in more.items():
                if r[0] != 'violated':
                    res[f] = (('undecided', 'depends on a function that is not decided'), res[f][1])
        # a difference seen through functions that agree by themselves is not there
        bad = {f for f, (r, _) in res.items() if r[0] == 'violated'}
        if bad:
            fine = frozenset(f for f in prog.fns if f in self.ref.fns and f not in bad and res.get(f, (('ok',),))[0][0] == 'ok'
                             and (f in res or f not in self.touched))
            more, s2 = self.compare_all(bad, fine)
            for k in stats:
                stats[k] += s2[k]
            for f, (r, cov) in more.items():
                if r[0] == 'ok':
                    res[f] = (r, cov)
        # a difference that needs arguments the reviewed code declares impossible is not there
        bad = {f for f, (r, _) in res.items() if r[0] == 'violated'}
        if bad:
            more, s2 = self.compare_all(bad, contracts=True)
            for k in stats:
                stats[k] += s2[k]
            for f, (r, cov) in more.items():
                if r[0] == 'ok':
                    res[f] = (r, cov)
        memo = {}

        def excused(f, depth=0):
            """A differing helper whose every caller agrees with the helper inlined."""
            if f in memo:
                return memo[f]
            memo[f] = False
            cs = callers.get(f, set()) - {f}
            ok = bool(cs) and depth < 4
            for c in cs:
                if not ok:
                    break
                if c not in res:
                    ok = False
                    break
                r, cov = res[c]
                if r[0] == 'ok':
                    ok = f in cov
                elif r[0] == 'undecided':
                    ok = c in self.touched and self.signature_private(f)
                else:
                    ok = excused(c, depth + 1)
            memo[f] = ok
            return ok
        out = []
        for f in sorted(fids):
            if f in res:
                r, cov = res[f]
                if r[0] == 'violated' and excused(f):
                    out.append((f, 'ok', 'differs, but every caller agrees with it inlined'))
                else:
                    out.append((f, r[0], r[1]))
            elif f in new:
                out.append((f, 'ok', 'new function, judged through its callers'))
            else:
                out.append((f, 'ok', 'same code as reviewed'))
        near = self.touched & fids
        for f in sorted(set(res) - fids):
            r, cov = res[f]
            if r[0] == 'violated' and not excused(f) and near & (self.X.callees(prog, prog.fns[f]) | set(cov)):
                out.append((f, 'violated', r[1]))
        stats['compared'] = len(res)
        stats['changed'] = len(self.touched & fids)
        return out, stats

    def signature_private(self, f):
        b = self.cur.fns[f]
        return b.impl is None or b.impl.trait_tree is None


def _run(job):
    return _A._one(job)
