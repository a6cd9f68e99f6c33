"""Languages of regular expressions that are constants of the source: inclusion decided by automata."""
try:
    from re import _parser as sp, _constants as sc
except ImportError:                                     # older interpreters
    import sre_parse as sp
    import sre_constants as sc
import re

ALPHA = [chr(i) for i in range(9, 127) if i >= 32 or i == 9] + ["\u00e9"]


class NotRegular(Exception):
    pass


class Lang:
    """strings s for which re.compile(pattern, flags).match(s) succeeds, as a nondeterministic automaton"""

    def __init__(self, pattern, flags=0):
        self.eps, self.chars, self.end = [], [], []     # per state: epsilon targets, [(set, target)], end-of-text targets
        p = sp.parse(pattern, flags)
        if p.state.flags & (re.IGNORECASE | re.MULTILINE | re.DOTALL):
            raise NotRegular("flags")
        self.start = self.new()
        self.final = self.build(p, self.start)
        self.memo = {}

    def new(self):
        self.eps.append([])
        self.chars.append([])
        self.end.append([])
        return len(self.eps) - 1

    def build(self, items, s):
        for op, av in items:
            if op is sc.LITERAL:
                s = self.step(s, {chr(av)})
            elif op is sc.NOT_LITERAL:
                s = self.step(s, set(ALPHA) - {chr(av)})
            elif op is sc.ANY:
                s = self.step(s, set(ALPHA))
            elif op is sc.IN:
                s = self.step(s, self.charset(av))
            elif op is sc.BRANCH:
                e = self.new()
                for b in av[1]:
                    n = self.new()
                    self.eps[s].append(n)
                    self.eps[self.build(b, n)].append(e)
                s = e
            elif op is sc.SUBPATTERN:
                if av[1] or av[2]:
                    raise NotRegular("inline flags")
                s = self.build(av[3], s)
            elif op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, sub = av
                if lo > 50 or hi is not sc.MAXREPEAT and hi > 50:
                    raise NotRegular("long repetition")
                for _ in range(lo):
                    s = self.build(sub, s)
                if hi is sc.MAXREPEAT:
                    a, b = self.new(), self.new()
                    self.eps[s] += [a, b]
                    self.eps[self.build(sub, a)] += [a, b]
                    s = b
                else:
                    e = self.new()
                    for _ in range(hi - lo):
                        self.eps[s].append(e)
                        s = self.build(sub, s)
                    self.eps[s].append(e)
                    s = e
            elif op is sc.AT and av in (sc.AT_BEGINNING, sc.AT_BEGINNING_STRING):
                if s != self.start:
                    raise NotRegular("anchor inside the pattern")
            elif op is sc.AT and av in (sc.AT_END, sc.AT_END_STRING):
                n = self.new()
                self.end[s].append(n)
                s = n
            else:
                raise NotRegular(str(op))
        return s

    def step(self, s, cs):
        n = self.new()
        self.chars[s].append((frozenset(cs), n))
        return n

    def charset(self, av):
        neg, out = False, set()
        for op, a in av:
            if op is sc.NEGATE:
                neg = True
            elif op is sc.LITERAL:
                out.add(chr(a))
            elif op is sc.RANGE:
                out |= {c for c in ALPHA if a[0] <= ord(c) <= a[1]}
            elif op is sc.CATEGORY and a is sc.CATEGORY_DIGIT:
                out |= set("0123456789")
            elif op is sc.CATEGORY and a is sc.CATEGORY_SPACE:
                out |= set(" \t")
            elif op is sc.CATEGORY and a is sc.CATEGORY_WORD:
                out |= {c for c in ALPHA if c.isalnum() or c == "_"}
            else:
                raise NotRegular(str(a))
        return set(ALPHA) - out if neg else out

    def close(self, conf):
        todo, seen = list(conf), set(conf)
        while todo:
            s, e = todo.pop()
            for n, f in [(n, e) for n in self.eps[s]] + [(n, True) for n in self.end[s]]:
                if (n, f) not in seen:
                    seen.add((n, f))
                    todo.append((n, f))
        return frozenset(seen)

    def first(self):
        return self.close({(self.start, False)})

    def next(self, conf, ch):
        k = (conf, ch)
        if k not in self.memo:
            out = set()
            for s, e in conf:
                if e:
                    continue
                if s == self.final:
                    out.add((s, e))                     # match() does not look at what follows
                for cs, n in self.chars[s]:
                    if ch in cs:
                        out.add((n, False))
            self.memo[k] = self.close(out)
        return self.memo[k]

    def accepts(self, conf):
        return any(s == self.final for s, e in conf)


def missing(a, bs, limit=20000, first=""):
    """a shortest string of language a that is in none of the languages bs, or None when a is included in their union;
    first: only strings that start with it"""
    st = (a.first(), tuple(b.first() for b in bs))
    for ch in first:
        st = (a.next(st[0], ch), tuple(b.next(x, ch) for b, x in zip(bs, st[1])))
    seen, todo = {st}, [(st, first)]
    while todo:
        nxt = []
        for (ca, cb), w in todo:
            if a.accepts(ca) and not any(b.accepts(x) for b, x in zip(bs, cb)):
                return w
            for ch in ALPHA:
                na = a.next(ca, ch)
                if not na:
                    continue
                n = (na, tuple(b.next(x, ch) for b, x in zip(bs, cb)))
                if n not in seen:
                    seen.add(n)
                    nxt.append((n, w + ch))
                    if len(seen) > limit:
                        raise NotRegular("too many states")
        todo = nxt
    return None
