"""Reference implementations for acyclic directed mixed graphs (ADMGs).

Everything here is written from the textbook definitions and shares no code
with ylearn: nodes are strings, `pa` maps node -> set of parents, `arcs` is a
set of frozensets of two nodes (latent confounding arcs).
"""
from itertools import combinations, product

import numpy as np


class ADMG:
    def __init__(self, nodes, edges, arcs):
        self.nodes = list(nodes)
        self.pa = {v: set() for v in self.nodes}
        for a, b in edges:
            self.pa[b].add(a)
        self.ch = {v: set() for v in self.nodes}
        for b in self.nodes:
            for a in self.pa[b]:
                self.ch[a].add(b)
        self.arcs = {frozenset(e) for e in arcs}

    def edges(self):
        return {(a, b) for b in self.nodes for a in self.pa[b]}

    def sub(self, keep):
        keep = set(keep)
        return ADMG(
            [v for v in self.nodes if v in keep],
            [(a, b) for a, b in self.edges() if a in keep and b in keep],
            [e for e in self.arcs if set(e) <= keep],
        )

    def without_incoming(self, xs):
        xs = set(xs)
        return ADMG(self.nodes, [(a, b) for a, b in self.edges() if b not in xs],
                    [e for e in self.arcs if not (set(e) & xs)])

    def without_outgoing(self, xs):
        xs = set(xs)
        return ADMG(self.nodes, [(a, b) for a, b in self.edges() if a not in xs], self.arcs)

    def _closure(self, xs, nxt):
        seen, todo = set(xs), list(xs)
        while todo:
            for u in nxt[todo.pop()]:
                if u not in seen:
                    seen.add(u)
                    todo.append(u)
        return seen

    def an(self, xs):
        """ancestors, including the nodes themselves"""
        return self._closure(xs, self.pa)

    def de(self, xs):
        return self._closure(xs, self.ch)

    def acyclic(self):
        left = dict((v, set(p)) for v, p in self.pa.items())
        while left:
            free = [v for v, p in left.items() if not p]
            if not free:
                return False
            for v in free:
                del left[v]
            for p in left.values():
                p.difference_update(free)
        return True

    def ccomp(self):
        left, out = set(self.nodes), []
        nb = {v: set() for v in self.nodes}
        for e in self.arcs:
            a, b = tuple(e)
            nb[a].add(b)
            nb[b].add(a)
        for v in self.nodes:
            if v in left:
                c = self._closure([v], nb)
                left -= c
                out.append(frozenset(c))
        return set(out)

    def explicit(self):
        """DAG with one explicit latent node per arc: (nodes, parent map)"""
        pa = {v: set(p) for v, p in self.pa.items()}
        for e in self.arcs:
            u = ("latent", tuple(sorted(e)))
            pa[u] = set()
            for v in e:
                pa[v].add(u)
        return pa

    def dsep(self, xs, ys, zs):
        """d-separation by the moralised ancestral graph"""
        pa = self.explicit()
        xs, ys, zs = set(xs), set(ys), set(zs)
        keep = self._closure(xs | ys | zs, pa)
        nb = {v: set() for v in keep}
        for v in keep:
            ps = pa[v] & keep
            for p in ps:
                nb[p].add(v)
                nb[v].add(p)
            for p, q in combinations(ps, 2):
                nb[p].add(q)
                nb[q].add(p)
        seen, todo = set(xs), list(xs)
        while todo:
            for u in nb[todo.pop()]:
                if u in zs or u in seen:
                    continue
                if u in ys:
                    return False
                seen.add(u)
                todo.append(u)
        return True

    # ---- identifiability by Tian's C-component algorithm -------------
    def identifiable(self, ys, xs):
        """P(ys | do(xs)) identifiable?  (Tian & Pearl / Huang & Valtorta)"""
        ys, xs = set(ys), set(xs)
        d = self.sub(set(self.nodes) - xs).an(ys)
        for c in self.sub(d).ccomp():
            t = next(t for t in self.ccomp() if c <= t)
            if not self._id_c(set(c), set(t)):
                return False
        return True

    def _id_c(self, c, t):
        g = self.sub(t)
        a = g.an(c)
        if a == c:
            return True
        if a == t:
            return False
        t2 = next(s for s in self.sub(a).ccomp() if c <= s)
        return self._id_c(c, set(t2))

    # ---- criteria ------------------------------------------------------
    def backdoor(self, zs, xs, ys):
        zs, xs, ys = set(zs), set(xs), set(ys)
        if zs & (self.de(xs) | ys):
            return False
        return self.without_outgoing(xs).dsep(xs, ys, zs)

    def directed_paths(self, a, b):
        out, stack = [], [(a, (a,))]
        while stack:
            v, p = stack.pop()
            if v == b:
                out.append(p)
                continue
            for u in self.ch[v]:
                stack.append((u, p + (u,)))
        return out

    def frontdoor(self, zs, x, y):
        zs = set(zs)
        if zs & {x, y}:
            return False
        if any(not (set(p) & zs) for p in self.directed_paths(x, y)):
            return False
        if not self.without_outgoing([x]).dsep({x}, zs, set()):
            return False
        if x in self.de(zs):
            return False
        return self.without_outgoing(zs).dsep(zs, {y}, {x})


class SCM:
    """Binary structural model over an ADMG with one latent per arc; its exact
    observational and interventional distributions as numpy arrays."""

    def __init__(self, g, seed, latent_states=2):
        rng = np.random.RandomState(seed)
        self.g = g
        self.order = []
        left = {v: set(p) for v, p in g.pa.items()}
        while left:
            v = next(v for v in g.nodes if v in left and not left[v])
            self.order.append(v)
            del left[v]
            for p in left.values():
                p.discard(v)
        self.lat = [tuple(sorted(e)) for e in sorted(g.arcs, key=sorted)]
        self.k = latent_states
        self.pu = [rng.dirichlet([3.0] * self.k) for _ in self.lat]
        self.par = {}
        self.cpt = {}
        for v in g.nodes:
            ps = sorted(g.pa[v])
            us = [i for i, e in enumerate(self.lat) if v in e]
            self.par[v] = (ps, us)
            self.cpt[v] = rng.uniform(0.08, 0.92, [2] * len(ps) + [self.k] * len(us))

    def joint(self, do=None):
        """array over g.nodes order (values 0/1)"""
        do = do or {}
        nodes = self.g.nodes
        n, m = len(nodes), len(self.lat)
        ax = {v: i for i, v in enumerate(nodes)}
        full = np.ones([2] * n + [self.k] * m)

        def shaped(arr, axes):
            order = np.argsort(axes)
            arr = np.transpose(arr, order)
            shape = [1] * (n + m)
            for a, s in zip(sorted(axes), arr.shape):
                shape[a] = s
            return arr.reshape(shape)

        for i, p in enumerate(self.pu):
            full = full * shaped(p, [n + i])
        for v in nodes:
            if v in do:
                f = np.zeros(2)
                f[do[v]] = 1
                full = full * shaped(f, [ax[v]])
                continue
            ps, us = self.par[v]
            c = self.cpt[v]
            f = np.stack([1 - c, c], axis=-1)
            full = full * shaped(f, [ax[p] for p in ps] + [n + u for u in us] + [ax[v]])
        return full.sum(axis=tuple(range(n, n + m))) if m else full


class Dist:
    """Exact conditional/marginal queries against a joint array."""

    def __init__(self, joint, nodes):
        self.j, self.nodes = joint, list(nodes)
        self._cache = {}

    def marg(self, vs):
        key = frozenset(vs)
        if key not in self._cache:
            drop = tuple(i for i, v in enumerate(self.nodes) if v not in key)
            self._cache[key] = self.j.sum(axis=drop) if drop else self.j
        return self._cache[key]

    def p(self, vs, a):
        m = self.marg(vs)
        return float(m[tuple(a[v] for v in self.nodes if v in vs)])

    def cond(self, vs, cs, a):
        vs, cs = set(vs), set(cs)
        return self.p(vs | cs, a) / self.p(cs, a) if cs else self.p(vs, a)


def eval_prob(prob, dist, assign):
    """Value of a ylearn Prob expression: sum over `marginal` of
    P(variables|conditional) * prod(product) / prod(divisor)."""
    bound = sorted(prob.marginal)
    total = 0.0
    for vals in product((0, 1), repeat=len(bound)):
        a = dict(assign)
        a.update(zip(bound, vals))
        t = 1.0
        if prob.variables:
            t *= dist.cond(set(prob.variables), set(prob.conditional), a)
        for q in prob.product:
            t *= eval_prob(q, dist, a)
        for q in prob.divisor or ():
            t /= eval_prob(q, dist, a)
        total += t
    return total


def names_used(prob):
    out = set(prob.variables) | set(prob.conditional) | set(prob.marginal)
    for q in list(prob.product) + list(prob.divisor or ()):
        out |= names_used(q)
    return out


def canon_prob(p):
    """a Prob as nested tuples: (variables, conditional, marginal, products, divisors), unordered parts sorted"""
    f = lambda s: tuple(sorted(str(x) for x in s))  # noqa: E731
    c = f(p.conditional) if p.variables else ()
    return (f(p.variables), c, f(p.marginal), tuple(sorted(canon_prob(q) for q in p.product)),
            tuple(sorted(canon_prob(q) for q in p.divisor)))


def parse_latex(s):
    r"""read an expression \sum_{a, b}P(c, d|e)\left[...\right]\left[...\right]^{-1} into the form of canon_prob"""
    def names(t):
        return tuple(sorted(x.strip() for x in t.split(",")))

    def expr(i):
        mar = var = cond = ()
        prod, div = [], []
        if s.startswith("\\sum_{", i):
            j = s.index("}", i)
            mar = names(s[i + 6:j])
            i = j + 1
        if s.startswith("P(", i):
            j = s.index(")", i)
            a, _, b = s[i + 2:j].partition("|")
            var, cond = names(a), names(b) if b else ()
            i = j + 1
        while s.startswith("\\left[", i):
            q, i = expr(i + 6)
            if not s.startswith("\\right]", i):
                raise ValueError("unreadable expression %r at %d" % (s, i))
            i += 7
            if s.startswith("^{-1}", i):
                div.append(q)
                i += 5
            else:
                prod.append(q)
        return (var, cond, mar, tuple(sorted(prod)), tuple(sorted(div))), i

    q, i = expr(0)
    if i != len(s):
        raise ValueError("unreadable expression %r at %d" % (s, i))
    return q
