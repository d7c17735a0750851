"""Turns the state graph TLC exported from a design specification into operation scripts for the recorder:
walks that take every transition, or one history per state."""
import random
from collections import deque


class Graph:
    def __init__(self, path):
        self.out = {}
        self.first = None
        self.edges = 0
        with open(path) as f:
            for line in f:
                a, op, b = line.rstrip("\n").split(";")
                a, b, op = int(a), int(b), op.strip('"')
                if self.first is None:
                    self.first = a
                es = self.out.setdefault(a, {})
                if op not in es:
                    es[op] = b
                    self.edges += 1
                self.out.setdefault(b, {})

    def paths(self):
        """breadth-first tree: state -> list of operations from the initial state"""
        par = {self.first: None}
        q = deque([self.first])
        while q:
            u = q.popleft()
            for op in sorted(self.out[u]):
                v = self.out[u][op]
                if v not in par:
                    par[v] = (u, op)
                    q.append(v)
        res = {}
        for v in par:
            ops = []
            u = v
            while par[u] is not None:
                ops.append(par[u][1])
                u = par[u][0]
            res[v] = ops[::-1]
        return res

    def walks(self, seed, length=400, limit=None):
        """lists of (op, state reached, state is new); together they take every transition (or `limit` of them)"""
        rng = random.Random(seed)
        todo = {}
        for u in sorted(self.out):
            l = sorted(self.out[u])
            rng.shuffle(l)
            l.sort(key=lambda op: self.out[u][op] == u)   # self-loops last in list = taken first
            todo[u] = l
        left = self.edges if limit is None else min(limit, self.edges)
        seen = set()
        walks = []
        while left > 0:
            cur, w = self.first, []
            while len(w) < length and left > 0:
                if todo[cur]:
                    ops = [todo[cur].pop()]
                    left -= 1
                else:
                    ops = self._near(cur, todo)
                    if ops is None:
                        break
                for op in ops:
                    cur = self.out[cur][op]
                    w.append((op, cur, cur not in seen))
                    seen.add(cur)
            if not w:
                break
            walks.append(w)
        return walks

    def _near(self, src, todo):
        par = {src: None}
        q = deque([src])
        while q:
            u = q.popleft()
            if todo[u]:
                ops = []
                while par[u] is not None:
                    ops.append(par[u][1])
                    u = par[u][0]
                return ops[::-1]
            for op, v in self.out[u].items():
                if v not in par:
                    par[v] = (u, op)
                    q.append(v)
        return None


def edge_script(g, path, tr, look, seed, every=6, length=400, limit=None, head=()):
    """tr(op, i): script operation of a transition; look: operations that read everything"""
    n = 0
    with open(path, "w") as f:
        for w in g.walks(seed, length, limit):
            ops = list(head)
            for i, (op, _, new) in enumerate(w):
                ops.append(tr(op, n + i))
                if new or i % every == every - 1:
                    ops.extend(look)
            ops.extend(look)
            n += len(ops)
            f.write(";".join(ops) + "\n")
    return n


def state_script(g, path, tr, look, seed, fraction=1.0, tail=None):
    """one history per state: the shortest way there, then look, then tail(history number)"""
    rng = random.Random(seed)
    n = h = 0
    with open(path, "w") as f:
        for v, p in sorted(g.paths().items(), key=lambda x: (len(x[1]), x[1])):
            if rng.random() >= fraction:
                continue
            ops = [tr(op, n + i) for i, op in enumerate(p)] + list(look)
            if tail:
                ops += tail(h)
            h += 1
            n += len(ops)
            f.write(";".join(ops) + "\n")
    return n
