"""Stand-in for the parts of networkx used to form cliques."""
import numpy as np


class Graph:
    def __init__(self, data=None, **k):
        self._adj = {}
        if data is None:
            return
        if isinstance(data, np.ndarray):
            if data.ndim != 2 or data.shape[0] != data.shape[1]:
                raise ValueError("Adjacency matrix not square")
            self.add_nodes_from(range(len(data)))
            for i, j in zip(*np.nonzero(data)):
                self.add_edge(int(i), int(j))
        else:
            self.add_edges_from(data)

    def add_node(self, n, **k):
        self._adj.setdefault(n, set())

    def add_nodes_from(self, ns, **k):
        for n in ns:
            self.add_node(n)

    def add_edge(self, a, b, **k):
        self.add_node(a)
        self.add_node(b)
        self._adj[a].add(b)
        self._adj[b].add(a)

    def add_edges_from(self, es, **k):
        for e in es:
            self.add_edge(e[0], e[1])

    @property
    def nodes(self):
        return list(self._adj)

    @property
    def edges(self):
        return [(a, b) for a in self._adj for b in self._adj[a] if a <= b]

    def neighbors(self, n):
        return iter(self._adj[n])

    def has_edge(self, a, b):
        return b in self._adj.get(a, ())

    def __iter__(self):
        return iter(self._adj)

    def __len__(self):
        return len(self._adj)

    def __getitem__(self, n):
        return self._adj[n]


def from_numpy_array(A, **k):
    return Graph(np.asarray(A))


from_numpy_matrix = from_numpy_array


def find_cliques(G, nodes=None):
    adj = {n: G._adj[n] - {n} for n in G._adj}
    order = list(adj)

    def expand(R, P, X):
        if not P and not X:
            yield list(R)
            return
        pivot = max(P | X, key=lambda n: len(adj[n] & P))
        for n in [q for q in order if q in P and q not in adj[pivot]]:
            yield from expand(R + [n], P & adj[n], X & adj[n])
            P = P - {n}
            X = X | {n}
    if adj:
        yield from expand([], set(adj), set())
