"""
C21: topological sort orders every acyclic graph and refuses every cyclic one.

All directed graphs (with self-references) up to a number of nodes, in every order of keys; the reference for cycles is the
transitive closure. Graphs with equal but not identical nodes, nodes of different types, and long paths.
"""

from __future__ import annotations

import itertools
from typing import Any, Iterator

from strong_typing.topological import topological_sort

LEVEL = "model_checking"
BOUNDS = {
    "quick": "all 66066 directed graphs with up to 4 nodes (with self-references) x all orders of keys; graphs of 5 nodes with up to "
    "6 edges between different nodes; nodes of 8 types, among them equal objects that are not "
    "identical; paths, rings and trees of up to 20000 nodes",
    "thorough": "as quick, all 1048576 graphs with 5 nodes x 4 orders of keys, with and without self-references",
}


class Node:
    "Nodes that are equal although not identical."

    def __init__(self, n: int) -> None:
        self.n = n

    def __eq__(self, other: Any) -> bool:
        return isinstance(other, Node) and self.n == other.n

    def __hash__(self) -> int:
        return 7  # all nodes clash

    def __repr__(self) -> str:
        return f"Node({self.n})"


LABELS: dict[str, list[Any]] = {
    "int": [0, 1, 2, 3, 4],
    "str": ["d", "", "a", "c", "b"],
    "mixed": [None, 0, "", (), frozenset()],
    "falsy first": [False, "x", 2.5, (1, 2), None],
    "type": [int, str, type, object, list[int]],
    "tuple": [(0,), (0, 0), (), ((),), (1,)],
    "node": [Node(0), Node(1), Node(2), Node(3), Node(4)],
    "function": [len, print, repr, max, min],
}


def closure(n: int, edges: list[int]) -> bool:
    "Whether the graph has a cycle through two or more nodes."
    reach = [e & ~(1 << i) for i, e in enumerate(edges)]
    for k in range(n):
        for i in range(n):
            if reach[i] >> k & 1:
                reach[i] |= reach[k]
    return any(reach[i] >> i & 1 for i in range(n))


def check(n: int, edges: list[int], order: tuple[int, ...], labels: list[Any], loops: bool, ctx: Any) -> None:
    graph = {labels[i]: {labels[j] for j in range(n) if edges[i] >> j & 1} for i in order}
    copied = {k: set(v) for k, v in graph.items()}
    keys = list(graph)
    ctx.step()
    ctx.trace()
    case = dict(graph=repr(copied))
    try:
        result = topological_sort(graph)
    except RuntimeError as ex:
        if not loops or isinstance(ex, RecursionError):
            ctx.violation(f"acyclic graph refused: {ex}", **case)
        result = None
    except Exception as ex:
        ctx.violation(f"sorting fails with {type(ex).__name__}: {ex}", **case)
        result = None
    else:
        if loops:
            ctx.violation("cyclic graph sorted", result=repr(result), **case)
        else:
            judge(graph, result, ctx, case)
    if graph != copied or list(graph) != keys:
        ctx.violation("graph is modified", after=repr(graph), **case)


def judge(graph: Any, result: Any, ctx: Any, case: Any) -> None:
    if type(result) is not list or len(result) != len(graph):
        ctx.violation("wrong number of nodes", result=repr(result)[:300], **case)
        return
    position = {node: i for i, node in enumerate(result)}
    if position.keys() != graph.keys():
        ctx.violation("other nodes", result=repr(result)[:300], **case)
        return
    for node, targets in graph.items():
        for target in targets:
            if target != node and position[target] > position[node]:
                ctx.violation("node before a node that it points to", result=repr(result)[:300], **case)
                return


def explore(n: int, bits: int, orders: list[tuple[int, ...]], labels: list[Any], ctx: Any) -> None:
    mask = (1 << n) - 1
    edges = [bits >> (n * i) & mask for i in range(n)]
    loops = closure(n, edges)
    ctx.count_states(len(orders))
    ctx.outcomes["cyclic" if loops else "acyclic"] += len(orders)
    for order in orders:
        check(n, edges, order, labels, loops, ctx)


def spread(n: int, bits: int, own: int) -> int:
    "Inserts self-references into a number that tells the edges between different nodes."
    out = 0
    for i in range(n):
        row = bits >> ((n - 1) * i) & ((1 << (n - 1)) - 1)
        low = row & ((1 << i) - 1)
        high = row >> i
        out |= (low | (own >> i & 1) << i | high << (i + 1)) << (n * i)
    return out


def sparse() -> Iterator[int]:
    "Graphs with 5 nodes and at most 6 edges between different nodes out of 20."
    for k in range(0, 7):
        for chosen in itertools.combinations(range(20), k):
            yield sum(1 << c for c in chosen)


def tasks(tier: str) -> list[Any]:
    out: list[Any] = [["small"]]
    out += [["four", i] for i in range(16)]
    out += [["sparse", i] for i in range(16)]
    out += [["labels", name] for name in LABELS]
    out += [["long", n] for n in (500, 999, 1000, 1001, 5000, 20000)]
    if tier == "thorough":
        out += [["five", i] for i in range(64)]
    return out


def run(task: Any, ctx: Any) -> None:
    ints = LABELS["int"]
    if task[0] == "small":
        for n in range(0, 4):
            orders = list(itertools.permutations(range(n)))
            for bits in range(2 ** (n * n)):
                explore(n, bits, orders, ints, ctx)
    elif task[0] == "four":
        orders = list(itertools.permutations(range(4)))
        for bits in range(task[1], 2**16, 16):
            explore(4, bits, orders, ints, ctx)
        ctx.sample({"nodes": 4, "edges": bin(bits)})
    elif task[0] == "sparse":
        orders = [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 0, 4, 1, 3), (1, 3, 0, 4, 2)]
        for i, bits in enumerate(sparse()):
            if i % 16 == task[1]:
                for own in (0, 31, 5):
                    explore(5, spread(5, bits, own), orders, ints, ctx)
    elif task[0] == "labels":
        labels = LABELS[task[1]]
        for n in range(1, 4):
            orders = list(itertools.permutations(range(n)))
            for pick in itertools.permutations(labels, n):
                for bits in range(2 ** (n * n)):
                    explore(n, bits, orders[:1], list(pick), ctx)
        # a node and the members that refer to it are equal, not identical
        if task[1] == "node":
            for bits in range(2**9):
                edges = [bits >> (3 * i) & 7 for i in range(3)]
                graph = {Node(i): {Node(j) for j in range(3) if edges[i] >> j & 1} for i in range(3)}
                ctx.count_states(1)
                ctx.step()
                ctx.trace()
                try:
                    result = topological_sort(graph)
                    if closure(3, edges):
                        ctx.violation("cyclic graph sorted", graph=repr(graph))
                    else:
                        judge(graph, result, ctx, dict(graph=repr(graph)))
                except RuntimeError:
                    if not closure(3, edges):
                        ctx.violation("acyclic graph refused", graph=repr(graph))
    elif task[0] == "long":
        n = task[1]
        forms: dict[str, tuple[Any, bool]] = {
            "path": ({i: {i + 1} if i + 1 < n else set() for i in range(n)}, False),
            "path back": ({i: {i - 1} if i else set() for i in range(n)}, False),
            "path from the end": ({i: {i + 1} if i + 1 < n else set() for i in reversed(range(n))}, False),
            "path with own references": ({i: {i, i + 1} if i + 1 < n else {i} for i in range(n)}, False),
            "ring": ({i: {(i + 1) % n} for i in range(n)}, True),
            "tail into ring": ({i: {i + 1} if i + 1 < n else {n - 2} for i in range(n)}, True),
            "star": ({i: set(range(1, n)) if i == 0 else set() for i in range(n)}, False),
            "star in": ({i: {n - 1} if i < n - 1 else set() for i in range(n)}, False),
            "tree": ({i: {j for j in (2 * i + 1, 2 * i + 2) if j < n} for i in range(n)}, False),
            "ladder": ({i: {j for j in (i + 1, i + 2) if j < n} for i in range(n)}, False),
        }
        for name, (graph, loops) in forms.items():
            ctx.count_states(1)
            ctx.step()
            ctx.trace()
            ctx.outcome("cyclic" if loops else "acyclic")
            copied = {k: set(v) for k, v in graph.items()}
            try:
                result = topological_sort(graph)
                if loops:
                    ctx.violation("cyclic graph sorted", form=name, nodes=n)
                else:
                    judge(graph, result, ctx, dict(form=name, nodes=n))
            except RuntimeError as ex:
                if not loops or isinstance(ex, RecursionError):
                    ctx.violation(f"{type(ex).__name__} for {'cyclic' if loops else 'acyclic'} graph", form=name, nodes=n)
            if graph != copied:
                ctx.violation("graph is modified", form=name, nodes=n)
    else:
        orders = [(0, 1, 2, 3, 4), (4, 3, 2, 1, 0), (2, 0, 4, 1, 3), (1, 3, 0, 4, 2)]
        for bits in range(task[1], 2**20, 64):
            explore(5, spread(5, bits, (bits * 7) & 31), orders, ints, ctx)
