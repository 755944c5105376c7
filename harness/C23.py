"""C23 trimming a Merkle tree"""
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256


def leaf(i):
    return UInt256(data=bytes([i + 1, i ^ 0x5a]) * 16)


def nodes(tree):
    """(node, depth, first leaf index) of the untrimmed tree, each node once"""
    out = []

    def walk(node, depth, first):
        out.append((node, depth, first, node.LeftChild, node.RightChild, bytes(node.Hash.Data)))
        if node.LeftChild is not None:
            walk(node.LeftChild, depth - 1, first)
            if node.RightChild is not node.LeftChild:
                walk(node.RightChild, depth - 1, first + (1 << (depth - 2)))
    walk(tree.Root, tree.Depth, 0)
    return out


def flagged(t, flags, first, count):
    return t.any([f != 0 for f in flags[first:first + count]])


def check_trimmed(t, tree, before, flags):
    gone = set()
    for node, depth, first, l, r, h in before:
        if id(node) in gone:
            if l is not None:
                gone.add(id(l))
                gone.add(id(r))
            continue
        t.check(t.same(bytes(node.Hash.Data), h), 'a remaining node has another hash')
        if depth == 1:
            t.check(node.LeftChild is None and node.RightChild is None, 'a leaf got children')
            continue
        keep = flagged(t, flags, first, 1 << (depth - 1))
        kept = node.LeftChild is not None
        t.check(t.same(keep, kept), 'a node keeps its children though no leaf below is flagged, or loses them though one is')
        if kept:
            t.check(node.LeftChild is l and node.RightChild is r, 'a child was replaced')
        else:
            t.check(node.RightChild is None, 'only one child was removed')
            gone.add(id(l))
            gone.add(id(r))


def trim(t, n, m, kind, same=False):
    """n leaves, m flag bytes"""
    tree = MerkleTree([leaf(i % 2 if same == 'two' else 0 if same else i) for i in range(n)])
    before = nodes(tree)
    depth, root = tree.Depth, tree.Root
    arg = t.bytes('f', m)
    flags = list(arg)
    arg = bytearray(arg) if kind == 'bytearray' else arg
    tree.Trim(arg)
    t.check(tree.Root is root, 'the root was replaced')
    t.check(t.same(bytes(root.Hash.Data), before[0][5]), 'trimming changed the root hash')
    t.check(len(arg) == m and t.same(bytes(arg), bytes(flags)), 'trimming changed the flags')
    check_trimmed(t, tree, before, flags)


def all_flagged(t, n):
    tree = MerkleTree([leaf(i) for i in range(n)])
    before = nodes(tree)
    arg = t.bytes('f', n)
    t.assume(t.all([x != 0 for x in arg]))
    tree.Trim(arg)
    for node, depth, first, l, r, h in before:
        t.check(node.LeftChild is l and node.RightChild is r, 'trimming with all leaves flagged removed a node')


def twice(t, n):
    """a second trim removes what the second flags leave out, too"""
    tree = MerkleTree([leaf(i) for i in range(n)])
    before = nodes(tree)
    f, g = t.bytes('f', n), t.bytes('g', n)
    # the second flags flag fewer leaves
    t.assume(t.all([t.implies(b != 0, a != 0) for a, b in zip(f, g)]))
    tree.Trim(f)
    tree.Trim(g)
    t.check(t.same(bytes(tree.Root.Hash.Data), before[0][5]), 'trimming changed the root hash')
    check_trimmed(t, tree, before, list(g))
