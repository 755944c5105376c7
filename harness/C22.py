"""C22 the Merkle root commits to all leaves"""
import hashlib
from neocore.Cryptography.MerkleTree import MerkleTree
from neocore.UInt256 import UInt256


def dsha(b):
    return hashlib.sha256(hashlib.sha256(b).digest()).digest()


def root(leaves):
    """(root bytes, pairing rounds)"""
    row, rounds = [bytes(x) for x in leaves], 0
    while len(row) > 1:
        nxt = []
        for i in range(0, len(row), 2):
            l = row[i]
            r = row[i + 1] if i + 1 < len(row) else l
            nxt.append(dsha(l + r))
        row, rounds = nxt, rounds + 1
    return row[0], rounds


def data(t, n):
    return [t.bytes('h%d' % i, 32) for i in range(n)]


def build(t, n):
    ds = data(t, n)
    hs = [UInt256(data=bytearray(d)) for d in ds]
    keep = list(hs)
    want, rounds = root(ds)
    r = MerkleTree.ComputeRoot(hs)
    t.check(type(r) is UInt256 and t.same(bytes(r.Data), want), 'ComputeRoot is not the root of the pairing rounds')
    tree = MerkleTree(hs)
    t.check(t.same(bytes(tree.Root.Hash.Data), want), 'the tree has another root')
    t.check(tree.Depth == rounds + 1, 'the depth is not one plus the number of rounds')
    t.check(len(hs) == n and all(a is b for a, b in zip(hs, keep)), 'the list of hashes was changed')
    t.check(t.all([t.same(bytes(h.Data), d) for h, d in zip(hs, ds)]), 'a hash was changed')
    t.check(t.same(bytes(MerkleTree.ComputeRoot(tuple(hs)).Data), want), 'ComputeRoot depends on history')


def shape(t, n):
    """every inner node is the hash of its children, every leaf is a leaf"""
    ds = data(t, n)
    tree = MerkleTree([UInt256(data=d) for d in ds])
    seen = []

    def walk(node, depth):
        t.check(node.IsRoot() == (node is tree.Root), 'a node that is not the root counts as the root, or the root does not')
        t.check(node.IsLeaf() == (depth == 1), 'a node that is not a leaf counts as one, or a leaf does not')
        if node.LeftChild is None:
            t.check(node.RightChild is None and depth == 1, 'a leaf is not at the bottom')
            seen.append(bytes(node.Hash.Data))
            return
        t.check(node.LeftChild.Parent is node and node.RightChild.Parent is node, 'a child has another parent')
        walk(node.LeftChild, depth - 1)
        if node.RightChild is not node.LeftChild:
            walk(node.RightChild, depth - 1)
        t.check(t.same(bytes(node.Hash.Data), dsha(bytes(node.LeftChild.Hash.Data) + bytes(node.RightChild.Hash.Data))), 'an inner node is not the hash of its children')
    walk(tree.Root, tree.Depth)
    t.check(len(seen) == n and t.all([t.same(a, b) for a, b in zip(seen, ds)]), 'the leaves are not the hashes in order')


def hash_array(t, n, eq):
    """distinct leaves; eq: which leaf repeats which"""
    ds = data(t, n)
    ds = [ds[eq[i]] for i in range(n)]
    hs = [UInt256(data=d) for d in ds]
    arr = MerkleTree(hs).ToHashArray()
    t.check(type(arr) is list, 'the hash array is not a list')
    vals = [bytes(a.Data) for a in arr]
    for d in ds:
        t.check(t.any([t.same(d, v) for v in vals]), 'a leaf is missing in the hash array')
    for i, v in enumerate(vals):
        t.check(t.any([t.same(d, v) for d in ds]), 'the hash array contains what is no leaf')
        for w in vals[:i]:
            t.check(not t.same(v, w), 'the hash array contains a hash twice')


def commits(t, n, at):
    """changing one leaf changes the root"""
    t.injective('sha256')
    ds = data(t, n)
    es = list(ds)
    es[at] = t.bytes('other', 32)
    t.assume(es[at] != ds[at])
    a = MerkleTree.ComputeRoot([UInt256(data=d) for d in ds])
    b = MerkleTree.ComputeRoot([UInt256(data=d) for d in es])
    t.check(a != b, 'changing a leaf does not change the root')


def empty(t):
    for arg in ([], ()):
        ok, v = t.attempt(lambda: MerkleTree.ComputeRoot(arg))
        t.check(not ok, 'an empty list has a root')
        ok, v = t.attempt(lambda: MerkleTree(arg))
        t.check(not ok, 'an empty list makes a tree')
