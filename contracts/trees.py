"""Assumed contract of the red-black trees behind std::map: a set of nodes with distinct keys.
A tree starts with arbitrary content: integer keys are present according to the ghost array 'live', a text key according to one truth value per text.  Looking a key up yields the node
with that key, or the end; inserting adds a node, for a key that is not present; erasing removes the node of a key.  The code of std::map above it (at, try_emplace, operator[], find,
comparisons of keys, construction of the node's value) is executed as it is."""
from common import *
from irv.models import str_eq

HEAD = 8        # offset of the header node in a tree (after the comparator)
VALUE = 32      # offset of the value in a node


def tree_of(a):
    return (a.obj, a.off)


def is_text(params):
    return any("string" in p for p in params or [])


def key_at(e, st, p, text):
    return e.get_str(st, p) if text else bv(e.load(st, p, 2), 16)


def decide(e, st, f):
    """the truth value of f on this path (the path is split when it is open)"""
    if type(f) is int:
        return bool(f)
    if e.must(st, f):
        return True
    if e.must(st, z3.Not(f)):
        return False
    e.fork_conds(st, [f, z3.Not(f)])


def relation(e, st, a, b):
    """whether two texts are equal, as decided on this path: True, False or None"""
    cls, apart = {}, []
    find = lambda x: x if cls.get(x, x) == x else find(cls[x])
    for x, y, r in st.ghost["equal"]:
        if r is True or z3.is_expr(r) and e.must(st, r) or type(r) is int and r:
            cls[find(id(x))] = find(id(y))
        elif not z3.is_expr(r) or e.must(st, z3.Not(r)):
            apart.append((id(x), id(y)))
    u, v = find(id(a.arr)), find(id(b.arr))
    if u == v:
        return True
    if any({find(x), find(y)} == {u, v} for x, y in apart):
        return False
    return None


def equal_text(e, st, a, b):
    if a is b or (a.arr is b.arr and same(a.len, b.len) is True):
        return 1
    known = relation(e, st, a, b)
    if known is None:
        known = str_eq(e, st, a, b)
        st.ghost["equal"] += ((a.arr, b.arr, known),)
    return known


def lookup(e, st, tree, k, text):
    """the node with key k in the tree, or None"""
    for t, node in st.ghost["inserted"]:
        if t != tree:
            continue
        w = key_at(e, st, Ptr(node, VALUE), text)
        if decide(e, st, equal_text(e, st, k, w) if text else w == k):
            if text:
                e.set_str(st, Ptr(node, VALUE), k)     # the same text
            return Ptr(node)
    for t, w in st.ghost["erased"]:
        if t == tree and (text or not e.must(st, w != k)):
            raise ToolLimit("lookup after an erasure")
    if text:
        # one truth value for every text that was looked up
        seen = st.ghost["texts"]
        n = None
        for j, (t, x, _) in enumerate(seen):
            if t == tree and decide(e, st, equal_text(e, st, k, x)):
                n = j
        if n is None:
            n = len(seen)
            seen += ((tree, k, z3.Bool(f'known text {n}')),)
            there = seen[n][2]
            if not (e.must(st, there) or e.must(st, z3.Not(there))):
                e.fork_conds(st, [there, z3.Not(there)])
            st.ghost["texts"] = seen
        if not decide(e, st, seen[n][2]):
            return None
    elif not decide(e, st, z3.Select(e.ctx.live, k)):
        return None
    node = e.new_obj(st, "node", "heap", 32 + e.ctx.mapped[text])
    if text:
        e.set_str(st, Ptr(node, VALUE), k)
        f = st.ghost["any"]
        o = st.w(node)
        for off, c in st.objs[f.obj].cells.items():
            if f.off <= off < f.off + 32:
                o.cells[VALUE + 32 + off - f.off] = c
    else:
        st.w(node).cells[VALUE] = (2, k)
        o = st.w(node)
    o.meta["base"] = True
    return Ptr(node)


def lower_bound(e, st, a, name, ins):
    q, ps, _ = e.models.info(e, name)
    if len(a) != 4:
        raise ToolLimit("lower bound of another form")
    tree = (a[2].obj, a[2].off - HEAD)
    text = is_text(ps)
    r = lookup(e, st, tree, key_at(e, st, a[3], text), text)
    return a[2] if r is None else r


def position(k):
    def f(e, st, a, name, ins):
        q, ps, _ = e.models.info(e, name)
        text = is_text(ps)
        r = lookup(e, st, tree_of(a[0]), key_at(e, st, a[k], text), text)
        return (r, Ptr(0, 0)) if r is not None else (Ptr(0, 0), a[0].add(HEAD))
    return f


def inserted(e, st, a, name, ins):
    tree = (a[3].obj, a[3].off - HEAD)
    st.ghost["inserted"] += ((tree, a[1].obj),)
    return None


def erase(e, st, a, name, ins):
    q, ps, _ = e.models.info(e, name)
    if len(ps or []) != 1 or "iterator" in ps[0]:
        raise ToolLimit("erasure by position")
    text = is_text(ps)
    k = key_at(e, st, a[1], text)
    if any(t == tree_of(a[0]) for t, _ in st.ghost["inserted"]):
        raise ToolLimit("erasure of an inserted node")
    st.ghost["erased"] += ((tree_of(a[0]), k),)
    return z3.If(z3.Select(e.ctx.live, k), bv(1), bv(0)) if not text else e.fresh('erased', 64)


TREES = {"std::_Rb_tree::_M_lower_bound": lower_bound, "std::_Rb_tree::_M_get_insert_hint_unique_pos": position(2), "std::_Rb_tree::_M_get_insert_unique_pos": position(1),
         "std::_Rb_tree_insert_and_rebalance": inserted, "std::_Rb_tree::erase": erase}
GHOSTS = dict(inserted=(), erased=(), texts=(), equal=(), any=None)
