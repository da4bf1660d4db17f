"""P15: served files never escape the document root.  The obligations of RequestHandler::handleRequest on what it hands to the file system provider (see handler.py), and
Contract of NativeDebugFS(root).open(p) for a p that is not empty and does not start with '/':
 ensures  at most the file root / p is opened, that is the root, a separator unless there is one, then p;  a file is returned exactly if that one could be opened."""
from handler import *

NATIVE = dict(src="p15.cpp")
SECONDS = 120

def root_setup(e, st):
    c = e.ctx
    c.K = z3.BitVec('K', 64)
    c.fs = out_obj(e, st, 'file system', 256)
    c.p = e.fresh_str(st, 'root')
    c.arg = out_obj(e, st, 'argument', 64)
    e.set_str(st, Ptr(c.arg), c.p)
    c.L = layout(e, NFS, "rootPath")
    return [Ptr(c.fs), Ptr(c.arg)]


def root_post(e, st, kind, rv):
    c = e.ctx
    e.oblige(st, kind == 'return', 'ensures: the file system is made')
    if kind == 'return':
        e.oblige(st, same(c, e.get_str(st, Ptr(c.fs, c.L["rootPath"])), c.p), 'ensures: its root is the document root')


def proofs(m):
    return handler_proofs(["Get", "Head", "Post"], only=("path:",)) + [
        Proof('NativeRawFS::open', 'h_native', native_setup, native_post, models=NATIVEFS, opts=dict(skip=("found:",))),
        Proof('NativeDebugFS(root)', 'h_native_root', root_setup, root_post, models=NATIVEFS)]
