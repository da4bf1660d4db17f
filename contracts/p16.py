"""P16: responses to file requests carry the right status, body and headers.  The contract of RequestHandler::handleRequest (see handler.py), and
Contract of NativeDebugFS(root).open(p): a file is returned exactly if root / p could be opened for reading (directories may be refused)."""
from handler import *

NATIVE = dict(src="p16.cpp")
SECONDS = 300


def proofs(m):
    return handler_proofs(skip=("path:", "handshake:")) + [Proof('NativeRawFS::open', 'h_native', native_setup, native_post, models=NATIVEFS, opts=dict(only=("found:",)))]
