"""Assumed contracts of std::ifstream as far as opening a file goes: which path is opened is recorded, whether it exists is arbitrary."""
from .val import *
from .models import S, cstr


def nothing(e, st, a, name, ins):
    return None


def open_(e, st, a, name, ins):
    _, ps, _ = e.models.info(e, name)
    p = ps[0]
    s = cstr(e, st, a[1]) if p.startswith("char const*") else S(e, st, a[1])
    st.ghost["streams"] = st.ghost.get("streams", ()) + (s,)
    return None


def ctor(e, st, a, name, ins):
    _, ps, _ = e.models.info(e, name)
    if not ps or ps[0].startswith("std::basic_ifstream"):
        return None
    return open_(e, st, a, name, ins)


def is_open(e, st, a, name, ins):
    return e.ctx.OPENED


F = "std::basic_ifstream::"
IFSTREAM = {F + "basic_ifstream": ctor, F + "~basic_ifstream": nothing, F + "open": open_, F + "is_open": is_open}
