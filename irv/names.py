"""Demangled C++ names -> (qualified name without template arguments, parameter list)."""
import re

STR = "std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char>>"


def norm(d):
    d = d.replace("[abi:cxx11]", "").replace(STR, "std::string")
    d = d.replace("std::basic_string_view<char, std::char_traits<char>>", "std::string_view")
    d = d.replace("::__cxx11::", "::")
    return d


_ops = ["operator()", "operator[]", "operator<<=", "operator>>=", "operator<=>", "operator<<", "operator>>", "operator<=", "operator>=", "operator->*", "operator->", "operator<",
        "operator>"]


def parse(dem):
    """(qual, params, targs): qual has no template arguments; targs are those of the last component"""
    d = norm(dem)
    n = len(d)
    i = 0
    out = []
    depth = 0
    last = ""
    tstart = None
    params = None
    while i < n:
        c = d[i]
        if depth == 0 and d.startswith("operator", i):
            for o in _ops:
                if d.startswith(o, i):
                    out.append(o)
                    i += len(o)
                    break
            else:
                out.append("operator")
                i += 8
            last = ""
            continue
        if c == "<":
            if depth == 0:
                tstart = i + 1
            depth += 1
        elif c == ">" and (i == 0 or d[i - 1] != "-"):
            depth -= 1
            if depth == 0:
                last = d[tstart:i]
        elif depth == 0:
            if c == "(":
                if d.startswith("(anonymous namespace)", i):
                    i += len("(anonymous namespace)")
                    out.append("(anon)")
                    continue
                # parameter list: up to the matching parenthesis
                k, dd = i + 1, 1
                while k < n and dd:
                    if d[k] == "(":
                        dd += 1
                    elif d[k] == ")":
                        dd -= 1
                    k += 1
                rest = d[k:]
                rest2 = rest.replace(" const", "").strip(" &")
                if rest2 == "" or rest2.startswith("["):
                    params = d[i + 1:k - 1]
                    break
                # a nested entity (lambda, local class): keep going
                out.append("()")
                i = k
                if rest.startswith(" const"):
                    i += 6
                continue
            if c == " ":
                # return type or conversion operator
                s = "".join(out)
                if s.endswith("operator") or "operator " in s.split("::")[-1]:
                    out.append(c)
                else:
                    out = []
                    last = ""
                i += 1
                continue
            out.append(c)
            if c == ":":
                last = ""
        i += 1
    return "".join(out), split_params(params), last


def split_params(p):
    if p is None:
        return None
    if p == "":
        return []
    out, depth, cur = [], 0, ""
    for ch in p:
        if ch in "<(":
            depth += 1
        elif ch in ">)":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    out.append(cur.strip())
    return out
