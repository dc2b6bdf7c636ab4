"""Locate items (fn/struct/enum/const/...) in a Rust file by path."""
from .rusttok import lex, match_close, OPEN

ITEM_KW = {"fn", "struct", "enum", "const", "static", "type", "impl", "trait", "mod", "use", "macro_rules", "extern", "union"}
MODIFIERS = {"pub", "unsafe", "async", "default", "const", "extern"}


class Item:
    def __init__(self, kind, name, start, end, body, attrs):
        self.kind, self.name = kind, name
        self.start, self.end = start, end      # token range [start,end) without attributes
        self.body = body                       # (open,close) token indexes or None
        self.attrs = attrs
        self.header = ""                       # impl header as written, without spaces


def parse_items(toks, lo, hi):
    items = []
    i = lo
    while i < hi:
        attrs = []
        while i < hi and toks[i].text == "#" and i + 1 < hi:
            j = i + 1
            if toks[j].text == "!":
                j += 1
            if toks[j].text != "[":
                break
            c = match_close(toks, j)
            attrs.append(" ".join(t.text for t in toks[i:c + 1]))
            i = c + 1
        if i >= hi:
            break
        start = i
        # visibility and modifiers
        k = i
        kind = None
        while k < hi:
            t = toks[k].text
            if t == "pub":
                k += 1
                if k < hi and toks[k].text == "(":
                    k = match_close(toks, k) + 1
                continue
            if t in ("unsafe", "async", "default"):
                k += 1
                continue
            if t == "extern":
                if toks[k + 1].kind == "str":
                    k += 2
                    continue
                kind = "extern"
                break
            if t == "const":
                if toks[k + 1].text in ("fn", "unsafe", "async", "extern"):
                    k += 1
                    continue
                kind = "const"
                break
            if t in ITEM_KW:
                kind = t
            break
        if kind is None:
            # macro invocation item:  name ! (...) ;   or unknown: skip to ; or }
            j = i
            while j < hi and toks[j].text not in (";", "{", "(", "["):
                j += 1
            if j < hi and toks[j].text in OPEN:
                j = match_close(toks, j)
                if j + 1 < hi and toks[j + 1].text == ";":
                    j += 1
            i = j + 1
            continue
        if kind in ("const", "static", "type", "use", "extern"):
            depth = 0
            j = k
            while j < hi:
                t = toks[j].text
                if t in OPEN and toks[j].kind == "p":
                    j = match_close(toks, j)
                elif t == ";":
                    break
                j += 1
            nm = k + 1
            while toks[nm].text == "mut":
                nm += 1
            items.append(Item(kind, toks[nm].text, start, j + 1, None, attrs))
            i = j + 1
            continue
        # body: first '{' (or ';') outside () and []
        j = k + 1
        body = None
        while j < hi:
            t = toks[j]
            if t.kind == "p" and t.text in ("(", "["):
                j = match_close(toks, j) + 1
                continue
            if t.text == "{":
                c = match_close(toks, j)
                body = (j, c)
                end = c + 1
                break
            if t.text == ";":
                end = j + 1
                break
            j += 1
        if kind == "macro_rules":
            items.append(Item(kind, toks[k + 2].text, start, end, body, attrs))
            i = end
            if i < hi and toks[i].text == ";":
                i += 1
            continue
        if kind == "impl":
            hdr = toks[k + 1:body[0]]
            name = impl_name(hdr)
        else:
            name = toks[k + 1].text
        items.append(Item(kind, name, start, end, body, attrs))
        if kind == "impl":
            items[-1].header = "".join(t.text for t in hdr)
        i = end
    return items


def impl_name(hdr):
    """'Foo' or 'Trait for Foo' with generics removed."""
    txt = []
    depth = 0
    i = 0
    while i < len(hdr):
        t = hdr[i].text
        if t == "<":
            depth += 1
        elif t == ">":
            if i > 0 and hdr[i - 1].text == "-":
                pass
            else:
                depth -= 1
        elif depth == 0:
            if t == "where":
                break
            txt.append(t)
        i += 1
    s = " ".join(txt)
    return s.replace(" : : ", "::").replace(" ::", "::").strip()


def find(toks, path):
    """path: 'fn foo' | 'struct S' | 'impl X :: fn foo' | 'impl T for X :: fn f' | 'mod m :: ...'
    or, for one of several impls of a generic trait, 'impl From for X [From<Y>] :: fn from'.
    returns list of matching (start,end) token ranges"""
    parts = [p.strip() for p in path.split(" :: ")]

    def rec(lo, hi, idx):
        res = []
        want_kind, want_name = parts[idx].split(" ", 1)
        sel = ""
        if want_kind == "impl" and want_name.endswith("]"):
            want_name, sel = want_name[:-1].split(" [", 1)
        for it in parse_items(toks, lo, hi):
            if it.kind == want_kind and it.name.replace(" ", "") == want_name.replace(" ", "") and sel.replace(" ", "") in it.header:
                if any("cfg" in a and "test" in a for a in it.attrs):
                    continue
                if idx == len(parts) - 1:
                    res.append((it.start, it.end))
                elif it.body:
                    res += rec(it.body[0] + 1, it.body[1], idx + 1)
        return res

    return rec(0, len(toks), 0)
