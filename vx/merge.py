"""Mechanical extraction: real tokens from /repo + ghost text from /verif/specs.

A spec file is Verus text.  Regions

    //@file <path under /repo>
    //@item <item path, e.g. impl Foo :: fn bar>
    ...annotated twin of the item...
    //@end

hold an annotated twin of a real item.  Inside a twin

    «ghost»          text that exists only for the verifier
    ⟦real⇒verified⟧  a declared rewrite: the real tokens `real` are handed to the verifier as `verified`

Everything else in a twin must be the item's own tokens.  On every run the item is re-read from /repo, its
tokens are aligned with the twin's, and the emitted text is the CURRENT item of /repo with the ghost text and the
declared rewrites put back at the aligned places.  The twin's own executable tokens are never emitted.
"""
import difflib
import re
from . import rusttok, items


class SpecError(Exception):
    pass


class Chunk:
    pass


def parse_twin(text):
    """-> (tokens, ghosts {gap: [text]}, rewrites [(p, q, text)])"""
    toks, ghosts, rewrites = [], {}, []
    i = 0
    buf_start = 0

    def flush(seg):
        for t in drop_vis(rusttok.lex(seg)):
            toks.append(t.text)

    seg = ""
    n = len(text)
    while i < n:
        c = text[i]
        if c == "«":
            flush(seg)
            seg = ""
            j = text.index("»", i)
            ghosts.setdefault(len(toks), []).append(text[i + 1:j])
            i = j + 1
        elif c == "⟦":
            flush(seg)
            seg = ""
            j = text.index("⟧", i)
            inner = text[i + 1:j]
            real, ver = inner.split("⇒", 1)
            p = len(toks)
            flush(real)
            rewrites.append((p, len(toks), ver))
            i = j + 1
        else:
            seg += c
            i += 1
    flush(seg)
    return toks, ghosts, rewrites


LOOPS = ("for", "while", "loop")
# ghost text that only passes something on to a call: dropped with the call, it takes no specification with it
ARGUMENT = re.compile(r"(\.\w+|\w+::|,?\s*(&mut |&|Ghost\()?[\w@.]+\)?(\s*,\s*(&mut |&|Ghost\()?[\w@.]+\)?)*,?)")


def drop_vis(tl):
    out, i = [], 0
    while i < len(tl):
        if tl[i].text == "pub" and tl[i].kind == "id":
            i += 1
            if i < len(tl) and tl[i].text == "(" and tl[i + 1].text in ("crate", "super", "self", "in"):
                i = rusttok.match_close(tl, i) + 1
            continue
        out.append(tl[i])
        i += 1
    return out


def apply_rules(tl, src):
    """token-level drops applied to the real item: visibility, attributes inside items, logging statements."""
    tl = drop_vis(tl)
    out = []
    i = 0
    drops = []
    n = len(tl)
    while i < n:
        t = tl[i]
        # inner / field / statement attributes
        if t.text == "#" and i + 1 < n and (tl[i + 1].text == "[" or (tl[i + 1].text == "!" and i + 2 < n and tl[i + 2].text == "[")):
            j = i + 1 if tl[i + 1].text == "[" else i + 2
            c = rusttok.match_close(tl, j)
            drops.append("attribute " + "".join(x.text for x in tl[i:c + 1])[:60])
            i = c + 1
            continue
        # log::xxx!(...);
        if (t.text == "log" and i + 4 < n and tl[i + 1].text == ":" and tl[i + 2].text == ":" and
                tl[i + 3].text in ("error", "info", "warn", "debug", "trace") and tl[i + 4].text == "!"):
            c = rusttok.match_close(tl, i + 5)
            if c + 1 < n and tl[c + 1].text == ";":
                drops.append("log::%s! statement" % tl[i + 3].text)
                i = c + 2
                continue
        out.append(t)
        i += 1
    return out, drops


def gap_ws(src, a, b):
    ws = src[a:b]
    if ws.strip() == "":
        return ws
    return "\n" if "\n" in ws else " "


def merge_item(src, toks_b, twin_text, const_names=()):
    """align; returns (text, info)"""
    A, ghosts, rewrites = parse_twin(twin_text)
    toks_b, drops = apply_rules(toks_b, src)
    B = [t.text for t in toks_b]
    sm = difflib.SequenceMatcher(None, A, B, autojunk=False)
    ops = sm.get_opcodes()
    identical = A == B
    amap = {}
    for tag, i1, i2, j1, j2 in ops:
        if tag == "equal":
            for k in range(i2 - i1):
                amap[i1 + k] = j1 + k
    lost, displaced = [], []
    # statements were taken out and nothing was put in
    only_less = all(t in ("equal", "delete") for t, *_ in ops)

    def map_gap(g):
        if g == 0:
            return 0
        if g == len(A):
            return len(B)
        if g in amap and g - 1 in amap:
            return amap[g]
        if g in amap:
            return amap[g]
        if g - 1 in amap:
            return amap[g - 1] + 1
        displaced.append(ghosts[g][0].strip()[:60])
        # nearest matched token before
        k = g - 1
        while k >= 0 and k not in amap:
            k -= 1
        return amap[k] + 1 if k >= 0 else 0

    ins = {}
    for g in sorted(ghosts):
        if only_less and 0 < g < len(A) and g not in amap and g - 1 not in amap and all(ARGUMENT.fullmatch(x.strip()) for x in ghosts[g]):
            continue
        ins.setdefault(map_gap(g), []).extend(ghosts[g])
    repl = {}
    for p, q, ver in rewrites:
        if p == q:
            raise SpecError("empty rewrite")
        if all(k in amap for k in range(p, q)) and all(amap[k + 1] == amap[k] + 1 for k in range(p, q - 1)):
            repl[amap[p]] = (q - p, ver)
        elif not (only_less and not any(k in amap for k in range(p, q))):
            lost.append("".join(A[p:q])[:60])
    out = []
    j = 0
    prev_end = None
    while j <= len(B):
        if j in ins:
            for g in ins[j]:
                out.append(" " + g + " ")
        if j == len(B):
            break
        if j in repl:
            cnt, ver = repl[j]
            out.append(gap_ws(src, prev_end, toks_b[j].start) if prev_end is not None else "")
            out.append(" " + ver + " ")
            # ghosts inside a rewritten range are kept just after it
            for k in range(j + 1, j + cnt):
                for g in ins.get(k, []):
                    out.append(" " + g + " ")
            prev_end = toks_b[j + cnt - 1].end
            j += cnt
            continue
        t = toks_b[j]
        if prev_end is not None:
            out.append(gap_ws(src, prev_end, t.start))
        out.append(t.text)
        prev_end = t.end
        j += 1
    info = {
        "identical": identical,
        "lost_rewrites": lost,
        "displaced_ghost": displaced,
        "same_loops": [t for t in A if t in LOOPS] == [t for t in B if t in LOOPS],
        "rewrites": ["%s => %s" % (" ".join(A[p:q]), " ".join(v.split())) for p, q, v in rewrites],
        "drops": drops,
        "real_tokens": len(B),
        "ghost_chunks": sum(len(v) for v in ghosts.values()),
    }
    if not identical:
        d = []
        for tag, i1, i2, j1, j2 in ops:
            if tag != "equal":
                d.append("- %s\n+ %s" % (" ".join(A[i1:i2]), " ".join(B[j1:j2])))
        info["diff"] = d
    return "".join(out), info


def build(spec_path, repo, probe=False, only=None):
    """-> (verus text, {item: info}, missing [item])"""
    text = open(spec_path, encoding="utf-8").read()
    text = include(text, spec_path)
    lines = text.split("\n")
    out = []
    infos, missing = {}, []
    cur_file = None
    cache = {}
    i = 0
    item = None
    while i < len(lines):
        ln = lines[i]
        s = ln.strip()
        if s.startswith("//@file "):
            cur_file = s[len("//@file "):].strip()
            i += 1
            continue
        if s.startswith("//@item "):
            path = s[len("//@item "):].strip()
            j = i + 1
            while lines[j].strip() != "//@end":
                j += 1
            twin = "\n".join(lines[i + 1:j])
            i = j + 1
            key = "%s :: %s" % (cur_file, path)
            try:
                if cur_file not in cache:
                    src = open("%s/%s" % (repo, cur_file), encoding="utf-8").read()
                    cache[cur_file] = (src, rusttok.lex(src))
                src, toks = cache[cur_file]
                found = items.find(toks, path)
            except (OSError, rusttok.LexError, IndexError) as e:
                found = []
            if len(found) != 1:
                missing.append(key)
                continue
            lo, hi = found[0]
            txt, info = merge_item(src, toks[lo:hi], twin)
            start_line = sum(x.count("\n") + 1 for x in out) + 1
            out.append("/* from %s */" % key)
            if probe and " fn " in " " + path:
                txt = add_probe(txt)
            out.append(txt)
            info["lines"] = [start_line, start_line + txt.count("\n") + 1]
            infos[key] = info
            continue
        out.append(ln)
        i += 1
    return "\n".join(out), infos, missing


def include(text, spec_path):
    import os
    d = os.path.dirname(spec_path)

    def rep(m):
        return open(os.path.join(d, m.group(1)), encoding="utf-8").read()

    return re.sub(r"^//@include (\S+)$", rep, text, flags=re.M)


def add_probe(txt):
    """insert assert(false) at the start of the function body (vacuity probe)."""
    toks = rusttok.lex(txt)
    # the body is the last top-level {...}
    depth = 0
    body = None
    i = 0
    while i < len(toks):
        t = toks[i]
        if t.kind == "p" and t.text in rusttok.OPEN:
            c = rusttok.match_close(toks, i)
            if t.text == "{":
                body = i
            i = c + 1
            continue
        i += 1
    if body is None:
        return txt
    # behind hide(..) headers, which must stay first
    while body + 2 < len(toks) and toks[body + 1].text == "hide" and toks[body + 2].text == "(":
        body = rusttok.match_close(toks, body + 2) + 1
    p = toks[body].end
    return txt[:p] + " assert(false); " + txt[p:]
