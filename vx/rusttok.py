"""Minimal Rust lexer (comments and whitespace dropped, spans kept)."""

class Tok:
    __slots__ = ("text", "start", "end", "kind")

    def __init__(self, text, start, end, kind):
        self.text, self.start, self.end, self.kind = text, start, end, kind

    def __repr__(self):
        return self.text


class LexError(Exception):
    pass


def _is_id_start(c):
    return c == "_" or c.isalpha()


def _is_id(c):
    return c == "_" or c.isalnum()


def skip_string(s, i):
    """s[i] == '"': index just after the closing quote."""
    i += 1
    while s[i] != '"':
        if s[i] == "\\":
            i += 1
        i += 1
    return i + 1


def lex(s):
    out = []
    i, n = 0, len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            i += 1
            continue
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
            continue
        if s.startswith("/*", i):
            depth, j = 1, i + 2
            while depth:
                if j >= n:
                    raise LexError("unterminated comment")
                if s.startswith("/*", j):
                    depth += 1
                    j += 2
                elif s.startswith("*/", j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        # raw strings / byte strings
        if c in "rb":
            j = i
            if s[j] == "b":
                j += 1
            if j < n and s[j] == "r":
                k = j + 1
                while k < n and s[k] == "#":
                    k += 1
                if k < n and s[k] == '"' and (k > j + 1 or s[j + 1] == '"'):
                    hashes = k - j - 1
                    end = s.find('"' + "#" * hashes, k + 1)
                    if end < 0:
                        raise LexError("unterminated raw string")
                    e = end + 1 + hashes
                    out.append(Tok(s[i:e], i, e, "str"))
                    i = e
                    continue
            if s[i] == "b" and i + 1 < n and s[i + 1] == '"':
                e = skip_string(s, i + 1)
                out.append(Tok(s[i:e], i, e, "str"))
                i = e
                continue
            if s[i] == "b" and i + 1 < n and s[i + 1] == "'":
                e = i + 2
                while s[e] != "'":
                    if s[e] == "\\":
                        e += 1
                    e += 1
                e += 1
                out.append(Tok(s[i:e], i, e, "char"))
                i = e
                continue
        if c == '"':
            e = skip_string(s, i)
            out.append(Tok(s[i:e], i, e, "str"))
            i = e
            continue
        if c == "'":
            # char literal or lifetime
            if i + 1 < n and s[i + 1] == "\\":
                e = i + 3
                while s[e] != "'":
                    e += 1
                e += 1
                out.append(Tok(s[i:e], i, e, "char"))
                i = e
                continue
            if i + 2 < n and s[i + 2] == "'":
                e = i + 3
                out.append(Tok(s[i:e], i, e, "char"))
                i = e
                continue
            e = i + 1
            while e < n and _is_id(s[e]):
                e += 1
            out.append(Tok(s[i:e], i, e, "life"))
            i = e
            continue
        if _is_id_start(c):
            e = i + 1
            while e < n and _is_id(s[e]):
                e += 1
            out.append(Tok(s[i:e], i, e, "id"))
            i = e
            continue
        if c.isdigit():
            e = i + 1
            while e < n and (_is_id(s[e]) or (s[e] == "." and e + 1 < n and s[e + 1].isdigit() and s[e - 1] != ".")):
                e += 1
            out.append(Tok(s[i:e], i, e, "num"))
            i = e
            continue
        out.append(Tok(c, i, i + 1, "p"))
        i += 1
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}


def match_close(toks, i):
    """index of the token closing toks[i] (an opening bracket)."""
    depth = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.kind == "p":
            if t.text in OPEN:
                depth += 1
            elif t.text in CLOSE:
                depth -= 1
                if depth == 0:
                    return j
    raise LexError("unbalanced bracket")
