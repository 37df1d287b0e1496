"""A small Rust lexer and item finder, enough to lift whole items out of /repo verbatim."""
import re
from collections import namedtuple

Tok = namedtuple("Tok", "kind text start end")

_IDENT = re.compile(r"[A-Za-z_\u0080-\U0010ffff][A-Za-z0-9_\u0080-\U0010ffff]*")
_NUM = re.compile(r"[0-9][0-9A-Za-z_]*(\.[0-9][0-9A-Za-z_]*)?")
_WS = re.compile(r"\s+")
_LIFE = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*(?!')")
_CHAR = re.compile(r"'(\\x[0-9A-Fa-f]{2}|\\u\{[0-9A-Fa-f_]+\}|\\.|[^\\'])'")
_RAWSTR = re.compile(r'(?:b|c)?r(#*)"')


class LexError(Exception):
    pass


def lex(src):
    """Tokens of src without whitespace and comments."""
    out, i, n = [], 0, len(src)
    while i < n:
        m = _WS.match(src, i)
        if m:
            i = m.end()
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            depth, j = 1, i + 2
            while j < n and depth:
                if src.startswith("/*", j):
                    depth += 1
                    j += 2
                elif src.startswith("*/", j):
                    depth -= 1
                    j += 2
                else:
                    j += 1
            i = j
            continue
        m = _RAWSTR.match(src, i)
        if m:
            close = '"' + m.group(1)
            j = src.find(close, m.end())
            if j < 0:
                raise LexError("raw string")
            j += len(close)
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        c = src[i]
        if c == '"' or (c in "bc" and src.startswith('"', i + 1)):
            j = i + (1 if c == '"' else 2)
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if c == "b" and src.startswith("'", i + 1):
            m = _CHAR.match(src, i + 1)
            if m:
                out.append(Tok("char", src[i : m.end()], i, m.end()))
                i = m.end()
                continue
        if c == "'":
            m = _CHAR.match(src, i)
            if m:
                out.append(Tok("char", m.group(), i, m.end()))
                i = m.end()
                continue
            m = _LIFE.match(src, i)
            if m:
                out.append(Tok("life", m.group(), i, m.end()))
                i = m.end()
                continue
            raise LexError("quote at %d: %r" % (i, src[i : i + 20]))
        m = _IDENT.match(src, i)
        if m:
            out.append(Tok("id", m.group(), i, m.end()))
            i = m.end()
            continue
        m = _NUM.match(src, i)
        if m:
            # `0..5` and `1.max(2)`: the regex only takes a dot followed by a digit
            out.append(Tok("num", m.group(), i, m.end()))
            i = m.end()
            continue
        out.append(Tok("p", c, i, i + 1))
        i += 1
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}


def match_close(toks, i):
    """Index of the token closing the bracket at toks[i]."""
    depth = 0
    for j in range(i, len(toks)):
        t = toks[j]
        if t.kind == "p":
            if t.text in OPEN:
                depth += 1
            elif t.text in CLOSE:
                depth -= 1
                if depth == 0:
                    return j
    raise LexError("unbalanced bracket")


def skip_generics(toks, i):
    """toks[i] is '<': index just after the matching '>'."""
    depth, j = 0, i
    while j < len(toks):
        x = toks[j].text if toks[j].kind == "p" else ""
        if x == "<":
            depth += 1
        elif x == ">":
            if toks[j - 1].text == "-" and toks[j - 1].end == toks[j].start:
                pass  # ->
            else:
                depth -= 1
                if depth == 0:
                    return j + 1
        elif x in OPEN:
            j = match_close(toks, j)
        j += 1
    raise LexError("unbalanced <")


def eval_cfg(text, features, flags):
    """cfg(...) predicate text -> bool. Unknown atoms are false."""
    toks = lex(text)

    def pred(i):
        name = toks[i].text
        if i + 1 < len(toks) and toks[i + 1].text == "(":
            end = match_close(toks, i + 1)
            args, j = [], i + 2
            while j < end:
                v, j = pred(j)
                args.append(v)
                if j < end and toks[j].text == ",":
                    j += 1
            if name == "not":
                return (not args[0]), end + 1
            if name == "all":
                return all(args), end + 1
            if name == "any":
                return any(args), end + 1
            return False, end + 1
        if i + 1 < len(toks) and toks[i + 1].text == "=":
            val = toks[i + 2].text.strip('"')
            return (name == "feature" and val in features), i + 3
        return (name in flags), i + 1

    return pred(0)[0]


class Item:
    __slots__ = ("kind", "name", "owner", "attrs", "start", "end", "toks", "file", "src", "active", "header")

    def key(self):
        return (self.owner + "::" if self.owner else "") + self.name


def norm_owner(toks):
    """`impl<'a> Tr<X> for Ty<'a>` tokens (without `impl` and its generics) -> normal form."""
    txt = []
    depth = 0
    i = 0
    # cut `where`
    cut = len(toks)
    for j, t in enumerate(toks):
        if t.text == "where":
            cut = j
            break
    toks = toks[:cut]
    # split at `for` at angle depth 0
    parts, cur = [], []
    for t in toks:
        if t.text == "<":
            depth += 1
        elif t.text == ">":
            depth -= 1
        if t.kind == "id" and t.text == "for" and depth == 0:
            parts.append(cur)
            cur = []
        else:
            cur.append(t)
    parts.append(cur)

    def show(ts):
        # drop lifetimes, and generic lists left empty by that; drop leading path segments
        s = "".join((" " + t.text if t.kind == "id" and k and ts[k - 1].kind == "id" else t.text)
                    for k, t in enumerate(ts) if t.kind != "life")
        s = re.sub(r"<[,\s]*>", "", s)
        s = re.sub(r"<,+", "<", s)
        s = re.sub(r"\b(\w+::)+(?=\w)", "", s)
        return s.strip()

    if len(parts) == 1:
        return show(parts[0])
    return "<%s as %s>" % (show(parts[1]), show(parts[0]))


ITEM_KW = {"fn", "struct", "enum", "const", "static", "type", "impl", "mod", "trait", "use", "extern", "macro_rules", "union"}


def find_items(src, fname, features=("std", "default"), flags=()):
    toks = lex(src)
    items = []

    def walk(i, end, owner):
        while i < end:
            attrs = []
            start_tok = i
            active = True
            while i < end and toks[i].text == "#" and i + 1 < end and toks[i + 1].text in ("[", "!"):
                k = i + 1
                if toks[k].text == "!":
                    k += 1
                j = match_close(toks, k)
                inner = src[toks[k].end : toks[j].start]
                attrs.append(inner)
                mm = re.match(r"\s*cfg\s*\((.*)\)\s*$", inner, re.S)
                if mm and not eval_cfg(mm.group(1), features, flags):
                    active = False
                i = j + 1
            if i >= end:
                return
            # visibility and qualifiers
            k = i
            if toks[k].text == "pub":
                k += 1
                if k < end and toks[k].text == "(":
                    k = match_close(toks, k) + 1
            vis_end = k
            while k < end and toks[k].text in ("unsafe", "async", "default") or (
                k < end and toks[k].text == "const" and k + 1 < end and toks[k + 1].text in ("fn", "unsafe")
            ) or (k < end and toks[k].text == "extern" and k + 1 < end and toks[k + 1].kind == "str"):
                k += 2 if toks[k].text == "extern" else 1
            if k >= end:
                return
            kw = toks[k].text
            it = Item()
            it.file, it.src, it.owner, it.attrs, it.active = fname, src, owner, attrs, active
            it.start = toks[start_tok].start
            it.header = (start_tok, i, vis_end, k)
            if kw == "fn":
                it.kind, it.name = "fn", toks[k + 1].text
                j = k + 2
                while toks[j].text not in ("{", ";"):
                    if toks[j].text in ("(", "["):
                        j = match_close(toks, j)
                    j += 1
                e = match_close(toks, j) if toks[j].text == "{" else j
                it.toks = toks[i : e + 1]
                it.end = toks[e].end
                items.append(it)
                i = e + 1
            elif kw in ("struct", "enum", "union", "const", "static", "type"):
                it.kind, it.name = kw, toks[k + 1].text
                if it.name == "mut":
                    it.name = toks[k + 2].text
                j = k + 2
                brace_ends = kw in ("struct", "enum", "union")
                while True:
                    t = toks[j].text
                    if t == ";":
                        e = j
                        break
                    if t == "{" and brace_ends:
                        e = match_close(toks, j)
                        break
                    if t in OPEN:
                        j = match_close(toks, j)
                    j += 1
                it.toks = toks[i : e + 1]
                it.end = toks[e].end
                items.append(it)
                i = e + 1
            elif kw in ("impl", "trait"):
                j = k + 1
                if kw == "impl" and toks[j].text == "<":
                    j = skip_generics(toks, j)
                h0 = j
                while toks[j].text not in ("{", ";"):
                    if toks[j].text in ("(", "["):
                        j = match_close(toks, j)
                    j += 1
                if toks[j].text == ";":
                    i = j + 1
                    continue
                e = match_close(toks, j)
                if kw == "impl":
                    own = norm_owner(toks[h0:j])
                else:
                    own = "trait " + toks[h0].text
                it.kind, it.name = kw, own
                it.toks = toks[i : e + 1]
                it.end = toks[e].end
                items.append(it)
                if active:
                    walk(j + 1, e, own)
                i = e + 1
            elif kw == "mod":
                it.kind, it.name = "mod", toks[k + 1].text
                j = k + 2
                if toks[j].text == ";":
                    i = j + 1
                    continue
                e = match_close(toks, j)
                if active and not (it.name in ("tests", "test")):
                    walk(j + 1, e, owner)
                i = e + 1
            elif kw == "use" or (kw == "extern" and toks[k + 1].text == "crate"):
                j = k
                while toks[j].text != ";":
                    j = match_close(toks, j) + 1 if toks[j].text in OPEN else j + 1
                i = j + 1
            else:
                # macro invocation or something unknown: skip to `;` or a closing brace
                j = k
                while j < end and toks[j].text not in (";", "{"):
                    if toks[j].text in ("(", "["):
                        j = match_close(toks, j)
                    j += 1
                if j < end and toks[j].text == "{":
                    e = match_close(toks, j)
                    if kw == "macro_rules" or toks[k + 1].text == "!":
                        it.kind, it.name = "macro", "".join(t.text for t in toks[k:j])
                        it.toks = toks[i : e + 1]
                        it.end = toks[e].end
                        items.append(it)
                    j = e
                i = j + 1

    walk(0, len(toks), "")
    return items
