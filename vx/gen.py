"""Mechanical extraction: unit template (.vu) + current /repo sources -> one Verus file.

Template lines starting with `//@` are directives, everything else is copied.

  //@item KIND KEY from FILE            a struct/enum/const/static/type, visibility and attributes dropped
  //@fn KEY from FILE                   a function; sections until //@end:
  //@:name NEW                          emit it under another name
  //@:ret r                             name the return value
  //@:spec                              text between signature and body
  //@:body                              text at the start of the body
  //@:tail                              text after the tail expression has been bound to the `ret` name
  //@:loop K [iter=NAME]                text between the K-th loop's head and its body
  //@:loop-start K / loop-end K         text inside the K-th loop's body
  //@:loop-before K / loop-after K      text around the K-th loop
  //@:before `TOKENS` [N] / after       text before/after the statement containing the N-th occurrence
  //@:rewrite `TOKENS` => `TEXT`        token rewrite; $x captures a balanced run of tokens
  //@:sigrewrite `TOKENS` => `TEXT`     the same on the signature
  //@:attr TEXT                         attribute lines put before the function
  //@end
  //@include FILE                       another template, relative to units/
  //@global-rewrite `TOKENS` => `TEXT`  for every function that follows
  //@contract KEY from FILE in UNIT     the contract that another unit proves of a function, for callers here
  //@table NAME: TYPE                 a constant data table, about which only well-formedness is known
  //@uncovered KEY                    a trait method that is left to the bounded run
  //@macro-arm NAME = MACRO `TOKENS` [as `SIGNATURE`] from FILE [`REGEX`=>`TEXT`]...   the arm of a macro_rules, as source `macro:NAME` (see macroarm.py);
                         TOKENS occur in its matcher, or with a leading = are the whole of it; with a signature, the arm is an expression and becomes that function's body
  //@features a,b                       cargo features assumed when evaluating #[cfg]
"""
import os
import re
import hashlib
import macroarm
from rustlex import lex, find_items, match_close, skip_generics, eval_cfg, LexError, OPEN, CLOSE

REPO = os.environ.get("VX_REPO", "/repo")
UNITS = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "units")


class Lost(Exception):
    """An item or construct the template needs is no longer in /repo."""


# ------------------------------------------------------------------ token patterns
def _pat(s):
    """$name captures a balanced run, written as one id token __CAP_name"""
    return lex(re.sub(r"\$(\w+)", r" __CAP_\1 ", s))


def match_at(toks, i, pat):
    """Match pattern tokens at toks[i]; returns (end, captures) or None."""
    caps = {}
    j = i
    p = 0
    while p < len(pat):
        pt = pat[p].text
        if pt.startswith("__CAP_"):
            nxt = pat[p + 1].text if p + 1 < len(pat) else None
            s = j
            while j < len(toks):
                t = toks[j].text
                if nxt is not None and t == nxt and j > s:
                    # greedy stop at first depth-0 occurrence that lets the rest match
                    r = match_at(toks, j, pat[p + 1 :])
                    if r is not None:
                        caps[pt[6:]] = (s, j)
                        caps.update(r[1])
                        return r[0], caps
                if t in CLOSE or t == ";":
                    break
                if t in OPEN:
                    j = match_close(toks, j) + 1
                else:
                    j += 1
                if nxt is None:
                    break
            if nxt is not None:
                # empty capture or no match
                if nxt is not None and s < len(toks) and j >= s:
                    r = match_at(toks, j, pat[p + 1 :])
                    if r is not None:
                        caps[pt[6:]] = (s, j)
                        caps.update(r[1])
                        return r[0], caps
                return None
            caps[pt[6:]] = (s, j)
            p += 1
            continue
        if j >= len(toks) or toks[j].text != pt:
            return None
        j += 1
        p += 1
    return j, caps


def find_all(toks, pat, lo=0, hi=None):
    hi = len(toks) if hi is None else hi
    res, i = [], lo
    while i < hi:
        m = match_at(toks, i, pat)
        if m is not None and m[0] <= hi and m[0] > i:
            res.append((i, m[0], m[1]))
            i = m[0]
        else:
            i += 1
    return res


def rewrite(src, pattern, repl):
    """All matches, innermost captures are rewritten by later passes. -> (src, count)"""
    pat = _pat(pattern)
    total = 0
    for _ in range(40):
        toks = lex(src)
        ms = find_all(toks, pat)
        if not ms:
            break
        # replace only the last match per pass, so that offsets stay simple
        i, j, caps = ms[-1]
        text = repl
        for k, (a, b) in caps.items():
            cap = src[toks[a].start : toks[b - 1].end] if b > a else ""
            text = re.sub(r"\$" + k + r"\b", lambda _m: cap, text)
        new = src[: toks[i].start] + "\x01%d\x01" % total + src[toks[j - 1].end :]
        total += 1
        # protect the replacement from being matched again
        STASH.append(text)
        src = new.replace("\x01%d\x01" % (total - 1), "__STASH%d__" % (len(STASH) - 1))
        if total > 200:
            raise Lost("rewrite loop")
    return src, total


STASH = []


def callees(raw):
    """what a body calls: `f`, `T::f`, `.m`, `m!`"""
    toks = lex(raw[raw.index("{") :] if "{" in raw else raw)
    out = set()
    for i, t in enumerate(toks[:-1]):
        if not re.match(r"[a-z_]\w*$", t.text) or t.text in ("if", "while", "match", "for", "in", "return", "fn", "loop", "else", "mut", "ref", "move", "let", "as"):
            continue
        j = i + 1
        if j + 2 < len(toks) and toks[j].text == ":" and toks[j + 1].text == ":" and toks[j + 2].text == "<":
            try:
                j = skip_generics(toks, j + 2)
            except Exception:
                continue
        if j >= len(toks):
            continue
        if toks[j].text == "!" and j + 1 < len(toks) and toks[j + 1].text in ("(", "[", "{"):
            out.add(t.text + "!")
        elif toks[j].text == "(":
            if i > 0 and toks[i - 1].text == ".":
                out.add("." + t.text)
            elif i > 2 and toks[i - 1].text == ":" and toks[i - 3].kind == "id":
                out.add(toks[i - 3].text + "::" + t.text)
            elif i > 1 and toks[i - 1].text == ":":
                out.add("?::" + t.text)
            else:
                out.add(t.text)
    return sorted(out)


def expand_write(src):
    """write!(f, "..{}..{:04X}..", args) as core documents it: its pieces in order, up to the first error."""
    def told(m):
        chars = ", ".join("'%s'" % (c if c != "'" else "\\'") for c in m.group(1))
        return '.write_str({ proof { reveal_strlit("%s"); assert("%s"@ =~= seq![%s]); } "%s" })' % (m.group(1), m.group(1), chars, m.group(1))

    src = re.sub(r'\.write_str\(\s*"([^"\\]+)"\s*\)', told, src)
    count = 0
    while True:
        toks = lex(src)
        k = next((i for i in range(len(toks) - 2) if toks[i].text == "write" and toks[i + 1].text == "!" and toks[i + 2].text == "("), None)
        if k is None:
            return src, count
        e = match_close(toks, k + 2)
        parts, s, d, i = [], k + 3, 0, k + 3
        while i < e:
            if toks[i].text in OPEN:
                i = match_close(toks, i)
            elif toks[i].text == ",":
                parts.append((s, i))
                s = i + 1
            i += 1
        if s < e:
            parts.append((s, e))
        txt = [src[toks[a].start : toks[b - 1].end] for a, b in parts]
        if len(txt) < 2 or not re.fullmatch(r'"[^"\\]*"', txt[1]):
            raise Lost("write! with a format the extraction cannot read: " + src[toks[k].start : toks[e].end])
        f, lit, args, used = txt[0], txt[1][1:-1], txt[2:], 0
        out = ["{ let mut w_: Result<(), FmtError> = Ok(());"]
        pos, buf = 0, ""

        def flush():
            nonlocal buf
            if buf:
                chars = ", ".join("'%s'" % (c if c != "'" else "\\'") for c in buf)
                out.append('if w_.is_ok() { proof { reveal_strlit("%s"); assert("%s"@ =~= seq![%s]); } w_ = %s.write_str("%s"); }' % (buf, buf, chars, f, buf))
            buf = ""

        while pos < len(lit):
            if lit[pos : pos + 2] in ("{{", "}}"):
                buf += lit[pos]
                pos += 2
            elif lit[pos] == "{":
                m = re.match(r"\{([A-Za-z_0-9]*)(?::(?:0(\d+))?(X?))?\}", lit[pos:])
                if not m or (m.group(2) and not m.group(3)):
                    raise Lost("write! with a format the extraction cannot read: " + lit)
                pos += m.end()
                if m.group(1).isdigit():
                    a = args[int(m.group(1))]
                elif m.group(1):
                    a = next((x.split("=", 1)[1] for x in args if re.match(m.group(1) + r"\s*=[^=]", x)), m.group(1))
                else:
                    if used >= len(args):
                        raise Lost("write! with too few arguments: " + lit)
                    a = args[used]
                    used += 1
                flush()
                out.append("if w_.is_ok() { w_ = (%s).%s; }" % (a, "put_hex_(%s, %s)" % (f, m.group(2) or "1") if m.group(3) else "put_(%s)" % f))
            else:
                buf += lit[pos]
                pos += 1
        flush()
        out.append("w_ }")
        src = src[: toks[k].start] + " ".join(out) + src[toks[e].end :]
        count += 1


def unstash(src):
    for _ in range(50):
        n = re.sub(r"__STASH(\d+)__", lambda m: STASH[int(m.group(1))], src)
        if n == src:
            return src
        src = n
    return src


def rewrite_full(src, pattern, repl):
    count = 0
    while True:
        src, n = rewrite(src, pattern, repl)
        count += n
        if n == 0:
            return src, count
        # nested occurrences inside captures: unstash, but a replacement that matches its own
        # pattern would loop for ever
        src = unstash(src)
        if find_all(lex(repl), _pat(pattern)):
            return src, count


# ------------------------------------------------------------------ statements
BLOCKLIKE = {"if", "match", "while", "for", "loop", "unsafe", "{"}


def _block_expr_end(toks, i, hi):
    """toks[i] starts a block-like expression: index after it."""
    t = toks[i]
    if t.kind == "life":
        i += 2  # label and ':'
        t = toks[i]
    if t.text == "{":
        return match_close(toks, i) + 1
    if t.text in ("unsafe", "loop"):
        j = i + 1
    else:
        j = i + 1
        if toks[j].text == "let":
            # the pattern may hold braces; go to the `=` first
            while toks[j].text != "=" or toks[j + 1].text in ("=", ">") :
                if toks[j].text in OPEN:
                    j = match_close(toks, j)
                j += 1
    while toks[j].text != "{":
        if toks[j].text in ("(", "["):
            j = match_close(toks, j)
        j += 1
    j = match_close(toks, j) + 1
    if t.text == "if":
        while j < hi and toks[j].text == "else":
            if toks[j + 1].text == "if":
                return _block_expr_end(toks, j + 1, hi)
            j = match_close(toks, j + 1) + 1
    return j


def split_stmts(toks, lo, hi):
    """Statements in toks[lo:hi] -> list of (start, end, is_tail)."""
    out, i = [], lo
    while i < hi:
        s = i
        while toks[i].text == "#" and toks[i + 1].text == "[":
            i = match_close(toks, i + 1) + 1
        t = toks[i]
        islab = t.kind == "life" and i + 1 < hi and toks[i + 1].text == ":"
        if t.text in BLOCKLIKE or islab:
            j = _block_expr_end(toks, i, hi)
            if j >= hi:
                # only a non-unit block is a tail; the caller decides
                out.append((s, j, True))
                return out
            if toks[j].text in (".", "?"):
                pass
            else:
                if toks[j].text == ";":
                    j += 1
                out.append((s, j, False))
                i = j
                continue
        j = i
        while j < hi and toks[j].text != ";":
            if toks[j].text in OPEN:
                j = match_close(toks, j)
            j += 1
        if j >= hi:
            out.append((s, hi, True))
            return out
        out.append((s, j + 1, False))
        i = j + 1
    return out


def enclosing_stmt(toks, lo, hi, pos):
    """Innermost statement containing token index pos, inside block toks[lo:hi]."""
    best = None
    for s, e, _t in split_stmts(toks, lo, hi):
        if s <= pos < e:
            best = (s, e)
            # descend into brace blocks that hold statements
            k = s
            while k < e:
                if toks[k].text == "{":
                    c = match_close(toks, k)
                    if k < pos < c:
                        prev = toks[k - 1].text if k else ""
                        if _is_block(toks, k):
                            inner = enclosing_stmt(toks, k + 1, c, pos)
                            if inner:
                                return inner
                            return best
                        # a match body: look at the arms
                        k += 1
                        continue
                    k = c
                k += 1
            return best
    return best


def _is_block(toks, k):
    """Is the `{` at k a block of statements (not a match body or a struct literal)?"""
    p = toks[k - 1]
    if p.text in ("else", "loop", "unsafe", ">", ")", ";", "{", "}", "|", "="):
        # `=> {` is a block; `) {` ends an if/while/for/fn head or a match scrutinee
        if p.text == ">" and toks[k - 2].text != "=":
            return _head_kind(toks, k) != "match"
        if p.text in (")",):
            return _head_kind(toks, k) != "match"
        return True
    h = _head_kind(toks, k)
    return h in ("if", "while", "for", "fn")


def _head_kind(toks, k):
    """Walk back from the `{` at k over its head."""
    j = k - 1
    while j >= 0:
        t = toks[j].text
        if t in (")", "]", "}"):
            depth = 0
            while True:
                if toks[j].text in CLOSE:
                    depth += 1
                elif toks[j].text in OPEN:
                    depth -= 1
                    if depth == 0:
                        break
                j -= 1
            if t == "}" and toks[j].text == "{":
                # a previous block: the head starts after it
                return "lit"
            j -= 1
            continue
        if t in ("if", "while", "match", "for", "fn", "loop"):
            return t
        if t in (";", "{", "(", "[", ",", "=") and not (t == "=" and _head_has_let(toks, j)):
            return "lit"
        j -= 1
    return "lit"


def _head_has_let(toks, j):
    k = j - 1
    while k >= 0 and toks[k].text not in (";", "{", "}"):
        if toks[k].text == "let":
            return toks[k - 1].text in ("if", "while")
        if toks[k].text in ("=",):
            return True
        k -= 1
    return toks[j - 1].text in ("=", "!", "<", ">") or toks[j + 1].text == "="


def find_loops(toks, lo, hi):
    """Loops in source order -> (start(with label), keyword, in_idx, brace_open, brace_close)."""
    res = []
    for i in range(lo, hi):
        t = toks[i]
        if t.kind == "id" and t.text in ("while", "for", "loop"):
            if t.text == "for" and toks[i + 1].text == "<":
                continue
            s = i
            if i >= 2 and toks[i - 1].text == ":" and toks[i - 2].kind == "life":
                s = i - 2
            j = i + 1
            in_idx = None
            if t.text == "for":
                while toks[j].text != "in":
                    if toks[j].text in OPEN:
                        j = match_close(toks, j)
                    j += 1
                in_idx = j
            elif t.text == "while" and toks[j].text == "let":
                while toks[j].text != "=":
                    if toks[j].text in OPEN:
                        j = match_close(toks, j)
                    j += 1
            while toks[j].text != "{":
                if toks[j].text in ("(", "["):
                    j = match_close(toks, j)
                j += 1
            res.append((s, t.text, in_idx, j, match_close(toks, j)))
    return res


# ------------------------------------------------------------------ generation
GLOBAL_REWRITES = [
    ("core::char::MAX", "CHAR_MAX_", "char::MAX is the constant U+10FFFF"),
    ("std::char::MAX", "CHAR_MAX_", "char::MAX is the constant U+10FFFF"),
    ("char::MAX", "CHAR_MAX_", "char::MAX is the constant U+10FFFF"),
    ("debug_assert!($c)", "assert!($c)", "debug assertions are obligations"),
    ("debug_assert_eq!($a, $b)", "assert!($a == $b)", "debug assertions are obligations"),
    ("assert_eq!($a, $b)", "assert!($a == $b)", "assertions are obligations"),
    ("assert!($c, $m)", "assert!($c)", "panic messages dropped"),
]


class Unit:
    def __init__(self, name):
        self.name = name
        self.out = []  # text pieces
        self.fns = []  # dicts: key, file, name, start_line, end_line
        self.items = []
        self.rewrites = []  # (fn, pattern, repl, count)
        self.contracts = []  # assumed here, proved in another unit
        self.lost_hints = []
        self.uncovered = set()  # trait methods known to be outside the unit
        self.extra = set()
        self.cache = {}
        self.features = ("std", "default")
        self.grewrites = list(GLOBAL_REWRITES)
        self.line = 1
        self.in_trait_impl = False
        self.arms = {}

    # -- output with line bookkeeping
    def emit(self, text):
        self.out.append(text)
        self.line += text.count("\n")

    def items_of(self, file):
        key = (file, self.features)
        if key not in self.cache and file.startswith("macro:"):
            macro, pattern, path, subst, wrap = self.arms[file[6:]]
            full = os.path.join(REPO, path)
            if not os.path.exists(full):
                raise Lost("file %s is gone" % path)
            with open(full, encoding="utf-8") as f:
                src = f.read()
            try:
                text = macroarm.Arm(src, macro, pattern, subst, wrap).text
                self.cache[key] = (text, find_items(text, path, self.features))
            except (LexError, IndexError, ValueError, StopIteration, macroarm.Unsupported) as e:
                raise Lost("macro %s, arm `%s` in %s: %s" % (macro, pattern, path, e))
        if key not in self.cache:
            path = os.path.join(REPO, file)
            if not os.path.exists(path):
                raise Lost("file %s is gone" % file)
            with open(path, encoding="utf-8") as f:
                src = f.read()
            try:
                self.cache[key] = (src, find_items(src, file, self.features))
            except (LexError, IndexError) as e:
                raise Lost("cannot parse %s: %s" % (file, e))
        return self.cache[key]

    def find(self, kind, key, file):
        src, items = self.items_of(file)
        c = [i for i in items if i.active and (kind is None or i.kind == kind) and i.key() == key]
        if not c:
            raise Lost("%s %s not found in %s" % (kind, key, file))
        if len(c) > 1:
            raise Lost("%s %s is ambiguous in %s" % (kind, key, file))
        return c[0]

    # -- items
    def emit_item(self, kind, key, file, derive=None, external=False, rewrites=()):
        it = self.find(kind, key, file)
        src = it.src
        toks = it.toks
        # visibility off, also on fields; attributes and doc comments off
        cuts = []
        i = 0
        while i < len(toks):
            t = toks[i]
            if t.text == "#" and toks[i + 1].text == "[":
                e = match_close(toks, i + 1)
                cuts.append((t.start, toks[e].end))
                i = e + 1
                continue
            if t.kind == "id" and t.text == "pub":
                e = i
                if toks[i + 1].text == "(":
                    e = match_close(toks, i + 1)
                cuts.append((t.start, toks[e].end))
                i = e + 1
                continue
            i += 1
        a, b = toks[0].start, toks[-1].end
        text = _cut(src, a, b, cuts)
        text = strip_comments(text)
        for p, r, _why in self.grewrites:
            text, n = rewrite_full(text, p, r)
            text = unstash(text)
            if n:
                self.rewrites.append((key, p, r, n))
        for p, r in rewrites:
            text, n = rewrite_full(text, p, r)
            text = unstash(text)
            if n:
                self.rewrites.append((key, p, r, n))
        text = publish(kind, text)
        if derive:
            text = "#[derive(%s)]\n" % derive + text
        self.items.append("%s %s (%s)" % (kind, key, file))
        self.emit(text + "\n")

    # -- an enumerated property declared with char_property!: the enum and its two alias modules,
    #    which is what that macro expands to (unic/char/property/src/macros.rs)
    def emit_property(self, name, file, plain=False):
        src, _ = self.items_of(file)
        toks = [t for t in lex(strip_comments(src))]
        text = strip_comments(src)
        k = None
        for i in range(len(toks) - 3):
            if toks[i].text == "enum" and toks[i + 1].text == name and toks[i + 2].text == "{":
                k = i
                break
        if k is None or not any(toks[j].text == "char_property" for j in range(k)):
            raise Lost("char_property enum %s not found in %s" % (name, file))
        e = match_close(toks, k + 2)
        vs = []
        i = k + 3
        while i < e:
            if toks[i].text == "#":
                i = match_close(toks, i + 1) + 1
            elif toks[i].kind == "id" and toks[i + 1].text == "{":
                c = match_close(toks, i + 1)
                d = {}
                for j in range(i + 2, c):
                    if toks[j].text in ("abbr", "long") and toks[j + 1].text == "=":
                        d[toks[j].text] = toks[j + 3].text
                    if toks[j].text in ("abbr", "long") and toks[j + 1].text == "=>":
                        d[toks[j].text] = toks[j + 2].text
                vs.append((toks[i].text, d["abbr"], d["long"]))
                i = c + 1
            else:
                i += 1
        mods = re.findall(r"pub mod (\w+) for (abbr|long)\s*;", text)
        self.items.append("char_property enum %s (%s)" % (name, file))
        self.emit("#[derive(Clone, Copy%s)]\npub enum %s { %s }\n" % ("" if plain else ", PartialEq, Eq, Structural", name, ", ".join(v[0] for v in vs)))
        for m, which in mods:
            ix = 1 if which == "abbr" else 2
            self.emit("pub mod %s { %s }\n" % (m, " ".join("pub use super::%s::%s as %s;" % (name, v[0], v[ix]) for v in vs)))

    # -- functions
    def emit_fn(self, key, file, secs, closure=None):
        it = self.find("fn", key, file)
        if closure is not None:
            sig = [x for x in secs if x[0] == "sig"][0][1]
            secs = [x for x in secs if x[0] != "sig"]
            raw = sig + " " + closure_body(it, closure)
            key = "%s closure %d" % (key, closure)
            text, info = self.render_fn(it, secs, raw, named=True)
            info["name"] = key
        else:
            text, info = self.render_fn(it, secs)
        start = self.line
        self.emit(text + "\n")
        info["from"] = file
        if file.startswith("macro:"):
            a = self.arms[file[6:]]
            file = "%s (macro %s, arm `%s`)" % (a[2], a[0], a[1])
        info.update(start_line=start, end_line=self.line, key=key, file=file)
        self.fns.append(info)

    def emit_contract(self, key, file, unit):
        """What unit `unit` proves of a function, for its callers: signature from the source, contract from there."""
        it = self.find("fn", key, file)
        with open(os.path.join(UNITS, unit + ".vu"), encoding="utf-8") as f:
            lines = f.read().split("\n")
        i = next(k for k, l in enumerate(lines) if l.strip() == "//@fn %s from %s" % (key, file)) + 1
        secs, cur = [], None
        while lines[i].strip() != "//@end":
            t = lines[i].strip()
            if t.startswith("//@:"):
                p = t[4:].strip().split(None, 1)
                cur = [p[0], p[1] if len(p) > 1 else "", ""]
                if p[0] in ("ret", "spec", "sigrewrite"):
                    secs.append(cur)
            elif cur is not None:
                cur[2] += lines[i] + "\n"
            i += 1
        t = it.toks
        k = next(j for j in range(len(t)) if t[j].text == "fn")
        j = k + 2
        if t[j].text == "<":
            j = skip_generics(t, j)
        j = match_close(t, j) + 1
        while t[j].text != "{":
            if t[j].text in ("(", "["):
                j = match_close(t, j)
            j += 1
        raw = it.src[t[k].start : t[j].start] + "{ unimplemented!() }"
        secs.append(["attr", "#[verifier::external_body] // contract proved in unit " + unit, ""])
        g, self.grewrites, rw = self.grewrites, [], self.rewrites
        text, _ = self.render_fn(it, [tuple(x) for x in secs], raw)
        self.grewrites, self.rewrites = g, rw
        self.contracts.append("%s (unit %s)" % (key, unit))
        self.emit(text + "\n")

    def render_fn(self, it, secs, raw=None, named=False):
        src = it.src
        toks = it.toks
        # skip visibility
        i = 0
        if toks[0].text == "pub":
            i = 1
            if toks[1].text == "(":
                i = match_close(toks, 1) + 1
        if raw is None:
            raw = src[toks[i].start : toks[-1].end]
        raw = strip_attrs(strip_comments(raw))
        opts = {}
        rewrites = []
        sig_rewrites = []
        inserts_req = []
        for s, arg, text in secs:
            if s == "rewrite" or s == "sigrewrite":
                m = re.match(r"`(.*?)`\s*=>\s*`(.*?)`\s*(#.*)?$", arg, re.S)
                if not m:
                    raise SystemExit("bad rewrite: " + arg)
                (rewrites if s == "rewrite" else sig_rewrites).append((m.group(1), m.group(2)))
            elif s in ("name", "ret", "attr", "pub", "format"):
                opts[s] = arg.strip()
            else:
                inserts_req.append((s, arg, text))
        # 1. rewrites on the body, signature apart
        rt = lex(raw)
        k = next(j for j, t in enumerate(rt) if t.text == "fn")
        j = k + 2
        if rt[j].text == "<":
            j = skip_generics(rt, j)
        pclose = match_close(rt, j)
        bo = pclose + 1
        while rt[bo].text != "{":
            if rt[bo].text in ("(", "["):
                bo = match_close(rt, bo)
            bo += 1
        sig = raw[: rt[bo].start].rstrip()
        body = raw[rt[bo].start :]
        if "format" in opts:
            body, n = expand_write(body)
            if n:
                self.rewrites.append((it.key(), "write!($f, LITERAL, $args)", "the pieces of LITERAL in order, $f.write_str for text and put_/put_hex_ for arguments, stopping at the first error", n))
        for p, r in rewrites:
            body, n = rewrite_full(body, p, r)
            body = unstash(body)
            if n:
                self.rewrites.append((it.key(), p, r, n))
        for p, r, _why in self.grewrites:
            body, n = rewrite_full(body, p, r)
            body = unstash(body)
            if n:
                self.rewrites.append((it.key(), p, r, n))
        for p, r in sig_rewrites:
            sig, n = rewrite_full(sig, p, r)
            sig = unstash(sig)
            if n:
                self.rewrites.append((it.key(), p, r, n))
        # 2. signature: return name, new name
        st = lex(sig)
        k = next(j for j, t in enumerate(st) if t.text == "fn")
        name = st[k + 1].text
        j = k + 2
        if st[j].text == "<":
            j = skip_generics(st, j)
        pclose = match_close(st, j)
        edits = []
        if opts.get("name"):
            edits.append((st[k + 1].start, st[k + 1].end, opts["name"]))
            name = opts["name"]
        if opts.get("ret") and not named and pclose + 1 < len(st) and st[pclose + 1].text == "-":
            a = pclose + 3
            b = a
            while b < len(st) and st[b].text != "where":
                if st[b].text in OPEN:
                    b = match_close(st, b)
                b += 1
            edits.append((st[a].start, st[b - 1].end, "(%s: %s)" % (opts["ret"], sig[st[a].start : st[b - 1].end])))
        for a, b, t in sorted(edits, reverse=True):
            sig = sig[:a] + t + sig[b:]
        # by-value `mut` parameters: Verus wants them rebound
        st = lex(sig)
        k = next(j for j, t in enumerate(st) if t.text == "fn") + 2
        if st[k].text == "<":
            k = skip_generics(st, k)
        rebind, cuts = "", []
        for j in range(k, match_close(st, k)):
            if st[j].text == "mut" and st[j - 1].text in ("(", ",") and st[j - 1].kind == "p":
                cuts.append((st[j].start, st[j + 1].start))
                n = st[j + 1].text
                if n == "self":
                    b2 = lex(body)
                    for t in reversed(b2):
                        if t.text == "self":
                            body = body[: t.start] + "vx_self" + body[t.end :]
                    rebind += " let mut vx_self = self;"
                else:
                    rebind += " let mut %s = %s;" % (n, n)
        if cuts:
            sig = _cut(sig, 0, len(sig), cuts)
            body = "{" + rebind + body[1:]
        # 3. insertions into the body
        bt = lex(body)
        assert bt[0].text == "{"
        hi = len(bt) - 1
        loops = find_loops(bt, 1, hi)
        ins = []  # (pos, order, text)
        spec = ""
        order = 0
        nloops, annotated = None, 0
        for s, arg, text in inserts_req:
            order += 1
            try:
                if s == "spec":
                    spec = text
                elif s == "loops":
                    nloops = int(arg)
                elif s == "body":
                    ins.append((bt[0].end, order, "\n" + text))
                elif s == "tail":
                    sts = split_stmts(bt, 1, hi)
                    if not sts or not sts[-1][2]:
                        # a body that ends in a statement: append
                        ins.append((bt[hi].start, order, "\n" + text))
                    else:
                        a, b, _ = sts[-1]
                        r = opts.get("ret", "vx_r")
                        ins.append((bt[a].start, order, "let %s = " % r))
                        ins.append((bt[b - 1].end, order, ";\n%s\n%s\n" % (text, r)))
                elif s.startswith("loop"):
                    parts = arg.split()
                    n = int(parts[0])
                    annotated = max(annotated, n)
                    if n > len(loops):
                        raise Lost("loop %d of %s" % (n, it.key()))
                    ls, kw, in_idx, lo_, lc = loops[n - 1]
                    if s == "loop":
                        ins.append((bt[lo_].start, order, "\n" + text))
                        for o in parts[1:]:
                            if o.startswith("iter=") and in_idx is not None:
                                ins.append((bt[in_idx].end, order, " " + o[5:] + ":"))
                            elif o.startswith("kind=") and o[5:] != kw:
                                raise Lost("loop %d of %s is no longer a %s" % (n, it.key(), o[5:]))
                    elif s == "loop-start":
                        ins.append((bt[lo_].end, order, "\n" + text))
                    elif s == "loop-end":
                        # before a tail expression of the loop body, which is unit anyway
                        ins.append((bt[lc].start, order, "\n" + text))
                    elif s == "loop-before":
                        a = enclosing_stmt(bt, 1, hi, ls)[0]
                        ins.append((bt[a].start, order, text))
                    elif s == "loop-after":
                        ins.append((bt[lc].end, order, "\n" + text))
                    else:
                        raise SystemExit("bad section " + s)
                elif s in ("before", "after"):
                    m = re.match(r"`(.*?)`\s*(\d+)?\s*$", arg, re.S)
                    n = int(m.group(2) or 1)
                    ms = find_all(bt, _pat(m.group(1)), 1, hi)
                    if len(ms) < n:
                        raise Lost("statement `%s` of %s" % (m.group(1), it.key()))
                    st_ = enclosing_stmt(bt, 1, hi, ms[n - 1][0])
                    if st_ is None:
                        raise Lost("statement around `%s` of %s" % (m.group(1), it.key()))
                    a, b = st_
                    if s == "before":
                        ins.append((bt[a].start, order, text))
                    else:
                        ins.append((bt[b - 1].end, order, "\n" + text))
                else:
                    raise SystemExit("unknown section " + s)
            except Lost as e:
                self.lost_hints.append(str(e))
        # a loop no invariant was written for says nothing about what it leaves: no verdict from the proof
        if nloops is None and len(loops) > annotated:
            nloops = annotated
        if nloops is not None and nloops != len(loops):
            self.lost_hints.append("%s has %d loops, expected %d" % (it.key(), len(loops), nloops))
        new = body
        for pos, o, text in sorted(ins, key=lambda x: (x[0], x[1]), reverse=True):
            new = new[:pos] + text + new[pos:]
        out = ""
        if opts.get("attr"):
            out += opts["attr"] + "\n"
        if not self.in_trait_impl:
            out += "pub "
        out += sig + "\n" + (spec + "\n" if spec else "") + new
        info = {
            "calls": callees(raw),
            "name": name,
            "src_sha": hashlib.sha256(src[it.toks[0].start : it.toks[-1].end].encode()).hexdigest()[:16],
            "loops": len(loops),
            "has_spec": bool(spec.strip()) or self.in_trait_impl,
        }
        return out, info

    # -- templates
    def run_template(self, path):
        with open(path, encoding="utf-8") as f:
            lines = f.read().split("\n")
        i = 0
        while i < len(lines):
            ln = lines[i]
            s = ln.strip()
            if not s.startswith("//@"):
                if re.match(r"\s*(unsafe\s+)?impl\b", ln):
                    self.in_trait_impl = bool(re.search(r"\bfor\b", ln))
                elif re.match(r"(mod|trait|struct|spec|proof|\})", ln):
                    self.in_trait_impl = bool(re.match("trait", ln))
                ln = re.sub(r"^(\s*)spec fn", r"\1pub open spec fn", ln)
                ln = re.sub(r"^(\s*)(broadcast )?proof fn", r"\1pub \2proof fn", ln)
                ln = re.sub(r"^mod\b", "pub mod", ln)
                self.emit(ln + "\n")
                i += 1
                continue
            d = s[3:].strip()
            if d.startswith("include "):
                self.run_template(os.path.join(UNITS, d[8:].strip()))
                i += 1
            elif d.startswith("uncovered "):
                self.uncovered.add(d[10:].strip())
                i += 1
            elif d.startswith("features "):
                self.features = tuple(x.strip() for x in d[9:].split(",") if x.strip())
                i += 1
            elif d.startswith("global-rewrite "):
                m = re.match(r"`(.*?)`\s*=>\s*`(.*?)`\s*(#.*)?$", d[15:].strip())
                self.grewrites.insert(0, (m.group(1), m.group(2), (m.group(3) or "")))
                i += 1
            elif d.startswith("item "):
                m = re.match(r"item (\w+) (.+?) from (\S+)(?:\s+derive=(\S+))?((?:\s+rw=`.*?`=>`.*?`)*)\s*$", d)
                if not m:
                    raise SystemExit("bad directive: " + d)
                rws = re.findall(r"rw=`(.*?)`=>`(.*?)`", m.group(5) or "")
                self.emit_item(m.group(1), m.group(2), m.group(3), m.group(4), rewrites=rws)
                i += 1
            elif d.startswith("table "):
                # a data table included into the crate: any well-formed table of that type
                m = re.match(r"table (\w+): (.+)$", d)
                self.emit("pub uninterp spec fn t_%s() -> %s;\n#[verifier::external_body]\npub exec const %s: %s ensures %s == t_%s(), t_%s().wf() { CharDataTable::Direct(&[]) }\n"
                          % (m.group(1), m.group(2), m.group(1), m.group(2), m.group(1), m.group(1), m.group(1)))
                i += 1
            elif d.startswith("macro-arm "):
                m = re.match(r"macro-arm (\w+) = (\w+) `([^`]*)`(?: as `([^`]*)`)? from (\S+)((?:\s+`[^`]*`=>`[^`]*`)*)\s*$", d)
                self.arms[m.group(1)] = (m.group(2), m.group(3), m.group(5), re.findall(r"`([^`]*)`=>`([^`]*)`", m.group(6)), m.group(4))
                i += 1
            elif d.startswith("property "):
                m = re.match(r"property (\w+) from (\S+)( plain)?\s*$", d)
                self.emit_property(m.group(1), m.group(2), bool(m.group(3)))
                i += 1
            elif d.startswith("contract "):
                m = re.match(r"contract (.+) from (\S+) in (\S+)\s*$", d)
                self.emit_contract(m.group(1), m.group(2), m.group(3))
                i += 1
            elif d.startswith("fn ") or d.startswith("closure "):
                m = re.match(r"fn (.+) from (\S+)\s*$", d)
                clo = None
                if not m:
                    m = re.match(r"closure (.+?) (\d+) from (\S+)\s*$", d)
                    clo = int(m.group(2))
                    key, file = m.group(1), m.group(3)
                else:
                    key, file = m.group(1), m.group(2)
                i += 1
                secs, cur = [], None
                while True:
                    t = lines[i].strip()
                    if t == "//@end":
                        i += 1
                        break
                    if t.startswith("//@:"):
                        body = t[4:].strip()
                        p = body.split(None, 1)
                        cur = [p[0], p[1] if len(p) > 1 else "", ""]
                        secs.append(cur)
                    elif cur is None:
                        if t:
                            raise SystemExit("text before a section in " + key)
                    else:
                        cur[2] += lines[i] + "\n"
                    i += 1
                self.emit_fn(key, file, [tuple(x) for x in secs], clo)
            else:
                raise SystemExit("unknown directive: " + d)

    def close(self):
        """A trait impl may override more methods than are under contract: an override added to an impl
        that the unit knows is behaviour the proof does not see."""
        have = {(f["key"].split(" closure ")[0], f["from"]) for f in self.fns}
        for key, file in sorted(have):
            m = re.match(r"(<.* as .*>)::\w+$", key)
            if not m:
                continue
            for it in self.items_of(file)[1]:
                if it.kind == "fn" and it.active and it.owner == m.group(1) and (it.key(), file) not in have \
                        and it.key() not in self.uncovered:
                    self.extra.add("%s (%s) is not under contract" % (it.key(), file))

    def text(self):
        return "".join(self.out)


def publish(kind, text):
    """Visibility is widened: everything is `pub` in the generated file."""
    if kind not in ("struct", "enum", "const", "static", "type"):
        return text
    text = "pub " + text.lstrip()
    if kind == "struct":
        t = lex(text)
        k = next((j for j in range(len(t)) if t[j].text in ("{", "(", ";")), None)
        if t[k].text != ";":
            e = match_close(t, k)
            ins, j, start = [], k + 1, True
            while j < e:
                if start:
                    ins.append(t[j].start)
                    start = False
                x = t[j].text
                if x in OPEN:
                    j = match_close(t, j) + 1
                    continue
                if x == "<":
                    j = skip_generics(t, j)
                    continue
                if x == ",":
                    start = True
                j += 1
            for p in reversed(ins):
                text = text[:p] + "pub " + text[p:]
    return text


def _cut(src, a, b, cuts):
    out, p = "", a
    for s, e in cuts:
        out += src[p:s]
        p = e
    return out + src[p:b]


def strip_comments(text):
    """Comments become blanks (line structure kept)."""
    toks = lex(text)
    out, p = [], 0
    for t in toks:
        gap = text[p : t.start]
        out.append(_blank(gap))
        out.append(t.text)
        p = t.end
    out.append(_blank(text[p:]))
    s = "".join(out)
    return re.sub(r"\n\s*\n+", "\n", s)


def strip_attrs(text):
    """Attributes on statements and blocks go."""
    t = lex(text)
    cuts, i = [], 0
    while i < len(t):
        if t[i].text == "#" and i + 1 < len(t) and t[i + 1].text == "[":
            e = match_close(t, i + 1)
            if t[i + 2].text == "cfg" and not eval_cfg(
                text[t[i + 4].start : t[e - 2].end], set(), set()
            ):
                # a statement compiled out (#[cfg(test)]): it goes with the attribute
                j, control = e + 1, t[e + 1].text in ("for", "while", "loop", "if", "{", "match", "unsafe")
                while j < len(t) and t[j].text not in CLOSE:
                    if t[j].text == ";":
                        break
                    if t[j].text in OPEN:
                        blk = t[j].text == "{"
                        j = match_close(t, j)
                        if control and blk and not (j + 1 < len(t) and t[j + 1].text == "else"):
                            break
                    j += 1
                e = j
            cuts.append((t[i].start, t[e].end))
            i = e
        i += 1
    return _cut(text, 0, len(text), cuts)


def closure_body(it, n):
    t = it.toks
    k = 0
    for i in range(1, len(t)):
        if t[i].text == "|" and t[i - 1].text in ("(", ",", "=", "{", ";", "return", "move") or (
            t[i].text == "|" and t[i - 1].text == ">" and t[i - 2].text == "="
        ):
            j = i + 1
            while t[j].text != "|":
                if t[j].text in OPEN:
                    j = match_close(t, j)
                j += 1
            k += 1
            if k < n:
                continue
            b = j + 1
            if t[b].text == "{":
                e = match_close(t, b)
                return it.src[t[b].start : t[e].end]
            e = b
            while t[e].text not in (",", ";") and t[e].text not in CLOSE:
                if t[e].text in OPEN:
                    e = match_close(t, e)
                e += 1
            return "{ " + it.src[t[b].start : t[e - 1].end] + " }"
    raise Lost("closure %d of %s" % (n, it.key()))


def _blank(gap):
    if "/" not in gap:
        return gap
    nl = gap.count("\n")
    tail = gap[gap.rfind("\n") + 1 :] if nl else ""
    return ("\n" * nl + re.sub(r"\S", " ", tail)) if nl else " "


def generate(unit, probe=False):
    u = Unit(unit)
    u.run_template(os.path.join(UNITS, unit + ".vu"))
    u.close()
    return u


if __name__ == "__main__":
    import sys

    u = generate(sys.argv[1])
    sys.stdout.write(u.text())
    for l in u.lost_hints:
        sys.stderr.write("LOST: %s\n" % l)
