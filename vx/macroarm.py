"""Mechanical extraction of a macro_rules arm as ordinary items.

The transcriber of the arm whose matcher contains a given token sequence is taken as Rust text, with
  * `$crate::` dropped and `$name` metavariables replaced as the template says,
  * each repetition `$( ... )*` turned into a loop over a symbolic list of rows `rows_`, a row having one field per
    repeated metavariable: inside `match` (arms tried in order), inside `&[ ... ]` (a vector filled in order), and in the
    argument list of a nested invocation of the same macro (a function `NAME_rows` that gives those rows in order; `NAME_args` when
    what is passed on is not repeated).
Attributes, and the declarations of the enum and of its alias modules, are dropped. Nothing else is changed; any other use of a repetition is not supported and is reported as lost.
An arm that is an expression becomes the body of a function the template declares, of its metavariables.
"""
import re
from rustlex import lex, match_close


class Unsupported(Exception):
    pass


def _txt(src, toks, i, j):
    return src[toks[i].start : toks[j - 1].end] if j > i else ""


def find_arm(src, macro, pattern):
    toks = lex(src)
    pat = [t.text for t in lex(pattern)]
    for i in range(len(toks) - 3):
        if toks[i].text == "macro_rules" and toks[i + 2].text == macro:
            b = i + 3
            e = match_close(toks, b)
            j = b + 1
            while j < e:
                m = match_close(toks, j)
                k = m + 1
                while toks[k].text not in ("{", "("):  # =>
                    k += 1
                be = match_close(toks, k)
                ms = [t.text for t in toks[j + 1 : m]]
                if ms == pat[1:] if pat[:1] == ["="] else any(ms[x : x + len(pat)] == pat for x in range(len(ms))):
                    return src[toks[k].end : toks[be].start]
                j = be + 1
                if j < e and toks[j].text == ";":
                    j += 1
    raise Unsupported("no arm with `%s` in macro %s" % (pattern, macro))


def is_rep(toks, i):
    return toks[i].text == "$" and i + 1 < len(toks) and toks[i + 1].text == "("


def rep_end(toks, i):
    """(close paren, end) of the repetition at i: `$( ... ) sep? *`"""
    c = match_close(toks, i + 1)
    k = c + 1
    if toks[k].text not in ("*", "+", "?"):
        k += 1
    if toks[k].text not in ("*", "+"):
        raise Unsupported("repetition operator")
    return c, k + 1


def rows(text):
    text = re.sub(r"stringify\s*!\s*\(\s*\$(\w+)\s*\)", r"row_.\1", text)
    return re.sub(r"\$(\w+)", r"row_.\1", text)


LOOP = "{ let mut k_: usize = 0; while k_ < rows_.len() { let row_ = &rows_[k_]; %s k_ += 1; } }"


class Arm:
    def __init__(self, src, macro, pattern, subst, wrap=None):
        self.macro = macro
        body = find_arm(src, macro, pattern)
        body = re.sub(r"\$\s*crate\s*::", "", body)
        self.subst = subst
        self.variant = None
        for a, b in subst:
            body = re.sub(a, b, body)
        if wrap:  # the arm is an expression: it becomes the body of a function of its metavariables
            if "$" in body:
                raise Unsupported("a repetition in an expression")
            self.text = "%s {%s}" % (wrap, body)
            return
        body = self.declarations(body)
        body = self.nested(body)
        body = self.reps(body)
        if re.search(r"\$\s*\(", body):
            raise Unsupported("a repetition outside a match, a list or a nested invocation")
        self.text = body

    # attributes that are passed on, and the declarations of the enum and its alias modules: dropped
    def declarations(self, body):
        while True:
            toks = lex(body)
            for i in range(len(toks)):
                if is_rep(toks, i) and toks[i + 2].text == "#":
                    e = rep_end(toks, i)[1] - 1
                    break
                if toks[i].text in ("enum", "mod"):
                    e = i
                    while toks[e].text != "{":
                        e += 1
                    e = match_close(toks, e)
                    i -= i > 0 and toks[i - 1].text == "pub"
                    break
            else:
                return body
            body = body[: toks[i].start] + body[toks[e].end :]

    # nested invocations of the same macro: dropped, their rows become a function
    def nested(self, body):
        out, fns, pos = [], [], 0
        toks = lex(body)
        i = 0
        while i < len(toks):
            if toks[i].text == self.macro and toks[i + 1].text == "!":
                e = match_close(toks, i + 2)
                if any(toks[j].text == "=>" or (toks[j].text == "=" and toks[j + 1].text == ">") for j in range(i, e)):
                    fns.append(self.rows_fn(body, toks, i + 3, e))
                elif any(toks[j].text == ";" for j in range(i, e)):
                    fns.append(self.args_fn(body, toks, i + 3, e))
                out.append(body[pos : toks[i].start])
                pos = toks[e].end
                i = e + 1
                continue
            i += 1
        out.append(body[pos:])
        return "".join(out) + "\n" + "\n".join(fns)

    # `HEAD; A; B; C;`: what is passed on, in order
    def args_fn(self, body, toks, i, e):
        parts, s = [], i
        for j in range(i, e):
            if toks[j].text == ";":
                parts.append(_txt(body, toks, s, j))
                s = j + 1
        name = [t.text for t in lex(parts[0])][1]
        return "fn %s_args() -> Args { let mut v_ = Vec::new(); %s v_ }" % (name, " ".join("v_.push(%s);" % x for x in parts[1:]))

    def rows_fn(self, body, toks, i, e):
        # head up to the first `;`
        head = i
        while toks[i].text != ";":
            i += 1
        names = [t.text for t in toks[head:i]]
        i += 1
        code = []

        def entries(i, e, f):
            res = []
            while i < e:
                s = i
                while i < e and toks[i].text != ";":
                    i = match_close(toks, i) + 1 if toks[i].text in ("(", "[", "{") else i + 1
                t = _txt(body, toks, s, i)
                a, b = re.split(r"\s*=>\s*", t, maxsplit=1)
                res.append("v_.push(IdRow { id: %s, value: %s });" % (f(a), f(b)))
                i += 1
            return res

        while i < e:
            if is_rep(toks, i):
                c, nxt = rep_end(toks, i)
                code.append(LOOP % " ".join(entries(i + 2, c, rows)))
                i = nxt
            else:
                s = i
                while i < e and toks[i].text != ";":
                    i = match_close(toks, i) + 1 if toks[i].text in ("(", "[", "{") else i + 1
                a, b = re.split(r"\s*=>\s*", _txt(body, toks, s, i), maxsplit=1)
                code.append("v_.push(IdRow { id: %s, value: %s });" % (a, b))
                i += 1
        return "fn %s_rows() -> Rows { let mut v_ = Vec::new(); %s v_ }" % (names[1], "\n".join(code))

    def reps(self, body):
        while True:
            toks = lex(body)
            hit = None
            for i in range(len(toks)):
                if toks[i].text == "match":
                    j = i + 1
                    while toks[j].text != "{":
                        j = match_close(toks, j) + 1 if toks[j].text in ("(", "[") else j + 1
                    e = match_close(toks, j)
                    if any(is_rep(toks, x) for x in range(j, e)):
                        hit = (i, e, self.match(body, toks, i, j, e))
                        break
                if toks[i].text == "&" and toks[i + 1].text == "[" and is_rep(toks, i + 2):
                    e = match_close(toks, i + 1)
                    c, nxt = rep_end(toks, i + 2)
                    if nxt != e:
                        raise Unsupported("a list with more than one repetition")
                    last = c - 1 if toks[c - 1].text == "," else c
                    hit = (i, e, "{ let mut v_ = Vec::new(); %s v_ }" % (LOOP % ("v_.push(%s);" % rows(_txt(body, toks, i + 4, last)))))
                    break
            if hit is None:
                return body
            i, e, text = hit
            body = body[: toks[i].start] + text + body[toks[e].end :]

    def match(self, body, toks, i, j, e):
        subject = _txt(body, toks, i + 1, j)
        code = ["let m_ = %s;" % subject]
        x = j + 1
        done = False
        while x < e:
            if is_rep(toks, x):
                c, nxt = rep_end(toks, x)
                arm = _txt(body, toks, x + 2, c).rstrip().rstrip(",")
                code.append(LOOP % rows(self.arm(arm)))
                x = nxt
                continue
            s = x
            while x < e and toks[x].text != ",":
                x = match_close(toks, x) + 1 if toks[x].text in ("(", "[", "{") else x + 1
            pat, val = re.split(r"\s*=>\s*", _txt(body, toks, s, x), maxsplit=1)
            if pat.strip() != "_":
                raise Unsupported("an arm that is neither repeated nor `_`")
            code.append("return %s;" % val)
            done = True
            x += 1
        if not done:
            code.append("return unreached_();")
        return "{ %s }" % "\n".join(code)

    def arm(self, arm):
        pat, val = re.split(r"\s*=>\s*", arm, maxsplit=1)
        m = re.match(r"\s*(\w+)\s+if\s+(.*)$", pat, re.S)
        if m:
            return "{ let %s = m_; if %s { return %s; } }" % (m.group(1), m.group(2), val)
        m = re.match(r"\s*((?:\w+\s*::\s*)?\$?\w+(?:\s*::\s*\$\w+)?)\s*$", pat)
        if not m:
            raise Unsupported("pattern `%s`" % pat)
        return "if pat_(m_, %s) { return %s; }" % (m.group(1), val)
