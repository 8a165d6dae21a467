"""Extracts Rust items from /repo's source and attaches contracts to them (see DESIGN.md, 'The extraction')."""
import re

# ---------------------------------------------------------------- tokens


class Tok:
    __slots__ = ("ws", "t")

    def __init__(self, t, ws=""):
        self.t = t
        self.ws = ws

    def __repr__(self):
        return self.t


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}
_id = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
_num = re.compile(r"[0-9][0-9A-Za-z_]*(?:\.[0-9][0-9A-Za-z_]*)?(?:[eE][+-]?[0-9_]+)?")


class ParseError(Exception):
    pass


def tokenize(s):
    out, i, ws, n = [], 0, "", len(s)
    while i < n:
        c = s[i]
        if c.isspace():
            ws += c
            i += 1
            continue
        if s.startswith("//", i):
            j = s.find("\n", i)
            i = n if j < 0 else j
            continue
        if s.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if s.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif s.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            i = j
            ws += " "
            continue
        m = re.compile(r'b?r(#*)"').match(s, i)
        if m:
            e = s.index('"' + m.group(1), m.end()) + 1 + len(m.group(1))
            out.append(Tok(s[i:e], ws))
            i, ws = e, ""
            continue
        m = _id.match(s, i)
        if m and not (c == "b" and i + 1 < n and s[i + 1] in "\"'"):
            out.append(Tok(m.group(0), ws))
            i, ws = m.end(), ""
            continue
        if c.isdigit():
            m = _num.match(s, i)
            out.append(Tok(m.group(0), ws))
            i, ws = m.end(), ""
            continue
        if c == "'":
            m = re.compile(r"'(\\.[^']*|[^\\'])'").match(s, i)
            if not m:
                m = re.compile(r"'[A-Za-z_][A-Za-z0-9_]*").match(s, i)
            if not m:
                raise ParseError("quote at %d" % i)
            out.append(Tok(m.group(0), ws))
            i, ws = m.end(), ""
            continue
        if c == '"' or (c == "b" and s[i + 1] in "\"'"):
            j = i + (1 if c == '"' else 2)
            q = s[j - 1]
            while s[j] != q:
                j += 2 if s[j] == "\\" else 1
            out.append(Tok(s[i:j + 1], ws))
            i, ws = j + 1, ""
            continue
        out.append(Tok(c, ws))
        i, ws = i + 1, ""
    return out


def render(toks):
    return "".join(t.ws + t.t for t in toks)


def norm(toks):
    """Canonical text of a token list: one blank between words, none elsewhere."""
    r = ""
    for t in toks:
        if r and (r[-1].isalnum() or r[-1] == "_") and (t.t[0].isalnum() or t.t[0] in "_'"):
            r += " "
        r += t.t
    return r


def group_end(toks, i):
    """Index after the group that opens at i."""
    want = [OPEN[toks[i].t]]
    i += 1
    while want:
        if i >= len(toks):
            raise ParseError("unbalanced")
        t = toks[i].t
        if t in OPEN:
            want.append(OPEN[t])
        elif t in CLOSE:
            if t != want.pop():
                raise ParseError("unbalanced")
        i += 1
    return i


def is_lt(toks, i):
    return toks[i].t == "<"


def angle_end(toks, i):
    """Index after the <...> that opens at i (generic parameter lists only)."""
    d = 0
    while True:
        t = toks[i].t
        if t in OPEN:
            i = group_end(toks, i)
            continue
        if t == "<":
            d += 1
        elif t == ">" and not (toks[i - 1].t == "-" and toks[i].ws == ""):
            d -= 1
            if d == 0:
                return i + 1
        i += 1


# ---------------------------------------------------------------- items


class Fn:
    def __init__(self):
        self.name = self.key = ""
        self.quals = []
        self.generics = self.params = self.ret = self.where = self.body = None
        self.attrs = []


class Item:
    def __init__(self, kind):
        self.kind = kind
        self.name = ""
        self.key = ""
        self.attrs = []
        self.toks = []
        self.header = []
        self.members = []
        self.fn = None


def skip_vis(toks, i):
    if toks[i].t == "pub":
        i += 1
        if toks[i].t == "(":
            i = group_end(toks, i)
    return i


def parse_fn(toks, i):
    f = Fn()
    while toks[i].t != "fn":
        f.quals.append(toks[i].t)
        i += 1
        if i < len(toks) and toks[i].t.startswith('"'):
            i += 1
    f.name = toks[i + 1].t
    i += 2
    f.generics = []
    if is_lt(toks, i):
        j = angle_end(toks, i)
        f.generics = toks[i:j]
        i = j
    j = group_end(toks, i)
    f.params = toks[i:j]
    i = j
    f.ret = []
    if toks[i].t == "-":
        i += 2
        j = i
        while toks[j].t not in ("where", "{", ";"):
            j = group_end(toks, j) if toks[j].t in ("(", "[") else j + 1
        f.ret = toks[i:j]
        i = j
    f.where = []
    if toks[i].t == "where":
        j = i + 1
        while toks[j].t not in ("{", ";"):
            j = group_end(toks, j) if toks[j].t in ("(", "[") else j + 1
        f.where = toks[i + 1:j]
        i = j
    if toks[i].t == ";":
        f.body = None
        return f, i + 1
    j = group_end(toks, i)
    f.body = toks[i:j]
    return f, j


def impl_key(header):
    """Key of an impl from the tokens between `impl` and `{`."""
    i = 0
    if header and header[0].t == "<":
        i = angle_end(header, 0)
    w = len(header)
    for k in range(i, len(header)):
        if header[k].t == "where":
            w = k
            break
    core = header[i:w]
    d, f = 0, None
    for k, t in enumerate(core):
        if t.t == "<":
            d += 1
        elif t.t == ">":
            d -= 1
        elif t.t == "for" and d == 0:
            f = k
    if f is None:
        n = norm(core)
        return n.split("<")[0] if not n.startswith("&") else n
    return norm(core[f + 1:]) + " as " + norm(core[:f])


def parse_items(toks, i=0, end=None):
    end = len(toks) if end is None else end
    items = []
    while i < end:
        attrs = []
        while i < end and toks[i].t == "#":
            j = i + 1
            if toks[j].t == "!":
                j += 1
            k = group_end(toks, j)
            attrs.append(norm(toks[j + 1:k - 1]))
            i = k
        if i >= end:
            break
        i = skip_vis(toks, i)
        k = i
        while toks[k].t in ("unsafe", "const", "async", "extern", "default") or toks[k].t.startswith('"'):
            if toks[k].t == "const" and toks[k + 1].t not in ("fn", "unsafe", "async", "extern"):
                break
            k += 1
        w = toks[k].t
        if w == "fn":
            f, j = parse_fn(toks, i)
            it = Item("fn")
            it.fn, it.name, it.attrs = f, f.name, attrs
            f.attrs = attrs
            items.append(it)
            i = j
        elif w in ("impl", "trait"):
            j = k + 1
            while toks[j].t != "{":
                j = group_end(toks, j) if toks[j].t in ("(", "[") else j + 1
            e = group_end(toks, j)
            it = Item(w)
            it.attrs = attrs
            it.header = toks[k + 1:j]
            it.members = parse_items(toks, j + 1, e - 1)
            it.name = impl_key(it.header) if w == "impl" else toks[k + 1].t
            items.append(it)
            i = e
        elif w in ("struct", "enum", "union"):
            j = k + 1
            while toks[j].t not in (";", "{"):
                j = group_end(toks, j) if toks[j].t in ("(", "[") else j + 1
            if toks[j].t == "{":
                e = group_end(toks, j)
            else:
                e = j + 1
            it = Item(w)
            it.attrs, it.name, it.toks = attrs, toks[k + 1].t, toks[k:e]
            items.append(it)
            i = e
        elif w == "mod" and toks[k + 2].t == "{":
            e = group_end(toks, k + 2)
            it = Item("mod")
            it.attrs, it.name, it.toks = attrs, toks[k + 1].t, toks[k:e]
            items.append(it)
            i = e
        else:
            j = k
            while toks[j].t != ";":
                j = group_end(toks, j) if toks[j].t in OPEN else j + 1
            it = Item(w)
            it.attrs, it.toks = attrs, toks[k:j + 1]
            it.name = toks[k + 1].t
            items.append(it)
            i = j + 1
    return items


# ---------------------------------------------------------------- patterns


def parse_pattern(s):
    """Tokens with metavariables: $x matches a balanced, shortest token sequence, $x:id one token."""
    toks = tokenize(s)
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "$":
            name = toks[i + 1].t
            kind = "seq"
            if i + 3 < len(toks) and toks[i + 2].t == ":" and toks[i + 3].t in ("id", "tt") and toks[i + 2].ws == "":
                kind = toks[i + 3].t
                i += 2
            out.append(("$" + name, kind))
            i += 2
        else:
            out.append((toks[i].t, None))
            i += 1
    return out


def match_at(pat, toks, i, end):
    """Returns (end index, bindings) or None."""

    def go(p, i, b):
        while p < len(pat):
            t, kind = pat[p]
            if kind is None:
                if i < end and toks[i].t == t:
                    p, i = p + 1, i + 1
                    continue
                return None
            if t in b:
                seq = [x.t for x in b[t]]
                if [x.t for x in toks[i:i + len(seq)]] == seq:
                    p, i = p + 1, i + len(seq)
                    continue
                return None
            if kind == "id":
                if i < end and re.match(r"[A-Za-z_0-9'\"]", toks[i].t):
                    b = dict(b)
                    b[t] = toks[i:i + 1]
                    p, i = p + 1, i + 1
                    continue
                return None
            j = i
            while True:
                b2 = dict(b)
                b2[t] = toks[i:j]
                r = go(p + 1, j, b2)
                if r:
                    return r
                if j >= end or toks[j].t in CLOSE:
                    return None
                if kind == "tt" and j > i:
                    return None
                j = group_end(toks, j) if toks[j].t in OPEN else j + 1
        return i, b

    return go(0, i, {})


def find(pat, toks, start=0, end=None):
    end = len(toks) if end is None else end
    for i in range(start, end):
        r = match_at(pat, toks, i, end)
        if r:
            return i, r[0], r[1]
    return None


def subst(repl, b):
    """repl is text with $x; returns text. $x~name is x with `self` renamed."""
    def f(m):
        k = "$" + m.group(1)
        if k not in b:
            return m.group(0)
        toks = b[k]
        if m.group(2):
            toks = [Tok(m.group(2)[1:], t.ws) if t.t == "self" else t for t in toks]
        return render(toks).strip()
    return re.sub(r"\$([A-Za-z_][A-Za-z0-9_]*)(~\w+)?", f, repl)


def rewrite(toks, pat, repl):
    n, i, out = 0, 0, []
    while i < len(toks):
        r = match_at(pat, toks, i, len(toks))
        if r and r[0] > i:
            new = tokenize(subst(repl, r[1]))
            if new:
                new[0].ws = toks[i].ws or " "
            out += new
            i = r[0]
            n += 1
        else:
            out.append(toks[i])
            i += 1
    return out, n


# ---------------------------------------------------------------- bodies


def loops(toks):
    """(keyword index, index of the loop body's brace) in source order."""
    out = []
    for i, t in enumerate(toks):
        if t.t in ("for", "while", "loop") and not (i + 1 < len(toks) and t.t == "for" and toks[i + 1].t == "<"):
            j = i + 1
            while toks[j].t != "{":
                j = group_end(toks, j + 1) if toks[j].t == "unsafe" and toks[j + 1].t == "{" else group_end(toks, j) if toks[j].t in ("(", "[") else j + 1
            out.append((i, j))
    return out


def closures(toks):
    """(start, params start, params end, body start, body end) in source order; nested ones included."""
    out = []
    i = 0
    while i < len(toks):
        t = toks[i]
        prev = toks[i - 1].t if i else ""
        if t.t == "|" and prev in ("(", ",", "=", "{", "}", ";", "move", "&", "return") or (
                t.t == "|" and prev == ">" and toks[i - 2].t == "="):
            if prev == "&" and not (toks[i - 2].t in ("(", ",")):
                i += 1
                continue
            # `match` arms with a leading | follow { or , as well, but are not followed by ...| EXPR
            j = i + 1
            while toks[j].t != "|":
                j = group_end(toks, j) if toks[j].t in OPEN else j + 1
            ps, pe = i + 1, j
            j += 1
            if toks[j].t == "{":
                e = group_end(toks, j)
            else:
                e = j
                while toks[e].t not in (",", ";") and toks[e].t not in CLOSE:
                    e = group_end(toks, e) if toks[e].t in OPEN else e + 1
            out.append((i, ps, pe, j, e))
            i = pe + 1
        else:
            i += 1
    return out


def split_top(toks, sep=","):
    parts, cur, i, d = [], [], 0, 0
    while i < len(toks):
        t = toks[i].t
        if t in OPEN:
            j = group_end(toks, i)
            cur += toks[i:j]
            i = j
            continue
        if t == "<":
            d += 1
        elif t == ">" and not (i and toks[i - 1].t in ("-", "=") and toks[i].ws == ""):
            d -= 1
        if t == sep and d == 0:
            parts.append(cur)
            cur = []
        else:
            cur.append(toks[i])
        i += 1
    if cur:
        parts.append(cur)
    return parts
