"""Generates the text given to Verus for a unit: /repo's items, with the contracts of proof/spec/<unit>.vs attached."""
import fnmatch, os, re
import rx
from rx import Tok, render, norm, tokenize


class FnSpec:
    def __init__(self, key):
        self.key = key
        self.ret = "res"
        self.attrs = []
        self.spec = ""
        self.subs = []      # (kind, arg, text)
        self.trust = None
        self.used = False


class ModSpec:
    def __init__(self, name, path):
        self.name, self.path = name, path
        self.uses = self.text = ""
        self.rewrites, self.drops, self.only = [], [], None
        self.items, self.ins, self.fns = {}, {}, {}


def load(path, variant=None):
    """Parses a .vs file. Lines that start with //%NAME count in the variant of that name only, those with //%!NAME in every other."""
    crate, mods, cur, fn = "", [], None, None
    sink = None

    def put(text):
        nonlocal crate
        if sink:
            sink(text)
        elif text.strip():
            raise ValueError("%s: stray text %r" % (path, text))

    lines = []
    for l in open(path).read().split("\n"):
        m = re.match(r"\s*//%(!?)(\w+) ?(.*)$", l)
        if not m:
            lines.append(l)
        elif (m[2] == variant) != bool(m[1]):
            lines.append(m[3])
    i = 0
    while i < len(lines):
        l = lines[i]
        if l.startswith("//!"):
            i += 1
            continue
        m = re.match(r"\s*//@\s*(\w+)\s?(.*)$", l)
        if not m:
            put(l + "\n")
            i += 1
            continue
        d, arg = m.group(1), m.group(2).strip()
        i += 1
        if d == "include":
            c2, m2 = load(os.path.join(os.path.dirname(path), arg), variant)
            crate += c2
            mods += m2
            sink = None
        elif d == "crate":
            def sink(t):
                nonlocal crate
                crate += t
        elif d == "module":
            w = arg.split()
            cur = ModSpec(w[0], w[2] if len(w) > 2 else None)
            mods.append(cur)
            fn, sink = None, None
        elif d == "uses":
            def sink(t, c=cur):
                c.uses += t
        elif d == "text":
            fn = None

            def sink(t, c=cur):
                c.text += t
        elif d == "rewrite":
            a, b = arg.split("==>", 1)
            (fn.subs if fn else cur.rewrites).append(("rewrite", a.strip(), b.strip()) if fn else (a.strip(), b.strip()))
            sink = None
        elif d == "endfn":
            fn, sink = None, None
        elif d == "drop":
            cur.drops += [x.strip() for x in arg.split(";") if x.strip()]
            sink = None
        elif d == "only":
            cur.only = (cur.only or []) + [x.strip() for x in arg.split(";") if x.strip()]
            sink = None
        elif d == "item":
            fn = None
            cur.items[arg] = []

            def sink(t, c=cur.items[arg]):
                if t.strip():
                    c.append(t.strip())
        elif d == "in":
            fn = None

            def sink(t, c=cur.ins, k=arg):
                c[k] = c.get(k, "") + t
        elif d == "fn":
            fn = FnSpec(arg)
            cur.fns[arg] = fn

            def sink(t, f=fn):
                s = t.strip()
                if not f.spec.strip() and s.startswith("ret "):
                    f.ret = s[4:]
                elif not f.spec.strip() and s.startswith("attr "):
                    f.attrs.append(s[5:])
                else:
                    f.spec += t
        elif d == "trust":
            fn.trust = arg or "trusted"
            sink = None
        elif d in ("loop", "closure", "start", "end", "before", "after", "loopstart", "loopend", "replacebody", "afterloop", "beforeloop", "forloop", "tail", "tailbind", "lift"):
            rec = [d, arg, ""]
            fn.subs.append(rec)

            def sink(t, r=rec):
                r[2] += t
        else:
            raise ValueError("%s: unknown directive %s" % (path, d))
    return crate, mods


def raw(text):
    return Tok(text, " ")


class Out:
    def __init__(self):
        self.parts, self.line = [], 1
        self.ranges = []        # (first line, last line, key)

    def put(self, s):
        self.parts.append(s)
        self.line += s.count("\n")

    def text(self):
        return "".join(self.parts)


class Gen:
    def __init__(self, repo, unit_path, contracts_only=(), force_trust=(), variant=None):
        self.repo = repo
        self.crate, self.mods = load(unit_path, variant)
        self.out = Out()
        self.info = {}          # key -> {lost: [...], trust, unlisted, body}
        self.dropped = []       # items left out
        self.lost_items = []
        self.contracts_only = contracts_only
        self.force_trust = force_trust

    def lose(self, key, what):
        self.info[key]["lost"].append(what)

    def run(self):
        o = self.out
        o.put("// generated from %s by proof/gen.py\n#![allow(unused_imports, dead_code, unused_variables, non_camel_case_types, unused_mut, unused_unsafe)]\n" % self.repo)
        o.put("#![feature(core_intrinsics)]\n" if "FEATURE" in self.crate else "")
        o.put("#![verifier::allow(autoderive_clone_without_spec)]\nuse vstd::prelude::*;\nverus! {\n")
        o.put(self.crate)
        for m in self.mods:
            self.module(m)
        o.put("fn main() {}\n}\n")
        return o.text()

    def match(self, pats, key):
        return any(key == p or (("*" in p) and fnmatch.fnmatchcase(key, p.replace("[", "[[]"))) for p in pats)

    def module(self, m):
        o = self.out
        items = []
        if m.path:
            src = os.path.join(self.repo, m.path)
            toks = tokenize(open(src).read())
            for a, b in m.rewrites:
                toks, _ = rx.rewrite(toks, rx.parse_pattern(a), b)
            items = rx.parse_items(toks)
        o.put("pub mod %s {\n%s" % (m.name, m.uses or "use super::*;\n"))
        self.lifted = []
        for it in items:
            self.item(m, it)
        for k, text in self.lifted:
            a = o.line
            o.put(text)
            o.ranges.append((a, o.line, k, "fn"))
        for k in m.fns:
            if not m.fns[k].used:
                self.lost_items.append("%s: no function %s" % (m.name, k))
        o.put("\n// ---- contracts\n")
        start = o.line
        o.put(m.text)
        # ranges of the functions of the contract text
        ls = m.text.split("\n")
        cur = None
        for n, l in enumerate(ls):
            r = re.match(r"\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(?:broadcast\s+)?(?:open\s+|closed\s+)?(?:unsafe\s+)?(?:spec|proof|axiom)?\s*(?:\([a-z]+\)\s*)?fn\s+(\w+)", l)
            if r:
                if cur:
                    o.ranges.append((cur[0], start + n - 1, cur[1], "contract"))
                cur = (start + n, m.name + "::" + r.group(1))
        if cur:
            o.ranges.append((cur[0], start + len(ls), cur[1], "contract"))
        o.put("\n}\n")

    def item(self, m, it):
        o = self.out
        if any("cfg(test)" in a for a in it.attrs):
            return
        if it.kind in ("use", "mod"):
            return
        key = it.name
        if it.kind == "fn":
            if self.match(m.drops, key) or (m.only is not None and not self.match(m.only, key)):
                self.dropped.append(m.name + "::" + key)
                return
            self.fn(m, it.fn, key, True)
            return
        whole = m.only is None or self.match(m.only, key)
        some = it.kind == "impl" and not whole and [p for p in m.only if p.startswith(key + "::")]
        if self.match(m.drops, key) or not (whole or some):
            self.dropped.append(m.name + "::" + key)
            return
        opts = m.items.get(key, [])
        if it.kind in ("impl", "trait"):
            hdr = render(it.header)
            if "noemit" in opts:
                return
            newhdr = [op[7:] for op in opts if op.startswith("header ")]
            totrait = bool(newhdr) and " for " in newhdr[0]
            if newhdr:
                hdr = newhdr[0]
            kept = []
            for mem in it.members:
                k = key + "::" + mem.name
                if self.match(m.drops, k) or (some and not self.match(some, k)) or (m.only is not None and "*" not in key and self.match([p for p in m.only if p.startswith("!")], "!" + k)):
                    self.dropped.append(m.name + "::" + k)
                    continue
                if newhdr and not totrait and mem.kind != "fn":
                    continue
                kept.append((mem, k))
            if it.members and not kept and it.kind == "impl" and not m.ins.get(key):
                return
            for op in opts:
                if op.startswith("attr "):
                    o.put(op[5:] + "\n")
            o.put(("pub trait " if it.kind == "trait" else "impl") + ("" if it.kind == "trait" or hdr[:1] in "< \n" else " ") + hdr.strip() + " {\n" if it.kind == "trait" else "impl" + ("" if hdr.lstrip().startswith("<") else " ") + hdr.strip() + " {\n")
            o.put(m.ins.get(key, ""))
            inherent = it.kind == "impl" and (" as " not in key or bool(newhdr)) and not totrait
            for mem, k in kept:
                if mem.kind == "fn":
                    self.fn(m, mem.fn, k, inherent)
                else:
                    o.put("    " + render(mem.toks).strip() + "\n")
            o.put("}\n")
            return
        # struct, enum, union, type, const
        der = None
        for op in opts:
            if op.startswith("derive "):
                der = op[7:]
            if op.startswith("attr "):
                o.put(op[5:] + "\n")
            if op.startswith("replace "):
                o.put(op[8:] + "\n")
        if any(op.startswith("replace ") for op in opts):
            return
        if der is None:
            ds = []
            for a in it.attrs:
                if a.startswith("derive("):
                    ds += [d for d in a[7:-1].split(",") if d in ("Clone", "Copy")]
            der = ",".join(ds) if "Copy" in ds else ""
        if der:
            o.put("#[derive(%s)]\n" % der)
        o.put("pub " + render(self.pubfields(it)).strip() + "\n")

    def pubfields(self, it):
        t = it.toks
        if it.kind not in ("struct", "union"):
            return t
        out, i = [], 0
        while i < len(t) and t[i].t not in ("{", "("):
            if t[i].t == "where":
                pass
            i += 1
        if i >= len(t):
            return t
        head = t[:i + 1]
        e = rx.group_end(t, i)
        body = t[i + 1:e - 1]
        parts = rx.split_top(body)
        new = []
        for p in parts:
            j = 0
            while j < len(p) and p[j].t == "#":
                j = rx.group_end(p, j + 1)
            p = p[j:]
            if not p:
                continue
            k = rx.skip_vis(p, 0)
            p = p[k:]
            new += [Tok("pub", "\n    ")] + [Tok(p[0].t, " ")] + p[1:] + [Tok(",")]
        return head + new + t[e - 1:]

    # ------------------------------------------------------------ functions

    def fn(self, m, f, key, pub):
        full = m.name + "::" + key
        sp = m.fns.get(key)
        info = {"lost": [], "trust": None, "unlisted": sp is None, "name": f.name,
                "body": norm(f.body) if f.body is not None else None, "line": 0}
        self.info[full] = info
        if sp is None:
            sp = FnSpec(key)
        sp.used = True
        o = self.out
        s = "\n"
        for a in sp.attrs:
            s += "    " + a + "\n"
        mutself = [t.t for t in f.params[1:3]] == ["mut", "self"]
        params = f.params
        if mutself:
            # `mut self` is not accepted: self is moved to a local `this`
            params = f.params[:1] + [Tok("self")] + f.params[3:]
        trust = sp.trust
        if m.name in self.contracts_only and f.body is not None and not trust:
            trust = "proved elsewhere"
            info["elsewhere"] = True
        elif trust:
            info["trust"] = trust
        elif full in self.force_trust:
            trust = "unsupported"
        if trust and f.body is not None:
            s += "    #[verifier::external_body]\n"
        s += "    "
        if pub:
            s += "pub "
        s += "".join(q + " " for q in f.quals) + "fn " + f.name + render(f.generics) + render(named(params))
        if f.ret:
            s += " -> (%s: %s)" % (sp.ret, render(f.ret).strip())
        if f.where:
            s += "\n    where" + render(f.where)
            if not s.rstrip().endswith(","):
                s = s.rstrip() + ","
        s += "\n"
        if sp.spec.strip():
            s += sp.spec.rstrip() + "\n"
        a = o.line
        o.put(s)
        if f.body is None:
            o.put(";\n")
        elif trust:
            o.put("    { unimplemented!() }\n")
        else:
            o.put("   " + render(self.body(full, f, sp)) + "\n")
        info["line"] = a
        o.ranges.append((a, o.line, full, "fn"))

    def body(self, key, f, sp):
        toks = list(f.body)
        if [t.t for t in f.params[1:3]] == ["mut", "self"]:
            toks = [toks[0]] + tokenize(" let mut this = self;") + [Tok("this", t.ws) if t.t == "self" else t for t in toks[1:]]
        # rewrites first: they may change the number of loops and closures
        forbody = set()     # body braces of desugared for loops
        for rec in sp.subs:
            if rec[0] == "rewrite":
                opt = rec[1].startswith("?")
                toks, n = rx.rewrite(toks, rx.parse_pattern(rec[1].lstrip("?")), rec[2])
                if n == 0 and not opt:
                    self.lose(key, "rewrite " + rec[1])
            if rec[0] == "lift":
                # a part of the body (a closure) becomes an item of its own: the text, with the metavariables filled in
                a, b = rec[1].split("==>", 1)
                pat = rx.parse_pattern(a)
                r = rx.find(pat, toks)
                if not r:
                    self.lose(key, "lift " + a)
                else:
                    self.lifted.append((key, rx.subst(rec[2], r[2])))
                    toks, _ = rx.rewrite(toks, pat, b)
            if rec[0] == "replacebody":
                toks = tokenize(rec[2])
            if rec[0] == "forloop":
                # for PAT in EXPR BODY  ->  { let mut NAME = (EXPR).into_iter(); loop { match NAME.next() { Some(PAT) => BODY None => break } } }
                k, name = rec[1].split()
                lp = rx.loops(toks)
                if int(k) >= len(lp) or toks[lp[int(k)][0]].t != "for":
                    self.lose(key, "for loop " + k)
                    continue
                kw, br = lp[int(k)]
                j = kw
                while toks[j].t != "in":
                    j = rx.group_end(toks, j) if toks[j].t in rx.OPEN else j + 1
                e = rx.group_end(toks, br)
                forbody.add(id(toks[br]))
                toks = (toks[:kw] + tokenize(" { let mut %s = (" % name) + toks[j + 1:br] + tokenize(").into_iter(); loop { match %s.next() { Some(" % name)
                        + toks[kw + 1:j] + tokenize(") => ") + toks[br:e] + tokenize(" None => break, } } }") + toks[e:])
        ins = {}        # index -> list of text, inserted before token

        def add(i, text):
            ins.setdefault(i, []).append(text)

        lp = rx.loops(toks)
        cl = rx.closures(toks)
        nl = len({r[1].split()[0] for r in sp.subs if r[0] == "loop"})
        nc = len({r[1].split()[0] for r in sp.subs if r[0] == "closure"})
        if nl != len(lp):
            self.lose(key, "%d loops, %d annotated" % (len(lp), nl))
        closeds = []
        for rec in sp.subs:
            d, arg, text = rec[0], rec[1], rec[2]
            if d in ("rewrite", "replacebody", "forloop", "lift"):
                continue
            if d in ("loop", "loopstart", "loopend", "afterloop", "beforeloop"):
                w = arg.split()
                k = int(w[0])
                if k >= len(lp):
                    self.lose(key, "loop %d" % k)
                    continue
                kw, br = lp[k]
                if d == "loop":
                    if len(w) > 1 and w[1] == "iter":
                        # for PAT in EXPR  ->  for PAT in NAME: EXPR
                        j = kw
                        while toks[j].t != "in":
                            j = rx.group_end(toks, j) if toks[j].t in rx.OPEN else j + 1
                        add(j + 1, " %s:" % w[2])
                    add(br, "\n" + text)
                elif d in ("loopstart", "loopend"):
                    b = next((i for i in range(br, rx.group_end(toks, br)) if id(toks[i]) in forbody), br) if toks[kw].t == "loop" else br
                    add(b + 1 if d == "loopstart" else rx.group_end(toks, b) - 1, "\n" + text)
                elif d == "beforeloop":
                    add(kw, "\n" + text)
                elif d == "afterloop":
                    add(rx.group_end(toks, br), "\n" + text)
            elif d == "closure":
                w = arg.split("|")
                k = int(w[0])
                if k >= len(cl):
                    self.lose(key, "closure %d" % k)
                    continue
                closeds.append((k, w[1].strip() if len(w) > 1 else "", re.sub(r"^->\s*", "", w[2].strip()) if len(w) > 2 else "", text))
            elif d == "start":
                add(1, "\n" + text)
            elif d in ("tail", "tailbind"):
                # before the value the body returns
                j = p = 1
                while j < len(toks) - 1:
                    if toks[j].t in rx.OPEN:
                        br = toks[j].t == "{"
                        j = rx.group_end(toks, j)
                        if br and j < len(toks) - 1 and toks[j].t not in (".", "?", ";", "else", "as", "=", "+", "-", "&", "|", "<", ">", "*", "/"):
                            p = j
                        continue
                    j += 1
                    if toks[j - 1].t == ";":
                        p = j
                if d == "tail":
                    add(p, "\n" + text)
                else:
                    # the value of the body is bound to a name first
                    add(p, "\n        let %s =" % arg)
                    add(len(toks) - 1, ";\n" + text + "        " + arg + "\n")
            elif d == "end":
                add(len(toks) - 1, "\n" + text)
            elif d in ("before", "after"):
                r = None
                n = 1
                a = arg
                mm = re.match(r"#(\d+)\s+(.*)$", a)
                if mm:
                    n, a = int(mm.group(1)), mm.group(2)
                pos = 0
                pat = rx.parse_pattern(a)
                for _ in range(n):
                    r = rx.find(pat, toks, pos)
                    if not r:
                        break
                    pos = r[0] + 1
                if not r:
                    self.lose(key, d + " " + arg)
                    continue
                add(r[0] if d == "before" else r[1], "\n" + text)
        # closures: rebuild parameter lists
        repl = {}
        for k, params, ret, text in closeds:
            st, ps, pe, bs, be = cl[k]
            pats = rx.split_top(toks[ps:pe])
            pl = [p.strip() for p in split_params(params)] if params else []
            names = []
            lets = ""
            plist = []
            if len(pl) != len(pats):
                self.lose(key, "closure %d parameters" % k)
                continue
            for n, (p, pat) in enumerate(zip(pl, pats)):
                # declared parameter is "name: Type"; the source pattern is bound from it
                nm, ty = p.split(":", 1)
                plist.append("%s: %s" % (nm.strip(), ty.strip()))
                src = split_type(pat)
                if not (len(src) == 1 and src[0].t == nm.strip()):
                    lets += "let %s = %s; " % (render(src).strip(), nm.strip())
            repl[st] = (pe, "|%s|" % ", ".join(plist), ret, text, bs, be, lets)
        out, i = [], 0
        ends = {}
        while i < len(toks):
            if i in ends:
                for e in ends.pop(i):
                    out.append(raw(e))
            for t in ins.get(i, []):
                out.append(raw(t))
            if i in repl:
                pe, plist, ret, text, bs, be, lets = repl[i]
                out.append(Tok(plist + " " + ((("-> " + ret) if ret else "") + "\n" + text), toks[i].ws))
                out.append(raw("{ " + lets))
                ends.setdefault(be, []).insert(0, " }")
                i = bs
                continue
            out.append(toks[i])
            i += 1
        if i in ends:
            for e in ends.pop(i):
                out.append(raw(e))
        for t in ins.get(i, []):
            out.append(raw(t))
        return out


def named(params):
    """Names the `_` parameters."""
    out = []
    for i, t in enumerate(params):
        if t.t == "_" and i + 1 < len(params) and params[i + 1].t == ":":
            t = Tok("_p%d" % i, t.ws)
        out.append(t)
    return out


def split_params(s):
    """Splits `a: (X, Y), b: Z` at top-level commas."""
    toks = tokenize(s)
    return [render(p) for p in rx.split_top(toks)]


def split_type(pat):
    """Drops a `: Type` annotation from a closure parameter."""
    i = 0
    while i < len(pat):
        if pat[i].t in rx.OPEN:
            i = rx.group_end(pat, i)
            continue
        if pat[i].t == ":" and not (i + 1 < len(pat) and pat[i + 1].t == ":") and not (i and pat[i - 1].t == ":"):
            return pat[:i]
        i += 1
    return pat
