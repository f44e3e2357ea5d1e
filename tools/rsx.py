"""rsx: a small Rust source reader used to lift functions out of /repo mechanically.

It tokenises a Rust file (comments, strings, raw strings, chars and lifetimes are
recognised), finds items (fn, struct, enum, impl, const, type, trait, mod), and offers the
handful of token-level rewrites that the verification templates use.  It knows nothing
about any particular function.
"""

import re


class Tok:
    __slots__ = ("k", "s", "a", "b")

    def __init__(self, k, s, a, b):
        self.k, self.s, self.a, self.b = k, s, a, b

    def __repr__(self):
        return f"{self.k}:{self.s!r}"


IDENT0 = re.compile(r"[A-Za-z_]")
IDENT = re.compile(r"(?:r#)?[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(
    r"0[xob][0-9a-fA-F_]+(?:[ui](?:8|16|32|64|128|size))?"
    r"|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9_]+)?(?:_?(?:[ui](?:8|16|32|64|128|size)|f32|f64))?"
)
PUNCT3 = ("<<=", ">>=", "...", "..=")
PUNCT2 = ("::", "->", "=>", "==", "!=", "<=", ">=", "&&", "||", "+=", "-=", "*=", "/=",
          "%=", "^=", "&=", "|=", "..", "<<")  # '>>' stays split: generics


class SourceError(Exception):
    pass


def tokenize(src):
    """Tokens without whitespace and comments."""
    out, i, n = [], 0, len(src)
    while i < n:
        c = src[i]
        if c.isspace():
            i += 1
            continue
        if src.startswith("//", i):
            j = src.find("\n", i)
            i = n if j < 0 else j
            continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while j < n and d:
                if src.startswith("/*", j):
                    d, j = d + 1, j + 2
                elif src.startswith("*/", j):
                    d, j = d - 1, j + 2
                else:
                    j += 1
            i = j
            continue
        m = re.compile(r'(?:b|c|br|cr|r)(#*)"').match(src, i)
        if m and "r" in src[i:m.end()]:
            end = src.find('"' + m.group(1), m.end())
            j = end + 1 + len(m.group(1))
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if c == '"' or (c in "bc" and src[i + 1:i + 2] == '"'):
            j = i + (1 if c == '"' else 2)
            while j < n and src[j] != '"':
                j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("str", src[i:j], i, j))
            i = j
            continue
        if c == "'" or (c == "b" and src[i + 1:i + 2] == "'"):
            k = i + (1 if c == "'" else 2)
            if src[k] == "\\":
                j = src.find("'", k + 2)
                j += 1
                out.append(Tok("chr", src[i:j], i, j))
                i = j
                continue
            if k + 1 < n and src[k + 1] == "'":
                out.append(Tok("chr", src[i:k + 2], i, k + 2))
                i = k + 2
                continue
            m = IDENT.match(src, k)
            if m and c == "'":
                out.append(Tok("life", src[i:m.end()], i, m.end()))
                i = m.end()
                continue
            # multi-byte char literal
            j = src.find("'", k) + 1
            out.append(Tok("chr", src[i:j], i, j))
            i = j
            continue
        m = IDENT.match(src, i)
        if m:
            out.append(Tok("id", m.group(0), i, m.end()))
            i = m.end()
            continue
        if c.isdigit():
            m = NUM.match(src, i)
            s = m.group(0)
            # `0..5` must not be read as a float
            if ".." in src[i:m.end() + 1] and s.endswith("."):
                s = s[:-1]
            out.append(Tok("num", s, i, i + len(s)))
            i += len(s)
            continue
        for p in (3, 2):
            if src[i:i + p] in (PUNCT3 if p == 3 else PUNCT2):
                out.append(Tok("p", src[i:i + p], i, i + p))
                i += p
                break
        else:
            out.append(Tok("p", c, i, i + 1))
            i += 1
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {v: k for k, v in OPEN.items()}


def match_close(t, i):
    """Index of the token closing the bracket at t[i]."""
    d, j = 0, i
    while j < len(t):
        if t[j].k == "p":
            if t[j].s in OPEN:
                d += 1
            elif t[j].s in CLOSE:
                d -= 1
                if d == 0:
                    return j
        j += 1
    raise SourceError("unbalanced bracket")


def skip_angles(t, i):
    """t[i] is '<': index just past the matching '>'."""
    d, j = 0, i
    while j < len(t):
        s = t[j].s
        if t[j].k == "p":
            if s in OPEN:
                j = match_close(t, j)
            elif s == "<":
                d += 1
            elif s == "<<":
                d += 2
            elif s == ">":
                d -= 1
                if d == 0:
                    return j + 1
        j += 1
    raise SourceError("unbalanced <>")


class Item:
    """kind, name, text span [a,b), attrs text, and for impl/mod/trait: children."""

    def __init__(self, src, kind, name, a, b, attrs, toks, path="", impl_ty=None, impl_trait=None):
        self.src, self.kind, self.name, self.a, self.b = src, kind, name, a, b
        self.attrs, self.toks, self.path = attrs, toks, path
        self.impl_ty, self.impl_trait = impl_ty, impl_trait
        self.children = []

    @property
    def text(self):
        return self.src[self.a:self.b]

    @property
    def line(self):
        return self.src.count("\n", 0, self.a) + 1


ITEM_KW = ("fn", "struct", "enum", "union", "impl", "trait", "mod", "const", "static", "type",
           "use", "extern", "macro_rules")
MODIFIERS = ("pub", "unsafe", "async", "default", "extern", "const", "safe")


def parse_items(src, t, i, end, path=""):
    items = []
    while i < end:
        start = i
        attrs = []
        while i < end and t[i].s == "#":
            j = i + 1
            if t[j].s == "!":
                j += 1
            j = match_close(t, j)
            attrs.append(src[t[i].a:t[j].b])
            i = j + 1
        if i >= end:
            break
        body_start = i
        # visibility and modifiers
        while i < end and t[i].s in MODIFIERS:
            if t[i].s == "pub" and t[i + 1].s == "(":
                i = match_close(t, i + 1) + 1
                continue
            if t[i].s == "const" and t[i + 1].s not in ("fn", "unsafe", "async", "extern"):
                break
            if t[i].s == "extern":
                if t[i + 1].k == "str" and t[i + 2].s == "fn":
                    i += 2
                    continue
                if t[i + 1].s == "fn":
                    i += 1
                    continue
                break
            i += 1
        kw = t[i].s
        a = t[body_start].a
        if kw == "fn":
            name = t[i + 1].s
            j = i + 2
            if t[j].s == "<":
                j = skip_angles(t, j)
            j = match_close(t, j) + 1  # params
            while t[j].s not in ("{", ";"):
                if t[j].s in OPEN:
                    j = match_close(t, j)
                elif t[j].s == "<":
                    j = skip_angles(t, j) - 1
                j += 1
            e = match_close(t, j) if t[j].s == "{" else j
            it = Item(src, "fn", name, a, t[e].b, attrs, t[body_start:e + 1], path)
            items.append(it)
            i = e + 1
        elif kw in ("struct", "enum", "union"):
            name = t[i + 1].s
            j = i + 2
            while t[j].s not in ("{", ";"):
                if t[j].s in OPEN:
                    j = match_close(t, j)
                elif t[j].s == "<":
                    j = skip_angles(t, j) - 1
                j += 1
            e = match_close(t, j) if t[j].s == "{" else j
            items.append(Item(src, kw, name, a, t[e].b, attrs, t[body_start:e + 1], path))
            i = e + 1
        elif kw in ("impl", "trait"):
            j = i + 1
            while t[j].s != "{":
                if t[j].s in OPEN:
                    j = match_close(t, j)
                elif t[j].s == "<":
                    j = skip_angles(t, j) - 1
                j += 1
            e = match_close(t, j)
            if kw == "impl":
                ty, tr = impl_names(t[i + 1:j])
                name = ty
            else:
                name, ty, tr = t[i + 1].s, None, None
            it = Item(src, kw, name, a, t[e].b, attrs, t[body_start:e + 1], path, ty, tr)
            it.header = src[a:t[j].a]
            it.children = parse_items(src, t, j + 1, e, path)
            items.append(it)
            i = e + 1
        elif kw == "mod":
            name = t[i + 1].s
            if t[i + 2].s == ";":
                i += 3
                continue
            e = match_close(t, i + 2)
            it = Item(src, "mod", name, a, t[e].b, attrs, t[body_start:e + 1], path)
            it.children = parse_items(src, t, i + 3, e, path + name + "::")
            items.append(it)
            i = e + 1
        elif kw == "macro_rules":
            j = i + 3
            e = match_close(t, j)
            items.append(Item(src, "macro_rules", t[i + 2].s, a, t[e].b, attrs, t[body_start:e + 1], path))
            i = e + 1
            if i < end and t[i].s == ";":
                i += 1
        elif kw in ("const", "static", "type", "use"):
            name = t[i + 1].s if t[i + 1].s != "mut" else t[i + 2].s
            j = i + 1
            while t[j].s != ";":
                if t[j].s in OPEN:
                    j = match_close(t, j)
                j += 1
            items.append(Item(src, kw, name, a, t[j].b, attrs, t[body_start:j + 1], path))
            i = j + 1
        elif kw == "extern":
            j = i + 1
            while t[j].s not in ("{", ";"):
                j += 1
            e = match_close(t, j) if t[j].s == "{" else j
            items.append(Item(src, "extern", "", a, t[e].b, attrs, t[body_start:e + 1], path))
            i = e + 1
        else:
            # macro invocation at item level, or something unknown: skip to ; or block end
            j = i
            while j < end and t[j].s not in (";", "{"):
                if t[j].s in OPEN:
                    j = match_close(t, j)
                j += 1
            if j < end and t[j].s == "{":
                j = match_close(t, j)
            i = j + 1
        if i <= start:
            i = start + 1
    return items


def base_name(toks):
    """Last path segment of the type spelled by toks, generics dropped."""
    name, d = None, 0
    j = 0
    while j < len(toks):
        if toks[j].s == "<":
            if name is None:  # qualified path, unusual
                j += 1
                continue
            break
        if toks[j].k == "id" and toks[j].s not in ("dyn", "mut", "crate", "super", "self"):
            name = toks[j].s
        if toks[j].s in ("[", "("):
            name = name or "".join(x.s for x in toks)
            break
        j += 1
    return name


def impl_names(toks):
    j = 0
    if toks and toks[0].s == "<":
        j = skip_angles(toks, 0)
    k, split, stop = j, None, len(toks)
    while k < len(toks):
        if toks[k].s == "<":
            k = skip_angles(toks, k)
            continue
        if toks[k].s in OPEN:
            k = match_close(toks, k) + 1
            continue
        if toks[k].s == "for" and k + 1 < len(toks) and toks[k + 1].s != "<":
            split = k
        if toks[k].s == "where":
            stop = k
            break
        k += 1
    if split is not None:
        tr = toks[j:split]
        return base_name(toks[split + 1:stop]), "".join(
            (x.s + (" " if x.k == "id" and x.s in ("dyn", "mut") else "")) for x in tr)
    return base_name(toks[j:stop]), None


def is_test_only(attrs):
    for a in attrs:
        s = re.sub(r"\s+", "", a)
        if s in ("#[cfg(test)]", "#[test]"):
            return True
    return False


class File:
    def __init__(self, text):
        self.src = text
        self.toks = tokenize(text)
        self.items = parse_items(text, self.toks, 0, len(self.toks))

    def walk(self, items=None, in_test=False):
        for it in items if items is not None else self.items:
            test = in_test or is_test_only(it.attrs)
            if not test:
                yield it
            if it.kind in ("mod",) and not test:
                yield from self.walk(it.children, test)

    def find(self, kind, name):
        c = [x for x in self.walk() if x.kind == kind and x.name == name]
        if not c:
            raise SourceError(f"no {kind} {name}")
        return c[0]

    def find_fn(self, spec):
        """'name', 'Type::name' or 'Trait for Type::name' (Trait without spaces)."""
        trait = None
        if " for " in spec:
            trait, spec = spec.split(" for ")
            trait = re.sub(r"\s+", "", trait)
        if "::" in spec:
            ty, name = spec.rsplit("::", 1)
        else:
            ty, name = None, spec
        found = []
        if ty is None:
            found = [x for x in self.walk() if x.kind == "fn" and x.name == name]
        else:
            for im in self.walk():
                if im.kind == "impl" and im.impl_ty == ty:
                    tr = im.impl_trait
                    if trait is not None:
                        if tr is None or (tr != trait and tr.split("::")[-1] != trait):
                            continue
                    elif tr is not None:
                        continue
                    for c in im.children:
                        if c.kind in ("fn", "const", "type") and c.name == name and not is_test_only(c.attrs):
                            c.impl = im
                            found.append(c)
        if not found and trait is not None:
            # the trait's default method, which this impl does not override
            base = re.sub(r"<.*", "", trait)
            if any(im.kind == "impl" and im.impl_ty == ty and im.impl_trait and
                   im.impl_trait.split("::")[-1] == trait for im in self.walk()):
                for tr in self.walk():
                    if tr.kind == "trait" and tr.name == base:
                        found = [c for c in tr.children if c.kind == "fn" and c.name == name and "{" in c.text]
        if not found:
            raise SourceError(f"no fn {spec}" + (f" of trait {trait}" if trait else ""))
        return found[0]


# ---------------------------------------------------------------- rewriting

LOG_MACROS = {"trace", "debug", "info", "warn", "error", "ringbench", "ringbenchx"}


def splice(src, edits):
    """Apply non-overlapping (a, b, text) edits; an edit nested in another is dropped."""
    out, pos = [], 0
    for a, b, s in sorted(edits, key=lambda e: (e[0], -e[1])):
        if a < pos:
            continue
        out.append(src[pos:a])
        out.append(s)
        pos = b
    out.append(src[pos:])
    return "".join(out)


def split_args(src, t, i, j):
    """Texts of the comma-separated arguments between brackets t[i] and t[j]."""
    args, k, s = [], i + 1, i + 1
    while k < j:
        if t[k].s in OPEN:
            k = match_close(t, k)
        elif t[k].s == "," :
            args.append(src[t[s].a:t[k - 1].b] if k > s else "")
            s = k + 1
        elif t[k].s == "|" :
            # closure parameter list: skip to its closing bar
            m = k + 1
            while m < j and t[m].s != "|":
                if t[m].s in OPEN:
                    m = match_close(t, m)
                m += 1
            # only when it looks like a closure head
            if t[k - 1].s in ("(", ",", "=", "move"):
                k = m
        k += 1
    if s < j:
        args.append(src[t[s].a:t[j - 1].b])
    return args


def once(src, fn):
    """Run rewriting pass fn(src, toks) -> edits until there is nothing left to rewrite."""
    for _ in range(200):
        t = tokenize(src)
        e = fn(src, t)
        if not e:
            return src
        src = splice(src, e)
    raise SourceError("rewrite does not terminate")


def pass_macros(src, t):
    """log!(..) out; assert!/panic!/anyhow! to functions under contract."""
    for i in range(len(t) - 2):
        if t[i].k == "id" and t[i + 1].s == "!" and t[i + 2].s in OPEN:
            name = t[i].s
            j = match_close(t, i + 2)
            st = i
            if i >= 2 and t[i - 1].s == "::" and t[i - 2].s == "log":
                st = i - 2
            if name in LOG_MACROS:
                end = t[j].b
                if j + 1 < len(t) and t[j + 1].s == ";":
                    return [(t[st].a, t[j + 1].b, "")]
                return [(t[st].a, end, "()")]
            if name in ("assert", "debug_assert"):
                a = split_args(src, t, i + 2, j)
                return [(t[i].a, t[j].b, f"vx_assert({a[0]})")]
            if name in ("assert_eq", "debug_assert_eq", "assert_ne", "debug_assert_ne"):
                a = split_args(src, t, i + 2, j)
                op = "==" if "eq" in name else "!="
                return [(t[i].a, t[j].b, f"vx_assert(({a[0]}) {op} ({a[1]}))")]
            if name in ("panic", "unreachable", "unimplemented", "todo"):
                return [(t[i].a, t[j].b, "vx_unreachable()")]
            if name == "anyhow":
                return [(t[st].a, t[j].b, "vx_anyhow()")]
            if name == "bail":
                return [(t[st].a, t[j].b, "return Err(vx_anyhow())")]
            if name in ("const_assert", "const_assert_eq", "assert_impl_all"):
                e = t[j + 1].b if j + 1 < len(t) and t[j + 1].s == ";" else t[j].b
                return [(t[st].a, e, "")]
            if name == "format":
                return [(t[st].a, t[j].b, "vx_format()")]
            if name == "matches":
                a = split_args(src, t, i + 2, j)
                rest = src[t[i + 2].b:t[j].a]
                head = a[0]
                pat = rest[rest.index(head) + len(head):].lstrip().lstrip(",").strip().rstrip(",")
                return [(t[i].a, t[j].b, f"(match {head} {{ {pat} => true, _ => false }})")]
    return []


def stmt_block_open(t, i, end=None):
    """From token i (just after for/while/if/match keyword parts) find the '{' opening the block."""
    j = i
    while j < len(t):
        if t[j].s in ("(", "["):
            j = match_close(t, j)
        elif t[j].s == "{":
            return j
        j += 1
    raise SourceError("no block")


def pass_for(src, t):
    """for PAT in EXPR { B }  =>  { let mut it = vx_iter(EXPR); loop { match it.next() {..} } }

    The desugaring of the language reference, with the iterator named so that loop
    contracts can mention it.  Innermost numbering is by order of the `for` in the text.
    `for PAT in &mut V` over a vector goes by index.
    """
    k = -1
    for i in range(len(t)):
        if t[i].k == "id" and t[i].s == "for" and i + 1 < len(t) and t[i + 1].s != "<" and \
           not (i and t[i - 1].s in (">",)):
            # a for expression, not `impl X for Y` / `for<'a>`
            j = i + 1
            while t[j].s != "in":
                if t[j].s in OPEN:
                    j = match_close(t, j)
                j += 1
            o = stmt_block_open(t, j + 1)
            c = match_close(t, o)
            pat = src[t[i + 1].a:t[j - 1].b]
            expr = src[t[j + 1].a:t[o - 1].b]
            body = src[t[o].b:t[c].a]
            label = ""
            st = t[i].a
            if i >= 2 and t[i - 1].s == ":" and t[i - 2].k == "life":
                label = t[i - 2].s + ": "
                st = t[i - 2].a
            n = len(re.findall(r"let mut vx_i[t]?_(\d+)\b", src))
            if t[j + 1].s == "&" and t[j + 2].s == "mut":
                # over the elements of a vector, by index (the body may change them)
                place = src[t[j + 3].a:t[o - 1].b]
                new = (f"{{ let mut vx_i_{n}: usize = 0; {label}while vx_i_{n} < {place}.len() {{ "
                       f"let {pat} = &mut {place}[vx_i_{n}]; vx_i_{n} += 1; {body} }} }}")
                return [(st, t[c].b, new)]
            new = (f"{{ let mut vx_it_{n} = vx_iter({expr}); {label}loop {{ "
                   f"match vx_it_{n}.next() {{ None => {{ break; }} Some(vx_x_{n}) => {{ "
                   f"let {pat} = vx_x_{n}; {body} }} }} }} }}")
            return [(st, t[c].b, new)]
    return []


def pass_let_chain(src, t):
    """if A && let P = E && B { X }  =>  nested ifs; only without else."""
    for i in range(len(t)):
        if t[i].k == "id" and t[i].s == "if":
            if i and t[i - 1].s == "else":
                pass
            j, parts, s = i + 1, [], i + 1
            has_let = False
            while True:
                if t[j].s in ("(", "["):
                    j = match_close(t, j)
                elif t[j].s == "{":
                    # struct-literal braces are not legal here, so this is the block
                    # (a `match` scrutinee inside the condition is not handled)
                    parts.append((s, j))
                    break
                elif t[j].s == "&&" and j > s:
                    parts.append((s, j))
                    s = j + 1
                elif t[j].s == "let":
                    has_let = True
                    while t[j].s != "=":  # the pattern, with its braces
                        j = match_close(t, j) + 1 if t[j].s in OPEN else j + 1
                elif t[j].s in ("match", "||") and t[j].s == "match":
                    break
                j += 1
            if not has_let or len(parts) < 2:
                continue
            c = match_close(t, j)
            els = None
            if c + 1 < len(t) and t[c + 1].s == "else":
                # else { block } of an if: allowed when it is a plain block
                if t[c + 2].s == "{":
                    e = match_close(t, c + 2)
                    els = src[t[c + 2].a:t[e].b]
                    endpos = t[e].b
                else:
                    # else if ...: take the whole remaining chain
                    e = c + 2
                    while True:
                        o = stmt_block_open(t, e)
                        e2 = match_close(t, o)
                        if e2 + 1 < len(t) and t[e2 + 1].s == "else":
                            e = e2 + 2
                            if t[e].s == "{":
                                e2 = match_close(t, e)
                                break
                            continue
                        break
                    els = "{ " + src[t[c + 2].a:t[e2].b] + " }"
                    endpos = t[e2].b
            else:
                endpos = t[c].b
            body = src[t[j].a:t[c].b]
            tail = f" else {els}" if els is not None else ""
            # a contiguous run of non-let parts is one condition
            groups = []
            for (a, b) in parts:
                txt = src[t[a].a:t[b - 1].b]
                if txt.startswith("let ") or not groups or groups[-1][0]:
                    groups.append([txt.startswith("let "), txt])
                else:
                    groups[-1][1] += " && " + txt
            new = body
            for isl, txt in reversed(groups):
                new = f"if {txt} {new}{tail}"
                if txt is not groups[0][1]:
                    new = "{ " + new + " }"
            if i and t[i - 1].s == "else":
                new = "{ " + new + " }"
            return [(t[i].a, endpos, new)]
    return []


def find_loops(t):
    """Token indices (kw, open brace) of loop/while in textual order."""
    out = []
    for i, x in enumerate(t):
        if x.k == "id" and x.s in ("while", "loop"):
            o = i + 1 if x.s == "loop" else stmt_block_open(t, i + 1)
            out.append((i, o))
    return out


def find_closures(t, lo=0):
    """(start, bar_open, bar_close, body_start, body_end_exclusive) of closures in order."""
    out = []
    i = lo
    while i < len(t):
        x = t[i]
        if x.k == "p" and x.s in ("|", "||"):
            prev = t[i - 1]
            head = prev.s in ("(", ",", "=", "move", "{", ";", "return", "=>", ":")
            if head:
                if x.s == "||":
                    close = i
                else:
                    close = i + 1
                    while t[close].s != "|":
                        if t[close].s in OPEN:
                            close = match_close(t, close)
                        close += 1
                b = close + 1
                if t[b].s == "->":
                    e = stmt_block_open(t, b)
                    bs, be = e, match_close(t, e) + 1
                elif t[b].s == "{":
                    bs, be = b, match_close(t, b) + 1
                else:
                    bs, j = b, b
                    while j < len(t):
                        if t[j].s in OPEN:
                            j = match_close(t, j)
                        elif t[j].s in (",", ")", "]", "}", ";"):
                            break
                        j += 1
                    be = j
                st = i - 1 if prev.s == "move" else i
                out.append((st, i, close, bs, be))
        i += 1
    return out


def fn_parts(text):
    """Split a fn item's text: (before_ret, ret_type or None, where or '', body)."""
    t = tokenize(text)
    i = next(k for k, x in enumerate(t) if x.s == "fn")
    j = i + 2
    if t[j].s == "<":
        j = skip_angles(t, j)
    pc = match_close(t, j)
    head_end = t[pc].b
    j = pc + 1
    ret = None
    where = ""
    bo = j
    while t[bo].s not in ("{", ";"):
        if t[bo].s in OPEN:
            bo = match_close(t, bo)
        elif t[bo].s == "<":
            bo = skip_angles(t, bo) - 1
        bo += 1
    w = None
    for k in range(j, bo):
        if t[k].s == "where":
            w = k
            break
    if t[j].s == "->":
        e = w if w is not None else bo
        ret = text[t[j].b:t[e].a].strip()
    if w is not None:
        where = text[t[w].a:t[bo].a].strip()
    body = text[t[bo].a:]
    return text[:head_end], ret, where, body
