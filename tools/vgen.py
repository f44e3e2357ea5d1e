"""vgen: expand a contract template (verus/*.vt) into one Verus file.

A template is Verus text.  Lines starting with `//%` are directives:

  //% source PATH                 following items come from /repo/PATH
  //% include FILE [proved=TPL]   expand another file; with proved=, its functions are only declared
                                  (their contracts are discharged in template TPL)
  //% item KIND NAME [derive=A,B] [repr=R] copy a struct/enum/const/type (attributes dropped);
                                  fields=a,b keeps only those fields of a struct;
                                  ensures=E (spaces as {}) for a const computed by calls
  //% const TYPE::NAME            copy an associated const
  //% fn SPEC [as NAME]           lift one function; its contract follows, until `//% end`
                                  SPEC#K: the body of the Kth closure of SPEC, as a function (needs sig)
                                  SPEC@RE: the block RE opens (RE ends at its brace), likewise
      ... requires/ensures text ...
  //% ret NAME                    name of the result in the contract (default r)
  //% loop N                      clauses for the Nth loop (text order, `for` desugared)
  //% loophead N                  proof text at the start of the Nth loop's body
  //% closure N                   typed head (and ensures) for the Nth closure; $BODY is its body;
                                  `$PRE stmt` puts a statement at the start of the body
  //% sub RE ==> TEXT             declared textual rewrite of the function (must match, else the
                                  anchor counts as lost)
  //% sub? RE ==> TEXT            same, optional
  //% cut RE ==> TEXT             the match of RE (which ends at a `{`) and the rest of that block
                                  are replaced by TEXT (must match)
  //% head                        proof text placed at the start of the body
  //% before RE / //% after RE    proof text placed before/after the first statement line
                                  matching RE (dropped, with a note, when it does not match)
  //% sig TEXT                    replaces the lifted signature's parameter list etc. (rare)
  //% attr TEXT                   attribute for the verifier (loop_isolation, rlimit, ...)
  //% noprobe                     function is left out of the vacuity probe
  //% end

Everything else is copied.  What the lifting does to every function, besides the above:
comments stay, attributes and `pub` go, log macros go, assert!/panic!/anyhow!/format!/matches!
become calls to functions under contract in lib.vt or a match, `for` and let-chains are
desugared, `impl FnMut` parameters are read as `impl Fn`.
"""

import os
import re
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import rsx  # noqa: E402

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class FnRec:
    def __init__(self, spec, source):
        self.spec, self.source = spec, source
        self.lines = None          # (first, last) in the generated file, 1-based
        self.contract_lines = None
        self.src_line = None
        self.notes = []
        self.lost = []             # lost anchors
        self.external = False
        self.name = None
        self.subs = []


class Gen:
    def __init__(self, template, repo="/repo", external=(), probe=False):
        self.repo, self.external, self.probe = repo, set(external), probe
        self.template = template
        self.files, self.out, self.fns, self.items = {}, [], [], []
        self.missing = []
        self.elsewhere = None
        self.assumed = []

    def file(self, path):
        if path not in self.files:
            with open(os.path.join(self.repo, path), encoding="utf-8") as f:
                self.files[path] = rsx.File(f.read())
        return self.files[path]

    def emit(self, text):
        self.out.extend(text.split("\n"))

    def run(self):
        with open(self.template, encoding="utf-8") as f:
            lines = f.read().split("\n")
        self.lines_in(lines)
        return "\n".join(self.out) + "\n"

    def lines_in(self, lines):
        src, i = None, 0
        while i < len(lines):
            ln = lines[i]
            s = ln.strip()
            if not s.startswith("//%"):
                self.out.append(ln)
                i += 1
                continue
            d = s[3:].strip()
            if d.startswith("include "):
                p = os.path.join(HERE, "verus", d.split()[1])
                m = re.search(r"proved=(\w+)", d)
                was, self.elsewhere = self.elsewhere, (m.group(1) if m else self.elsewhere)
                with open(p, encoding="utf-8") as f:
                    self.lines_in(f.read().split("\n"))
                self.elsewhere = was
                i += 1
            elif d.startswith("source "):
                src = d.split()[1]
                i += 1
            elif d.startswith("item "):
                self.item(src, d)
                i += 1
            elif d.startswith("const "):
                try:
                    it = self.file(src).find_fn(d.split()[1])
                    t = re.sub(r"^pub(\s*\([^)]*\))?\s+", "", it.text)
                    t = re.sub(r":\s*&(?!')", ": &'static ", t, count=1)
                    m = re.search(r'= b"([^"\\]*)";', t)
                    if m:  # a byte string of known length
                        t = t.replace("static [u8]", f"static [u8; {len(m.group(1))}]", 1)
                    for o in d.split()[2:]:
                        if o.startswith("sub="):
                            a, b = o[4:].split("=>")
                            t = t.replace(a.replace("{}", " "), b.replace("{}", " "))
                    self.emit(const_ensures("pub " + t, d.split()))
                except (rsx.SourceError, OSError) as e:
                    self.missing.append(f"const {d.split()[1]} in {src}: {e}")
                i += 1
            elif d.startswith("fn "):
                j = i + 1
                while lines[j].strip() != "//% end":
                    j += 1
                self.fn(src, d, lines[i + 1:j])
                i = j + 1
            else:
                raise SystemExit(f"{self.template}:{i + 1}: unknown directive {d}")

    # ---------------------------------------------------------------- items
    def item(self, src, d):
        w = d.split()
        kind, name = w[1], w[2]
        opts = dict(x.split("=", 1) for x in w[3:] if "=" in x)
        try:
            it = self.file(src).find(kind, name)
        except (rsx.SourceError, OSError) as e:
            self.missing.append(f"{kind} {name} in {src}: {e}")
            return
        t = it.text
        toks = rsx.tokenize(t)
        edits = []
        k = 0
        while k < len(toks):
            if toks[k].s == "#" and toks[k + 1].s == "[":
                e = rsx.match_close(toks, k + 1)
                edits.append((toks[k].a, toks[e].b, ""))
                k = e
            elif toks[k].s == "pub":
                e = k
                if toks[k + 1].s == "(":
                    e = rsx.match_close(toks, k + 1)
                edits.append((toks[k].a, toks[e].b, ""))
                k = e
            k += 1
        t = make_pub(rsx.splice(t, edits).lstrip(), kind)
        if "fields" in opts:
            t, lost = keep_fields(t, opts["fields"].split(","))
            for x in lost:
                self.missing.append(f"field {x} of {name} in {src}")
        for x in w[3:]:
            if x.startswith("sub="):
                a, b = x[4:].split("=>")
                t = t.replace(a.replace("{}", " "), b.replace("{}", " "))
        if "bytes" in opts:  # b"..." as an array literal
            m = re.search(r'b"((?:[^"\\])*)"', t)
            if m:
                t = t.replace("[u8]", f"[u8; {len(m.group(1))}]", 1)
            t = re.sub(r'b"((?:[^"\\])*)"', lambda m: "&[" + ", ".join(f"{ord(c)}u8" for c in m.group(1)) + "]", t)
        t = const_ensures(t, w)
        if "derive" in opts:
            self.emit(f"#[derive({opts['derive']})]")
        if "repr" in opts:
            self.emit(f"#[repr({opts['repr']})]")
        if "attr" in opts:
            self.emit(f"#[{opts['attr']}]")
        self.emit(t)
        self.items.append(f"{kind} {name} ({src})")

    # ------------------------------------------------------------ functions
    def fn(self, src, d, body_lines):
        m = re.match(r"fn (.+?)(?: as (\w+))?$", d)
        spec, newname = m.group(1), m.group(2)
        sec = {"contract": []}
        loops, loopheads, closures, subs, hints = {}, {}, {}, [], []
        ret, head, probe_ok, sig, attrs = "r", [], True, None, []
        cur = sec["contract"]
        for ln in body_lines:
            s = ln.strip()
            if s.startswith("//%"):
                x = s[3:].strip()
                if x.startswith("loop "):
                    cur = loops.setdefault(int(x.split()[1]), [])
                elif x.startswith("loophead "):
                    cur = loopheads.setdefault(int(x.split()[1]), [])
                elif x.startswith("closure "):
                    cur = closures.setdefault(int(x.split()[1]), [])
                elif x.startswith("cut "):
                    a, b = x.split(" ", 1)[1].split("==>", 1)
                    subs.append((a.strip(), b.strip(), "cut"))
                elif x.startswith("sub? ") or x.startswith("sub "):
                    a, b = x.split(" ", 1)[1].split("==>", 1)
                    subs.append((a.strip(), b.strip(), x.startswith("sub?")))
                elif x.startswith("ret "):
                    ret = x.split()[1]
                elif x.startswith("sig "):
                    sig = x[4:]
                elif x.startswith("attr "):
                    attrs.append(x[5:])
                elif x == "head":
                    cur = head
                elif x == "noprobe":
                    probe_ok = False
                elif x.startswith("before ") or x.startswith("after "):
                    kind, rx = x.split(" ", 1)
                    h = (kind, rx.strip(), [])
                    hints.append(h)
                    cur = h[2]
                else:
                    raise SystemExit(f"unknown directive in fn {spec}: {x}")
            else:
                cur.append(ln)
        rec = FnRec(spec, src)
        (self.assumed if self.elsewhere else self.fns).append(rec)
        try:
            it = find_lift(self.file(src), spec)
        except (rsx.SourceError, OSError) as e:
            rec.lost.append(f"function not found: {e}")
            self.missing.append(f"fn {spec} in {src}")
            return
        rec.src_line = it.line
        rec.name = newname or it.name
        text = it.text
        # strip visibility / modifiers
        text = re.sub(r"^(?:pub(?:\s*\([^)]*\))?\s+)", "", text)
        head_t, rty, where, body = rsx.fn_parts(text)
        if newname:
            head_t = re.sub(r"\bfn\s+\w+", f"fn {newname}", head_t, count=1)
        if sig:
            head_t, where = sig, None
        head_t = re.sub(r"\bmut\s+(\w+)\s*:\s*impl\s+FnMut\b", r"\1: impl Fn", head_t)
        head_t = re.sub(r"\bimpl\s+FnMut\b", "impl Fn", head_t)
        external = spec in self.external or bool(self.elsewhere)
        contract = "\n".join(sec["contract"])
        if not external:
            try:
                body = self.body(body, rec, loops, loopheads, closures, subs, hints, head)
            except (rsx.SourceError, StopIteration, IndexError) as e:
                rec.lost.append(f"lifting failed: {e}")
                external = True
        for a, b, how in subs:
            if how == "cut":
                continue
            # declared rewrites also apply to the signature
            head_t = re.sub(a, b, head_t, flags=re.S)
            if rty:
                rty = re.sub(a, b, rty, flags=re.S)
        rec.external = external
        rs = f" -> ({ret}: {rty})" if rty else ""

        def put(hd, con, bod, ext):
            if ext:
                self.emit("#[verifier::external_body]" +
                          (f" // contract discharged in template {self.elsewhere}" if self.elsewhere else ""))
            else:
                for x in attrs:
                    self.emit(f"#[{x}]")
            self.emit(hd + rs)
            if where:
                self.emit("    " + where)
            c0 = len(self.out) + 1
            self.emit(con)
            rec.contract_lines = (c0, len(self.out))
            self.emit(bod)

        first = len(self.out) + 1
        # (a const fn may be run by the compiler)
        none = body if re.search(r"\bconst\s+fn\b", head_t) else "{ unimplemented!() }"
        if self.probe:
            put(head_t, contract, none, True)
            if probe_ok and not external:
                first = len(self.out) + 1
                hd = re.sub(r"\bfn\s+(\w+)", r"fn \1__probe", head_t, count=1)
                con = contract
                if re.search(r"\bensures\b", strip_comments(con)):
                    con = con.rstrip().rstrip(",") + ", false,"
                else:
                    con = con.rstrip()
                    if con and not con.endswith(","):
                        con += ","
                    con += "\n ensures false,"
                put(hd, con, body, False)
            else:
                rec.external = True
        else:
            put(head_t, contract, none if external else body, external)
        rec.lines = (first, len(self.out))

    def body(self, body, rec, loops, loopheads, closures, subs, hints, head):
        for a, b, opt in subs:
            if opt == "cut":
                m = re.search(a, body, flags=re.S)
                if not m or body[m.end() - 1] != "{":
                    rec.lost.append(f"block anchor not found: {a}")
                    continue
                t = rsx.tokenize(body)
                k = next(k for k, x in enumerate(t) if x.a == m.end() - 1)
                body = body[:m.start()] + m.expand(b) + body[t[rsx.match_close(t, k)].b:]
                rec.subs.append(f"block {a} ==> {b}")
                continue
            new, n = re.subn(a, b, body, flags=re.S)
            if n == 0 and not opt:
                rec.lost.append(f"rewrite anchor not found: {a}")
            elif n:
                rec.subs.append(f"{a} ==> {b}")
            body = new
        body = rsx.once(body, rsx.pass_macros)
        body = strip_attrs(body)
        body = rsx.once(body, rsx.pass_let_chain)
        body = rsx.once(body, rsx.pass_for)
        # closures
        t = rsx.tokenize(body)
        cl = rsx.find_closures(t)
        inside = set()  # closures nested in one that is replaced as a whole
        for n, ann in closures.items():
            if n < len(cl) and "$REPLACE" in "\n".join(ann):
                inside |= {k for k, x in enumerate(cl) if cl[n][3] <= x[0] < cl[n][4]}
        if closures and (max(closures) >= len(cl)):
            rec.lost.append(f"{len(cl)} closures, contract names closure {max(closures)}")
        elif closures and len(set(range(len(cl))) - inside - set(closures)) > 0:
            rec.lost.append(f"{len(cl)} closures, contract names {len(closures)}")
        edits = []
        for n, ann in closures.items():
            if n >= len(cl):
                continue
            st, o, c, bs, be = cl[n]
            btxt = body[t[bs].a:t[be - 1].b]
            a = "\n".join(ann).strip()
            has_body = "$REPLACE" in a
            if has_body:
                a = a.replace("$REPLACE", "").strip()
                edits.append((t[st].a, t[be - 1].b, a))
                continue
            pre = " ".join(re.findall(r"^\s*\$PRE (.*)$", a, flags=re.M))
            a = re.sub(r"^\s*\$PRE .*$", "", a, flags=re.M)
            a = a.replace("$BODY", btxt)
            wrapped = btxt if btxt.startswith("{") else "{ " + btxt + " }"
            if pre:
                wrapped = "{ " + pre + " " + wrapped[1:]
            # nested closures keep their own annotation only if they are separate entries
            edits.append((t[o].a, t[be - 1].b, a + " " + wrapped))
        body = rsx.splice(body, edits)
        # loops
        t = rsx.tokenize(body)
        lp = rsx.find_loops(t)
        if len(lp) != len(loops):
            rec.lost.append(f"{len(lp)} loops, contract names {len(loops)}")
        edits = []
        for n, inv in loops.items():
            if n < len(lp):
                kw, o = lp[n]
                edits.append((t[o].a, t[o].a, "\n" + "\n".join(inv) + "\n"))
        for n, txt in loopheads.items():
            if n < len(lp):
                a = t[lp[n][1]].b
                m = re.compile(r"\s*match vx_it_\d+\.next\(\) \{ None => \{ break; \} Some\((\w+)\) => "
                               r"\{ let .*? = \1;", re.S).match(body, a)
                a = m.end() if m else a
                edits.append((a, a, "\n" + "\n".join(txt) + "\n"))
        body = rsx.splice(body, edits)
        for kind, rx, txt in hints:
            ls = body.split("\n")
            k = next((k for k, x in enumerate(ls) if re.search(rx, x)), None)
            if k is None:
                rec.lost.append(f"proof hint anchor not found: {rx}")
                continue
            ls[k + (1 if kind == "after" else 0):k + (1 if kind == "after" else 0)] = txt
            body = "\n".join(ls)
        if head:
            body = "{\n" + "\n".join(head) + "\n" + body.lstrip()[1:]
        return body


class Lifted:
    def __init__(self, text, line, name):
        self.text, self.line, self.name = text, line, name


def find_lift(file, spec):
    """The item lifted for SPEC, SPEC#K (the Kth closure's body, after the macros are gone) or SPEC@RE
    (the first block that RE, ending at its brace, opens)."""
    if "@" in spec:
        base, rx = spec.split("@", 1)
        it = file.find_fn(base)
        _, _, _, body = rsx.fn_parts(it.text)
        body = strip_attrs(rsx.once(body, rsx.pass_macros))
        m = re.search(rx, body, flags=re.S)
        if not m or body[m.end() - 1] != "{":
            raise rsx.SourceError(f"{base} has no block {rx}")
        t = rsx.tokenize(body)
        k = next(k for k, x in enumerate(t) if x.a == m.end() - 1)
        return Lifted("fn lifted() " + body[m.end() - 1:t[rsx.match_close(t, k)].b], it.line, it.name)
    if "#" not in spec:
        return file.find_fn(spec)
    base, k = spec.split("#")
    it = file.find_fn(base)
    _, _, _, body = rsx.fn_parts(it.text)
    body = strip_attrs(rsx.once(body, rsx.pass_macros))
    t = rsx.tokenize(body)
    cl = rsx.find_closures(t)
    if int(k) >= len(cl):
        raise rsx.SourceError(f"{base} has {len(cl)} closures")
    _, _, _, bs, be = cl[int(k)]
    b = body[t[bs].a:t[be - 1].b]
    return Lifted("fn lifted() " + (b if b.startswith("{") else "{ " + b + " }"), it.line, it.name)


def const_ensures(t, opts):
    """ensures=E: a const whose value is computed by functions under contract."""
    for o in opts:
        if o.startswith("ensures="):
            m = re.match(r"(pub const [^=]*?)\s*=\s*(.*);\s*$", t, re.S)
            t = m.group(1).replace("pub const", "pub exec const") + " ensures " + \
                o[8:].replace("{}", " ") + " { " + m.group(2) + " }"
    return t


def keep_fields(t, names):
    """Only the named fields of a struct with braces."""
    toks = rsx.tokenize(t)
    i = next(k for k, x in enumerate(toks) if x.s == "{")
    e = rsx.match_close(toks, i)
    keep, k, start = [], i + 1, i + 1
    found = set()

    def flush(a, b):
        if a >= b:
            return
        m = re.match(r"(?:pub\s+)?(\w+)\s*:", t[toks[a].a:toks[b - 1].b])
        if m and m.group(1) in names:
            found.add(m.group(1))
            keep.append("    " + t[toks[a].a:toks[b - 1].b] + ",")

    while k < e:
        if toks[k].s in rsx.OPEN:
            k = rsx.match_close(toks, k)
        elif toks[k].s == "<":
            k = rsx.skip_angles(toks, k) - 1
        elif toks[k].s == ",":
            flush(start, k)
            start = k + 1
        k += 1
    flush(start, e)
    return t[:toks[i].b] + "\n" + "\n".join(keep) + "\n}", [n for n in names if n not in found]


def make_pub(t, kind):
    """pub on the item and on every struct field: the generated file is one module."""
    if kind == "struct":
        toks = rsx.tokenize(t)
        i = 2
        if toks[i].s == "<":
            i = rsx.skip_angles(toks, i)
        while toks[i].s not in ("{", "(", ";"):
            if toks[i].s == "<":
                i = rsx.skip_angles(toks, i)
                continue
            i += 1
        edits = []
        if toks[i].s != ";":
            e = rsx.match_close(toks, i)
            k, start = i + 1, True
            while k < e:
                if start:
                    edits.append((toks[k].a, toks[k].a, "pub "))
                    start = False
                if toks[k].s in rsx.OPEN:
                    k = rsx.match_close(toks, k)
                elif toks[k].s == "<":
                    k = rsx.skip_angles(toks, k) - 1
                elif toks[k].s == ",":
                    start = True
                k += 1
        t = rsx.splice(t, edits)
    return "pub " + t


def strip_comments(s):
    return re.sub(r"//[^\n]*", "", s)


def strip_attrs(body):
    t = rsx.tokenize(body)
    edits = []
    i = 0
    while i < len(t):
        if t[i].s == "#" and i + 1 < len(t) and t[i + 1].s == "[":
            e = rsx.match_close(t, i + 1)
            edits.append((t[i].a, t[e].b, ""))
            i = e
        i += 1
    return rsx.splice(body, edits)


if __name__ == "__main__":
    g = Gen(sys.argv[1], probe="--probe" in sys.argv)
    sys.stdout.write(g.run())
    for r in g.fns:
        for x in r.lost:
            sys.stderr.write(f"{r.spec}: {x}\n")
    for x in g.missing:
        sys.stderr.write(f"missing {x}\n")
