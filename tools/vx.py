#!/usr/bin/env python3
"""vx: mechanical extraction of functions/items from /repo/src into an annotated Verus file.

A template (verus/*.rs) is ordinary Verus text (specs, lemmas) plus directives:

  //@item FILE kind NAME [opts]        copy a struct/enum/const/type item verbatim (attributes dropped)
  //@fn FILE PATH [opts]               start an extracted function; PATH is NAME or TYPE::NAME or OUTER/NAME
  //@ret NAME                          name the return value
  //@sig                               contract text (requires/ensures) put between signature and body
  //@start | //@tail | //@end          ghost text at body start / before the tail expression / at body end
  //@loop K [begin|end|before|after|top]   invariant text of the K-th loop (pre-order), or ghost text around it
  //@after "toks" K | //@before "toks" K   ghost text after/before the statement holding the K-th match
  //@sub "regex" "replacement"         documented textual rewrite of the extracted code
  //@endfn

Everything between directives that is not listed is copied unchanged.  The rewrites applied to code
are listed in REWRITES and reported for each function, so that the evidence can state them.
"""
import re, os, sys, json, hashlib, glob

REWRITES = {
 "R0": "comments, doc comments and attributes removed; visibility (pub, pub(crate)) removed",
 "R1": "range loops desugared to the while loop they denote: for i in a..b, a..=b, (a..b).rev(), (a..b).step_by(k), for _ in a..b",
 "R2": "slice-iterator loops desugared to index loops: for (i,&p) in E.iter().take_while(|&&x| C).enumerate(), E.iter().enumerate(), E.iter()",
 "R3": "parameter pattern _ (closure or function) replaced by a named unused parameter; tuple parameter pattern by a named parameter and a let",
 "R13": "assert_ne!(a, b), assert_eq!(a, b) (also debug_) replaced by assert!(a != b), assert!(a == b)",
 "R4": "generic by-value writer `mut w: W, W: Write` monomorphised to the reborrow `w: &mut W` it receives at every call site",
 "R5": "E.or_else(|_| B) replaced by its definition match E { Ok(v) => Ok(v), Err(_) => B }; E.map_err(|_| X) by match E { Ok(v) => Ok(v), Err(_) => Err(X) }; F(..).map(|v| X), F(..).and_then(|v| X) where F is a function of the repository that returns an Option by match F(..) { Some(v) => Some(X) or X, None => None }",
 "R6": "while let P = E { B } replaced by loop { match E { P => B, _ => break } } ",
 "R7": "a helper function not under contract that the code calls is inlined at the call (parameters let-bound in order)",
 "R8": "std::cmp::min/max, A.iter().sum::<usize>() and A[n..].iter().sum::<usize>() replaced by the verified definitions in verus/std.rs",
 "R11": "a function or struct nested in a function is a top level item; module path prefixes (crate::, decode::, geometry::, ...) are dropped",
 "R12": "for P in E { B } over an iterator replaced by its definition { let mut it = E; loop { match it.next() { Some(P) => B, None => break } } }",
 "R15": "E.iter() or E.into_iter(), .map(|x| A) or .filter_map(|x| A), .collect() on a Vec E is the loop it denotes, which pushes to a new Vec; for P in E over a Vec by value takes the elements from the front (stdx_next); X.extend of an array or Option pushes its elements",
    "R16": "X.sort_by(|a, b| B) or sort_unstable_by becomes stdx_sort_by(&mut X, ..) with the contract of the closure (checked) and the key by which it orders",
 "R10": "array repeat expressions [E; N] inside const items are written out",
 "R14": "f64 is replaced by the exact real number type Fl of verus/reals.rs: f64::EPSILON, E as f64, decimal literals, x as i32 and E.floor() as usize by its functions (machine arithmetic treated as mathematical)",
 "R9": "a const local to a function, or a module const that the template does not carry, becomes a let of the same name, type and value; byte string literals are spelled as byte arrays",
}

MODULES = ("crate", "decode", "geometry", "identify", "match_capstones", "grid", "prepare", "detect")

class Misfit(Exception):
    """the annotations cannot be applied to the current source (lost anchor, unknown construct)"""

# ---------------------------------------------------------------- lexer
IDENT = re.compile(r"[A-Za-z_][A-Za-z0-9_]*")
NUM = re.compile(r"0[xX][0-9a-fA-F_]+(?:[ui](?:8|16|32|64|128|size))?|0b[01_]+(?:_?[ui](?:8|16|32|64|128|size))?|[0-9][0-9_]*(?:\.[0-9][0-9_]*)?(?:[eE][+-]?[0-9]+)?(?:_?(?:[ui](?:8|16|32|64|128|size)|f32|f64))?")
PUNCT3 = ["<<=", ">>=", "..=", "...", "->", "=>", "::", "&&", "||", "==", "!=", "<=", ">=", "+=", "-=", "*=", "/=", "%=", "^=", "&=", "|=", "..", "<<", ">>"]

class Tok:
    __slots__ = ("k", "t", "s", "e", "ws")
    def __init__(self, k, t, s, e, ws): self.k, self.t, self.s, self.e, self.ws = k, t, s, e, ws
    def __repr__(self): return self.t

def lex(src):
    i, n, out, ws = 0, len(src), [], ""
    while i < n:
        c = src[i]
        if c.isspace():
            ws += c; i += 1; continue
        if src.startswith("//", i):
            j = src.find("\n", i); j = n if j < 0 else j
            i = j; continue
        if src.startswith("/*", i):
            d, j = 1, i + 2
            while d and j < n:
                if src.startswith("/*", j): d += 1; j += 2
                elif src.startswith("*/", j): d -= 1; j += 2
                else: j += 1
            ws += " "; i = j; continue
        m = re.match(r'b?r(#*)"', src[i:])
        if m:
            end = src.find('"' + m.group(1), i + m.end()); j = end + 1 + len(m.group(1))
            out.append(Tok("str", src[i:j], i, j, ws)); ws = ""; i = j; continue
        if c == '"' or (c == "b" and i + 1 < n and src[i + 1] == '"'):
            j = i + (2 if c == "b" else 1)
            while src[j] != '"': j += 2 if src[j] == "\\" else 1
            j += 1
            out.append(Tok("str", src[i:j], i, j, ws)); ws = ""; i = j; continue
        if c == "'" or (c == "b" and i + 1 < n and src[i + 1] == "'"):
            st = i + (1 if c == "b" else 0)
            m = re.match(r"'(\\.[^']*|[^\\'])'", src[st:])
            if m:
                j = st + m.end(); out.append(Tok("chr", src[i:j], i, j, ws)); ws = ""; i = j; continue
            m = re.match(r"'[A-Za-z_][A-Za-z0-9_]*", src[st:])
            j = st + m.end(); out.append(Tok("life", src[i:j], i, j, ws)); ws = ""; i = j; continue
        m = IDENT.match(src, i)
        if m:
            out.append(Tok("id", m.group(), i, m.end(), ws)); ws = ""; i = m.end(); continue
        if c.isdigit():
            m = NUM.match(src, i); j = m.end(); t = m.group()
            out.append(Tok("num", t, i, j, ws)); ws = ""; i = j; continue
        for p in PUNCT3:
            if src.startswith(p, i):
                out.append(Tok("p", p, i, i + len(p), ws)); ws = ""; i += len(p); break
        else:
            out.append(Tok("p", c, i, i + 1, ws)); ws = ""; i += 1
    return out

OPEN = {"(": ")", "[": "]", "{": "}"}
CLOSE = {")", "]", "}"}

def match_close(toks, i):
    """index of the token closing the bracket at i"""
    d = 0
    for j in range(i, len(toks)):
        if toks[j].k == "p":
            if toks[j].t in OPEN: d += 1
            elif toks[j].t in CLOSE:
                d -= 1
                if d == 0: return j
    raise Misfit("unbalanced brackets")

def skip_angles(toks, i):
    d = 0
    while i < len(toks):
        t = toks[i].t
        if t == "<": d += 1
        elif t == ">": d -= 1
        elif t == ">>": d -= 2
        elif t in OPEN: i = match_close(toks, i)
        if d <= 0: return i
        i += 1
    raise Misfit("unbalanced angles")

def text(toks):
    return "".join((" " if t.ws else "") + t.t for t in toks)

def ptext(toks):
    """text keeping newlines"""
    return "".join(("\n" + t.ws.split("\n")[-1] if "\n" in t.ws else (" " if t.ws else "")) + t.t for t in toks)

def strip_attrs(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "#" and i + 1 < len(toks) and (toks[i+1].t == "[" or (toks[i+1].t == "!" and toks[i+2].t == "[")):
            j = match_close(toks, i + 1 if toks[i+1].t == "[" else i + 2)
            i = j + 1; continue
        out.append(toks[i]); i += 1
    return out

def strip_vis(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].t == "pub":
            ws = toks[i].ws
            i += 1
            if i < len(toks) and toks[i].t == "(" and toks[i+1].t in ("crate", "super", "self", "in"):
                i = match_close(toks, i) + 1
            if i < len(toks): toks[i].ws = ws or toks[i].ws
            continue
        out.append(toks[i]); i += 1
    return out

# ---------------------------------------------------------------- item index
class Fn:
    def __init__(s, name, owner, trait, file, sig, body, outer):
        s.name, s.owner, s.trait, s.file, s.sig, s.body, s.outer = name, owner, trait, file, sig, body, outer
        # sig: tokens from `fn` to before `{`; body: tokens inside the braces
    def path(s): return (s.outer + "/" if s.outer else "") + (s.owner + "::" if s.owner else "") + s.name

class Index:
    def __init__(s, repo):
        s.fns, s.items, s.repo, s.src = [], [], repo, {}
        for f in sorted(glob.glob(repo + "/src/**/*.rs", recursive=True)):
            rel = os.path.relpath(f, repo)
            s.src[rel] = open(f, encoding="utf-8").read()
            s.scan(lex(s.src[rel]), rel, None, None, None)

    def scan(s, toks, rel, owner, trait, outer):
        i, attr = 0, []
        while i < len(toks):
            t = toks[i]
            if t.t == "#" and i + 1 < len(toks) and toks[i+1].t in ("[", "!"):
                k = i + 1 if toks[i+1].t == "[" else i + 2
                if toks[k].t != "[": i += 1; continue
                j = match_close(toks, k); attr.append(text(toks[i:j+1]).replace(" ", "")); i = j + 1; continue
            if t.k == "id" and t.t == "mod" and i + 2 < len(toks) and toks[i+2].t == "{":
                j = match_close(toks, i + 2)
                if not any("cfg(test)" in a or "cfg(kani)" in a for a in attr): s.scan(toks[i+3:j], rel, None, None, None)
                attr = []; i = j + 1; continue
            if t.k == "id" and t.t in ("impl", "trait") and (i == 0 or toks[i-1].t not in ("->", ":", "(", ",", "&", "<")):
                j = i + 1
                if j < len(toks) and toks[j].t == "<": j = skip_angles(toks, j) + 1
                k = j
                while toks[k].t not in ("{", ";"):
                    if toks[k].t == "<": k = skip_angles(toks, k)
                    elif toks[k].t in ("(", "["): k = match_close(toks, k)
                    k += 1
                if toks[k].t == ";": i = k + 1; continue
                hdr = toks[j:k]
                # split at for / where
                depth, fo, wh = 0, None, None
                for q, x in enumerate(hdr):
                    if x.t == "<": depth += 1
                    elif x.t == ">": depth -= 1
                    elif depth == 0 and x.t == "for" and fo is None: fo = q
                    elif depth == 0 and x.t == "where" and wh is None: wh = q
                if wh is not None: hdr2 = hdr[:wh]
                else: hdr2 = hdr
                tr = None
                if fo is not None:
                    tr = next((x.t for x in reversed(hdr2[:fo]) if x.k == "id"), None); ty = hdr2[fo+1:]
                else: ty = hdr2
                # last path segment before generics
                name = None
                for q, x in enumerate(ty):
                    if x.t == "<": break
                    if x.t == ":" : break
                    if x.k == "id": name = x.t
                e = match_close(toks, k)
                if not any("cfg(test)" in a for a in attr): s.scan(toks[k+1:e], rel, name, tr, outer)
                attr = []; i = e + 1; continue
            if t.k == "id" and t.t == "fn" and i + 1 < len(toks) and toks[i+1].k == "id":
                k = i + 2
                if toks[k].t == "<": k = skip_angles(toks, k) + 1
                while toks[k].t not in ("{", ";"):
                    if toks[k].t in ("(", "["): k = match_close(toks, k)
                    k += 1
                if toks[k].t == "{":
                    e = match_close(toks, k)
                    f = Fn(toks[i+1].t, owner, trait, rel, toks[i:k], toks[k+1:e], outer)
                    if not any(a in ("#[test]",) or "cfg(test)" in a for a in attr):
                        s.fns.append(f)
                        s.scan(toks[k+1:e], rel, owner, trait, (outer + "/" if outer else "") + toks[i+1].t)
                    attr = []; i = e + 1; continue
                attr = []; i = k + 1; continue
            if t.k == "id" and t.t in ("struct", "enum", "const", "static", "type") and i + 1 < len(toks) and toks[i+1].k == "id" and toks[i+1].t != "fn":
                name = toks[i+1].t
                k = i + 2
                end = None
                while k < len(toks):
                    if toks[k].t == ";": end = k; break
                    if toks[k].t in OPEN:
                        c = match_close(toks, k)
                        if toks[k].t == "{" and t.t in ("struct", "enum"): end = c; break
                        k = c
                    k += 1
                if end is None: break
                s.items.append((t.t, name, rel, outer, toks[i:end+1]))
                attr = []; i = end + 1; continue
            if t.t not in ("pub", "(", ")", "crate", "unsafe", "async", "extern", "default"): attr = []
            if t.t in ("{",) and outer is None: i = match_close(toks, i) + 1; continue
            i += 1

    def find_fn(s, file, path, nth=0):
        def ok(f):
            o = None; p = path
            if "/" in p: o, p = p.rsplit("/", 1)
            if f.outer != o: return False
            if "::" in p:
                parts = p.split("::")
                if len(parts) == 3: return f.owner == parts[0] and f.trait == parts[1] and f.name == parts[2]
                return f.owner == parts[0] and f.name == parts[1]
            return f.owner is None and f.name == p
        c = [f for f in s.fns if f.file == file and ok(f)] or [f for f in s.fns if ok(f)]
        if not c and "/" in path: return s.find_fn(file, path.rsplit("/", 1)[1])
        if len(c) != 1:
            raise Misfit("function %s: %d candidates in the source" % (path, len(c)))
        return c[0]

    def find_item(s, file, kind, name):
        c = [it for it in s.items if it[1] == name and it[0] == kind and it[2] == file] or [it for it in s.items if it[1] == name and it[0] == kind]
        if len(c) != 1: raise Misfit("item %s %s: %d candidates" % (kind, name, len(c)))
        return c[0]

# ---------------------------------------------------------------- bindings
def bindings(fn):
    """identifiers bound in the function, in source order (params, let, for, closure, match arms heuristically)"""
    out = []
    # params
    i = next(k for k, t in enumerate(fn.sig) if t.t == "(")
    e = match_close(fn.sig, i)
    d = 0
    for k in range(i + 1, e):
        t = fn.sig[k]
        if t.t in "([<": d += 1
        if t.t in ")]>": d -= 1
        if t.k == "id" and k + 1 < e and fn.sig[k+1].t == ":" and t.t not in ("mut",): out.append(t.t)
        elif d == 1 and t.k == "id" and fn.sig[k-1].t in ("(", ",") and fn.sig[k+1].t in (",", ")"): out.append(t.t)
    b = fn.body
    for k, t in enumerate(b):
        if t.t == "let":
            j = k + 1
            while j < len(b) and b[j].t not in ("=", ";", ":"):
                if b[j].k == "id" and b[j].t not in ("mut", "ref", "_", "Some", "Ok", "Err", "None") and not b[j].t[0].isupper(): out.append(b[j].t)
                j += 1
        if t.t == "for":
            j = k + 1
            while j < len(b) and b[j].t != "in":
                if b[j].k == "id" and b[j].t not in ("mut", "_"): out.append(b[j].t)
                j += 1
    return out

KEYWORDS = set("as break const continue crate else enum extern false fn for if impl in let loop match mod move mut pub ref return self Self static struct super trait true type unsafe use where while dyn".split())

def calls(toks):
    """names called as functions or methods in the token list"""
    out = set()
    for i, t in enumerate(toks):
        if t.k == "id" and t.t not in KEYWORDS and i + 1 < len(toks):
            j = i + 1
            if toks[j].t == "::" and j + 1 < len(toks) and toks[j+1].t == "<":
                j = skip_angles(toks, j + 1) + 1
            if j < len(toks) and toks[j].t == "(" and not (i > 0 and toks[i-1].t == "fn"): out.add(t.t)
    return out

def bytestr(t):
    import ast
    if t.startswith("br"): b = t[t.index('"')+1:t.rindex('"')].encode()
    else: b = ast.literal_eval(re.sub(r"\\\n\s*", "", t))
    return "&[" + ", ".join("%du8" % x for x in b) + "]"

# ---------------------------------------------------------------- rendering
class Ann:
    def __init__(s):
        s.ret = None; s.sig = ""; s.start = ""; s.tail = ""; s.end = ""
        s.loops = {}; s.around = {}; s.endall = set(); s.at = []; s.subs = []; s.opts = {}; s.name = None
    def map_names(s, f):
        s.sig, s.start, s.tail, s.end = map(f, (s.sig, s.start, s.tail, s.end))
        s.loops = {k: f(v) for k, v in s.loops.items()}; s.around = {k: f(v) for k, v in s.around.items()}
        s.at = [(w, f(p), k, f(x)) for (w, p, k, x) in s.at]
    def text(s): return "\n".join([s.sig, s.start, s.tail, s.end] + list(s.loops.values()) + list(s.around.values()) + [x[1] + x[3] for x in s.at])

STD_METHODS = set("get get_mut push pop put insert remove contains contains_key len is_empty iter iter_mut into_iter next map filter fold collect clone new from into min max abs swap extend extend_from_slice fill first last sum rev zip enumerate take skip any all find position is_some is_none is_ok is_err unwrap expect unwrap_or ok err as_ref as_mut write write_all read flush cmp eq partial_cmp to_string to_vec peek sort sort_by resize truncate clear cap".split())

class Renderer:
    def __init__(s, idx, fn, ann, known, baseline):
        s.idx, s.fn, s.ann, s.known = idx, fn, ann, known
        s.used, s.loopno, s.tmp = set(["R0"]), 0, 0
        s.structs = []
        s.items = set(baseline.get("_items", ()))
        s.body = s.prep(fn.body)
        for it in idx.items:
            if it[0] == "struct" and it[2] == fn.file and it[3] is None and it[1] not in s.items and it[1] not in baseline.get("_types", ()) and any(x.k == "id" and x.t == it[1] for x in s.body):
                s.used.add("R11"); s.structs.append(text(strip_vis(strip_attrs([Tok(t.k, t.t, t.s, t.e, t.ws) for t in it[4]]))).strip())
        s.baseline = baseline
        s.seen_loops = set()

    def prep(s, toks):
        toks = [Tok(t.k, t.t, t.s, t.e, t.ws) for t in toks]
        toks = s.strip_nested(strip_vis(strip_attrs(toks)))
        for i, t in enumerate(toks):
            if t.k == "id" and t.t == "const" and i + 2 < len(toks) and toks[i+1].k == "id" and toks[i+2].t == ":":
                t.t = "let"; s.used.add("R9")
            if t.k == "str" and t.t.startswith("b"):
                t.t = bytestr(t.t); s.used.add("R9")
        return toks

    def strip_nested(s, toks):
        """R11: nested functions and module path prefixes"""
        out, i = [], 0
        while i < len(toks):
            t = toks[i]
            if t.t == "fn" and i + 1 < len(toks) and toks[i+1].k == "id" and (i == 0 or toks[i-1].t in (";", "{", "}")):
                k = i + 2
                if toks[k].t == "<": k = skip_angles(toks, k) + 1
                while toks[k].t != "{":
                    if toks[k].t in ("(", "["): k = match_close(toks, k)
                    k += 1
                s.used.add("R11"); i = match_close(toks, k) + 1; continue
            if t.t in MODULES and i + 1 < len(toks) and toks[i+1].t == "::" and not (out and out[-1].t == "::"):
                s.used.add("R11"); toks[i+2].ws = t.ws or toks[i+2].ws; i += 2; continue
            if t.t == "struct" and i + 2 < len(toks) and toks[i+1].k == "id" and toks[i+2].t == "{" and (i == 0 or toks[i-1].t in (";", "{", "}")):
                e = match_close(toks, i + 2)
                if s.fn.outer is not None or "::" in s.fn.path(): raise Misfit("struct nested in a method")
                s.used.add("R11"); s.structs.append(text(toks[i:e+1]).strip()); i = e + 1; continue
            out.append(t); i += 1
        return out

    def hoist_consts(s, toks):
        """module consts not carried by the template -> let at the start of the body"""
        bound = set(bindings(s.fn)) | set(toks[i+1].t for i, t in enumerate(toks) if t.t == "let" and i + 1 < len(toks))
        out, done = [], set()
        for i, t in enumerate(toks):
            if t.k != "id" or t.t in bound or t.t in done or t.t in s.items: continue
            if i > 0 and toks[i-1].t in (".", "::") : continue
            c = [it for it in s.idx.items if it[0] == "const" and it[1] == t.t and it[3] is None]
            if len(c) == 1:
                done.add(t.t); s.used.add("R9")
                out += s.prep(c[0][4])
        return out + toks

    # ---- helper inlining (R7)
    def inline_helpers(s, toks, depth=0):
        if depth > 6: raise Misfit("helper inlining too deep")
        i, out = 0, []
        names = {}
        for f in s.idx.fns:
            if (f.outer is None or f.outer == s.fn.path()) and f.path() not in s.known: names.setdefault(f.name, []).append(f)
        known_names = set(p.split("/")[-1].split("::")[-1] for p in s.known)
        while i < len(toks):
            t = toks[i]
            f = None
            if t.k == "id" and t.t in names and t.t not in known_names and i + 1 < len(toks) and toks[i+1].t == "(" and not (i > 0 and toks[i-1].t == "fn"):
                cands = [g for g in names[t.t] if g.file == s.fn.file] or names[t.t]
                if len(cands) == 1 and t.t not in s.ann.opts.get("nocall", "").split(","): f = cands[0]
            if f is None: out.append(t); i += 1; continue
            if any(x.t in ("return", "?") for x in f.body): raise Misfit("helper %s uses return/?: cannot inline" % f.name)
            e = match_close(toks, i + 1)
            args, cur, d = [], [], 0
            for x in toks[i+2:e]:
                if x.t in OPEN: d += 1
                if x.t in CLOSE: d -= 1
                if x.t == "," and d == 0: args.append(cur); cur = []
                else: cur.append(x)
            if cur: args.append(cur)
            # params
            a = next(k for k, x in enumerate(f.sig) if x.t == "(")
            b = match_close(f.sig, a)
            params, cur, d = [], [], 0
            for x in f.sig[a+1:b]:
                if x.t in OPEN or x.t == "<": d += 1
                if x.t in CLOSE or x.t == ">": d -= 1
                if x.t == "," and d == 0: params.append(cur); cur = []
                else: cur.append(x)
            if cur: params.append(cur)
            recv_other, is_method = None, bool(params) and any(x.t == "self" for x in params[0])
            if is_method:
                params = params[1:]
                selfp = [x.t for x in f.sig[a+1:b]][:3]
                if out and out[-1].t == "." and len(out) >= 2 and out[-2].t == "self" and (len(out) < 3 or out[-3].t != "."):
                    ws = out[-2].ws; out = out[:-2]
                elif out and out[-1].t == "." and f.name not in STD_METHODS and selfp[0] == "&" and "mut" not in selfp:
                    j = s.receiver_start(out, len(out) - 1)
                    recv_other = out[j:-1]; ws = out[j].ws; out = out[:j]
                else: raise Misfit("helper method %s called on a non-self receiver" % f.name)
            else:
                ws = t.ws
                while len(out) >= 2 and out[-1].t == "::" and out[-2].k == "id":
                    ws = out[-2].ws; out = out[:-2]
            if len(params) != len(args): raise Misfit("helper %s: arity" % f.name)
            s.used.add("R7")
            txt = "{ "
            if recv_other: txt += "let _self%d = &%s; " % (depth, text(recv_other).strip())
            for p_, a_ in zip(params, args):
                txt += "let %s = %s; " % (text(p_).strip(), text(a_).strip())
            body = s.inline_helpers(s.prep(f.body), depth + 1)
            if recv_other:
                for x in body:
                    if x.k == "id" and x.t == "self": x.t = "_self%d" % depth
            ret = next((k for k, x in enumerate(f.sig[b:]) if x.t == "->"), None)
            pre = s.strip_nested(lex(txt))
            pre[0].ws = ws or " "
            out += pre + body + lex(" }")
            i = e + 1
        return out

    # ---- annotations at token positions
    def place(s, toks):
        ins = {}
        for (where, pat, k, txt) in s.ann.at:
            pt = [t.t for t in lex(pat)]
            hits = [i for i in range(len(toks) - len(pt) + 1) if [x.t for x in toks[i:i+len(pt)]] == pt]
            if len(hits) <= k: raise Misfit("anchor %r #%d not found in %s" % (pat, k, s.fn.path()))
            i = hits[k]
            if where == "after":
                d = 0; j = i
                while j < len(toks):
                    if toks[j].t in OPEN: d += 1
                    elif toks[j].t in CLOSE:
                        d -= 1
                        if d < 0: break
                        if d == 0 and toks[j].t == "}" and j + 1 < len(toks) and toks[j+1].t not in (".", "?", ")", "]", ",", ";", "else", "}"): break
                    elif toks[j].t == ";" and d == 0: break
                    j += 1
                ins.setdefault(j + 1 if j < len(toks) and toks[j].t in (";", "}") and d >= 0 else j, []).append(txt)
            else:
                d = 0; j = i - 1
                while j >= 0:
                    if toks[j].t in CLOSE:
                        if toks[j].t == "}" and d == 0: break
                        d += 1
                    elif toks[j].t in OPEN:
                        if d == 0 and toks[j].t == "{": break
                        d -= 1
                        if d < 0: d = 0
                    elif toks[j].t == ";" and d == 0: break
                    j -= 1
                ins.setdefault(j + 1, []).append(txt)
        return ins

    def run(s):
        toks = s.hoist_consts(s.inline_helpers(s.body))
        # mark insertion points as pseudo tokens so that recursion keeps them
        ins = s.place(toks)
        if s.ann.tail:
            j = s.tail_index(toks)
            ins.setdefault(j, []).append(s.ann.tail)
        out = []
        for i, t in enumerate(toks):
            for x in ins.get(i, []): out.append(Tok("ghost", "\n" + x + "\n", 0, 0, "\n"))
            out.append(t)
        for x in ins.get(len(toks), []): out.append(Tok("ghost", "\n" + x + "\n", 0, 0, "\n"))
        body = s.render(out)
        missing = [k for k in list(s.ann.loops) + [k for k, _ in s.ann.around] if k not in s.seen_loops]
        if missing: raise Misfit("loop %s of %s not found" % (missing, s.fn.path()))
        if s.loopno > len(set(s.ann.loops)) and not s.ann.opts.get("extraloops"):
            raise Misfit("%s has %d loops, annotations cover %d" % (s.fn.path(), s.loopno, len(s.ann.loops)))
        sig = s.render_sig()
        return "".join(x + "\n" for x in s.structs) + sig + ("\n" + s.ann.sig if s.ann.sig.strip() else "") + "\n{" + "".join("\nlet %s = _p%d;" % (q, n) for n, q in enumerate(s.pats)) + ("\n" + s.ann.start if s.ann.start else "") + body + (";" if s.ann.end and "->" not in sig.split("where")[0] and body.strip() and not body.rstrip().endswith((";", "}")) else "") + ("\n" + s.ann.end if s.ann.end else "") + "\n}\n"

    def tail_index(s, toks):
        """token index where the tail expression of the body starts"""
        d, last = 0, 0
        i = 0
        while i < len(toks):
            t = toks[i]
            if t.t in OPEN:
                start = i
                i = match_close(toks, i)
                if t.t == "{" and i + 1 < len(toks) and toks[i+1].t not in (".", "?", ",", ")", ";", "else") and not (start > 0 and toks[start-1].t in ("=",)):
                    last = i + 1
            elif t.t == ";": last = i + 1
            i += 1
        return last

    def render_sig(s):
        sig = strip_vis(strip_attrs([Tok(t.k, t.t, t.s, t.e, t.ws) for t in s.fn.sig]))
        txt = ptext(sig)
        txt2 = re.sub(r"\b(?:%s)\s*::\s*(?=\w)" % "|".join(MODULES), "", txt)
        if txt2 != txt: s.used.add("R11"); txt = txt2
        if s.ann.opts.get("writer"):
            # R4
            m = re.search(r"(mut\s+)?([A-Za-z_][A-Za-z0-9_]*)\s*:\s*W\b", txt)
            if not m: raise Misfit("writer parameter not found in %s" % s.fn.path())
            s.wname = m.group(2)
            txt = txt[:m.start()] + m.group(2) + ": &mut W" + txt[m.end():]
            s.used.add("R4")
        txt2 = re.sub(r"([(,]\s*)_\s*:", r"\1_unused:", txt)
        if txt2 != txt: s.used.add("R3"); txt = txt2
        s.pats = []
        def pat(m): s.pats.append(m.group(2)); s.used.add("R3"); return "%s_p%d:" % (m.group(1), len(s.pats) - 1)
        txt = re.sub(r"([(,]\s*)(\((?:\w+|mut \w+)(?:\s*,\s*(?:\w+|mut \w+))*\s*,?\s*\))\s*:", pat, txt)
        for a, b in s.ann.subs: txt = re.sub(a, b, txt)
        if s.ann.ret:
            m = re.search(r"->\s*(.*?)(\s+where\b.*)?$", txt, re.S)
            if not m: raise Misfit("no return type in %s" % s.fn.path())
            txt = txt[:m.start()] + "-> (%s: %s)" % (s.ann.ret, m.group(1).strip()) + (m.group(2) or "")
        if s.ann.opts.get("rename"): txt = re.sub(r"\bfn\s+\w+", "fn " + s.ann.opts["rename"], txt, count=1)
        return txt

    def emit(s, t): return ("\n" + t.ws.split("\n")[-1] if "\n" in t.ws else (" " if t.ws else "")) + t.t

    def render(s, toks):
        out, i = [], 0
        while i < len(toks):
            t = toks[i]
            if t.k == "id" and t.t in ("for", "while", "loop") and not (t.t == "for" and i + 1 < len(toks) and toks[i+1].t == "<"):
                i, txt = s.render_loop(toks, i); out.append("\n" + txt + "\n"); continue
            if t.k == "id" and t.t in ("assert_ne", "assert_eq", "debug_assert_ne", "debug_assert_eq", "debug_assert") and i + 2 < len(toks) and toks[i+1].t == "!" and toks[i+2].t == "(":
                e = match_close(toks, i + 2); args, cur, d = [], [], 0
                for x in toks[i+3:e]:
                    if x.t in OPEN: d += 1
                    if x.t in CLOSE: d -= 1
                    if x.t == "," and d == 0: args.append(cur); cur = []
                    else: cur.append(x)
                if cur: args.append(cur)
                s.used.add("R13")
                if t.t == "debug_assert": out.append(" assert!(%s)" % s.render(args[0]))
                else: out.append(" assert!((%s) %s (%s))" % (s.render(args[0]), "!=" if t.t.endswith("ne") else "==", s.render(args[1])))
                i = e + 1; continue
            if t.t == "|" and i + 2 < len(toks) and toks[i+1].t == "_" and toks[i+2].t == "|":
                # closure |_| : maybe part of or_else / map_err
                s.used.add("R3")
                out.append(s.emit(t) + "_unused|"); i += 3; continue
            if t.t == "." and i + 6 < len(toks) and toks[i+1].t in ("or_else", "map_err") and toks[i+2].t == "(" and toks[i+3].t == "|" and toks[i+4].t == "_" and toks[i+5].t == "|":
                e = match_close(toks, i + 2)
                b = toks[i+6:e]
                # receiver: scan back over already emitted text is fragile -> walk tokens back
                j = s.receiver_start(toks, i)
                n = i - j
                # drop the receiver text from out: re-render
                # out entries are 1:1 with tokens here only for plain tokens; rebuild from marker
                recv = s.render(toks[j:i])
                full = "".join(out)
                if not full.endswith(recv): raise Misfit("cannot isolate receiver of %s" % toks[i+1].t)
                out = [full[:len(full) - len(recv)]]
                body = s.render(b)
                s.used.add("R5")
                if toks[i+1].t == "or_else": out.append(" (match %s { Ok(v_) => Ok(v_), Err(_) => { %s } })" % (recv, body))
                else: out.append(" (match %s { Ok(v_) => Ok(v_), Err(_) => Err(%s) })" % (recv, body))
                i = e + 1; continue
            if t.t == "." and i + 5 < len(toks) and toks[i+1].t in ("map", "and_then") and toks[i+2].t == "(" and toks[i+3].t == "|" and toks[i+4].k == "id" and toks[i+5].t == "|" and s.gives_option(toks, i):
                e = match_close(toks, i + 2)
                j = s.receiver_start(toks, i)
                recv = s.render(toks[j:i]); full = "".join(out)
                if not full.endswith(recv): raise Misfit("cannot isolate receiver of %s" % toks[i+1].t)
                out = [full[:len(full) - len(recv)]]
                body = s.render([x for x in toks[i+6:e]])
                s.used.add("R5")
                v = toks[i+4].t
                out.append((" (match %s { Some(%s) => Some(%s), None => None })" if toks[i+1].t == "map" else " (match %s { Some(%s) => %s, None => None })") % (recv, v, body))
                i = e + 1; continue
            if t.t == "." and i + 3 < len(toks) and toks[i+1].t == "extend" and toks[i+2].t == "(" and i and toks[i-1].k == "id" and match_close(toks, i + 2) + 1 < len(toks) and toks[match_close(toks, i + 2) + 1].t == ";":
                e = match_close(toks, i + 2); b = toks[i+3:e]; v = None
                j = s.receiver_start(toks, i); recv = s.render(toks[j:i]); full = "".join(out)
                if not full.endswith(recv): raise Misfit("cannot isolate receiver of extend")
                if b and b[0].t == "[" and match_close(b, 0) == len(b) - 1:
                    args, cur, d = [], [], 0
                    for x in b[1:-1]:
                        if x.t in OPEN: d += 1
                        if x.t in CLOSE: d -= 1
                        if x.t == "," and d == 0: args.append(cur); cur = []
                        else: cur.append(x)
                    if cur: args.append(cur)
                    if not any(x.t == ";" for x in b): v = "{ " + "".join("let _x%d = %s; " % (n, s.render(a).strip()) for n, a in enumerate(args)) + "".join("%s.push(_x%d); " % (recv.strip(), n) for n in range(len(args))) + "}"
                elif s.gives_option(b, len(b)): v = "match %s { Some(_x) => { %s.push(_x); } None => { } }" % (s.render(b).strip(), recv.strip())
                if v:
                    s.used.add("R15"); out = [full[:len(full) - len(recv)], "\n" + v]; i = e + 2; continue
            if t.t == "." and s.ann.opts.get("sortkey") and i + 7 < len(toks) and toks[i+1].t in ("sort_by", "sort_unstable_by") and toks[i+2].t == "(" and toks[i+3].t == "|" and toks[i+4].k == "id" and toks[i+5].t == "," and toks[i+6].k == "id" and toks[i+7].t == "|":
                e = match_close(toks, i + 2); b = toks[i+8:e]
                if b and b[-1].t == ",": b = b[:-1]
                ty, key = s.ann.opts["sortkey"].split(":", 1)
                j = s.receiver_start(toks, i); recv = s.render(toks[j:i]); full = "".join(out)
                if not full.endswith(recv): raise Misfit("cannot isolate receiver of sort_by")
                x, y = toks[i+4].t, toks[i+6].t
                s.used.add("R16")
                out = [full[:len(full) - len(recv)], " stdx_sort_by(&mut %s, |%s: &%s, %s: &%s| -> (o: core::cmp::Ordering) ensures o == by_key(%s.%s, %s.%s) { %s }, Ghost(|s: %s| s.%s))" % (recv.strip(), x, ty, y, ty, x, key, y, key, s.render(b), ty, key)]
                i = e + 1; continue
            c = s.parse_collect(toks, i)
            if c:
                own, calls, e = c
                j = s.receiver_start(toks, i)
                recv = s.render(toks[j:i]); full = "".join(out)
                if not full.endswith(recv): raise Misfit("cannot isolate receiver of iter")
                out = [full[:len(full) - len(recv)]]
                out.append(s.render_collect(recv.strip(), own, calls)); i = e; continue
            out.append(s.emit(t)); i += 1
        return "".join(out)

    def parse_collect(s, toks, i):
        """E.iter()/.into_iter() [.map(|x| ..) | .filter_map(|x| ..)]* .collect() -> (owned, [(kind, param, body)], end)"""
        tt = lambda k: toks[k].t if k < len(toks) else ""
        if not (tt(i) == "." and tt(i+1) in ("iter", "into_iter") and tt(i+2) == "(" and tt(i+3) == ")"): return None
        own, calls, k = tt(i+1) == "into_iter", [], i + 4
        while tt(k) == "." and tt(k+1) in ("map", "filter_map") and tt(k+2) == "(" and tt(k+3) == "|" and toks[k+4].k == "id" and tt(k+5) == "|":
            e = match_close(toks, k + 2)
            b = toks[k+6:e]
            if b and b[-1].t == ",": b = b[:-1]
            calls.append((tt(k+1), tt(k+4), b)); k = e + 1
        if not (tt(k) == "." and tt(k+1) == "collect"): return None
        k += 2
        if tt(k) == "::":
            if tt(k+1) != "<": return None
            k = skip_angles(toks, k + 1) + 1
        if not (tt(k) == "(" and tt(k+1) == ")"): return None
        return own, calls, k + 2

    def render_collect(s, recv, own, calls):
        k = s.loopno; s.loopno += 1; s.seen_loops.add(k)
        s.used.add("R15")
        inv = s.ann.loops.get(k, "")
        g = lambda w: ("\n" + s.ann.around.get((k, w)) + "\n") if (k, w) in s.ann.around else ""
        def chain(n, val):
            if n == len(calls): return "_c%d.push(%s);" % (k, val)
            kind, p, b = calls[n]
            body = s.render(b)
            if kind == "map": return "let _v%d_%d = { let %s = %s; %s };\n%s" % (k, n, p, val, body, chain(n + 1, "_v%d_%d" % (k, n)))
            return "let _o%d_%d = { let %s = %s; %s };\nmatch _o%d_%d { Some(_v%d_%d) => { %s } None => { } }" % (k, n, p, val, body, k, n, k, n, chain(n + 1, "_v%d_%d" % (k, n)))
        vec = s.ann.opts.get("iter") == "vec"
        if vec: inv, g = s.neutral(k, inv, own, recv, "_it%d" % k, False)
        if own:
            return " { let mut _c%d = Vec::new(); let mut _it%d = %s; " % (k, k, recv) + ("let ghost _s%d = _it%d@;" % (k, k) if vec else "") + g("before") + "loop\n%s\n{ match stdx_next(&mut _it%d) { Some(_e%d) => {" % (inv, k, k) + g("begin") + chain(0, "_e%d" % k) + g("end") + "\n}, None => { break; } } }" + g("after") + " _c%d }" % k
        if inv and "decreases" not in inv: inv += "\n decreases %s.len() - _it%d," % (recv, k)
        return " { let mut _c%d = Vec::new(); let mut _it%d: usize = 0; " % (k, k) + ("let ghost _s%d = %s@;" % (k, recv) if vec else "") + g("before") + "while _it%d < %s.len()\n%s\n{" % (k, recv, inv) + g("begin") + chain(0, "&%s[_it%d]" % (recv, k)) + g("end") + "\n_it%d += 1; }" % k + g("after") + " _c%d }" % k

    def neutral(s, k, inv, own, base, iv, breaks):
        """annotations of a loop over a Vec, in terms of _s<k> (what is gone through) and _n<k> (how far), for the form the loop has"""
        if own:
            head, cur = "(_s%d.len() - _it%d@.len())" % (k, k), "(_s%d.len() - _it%d@.len() - 1)" % (k, k)
            auto = "_it%d@.len() <= _s%d.len(), _it%d@ == _s%d.skip(_s%d.len() - _it%d@.len())," % (k, k, k, k, k, k)
            tail = "" if breaks else "\n ensures _it%d@.len() == 0" % k
            tail += "\n decreases _it%d@.len()," % k
        else:
            head = cur = "(%s as int)" % iv
            auto = "_s%d == %s@, %s <= _s%d.len()," % (k, base, iv, k)
            tail = "\n decreases _s%d.len() - %s," % (k, iv)
        sub = lambda t, n: re.sub(r"\b_n%d\b" % k, n, t)
        inv = sub(inv, head).strip()
        inv = re.sub(r"^invariant\b", "invariant " + auto, inv) if inv.startswith("invariant") else "invariant " + auto + "\n" + inv
        if "decreases" not in inv: inv = inv.rstrip().rstrip(",") + "," + tail
        g = lambda w: ("\n" + sub(s.ann.around[(k, w)], {"begin": cur, "end": cur, "top": head, "before": "0int", "after": "(_s%d.len() as int)" % k}[w]) + "\n") if (k, w) in s.ann.around else ""
        return inv, g

    def has_loop_break(s, body):
        i = 0
        while i < len(body):
            t = body[i]
            if t.k == "id" and t.t in ("for", "while", "loop"):
                b = s.find_brace(body, i); i = match_close(body, b) + 1; continue
            if t.t == "break": return True
            i += 1
        return False

    def gives_option(s, toks, i):
        """the postfix expression ending before i is a call of a function of the repository that returns an Option"""
        if not i or toks[i-1].t != ")": return False
        d, j = 0, i - 1
        while True:
            if toks[j].t in CLOSE: d += 1
            elif toks[j].t in OPEN:
                d -= 1
                if d == 0: break
            j -= 1
        if j == 0 or toks[j-1].k != "id": return False
        c = [f for f in s.idx.fns if f.name == toks[j-1].t]
        return bool(c) and all(re.search(r"->\s*Option\s*<", text(f.sig)) for f in c)

    def receiver_start(s, toks, i):
        """index of the first token of the postfix expression ending just before i"""
        j = i - 1
        while True:
            if toks[j].t in CLOSE:
                d = 0
                while True:
                    if toks[j].t in CLOSE: d += 1
                    elif toks[j].t in OPEN:
                        d -= 1
                        if d == 0: break
                    j -= 1
                if j > 0 and (toks[j-1].k == "id" and toks[j-1].t not in KEYWORDS - {"self"}): j -= 1
            if j > 0 and toks[j-1].t in (".", "::"):
                j -= 2; continue
            return j

    def find_brace(s, toks, i):
        while i < len(toks):
            if toks[i].t == "{": return i
            if toks[i].t in ("(", "["): i = match_close(toks, i)
            i += 1
        raise Misfit("loop body not found")

    def has_loop_continue(s, body):
        i = 0
        while i < len(body):
            t = body[i]
            if t.k == "id" and t.t in ("for", "while", "loop"):
                b = s.find_brace(body, i); i = match_close(body, b) + 1; continue
            if t.t == "continue": return True
            i += 1
        return False

    def patch_continue(s, body, inc, ghost=None):
        out, i = [], 0
        while i < len(body):
            t = body[i]
            if t.k == "id" and t.t in ("for", "while", "loop"):
                b = s.find_brace(body, i); e = match_close(body, b)
                out += body[i:e+1]; i = e + 1; continue
            if t.t == "continue":
                if ghost is not None:
                    out += lex(" {") + [Tok("ghost", "\n" + ghost + "\n", 0, 0, "\n")] + lex(" continue }")
                    i += 1; continue
                pre = lex("{ %s continue" % inc); pre[0].ws = " "
                out += pre
                out += lex(" }")
                i += 1; continue
            out.append(t); i += 1
        return out

    def render_loop(s, toks, i):
        k = s.loopno; s.loopno += 1; s.seen_loops.add(k)
        kw = toks[i].t
        b = s.find_brace(toks, i + 1); e = match_close(toks, b)
        head, body = toks[i+1:b], toks[b+1:e]
        inv = s.ann.loops.get(k, "")
        g = lambda w: ("\n" + s.ann.around.get((k, w)) + "\n") if (k, w) in s.ann.around else ""
        endall = lambda body, g: s.patch_continue(body, None, g("end")) if (k, "end") in s.ann.endall and s.has_loop_continue(body) else body
        if kw != "for": body = endall(body, g)
        if kw == "while":
            if head and head[0].t == "let":
                s.used.add("R6")
                q = next(j for j, x in enumerate(head) if x.t == "=")
                pat, ex = text(head[1:q]).strip(), text(head[q+1:]).strip()
                r = g("before") + "loop %s {" % inv + g("top") + "\nmatch %s { %s => {" % (ex, pat) + g("begin") + s.render(body) + g("end") + "\n}, _ => { break; } }\n}" + g("after")
            elif inv and "decreases" not in inv and s.counted(head, body):
                # the annotations are those of the range loop which this loop spells out
                s.used.add("R1"); v, h, op, up, body = s.counted(head, body)
                fix = lambda t: re.sub(r"\b_(?:hi|lo)%d\b" % k, "(%s)" % h, t) if not up else re.sub(r"\b_hi%d\b" % k, "(%s)" % h, t)
                st = "%s %s= 1;" % (v, "+" if up else "-")
                dec = "\n decreases %s," % (("%s - %s" % (h, v) if op == "<" else "%s + 1 - %s" % (h, v)) if up else "%s - %s" % (v, h))
                bt = s.render(body)
                if up and bt.strip() and not bt.rstrip().endswith((";", "}", "{")): bt += ";"
                r = ("let ghost _lo%d = %s;" % (k, v) if up else "let ghost _hi%d = %s;" % (k, v)) + fix(g("before")) + "while %s %s %s\n%s\n{" % (v, op, h, fix(inv).rstrip().rstrip(",") + "," + dec) + ("" if up else st) + fix(g("begin")) + bt + fix(g("end")) + (st if up else "") + "\n}" + (";" if e + 1 < len(toks) else "") + fix(g("after"))
            else:
                cond = s.render(head)
                r = g("before") + "while%s\n%s\n{" % (cond if cond.startswith((" ", "\n")) else " " + cond, inv) + g("begin") + s.render(body) + g("end") + "\n}" + (";" if e + 1 < len(toks) else "") + g("after")
            return e + 1, r
        if kw == "loop":
            r = g("before") + "loop\n%s\n{" % inv + g("begin") + s.render(body) + g("end") + "\n}" + g("after")
            return e + 1, r
        # for loops
        vec = s.ann.opts.get("iter") == "vec"
        if any("_c%d" % k in t for t in [inv] + [v for (n, w), v in s.ann.around.items() if n == k]):
            # the Vec that a collect would make is the one the loop pushes to
            c = next((body[j].t for j in range(len(body) - 2) if body[j].k == "id" and body[j+1].t == "." and body[j+2].t in ("push", "extend") and (j == 0 or body[j-1].t != ".")), None)
            if c is None: raise Misfit("loop %d of %s pushes to no Vec" % (k, s.fn.path()))
            fix = lambda t: re.sub(r"\b_c%d\b" % k, c, t)
            inv = fix(inv)
            for w in ("before", "begin", "end", "after", "top"):
                if (k, w) in s.ann.around: s.ann.around[(k, w)] = fix(s.ann.around[(k, w)])
        q = next(j for j, x in enumerate(head) if x.t == "in")
        pat, ex = head[:q], head[q+1:]
        pt = text(pat).strip()
        rng = s.parse_range(ex)
        if rng and re.fullmatch(r"(mut )?[A-Za-z_]\w*|_", pt):
            s.used.add("R1"); body = endall(body, g)
            lo, hi, incl, rev, step = rng
            v = pt if pt != "_" else "_it%d" % k
            if pt.startswith("mut "): raise Misfit("mutable loop variable")
            H = "_hi%d" % k
            lo_t, hi_t = s.render(lo).strip() or "0", s.render(hi).strip()
            if rev:
                if incl or step: raise Misfit("unsupported range")
                # for v in (lo..hi).rev()
                if inv and "decreases" not in inv: inv += "\n decreases %s - %s," % (v, "_lo%d" % k)
                elif not inv: inv = "decreases %s - _lo%d," % (v, k)
                hd = "{ let _lo%d = %s; let mut %s = %s; " % (k, lo_t, v, hi_t)
                r = hd + g("before") + "while %s > _lo%d\n%s\n{ %s -= 1;" % (v, k, inv, v) + g("begin") + s.render(body) + g("end") + "\n}" + g("after") + "}"
                return e + 1, r
            st = step or "1"
            inc = "%s += %s;" % (v, st)
            if s.has_loop_continue(body): body = s.patch_continue(body, inc)
            op = "<=" if incl else "<"
            dec = ("(%s as int) + (%s as int) - (%s as int)" % (H, st, v) if step else "%s - %s" % (H, v)) if not incl else "%s + %s - %s" % (H, st, v)
            if inv and "decreases" not in inv: inv += "\n decreases %s," % dec
            elif not inv: inv = "decreases %s," % dec
            bt = s.render(body)
            r = "{ let _lo%d = %s; let %s = %s; let mut %s = _lo%d; " % (k, lo_t, H, hi_t, v, k) + g("before") + "while %s %s %s\n%s\n{" % (v, op, H, inv) + g("begin") + bt + ("" if bt.rstrip().endswith((";", "}", "{")) or not bt.strip() else ";") + g("end") + "\n%s }" % inc + g("after") + "}"
            return e + 1, r
        ext = text(ex).strip()
        if vec:
            if ext.endswith(("]",)) or ".." in ext: raise Misfit("loop over a slice")
            mm = re.fullmatch(r"&\s*((?:\w+\s*\.\s*)*\w+)", ext)
            if mm: ext = mm.group(1) + ".iter()"
            ext = re.sub(r"\s*\.\s*into_iter\s*\(\s*\)$", "", ext)
        m = None if s.ann.opts.get("iter") == "lru" else re.fullmatch(r"(.*?)\s*\.\s*iter\s*\(\s*\)(?:\s*\.\s*take_while\s*\(\s*\|\s*&&(\w+)\s*\|\s*(.*?)\))?(\s*\.\s*enumerate\s*\(\s*\))?", ext, re.S)
        if m:
            s.used.add("R2")
            base, tv, tc, en = m.groups()
            if en:
                pm = re.fullmatch(r"\(\s*(\w+)\s*,\s*(&?)\s*(\w+)\s*\)", pt)
                if not pm: raise Misfit("for pattern " + pt)
                iv, amp, pv = pm.groups()
            else:
                pm = re.fullmatch(r"(&?)\s*(\w+)", pt)
                if not pm: raise Misfit("for pattern " + pt)
                amp, pv = pm.groups(); iv = "_it%d" % k
            if iv == "_": iv = "_it%d" % k
            inc = "%s += 1;" % iv
            if vec: inv, g = s.neutral(k, inv, False, base, iv, s.has_loop_break(body))
            body = endall(body, g)
            if s.has_loop_continue(body): body = s.patch_continue(body, inc)
            val = "%s[%s]" % (base, iv)
            if not amp: val = "&" + val
            tw = ""
            if tv: tw = "\n{ let %s = %s[%s]; if !(%s) { break; } }" % (tv, base, iv, tc)
            if inv and "decreases" not in inv: inv += "\n decreases %s.len() - %s," % (base, iv)
            bt = s.render(body)
            r = "{ let mut %s: usize = 0; " % iv + ("let ghost _s%d = %s@;" % (k, base) if vec else "") + g("before") + "while %s < %s.len()\n%s\n{%s\nlet %s = %s;" % (iv, base, inv, tw, pv, val) + g("begin") + bt + ("" if bt.rstrip().endswith((";", "}", "{")) or not bt.strip() else ";") + g("end") + "\n%s }" % inc + g("after") + "}"
            return e + 1, r
        if s.ann.opts.get("iter"):
            if s.ann.opts["iter"] == "lru":
                mm = re.fullmatch(r"&\s*((?:\w+\s*\.\s*)*\w+)", ext)
                if mm: ex = lex(mm.group(1) + ".iter()")
            refs = re.findall(r"&\s*(\w+)", pt)
            if refs:
                # reference patterns bind copies
                pt = re.sub(r"&\s*(\w+)", r"_r_\1", pt)
                body = lex(" ".join("let %s = *_r_%s;" % (v, v) for v in refs)) + list(body)
            s.used.add("R15" if vec else "R12")
            if vec:
                inv, g = s.neutral(k, inv, True, None, None, s.has_loop_break(body))
                ex = lex(ext)
            body = endall(body, g)
            r = "{ let mut _it%d = %s; " % (k, s.render(ex).strip()) + ("let ghost _s%d = _it%d@;" % (k, k) if vec else "") + g("before") + "loop\n%s\n{ match %s { Some(%s) => {" % (inv, "stdx_next(&mut _it%d)" % k if s.ann.opts["iter"] == "vec" else "_it%d.next()" % k, pt) + g("begin") + s.render(body) + g("end") + "\n}, None => { break; } } }" + g("after") + "}"
            return e + 1, r
        # leave native
        r = g("before") + "for " + pt + " in " + s.render(ex).strip() + "\n%s\n{" % inv + g("begin") + s.render(body) + g("end") + "\n}" + g("after")
        return e + 1, r

    def counted(s, head, body):
        """while V < H { B; V += 1; } or while V > L { V -= 1; B } -> (V, H, operator, up, B)"""
        h = re.sub(r"\s+", "", text(head)); A = r"(?:\w+|(?:\w+\.)*\w+\.len\(\)|(?:\w+\.)+\w+|\w+[-+]\w+)"
        m = re.fullmatch(r"([a-z_]\w*)(<=?|>)(%s)" % A, h)
        if not m:
            m = re.fullmatch(r"(%s)(>=?|<)([a-z_]\w*)" % A, h)
            if not m: return None
            v, o, b = m.group(3), {">": "<", ">=": "<=", "<": ">"}[m.group(2)], m.group(1)
        else: v, o, b = m.groups()
        if s.has_loop_continue(body): return None
        t = [x.t for x in body]
        if o == ">": return (v, b, o, False, body[4:]) if t[:4] == [v, "-=", "1", ";"] else None
        if t[-4:] == [v, "+=", "1", ";"]: return v, b, o, True, body[:-4]
        if t[-6:] == [v, "=", v, "+", "1", ";"]: return v, b, o, True, body[:-6]
        return None

    def parse_range(s, ex):
        """-> (lo, hi, inclusive, rev, step) or None"""
        rev, step = False, None
        toks = list(ex)
        while True:
            if len(toks) >= 4 and [x.t for x in toks[-4:]] == [".", "rev", "(", ")"]: rev = not rev; toks = toks[:-4]; continue
            if len(toks) > 4 and toks[-1].t == ")":
                # .step_by(N)
                d = 0; j = len(toks) - 1
                while True:
                    if toks[j].t in CLOSE: d += 1
                    if toks[j].t in OPEN:
                        d -= 1
                        if d == 0: break
                    j -= 1
                if j >= 2 and toks[j-1].t == "step_by" and toks[j-2].t == ".":
                    if step or rev: return None
                    step = text(toks[j+1:-1]).strip(); toks = toks[:j-2]; continue
                if j == 0: toks = toks[1:-1]; continue
            break
        d = 0
        for j, x in enumerate(toks):
            if x.t in OPEN: d += 1
            if x.t in CLOSE: d -= 1
            if d == 0 and x.t in ("..", "..="):
                if j == 0 or j == len(toks) - 1: return None
                return toks[:j], toks[j+1:], x.t == "..=", rev, step
        return None

# ---------------------------------------------------------------- templates
DIR = re.compile(r"^\s*//@(\w+)(.*)$")

def parse_template(path):
    """-> list of ('text', str) | ('item', file, kind, name, opts) | ('fn', file, path, Ann)"""
    out, buf, cur, sect = [], [], None, None
    def flush():
        nonlocal buf
        if buf: out.append(("text", "\n".join(buf) + "\n")); buf = []
    for line in open(path, encoding="utf-8").read().split("\n"):
        m = DIR.match(line)
        if not m:
            if cur is None: buf.append(line)
            elif sect is None:
                if line.strip(): raise SystemExit("stray text in fn block: %s: %s" % (path, line))
            else: sect(line)
            continue
        d, rest = m.group(1), m.group(2).strip()
        if d == "include":
            flush(); f, *fl = rest.split(); sub = parse_template(os.path.join(os.path.dirname(path), f))
            if "contracts" in fl:
                # used through its contracts only: lemmas and functions are proved in the template that includes the file in full
                for j, p in enumerate(sub):
                    if p[0] == "text": sub[j] = ("text", re.sub(r"(?m)^proof fn", "#[verifier::external_body] /*contract*/ proof fn", p[1]))
                    elif p[0] == "fn": p[3].opts["contract"] = f
            out += sub; continue
        if d == "item":
            flush(); p = rest.split(); out.append(("item", p[0], p[1], p[2], dict(x.split("=", 1) for x in p[3:]))); continue
        if d == "fn":
            flush(); p = rest.split(); cur = Ann(); cur.file, cur.path = p[0], p[1]
            cur.opts = dict((x.split("=", 1) if "=" in x else (x, "1")) for x in p[2:]); sect = None; continue
        if cur is None: raise SystemExit("directive %s outside fn in %s" % (d, path))
        if d == "endfn": out.append(("fn", cur.file, cur.path, cur)); cur = None; sect = None; continue
        a = cur
        if d == "ret": a.ret = rest; sect = None
        elif d in ("sig", "start", "tail", "end"):
            def sect(l, d=d): setattr(a, d, getattr(a, d) + l + "\n")
        elif d == "loop":
            p = rest.split(); k = int(p[0])
            if len(p) == 1:
                a.loops.setdefault(k, "")
                def sect(l, k=k): a.loops[k] += l + "\n"
            else:
                a.around.setdefault((k, p[1]), "")
                if p[1:] == ["end", "all"]: a.endall.add((k, "end"))
                def sect(l, k=(k, p[1])): a.around[k] += l + "\n"
        elif d in ("after", "before"):
            mm = re.match(r'"(.*)"\s+(\d+)$', rest)
            a.at.append((d, mm.group(1), int(mm.group(2)), ""))
            def sect(l, q=len(a.at)-1): a.at[q] = a.at[q][:3] + (a.at[q][3] + l + "\n",)
        elif d == "sub":
            mm = re.match(r'"(.*?)"\s+"(.*)"$', rest); a.subs.append((mm.group(1), mm.group(2))); sect = None
        else: raise SystemExit("unknown directive " + d)
    flush()
    return out

def expand_repeat(txt):
    """R10: [E; N] with a literal N written out (values only, not array types)"""
    toks = lex(txt)
    eq = next((i for i, t in enumerate(toks) if t.t == "="), None)
    if eq is None: return txt
    def rec(ts):
        out, i = [], 0
        while i < len(ts):
            if ts[i].t == "[":
                e = match_close(ts, i)
                inner = ts[i+1:e]
                d, semi = 0, None
                for k, x in enumerate(inner):
                    if x.t in OPEN: d += 1
                    if x.t in CLOSE: d -= 1
                    if d == 0 and x.t == ";": semi = k
                if semi is not None and len(inner) == semi + 2 and inner[-1].k == "num" and int(inner[-1].t.rstrip("usize_")) <= 64:
                    n = int(inner[-1].t.rstrip("usize_"))
                    el = text(rec(inner[:semi])).strip()
                    out += lex(" [" + ", ".join([el] * n) + "]"); i = e + 1; continue
                out += [ts[i]] + rec(inner) + [ts[e]]; i = e + 1; continue
            out.append(ts[i]); i += 1
        return out
    return ptext(toks[:eq+1]) + ptext(rec(toks[eq+1:])).rstrip() + "\n"

def reals(txt, mode="1"):
    """R14: f64 -> the exact real stand-in Fl of verus/reals.rs; mode 2: casts to i32 are casts of integers"""
    t = re.sub(r"\bf64::EPSILON\b", "Fl::epsilon()", txt)
    t = re.sub(r"((?:(?:\w+(?:\[[^\]]*\])?\s*(?:\.|::)\s*)*\w+(?:\[[^\]]*\])?)|(?<![\w>])\([^()]*\))\s+as\s+f64\b", lambda m: "Fl::of(%s)" % (m.group(1)[1:-1] if m.group(1)[0] == "(" else m.group(1)), t)
    t = re.sub(r"\b0\.0(?:_?f64)?\b", "Fl::zero()", t)
    t = re.sub(r"\b1\.0(?:_?f64)?\b", "Fl::one()", t)
    t = re.sub(r"\b(\d+)\.(\d+)(?:_?f64)?\b", lambda m: "Fl::lit(%d, %d)" % (int(m.group(1) + m.group(2)), 10 ** len(m.group(2))), t)
    t = re.sub(r"\bf64\b", "Fl", t)
    t = re.sub(r"\.\s*floor\(\)\s+as\s+usize\b", ".floor().to_usize()", t)
    if mode == "1": t = re.sub(r"\b(\w+)\s+as\s+i32\b", r"\1.to_i32()", t)
    return t

def render_item(idx, file, kind, name, opts):
    it = idx.find_item(file, kind, name)
    toks = strip_vis(strip_attrs([Tok(t.k, t.t, t.s, t.e, t.ws) for t in it[4]]))
    txt = re.sub(r"\b(?:%s)\s*::\s*(?=\w)" % "|".join(MODULES), "", ptext(toks).strip()) + "\n"
    if kind == "const": txt = expand_repeat(txt)
    if opts.get("rename"): txt = re.sub(r"\b%s\b" % name, opts["rename"], txt)
    d = opts.get("derive")
    if opts.get("pub"):
        txt = "pub " + txt
        if kind == "struct": txt = re.sub(r"(?m)^(\s+)(\w+)(\s*:)", r"\1pub \2\3", txt)
    if opts.get("reals"): txt = reals(txt, opts["reals"])
    if opts.get("attr"): txt = "#[%s]\n" % opts["attr"] + txt
    return ("#[derive(%s)]\n" % d if d else "") + txt

def template_paths(parts): return set(p[2] for p in parts if p[0] == "fn")

def render_fn(idx, fn, ann, known, baseline, path):
    names = bindings(fn)
    base = baseline.get("bindings", {}).get(path, baseline.get("bindings", {}).get(fn.path()))
    ren = {}
    if base is not None and names != base:
        # annotation lines marked //?A<B are about a local A declared before B, which the code may do without
        def there(m):
            x, y = m.group(1), m.group(2)
            if len(names) == len(base) and x not in names: return True # renamed
            return x in names and y in names and names.index(x) < names.index(y)
        ann.map_names(lambda t: "\n".join(l for l in t.split("\n") if all(map(there, re.finditer(r"//\?(\w+)<(\w+)", l)))))
        used = [n for n in base if re.search(r"\b%s\b" % re.escape(n), ann.text())]
        gone = [n for n in used if n not in names]
        if gone:
            if len(names) != len(base): raise Misfit("%s: locals %s used by the annotations are gone" % (path, gone))
            for o, n in zip(base, names):
                if o != n:
                    if ren.get(o, n) != n: raise Misfit("%s: ambiguous renaming" % path)
                    ren[o] = n
    if ren:
        rx = re.compile(r"(?<!\w)(?<!(?<!\.)\.)(" + "|".join(map(re.escape, ren)) + r")\b")
        ann.map_names(lambda t: rx.sub(lambda m: ren[m.group(1)], t))
    r = Renderer(idx, fn, ann, known, baseline)
    txt = r.run()
    if ann.opts.get("writer"):
        w = r.wname
        txt = re.sub(r"&mut\s+%s\b" % w, "&mut *" + w, txt)
    for a, b in ann.subs: txt = re.sub(a, b, txt)
    if ann.opts.get("reals"): r.used.add("R14"); txt = reals(txt, ann.opts["reals"])
    txt2 = re.sub(r"(?:(?:::)?\bstd::)?\bcmp::(min|max)\b", r"stdx_\1", txt)
    if txt2 != txt: r.used.add("R8"); txt = txt2
    txt2 = re.sub(r"((?:\w+\s*\.\s*)*\w+)(?:\s*\[\s*(\w+)\s*\.\.\s*\])?\s*\.\s*iter\(\)\s*\.\s*sum\s*::\s*<\s*usize\s*>\s*\(\)", lambda m: "stdx_sum_from(&%s, %s)" % (m.group(1), m.group(2) or "0"), txt)
    if txt2 != txt: r.used.add("R8"); txt = txt2
    return txt, {"path": path, "file": fn.file, "rewrites": sorted(r.used), "renamed": ren, "subs": ann.subs}

def stub(idx, fn, ann, known, baseline):
    """signature and contract only, body assumed: used when the body is out of reach (reported as such)"""
    r = Renderer(idx, fn, ann, known, baseline)
    lifted = "".join(x + "\n" for x in r.structs)
    if lifted and ann.opts.get("reals"): lifted = reals(lifted, ann.opts["reals"])
    return lifted + "#[verifier::external_body] " + ("/*contract*/\n" if ann.opts.get("contract") else "\n") + (reals(r.render_sig(), ann.opts["reals"]) if ann.opts.get("reals") else r.render_sig()) + ("\n" + ann.sig if ann.sig.strip() else "") + "\n{ unimplemented!() }\n"

def build(repo, template, baseline, extra_known=(), skip=None, tolerant=False):
    """-> (verus text, report dict).  Raises Misfit; with tolerant, a function whose body does not fit
    its annotations is left out (contract kept, body assumed) and listed in report["skipped"]."""
    skip = dict(skip or {})
    idx = Index(repo)
    parts = parse_template(template)
    known = set(extra_known)
    for p in parts:
        if p[0] == "fn": known.add(p[2])
    # functions that existed in the pinned tree but are not under contract here are not helpers to inline
    known |= set(baseline.get("all_fns", []))
    baseline = dict(baseline, _items=[p[3] for p in parts if p[0] == "item"] + re.findall(r"\bconst (\w+)", "".join(p[1] for p in parts if p[0] == "text")), _types=set(re.findall(r"\b(?:struct|enum|type) (\w+)", "".join(p[1] for p in parts if p[0] == "text"))))
    out, rep = [], {"functions": [], "items": [], "rewrites": {}, "marks": [], "skipped": skip, "contracts": []}
    line = 1; have = set()
    for p in parts:
        if p[0] == "text": txt = p[1]
        elif p[0] == "item":
            if p[1:4] in have: continue  # two included parts use the same item
            have.add(p[1:4])
            txt = render_item(idx, *p[1:]); rep["items"].append("%s %s" % (p[2], p[3]))
        else:
            _, file, path, ann = p
            fn = idx.find_fn(file, path)
            import copy
            ann = copy.deepcopy(ann)
            if ann.opts.get("contract"):
                txt = stub(idx, fn, ann, known, baseline)
                rep["contracts"].append("%s (verus/%s)" % (path, ann.opts["contract"]))
                rep["marks"].append((line, line + txt.count("\n"), path))
                out.append(txt); line += txt.count("\n")
                continue
            try:
                if path in skip: raise Misfit(skip[path])
                txt, info = render_fn(idx, fn, copy.deepcopy(ann), known, baseline, path)
                rep["functions"].append(info)
            except Misfit as m:
                if not tolerant: raise
                if ann.opts.get("nostub"): raise
                skip[path] = str(m)
                txt = stub(idx, fn, ann, known, baseline)
                rep["skipped"][path] = str(m)
            rep["marks"].append((line, line + txt.count("\n"), path))
        out.append(txt); line += txt.count("\n")
    return "".join(out), rep

def record(repo):
    idx = Index(repo)
    return {"all_fns": sorted(set(f.path() for f in idx.fns)), "bindings": {f.path(): bindings(f) for f in idx.fns}}

if __name__ == "__main__":
    here = os.path.dirname(os.path.abspath(__file__))
    if sys.argv[1] == "record":
        json.dump(record(sys.argv[2]), open(os.path.join(here, "..", "verus", "baseline.json"), "w"), indent=0, sort_keys=True)
    else:
        bl = json.load(open(os.path.join(here, "..", "verus", "baseline.json")))
        t, rep = build(sys.argv[2], sys.argv[1], bl)
        sys.stdout.write(t)
        json.dump(rep["functions"], sys.stderr, indent=0)
