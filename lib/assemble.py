"""Assemble a Verus file from a unit overlay (/verif/units/NAME.vu) and the functions that vx extracts from /repo."""
import json, os, re, subprocess

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)


class Clause:
    def __init__(self, props, text, kind, label=""):
        self.props, self.text, self.kind, self.label = props, text, kind, label


class FnSpec:
    def __init__(self, fid):
        self.id = fid
        self.props = []
        self.optional = False
        self.external = False
        self.requires, self.ensures = [], []
        self.loops = {}       # ordinal -> {"invariant": [Clause], "decreases": str, "start": str, "end": str, "ensures": []}
        self.entry = ""
        self.exit = ""
        self.before = {}      # loop ordinal -> text placed between the source and the loop
        self.after = {}       # loop ordinal -> text placed after the loop
        self.rename = None
        self.sig = {}         # overrides: generics, params (name -> type), ret
        self.decreases = ""
        self.attrs = ""
        self.selfk = None
        self.nostruct = False


class Unit:
    def __init__(self, name):
        self.name = name
        self.files, self.types, self.effects, self.no_inline = [], [], [], []
        self.renames, self.selfref = {}, []
        self.body = []        # list of ("text", str) / ("fn", FnSpec)
        self.rlimit = None
        self.subst = []
        self.structs = {}
        self.mono = {}        # module -> {generic parameter: the opaque type that stands for it}

    def fns(self):
        return [x for k, x in self.body if k == "fn"]


CL = re.compile(r"^\s*\[([A-Za-z0-9 ,]*)\]\s?(.*)$")


def parse_clauses(lines):
    out, cur = [], None
    for l in lines:
        m = CL.match(l)
        if m:
            cur = [[p for p in re.split(r"[ ,]+", m.group(1)) if p], [m.group(2)]]
            out.append(cur)
        elif cur is not None:
            cur[1].append(l)
        elif l.strip():
            raise ValueError("clause text before a [tag]: " + l)
    return [(p, "\n".join(t).rstrip().rstrip(",")) for p, t in out]


def parse_unit(name):
    u = Unit(name)
    path = os.path.join(VERIF, "units", name + ".vu")
    lines, seen, bu = [], False, []
    for l in expand(path):
        m = re.match(r"^broadcast use \{(.*)\};$", l)
        if m:
            bu.append(m.group(1))
            l = "" if seen else "@@broadcast@@"
            seen = True
        lines.append(l)
    lines = [("broadcast use {%s};" % ", ".join(bu)) if l == "@@broadcast@@" else l for l in lines]
    text, i, fs, sec, buf = [], 0, None, None, []

    def flush_sec():
        nonlocal buf
        if fs is None or sec is None:
            buf = []
            return
        k = sec[0]
        if k in ("requires", "ensures"):
            for p, t in parse_clauses(buf):
                getattr(fs, k).append(Clause(p, t, k))
        elif k == "loop":
            d = fs.loops.setdefault(sec[1], {"invariant": [], "decreases": "", "start": "", "end": ""})
            sub = None
            cl = []
            for l in buf:
                s = l.strip()
                if s.startswith("decreases "):
                    d["decreases"] = s[len("decreases "):]
                elif s in ("start:", "end:"):
                    sub = s[:-1]
                elif sub:
                    d[sub] += l + "\n"
                else:
                    cl.append(l)
            for p, t in parse_clauses(cl):
                d["invariant"].append(Clause(p, t, "invariant"))
        elif k == "entry":
            fs.entry += "\n".join(buf) + "\n"
        elif k == "exit":
            fs.exit += "\n".join(buf) + "\n"
        elif k in ("after", "before"):
            getattr(fs, k)[sec[1]] = "\n".join(buf) + "\n"
        buf = []

    for l in lines:
        s = l.strip()
        if s.startswith("//@"):
            w = s[3:].split()
            if not w:
                continue
            c = w[0]
            if c == "file":
                u.files.append((w[1], w[2]))
            elif c == "types":
                u.types += w[1:]
                # types are emitted here
                if fs is None:
                    u.body.append(("text", "\n".join(text)))
                    text = []
                    u.body.append(("types", w[1:]))
            elif c == "serde":
                if text:
                    u.body.append(("text", "\n".join(text)))
                    text = []
                u.body.append(("serde", w[1:]))
            elif c == "effects":
                u.effects += w[1:]
            elif c == "noinline":
                u.no_inline += w[1:]
            elif c == "rename":
                u.renames[w[1]] = w[2]
            elif c == "rlimit":
                u.rlimit = w[1]
            elif c == "mono":
                u.mono[w[1]] = dict(x.split("=") for x in w[2:])
            elif c == "subst":
                a, b = s[3:].split(None, 1)[1].split(" ==> ")
                u.subst.append((a.strip(), b.strip()))
            elif c == "fn":
                flush_sec()
                if text:
                    u.body.append(("text", "\n".join(text)))
                    text = []
                fs = FnSpec(w[1])
                rest = w[2:]
                fs.optional = "optional" in rest
                fs.external = "external" in rest
                u.body.append(("fn", fs))
                sec = None
            elif c == "endfn":
                flush_sec()
                fs, sec = None, None
            elif c == "props":
                fs.props = w[1:]
            elif c in ("requires", "ensures", "entry", "exit"):
                flush_sec()
                sec = (c,)
            elif c in ("loop", "after", "before"):
                flush_sec()
                sec = (c, int(w[1]))
            elif c == "as":
                fs.rename = w[1]
            elif c == "attr":
                fs.attrs += " ".join(w[1:]) + "\n"
            elif c == "decreases":
                fs.decreases = " ".join(w[1:])
            elif c == "self":
                fs.selfk = " ".join(w[1:])
                u.selfref.append(fs.id)
            elif c == "generics":
                fs.sig["generics"] = s.split("generics", 1)[1].strip()
            elif c == "implfor":
                fs.sig["implfor"] = s.split("implfor", 1)[1].strip()
            elif c == "param":
                fs.sig.setdefault("params", {})[w[1]] = " ".join(w[2:])
            elif c == "ret":
                fs.sig["ret"] = " ".join(w[1:])
            else:
                raise ValueError("unknown directive " + s)
            continue
        if fs is not None:
            buf.append(l)
        else:
            text.append(l)
    flush_sec()
    if text:
        u.body.append(("text", "\n".join(text)))
    return u


def expand(path):
    out = []
    for l in open(path).read().split("\n"):
        m = re.match(r"^//@ include (\S+)( external)?", l)
        if m:
            sub = expand(os.path.join(VERIF, "units", m.group(1)))
            out += externalize(sub) if m.group(2) else sub
        else:
            out.append(l)
    return out


def externalize(lines):
    """contracts proved in their own unit, assumed here: bodies and proof hints are left out"""
    out, infn, drop = [], False, False
    for l in lines:
        m = re.match(r"^\s*//@\s*(\S+)", l)
        if m:
            c = m.group(1)
            drop = infn and c in ("entry", "exit", "loop", "after", "before")
            if c == "fn":
                infn, drop = True, False
                l = l + " external"
            elif c == "endfn":
                infn, drop = False, False
            if drop:
                continue
        elif drop:
            continue
        out.append(l)
    return out


def run_vx(u, repo, vxbin, tmp):
    wanted = [f.id for f in u.fns()]
    cfg = {
        "files": [{"path": os.path.join(repo, p), "mod": m} for p, m in u.files],
        "wanted": wanted, "no_inline": u.no_inline, "effect_prims": u.effects,
        "selfref": u.selfref, "renames": u.renames,
    }
    p = os.path.join(tmp, u.name + ".vx.json")
    json.dump(cfg, open(p, "w"))
    r = subprocess.run([vxbin, p], capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError("vx failed: " + r.stderr[-2000:])
    x = json.loads(r.stdout)
    for f in x["fns"]:
        mono(f, u.mono.get(f["id"].split("::")[0]))
    for t in x["types"]:
        mono(t, u.mono.get(t["mod"]))
    return x


def mono(f, m):
    """instantiate the generic parameters of a module's items with opaque types"""
    if not m:
        return
    sub = lambda t: re.sub(r"(?<![A-Za-z0-9_'])(%s)(?![A-Za-z0-9_])" % "|".join(m), lambda g: m[g.group(1)], t) if isinstance(t, str) else t
    if "variants" in f or "fields" in f or f.get("kind"):
        if f.get("generics"):
            f["generics"] = ""
            f["text"] = re.sub(r"^(pub (?:struct|enum) \w+)\s*<.*?>(?=\s*[{(])", r"\1", f["text"], flags=re.S)
        f["text"] = sub(f["text"])
        return
    f["impl_generics"], f["generics"], f["where"], f["impl_where"] = "", "", "", ""
    if f["impl_self"]:
        f["impl_self"] = f["impl_self"].split("<")[0].strip()
    f["params"] = [[n, sub(t)] for n, t in f["params"]]
    f["ret"], f["body"] = sub(f["ret"]), sub(f["body"])
    for l in f["loops"]:
        for k in ("src", "body", "pat"):
            l[k] = sub(l.get(k))


def norm(t):
    return re.sub(r"\s*::\s*", "::", t)


def type_text(t, known):
    """text of an extracted type plus its PartialEq/PartialOrd stubs (derived impls: structural)"""
    s = norm(t["text"])
    if t["kind"] in ("const", "type"):
        return s + "\n"
    name, g = t["name"], norm(t["generics"])
    names = ", ".join(x.split(":")[0].strip() for x in g.split(",") if x.strip())
    ga = "<%s>" % names if names else ""
    gi = "<%s>" % g if g else ""
    if g:
        s = "".join("#[verifier::reject_recursive_types(%s)]\n" % x.strip() for x in names.split(",")) + s
    d = t["derives"]
    if "PartialEq" in d:
        s += ("impl%s PartialEq for %s%s { #[verifier::external_body] fn eq(&self, o: &Self) -> (r: bool) { unimplemented!() } }\n"
              "impl%s vstd::std_specs::cmp::PartialEqSpecImpl for %s%s { open spec fn obeys_eq_spec() -> bool { true } open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other } }\n"
              % (gi, name, ga, gi, name, ga))
    if t["kind"] == "enum" and all(v[1] == "unit" for v in t["variants"]):
        arms = ", ".join("%s::%s => %d" % (name, v[0], i) for i, v in enumerate(t["variants"]))
        s += "pub open spec fn ord_%s(x: %s) -> int { match x { %s } }\n" % (name, name, arms)
        if "PartialOrd" in d:
            s += ("impl PartialOrd for %s { #[verifier::external_body] fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { unimplemented!() } }\n"
                  "impl vstd::std_specs::cmp::PartialOrdSpecImpl for %s { open spec fn obeys_partial_cmp_spec() -> bool { true } open spec fn partial_cmp_spec(&self, other: &Self) -> Option<std::cmp::Ordering> { "
                  "if ord_%s(*self) < ord_%s(*other) { Some(std::cmp::Ordering::Less) } else if ord_%s(*self) == ord_%s(*other) { Some(std::cmp::Ordering::Equal) } else { Some(std::cmp::Ordering::Greater) } } }\n"
                  % (name, name, name, name, name, name))
    return s


def serde_text(t):
    """what serde's derive macros make of the declaration (Ser, De); None: an attribute this does not cover"""
    name, g = t["name"], norm(t["generics"])
    names = ", ".join(x.split(":")[0].strip() for x in g.split(",") if x.strip())
    T = name + ("<%s>" % names if names else "")
    gi = "<%s>" % g if g else ""
    if not {"Serialize", "Deserialize"} <= set(t["derives"]):
        return None, "Serialize or Deserialize is not derived"
    if t["serde"]:
        return None, "serde attribute %s" % t["serde"]
    o = "pub uninterp spec fn other_%s%s(t: Tree) -> Option<%s>;\n" % (name, gi, T)
    oth = "other_%s%s(t)" % (name, "::<%s>" % names if names else "")
    if t["kind"] == "struct":
        w, rd, cond, lits = "Seq::<(Seq<char>, Tree)>::empty()", [], [], []
        for j, ((f, ty), at) in enumerate(zip(t["fields"], t["field_serde"])):
            at = "".join(at).replace(" ", "")
            ty = norm(ty)
            if at == "":
                wf, rf = "self.%s.tree()" % f, "<%s as De>::reads(t->Map_0[%d].1)" % (ty, len(cond))
            elif at == 'with="super::serde_hex"':
                wf, rf = "hex_tree(self.%s)" % f, "unhex_tree(t->Map_0[%d].1)" % len(cond)
            elif at == 'with="super::serde_multi_hex"':
                wf, rf = "multi_tree(self.%s@)" % f, "multi_vec(t->Map_0[%d].1)" % len(cond)
            elif at in ("skip", "skip_serializing"):
                rd.append((f, "default_%s_%s()" % (name, f) if at == "skip" else "None::<%s>" % ty))
                o += "pub uninterp spec fn default_%s_%s() -> Option<%s>;\n" % (name, f, ty)
                continue
            elif at == "default":
                wf, rf = "self.%s.tree()" % f, "<%s as De>::reads(t->Map_0[%d].1)" % (ty, len(cond))
            else:
                return None, "serde attribute %s" % at
            w += '.push(("%s"@, %s))' % (f, wf)
            cond.append('t->Map_0[%d].0 == "%s"@' % (len(cond), f))
            rd.append((f, rf))
        body = "Some(%s { %s })" % (name, ", ".join("%s: __%s" % (f, f) for f, _ in rd))
        for f, rf in reversed(rd):
            body = "match %s { Some(__%s) => %s, None => None }" % (rf, f, body)
        o += "impl%s Ser for %s { open spec fn tree(&self) -> Tree { Tree::Map(%s) } }\n" % (gi, T, w)
        o += "impl%s De for %s { open spec fn reads(t: Tree) -> Option<%s> { if t is Map && t->Map_0.len() == %d && %s { %s } else { %s } } }\n" % (
            gi, T, T, len(cond), " && ".join(cond or ["true"]), body, oth)
        return o, None
    ws, rs, lits = [], "", []
    for (v, k), at, tys in zip(t["variants"], t["variant_serde"], t["variant_types"]):
        lits.append(v)
        if at:
            return None, "serde attribute %s" % at
        if k == "unit":
            ws.append('%s::%s => Tree::Str("%s"@)' % (name, v, v))
            rs += 'if t == Tree::Str("%s"@) { Some(%s::%s) } else ' % (v, name, v)
        elif k == "tuple" and len(tys) == 1:
            ws.append('%s::%s(x) => one("%s"@, x.tree())' % (name, v, v))
            rs += 'if t is Map && t->Map_0.len() == 1 && t->Map_0[0].0 == "%s"@ { match <%s as De>::reads(t->Map_0[0].1) { Some(x) => Some(%s::%s(x)), None => None } } else ' % (v, norm(tys[0]), name, v)
        elif k == "tuple":
            xs = ["x%d" % i for i in range(len(tys))]
            ws.append('%s::%s(%s) => one("%s"@, Tree::List(Seq::<Tree>::empty()%s))' % (name, v, ", ".join(xs), v, "".join(".push(%s.tree())" % x for x in xs)))
            b = "Some(%s::%s(%s))" % (name, v, ", ".join(xs))
            for i in reversed(range(len(tys))):
                b = "match <%s as De>::reads(t->Map_0[0].1->List_0[%d]) { Some(x%d) => %s, None => None }" % (norm(tys[i]), i, i, b)
            rs += 'if t is Map && t->Map_0.len() == 1 && t->Map_0[0].0 == "%s"@ && t->Map_0[0].1 is List && t->Map_0[0].1->List_0.len() == %d { %s } else ' % (v, len(tys), b)
        else:
            return None, "variant %s" % v
    o += "impl%s Ser for %s { open spec fn tree(&self) -> Tree { match *self { %s } } }\n" % (gi, T, ", ".join(ws))
    o += "impl%s De for %s { open spec fn reads(t: Tree) -> Option<%s> { %s { %s } } }\n" % (gi, T, T, rs, oth)
    # the names are different texts
    pf = "".join('reveal_strlit("%s"); ' % v for v in lits)
    pf += "".join('assert("%s"@ != "%s"@) by { %s }; ' % (a, b, distinct(a, b)) for i, a in enumerate(lits) for b in lits[i + 1:])
    o += "pub proof fn names_%s() ensures %s { %s }\n" % (name, ", ".join(['"%s"@ != "%s"@' % (a, b) for i, a in enumerate(lits) for b in lits[i + 1:]] or ["true"]), pf)
    return o, None


def distinct(a, b):
    if len(a) != len(b):
        return 'assert("%s"@.len() != "%s"@.len());' % (a, b)
    i = [x != y for x, y in zip(a, b)].index(True)
    return 'assert("%s"@[%d] != "%s"@[%d]);' % (a, i, b, i)


class Out:
    def __init__(self):
        self.lines = []
        self.map = {}      # line number (1-based) -> dict

    def add(self, text, info=None):
        for l in text.split("\n"):
            self.lines.append(l)
            if info is not None:
                self.map[len(self.lines)] = info

    def text(self):
        return "\n".join(self.lines) + "\n"


LOOPRE = re.compile(r"__vx_loop\s*!\s*\(\s*(\d+)\s*\)\s*;?")


def emit_fn(out, u, fs, fx, stub=False, probe=False, skip_inv=None):
    info = {"fn": fs.id}
    name = fs.rename or fx["name"]
    params = []
    selfk = fs.selfk or fx["self"]
    if selfk:
        params.append(selfk)
    over = fs.sig.get("params", {})
    for n, t in fx["params"]:
        n = n.replace("mut ", "").strip()
        params.append("%s: %s" % (n, over.get(n, norm(t))))
    if fx["effect"]:
        params.append("w: &mut W")
    ret = fs.sig.get("ret", norm(fx["ret"]))
    gen = fs.sig.get("generics", norm(fx["generics"]))
    head = "pub fn %s%s(%s)" % (name, "<%s>" % gen if gen else "", ", ".join(params))
    if ret:
        head += " -> (%s: %s)" % ("res" if any(p.startswith("r:") for p in params) else "r", ret)
    wh = fx.get("where") or ""
    impl = None
    if fx["impl_self"] and fs.sig.get("implfor") != "none":
        impl = fs.sig.get("implfor") or "impl%s %s" % ("<%s>" % norm(fx["impl_generics"]) if fx["impl_generics"] else "", norm(fx["impl_self"]))
        out.add(impl + " {", info)
    if stub or fs.external:
        out.add("#[verifier::external_body]", info)
    out.add("#[verifier::loop_isolation(false)]", info)
    if fs.attrs:
        out.add(fs.attrs.rstrip(), info)
    out.add(head, dict(info, part="head"))
    for kind, cls in (("requires", fs.requires), ("ensures", fs.ensures)):
        if cls:
            out.add("    " + kind, info)
            for n, c in enumerate(cls):
                out.add("        " + c.text + ",", dict(info, part=kind, props=c.props or fs.props, n=n, text=c.text))
    if fs.decreases:
        out.add("    decreases " + fs.decreases, info)
    if stub or fs.external:
        out.add("{ unimplemented!() }", info)
    else:
        out.add("{", info)
        if probe:
            out.add("proof { assert(false); }", dict(info, part="probe"))
        if fs.entry:
            out.add(fs.entry.rstrip(), dict(info, part="hint"))
        emit_body(out, u, fs, fx, norm(fx["body"]), info)
        out.add("}", info)
    if impl:
        out.add("}", info)


def emit_body(out, u, fs, fx, text, info):
    for a, b in u.subst:
        text = text.replace(a, b)
    pos = 0
    for m in LOOPRE.finditer(text):
        out.add(text[pos:m.start()], dict(info, part="body"))
        emit_loop(out, u, fs, fx, int(m.group(1)), info)
        pos = m.end()
    out.add(text[pos:], dict(info, part="body"))


def emit_loop(out, u, fs, fx, n, info):
    lp = fx["loops"][n]
    sp = fs.loops.get(n, {"invariant": [], "decreases": "", "start": "", "end": ""})
    li = dict(info, part="loop", loop=n)
    src = "__src%d" % n
    ix = "__i%d" % n
    if lp["kind"] == "while":
        out.add("while %s" % norm(lp["src"]), li)
    elif lp["kind"] == "loop":
        out.add("loop", li)
    else:
        body_src = norm(lp["src"])
        m = LOOPRE.search(body_src)
        out.add("let %s = (" % src, li)
        emit_body(out, u, fs, fx, body_src, info)
        out.add(").vx_into_iter();" if lp["kind"] != "range" else ");", li)
        out.add("let mut %s: usize = 0;" % ix, li)
        if n in fs.before:
            out.add(fs.before[n].rstrip(), dict(info, part="hint"))
        out.add("while %s < %s.len()" % (ix, src), li)
    inv = list(sp["invariant"])
    auto = "%s <= %s@.len()" % (ix, src)
    if lp["kind"] not in ("while", "loop"):
        inv = [Clause([], auto, "invariant")] + inv
    if inv:
        out.add("    invariant", li)
        for c in inv:
            out.add("        " + c.text + ",", dict(info, part="invariant", props=c.props or fs.props, loop=n, text=c.text))
    dec = sp["decreases"] or ("%s@.len() - %s" % (src, ix) if lp["kind"] not in ("while", "loop") else "")
    if dec:
        out.add("    decreases " + dec, li)
    out.add("{", li)
    if lp["kind"] not in ("while", "loop"):
        out.add("let %s = vx_take(&%s, %s); %s = %s + 1;" % (norm(lp["pat"]), src, ix, ix, ix), li)
    if sp["start"]:
        out.add(sp["start"].rstrip(), dict(info, part="hint"))
    emit_body(out, u, fs, fx, norm(lp["body"]), info)
    if sp["end"]:
        out.add(sp["end"].rstrip(), dict(info, part="hint"))
    out.add("}", li)
    if n in fs.after:
        out.add(fs.after[n].rstrip(), dict(info, part="hint"))


def assemble(u, x, stubs=(), probe=False):
    """returns (Out, structural problems {fn id: reason})"""
    out = Out()
    probs = {}
    fx = {f["id"]: f for f in x["fns"]}
    types = {}
    for t in x["types"]:
        types.setdefault(t["name"], t)
        types[t["mod"] + "::" + t["name"]] = t
    out.add("#![allow(unused)]\n#![allow(non_snake_case)]\nuse vstd::prelude::*;\nuse std::cmp::Ordering;\nuse std::sync::Arc;\nverus! {")
    for k, v in u.body:
        if k == "text":
            tag = None
            for l in v.split("\n"):
                m = re.match(r"^// lemma \[([A-Za-z0-9 ,]*)\]", l)
                if m:
                    tag = {"part": "spec", "lemma": True, "props": [p for p in re.split(r"[ ,]+", m.group(1)) if p]}
                m = re.search(r"proof fn (\w+)", l)
                if m and tag and "fn" not in tag:
                    tag["lemma_fn"] = "lemma " + m.group(1)
                out.add(l, tag or {"part": "spec"})
                if l == "}":
                    tag = None
        elif k == "serde":
            for n in v:
                if n not in types:
                    probs["type " + n] = "type not found"
                    continue
                tt, why = serde_text(types[n])
                if tt is None:
                    probs["derive " + n] = why
                else:
                    out.add(tt, {"part": "type", "type": n})
        elif k == "types":
            for n in v:
                if n not in types:
                    probs["type " + n] = "type not found"
                    continue
                tt = type_text(types[n], types)
                out.add(tt, {"part": "type", "type": n})
        else:
            if v.id not in fx:
                if not v.optional:
                    probs[v.id] = "function not found"
                continue
            f = fx[v.id]
            st = v.id in stubs or v.external
            if f["errors"] and not v.external:
                probs[v.id] = "; ".join(f["errors"])
                st = True
            bad = [n for n in v.loops if n >= len(f["loops"])]
            if bad and not st:
                probs[v.id] = "loop structure changed"
                st = True
            if not st and len(f["loops"]) > len(v.loops) and any(n not in v.loops for n in range(len(f["loops"]))):
                missing = [n for n in range(len(f["loops"])) if n not in v.loops]
                probs[v.id] = "loop without invariant: %s" % missing
                st = True
            emit_fn(out, u, v, f, stub=st, probe=probe)
    out.add("}\nfn main() {}")
    return out, probs
