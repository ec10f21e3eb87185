#!/usr/bin/env python3
"""Writes src/gen.rs: every combination of method shapes of the grammar below, with code that sends each generated
message and code that calls the annotated method directly."""
import itertools, os, sys
out = []
mods = []
w = out.append

# type -> value for argument position i
TYPES = {
    "u32": lambda i: f"{i + 7}u32",
    "String": lambda i: f'String::from("s{i}")',
    "Vec<u8>": lambda i: f"vec![{i}u8, 9]",
    "Option<(u8, i64)>": lambda i: f"Some(({i}u8, -{i + 1}i64))",
    "[u16; 2]": lambda i: f"[{i}u16, {i + 1}]",
    "P": lambda i: f"P {{ x: {i}, y: Q::B({i}) }}",
}
RETS = {
    # name: (type or None, expression from `h` (a u64 derived from the call) , is a Result)
    "none": (None, "let _ = h;", False),
    "unit": ("()", "let _ = h;", False),
    "u64": ("u64", "h", False),
    "string": ("String", 'format!("r{h}")', False),
    "option": ("Option<u64>", "if h % 2 == 0 { Some(h) } else { None }", False),
    "vec": ("Vec<u64>", "vec![h, h + 1]", False),
    "ok": ("Result<u64, MyErr>", "Ok(h)", True),
    "err": ("Result<u64, MyErr>", "Err(MyErr(h))", True),
    "custom": ("R", "R { h }", False),
    "pair": ("(u64, String)", "(h, h.to_string())", False),
}
RECV = ["&mut self", "&self"]
NAMES = ["inc", "set_name", "get_all_items", "do2", "go_x", "_hidden", "x_1_y", "handle_", "ask", "tell"]

def camel(n):
    return "".join(p[:1].upper() + p[1:] for p in n.split("_") if p)

class Method:
    def __init__(s, name, recv, asyn, args, ret, vis="pub", attr="#[message]", pre="", generics="", where="", derives=(), turbofish="", msg_expr=None, vals=None, retty=None, body=None):
        s.__dict__.update(locals()); del s.__dict__["s"]
    def arg_names(s):
        return [n.replace("mut ", "").split()[-1] for n, _ in s.args]
    def values(s):
        return s.vals or [TYPES[t](i) for i, (_, t) in enumerate(s.args)]
    def code(s):
        ty, ex, _ = RETS[s.ret] if s.retty is None else (s.retty, s.body, False)
        sig = f"{s.vis} {'async ' if s.asyn else ''}fn {s.name}{s.generics}({', '.join([s.recv] + [f'{n}: {t}' for n, t in s.args])})"
        if ty: sig += f" -> {ty}"
        if s.where: sig += f" {s.where}"
        dbg = ", ".join(f"&{n}" for n in s.arg_names())
        bump = "self.n += 1;" if s.recv == "&mut self" else ""
        y = "yield_now().await; " if s.asyn else ""
        attrs = f"        {s.pre}\n" if s.pre else ""
        return f"""{attrs}        {s.attr}
        {sig} {{
            let h = self.log.put(format!("{s.name} {{:?}} {{}}", ({dbg}{',' if len(s.args) == 1 else ''}), self.n));
            {y}{bump}
            self.log.put(format!("{s.name} ends {{}}", self.n));
            {ex}
        }}"""
    def msg(s):
        if s.msg_expr: return s.msg_expr
        m = camel(s.name)
        e = m if not s.args else f"{m} {{ {', '.join(f'{n}: {v}' for n, v in zip(s.arg_names(), s.values()))} }}"
        if "Clone" in s.derives: e = f"({e}).clone()"
        if "PartialEq" in s.derives: e = f"{{ let m = {e}; assert!(m == m.clone()); m }}" if "Clone" in s.derives else e
        if "Default" in s.derives: e = f"{{ let _ = {m}::default(); {e} }}"
        if "Debug" in s.derives: e = f"{{ let m = {e}; assert!(format!(\"{{m:?}}\").starts_with(\"{m}\")); m }}"
        return e
    def direct(s):
        call = f"s.{s.name}{s.turbofish}({', '.join(s.values())})" + (".await" if s.asyn else "")
        if s.retty is None and RETS[s.ret][2]:
            return f"show_result({call})"
        return f"format!(\"ok {{:?}}\", {call})"

def module(title, methods, decl="#[derive(Actor)]\n        pub struct A { pub n: u64, pub log: Log }", head="impl A", ty="A", make="A { n: 0, log }", vis_in=False, extra=""):
    """one actor with the methods; `vis_in`: the messages are only visible inside"""
    k = len(mods)
    name = f"c{k}"
    mods.append((name, title, len(methods)))
    w(f"pub mod {name} {{ // {title}")
    w("    #![allow(unused)]\n    use super::*;\n    pub mod inner {\n        use super::super::*;")
    w(f"        {decl}\n        {extra}")
    w(f"        #[messages]\n        {head} {{")
    w("        pub const K: u64 = 3;\n        fn helper(&self) -> u64 { self.n }\n        pub fn inc_by(&mut self, n: u64) { self.n += n; }")
    for m in methods:
        w(m.code())
    w("        }")
    body = []
    body.append(f"    pub async fn go(m: usize, ask: bool, r: &ActorRef<{ty}>) -> String {{\n        match (m, ask) {{")
    for i, m in enumerate(methods):
        body.append(f"            ({i}, true) => show_ask(r.ask({m.msg()}).await),")
        body.append(f"            ({i}, false) => show_tell(r.tell({m.msg()}).await),")
    body.append("            _ => unreachable!(),\n        }\n    }")
    body.append(f"    pub async fn direct(m: usize, s: &mut {ty}) -> String {{\n        match m {{")
    for i, m in enumerate(methods):
        body.append(f"            {i} => {m.direct()},")
    body.append("            _ => unreachable!(),\n        }\n    }")
    body.append(f"    pub fn make(log: Log) -> {ty} {{ {make} }}")
    if vis_in:
        w("\n".join(body)); w("    }\n    pub use inner::{go, direct, make};")
    else:
        w("    }\n    use inner::*;"); w("\n".join(body))
    w("    case!(" + f"{len(methods)});\n}}")

def chunks(l, n):
    l = list(l)
    for i in range(0, len(l), n):
        yield l[i:i + n]

def uniq(methods):
    """distinct names within one impl"""
    for i, m in enumerate(methods):
        m.name = f"{NAMES[i % len(NAMES)]}" if i < len(NAMES) else f"{NAMES[i % len(NAMES)]}_{i}"
    return methods

A2 = [("amount", "u32"), ("by", "u32")]
# 1. receiver x async x every reply kind, two arguments of one type
for ch in chunks(itertools.product(RECV, [False, True], RETS), 8):
    module("replies", uniq([Method("", r, a, A2, ret) for r, a, ret in ch]))
# 2. receiver x async x every list of up to two types (all pairs), and all triples over three types
lists = [[]] + [[t] for t in TYPES] + [list(p) for p in itertools.product(TYPES, repeat=2)] + [list(p) for p in itertools.product(["u32", "String", "P"], repeat=3)]
N3 = ["first", "second", "third"]
for k, ch in enumerate(chunks(itertools.product(lists, RECV), 8)):
    module("arguments", uniq([Method("", r, (i + k) % 2 == 1, list(zip(N3, l)), ["u64", "none", "ok", "custom"][(i + k) % 4]) for i, (l, r) in enumerate(ch)]))
# 3. argument names, which may clash with what the macro generates
AN = ["msg", "_ctx", "ctx", "self_", "mut x", "r#type", "actor_ref", "_unused", "reply", "handle", "kameo"]
for ch in chunks([Method("", RECV[i % 2], i % 2 == 0, [(a, "u32"), (b, "u32")], "u64") for i, (a, b) in enumerate(itertools.permutations(AN, 2))], 11):
    module("argument names", uniq(ch))
# 3b. more arguments of one type, in every order of their names
OL = list(itertools.permutations("abc")) + list(itertools.permutations(["w", "x", "z", "y2"]))
for k in [5, 8, 12]:
    l = [chr(97 + i) + ["", "_b", "2"][i % 3] for i in range(k)]
    OL += [l, l[::-1], l[k // 2:] + l[:k // 2], l[::2] + l[1::2]]
for ch in chunks([Method("", RECV[i % 2], i % 3 == 0, [(a, "u32") for a in l], ["u64", "none", "ok"][i % 3]) for i, l in enumerate(OL)], 8):
    module("argument order", uniq(ch))
# 4. visibility x derives x arity
DER = [(), ("Clone",), ("Clone", "Debug", "PartialEq"), ("Default",), ("Clone", "Debug", "PartialEq", "Eq", "Hash", "Default")]
for vis in ["", "pub", "pub(crate)", "pub(super)"]:
    ms = []
    for d, n in itertools.product(DER, [0, 1, 2]):
        attr = f"#[message(derive({', '.join(d)}))]" if d else "#[message]"
        ms.append(Method("", "&mut self", False, [("a", "u32"), ("b", "String")][:n], "u64", vis=vis, attr=attr, derives=d))
    for ch in chunks(ms, 8):
        module("visibility and derives", uniq(ch), vis_in=vis == "")
# 5. where the attribute stands among others
PRE = ["", "/// doc", "#[allow(clippy::all)]", "/// a\n        /// b\n        #[inline]", "#[doc = \"x\"]"]
ATT = ["#[message]", "#[message(derive(Clone))]", "#[message(derive(Clone), allow(dead_code))]", "#[message(derive(Clone), derive(Debug))]", "#[message]\n        /// after\n        #[allow(unused)]"]
for ch in chunks([Method("", "&self", False, [("/** doc of it */ a", "u32"), ("/// doc\n            /// of it\n            b", "String")] if "derive" in a else [("a", "u32")], "u64", pre=p, attr=a, derives=("Clone",) if "Clone" in a else ()) for p, a in itertools.product(PRE, ATT)], 9):
    module("attributes", uniq(ch))
# 6. generic actors
B = "Clone + std::fmt::Debug + Send + Sync + 'static"
def gen(title, pars, where, ty, lists, vals, make, rets):
    decl = f"#[derive(Actor)]\n        pub struct A<{pars}>{where} {{ pub n: u64, pub log: Log, pub t: Vec<T> }}"
    ps = ", ".join(p.split(":")[0].strip() for p in pars.split(";"))
    return decl
GEN_LISTS = [["T"], ["u32"], [], ["T", "u32"], ["T", "T"], ["T", "u32", "T"], ["Box<T>"], ["Vec<T>", "u32"], ["Option<(T, u8)>", "T"], ["(T, T)"], ["[T; 2]"]]
GVAL = lambda tv: {
    "T": lambda i: f"{tv}({i})", "u32": TYPES["u32"], "Box<T>": lambda i: f"Box::new({tv}({i}))", "Vec<T>": lambda i: f"vec![{tv}({i})]",
    "Option<(T, u8)>": lambda i: f"Some(({tv}({i}), {i}))", "(T, T)": lambda i: f"({tv}({i}), {tv}({i + 1}))", "[T; 2]": lambda i: f"[{tv}({i}), {tv}({i + 1})]",
    "U": lambda i: f"mku({i})", "HashMap<T, U>": lambda i: f"HashMap::from([({tv}({i}), mku({i}))])", "V": lambda i: f"mkv({i})", "Vec<V>": lambda i: f"vec![mkv({i})]",
}
def gmethods(lists, tv, generics="", where=""):
    ms = []
    for i, l in enumerate(lists):
        ms.append(Method("", RECV[i % 2], i % 3 == 0, list(zip(N3, l)), "u64", generics=generics if any("V" == t or "<V>" in t for t in l) else "", where=where if any("V" == t or "<V>" in t for t in l) else "", vals=[GVAL(tv)[t](j) for j, t in enumerate(l)]))
    return uniq(ms)
for tv, tt in [("mks", "String"), ("mkn", "u8")]:
    module("one type parameter", gmethods(GEN_LISTS, tv), f"#[derive(Actor)]\n        pub struct A<T: {B}> {{ pub n: u64, pub log: Log, pub t: Option<T> }}", f"impl<T: {B}> A<T>", f"A<{tt}>", "A { n: 0, log, t: None }")
    module("one type parameter, where clause", gmethods(GEN_LISTS, tv), f"#[derive(Actor)]\n        pub struct A<T> where T: {B} {{ pub n: u64, pub log: Log, pub t: Option<T> }}", f"impl<T> A<T> where T: {B}", f"A<{tt}>", "A { n: 0, log, t: None }")
    module("generic methods", gmethods([["V"], ["V", "u32"], ["V", "V"], ["u32", "V"], ["Vec<V>"], ["u32"]], tv, f"<V: {B}>"))
    module("generic methods, where clause", gmethods([["V"], ["V", "u32"], ["V", "V"], ["u32", "V"], ["Vec<V>"], ["u32"]], tv, "<V>", f"where V: {B}"))
    module("generic methods of generic actors", gmethods([["V"], ["T", "V"], ["V", "T"], ["u32", "V", "T"], ["T", "V", "T"], ["Vec<V>", "Vec<T>"], ["T"], []], tv, f"<V: {B}>"), f"#[derive(Actor)]\n        pub struct A<T: {B}> {{ pub n: u64, pub log: Log, pub t: Option<T> }}", f"impl<T: {B}> A<T>", f"A<{tt}>", "A { n: 0, log, t: None }")
module("two type parameters", gmethods([["T"], ["U"], ["T", "U"], ["U", "T"], ["T", "U", "T"], ["U", "T", "U"], ["HashMap<T, U>"], ["U", "HashMap<T, U>"], []], "mks"), f"#[derive(Actor)]\n        pub struct A<T: {B} + Eq + std::hash::Hash, U: {B}> {{ pub n: u64, pub log: Log, pub t: Option<(T, U)> }}", f"impl<T: {B} + Eq + std::hash::Hash, U: {B}> A<T, U>", "A<String, u16>", "A { n: 0, log, t: None }")
# replies that depend on the parameter
RT = [("Vec<T>", "vec![self.t.clone()]"), ("Option<T>", "Some(self.t.clone())"), ("Result<T, MyErr>", "Ok(self.t.clone())"), ("(T, u64)", "(self.t.clone(), h)")]
ms = []
for (rt, ex), l in itertools.product(RT, [[], ["u32"], ["T"]]):
    m = Method("", "&self", False, list(zip(N3, l)), "u64", vals=[GVAL("mks")[t](j) for j, t in enumerate(l)], retty=rt, body=ex)
    if "Result" in rt:
        m.direct = (lambda m: lambda: f"show_result(s.{m.name}({', '.join(m.values())}))")(m)
    ms.append(m)
for ch in chunks(ms, 6):
    module("replies with a type parameter", uniq(ch), f"#[derive(Actor)]\n        pub struct A<T: {B}> {{ pub n: u64, pub log: Log, pub t: T }}", f"impl<T: {B}> A<T>", "A<String>", "A { n: 0, log, t: mks(40) }")
# const parameters, concrete and qualified self types
C = [["u32"], [], ["u32", "String"], ["P"]]
cm = lambda: uniq([Method("", RECV[i % 2], i % 2 == 0, list(zip(N3, l)), "u64") for i, l in enumerate(C)])
module("const parameter", cm(), "#[derive(Actor)]\n        pub struct A<const N: usize> { pub n: u64, pub log: Log }", "impl<const N: usize> A<N>", "A<3>", "A { n: 0, log }")
module("concrete self type", cm(), f"#[derive(Actor)]\n        pub struct A<T: {B}> {{ pub n: u64, pub log: Log, pub t: Option<T> }}", "impl A<u32>", "A<u32>", "A { n: 0, log, t: None }")
module("nested self type", uniq([Method("", RECV[i % 2], i % 2 == 0, list(zip(N3, l)), "u64", vals=[GVAL("mks")[t](j) for j, t in enumerate(l)]) for i, l in enumerate([["T"], ["u32"], []])]), f"#[derive(Actor)]\n        pub struct A<T: {B}> {{ pub n: u64, pub log: Log, pub t: Option<T> }}", f"impl<T: {B}> A<Vec<T>>", "A<Vec<String>>", "A { n: 0, log, t: None }")
module("qualified self type", cm(), "pub mod deep { use super::*; #[derive(Actor)]\n        pub struct A { pub n: u64, pub log: Log } }", "impl deep::A", "deep::A", "deep::A { n: 0, log }")

w("pub fn cases() -> Vec<Case> {\n    vec![")
for n, t, k in mods:
    w(f"        Case {{ title: \"{n} {t}\", n: {k}, run: |m1, k1, m2, k2| {n}::run(m1, k1, m2, k2).boxed() }},")
w("    ]\n}")
dst = os.path.join(os.path.dirname(os.path.abspath(__file__)), "src", "gen.rs")
new = "// generated by gen.py\nuse super::*;\n" + "\n".join(out) + "\n"
if not os.path.exists(dst) or open(dst).read() != new:
    open(dst, "w").write(new)
print(len(mods), "actors,", sum(m[2] for m in mods), "messages")

if sys.argv[1:2] == ["--evidence"]:
    # the shapes do not compile: what was decided is that, and nothing was run
    import json
    prop, log = sys.argv[2:4]
    errs = [l for l in open(log) if l.startswith("error")]
    root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "evidence", prop + ".json")
    json.dump({"property": prop, "tier": os.environ.get("VERIF_TIER", "quick"), "seed": int(os.environ.get("VERIF_SEED", "1")), "level": "model_checking", "wall_s": 0.0,
               "coverage": {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "programs_not_compiled": sum(m[2] for m in mods),
                            "explanation": "the generated programs do not compile, so none was run", "samples": errs[:5]}}, open(root, "w"), indent=1)
