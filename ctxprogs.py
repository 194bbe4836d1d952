"""Generated programs whose surroundings matter: what a crate using the macros looks like around them (T05), and which
features and kind of program use which part of the crate (T06).

A case is one module, `pub mod qN { .. pub fn run() -> bool { .. } }`, put into a crate of a given kind (context); it
holds when it is accepted as expected and, where the context can be run, run() returns true.
"""

# name -> (lines at the top of the crate, edition, runs, may be linked against std)
CONTEXTS = {
    "plain": ("", "2021", True),
    "2018": ("", "2018", True),
    "2024": ("", "2024", True),
    "alloc": ("extern crate alloc;", "2021", True),
    "macro_use": ("#[macro_use] extern crate fallible_collections;", "2021", True),
    "2015": ("#[macro_use] extern crate fallible_collections; extern crate core;", "2015", True),
    "renamed": ("extern crate fallible_collections as fc;", "2021", True),
    "forbid": ("#![forbid(unsafe_code)] #![deny(unused_must_use, unused_unsafe, unreachable_patterns)]", "2021", True),
    "no_std": ("#![no_std]", "2021", False),
    "no_std alloc": ("#![no_std] extern crate alloc;", "2021", False),
    "no_std program": ("#![no_std] #![no_main] "
                       "#[panic_handler] fn on_panic(_: &core::panic::PanicInfo) -> ! { loop {} } "
                       "pub struct A; unsafe impl core::alloc::GlobalAlloc for A { "
                       "unsafe fn alloc(&self, _: core::alloc::Layout) -> *mut u8 { core::ptr::null_mut() } "
                       "unsafe fn dealloc(&self, _: *mut u8, _: core::alloc::Layout) {} } "
                       "#[global_allocator] static A_: A = A;", "2021", False),
}
HEAD = "#![allow(warnings)] "


def case(ctx, parts, label, hard, ok=True):
    """parts: pieces of the module; those in a list may be left out"""
    return dict(kind="ctx", ctx=ctx, parts=parts, code=join(parts), terms=[], expect_of=lambda ts, ok=ok: ok, label=label, hard=hard)


def join(parts):
    return " ".join(" ".join(p) if isinstance(p, list) else p for p in parts)


def shrink(comp, c):
    """leave out pieces, and put the module into a plainer crate, while it still goes wrong"""
    want = c["expect_of"]([])

    def wrong(d):
        try:
            return comp.judge([d], "shrink")[0][0] != want
        except RuntimeError:
            return False
    again = True
    while again:
        again = False
        for i, p in enumerate(c["parts"]):
            if not isinstance(p, list):
                continue
            for k in range(len(p)):
                q = c["parts"][:i] + [p[:k] + p[k + 1:]] + c["parts"][i + 1:]
                d = dict(c, parts=q, code=join(q))
                if wrong(d):
                    c, again = d, True
                    break
            if again:
                break
    for ctx in ("plain", "no_std alloc"):
        if c["ctx"] == ctx:
            break
        d = dict(c, ctx=ctx)
        # a program that cannot be in such a crate at all is no reproduction
        if "fc::" not in c["code"] and ctx == "plain" and c["ctx"] in ("2018", "alloc", "forbid", "2024") and wrong(d):
            c = d
            break
    return c


# ------------------------------------------------------------------ T05

LOG = ("static L: ::core::sync::atomic::AtomicU64 = ::core::sync::atomic::AtomicU64::new(1); "
       "fn t<T>(k: u64, x: T) -> T { let o = ::core::sync::atomic::Ordering::SeqCst; L.store(L.load(o).wrapping_mul(31).wrapping_add(k), o); x } "
       "fn log() -> u64 { L.load(::core::sync::atomic::Ordering::SeqCst) } "
       "fn idf<T>(x: T) -> T { x } ")

SHADOWS = ["pub struct Vec;", "pub struct Box;", "pub struct Rc;", "pub mod alloc { }", "pub mod vec { }", "pub mod boxed { }",
           "pub mod format { }", "type Result = u8;", "pub struct TryReserveError;", "trait FallibleBox { }", "fn try_from_elem() { }",
           "pub enum Sh { Ok, Err, Some, None } use self::Sh::*;", "fn Ok() { } fn Err() { }", "pub mod std { }", "pub struct String;",
           "fn try_format() { }", "trait TryClone { fn try_clone(&self) -> u8; } impl<T> TryClone for T { fn try_clone(&self) -> u8 { 7 } }",
           "trait FallibleVec { fn try_push(&self); } impl<T> FallibleVec for T { fn try_push(&self) { } }", "pub mod prelude { }",
           "struct N_; impl N_ { fn try_new(&self) { } fn into_vec(&self) { } }", "trait IntoVec { fn into_vec(&self) -> u8; } impl<T: ?Sized> IntoVec for T { fn into_vec(&self) -> u8 { 1 } }"]

# (type text, expression for value i, projection to u64, may be repeated)
ELEMS = [
    ("u8", "{}u8", "*x as u64", True), ("u64", "{}u64", "*x", True), ("i32", "{}i32", "*x as u64", True), ("usize", "{}usize", "*x as u64", True),
    ("bool", "({} % 2 == 1)", None, True), ("::core::option::Option<u16>", "::core::option::Option::Some({}u16)", "x.unwrap() as u64", True),
    ("&'static str", "&\"abcdefghijklmnopqrstuvwxyz\"[..{} % 26]", None, False), ("Own", "Own({})", "x.0", False),
    ("fn() -> u64", "(|| {}u64) as fn() -> u64", "x()", False), ("[u8; 3]", "[{}u8, 1, 2]", "x[0] as u64", False),
    ("(u8, u32)", "({}u8, 9u32)", "x.0 as u64", False), ("()", "{{ let _ = {}; }}", None, False), ("char", "('a' as u8 + {} % 26) as char", None, False),
    ("f64", "{}f64", "*x as u64", False), ("[u64; 40]", "[{}u64; 40]", "x[39]", False),
]


def project(el, i):
    """value of the projection of element number i"""
    return {"bool": i % 2, "&'static str": i % 26, "()": 0, "char": i % 26}.get(el[0], i)


def proj_text(el):
    return el[2] or {"bool": "*x as u64", "&'static str": "x.len() as u64", "()": "0", "char": "(*x as u64) - 97"}[el[0]]


def t05(g, n):
    r = g.r
    nb = g.cfg == "nb"
    out = []
    for k in range(n):
        # compiled in lots of 120: few kinds of crate in each
        if k % 40 == 0:
            ctx = r.choice([c for c in CONTEXTS if c != "no_std program" and (c != "2024" or not nb)])
        runs = CONTEXTS[ctx][2]
        shadows = []
        for s in r.sample(SHADOWS, r.choice([0, 0, 1, 1, 2, 3])):
            # two definitions of one name
            if any(w in " ".join(shadows) for w in ("Ok", "Err")) and ("Ok" in s or "Err" in s):
                continue
            if ctx == "2015" and ("mod " in s):
                continue
            shadows.append(s)
        name = "try_vec" if nb and r.random() < 0.75 else "tryformat"
        if ctx in ("macro_use", "2015"):
            use, mac = "", name
        elif ctx == "renamed":
            use, mac = "", "fc::" + name
        else:
            use, mac = r.choice([("use fallible_collections::%s; " % name, name), ("", "fallible_collections::" + name),
                                 ("", "::fallible_collections::" + name), ("use fallible_collections::%s as mine_; " % name, "mine_"),
                                 ("use fallible_collections::*; " if not shadows else "use fallible_collections::%s; " % name, name)])
        if name == "try_vec":
            code, label = vec_case(r, mac, ctx)
        else:
            code, label = format_case(r, mac, runs)
        out.append(case(ctx, [use + LOG, shadows, code], "%s in a %s crate%s" % (label, ctx, " with names of its own" if shadows else ""),
                        bool(shadows) or ctx != "plain"))
    return out


def wrap(r, mac, args):
    a, b = r.choice(["[]", "()", "{}"])
    return "%s!%s%s%s" % (mac, a, args, b)


RES = "::core::result::Result<_, _>"
GET = "match r { ::core::result::Result::Ok(v) => v, ::core::result::Result::Err(_) => return false }"


def vec_case(r, mac, ctx):
    el = r.choice(ELEMS)
    own = "#[derive(PartialEq)] pub struct Own(u64); " if el[0] == "Own" else ""
    rep = el[3] and r.random() < 0.35
    start = r.randrange(1, 30)
    pre, fns = "", ""
    if rep:
        k = r.choice([0, 1, 2, 3, 7, 30])
        ne = r.choice(["t(2, %dusize)" % k, "t(2, 2 * %d + 1)" % (k // 2) if k % 2 else "t(2, %d) + 0" % k, "{ let c = %d; t(2, c) }" % k])
        xe = "t(1, %s)" % el[1].format(start)
        m = wrap(r, mac, "%s; %s" % (xe, ne))
        want = [project(el, start)] * k
        logn = [1, 2]
        label = "repeated value"
    else:
        k = r.choice([0, 1, 1, 2, 3, 5, 12])
        xs = []
        for i in range(k):
            e = "t(%d, %s)" % (i + 1, el[1].format(start + i))
            e = r.choice([e, e, "{ %s }" % e, "idf(%s)" % e, "if true { %s } else { %s }" % (e, el[1].format(1)), "match 1 { _ => %s }" % e,
                          "(|| %s)()" % e])
            xs.append(e)
        # literals by their own type, with nothing around them
        if r.random() < 0.2:
            xs = [el[1].format(start + i) for i in range(k)]
            logn = []
        else:
            logn = list(range(1, k + 1))
        m = wrap(r, mac, ", ".join(xs) + ("," if xs and r.random() < 0.3 else ""))
        want = [project(el, start + i) for i in range(k)]
        label = "list" if k else "empty list"
    form = r.randrange(9)
    T = el[0]
    err = "%s::TryReserveError" % {"renamed": "fc", "2015": "::fallible_collections"}.get(ctx, "fallible_collections")
    if form == 0:
        get = "let r = %s; let v = %s;" % (m, GET)
    elif form == 1:
        get = "let r = (|| %s)(); let v = %s;" % (m, GET)
    elif form == 2:
        get = "let r = (|| { let v = %s?; ::core::result::Result::<_, %s>::Ok(v) })(); let v = %s;" % (m, err, GET)
        label += " under ?"
    elif form == 3:
        get = "let v = match %s { ::core::result::Result::Ok(v) => v, ::core::result::Result::Err(_) => return false };" % m
    elif form == 4:
        get = "let r = idf(%s); let v = %s;" % (m, GET)
    elif form == 5:
        get = "let r = loop { break %s; }; let v = %s;" % (m, GET)
    elif form == 6:
        fns = "struct Holder<T> { a: u8, r: T } "
        get = "let h = Holder { a: 1, r: %s }; let r = h.r; let v = %s;" % (m, GET)
    elif form == 7:
        fns = "fn two<T>(a: T, b: T) -> bool { let r = %s; match r { ::core::result::Result::Ok(v) => v.len() == 2 && v.capacity() >= 2, ::core::result::Result::Err(_) => false } } " % wrap(r, mac, "a, b")
        get = "if !two(%s, %s) { return false; } let r = %s; let v = %s;" % (el[1].format(1), el[1].format(2), m, GET)
        label += ", generic"
    else:
        # through a macro of the program's own
        if rep or not xs:
            get = "let r = %s; let v = %s;" % (m, GET)
        else:
            fns = "macro_rules! own_ { ($($x:expr),*) => { %s } } " % wrap(r, mac, "$($x),*")
            get = "let r = own_!(%s); let v = %s;" % (", ".join(xs), GET)
            label += " through another macro"
    lg = 1
    for x in logn:
        lg = (lg * 31 + x) % 2 ** 64
    check = "v.len() == %d && v.iter().map(|x: &%s| -> u64 { %s }).eq(::core::iter::Iterator::map([%s].iter(), |x: &u64| *x)) && log() == %d" % (
        len(want), T, proj_text(el), ", ".join("%du64" % w for w in want), lg)
    if r.random() < 0.15 and not rep:
        # a vector of vectors
        inner = wrap(r, mac, "1u8, 2u8")
        fns += "fn nest() -> bool { let r = (|| { let v = %s?; ::core::result::Result::<_, %s>::Ok(v) })(); match r { ::core::result::Result::Ok(v) => v.len() == 2 && v[1].len() == 2 && v[0][1] == 2, ::core::result::Result::Err(_) => false } } " % (
            wrap(r, mac, "%s?, %s?" % (inner, inner)), err)
        check += " && nest()"
        label += ", nested"
    return own + fns + "pub fn run() -> bool { %s let v: &[%s] = &v[..]; %s }" % (get, T, check), label


def format_case(r, mac, runs):
    pieces, args, named, texts = [], [], [], []
    k = r.randrange(0, 5)
    vals = [("{}", "{}u32", str), ("{}", "\"s{}\"", lambda i: "s%d" % i), ("{:?}", "{}i64", str), ("{:>6}", "{}u8", lambda i: "%6d" % i),
            ("{:05}", "{}u16", lambda i: "%05d" % i), ("{:#x}", "{}u32", lambda i: "0x%x" % i), ("{:?}", "\"q{}\"", lambda i: "\"q%d\"" % i),
            ("{:<4}|", "{}usize", lambda i: "%-4d|" % i), ("{:e}", "{}f64", None), ("{:b}", "{}u8", lambda i: bin(i)[2:])]
    for i in range(k):
        p, v, f = r.choice([x for x in vals if x[2]])
        pieces.append(p)
        args.append("t(%d, %s)" % (i + 1, v.format(i + 7)))
        texts.append(f(i + 7))
    logn = list(range(1, k + 1))
    if r.random() < 0.4:
        pieces.append("{zz}")
        args.append("zz = t(%d, 5u8)" % (k + 1))
        texts.append("5")
        logn.append(k + 1)
    pre = ""
    if r.random() < 0.4:
        pre = "let here = 77u8; "
        pieces.append("{here}")
        texts.append("77")
    if r.random() < 0.3:
        pieces.append("{{}}")
        texts.append("{}")
    if r.random() < 0.3 and k:
        pieces.append("-")
        texts.append("-")
    text = "".join(texts)
    pre += "let cap = 300usize; let _ = cap; "
    cap = r.choice(["300", "cap", "(cap + 1)", "{ t(99, 300) }", "{ cap }", "(t(99, cap))"])
    if "99" in cap:
        logn = [99] + logn
    m = wrap(r, mac, "%s, \"%s\"%s" % (cap, "".join(pieces), "".join(", " + a for a in args) + ("," if args and r.random() < 0.3 else "")))
    lg = 1
    for x in logn:
        lg = (lg * 31 + x) % 2 ** 64
    form = r.randrange(4)
    if form == 0:
        get = "let r = %s; let v = %s;" % (m, GET)
    elif form == 1:
        get = "let r = (|| %s)(); let v = %s;" % (m, GET)
    elif form == 2:
        get = "let v = match %s { ::core::result::Result::Ok(v) => v, ::core::result::Result::Err(_) => return false };" % m
    else:
        get = "let r = idf(%s); let v = %s;" % (m, GET)
    lit = text.replace("\\", "\\\\").replace("\"", "\\\"")
    return "pub fn run() -> bool { %s%s &v[..] == \"%s\" && v.capacity() == %s && log() == %d }" % (
        pre, get, lit, "301" if "+ 1" in cap else "300", lg), "text"


# ------------------------------------------------------------------ T06

ALWAYS = [
    "pub fn f(v: &mut A!Vec<u8>) -> Result<(), F!TryReserveError> { F!FallibleVec::try_push(v, 1)?; F!FallibleVec::try_reserve(v, 3)?; F!vec::FallibleVec::try_extend_from_slice(v, &[1, 2])?; F!FallibleVec::try_resize(v, 9, 1) }",
    "pub fn f(v: &mut A!Vec<u8>) -> Result<(), (u8, F!TryReserveError)> { F!FallibleVec::try_insert(v, 0, 1)?; F!FallibleVec::try_push_give_back(v, 1) }",
    "pub fn f() -> Result<A!Vec<u64>, F!TryReserveError> { let mut v = <A!Vec<u64> as F!FallibleVec<u64>>::try_with_capacity(3)?; F!FallibleVec::try_resize_with(&mut v, 5, || 7)?; Ok(v) }",
    "pub fn f(a: &mut A!Vec<A!Vec<u8>>, b: &[A!Vec<u8>]) -> Result<(), F!TryReserveError> { F!FallibleVec::try_extend_from_slice_no_copy(a, b)?; F!FallibleVec::try_resize_no_copy(a, 3, A!Vec::new()) }",
    "pub fn f(a: &mut A!Vec<fn()>, b: &mut A!Vec<fn()>) -> Result<(), F!TryReserveError> { F!FallibleVec::try_append(a, b) }",
    "pub fn f() -> Result<F!TryVec<u8>, F!TryReserveError> { let mut v = F!TryVec::with_capacity(2)?; v.push(1)?; v.reserve(4)?; v.extend_from_slice(&[1])?; v.resize_with(3, || 2)?; Ok(v) }",
    "pub fn f(a: F!vec::TryVec<u8>, b: &mut F!TryVec<u8>) -> (usize, usize, bool, Option<u8>) { let n = a.len(); let e = b.is_empty(); let p = b.pop(); b.clear(); (a.into_iter().count(), n, e, p) }",
    "pub fn f(a: &F!TryVec<F!TryVec<u8>>) -> Result<F!TryVec<u8>, F!TryReserveError> { a.concat() }",
    "pub fn f(a: &F!TryVec<u8>) -> (usize, u64, bool, bool) { (a.iter().count(), a.into_iter().map(|x| *x as u64).sum(), *a == &[1u8][..], *a == \"abc\") }",
    "pub fn f(a: &str, b: &[u16]) -> Result<(F!TryVec<u8>, F!TryVec<u16>), F!TryReserveError> { Ok((core::convert::TryFrom::try_from(a)?, core::convert::TryFrom::try_from(b)?)) }",
    "pub fn f(x: u8) -> Result<A!Box<u8>, F!TryReserveError> { <A!Box<u8> as F!FallibleBox<u8>>::try_new(x) }",
    "pub fn f(x: u8) -> Result<F!TryBox<u8>, F!TryReserveError> { F!boxed::TryBox::try_new(x) }",
    "pub fn f(x: F!TryBox<u8>) -> u8 { let p = F!TryBox::into_raw(x); let b = unsafe { F!TryBox::from_raw(p) }; *b }",
    "pub fn f(x: u8) -> Result<A!rc::Rc<u8>, F!TryReserveError> { <A!rc::Rc<u8> as F!FallibleRc<u8>>::try_new(x) }",
    "pub fn f(x: u8) -> Result<A!sync::Arc<u8>, F!TryReserveError> { <A!sync::Arc<u8> as F!FallibleArc<u8>>::try_new(x) }",
    "pub fn f(x: &A!sync::Arc<str>) -> Result<A!sync::Arc<str>, F!TryReserveError> { F!TryClone::try_clone(x) }",
    "pub fn f(x: &A!Vec<Option<A!Box<u8>>>) -> Result<A!Vec<Option<A!Box<u8>>>, F!TryReserveError> { F!TryClone::try_clone(x) }",
    "pub fn f(x: core::ops::Range<u8>) -> Result<A!Vec<u8>, F!TryReserveError> { F!TryCollect::try_collect(x) }",
    "pub fn f(x: core::ops::Range<u8>) -> Result<A!Vec<u8>, F!TryReserveError> { F!vec::TryFromIterator::try_from_iterator(x) }",
    "pub fn f(x: u8) -> Result<A!string::String, F!TryReserveError> { F!tryformat!(20, \"{}{:?}\", x, x) }",
    "pub fn f(x: u8) -> Result<A!string::String, F!TryReserveError> { F!format::try_format(20, format_args!(\"{}\", x)) }",
    "pub fn f(x: F!TryReserveError) -> A!collections::TryReserveError { x }",
    "pub fn f(x: &F!TryVec<F!TryBox<u8>>) -> Result<F!TryVec<F!TryBox<u8>>, F!TryReserveError> { F!TryClone::try_clone(x) }",
]
IO = [
    "pub fn f(x: &[u8]) -> std::io::Result<F!TryVec<u8>> { use std::io::Read; F!TryRead::read_into_try_vec(&mut x.take(3)) }",
    "pub fn f(x: &[u8], v: &mut F!TryVec<u8>) -> std::io::Result<usize> { use std::io::Read; F!TryRead::try_read_to_end(&mut x.take(3), v) }",
    "pub fn f(mut x: &[u8], v: &mut F!TryVec<u8>) -> std::io::Result<usize> { F!try_read_up_to(&mut x, 3, v) }",
    "pub fn f(mut x: &[u8], v: &mut F!TryVec<u8>) -> std::io::Result<usize> { F!vec::std_io::try_read_up_to(&mut x, 3, v) }",
    "pub fn f(v: &mut F!TryVec<u8>) -> std::io::Result<()> { use std::io::Write; v.write_all(&[1])?; write!(v, \"{}\", 1) }",
]
HASH = [
    "pub fn f(m: &mut F!TryHashMap<u8, u16>) -> Result<Option<u16>, F!TryReserveError> { m.insert(1, 2) }",
    "pub fn f(m: &mut F!hashmap::TryHashMap<u8, u16>) -> (Option<u16>, usize) { (m.remove(&1), m.len()) }",
    "pub fn f(m: &F!TryHashMap<u8, u16>) -> Result<F!TryHashMap<u8, u16>, F!TryReserveError> { F!TryClone::try_clone(m) }",
    "pub fn f(m: F!TryHashMap<A!string::String, u16>) -> (u16, usize) { let x = m.get(\"a\").copied().unwrap_or(m.iter().count() as u16); (x, m.into_iter().count()) }",
    "pub fn f() -> Result<F!TryHashMap<u8, u16>, F!TryReserveError> { let _m: F!TryHashMap<u8, u16> = Default::default(); F!TryHashMap::with_capacity(3) }",
]
BT = [
    "pub fn f() -> Result<F!btree::BTreeMap<u8, u16>, F!TryReserveError> { let mut m = F!btree::BTreeMap::new(); m.try_insert(1, 2)?; Ok(m) }",
    "pub fn f() -> Result<F!btree::BTreeSet<u8>, F!TryReserveError> { let mut m = F!btree::BTreeSet::new(); m.try_insert(1)?; Ok(m) }",
    "pub fn f(m: &mut F!btree::map::BTreeMap<u8, u16>) -> Result<u16, F!TryReserveError> { Ok(*m.try_entry(1)?.or_try_insert(2)?) }",
    "pub fn f(m: &F!btree::BTreeMap<u8, u16>) -> Result<F!btree::BTreeMap<u8, u16>, F!TryReserveError> { F!TryClone::try_clone(m) }",
    "pub fn f() -> Result<A!Vec<u8>, F!TryReserveError> { F!try_vec![1, 2] }",
    "pub fn f() -> Result<A!Vec<u8>, F!TryReserveError> { F!try_vec![1; 3] }",
    "pub fn f() -> Result<A!Vec<u8>, F!TryReserveError> { F!vec::try_from_elem(1, 3) }",
    "pub fn f(a: &F!btree::BTreeSet<u8>, b: &F!btree::BTreeSet<u8>) -> usize { a.union(b).count() + a.intersection(b).count() + a.range(2..).count() }",
]
# configuration -> features of the crate
FEATURES = {
    "f-none": (), "f-hash": ("hashmap",), "f-std": ("std",), "f-io": ("std_io",), "f-std-hash": ("std", "hashmap"), "f-io-hash": ("std_io", "hashmap"),
    "f-bt": ("unstable",), "f-bt-std": ("unstable", "std"), "f-bt-io": ("unstable", "std_io"), "f-bt-hash-io": ("unstable", "hashmap", "std_io"),
    "f-bt-hash": ("unstable", "hashmap"),
}


def t06(g, n):
    r = g.r
    fs = FEATURES[g.cfg]
    std = "std" in fs or "std_io" in fs
    areas = [("the part for everybody", ALWAYS, True, False), ("input and output", IO, "std_io" in fs, True),
             ("hash maps", HASH, "hashmap" in fs and "unstable" not in fs, False), ("ordered maps and try_vec!", BT, "unstable" in fs, False)]
    out = []
    for k in range(n):
        # every part this set of features offers, in every kind of program it may be used in
        area, texts, there, needs_std = r.choice([a for a in areas if a[2]])
        kinds = ["plain", "alloc", "2018"] + ([] if needs_std else ["no_std alloc", "no_std alloc"] + ([] if std else ["no_std program"] * 3))
        if k % 30 == 0:
            u = r.random()
        ctx = kinds[int(u * len(kinds))]
        xs = r.sample(texts, r.choice([1, 1, 2, 3]))
        code = []
        for i, x in enumerate(xs):
            A = "std::" if ctx in ("plain", "2018") else "crate::alloc::"
            x = x.replace("A!Vec", A + "vec::Vec").replace("A!Box", A + "boxed::Box").replace("A!", A).replace("F!", "fallible_collections::")
            code.append("pub mod m%d { %s }" % (i, x))
        out.append(case(ctx, [code, "pub fn run() -> bool { true }"], "%s in a %s crate" % (area, ctx), not std and ctx.startswith("no_std") or ctx == "no_std program" or area != areas[0][0]))
    return out


# ------------------------------------------------------------------ compiling

def source(ctx, mods):
    head, _, runs = CONTEXTS[ctx]
    if ctx == "no_std program":
        head += " extern crate alloc;"
    return HEAD + head + "\n" + "".join(m + "\n" for m in mods)


def module(i, c):
    return "pub mod q%s { %s }" % (i, c["code"])


def judge(comp, cases, ix, tag):
    """verdicts of the cases of one context: (index, holds, message)"""
    import os
    import subprocess
    ctx = cases[ix[0]]["ctx"]
    _, edition, runs = CONTEXTS[ctx]
    res = {}
    left = list(ix)
    tag = "%s-%s" % (tag, ctx.replace(" ", ""))
    out = os.path.join(comp.work, "%s-%s" % (comp.cfg, tag))
    kind = ["--crate-type", "bin" if ctx == "no_std program" else "lib", "--emit", "metadata", "-o", out + ".rmeta"] + (["-C", "panic=abort"] if ctx == "no_std program" else [])
    # errors of different phases hide each other: until nothing is refused
    for _ in range(6):
        if not left:
            return res
        rc, bad, stray = comp.rustc_ctx(source(ctx, [module(i, cases[i]) for i in left]), kind, tag, edition)
        if rc == 0:
            break
        hit = [k for k in range(len(left)) if k in bad]
        if not hit:
            for i in left:
                res[i] = (False, "refused: " + "; ".join(list(bad.values())[:1] + stray[:2]))
            return res
        for k in hit:
            res[left[k]] = (False, bad[k])
        left = [i for k, i in enumerate(left) if k not in hit]
    else:
        for i in left:
            res[i] = (False, "refused again and again")
        return res
    if not runs:
        for i in left:
            res[i] = (True, "accepted")
        return res
    src = source(ctx, [module(i, cases[i]) for i in left]) + "fn main() { " + " ".join("println!(\"{}\", q%d::run() as u8);" % i for i in left) + " }\n"
    rc, bad, stray = comp.rustc_ctx(src, ["--crate-type", "bin", "-o", out + ".exe"], tag, edition)
    if rc != 0:
        for i in left:
            res[i] = (False, "refused when linked: " + "; ".join(list(bad.values())[:1] + stray[:2]))
        return res
    p = subprocess.run([out + ".exe"], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=60)
    os.remove(out + ".exe")
    o = p.stdout.split()
    for k, i in enumerate(left):
        if k < len(o):
            res[i] = (o[k] == "1", "accepted" if o[k] == "1" else "accepted, but the values, their number or the order of evaluation are wrong")
        elif k == len(o):
            res[i] = (False, "ended with " + (p.stderr.strip().splitlines() or ["status %d" % p.returncode])[0][:200])
        else:
            res[i] = (True, "not reached")
    return res
