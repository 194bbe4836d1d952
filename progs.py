#!/usr/bin/env python3
"""Generated programs: properties whose quantifier is "every program that uses the types".

A case is one program: an item generated from type terms and templates, together with the verdict a model of the
language's rules (auto traits, variance, borrows, drop check) gives for it: accepted or rejected, or which value a
trait query has. The compiler, given the crate under test, decides what really holds; a difference is a failure.
Many programs are compiled in one go (one item per line, errors are attributed by line); every difference is confirmed
by compiling the program alone, then shrunk by simplifying its types, and written as a replay file.
"""
import concurrent.futures as cf
import hashlib
import json
import os
import random
import re
import shutil
import subprocess

import ctxprogs

# ------------------------------------------------------------------ type terms
# A term is (constructor, children); the hole of a variance case is ("HOLE", ()).
# constructor -> (text, send, sync, variance per child)
# send and sync are functions of the children's (send, sync) pairs.
ALL = lambda i: lambda cs: all(c[i] for c in cs)
NO = lambda cs: False
YES = lambda cs: True
SEND, SYNC = 0, 1
CO, CONTRA, INV = 1, -1, 0


def both(cs):
    return all(c[0] and c[1] for c in cs)


LEAF = {
    "u8": (YES, YES), "u64": (YES, YES), "()": (YES, YES), "char": (YES, YES), "String": (YES, YES),
    "&'static str": (YES, YES), "std::rc::Rc<u8>": (NO, NO), "std::cell::Cell<u8>": (YES, NO),
    "std::cell::RefCell<String>": (YES, NO), "*const u8": (NO, NO), "*mut u64": (NO, NO),
    "std::sync::MutexGuard<'static, u8>": (NO, YES), "std::sync::atomic::AtomicU8": (YES, YES),
    "std::sync::mpsc::Sender<u8>": (YES, YES), "std::sync::mpsc::Receiver<u8>": (YES, NO),
    "Box<dyn Fn()>": (NO, NO), "Box<dyn Fn() + Send>": (YES, NO), "Box<dyn Fn() + Send + Sync>": (YES, YES),
    "std::rc::Weak<u8>": (NO, NO), "std::cell::OnceCell<u8>": (YES, NO),
}
CONS = {
    "Box<{}>": (ALL(0), ALL(1), (CO,)),
    "Vec<{}>": (ALL(0), ALL(1), (CO,)),
    "Option<{}>": (ALL(0), ALL(1), (CO,)),
    "[{}; 2]": (ALL(0), ALL(1), (CO,)),
    "({}, {})": (ALL(0), ALL(1), (CO, CO)),
    "Result<{}, {}>": (ALL(0), ALL(1), (CO, CO)),
    "&'static {}": (ALL(1), ALL(1), (CO,)),
    "std::rc::Rc<{}>": (NO, NO, (CO,)),
    "std::sync::Arc<{}>": (both, both, (CO,)),
    "std::cell::Cell<{}>": (ALL(0), NO, (INV,)),
    "std::sync::Mutex<{}>": (ALL(0), ALL(0), (INV,)),
    "std::sync::RwLock<{}>": (ALL(0), both, (INV,)),
    "std::marker::PhantomData<{}>": (ALL(0), ALL(1), (CO,)),
    "fn({}) -> u8": (YES, YES, (CONTRA,)),
    "fn() -> {}": (YES, YES, (CO,)),
    "std::collections::VecDeque<{}>": (ALL(0), ALL(1), (CO,)),
}
FREE = {"fn({}) -> u8", "fn() -> {}"}  # no bound on the child

M = "fallible_collections::btree::map::"
S = "fallible_collections::btree::set::"
V = "fallible_collections::vec::"
F = "fallible_collections::"
# the types under test: same shape; "shared" views are sent when their contents may be shared
OWN = (ALL(0), ALL(1))
SHARED = (ALL(1), ALL(1))
UNIQUE = (ALL(0), ALL(1))
BT = {
    M + "BTreeMap<{}, {}>": OWN + ((CO, CO),),
    M + "IntoIter<{}, {}>": OWN + ((CO, CO),),
    M + "Iter<'L, {}, {}>": SHARED + ((CO, CO),),
    M + "Keys<'L, {}, {}>": SHARED + ((CO, CO),),
    M + "Values<'L, {}, {}>": SHARED + ((CO, CO),),
    M + "Range<'L, {}, {}>": SHARED + ((CO, CO),),
    M + "IterMut<'L, {}, {}>": UNIQUE + ((INV, INV),),
    M + "ValuesMut<'L, {}, {}>": UNIQUE + ((INV, INV),),
    M + "RangeMut<'L, {}, {}>": UNIQUE + ((INV, INV),),
    M + "Entry<'L, {}, {}>": UNIQUE + ((INV, INV),),
    M + "VacantEntry<'L, {}, {}>": UNIQUE + ((INV, INV),),
    M + "OccupiedEntry<'L, {}, {}>": UNIQUE + ((INV, INV),),
    S + "BTreeSet<{}>": OWN + ((CO,),),
    S + "IntoIter<{}>": OWN + ((CO,),),
    S + "Iter<'L, {}>": SHARED + ((CO,),),
    S + "Range<'L, {}>": SHARED + ((CO,),),
    S + "Difference<'L, {}>": SHARED + ((CO,),),
    S + "SymmetricDifference<'L, {}>": SHARED + ((CO,),),
    S + "Intersection<'L, {}>": SHARED + ((CO,),),
    S + "Union<'L, {}>": SHARED + ((CO,),),
}
VEC = {
    F + "TryVec<{}>": OWN + ((CO,),),
    F + "TryBox<{}>": OWN + ((CO,),),
    V + "Iter<'L, {}>": SHARED + ((CO,),),
    V + "IterMut<'L, {}>": UNIQUE + ((INV,),),
}
HASH = {F + "TryHashMap<{}, {}>": OWN + ((CO, CO),)}


# built on Peekable, whose field of an associated type makes it invariant, in the standard library too: not said
VAGUE = {S + "Difference<'L, {}>", S + "SymmetricDifference<'L, {}>", S + "Union<'L, {}>"}


def table(cfg):
    t = dict(CONS)
    for k in (LEAF,):
        t.update({x: y + ((),) for x, y in k.items()})
    t.update(VEC)
    t.update(BT if cfg == "nb" else HASH)
    return t


def text(t, life="'static"):
    c, ch = t
    if c == "HOLE":
        return "&'HOLE str"
    return c.replace("'L", life).format(*[text(x, life) for x in ch])


def flags(t, tab):
    c, ch = t
    if c == "HOLE":
        return (True, True)
    cs = [flags(x, tab) for x in ch]
    return (tab[c][0](cs), tab[c][1](cs))


def depth(t):
    return 1 + max([depth(x) for x in t[1]] or [0])


def size(t):
    return 1 + sum(size(x) for x in t[1])


def variance(t, tab):
    """of the hole in t: None when there is none"""
    c, ch = t
    if c == "HOLE":
        return CO
    for v, x in zip(tab[c][2], ch):
        r = variance(x, tab)
        if r is not None:
            return v * r
    return None


def has(t, pred):
    return pred(t[0]) or any(has(x, pred) for x in t[1])


class Gen:
    def __init__(self, rng, cfg):
        self.r, self.cfg, self.tab = rng, cfg, table(cfg)
        self.leaf = list(LEAF)
        self.cons = list(CONS)
        self.own = [k for k in list(VEC) + list(BT if cfg == "nb" else HASH)]
        self.plain = [k for k in self.own if "'L" not in k]

    def term(self, d, own=0.25):
        """a type; own: how often a type under test is used inside"""
        if d <= 0 or self.r.random() < 0.45:
            return (self.r.choice(self.leaf), ())
        c = self.r.choice(self.plain) if self.r.random() < own else self.r.choice(self.cons)
        return (c, tuple(self.term(d - 1, own) for _ in range(c.count("{}"))))

    def of(self, c, d=2):
        return (c, tuple(self.term(d) for _ in range(c.count("{}"))))

    def holed(self, c):
        """c with the hole at a random place below it"""
        n = c.count("{}")
        k = self.r.randrange(n)
        ch = []
        for i in range(n):
            if i != k:
                # the other types play no part, except that they have to be well-formed
                ch.append((self.r.choice(["u8", "String", "std::rc::Rc<u8>", "std::cell::Cell<u8>"]), ()))
            elif self.r.random() < 0.5:
                ch.append(("HOLE", ()))
            else:
                x = self.r.choice(self.plain) if self.r.random() < 0.3 else self.r.choice(
                    [q for q in self.cons if q != "&'static {}"])
                ch.append(self.holed(x))
        return (c, tuple(ch))


# ------------------------------------------------------------------ cases
# A case: dict(kind = "query" | "type" | "borrow", code with {0}, {1}.. for terms, terms, expect (bool), label,
#              nontrivial, expect_of = function of the terms giving the expectation for shrunk terms, or None)

def query(what, term, bound, expect_of, label, hard):
    return dict(kind="query", what=what, terms=[term], bound=bound, expect_of=expect_of, label=label, hard=hard)


def render(c):
    if c["kind"] == "query":
        return "(%s) : %s" % (text(c["terms"][0]), c["bound"](c["terms"]))
    return c["code"](c["terms"]) if callable(c["code"]) else c["code"]


def program(c, i):
    if c["kind"] == "query2":
        return "pub fn q%d() -> bool { %s }" % (i, c["code"])
    if c["kind"] == "query":
        t, b = text(c["terms"][0]), c["bound"](c["terms"])
        if c.get("std"):
            # the same question about the standard library's type: same answer?
            return "pub fn q%d() -> bool { has!(%s : %s) == has!(%s : %s) }" % (i, t, b, standard(t), standard(b))
        return "pub fn q%d() -> bool { has!(%s : %s) }" % (i, t, b)
    return "pub mod p%d { use super::*; %s }" % (i, render(c))


def expect(c):
    return c["expect_of"](c["terms"])


PRELUDE = r'''#![allow(warnings)]
pub struct Nothing;
#[derive(Debug)] pub struct OnlyDebug;
#[derive(Clone)] pub struct OnlyClone;
#[derive(PartialEq)] pub struct OnlyPartialEq;
#[derive(PartialEq, Eq, Hash)] pub struct Hashes;
#[derive(PartialEq, PartialOrd)] pub struct OnlyPartialOrd;
#[derive(PartialEq, Eq, PartialOrd, Ord)] pub struct Orders;
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy)] pub struct OrdersCopies;
#[derive(PartialEq, Eq, PartialOrd, Ord, Hash, Clone, Copy, Debug)] pub struct Everything;
use std::collections::{HashMap, HashSet, LinkedList, VecDeque, BinaryHeap};
pub fn touch<T>(_: T) {}
pub fn any<T>() -> T { loop {} }
macro_rules! has { ($t:ty : $($b:tt)+) => {{
    struct P<T>(std::marker::PhantomData<T>);
    trait Otherwise { const V: bool = false; }
    impl<T> Otherwise for P<T> {}
    impl<T: $($b)+> P<T> { const V: bool = true; }
    <P<$t>>::V
}} }
'''
BT_PRELUDE = "pub use fallible_collections::btree::{BTreeMap, BTreeSet, map, set};\n"
STD_PRELUDE = "pub use std::collections::{BTreeMap, BTreeSet};\npub use fallible_collections::TryHashMap;\n"
COMMON = "pub use fallible_collections::{TryVec, TryBox, TryClone, FallibleVec, FallibleBox, TryCollect};\n"


def prelude(cfg):
    return PRELUDE + COMMON + (BT_PRELUDE if cfg == "nb" else STD_PRELUDE)


# ---- T01: the wrappers offer no implicit allocating trait

def t01(g, n):
    r = g.r
    out = []
    names = ["TryVec", "TryBox"] + (["TryHashMap"] if g.cfg != "nb" else [])

    def wrapped(w):
        if w == "TryHashMap":
            return (F + "TryHashMap<{}, {}>", (g.term(2), g.term(2)))
        return (F + w + "<{}>", (g.term(2),))

    def el(ts, j=0):
        return text(ts[0][1][j])

    def pair(ts):
        return "(%s, %s)" % (el(ts), el(ts, 1))

    for _ in range(n):
        w = r.choice(names)
        t = wrapped(w)
        x = r.randrange(10)
        if x < 3:
            # inside another storage: cloning that would clone the wrapper
            if r.random() < 0.6:
                around = r.choice(["Option<{}>", "Box<{}>", "Vec<{}>", "[{}; 2]", "({}, {})", "Result<{}, {}>"])
                ch = [t] + [("u8", ())] * (around.count("{}") - 1)
                if len(ch) == 2 and r.random() < 0.5:
                    ch.reverse()
                t2 = (around, tuple(ch))
            else:
                t2 = t
            b = r.choice(["Clone", "Copy", "ToOwned", "Clone"])
            out.append(query("impl", t2, lambda ts, b=b: b, lambda ts: False, w + ": " + b, True))
        elif x < 8:
            if w == "TryVec":
                b = r.choice([
                    lambda ts: "Extend<%s>" % el(ts), lambda ts: "Extend<&'static %s>" % el(ts),
                    lambda ts: "FromIterator<%s>" % el(ts), lambda ts: "FromIterator<&'static %s>" % el(ts),
                    lambda ts: "From<&'static [%s]>" % el(ts), lambda ts: "From<&'static mut [%s]>" % el(ts),
                    lambda ts: "From<[%s; 3]>" % el(ts), lambda ts: "From<&'static [%s; 2]>" % el(ts),
                    lambda ts: "From<LinkedList<%s>>" % el(ts), lambda ts: "From<%s>" % el(ts),
                    lambda ts: "From<Option<%s>>" % el(ts), lambda ts: "From<std::rc::Rc<[%s]>>" % el(ts),
                    lambda ts: "From<&'static Vec<%s>>" % el(ts),
                    lambda ts: "From<&'static %s>" % text(ts[0]), lambda ts: "From<usize>",
                    lambda ts: "std::iter::Sum<%s>" % el(ts), lambda ts: "std::iter::Sum<%s>" % text(ts[0]),
                    lambda ts: "std::ops::AddAssign<&'static [%s]>" % el(ts),
                    lambda ts: "std::ops::Add<&'static [%s]>" % el(ts),
                    lambda ts: "std::ops::Add", lambda ts: "std::ops::AddAssign",
                    lambda ts: "From<&'static str>", lambda ts: "From<std::borrow::Cow<'static, str>>",
                ])
                if r.random() < 0.15:
                    t = (t[0], (("u8", ()),))
            elif w == "TryBox":
                b = r.choice([
                    lambda ts: "From<%s>" % el(ts), lambda ts: "FromIterator<%s>" % el(ts),
                    lambda ts: "From<&'static %s>" % el(ts), lambda ts: "From<&'static %s>" % text(ts[0]),
                    lambda ts: "Extend<%s>" % el(ts), lambda ts: "Default",
                ])
            else:
                b = r.choice([
                    lambda ts: "Extend<%s>" % pair(ts), lambda ts: "FromIterator<%s>" % pair(ts),
                    lambda ts: "Extend<(&'static %s, &'static %s)>" % (el(ts), el(ts, 1)),
                    lambda ts: "FromIterator<(&'static %s, &'static %s)>" % (el(ts), el(ts, 1)),
                    lambda ts: "From<[%s; 2]>" % pair(ts), lambda ts: "From<&'static [%s]>" % pair(ts),
                    lambda ts: "From<Vec<%s>>" % pair(ts), lambda ts: "From<&'static %s>" % text(ts[0]),
                    lambda ts: "From<BTreeMap<%s, %s>>" % (el(ts), el(ts, 1)),
                    lambda ts: "Extend<TryHashMap<%s, %s>>" % (el(ts), el(ts, 1)),
                    lambda ts: "std::ops::Index<%s>" % el(ts) + " + Clone",
                ])
                if r.random() < 0.6:
                    t = (t[0], ((r.choice(["u8", "String", "char", "u64"]), ()), t[1][1]))
            # reflexive From holds when the wrapper is its own source
            out.append(query("impl", t, b, (lambda b: lambda ts: b(ts) == "From<%s>" % text(ts[0]))(b),
                             w + ": " + re.sub(r"<.*", "", b([t])), True))
        else:
            e = r.choice(["u8", "String", "Box<u64>", "Option<String>", "(u8, char)"])
            E = e
            progs = {
                "TryVec": [
                    ("pub fn f(i: std::vec::IntoIter<{E}>) {{ let v: TryVec<{E}> = i.collect(); }}", False),
                    ("pub fn f(mut v: TryVec<{E}>, i: std::vec::IntoIter<{E}>) {{ v.extend(i); }}", False),
                    ("pub fn f(v: TryVec<{E}>) {{ let w: TryVec<{E}> = v.clone(); }}", False),
                    ("pub fn f(v: &TryVec<{E}>) {{ let w: TryVec<{E}> = v.clone(); }}", False),
                    ("pub fn f(v: TryVec<{E}>) {{ let w: TryVec<{E}> = v.to_owned(); }}", False),
                    ("pub fn f(v: TryVec<{E}>) {{ let w = vec![v; 2]; }}", False),
                    ("pub fn f(v: &[TryVec<{E}>]) {{ let w = v.to_vec(); }}", False),
                    ("pub fn f(a: &mut [TryVec<{E}>]) {{ a.fill(any()); }}", False),
                    ("pub fn f(a: Option<&TryVec<{E}>>) {{ let w = a.cloned(); let x: TryVec<{E}> = w.unwrap(); }}", False),
                    ("pub fn f(a: &[{E}]) {{ let v: TryVec<{E}> = a.into(); }}", False),
                    ("pub fn f(a: [{E}; 2]) {{ let v = TryVec::<{E}>::from(a); }}", False),
                    ("pub fn f(i: std::vec::IntoIter<({E}, u8)>) {{ let v: (TryVec<{E}>, TryVec<u8>) = i.unzip(); }}", False),
                    ("pub fn f(i: std::vec::IntoIter<{E}>) {{ let v: (TryVec<{E}>, TryVec<{E}>) = i.partition(|_| true); }}", False),
                    ("pub fn f(i: std::vec::IntoIter<Option<{E}>>) {{ let v: Option<TryVec<{E}>> = i.collect(); }}", False),
                    ("pub fn f(v: std::borrow::Cow<'static, TryVec<{E}>>) {{ }}", False),
                    ("pub fn f(v: Vec<{E}>) {{ let w: TryVec<{E}> = v.into(); }}", True),
                    ("pub fn f(v: Vec<{E}>) {{ let w = TryVec::from(v); for x in &w {{ }} for x in w {{ }} }}", True),
                    ("pub fn f(i: std::vec::IntoIter<{E}>) {{ let v: Result<Vec<{E}>, _> = i.try_collect(); }}", "stable"),
                    ("pub fn f(a: &[u8]) {{ let w: Result<TryVec<u8>, _> = a.try_into(); }}", True),
                    ("pub fn f(v: TryVec<u8>) {{ let w: Result<TryVec<u8>, _> = v.try_clone(); }}", True),
                    ("pub fn f(v: TryVec<{E}>) {{ let w: Vec<{E}> = v.into_iter().collect(); }}", True),
                ],
                "TryBox": [
                    ("pub fn f(v: TryBox<{E}>) {{ let w: TryBox<{E}> = v.clone(); }}", False),
                    ("pub fn f(v: {E}) {{ let w: TryBox<{E}> = v.into(); }}", False),
                    ("pub fn f(v: TryBox<{E}>) {{ let w = vec![v; 2]; }}", False),
                    ("pub fn f(v: Option<&TryBox<{E}>>) {{ let w: Option<TryBox<{E}>> = v.cloned(); }}", False),
                    ("pub fn f(v: &[TryBox<{E}>]) {{ let w = v.to_vec(); }}", False),
                    ("pub fn f(v: {E}) {{ let w: Result<TryBox<{E}>, _> = TryBox::try_new(v); }}", True),
                    ("pub fn f(v: TryBox<u8>) {{ let w: Result<TryBox<u8>, _> = v.try_clone(); let x: u8 = *v; }}", True),
                ],
                "TryHashMap": [
                    ("pub fn f(i: std::vec::IntoIter<({E}, u8)>) {{ let v: TryHashMap<{E}, u8> = i.collect(); }}", False),
                    ("pub fn f(mut v: TryHashMap<{E}, u8>, i: std::vec::IntoIter<({E}, u8)>) {{ v.extend(i); }}", False),
                    ("pub fn f(v: TryHashMap<{E}, u8>) {{ let w: TryHashMap<{E}, u8> = v.clone(); }}", False),
                    ("pub fn f(a: [({E}, u8); 2]) {{ let v: TryHashMap<{E}, u8> = a.into(); }}", False),
                    ("pub fn f(v: TryHashMap<{E}, u8>) {{ let w = vec![v; 2]; }}", False),
                    ("pub fn f(i: std::vec::IntoIter<Result<({E}, u8), ()>>) {{ let v: Result<TryHashMap<{E}, u8>, ()> = i.collect(); }}", False),
                    ("pub fn f(v: TryHashMap<u8, u64>) {{ let w: Result<TryHashMap<u8, u64>, _> = v.try_clone(); for (a, b) in v {{ }} }}", True),
                    ("pub fn f(mut v: TryHashMap<{E}, u8>, k: {E}) {{ let w: Result<Option<u8>, _> = v.insert(k, 1); }}", True),
                ],
            }[w]
            p, ok = r.choice(progs)
            if ok == "stable":
                # on nightly the unstable Iterator::try_collect has the same name
                p, ok = "pub fn f(i: std::vec::IntoIter<{E}>) {{ let v: Result<Vec<{E}>, fallible_collections::TryReserveError> = TryCollect::<{E}>::try_collect(i); }}", True
            out.append(dict(kind="type", code=p.format(E=E), terms=[], expect_of=lambda ts, ok=ok: ok,
                            label=w + (" use rejected" if not ok else " use accepted"), hard=not ok))
    return out


# ---- T02: auto traits and variance

def drop_order(g):
    """values that borrow from something dropped before their container"""
    r = g.r
    obs = r.random() < 0.5
    d = "#[derive(PartialEq, Eq, PartialOrd, Ord, Hash)] struct D<'a>(&'a str); impl<'a> Drop for D<'a> { fn drop(&mut self) { touch(self.0); } } " if obs else ""
    e = "D(&s)" if obs else "&s[..]"
    new = "let mut m = %s::new();"
    cs = [(new % "TryVec", "m.push(%s);" % e), ("let mut m = None;", "m = TryBox::try_new(%s).ok();" % e),
          ("let mut m = None;", "m = Some(TryVec::from(vec![%s]));" % e)]
    if obs:
        cs += [("let mut m = None;", "m = Some(TryVec::from(vec![%s]).into_iter());" % e)]
    if g.cfg == "nb":
        cs += [(new % "BTreeMap", "m.try_insert(1u8, %s);" % e), (new % "BTreeMap", "m.try_insert(%s, 1u8);" % e),
               (new % "BTreeMap", "m.try_insert(%s, %s);" % (e, e)), (new % "BTreeSet", "m.try_insert(%s);" % e),
               ("let mut m = None;", "let mut t = BTreeMap::new(); t.try_insert(2u8, %s); m = Some(t);" % e)]
        if obs:
            # the standard library's owning iterators do not let contents dangle either
            cs += [("let mut m = BTreeMap::new().into_iter();", "let mut t = BTreeMap::new(); t.try_insert(%s, 1u8); m = t.into_iter();" % e),
                   ("let mut m = BTreeSet::new().into_iter();", "let mut t = BTreeSet::new(); t.try_insert(%s); m = t.into_iter();" % e)]
    elif obs:
        cs += [("let mut m = TryHashMap::default();", "m.insert(%s, 1u8);" % e), ("let mut m = TryHashMap::default();", "m.insert(1u8, %s);" % e)]
    a, b = r.choice(cs)
    return (dict(kind="borrow", code=d + "pub fn f() { %s let s = String::from(\"x\"); %s }" % (a, b), terms=[],
                    expect_of=lambda ts, obs=obs: not obs, label="contents dropped before the container", hard=obs))


def t02(g, n):
    r = g.r
    out = []
    mine = [k for k in g.own]
    for _ in range(n):
        x = r.randrange(20)
        c = r.choice(mine)
        if x < 11:
            t = g.of(c)
            i = r.randrange(2)
            out.append(query("auto", t, lambda ts, i=i: ("Send", "Sync")[i], lambda ts, i=i: flags(ts[0], g.tab)[i],
                             c.split("::")[-1].split("<")[0] + ": " + ("Send", "Sync")[i],
                             not all(flags(y, g.tab) == (True, True) for y in t[1])))
        elif x < 16:
            t = g.holed(c)
            short = r.random() < 0.6
            if c in VAGUE and variance(t, g.tab) != INV:
                short = variance(t, g.tab) == CONTRA  # only what must be rejected

            def code(ts, short=short):
                a = text(ts[0], "'l").replace("'HOLE", "'static" if short else "'a")
                b = text(ts[0], "'l").replace("'HOLE", "'a" if short else "'static")
                return "pub fn f<'a: 'l, 'l>(x: %s) -> %s { x }" % (a, b)
            out.append(dict(kind="rule", code=code, terms=[t],
                            expect_of=lambda ts, short=short: variance(ts[0], g.tab) == (CO if short else CONTRA),
                            label=c.split("::")[-1].split("<")[0] + (": shortening" if short else ": lengthening"), hard=True))
        elif x < 17 and "'L" in c:
            short = r.random() < 0.6 and c not in VAGUE
            t = (c, tuple((r.choice(["u8", "String", "std::cell::Cell<u8>"]), ()) for _ in range(c.count("{}"))))

            def code2(ts, short=short):
                a, b = ("'static", "'a") if short else ("'a", "'static")
                return "pub fn f<'a>(x: %s) -> %s { x }" % (text(ts[0], a), text(ts[0], b))
            out.append(dict(kind="rule", code=code2, terms=[t], expect_of=lambda ts, short=short: short,
                            label=c.split("::")[-1].split("<")[0] + ": borrow " + ("shortened" if short else "lengthened"), hard=True))
        elif x < 19:
            # moving into a thread, or sharing with one
            c2 = r.choice(g.plain)
            t = g.of(c2)
            if r.random() < 0.5:
                out.append(dict(kind="typed", code=lambda ts: "pub fn f(x: %s) { std::thread::spawn(move || { let y = x; touch(&y); }); }" % text(ts[0]),
                                terms=[t], expect_of=lambda ts: flags(ts[0], g.tab)[0], label="moved into a thread", hard=True))
            else:
                out.append(dict(kind="typed", code=lambda ts: "pub fn f(x: %s) { std::thread::scope(|s| { s.spawn(|| touch(&x)); touch(&x); }); }" % text(ts[0]),
                                terms=[t], expect_of=lambda ts: flags(ts[0], g.tab)[1], label="shared with a thread", hard=True))
        else:
            out.append(drop_order(g))
    return out


# ---- T03: references and views never outlive or alias

KEYS = ["u8", "String", "(u8, char)", "Box<u64>", "Vec<u8>", "Option<String>", "&'static str", "TryVec_u8"]
VALS = ["u8", "String", "Vec<String>", "std::rc::Rc<u8>", "std::cell::Cell<u8>", "Box<dyn Fn()>", "()"]
NONE, SHAREDB, MUTB, MOVE = 0, 1, 2, 3


def t03(g, n):
    r = g.r
    out = []
    mapv = [
        ("m.get(&k)", SHAREDB), ("m.get_key_value(&k)", SHAREDB), ("m.iter()", SHAREDB), ("m.keys()", SHAREDB),
        ("m.values()", SHAREDB), ("m.range::<K, _>(..)", SHAREDB), ("m.range::<K, _>(..&k)", None), ("&m[&k]", SHAREDB),
        ("(&m).into_iter()", SHAREDB), ("m.iter().next()", SHAREDB), ("m.range::<K, _>(..).next_back()", SHAREDB),
        ("m.keys().next()", SHAREDB), ("m.values().next_back()", SHAREDB), ("m.iter().collect::<Vec<_>>()", SHAREDB),
        ("m.iter().clone()", SHAREDB),
        ("m.get_mut(&k)", MUTB), ("m.iter_mut()", MUTB), ("m.values_mut()", MUTB), ("m.range_mut::<K, _>(..)", MUTB),
        ("m.iter_mut().next()", MUTB), ("(&mut m).into_iter()", MUTB), ("m.values_mut().next_back()", MUTB),
        ("m.range_mut::<K, _>(..).next()", MUTB), ("m.iter_mut().collect::<Vec<_>>()", MUTB),
        ("m.try_entry(k3).unwrap().or_try_insert(v3).unwrap()", MUTB),
        ("m.try_entry(k3).unwrap().or_try_insert_with(|| v3).unwrap()", MUTB),
        ("m.try_entry(k3).unwrap()", MUTB), ("m.try_entry(k3)", MUTB),
        ("match m.try_entry(k3).unwrap() { map::Entry::Occupied(e) => Some(e.into_mut()), map::Entry::Vacant(e) => e.try_insert(v3).ok() }", MUTB),
        ("match m.try_entry(k3).unwrap() { map::Entry::Occupied(e) => Some(e.remove_entry()), _ => None }", NONE),
        ("m.len()", NONE), ("m.remove(&k)", NONE), ("m.try_insert(k3, v3)", NONE), ("m.split_off(&k)", NONE),
        ("m.iter().count()", NONE),
    ]
    mapo = [
        ("m.len();", SHAREDB), ("m.get(&k2);", SHAREDB), ("m.contains_key(&k2);", SHAREDB), ("touch(m.iter());", SHAREDB),
        ("touch(m.range::<K, _>(..));", SHAREDB), ("touch(&m);", SHAREDB), ("m.is_empty();", SHAREDB),
        ("m.try_insert(k2, v2);", MUTB), ("m.remove(&k2);", MUTB), ("m.clear();", MUTB), ("touch(m.get_mut(&k2));", MUTB),
        ("m.append(&mut o);", MUTB), ("o.append(&mut m);", MUTB), ("touch(m.split_off(&k2));", MUTB), ("touch(m.iter_mut());", MUTB),
        ("std::mem::swap(&mut m, &mut o);", MUTB), ("touch(m.try_entry(k2));", MUTB), ("m.extend(o);", MUTB),
        ("touch(m.values_mut());", MUTB), ("m = o;", MUTB),
        ("drop(m);", MOVE), ("let q = m;", MOVE), ("touch(m.into_iter());", MOVE),
        ("o.clear();", NONE), ("o.try_insert(k2, v2);", NONE), ("drop(k2);", NONE), ("", NONE), ("drop(o);", NONE), ("drop(k);", NONE),
    ]
    setv = [
        ("m.get(&k)", SHAREDB), ("m.iter()", SHAREDB), ("m.range::<K, _>(..)", SHAREDB), ("m.difference(&o)", 5),
        ("m.union(&o)", 5), ("m.intersection(&o)", 5), ("m.symmetric_difference(&o)", 5), ("m.union(&o).next()", 5),
        ("m.difference(&o).next()", 5), ("m.intersection(&o).next()", 5), ("m.symmetric_difference(&o).next()", 5),
        ("(&m).into_iter()", SHAREDB), ("m.take(&k)", NONE), ("m.replace(k3)", NONE), ("m.contains(&k)", NONE),
        ("m.is_subset(&o)", NONE), ("m.try_split_off(&k)", NONE), ("m.iter().next_back()", SHAREDB),
    ]
    seto = [
        ("m.len();", SHAREDB), ("m.get(&k2);", SHAREDB), ("m.is_disjoint(&o);", SHAREDB), ("touch(m.iter());", SHAREDB),
        ("m.try_insert(k2);", MUTB), ("m.remove(&k2);", MUTB), ("m.clear();", MUTB), ("m.take(&k2);", MUTB),
        ("m.replace(k2);", MUTB), ("std::mem::swap(&mut m, &mut o);", MUTB), ("m.append(&mut o);", MUTB), ("o.append(&mut m);", MUTB),
        ("drop(m);", MOVE), ("touch(m.into_iter());", MOVE), ("drop(k2);", NONE), ("", NONE),
        ("o.clear();", 6), ("o.try_insert(k2);", 6), ("drop(o);", 6), ("o.remove(&k2);", 6), ("o.len();", NONE),
    ]
    vecv = [
        ("m.iter()", SHAREDB), ("m.iter_mut()", MUTB), ("m.as_slice()", SHAREDB), ("m.as_mut_slice()", MUTB),
        ("m.first()", SHAREDB), ("m.first_mut()", MUTB), ("&m[..]", SHAREDB), ("&mut m[..]", MUTB), ("m.iter().next()", SHAREDB),
        ("m.iter_mut().next()", MUTB), ("(&m).into_iter()", SHAREDB), ("m.pop()", NONE), ("m.len()", NONE),
        ("m.iter_mut().collect::<Vec<_>>()", MUTB), ("m.iter().collect::<Vec<_>>()", SHAREDB), ("m.push(v3)", NONE),
        ("std::ops::Deref::deref(&m)", SHAREDB), ("std::ops::DerefMut::deref_mut(&mut m)", MUTB),
    ]
    veco = [
        ("m.len();", SHAREDB), ("touch(m.iter());", SHAREDB), ("m.is_empty();", SHAREDB), ("touch(&m[0]);", SHAREDB),
        ("m.push(v2);", MUTB), ("m.pop();", MUTB), ("m.clear();", MUTB), ("m.append(&mut o);", MUTB), ("o.append(&mut m);", MUTB),
        ("m.reserve(1);", MUTB), ("touch(m.iter_mut());", MUTB), ("m[0] = v2;", MUTB), ("m = o;", MUTB), ("m.resize_with(1, || v2.take());", None),
        ("drop(m);", MOVE), ("touch(m.into_iter());", MOVE), ("o.clear();", NONE), ("", NONE), ("drop(o);", NONE), ("drop(v2);", NONE),
    ]
    hashv = [("m.get(&k)", SHAREDB), ("m.iter()", SHAREDB), ("m.iter().next()", SHAREDB), ("m.remove(&k)", NONE), ("m.insert(k3, v3)", NONE),
             ("m.len()", NONE), ("m.iter().collect::<Vec<_>>()", SHAREDB)]
    hasho = [("m.len();", SHAREDB), ("m.get(&k2);", SHAREDB), ("touch(m.iter());", SHAREDB), ("m.insert(k2, v2);", MUTB), ("m.remove(&k2);", MUTB),
             ("m = o;", MUTB), ("drop(m);", MOVE), ("touch(m.into_iter());", MOVE), ("drop(o);", NONE), ("", NONE), ("drop(k);", NONE)]
    boxv = [("&*m", SHAREDB), ("std::ops::Deref::deref(&m)", SHAREDB), ("1", NONE)]
    boxo = [("touch(&*m);", SHAREDB), ("m = o;", MUTB), ("drop(m);", MOVE), ("std::mem::swap(&mut m, &mut o);", MUTB), ("drop(o);", NONE), ("", NONE)]
    # signatures of what may be taken out of what
    E = "map::OccupiedEntry<'a, K, V>"
    W = "map::VacantEntry<'a, K, V>"
    sigs_b = [
        ("pub fn f<'a>(m: &'a BTreeMap<K, V>, k: K) -> Option<&'a V> { m.get(&k) }", True),
        ("pub fn f<'a>(m: &BTreeMap<K, V>, k: &'a K) -> Option<&'a V> { m.get(k) }", False),
        ("pub fn f<'a>(m: &'a BTreeMap<K, V>, k: K) -> Option<(&'a K, &'a V)> { m.get_key_value(&k) }", True),
        ("pub fn f<'a>(m: &BTreeMap<K, V>, k: &'a K) -> Option<(&'a K, &'a V)> { m.get_key_value(k) }", False),
        ("pub fn f<'a>(m: &'a mut BTreeMap<K, V>, k: K) -> Option<&'a mut V> { m.get_mut(&k) }", True),
        ("pub fn f<'a>(m: &mut BTreeMap<K, V>, k: &'a K) -> Option<&'a mut V> { m.get_mut(k) }", False),
        ("pub fn f(m: BTreeMap<K, V>, k: K) -> Option<&'static V> { m.get(&k) }", False),
        ("pub fn f(m: BTreeMap<K, V>) -> map::Iter<'static, K, V> { m.iter() }", False),
        ("pub fn f(m: BTreeMap<K, V>) -> map::IntoIter<K, V> { m.into_iter() }", True),
        ("pub fn f<'a>(m: &'a BTreeMap<K, V>) -> Vec<(&'a K, &'a V)> { m.iter().collect() }", True),
        ("pub fn f<'a>(m: &'a mut BTreeMap<K, V>) -> Vec<(&'a K, &'a mut V)> { m.iter_mut().collect() }", True),
        ("pub fn f<'a>(m: &'a mut BTreeMap<K, V>) -> Vec<(&'a mut K, &'a mut V)> { m.iter_mut().collect() }", "type"),
        ("pub fn f<'a>(m: &'a mut BTreeMap<K, V>, k: K) -> map::RangeMut<'a, K, V> { m.range_mut(&k..) }", "ref"),
        ("pub fn f<'a>(m: &'a BTreeMap<K, V>, k: K) -> map::Range<'a, K, V> { m.range::<K, _>(k..) }", True),
        ("pub fn f<'a>(m: &'a BTreeMap<K, V>, k: K) -> map::Range<'a, K, V> { m.range::<K, _>((std::ops::Bound::Included(&k), std::ops::Bound::Unbounded)) }", True),
        ("pub fn f<'a>(m: &'a mut BTreeMap<K, V>, k: K) -> map::RangeMut<'a, K, V> { m.range_mut::<K, _>((std::ops::Bound::Excluded(&k), std::ops::Bound::Unbounded)) }", True),
        ("pub fn f<'a>(e: %s) -> &'a mut V { e.into_mut() }" % E, True),
        ("pub fn f<'a>(mut e: %s) -> &'a mut V { e.get_mut() }" % E, False),
        ("pub fn f<'a>(e: %s) -> &'a V { e.get() }" % E, False),
        ("pub fn f<'a>(e: %s) -> &'a K { e.key() }" % E, False),
        ("pub fn f<'a>(e: &'a %s) -> &'a K { e.key() }" % E, True),
        ("pub fn f<'a>(e: %s) -> &'a K { e.key() }" % W, False),
        ("pub fn f<'a>(e: map::Entry<'a, K, V>) -> &'a K { e.key() }", False),
        ("pub fn f<'a>(e: %s, v: V) -> &'a mut V { e.try_insert(v).unwrap() }" % W, True),
        ("pub fn f<'a>(e: map::Entry<'a, K, V>, v: V) -> &'a mut V { e.or_try_insert(v).unwrap() }", True),
        ("pub fn f<'a>(e: map::Entry<'a, K, V>) -> &'a mut V where V: Default { e.or_default().unwrap() }", True),
        ("pub fn f<'a>(e: map::Entry<'a, K, V>) -> map::Entry<'a, K, V> { e.and_modify(|_| ()) }", True),
        ("pub fn f(m: &mut BTreeMap<K, V>) -> map::Entry<'static, K, V> { m.try_entry(any()).unwrap() }", False),
        ("pub fn f<'a>(mut i: map::IterMut<'a, K, V>) -> Option<&'a mut V> { i.next().map(|x| x.1) }", True),
        ("pub fn f<'a>(mut i: map::RangeMut<'a, K, V>) -> [Option<&'a mut V>; 2] { [i.next().map(|x| x.1), i.next_back().map(|x| x.1)] }", True),
        ("pub fn f<'a>(mut i: map::Keys<'a, K, V>) -> Option<&'a K> { i.next() }", True),
        ("pub fn f(m: &mut BTreeMap<K, V>, k: K, v: V) { let n = m.len(); m.try_entry(k).unwrap().or_try_insert_with(|| { touch(n); v }); }", True),
        ("pub fn f(m: &mut BTreeMap<K, V>, k: K, v: V) { m.try_entry(k).unwrap().or_try_insert_with(|| { touch(m.len()); v }); }", False),
        ("pub fn f(m: &mut BTreeMap<K, V>, k: K) { m.try_entry(k).unwrap().and_modify(|_| { m.clear(); }); }", False),
        ("pub fn f<'a>(m: &mut BTreeMap<K, V>, k: K) { let mut kept: Option<&'a mut V> = None; m.try_entry(k).unwrap().and_modify(|v| { kept = Some(v); }); }", False),
        ("pub fn f(m: &mut BTreeMap<K, V>) { for (a, b) in m.iter_mut() { touch(m.len()); } }", False),
        ("pub fn f(m: &mut BTreeMap<K, V>, k: K) { for (a, b) in m.iter() { m.remove(&k); } }", False),
        ("pub fn f(m: &mut BTreeMap<K, V>, v: V) { if let Some(x) = m.values_mut().next() { *x = v; } m.clear(); }", True),
        ("pub fn f(m: &BTreeMap<K, V>, v: V) { for x in m.values() { *x = v; } }", "type"),
        ("pub fn f(m: &BTreeMap<K, V>, k: K) { m.get_mut(&k); }", False),
        ("pub fn f(m: &BTreeMap<K, V>) { m.iter_mut(); }", False),
        ("pub fn f(m: &BTreeMap<K, V>, k: K) { m.try_entry(k); }", False),
        ("pub fn f(m: &BTreeSet<K>, k: K) { m.try_insert(k); }", False),
        ("pub fn f<'a>(i: &'a map::Iter<'static, K, V>) -> map::Iter<'static, K, V> { i.clone() }", True),
        ("pub fn f<'a>(i: &'a map::Range<'static, K, V>) -> map::Range<'static, K, V> { i.clone() }", True),
        ("pub fn f<'a>(i: &'a map::Range<'a, K, V>) -> map::Range<'static, K, V> { i.clone() }", False),
        ("pub fn f<'a>(m: &'a BTreeSet<K>, k: K) -> Option<&'a K> { m.get(&k) }", True),
        ("pub fn f<'a>(m: &BTreeSet<K>, k: &'a K) -> Option<&'a K> { m.get(k) }", False),
        ("pub fn f<'a>(m: &'a BTreeSet<K>, o: &'a BTreeSet<K>) -> set::Union<'a, K> { m.union(o) }", True),
        ("pub fn f<'a>(m: &'a BTreeSet<K>, o: &BTreeSet<K>) -> set::Union<'a, K> { m.union(o) }", False),
        ("pub fn f<'a>(m: &'a BTreeSet<K>, o: &BTreeSet<K>) -> set::Intersection<'a, K> { m.intersection(o) }", False),
        ("pub fn f<'a>(m: &BTreeSet<K>, o: &'a BTreeSet<K>) -> set::Difference<'a, K> { m.difference(o) }", False),
        ("pub fn f<'a>(m: &'a BTreeSet<K>, o: &BTreeSet<K>) -> set::Difference<'a, K> { m.difference(o) }", False),
        ("pub fn f<'a>(m: &'a BTreeSet<K>, o: &BTreeSet<K>) -> set::SymmetricDifference<'a, K> { m.symmetric_difference(o) }", False),
        ("pub fn f<'a>(m: &'a BTreeSet<K>, o: BTreeSet<K>) -> Vec<&'a K> { m.symmetric_difference(&o).collect() }", False),
        ("pub fn f<'a>(m: &'a BTreeSet<K>, o: &'a BTreeSet<K>) -> Vec<&'a K> { m.intersection(o).collect() }", True),
        ("pub fn f(m: BTreeSet<K>) -> set::Iter<'static, K> { m.iter() }", False),
        ("pub fn f(m: BTreeSet<K>) -> set::IntoIter<K> { m.into_iter() }", True),
        ("pub fn f<'a>(m: &'a BTreeSet<K>) -> set::Range<'a, K> { m.range::<K, _>(..) }", True),
    ]
    sigs_v = [
        ("pub fn f<'a>(m: &'a TryVec<V>) -> &'a [V] { m.as_slice() }", True),
        ("pub fn f(m: TryVec<V>) -> &'static [V] { m.as_slice() }", False),
        ("pub fn f<'a>(m: &'a mut TryVec<V>) -> &'a mut [V] { m.as_mut_slice() }", True),
        ("pub fn f<'a>(m: &'a mut TryVec<V>) -> Vec<&'a mut V> { m.iter_mut().collect() }", True),
        ("pub fn f<'a>(m: &'a TryVec<V>) -> Vec<&'a V> { m.iter().collect() }", True),
        ("pub fn f<'a>(m: &'a TryVec<V>) -> &'a mut [V] { m.as_mut_slice() }", False),
        ("pub fn f<'a>(m: &'a TryBox<V>) -> &'a V { &*m }", True),
        ("pub fn f(m: TryBox<V>) -> &'static V { &*m }", False),
        ("pub fn f<'a>(m: &'a TryVec<V>) -> fallible_collections::vec::Iter<'static, V> { m.iter() }", False),
        ("pub fn f<'a>(m: &'a mut TryVec<V>) -> fallible_collections::vec::IterMut<'static, V> { m.iter_mut() }", False),
        ("pub fn f<'a>(i: &mut fallible_collections::vec::IterMut<'a, V>) -> Option<&'a mut V> { i.next() }", True),
        ("pub fn f<'a>(i: &mut fallible_collections::vec::Iter<'a, V>) -> Option<&'a V> { i.next() }", True),
        ("pub fn f<'a>(m: &'a mut Vec<V>, o: &'a Vec<V>) -> Option<V> where V: TryClone { m.try_extend_from_slice_no_copy(o).unwrap(); m.pop() }", True),
        ("pub fn f(m: &mut Vec<V>) where V: TryClone { m.try_extend_from_slice_no_copy(&m[..]); }", False),
        ("pub fn f(m: &mut TryVec<V>) { m.append(m); }", False),
    ]
    sigs_h = [
        ("pub fn f<'a>(m: &'a TryHashMap<K, V>, k: K) -> Option<&'a V> { m.get(&k) }", True),
        ("pub fn f<'a>(m: &TryHashMap<K, V>, k: &'a K) -> Option<&'a V> { m.get(k) }", False),
        ("pub fn f(m: TryHashMap<K, V>, k: K) -> Option<&'static V> { m.get(&k) }", False),
        ("pub fn f<'a>(m: &'a TryHashMap<K, V>) -> Vec<(&'a K, &'a V)> { m.iter().collect() }", True),
        ("pub fn f<'a>(m: &TryHashMap<K, V>, n: &'a TryHashMap<K, V>) -> Vec<(&'a K, &'a V)> { m.iter().collect() }", False),
    ]
    unique = [k for k in g.own if UNIQUE == g.tab[k][:2] and "'L" in k and INV in g.tab[k][2]]
    noclone = unique + [k for k in g.plain if "IntoIter" in k]
    for _ in range(n):
        x = r.randrange(20)
        kt = r.choice(KEYS)
        hd = "type K = %s; type V = %s; " % (kt, r.choice(VALS))
        if "TryVec" in kt:
            hd = hd.replace("TryVec_u8", "char")
        if r.random() < 0.06:
            out.append(drop_order(g))
            continue
        if x < 2 and noclone:
            c = r.choice(noclone)
            t = g.of(c)
            b = r.choice(["Clone", "Copy"])
            out.append(query("alias", t, lambda ts, b=b: b, lambda ts: False, c.split("::")[-1].split("<")[0] + ": " + b, True))
            continue
        if x < 7:
            sg = sigs_v + (sigs_b * 2 if g.cfg == "nb" else sigs_h * 2)
            p, ok = r.choice(sg)
            if ok == "ref":
                # by reference to a local key: the range's lifetime is not the key's
                p, ok = "pub fn f<'a>(m: &'a mut BTreeMap<K, V>, k: K) -> map::RangeMut<'a, K, V> { m.range_mut::<K, _>(k..) }", True
            kind = "borrow"
            if ok == "type":
                kind, ok = "type", False
            if "V: TryClone" in p or "V: Default" in p:
                hd = re.sub(r"type V = [^;]*;", "type V = %s;" % r.choice(["u8", "u64", "Option<u8>", "()" if "Default" in p else "u8"]), hd)
            out.append(dict(kind=kind, code=hd + p, terms=[], expect_of=lambda ts, ok=ok: ok,
                            label="signature " + ("accepted" if ok else "rejected"), hard=not ok))
            continue
        kinds = ["vec", "vec", "box"] + (["map"] * 5 + ["set"] * 4 if g.cfg == "nb" else ["hash"] * 3)
        which = r.choice(kinds)
        vs, os_, ty = {"map": (mapv, mapo, "BTreeMap<K, V>"), "set": (setv, seto, "BTreeSet<K>"), "vec": (vecv, veco, "TryVec<V>"),
                       "hash": (hashv, hasho, "TryHashMap<K, V>"), "box": (boxv, boxo, "TryBox<V>")}[which]
        ve, vk = r.choice(vs)
        oe, ok_ = r.choice(os_)
        if vk is None or ok_ is None:
            continue
        use = r.random() < 0.75
        conflict = False
        if vk in (SHAREDB, MUTB):
            conflict = (vk == SHAREDB and ok_ in (MUTB, MOVE)) or (vk == MUTB and ok_ in (SHAREDB, MUTB, MOVE))
        if vk == 5:
            conflict = ok_ in (MUTB, MOVE, 6)
        # the arguments themselves may be used up by the view
        code = hd + "pub fn f(mut m: %s, mut o: %s, k: K, k2: K, k3: K, v2: V, v3: V) { let w = %s; %s %s }" % (
            ty, ty, ve, oe, "touch(w);" if use else "")
        acc = not (conflict and use)
        out.append(dict(kind="borrow", code=code, terms=[], expect_of=lambda ts, acc=acc: acc,
                        label="%s %s" % (which, "view kept across a conflicting use" if conflict and use else
                                         "view given up before a conflicting use" if conflict else "view beside a compatible use"),
                        hard=conflict))
    return out


# ---- T04: containers ask of their contents what the standard ones ask

OWNLEAF = ["Nothing", "OnlyDebug", "OnlyClone", "OnlyPartialEq", "Hashes", "OnlyPartialOrd", "Orders", "OrdersCopies", "Everything"]
TRAITS = ["Clone", "Copy", "std::fmt::Debug", "PartialEq", "Eq", "PartialOrd", "Ord", "std::hash::Hash", "Iterator",
          "DoubleEndedIterator", "ExactSizeIterator", "std::iter::FusedIterator", "IntoIterator",
          "std::panic::UnwindSafe", "std::panic::RefUnwindSafe", "Send", "Sync"]


def standard(t):
    for a in ("map", "set"):
        big = "BTree" + a.capitalize()
        t = t.replace("fallible_collections::btree::%s::%s" % (a, big), "std::collections::" + big)
        t = t.replace("fallible_collections::btree::%s::" % a, "std::collections::btree_%s::" % a)
    return t


def t04(g, n):
    r = g.r
    out = []
    types = list(BT)

    def leaf():
        x = r.random()
        if x < 0.7:
            return (r.choice(OWNLEAF), ())
        if x < 0.85:
            return (r.choice(["f64", "u8", "String", "std::cell::Cell<u8>", "std::rc::Rc<u8>", "&'static mut u8", "fn() -> u8"]), ())
        return (r.choice(["Option<{}>", "Vec<{}>", "Box<{}>"]), (leaf(),))
    for _ in range(n):
        c = r.choice(types)
        t = (c, tuple(leaf() for _ in range(c.count("{}"))))
        e = [text(x) for x in t[1]]
        item = "(%s)" % ", ".join(e) if len(e) == 2 else e[0]
        ref = "(%s)" % ", ".join("&'static " + x for x in e) if len(e) == 2 else "&'static " + e[0]
        bs = list(TRAITS)
        if "BTree" in c:
            bs += ["PartialEq", "Ord", "Clone", "std::hash::Hash", "Extend<%s>" % item, "Extend<%s>" % ref, "FromIterator<%s>" % item]
            if len(e) == 2:
                bs += ["std::ops::Index<&'static %s>" % e[0]]
            else:
                bs += [""]
                bs.pop()
        b = r.choice(bs)
        if "ValuesMut" in c and b == "std::fmt::Debug":
            continue  # the standard one was relaxed since the fork
        out.append(dict(query("std", t, lambda ts, b=b: b, lambda ts: True,
                              c.split("::")[-1].split("<")[0] + ": " + re.sub(r"<.*", "", b.split("::")[-1]), "Everything" not in e), std=True, fixed=True))
        if "BTreeSet" in c and r.random() < 0.2:
            op = r.choice(["BitOr", "BitAnd", "BitXor", "Sub"])
            out.append(dict(kind="query2", code="has!(&'static %s : std::ops::%s<&'static %s>) == has!(&'static %s : std::ops::%s<&'static %s>)" % (
                text(t), op, text(t), standard(text(t)), op, standard(text(t))), terms=[], expect_of=lambda ts: True,
                label="BTreeSet: " + op, hard=True))
    return out


PROPS = {"T01": t01, "T02": t02, "T03": t03, "T04": t04, "T05": ctxprogs.t05, "T06": ctxprogs.t06}


# ------------------------------------------------------------------ compiling

class Compiler:
    def __init__(self, tc, lib, deps, cfg, work):
        self.tc, self.lib, self.deps, self.cfg, self.work = tc, lib, deps, cfg, work
        self.n = 0
        self.head = prelude(cfg).rstrip("\n") + "\n"
        self.base = self.head.count("\n")

    def rustc(self, src, extra, tag):
        rc, bad, stray, err = self.compile(src, extra, tag, "2021", self.base)
        if rc != 0 and not bad:
            raise RuntimeError("generated programs were refused as a whole: %s %s" % (stray[:3], err[-300:]))
        return rc, bad

    def rustc_ctx(self, src, extra, tag, edition):
        return self.compile(src, extra, tag, edition, 1)[:3]

    def compile(self, src, extra, tag, edition, base):
        f = os.path.join(self.work, "%s-%s.rs" % (self.cfg, tag))
        with open(f, "w") as h:
            h.write(src)
        env = dict(os.environ)
        for k in ("RUSTFLAGS", "RUSTC_WRAPPER", "RUSTUP_TOOLCHAIN"):
            env.pop(k, None)
        cmd = ["rustc", "+" + self.tc, "--edition", edition, "--error-format", "json", "-L", "dependency=" + self.deps,
               "--extern", "fallible_collections=" + self.lib, "-C", "debuginfo=0"] + extra + [f]
        p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600, cwd=self.work)
        bad = {}
        stray = []
        for l in p.stderr.splitlines():
            if not l.startswith("{"):
                if "panicked" in l or "internal compiler error" in l:
                    raise RuntimeError("the compiler broke down: " + l)
                continue
            d = json.loads(l)
            if d.get("level") not in ("error", "error: internal compiler error"):
                continue
            if "internal compiler" in d["level"]:
                raise RuntimeError("the compiler broke down: " + d["message"])
            lines = []
            for s in sorted(d["spans"], key=lambda s: not s["is_primary"]):
                # inside a macro of the crate: the place it was used
                while not s["file_name"].endswith(os.path.basename(f)) and s.get("expansion"):
                    s = s["expansion"]["span"]
                if s["file_name"].endswith(os.path.basename(f)):
                    lines.append(s["line_start"])
            if lines:
                bad.setdefault(lines[0] - base - 1, "%s: %s" % ((d.get("code") or {}).get("code", ""), d["message"]))
            elif not d["message"].startswith("aborting due to"):
                stray.append(d["message"])
        return p.returncode, bad, stray, p.stderr

    def judge(self, cases, tag):
        """the verdict for every case: (holds, message)"""
        res = [None] * len(cases)
        groups = {"query": [], "type": [], "borrow": []}
        ctxs = {}
        for i, c in enumerate(cases):
            if c["kind"] == "ctx":
                ctxs.setdefault(c["ctx"], []).append(i)
                continue
            groups[{"query": "query", "query2": "query", "type": "type", "typed": "type", "borrow": "borrow", "rule": "borrow"}[c["kind"]]].append(i)
        for ix in ctxs.values():
            for i, v in ctxprogs.judge(self, cases, ix, tag).items():
                res[i] = v
        for g, ix in groups.items():
            if not ix:
                continue
            src = self.head + "".join(program(cases[i], i) + "\n" for i in ix)
            if g == "query":
                src += "fn main() { " + " ".join("println!(\"{}\", q%d() as u8);" % i for i in ix) + " }\n"
                exe = os.path.join(self.work, "%s-%s.exe" % (self.cfg, tag))
                rc, bad = self.rustc(src, ["--crate-type", "bin", "-o", exe], tag + g)
                if rc != 0:
                    raise RuntimeError("queries do not compile: %s" % list(bad.items())[:2])
                o = subprocess.run([exe], stdout=subprocess.PIPE, text=True, timeout=60).stdout.split()
                os.remove(exe)
                for i, b in zip(ix, o):
                    res[i] = (b == "1", "implemented" if b == "1" else "not implemented")
            else:
                _, bad = self.rustc(src, ["--crate-type", "lib", "--emit", "metadata", "-o", os.path.join(self.work, "%s-%s.rmeta" % (self.cfg, tag + g))], tag + g)
                for k, i in enumerate(ix):
                    res[i] = (k not in bad, bad.get(k, "accepted"))
        return res


def norm(c):
    """code of a case as text"""
    d = dict(c)
    if callable(c.get("code")):
        f = c["code"]
        d["code"] = f(c["terms"])
    return d


def simpler(t):
    """smaller terms"""
    c, ch = t
    for x in ch:
        yield x
    if c not in ("u8", "HOLE"):
        if not has(t, lambda k: k == "HOLE"):
            yield ("u8", ())
    for i, x in enumerate(ch):
        for y in simpler(x):
            yield (c, ch[:i] + (y,) + ch[i + 1:])


def shrink(comp, c, tries=60):
    """replace types by simpler ones while the verdict stays wrong"""
    if c["kind"] == "ctx":
        return ctxprogs.shrink(comp, c)
    if not c["terms"] or c.get("fixed"):
        return c
    again = True
    while again and tries > 0:
        again = False
        t = c["terms"][0]
        for y in simpler(t):
            if has(y, lambda k: k == "HOLE") != has(t, lambda k: k == "HOLE"):
                continue
            if y == t or size(y) >= size(t) and y[0] == t[0]:
                continue
            # the outermost constructor is the subject, except for storage around a wrapper
            if y[0] != t[0] and not (y[0] in VEC or y[0] in BT or y[0] in HASH):
                continue
            tries -= 1
            if tries <= 0:
                break
            d = dict(c, terms=[y])
            try:
                ok = comp.judge([norm(d)], "shrink")[0][0] == expect(d)
            except Exception:
                continue
            if not ok:
                c = d
                again = True
                break
    return c


def describe(c):
    if c["kind"] == "ctx":
        return "in a %s crate: %s" % (c["ctx"], ctxprogs.module(0, c))
    return program(norm(c), 0)


def source(comp, c):
    if c["kind"] == "ctx":
        main = "" if not ctxprogs.CONTEXTS[c["ctx"]][2] else "fn main() { assert!(q0::run()); }\n"
        return ctxprogs.source(c["ctx"], [ctxprogs.module(0, c)]) + main
    if c["kind"].startswith("query"):
        return comp.head + "fn main() { assert_eq!({ %s q0() }, %s); }\n" % (program(norm(c), 0), str(expect(c)).lower())
    return comp.head + describe(c) + "\n"


def run_cases(comp, cases, jobs):
    """judges the cases in parallel batches; returns the verdicts"""
    per = 120
    parts = [cases[i:i + per] for i in range(0, len(cases), per)]
    with cf.ThreadPoolExecutor(jobs) as pool:
        rs = list(pool.map(lambda a: comp.judge([norm(c) for c in a[1]], "b%d" % a[0]), enumerate(parts)))
    return [x for r in rs for x in r]


def find(comp, prop, cfg, seed, count, jobs, deadline=None):
    import time
    rng = random.Random("%s %s %s" % (prop, cfg, seed))
    gen = Gen(rng, cfg)
    done, stats = 0, dict(n=0, hard=set(), nhard=0, labels={}, samples=[], kinds={})
    while done < count and (deadline is None or time.time() < deadline):
        n = min(count - done, 120 * jobs * 2)
        cases = PROPS[prop](gen, n)
        done += n
        res = run_cases(comp, cases, jobs)
        wrong = [i for i, c in enumerate(cases) if res[i][0] != expect(c)]
        for i, c in enumerate(cases):
            stats["n"] += 1
            stats["labels"][c["label"]] = stats["labels"].get(c["label"], 0) + 1
            if c["hard"]:
                stats["nhard"] += 1
                p = describe(c)
                stats["hard"].add(hashlib.sha1(p.encode()).hexdigest())
                if len(stats["samples"]) < 6 and i % 7 == 0:
                    stats["samples"].append("%s  -- expected: %s" % (p, expect(c)))
        tried = 0
        for i in wrong:
            c = cases[i]
            tried += 1
            if tried > 60:
                break
            r = comp.judge([norm(c)], "alone")[0]
            if r[0] == expect(c):
                continue  # an effect of another program in the same batch
            small = shrink(comp, c)
            r = comp.judge([norm(small)], "alone")[0]
            return stats, (small, r[1])
    return stats, None
