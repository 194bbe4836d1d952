//! S01, S02: the ordered set against a reference set; set algebra.
use std::collections::BTreeMap as Ref;
use vh::fc::btree::set::BTreeSet;
use vh::iters::*;
use vh::sets::*;
use vh::*;

const ALG: u64 = 16; // local op: lazy algebra
const OPER: u64 = 17; // local op: operators
const QUERY: u64 = 18; // local op: subset / superset / disjoint / comparison
const DERIVE: u64 = 19; // local op: build a set in a relation to another one
const WALK: u64 = 20; // local op: drive iter / range / into_iter
const LAST: u64 = 21;

struct PS(&'static str, bool);

fn opw(k: u64, i: u64, j: u64) -> u64 {
    k + 32 * i + 128 * j
}

fn gen_set_op(r: &mut Rng, k: u64, dom: u64, maxb: u64) -> Op {
    let i = if r.chance(3, 5) { 0 } else { r.below(3) };
    let w0 = opw(k, i, r.below(3));
    let key = r.below(dom);
    match k {
        SBULKI | SBULKR => [w0, 1 + r.size(maxb), r.below(6), if r.chance(1, 3) { 0 } else { r.below(dom) }],
        SCOLLECT | SEXTEND => [w0, r.size(maxb), r.below(4), r.below(dom)],
        SINTO => [w0, r.size(40), r.next(), 0],
        SRANGE => [w0, key, if r.chance(1, 2) { (key + r.below(30)) % dom } else { r.below(dom) }, r.below(18)],
        WALK => [w0, r.below(3), r.next() >> 8, r.below(1 << 40)],
        DERIVE => [w0, r.below(14), r.size(maxb), r.next() >> 8],
        ALG | OPER | QUERY => [opw(k, r.below(3), r.below(3)), r.below(4), r.next() >> 8, 0],
        _ => [w0, key, r.below(12), 0],
    }
}

impl Prop for PS {
    fn id(&self) -> &'static str {
        self.0
    }
    fn rule(&self) -> &'static str {
        if self.1 {
            "two sets with 2 or more elements each and at least 12 in total were combined or compared"
        } else {
            "a set reached 12 or more elements (several nodes) and elements were removed, replaced or taken from it then"
        }
    }
    fn gen(&self, r: &mut Rng) -> Case {
        if r.chance(1, 800) {
            return Case { h: vec![0, 0, 0, 0, 0, 1, r.below(2)], ops: tallset::gen(r, self.1) };
        }
        let (mut dom, mut maxb) = match r.below(12) {
            0 => (r.range(1, 8), 12),
            1..=3 => (r.range(9, 40), 40),
            4..=7 => (r.range(40, 250), 200),
            8..=10 => (r.range(200, 1200), 700),
            _ => (1 << 32, 300),
        };
        let kl = r.below(12);
        if kl > 7 {
            dom = dom.min(700);
            maxb = maxb.min(300);
        }
        let mut ops = Vec::new();
        if self.1 {
            let n = match r.below(5) {
                0 => r.pick(&[0, 1, 2, 15, 16, 17, 31, 32, 33, 48, 64, 160]),
                _ => r.size(maxb),
            };
            ops.push([opw(SBULKI, 0, 0), n, r.below(6), r.below(dom)]);
            ops.push([opw(DERIVE, 0, 1), r.below(14), r.size(maxb), r.next() >> 8]);
            for _ in 0..r.range(1, 14) {
                let k = match r.below(20) {
                    0..=7 => ALG,
                    8..=10 => OPER,
                    11..=13 => QUERY,
                    14 => DERIVE,
                    15 => SREM,
                    16 => SINS,
                    17 => SSPLIT,
                    18 => SBULKR,
                    _ => SAPPEND,
                };
                ops.push(gen_set_op(r, k, dom, maxb));
            }
            for x in 0..4 {
                let (i, j) = r.pick(&[(0, 1), (1, 0)]);
                ops.push([opw(ALG, i, j), x, r.next() >> 8, 0]);
            }
        } else {
            //                  ins rep rem take look bi br clr app spl cln col ext into rng new
            let base: Vec<u64> = vec![12, 6, 10, 6, 8, 4, 4, 1, 3, 3, 2, 1, 2, 1, 4, 0];
            let w = r.swarm(&base, &[0]);
            if r.chance(3, 4) {
                ops.push([opw(SBULKI, 0, 0), r.below(maxb) + 1, r.below(6), r.below(dom)]);
            }
            for _ in 0..r.range(3, 60) {
                let k = if r.chance(1, 12) { WALK } else { r.weighted(&w) as u64 };
                ops.push(gen_set_op(r, k, dom, maxb));
            }
        }
        Case { h: vec![kl, dom, r.next() >> 16], ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) {
        if c.hv(5) == 1 {
            return tallset::run(c, cx);
        }
        struct F<'a>(bool, &'a Case, &'a mut Cx);
        impl<'a> KFn for F<'a> {
            fn call<K: Key>(self) {
                run::<K>(self.0, self.1, self.2)
            }
        }
        with_k(c.hv(0), F(self.1, c, cx))
    }
    fn desc(&self, c: &Case) -> String {
        if c.hv(5) == 1 {
            return format!("large sets: {}", c.ops.iter().map(tallset::text).collect::<Vec<_>>().join("; "));
        }
        let mut s = format!("sets of {} mod {}: ", k_name(c.hv(0)), c.hv(1));
        for o in &c.ops {
            let (i, j) = (o[0] / 32 % 4 % 3, o[0] / 128 % 4 % 3);
            match o[0] % 32 {
                ALG => s += &format!("lazy {} of s{}, s{} (walk {}); ", ANAMES[o[1] as usize % 4], i, j, o[2]),
                OPER => s += &format!("operator {} of s{}, s{}; ", ANAMES[o[1] as usize % 4], i, j),
                QUERY => s += &format!("queries on s{}, s{}; ", i, j),
                DERIVE => s += &format!("s{} := relation {} to s{} ({} elements, seed {}); ", j, o[1] % 14, i, o[2], o[3]),
                WALK => s += &format!("iterate s{} kind {}; ", i, o[1] % 3),
                k if k < NSOPS => {
                    s += &sop_text(o);
                    s += "; ";
                }
                _ => {}
            }
        }
        s
    }
}

const ANAMES: [&str; 4] = ["union", "intersection", "difference", "symmetric difference"];

fn ok(r: Result<bool, Pn>, what: &str) {
    match r {
        Ok(true) => {}
        Ok(false) => fail!("set {} failed although memory is available", what),
        Err(p) => fail!("set {}: unexpected panic {:?}", what, p),
    }
}

type Md = Ref<u64, u64>;

fn algebra(kind: u64, a: &Md, b: &Md) -> Vec<u64> {
    match kind % 4 {
        0 => {
            let mut v: Vec<u64> = a.keys().copied().chain(b.keys().copied().filter(|k| !a.contains_key(k))).collect();
            v.sort();
            v
        }
        1 => a.keys().copied().filter(|k| b.contains_key(k)).collect(),
        2 => a.keys().copied().filter(|k| !b.contains_key(k)).collect(),
        _ => {
            let mut v: Vec<u64> = a.keys().copied().filter(|k| !b.contains_key(k)).chain(b.keys().copied().filter(|k| !a.contains_key(k))).collect();
            v.sort();
            v
        }
    }
}

/// keys of a set standing in relation `style` to the keys of another set
fn derive(r: &mut Rng, style: u64, n: u64, a: &[u64], dom: u64) -> Vec<u64> {
    let mut v: Vec<u64> = match style % 14 {
        0 => a.to_vec(),                                                     // equal
        1 => a.iter().copied().filter(|_| r.chance(1, 2)).collect(),         // subset
        2 => a.iter().copied().chain((0..n).map(|_| r.below(dom))).collect(), // superset
        3 => (0..n).map(|_| r.below(dom)).collect(),
        4 => (0..n).map(|_| r.below(dom)).filter(|k| !a.contains(k)).collect(), // disjoint
        5 => a.iter().map(|k| k + 1).collect(),                              // neighbours
        6 => {
            // all above
            let top = a.last().copied().unwrap_or(0);
            (1..=n).map(|x| top + x).collect()
        }
        7 => {
            // all below
            let bot = a.first().copied().unwrap_or(0);
            (1..=n).filter(|x| *x <= bot).map(|x| bot - x).collect()
        }
        8 => {
            // about a sixteenth of the size, partly shared
            let m = (a.len() as u64 / 16 + r.below(3)).saturating_sub(r.below(2));
            (0..m).map(|_| if r.chance(1, 2) && !a.is_empty() { r.pick(a) } else { r.below(dom) }).collect()
        }
        9 => {
            // touching at one end
            let top = a.last().copied().unwrap_or(0);
            (0..n).map(|x| top + x).collect()
        }
        10 => {
            let bot = a.first().copied().unwrap_or(0);
            (0..n).filter(|x| *x <= bot).map(|x| bot - x).collect()
        }
        11 => {
            // all but one
            let skip = r.below(a.len() as u64 + 1) as usize;
            a.iter().enumerate().filter(|x| x.0 != skip).map(|x| *x.1).collect()
        }
        12 => {
            // blocks of shared and unshared elements
            let mut v = Vec::new();
            let mut on = r.chance(1, 2);
            for k in a {
                if r.chance(1, 6) {
                    on = !on;
                }
                if on {
                    v.push(*k);
                } else if r.chance(1, 2) {
                    v.push(k + 1);
                }
            }
            v
        }
        _ => Vec::new(),
    };
    for k in v.iter_mut() {
        *k %= dom;
    }
    // insertion order
    match r.below(3) {
        0 => {}
        1 => v.reverse(),
        _ => {
            for x in (1..v.len()).rev() {
                let y = r.below(x as u64 + 1) as usize;
                v.swap(x, y);
            }
        }
    }
    v
}

fn run<K: Key>(algebraic: bool, c: &Case, cx: &mut Cx) {
    let mut w: Sets<K> = Sets::new(cx, c.hv(1));
    let mut r = Rng::new(c.hv(2));
    for op in &c.ops {
        let kind = op[0] % 32;
        if kind >= LAST {
            continue;
        }
        let (i, j) = Sets::<K>::slots(op);
        w.cx.steps += 1;
        match kind {
            ALG | OPER | QUERY => {
                let (na, nb) = (w.s[i].m.len(), w.s[j].m.len());
                if na >= 2 && nb >= 2 && na + nb >= 12 {
                    w.cx.nontrivial = true;
                }
                if na.min(nb) > 0 && (na >= nb * 16 || nb >= na * 16) {
                    w.cx.hit("operands of very different size");
                }
                match kind {
                    ALG => lazy(&mut w, i, j, op[1], op[2]),
                    OPER => oper(&mut w, i, j, op[1]),
                    _ => query(&w, i, j),
                }
                w.verify(i, "operand after set algebra");
                w.verify(j, "operand after set algebra");
                w.balance("set algebra");
            }
            DERIVE => {
                if i == j {
                    continue;
                }
                let a: Vec<u64> = w.s[i].m.keys().copied().collect();
                let mut rr = Rng::new(op[3]);
                let ks = derive(&mut rr, op[1], op[2].min(3000), &a, w.dom);
                ok(w.exec(&[opw(SNEW, j as u64, 0), 0, 0, 0]), "new");
                for k in ks {
                    ok(w.exec(&[opw(SINS, j as u64, 0), k, 0, 0]), "insert");
                }
                w.verify(j, "built set");
            }
            WALK => walk(&mut w, op),
            _ => {
                let bulk = w.expand(op);
                let single = bulk.is_none();
                for o in bulk.unwrap_or_else(|| vec![*op]) {
                    let kd = o[0] % 32;
                    let (i, j) = Sets::<K>::slots(&o);
                    let n = w.s[i].m.len();
                    if !algebraic && n >= 12 && matches!(kd, SREM | STAKE | SREP) {
                        w.cx.nontrivial = true;
                    }
                    ok(w.exec(&o), SNAMES[kd as usize]);
                    if single && (n <= 60 || r.chance(1, 3)) {
                        w.verify(i, SNAMES[kd as usize]);
                        w.verify_back(i, SNAMES[kd as usize]);
                        if i != j {
                            w.verify(j, SNAMES[kd as usize]);
                        }
                    }
                }
                w.balance(SNAMES[kind as usize]);
            }
        }
    }
    for i in 0..SSLOTS {
        w.verify(i, "end");
        w.verify_back(i, "end");
    }
    w.finish(true);
}

fn walk<K: Key>(w: &mut Sets<K>, op: &Op) {
    let i = Sets::<K>::slots(op).0;
    let ids: Vec<(u64, u64)> = w.s[i].m.iter().map(|(a, b)| (*a, *b)).collect();
    let keyed = |k: &K| {
        k.check();
        (k.val(), k.id())
    };
    match op[1] % 3 {
        0 => {
            let t = &w.s[i].t;
            drive(w.cx, sut(|| t.iter()), &ids, &mut |k| keyed(k), How { len: Some(|i| i.len()), cln: Some(|i| i.clone()), dbg: None, exact: true }, op[2], "set iter");
        }
        1 => {
            let t = &w.s[i].t;
            drive(w.cx, sut(|| t.into_iter()), &ids, &mut |k| keyed(k), How { len: Some(|i| i.len()), cln: Some(|i| i.clone()), dbg: None, exact: true }, op[2], "iteration of a borrowed set");
        }
        _ => {
            let t = std::mem::replace(&mut w.s[i].t, BTreeSet::new());
            w.s[i].m.clear();
            drive(w.cx, sut(|| t.into_iter()), &ids, &mut |k| keyed(&k), How { len: Some(|i| i.len()), cln: None, dbg: None, exact: true }, op[2], "set into_iter");
        }
    }
    w.balance("iteration");
}

fn lazy<K: Key>(w: &mut Sets<K>, i: usize, j: usize, kind: u64, seed: u64) {
    let (a, b) = (&w.s[i], &w.s[j]);
    let exp = algebra(kind, &a.m, &b.m);
    let what = ANAMES[kind as usize % 4];
    let mut see = |k: &K| {
        k.check();
        let (v, id) = (k.val(), k.id());
        let from_a = a.m.get(&v) == Some(&id);
        let from_b = b.m.get(&v) == Some(&id);
        ck!(if kind % 4 == 2 { from_a } else { from_a || from_b }, "{}: element {} is not the one stored in an operand", what, v);
        v
    };
    // what the elements look like in debug output
    let mut texts = std::collections::BTreeMap::new();
    if exp.len() < 60 && a.m.len() + b.m.len() < 400 {
        for x in b.t.iter().chain(a.t.iter()) {
            texts.insert(x.val(), format!("{:?}", x));
        }
    }
    let shown = |s: String, rest: &[u64]| {
        for v in rest {
            if let Some(t) = texts.get(v) {
                ck!(s.match_indices(t.as_str()).any(|(i, _)| !s[..i].ends_with(|c: char| c.is_alphanumeric()) && !s[i + t.len()..].starts_with(|c: char| c.is_alphanumeric())), "{}: debug output {} does not show {}, which is to come", what, s, t);
            }
        }
    };
    macro_rules! go {
        ($it:expr) => {{
            let it = sut(|| $it);
            drive_fwd(w.cx, it, &exp, &mut |k| see(k), Some(|x| x.clone()), Some(&|x, rest: &[u64]| if !texts.is_empty() { shown(format!("{:?}", x), rest) }), seed, what);
        }};
    }
    let (ta, tb) = (&a.t, &b.t);
    match kind % 4 {
        0 => go!(ta.union(tb)),
        1 => go!(ta.intersection(tb)),
        2 => go!(ta.difference(tb)),
        _ => go!(ta.symmetric_difference(tb)),
    }
    // internal iteration
    let fold = |n: usize, h: u64, x: u64| (n + 1, mix(h ^ x));
    let e = exp.iter().fold((0, 0), |(n, h), x| fold(n, h, *x));
    let g = sut(|| match kind % 4 {
        0 => ta.union(tb).fold((0, 0), |(n, h), x| fold(n, h, x.val())),
        1 => ta.intersection(tb).fold((0, 0), |(n, h), x| fold(n, h, x.val())),
        2 => ta.difference(tb).fold((0, 0), |(n, h), x| fold(n, h, x.val())),
        _ => ta.symmetric_difference(tb).fold((0, 0), |(n, h), x| fold(n, h, x.val())),
    });
    ckeq!(g, e, "{} of {} and {} elements folded (count, checksum)", what, a.m.len(), b.m.len());
    // the least and the greatest element
    let mm = sut(|| match kind % 4 {
        0 => (ta.union(tb).min().map(|x| x.val()), ta.union(tb).max().map(|x| x.val())),
        1 => (ta.intersection(tb).min().map(|x| x.val()), ta.intersection(tb).max().map(|x| x.val())),
        2 => (ta.difference(tb).min().map(|x| x.val()), ta.difference(tb).max().map(|x| x.val())),
        _ => (ta.symmetric_difference(tb).min().map(|x| x.val()), ta.symmetric_difference(tb).max().map(|x| x.val())),
    });
    ckeq!(mm, (exp.first().copied(), exp.last().copied()), "{}: least and greatest element", what);
    w.cx.hit("lazy algebra");
}

fn oper<K: Key>(w: &mut Sets<K>, i: usize, j: usize, kind: u64) {
    let (a, b) = (&w.s[i], &w.s[j]);
    let exp = algebra(kind, &a.m, &b.m);
    let what = ANAMES[kind as usize % 4];
    let mark = reg_mark();
    let t: BTreeSet<K> = sut(|| match kind % 4 {
        0 => &a.t | &b.t,
        1 => &a.t & &b.t,
        2 => &a.t - &b.t,
        _ => &a.t ^ &b.t,
    });
    ckeq!(t.len(), exp.len(), "length of the {} operator's result", what);
    let mut n = 0;
    for (x, e) in t.iter().zip(exp.iter()) {
        x.check();
        ckeq!(x.val(), *e, "element {} of the {} operator's result", n, what);
        ck!(x.id() == 0 || x.id() as usize >= mark, "the {} operator's result shares an element with an operand", what);
        n += 1;
    }
    ckeq!(n, exp.len(), "elements of the {} operator's result", what);
    for e in &exp {
        ck!(sut(|| K::with_q(*e, |q| t.contains(q))), "the {} operator's result does not find {}", what, e);
    }
    sut(move || drop(t));
    ckeq!(live_since(mark), 0, "elements left by the dropped {} operator result", what);
    w.cx.hit("operators");
}

fn query<K: Key>(w: &Sets<K>, i: usize, j: usize) {
    let (a, b) = (&w.s[i], &w.s[j]);
    let sub = a.m.keys().all(|k| b.m.contains_key(k));
    let sup = b.m.keys().all(|k| a.m.contains_key(k));
    let dis = !a.m.keys().any(|k| b.m.contains_key(k));
    ckeq!(sut(|| a.t.is_subset(&b.t)), sub, "is_subset of {} and {} elements", a.m.len(), b.m.len());
    ckeq!(sut(|| a.t.is_superset(&b.t)), sup, "is_superset of {} and {} elements", a.m.len(), b.m.len());
    ckeq!(sut(|| a.t.is_disjoint(&b.t)), dis, "is_disjoint of {} and {} elements", a.m.len(), b.m.len());
    ckeq!(sut(|| b.t.is_subset(&a.t)), sup, "is_subset of {} and {} elements", b.m.len(), a.m.len());
    ckeq!(sut(|| b.t.is_disjoint(&a.t)), dis, "is_disjoint of {} and {} elements", b.m.len(), a.m.len());
    ckeq!(sut(|| a.t == b.t), sub && sup, "equality of {} and {} elements", a.m.len(), b.m.len());
    ckeq!(sut(|| a.t.cmp(&b.t)), a.m.keys().cmp(b.m.keys()), "order of {} and {} elements", a.m.len(), b.m.len());
}

fn main() {
    main_with(&[&PS("S01", false), &PS("S02", true)])
}
