//! M01-M09: the ordered map (and set) as a stateful machine.
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::collections::BTreeMap as Ref;
use std::fmt::Debug;
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use vh::fc::btree::map::BTreeMap;
use vh::fc::btree::set::BTreeSet;
use vh::iters::*;
use vh::sets::*;
use vh::world::*;
use vh::*;

#[derive(Clone, Copy, PartialEq)]
enum M {
    Point,  // M01
    Entry,  // M02
    Iter,   // M03
    Bulk,   // M04
    Cmp,    // M05
    Oom,    // M06
    Drops,  // M07
    Panic,  // M08
    Shape,  // M09
}

const ITER: u64 = 16; // local op: drive an iterator
const XITER: u64 = 17; // local op: debug text of entries
const LAST: u64 = 18;

struct PB {
    id: &'static str,
    m: M,
}

// header: 0 layout, 1 key domain, 2 variant (set if %4==3), 3 seed, 4 lawless (M08)
fn is_set(c: &Case) -> bool {
    c.hv(2) % 4 == 3
}

fn doms(r: &mut Rng) -> (u64, u64) {
    // key domain, largest bulk
    match r.below(16) {
        0 => (r.range(1, 8), 20),
        1..=4 => (r.range(9, 40), 40),
        5..=9 => (r.range(40, 200), 160),
        10..=13 => (r.range(150, 700), 500),
        14 => (r.range(600, 2500), 2000),
        _ => (1 << 32, 300),
    }
}

impl PB {
    fn tall(&self) -> Option<tall::Tall> {
        use tall::Tall;
        Some(match self.m {
            M::Point => Tall::Point,
            M::Entry => Tall::Entry,
            M::Iter => Tall::Iter,
            M::Bulk => Tall::Bulk,
            M::Cmp => Tall::Cmp,
            M::Shape => Tall::Shape,
            M::Oom => Tall::Oom,
            M::Drops => Tall::Drops,
            M::Panic => return None,
        })
    }
    fn weights(&self, set: bool) -> Vec<u64> {
        if set {
            //       ins rep rem take look bi br clr app spl cln col ext into rng new
            match self.m {
                M::Iter => vec![4, 1, 4, 1, 0, 5, 4, 0, 2, 2, 1, 1, 1, 0, 0, 0],
                M::Bulk => vec![5, 2, 5, 2, 2, 4, 3, 1, 4, 4, 2, 2, 2, 1, 2, 0],
                M::Oom => vec![12, 10, 4, 2, 1, 4, 2, 1, 3, 6, 0, 1, 1, 0, 0, 2],
                M::Drops => vec![6, 6, 5, 5, 0, 4, 3, 1, 3, 3, 2, 2, 2, 3, 0, 1],
                M::Panic => vec![10, 5, 8, 4, 2, 3, 2, 2, 6, 6, 3, 3, 3, 3, 3, 1],
                _ => vec![10, 4, 10, 4, 6, 4, 3, 1, 2, 2, 1, 1, 1, 0, 3, 0],
            }
        } else {
            //       ins rem look ent bi br clr app spl tcl cln col ext into new rng
            match self.m {
                M::Point => vec![12, 10, 14, 0, 5, 4, 1, 0, 0, 0, 0, 0, 0, 0, 1, 0],
                M::Entry => vec![3, 3, 0, 30, 3, 2, 1, 1, 1, 0, 0, 0, 0, 0, 0, 0],
                M::Iter => vec![3, 3, 0, 1, 5, 4, 0, 2, 2, 1, 1, 1, 1, 0, 0, 0],
                M::Bulk => vec![5, 5, 2, 2, 4, 3, 1, 5, 5, 2, 2, 2, 2, 2, 0, 1],
                M::Cmp => vec![6, 6, 0, 2, 4, 3, 0, 2, 2, 0, 1, 1, 1, 0, 0, 0],
                M::Oom => vec![14, 4, 1, 12, 4, 2, 1, 4, 6, 3, 0, 1, 1, 0, 2, 0],
                M::Drops => vec![6, 5, 0, 6, 4, 3, 1, 3, 3, 4, 1, 2, 2, 4, 1, 0],
                M::Panic => vec![10, 8, 2, 8, 3, 2, 2, 6, 6, 3, 3, 3, 3, 3, 1, 3],
                M::Shape => vec![14, 14, 8, 6, 8, 8, 1, 3, 3, 1, 0, 1, 1, 0, 0, 6],
            }
        }
    }
}

fn gen_op(r: &mut Rng, set: bool, k: u64, dom: u64, maxb: u64) -> Op {
    let i = if r.chance(3, 5) { 0 } else { r.below(4) };
    let j = r.below(4);
    let w0 = opk(k, i, j);
    let key = r.below(dom);
    if set {
        match k {
            SBULKI | SBULKR => [w0, 1 + r.size(maxb), r.below(6), if r.chance(1, 3) { 0 } else { r.below(dom) }],
            SCOLLECT | SEXTEND => [w0, r.size(maxb), r.below(4), r.below(dom)],
            SINTO => [w0, r.size(40), r.next(), 0],
            SRANGE => [w0, key, near(r, key, dom), r.below(18)],
            _ => [w0, key, r.below(12), 0],
        }
    } else {
        match k {
            BULKI | BULKR => [w0, 1 + r.size(maxb), r.below(6), if r.chance(1, 3) { 0 } else { r.below(dom) }],
            COLLECT | EXTEND => [w0, r.size(maxb), r.below(4), r.below(dom)],
            INTO => [w0, r.size(40), r.next(), 0],
            RANGE => [w0, key, near(r, key, dom), r.below(9)],
            LOOK => [w0, key, r.below(6), r.below(1 << 20)],
            ENTRY => [w0, key, r.below(14), r.below(1 << 20)],
            INS => [w0, key, r.below(1 << 20), 0],
            ITER => [w0, if r.chance(1, 9) { 13 } else { r.below(13) }, r.next() >> 8, r.next() >> 8],
            _ => [w0, key, r.below(64), r.below(64)],
        }
    }
}
fn near(r: &mut Rng, k: u64, dom: u64) -> u64 {
    match r.below(5) {
        0 => k,
        1 => k.wrapping_add(1) % dom,
        2 => (k + dom - 1) % dom,
        3 => (k + r.below(30)) % dom,
        _ => r.below(dom),
    }
}

impl Prop for PB {
    fn id(&self) -> &'static str {
        self.id
    }
    fn rule(&self) -> &'static str {
        match self.m {
            M::Point => "a map grew past one node (12 entries or more) and an entry was removed from it while it had several nodes",
            M::Entry => "entry operations hit both occupied and vacant keys of a map with several nodes",
            M::Iter => "an iterator over 12 or more entries was driven",
            M::Bulk => "append or split_off worked on a map with several nodes, with later point operations",
            M::Cmp => "the two maps compared had 2 or more entries each and different histories",
            M::Oom => "a memory request inside a map or set operation was refused at least once",
            M::Drops => "a refusal, a failed clone, or an owning iteration dropped early occurred, or a map with several nodes was dropped",
            M::Panic => "a callback of the caller panicked inside an operation, or comparisons were inconsistent in a map with entries",
            M::Shape => "the map had several levels (12 entries or more) when an operation was measured",
        }
    }
    fn gen(&self, r: &mut Rng) -> Case {
        let set = match self.m {
            M::Point | M::Entry | M::Cmp => false,
            _ => r.chance(1, 4),
        };
        if let (Some(t), true) = (self.tall(), r.chance(1, 400)) {
            let counted = matches!(self.m, M::Oom | M::Drops) as u64 | r.below(2);
            return Case { h: vec![0, 0, 0, 0, 0, 1, counted], ops: tall::gen(r, t) };
        }
        let (mut dom, mut maxb) = doms(r);
        let kv = match self.m {
            M::Shape => 0,
            M::Panic => r.pick(&[0, 0, 0, 1, 7, 8, 5, 13]),
            _ => r.below(if set { 12 } else { NKV }),
        };
        let heavy = matches!(kv, 4 | 5 | 8 | 9 | 10);
        if matches!(self.m, M::Iter | M::Bulk | M::Point) && r.chance(1, 40) {
            dom = 20_000;
            maxb = 4000;
        }
        if heavy && self.m != M::Shape {
            dom = dom.min(600);
            maxb = maxb.min(160);
        }
        if self.m == M::Shape && r.chance(1, 12) {
            dom = 20_000;
            maxb = 6000;
        }
        if matches!(self.m, M::Oom | M::Drops | M::Panic) || self.m == M::Bulk && maxb < 3000 {
            maxb = maxb.min(600);
        }
        let lawless = (self.m == M::Panic && r.chance(1, 3)) as u64;
        let variant = if set { 3 } else { r.below(3) };
        let base = self.weights(set);
        let keep: &[usize] = if set { &[0] } else { &[0, 4] };
        let w = r.swarm(&base, keep);
        let len = match self.m {
            M::Iter => r.range(1, 10),
            M::Cmp => r.range(1, 8),
            _ => match r.below(6) {
                0 => r.range(1, 6),
                1 | 2 => r.range(5, 25),
                _ => r.range(10, 60),
            },
        };
        let mut ops = Vec::new();
        if r.chance(3, 4) {
            // start from something with structure
            ops.push(gen_op(r, set, if set { SBULKI } else { BULKI }, dom, maxb));
            ops[0][0] &= 31;
            ops[0][1] = r.below(maxb) + 1;
        }
        if matches!(self.m, M::Oom | M::Drops | M::Panic) && r.chance(1, 2) {
            // full nodes: append a second ascending run
            let (n, b) = (r.range(11, maxb.max(12)), r.below(dom));
            let (bi, ap) = if set { (SBULKI, SAPPEND) } else { (BULKI, APPEND) };
            ops.push([opk(bi, 1, 0), n, 0, b]);
            ops.push([opk(ap, 0, 1), 0, 0, 0]);
        }
        for _ in 0..len {
            let k = r.weighted(&w) as u64;
            ops.push(gen_op(r, set, k, dom, maxb));
        }
        if self.m == M::Iter {
            for _ in 0..r.range(1, 5) {
                let at = r.below(ops.len() as u64 + 1) as usize;
                let op = gen_op(r, false, ITER, dom, maxb);
                ops.insert(at, op);
            }
            let op = gen_op(r, false, ITER, dom, maxb);
            ops.push(op);
        }
        Case { h: vec![kv, dom, variant, r.next() >> 16, lawless], ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) {
        if c.hv(5) == 1 {
            return tall::run(self.tall().unwrap(), c, cx);
        }
        if is_set(c) {
            struct F<'a>(M, &'a Case, &'a mut Cx);
            impl<'a> KFn for F<'a> {
                fn call<K: Key>(self) {
                    run_set::<K>(self.0, self.1, self.2)
                }
            }
            with_k(c.hv(0), F(self.m, c, cx))
        } else {
            struct F<'a>(M, &'a Case, &'a mut Cx);
            impl<'a> KvFn for F<'a> {
                fn call<K: Key, V: Elem>(self) {
                    run_map::<K, V>(self.0, self.1, self.2)
                }
            }
            with_kv(c.hv(0), F(self.m, c, cx))
        }
    }
    fn desc(&self, c: &Case) -> String {
        if c.hv(5) == 1 {
            return format!("large maps u64->u64: {}", c.ops.iter().map(tall::text).collect::<Vec<_>>().join("; "));
        }
        let set = is_set(c);
        let mut s = format!("{} {} keys mod {}{}: ", if set { "sets of" } else { "maps" }, if set { k_name(c.hv(0)) } else { kv_name(c.hv(0)) }, c.hv(1), if c.hv(4) == 1 && self.m == M::Panic { ", inconsistent comparisons" } else { "" });
        for o in &c.ops {
            let k = o[0] % 32;
            if k == ITER {
                s += &format!("iterate m{} kind {} seed {}/{}; ", o[0] / 32 % 4, o[1] % 13, o[2], o[3]);
            } else if set {
                s += &sop_text(o);
                s += "; ";
            } else {
                s += &op_text(o);
                s += "; ";
            }
        }
        s
    }
}

fn ok(r: Result<bool, Pn>, what: &str) -> bool {
    match r {
        Ok(x) => x,
        Err(p) => fail!("{}: unexpected panic {:?}", what, p),
    }
}

// ------------------------------------------------------------------ maps

fn cb0() -> Cb {
    disarm();
    *cb()
}

fn run_map<K: Key, V: Elem>(m: M, c: &Case, cx: &mut Cx) {
    if m == M::Panic && c.hv(4) == 1 {
        return lawless_map::<K, V>(c, cx);
    }
    if m == M::Cmp {
        return compare_maps::<K, V>(c, cx);
    }
    let mut w: World<K, V> = World::new(cx, c.hv(1));
    let mut r = Rng::new(c.hv(3));
    let mut maxn = 0usize;
    let mut multi_rem = false;
    let mut bulked = false;
    let (mut occ, mut vac) = (0, 0);
    for (opn, op) in c.ops.iter().enumerate() {
        let kind = op[0] % 32;
        if kind >= NOPS {
            if kind == ITER {
                iterate(&mut w, (op[0] / 32 % 4) as usize, op);
            }
            continue;
        }
        let bulk = w.expand(op);
        let single = bulk.is_none();
        let ops = bulk.unwrap_or_else(|| vec![*op]);
        let total = ops.len();
        for (sub, o) in ops.iter().enumerate() {
            let kd = o[0] % 32;
            let i = (o[0] / 32 % 4) as usize;
            let j = (o[0] / 128 % 4) as usize;
            let n = w.s[i].m.len();
            w.cx.steps += 1;
            if n >= 12 && kd == REM {
                multi_rem = true;
            }
            if kd == ENTRY && n >= 12 {
                if w.s[i].m.contains_key(&w.key(o[1])) {
                    occ += 1
                } else {
                    vac += 1
                }
            }
            if n >= 12 && (kd == APPEND || kd == SPLIT) && i != j {
                bulked = true;
                w.cx.hit("append/split of a map with several nodes");
            }
            let what = ONAMES[kd as usize];
            match m {
                M::Oom => {
                    let e = single || sub + 3 > total || total < 40 || r.chance(1, 12);
                    oom_step(&mut w, o, &mut r, e)
                }
                M::Drops => {
                    let faulted = single || r.chance(1, 8);
                    if faulted && matches!(kd, INS | ENTRY | SPLIT | TCLONE) && r.chance(1, 2) {
                        w.plan = if r.chance(1, 2) { Plan::Once(r.below(6)) } else { Plan::From(r.below(6)) };
                    }
                    if kd == TCLONE && r.chance(1, 2) {
                        let mut cbx = cb0();
                        cbx.clone_fail = r.below(2 * n as u64 + 1);
                        w.cbset = Some(cbx);
                    }
                    let done = ok(w.exec(o), what);
                    w.plan = Plan::None;
                    w.cbset = None;
                    if !done {
                        w.cx.nontrivial = true;
                        w.cx.hit(if w.refused > 0 { "operation refused memory" } else { "element clone failed" });
                    }
                    if kd == INTO {
                        w.cx.nontrivial |= n > 1;
                    }
                    if single || sub % 61 == 0 {
                        w.balance(what);
                    }
                }
                M::Panic => {
                    let e = single || r.chance(1, 10);
                    panic_step(&mut w, o, &mut r, e)
                }
                M::Shape => shape_step(&mut w, o),
                _ => {
                    ok(w.exec(o), what);
                }
            }
            maxn = maxn.max(w.s[i].m.len());
            let n = w.s[i].m.len();
            match m {
                M::Point | M::Bulk => {
                    if n <= 60 || (single && (n <= 400 || opn % 6 == 0)) || sub % 211 == 210 {
                        w.verify_points(i, what);
                        if m == M::Bulk || opn % 4 == 0 {
                            w.verify_iter(i, what);
                        }
                        if i != j && matches!(kd, APPEND | SPLIT | TCLONE | CLONE) {
                            w.verify_points(j, what);
                            w.verify_iter(j, what);
                        }
                    }
                }
                M::Entry => {
                    if kd == ENTRY || n < 20 {
                        if n <= 80 || r.chance(1, 8) {
                            w.verify_points(i, what);
                            w.verify_iter(i, what);
                        }
                    }
                }
                _ => {}
            }
        }
        if !single && m != M::Shape {
            let i = (op[0] / 32 % 4) as usize;
            w.verify_points(i, "after a bulk");
            if m == M::Drops {
                w.balance("after a bulk");
            }
        }
    }
    for i in 0..SLOTS {
        w.verify_points(i, "end");
        w.verify_iter(i, "end");
    }
    w.balance("end");
    if maxn >= 12 {
        w.cx.hit("several nodes");
    }
    if maxn >= 78 {
        w.cx.hit("78 entries or more");
    }
    if maxn >= 500 {
        w.cx.hit("500 entries or more");
    }
    match m {
        M::Point => w.cx.nontrivial = maxn >= 12 && multi_rem,
        M::Entry => w.cx.nontrivial = occ > 0 && vac > 0,
        M::Bulk => w.cx.nontrivial = bulked,
        M::Drops => w.cx.nontrivial |= maxn >= 12,
        _ => {}
    }
    w.finish(true);
}

// ---------------------------------------------------------------- M06

fn oom_step<K: Key, V: Elem>(w: &mut World<K, V>, o: &Op, r: &mut Rng, enumerate: bool) {
    let kd = o[0] % 32;
    let i = (o[0] / 32 % 4) as usize;
    let j = (o[0] / 128 % 4) as usize;
    let what = ONAMES[kd as usize];
    if !enumerate || !matches!(kd, INS | ENTRY | SPLIT | TCLONE) {
        ok(w.exec(o), what);
        return;
    }
    let mut k = 0;
    let from = r.chance(1, 3);
    loop {
        w.plan = if from { Plan::From(k) } else { Plan::Once(k) };
        let res = w.exec(o);
        w.plan = Plan::None;
        let refused = w.refused;
        match res {
            Err(p) => fail!("{} with request {} refused: panic {:?}", what, k, p),
            Ok(true) => {
                ck!(refused == 0, "{} reported success although a memory request was refused", what);
                break;
            }
            Ok(false) => {
                ck!(refused > 0, "{} failed although no memory request was refused", what);
                w.cx.nontrivial = true;
                w.cx.hit("requests refused");
                if k > 0 {
                    w.cx.hit("second or later request of an operation refused");
                }
                let n = w.s[i].m.len();
                if n <= 160 || r.chance(1, 6) {
                    w.verify_points(i, "after a refused request");
                    w.verify_iter(i, "after a refused request");
                } else {
                    ckeq!(w.s[i].t.len(), n, "length after a refused {}", what);
                }
                if i != j && n <= 160 && kd != INS {
                    w.verify_points(j, "other map after a refused request");
                }
                w.balance("after a refused request");
                k += 1 + k / 8;
            }
        }
    }
    let n = w.s[i].m.len();
    if n <= 160 || r.chance(1, 4) {
        w.verify_points(i, "after the retry");
        w.verify_iter(i, "after the retry");
    }
}

// ---------------------------------------------------------------- M08

fn fault(r: &mut Rng, cbx: &mut Cb, clos: &mut u64, kd_cmp: u64, n: u64, cmp: bool, clone: bool, drop: bool, closure: bool) -> bool {
    let mut kinds = Vec::new();
    if cmp {
        kinds.extend([0, 0, 0]);
    }
    if clone {
        kinds.extend([1, 1, 1]);
    }
    if drop {
        kinds.push(2);
    }
    if closure {
        kinds.push(3);
    }
    if kinds.is_empty() {
        return false;
    }
    match r.pick(&kinds) {
        0 => cbx.cmp_panic = if r.chance(1, 3) { r.below(4) } else { r.below(kd_cmp + 1) },
        1 => {
            let k = r.below(2 * n + 1);
            if r.chance(1, 4) {
                cbx.clone_fail = k
            } else {
                cbx.clone_panic = k
            }
        }
        2 => cbx.drop_panic = if r.chance(1, 2) { r.below(3) } else { r.below(2 * n + 2) },
        _ => *clos = r.below(n.min(40) + 1),
    }
    true
}

fn panic_step<K: Key, V: Elem>(w: &mut World<K, V>, o: &Op, r: &mut Rng, faulty: bool) {
    let kd = o[0] % 32;
    let i = (o[0] / 32 % 4) as usize;
    let j = (o[0] / 128 % 4) as usize;
    let what = ONAMES[kd as usize];
    let n = w.s[i].m.len() as u64;
    let nj = w.s[j].m.len() as u64;
    if faulty && r.chance(2, 3) {
        let mut cbx = cb0();
        let mut clos = NEVER;
        let log = 6 + 5 * (64 - (n + 2).leading_zeros() as u64);
        let f = match kd {
            INS | REM | LOOK => fault(r, &mut cbx, &mut clos, log, n, true, false, kd != LOOK, false),
            ENTRY => fault(r, &mut cbx, &mut clos, log, 1, true, false, true, true),
            RANGE => fault(r, &mut cbx, &mut clos, 2 * log, n, true, false, false, false),
            SPLIT => fault(r, &mut cbx, &mut clos, log, n, true, false, false, false),
            APPEND => fault(r, &mut cbx, &mut clos, n + nj, n + nj, true, false, true, false),
            COLLECT | EXTEND => fault(r, &mut cbx, &mut clos, (n + o[1].min(400)) * 3, n + o[1].min(400), true, false, true, true),
            TCLONE | CLONE => fault(r, &mut cbx, &mut clos, 0, n, false, true, false, false),
            CLEAR | INTO | NEW => fault(r, &mut cbx, &mut clos, 0, n, false, false, true, false),
            _ => false,
        };
        if f {
            w.cbset = Some(cbx);
            w.clos = clos;
        }
    }
    let res = w.exec(o);
    w.cbset = None;
    w.clos = NEVER;
    match res {
        Ok(_) => {}
        Err(Pn::Inj(kind)) => {
            w.leak_ok = true;
            w.cx.nontrivial = true;
            w.cx.hit(match kind {
                "cmp" => "comparison panicked",
                "clone" => "clone panicked",
                "drop" => "drop panicked",
                _ => "closure panicked",
            });
            if n + nj >= 24 && (kd == APPEND || kd == SPLIT) {
                w.cx.hit("panic inside append or split_off of several nodes");
            }
            let inv: Vec<usize> = if i == j { vec![i] } else { vec![i, j] };
            w.resync(&inv, what);
            if kd == APPEND && r.chance(1, 2) || r.chance(1, 4) {
                for i in inv {
                    w.aftermath(i, r, what);
                }
            }
        }
        Err(p) => fail!("{}: unexpected panic {:?}", what, p),
    }
    if n <= 40 || r.chance(1, 10) {
        w.verify_points(i, what);
    }
    w.balance(what);
}

fn lawless_map<K: Key, V: Elem>(c: &Case, cx: &mut Cx) {
    let mut w: World<K, V> = World::new(cx, c.hv(1));
    let mut r = Rng::new(c.hv(3));
    for op in &c.ops {
        let kd = op[0] % 32;
        if kd >= NOPS {
            continue;
        }
        let i = (op[0] / 32 % 4) as usize;
        let j = (op[0] / 128 % 4) as usize;
        // the model is not used here; keep bulk sizes modest
        let (ops, single) = match kd {
            BULKI => ((0..op[1].min(300)).map(|x| [opk(INS, i as u64, 0), mix(op[3].wrapping_add(x)), x, 0]).collect::<Vec<Op>>(), false),
            BULKR => ((0..op[1].min(300)).map(|x| [opk(REM, i as u64, 0), mix(op[3].wrapping_add(x)), x, 0]).collect(), false),
            _ => (vec![*op], true),
        };
        for o in ops {
            w.cx.steps += 1;
            let key = w.key(o[1]);
            let chaos = single && r.chance(3, 4) || !single && r.chance(1, 3);
            let n = w.s[i].t.len();
            disarm();
            let cbx = cb();
            cbx.fuel = 50_000 + 40 * n as u64;
            if chaos {
                cbx.cmp_mode = 1 + (r.next() >> 1);
                if n > 0 {
                    w.cx.nontrivial = true;
                }
                w.cx.hit("operations under inconsistent comparisons");
            }
            if r.chance(1, 10) {
                cbx.cmp_panic = r.below(30);
            }
            let dom = w.dom;
            let s = &mut w.s;
            let k2 = o[0] % 32;
            let res = sut_catch(|| match k2 {
                INS => drop(s[i].t.try_insert(K::mk(key), V::mk(o[2]))),
                REM => drop(K::with_q(key, |q| s[i].t.remove(q))),
                LOOK => {
                    K::with_q(key, |q| {
                        if let Some(x) = s[i].t.get_mut(q) {
                            x.check();
                        }
                        if let Some((a, b)) = s[i].t.get_key_value(q) {
                            a.check();
                            b.check();
                        }
                    });
                }
                ENTRY => {
                    use vh::fc::btree::map::Entry;
                    match s[i].t.try_entry(K::mk(key)) {
                        Err(_) => {}
                        Ok(Entry::Vacant(v)) => {
                            if let Ok(x) = v.try_insert(V::mk(o[3])) {
                                x.check();
                            }
                        }
                        Ok(Entry::Occupied(mut e)) => {
                            e.get_mut().check();
                            if o[2] % 2 == 0 {
                                drop(e.remove_entry());
                            } else {
                                drop(e.insert(V::mk(o[3])));
                            }
                        }
                    }
                }
                CLEAR => s[i].t.clear(),
                APPEND if i != j => {
                    let (a, b) = two(s, i, j);
                    a.t.append(&mut b.t);
                }
                SPLIT if i != j => {
                    if let Ok(t) = K::with_q(key, |q| s[i].t.split_off(q)) {
                        s[j].t = t;
                    }
                }
                CLONE if i != j => {
                    let t = s[i].t.clone();
                    s[j].t = t;
                }
                COLLECT | EXTEND => {
                    let n = o[1].min(300);
                    let it = (0..n).map(|x| (K::mk(K::norm(mix(o[3] ^ x) % dom)), V::mk(x)));
                    s[i].t.extend(it);
                }
                INTO => {
                    let t = std::mem::replace(&mut s[i].t, BTreeMap::new());
                    let mut it = t.into_iter();
                    for x in 0..o[1].min(40) {
                        if o[2] >> x & 1 == 1 {
                            drop(it.next());
                        } else {
                            drop(it.next_back());
                        }
                    }
                }
                RANGE => {
                    let hi = o[2];
                    let hi = K::norm(hi % dom);
                    let mk = |x: u64, w: u64| match w % 3 {
                        0 => Bound::Included(x),
                        1 => Bound::Excluded(x),
                        _ => Bound::Unbounded,
                    };
                    with_bounds::<K, _>(mk(key, o[3]), mk(hi, o[3] / 3), |a, b| {
                        let mut n = 0;
                        if o[3] % 2 == 0 {
                            for (k, v) in s[i].t.range::<K::Q, _>((a, b)) {
                                k.check();
                                v.check();
                                n += 1;
                                if n > 100_000 {
                                    break;
                                }
                            }
                        } else {
                            let mut it = s[i].t.range_mut::<K::Q, _>((a, b));
                            while let Some((k, v)) = it.next_back() {
                                k.check();
                                v.check();
                                n += 1;
                                if n > 100_000 {
                                    break;
                                }
                            }
                        }
                    });
                }
                _ => {}
            });
            disarm();
            if let Err(p) = res {
                w.leak_ok = true;
                match p {
                    Pn::Fuel => fail!("{}: more comparisons than any terminating operation makes", ONAMES[k2 as usize]),
                    Pn::Inj(_) => w.cx.hit("comparison panicked"),
                    Pn::Other(m) => {
                        no_unchecked(ONAMES[k2 as usize], &m);
                        w.cx.hit("operation panicked under inconsistent comparisons")
                    }
                }
            }
            check_errs();
            if single || n < 30 || r.chance(1, 16) {
                w.safety(ONAMES[k2 as usize]);
            }
        }
    }
    w.safety("end");
    for s in w.s.iter_mut() {
        s.m.clear();
    }
    w.finish(true);
}

/// A panic is a fine answer to comparisons that make no sense; reaching one of the steps whose
/// safety the code takes for granted is not: where debug assertions are off, it is undefined behaviour.
pub fn no_unchecked(op: &str, m: &str) {
    if m.contains("unchecked") || m.contains("unsafe precondition") {
        fail!("{}: inconsistent comparisons reached a step that is undefined behaviour without debug assertions: {}", op, m);
    }
}

// ---------------------------------------------------------------- M09

/// the greatest height a tree of n entries can have when nodes hold 4 to 11 entries (the root at least 1)
pub fn height(n: usize) -> u64 {
    let mut h = 0u64;
    // height h needs at least 2*5^h - 1 entries
    let mut need = 2 * 5usize;
    while need - 1 <= n {
        h += 1;
        need *= 5;
    }
    h
}
fn blocks(n: usize) -> u64 {
    let n = n as u64;
    if n < 9 {
        return 1;
    }
    let l = (n + 1) / 5;
    l + l.saturating_sub(2) / 4 + 1
}

fn shape_step<K: Key, V: Elem>(w: &mut World<K, V>, o: &Op) {
    let kd = o[0] % 32;
    let i = (o[0] / 32 % 4) as usize;
    let what = ONAMES[kd as usize];
    let n = w.s[i].m.len();
    ok(w.exec(o), what);
    let n2 = w.s[i].m.len();
    let h = height(n.max(n2));
    if n >= 12 {
        w.cx.nontrivial = true;
    }
    let (cmps, reqs, frees) = (w.cmps, w.reqs, w.frees);
    match kd {
        INS | REM | LOOK | ENTRY => {
            ck!(cmps <= 11 * (h + 1), "{} in a map of {} entries made {} key comparisons; a balanced tree of height {} needs at most {}", what, n, cmps, h, 11 * (h + 1));
            ck!(reqs <= h + 2, "{} in a map of {} entries requested {} blocks (height {})", what, n, reqs, h);
            ck!(frees <= h + 1, "{} in a map of {} entries freed {} blocks (height {})", what, n, frees, h);
            w.cx.add("comparisons measured", 1);
        }
        RANGE => ck!(cmps <= 22 * (h + 1) + 2, "range in a map of {} entries made {} key comparisons; height {}", n, cmps, h),
        SPLIT => ck!(cmps <= 11 * (h + 1), "split_off in a map of {} entries made {} key comparisons; height {}", n, cmps, h),
        APPEND => {
            let m = w.s[(o[0] / 128 % 4) as usize].m.len() + n2;
            let _ = m;
        }
        _ => {}
    }
    let have = live().0 as u64;
    let may: u64 = w.s.iter().map(|s| blocks(s.m.len())).sum();
    ck!(have <= may, "after {}: the maps own {} blocks; trees of {:?} entries need at most {}", what, have, w.s.iter().map(|s| s.m.len()).collect::<Vec<_>>(), may);
    w.cx.add("footprints measured", 1);
}

// ---------------------------------------------------------------- M03

const ITN: [&str; 14] = ["iter", "iter_mut", "keys", "values", "values_mut", "into_iter", "range", "range_mut", "&map", "&mut map", "set iter", "set into_iter", "set range", "bounds at every key"];

fn iterate<K: Key, V: Elem>(w: &mut World<K, V>, i: usize, op: &Op) {
    let kind = op[1] % 14;
    let what = ITN[kind as usize];
    let seed = op[2];
    let mut r = Rng::new(op[3]);
    let n = w.s[i].m.len();
    if n >= 12 {
        w.cx.nontrivial = true;
        w.cx.hit(what);
    }
    type X = (u64, u64, u64, u64);
    let all: Vec<X> = w.s[i].m.iter().map(|(k, e)| (*k, e.kid, e.v, e.vid)).collect();
    fn sx<K: Key, V: Elem>(k: &K, v: &V) -> X {
        k.check();
        v.check();
        (k.val(), k.id(), v.val(), v.id())
    }
    let keyed = |k: &K| {
        k.check();
        (k.val(), k.id())
    };
    let text = |xs: &[X]| {
        let v: Vec<(u64, u64)> = xs.iter().map(|x| (x.0, x.2)).collect();
        format!("{:?}", v)
    };
    let ktext = |xs: &[(u64, u64)]| format!("{:?}", xs.iter().map(|x| x.0).collect::<Vec<_>>());
    fn dbgck<T: Debug>(t: &T, exp: &str, what: &str) {
        let s = sut(|| {
            let _g = pause();
            format!("{:?}", t)
        });
        ck!(s.contains(exp), "{}: debug text {:?} does not list what remains, {:?}", what, s, exp);
    }
    // bounds for ranges: keys of the map and their neighbours
    let pick = |r: &mut Rng, w: &World<K, V>| -> u64 {
        if !all.is_empty() && r.chance(4, 5) {
            let k = all[r.below(all.len() as u64) as usize].0;
            let k = match r.below(4) {
                0 => k.wrapping_sub(1),
                1 => k.wrapping_add(1),
                _ => k,
            };
            w.key(k % w.dom)
        } else {
            w.key(r.next() % w.dom)
        }
    };
    let bound = |x: u64, h: u64| match h % 5 {
        0 | 1 => Bound::Included(x),
        2 | 3 => Bound::Excluded(x),
        _ => Bound::Unbounded,
    };
    let (mut x, mut y) = (pick(&mut r, w), pick(&mut r, w));
    if r.chance(1, 8) {
        y = x;
    }
    if x > y && r.chance(7, 8) {
        std::mem::swap(&mut x, &mut y);
    }
    let (a, b) = (bound(x, r.next()), bound(y, r.next()));
    let bad = bad_range(&a, &b);
    let inr = |k: u64| {
        (match a {
            Bound::Included(x) => k >= x,
            Bound::Excluded(x) => k > x,
            _ => true,
        }) && (match b {
            Bound::Included(x) => k <= x,
            Bound::Excluded(x) => k < x,
            _ => true,
        })
    };
    let form = r.below(4); // how the range is written
    let newv = |old: u64| V::norm(mix(old ^ seed));
    match kind {
        0 | 8 => {
            let t = &w.s[i].t;
            let it = sut(|| if kind == 0 { t.iter() } else { t.into_iter() });
            let d = |it: &vh::fc::btree::map::Iter<K, V>, x: &[X]| {
                if x.len() < 60 {
                    dbgck(it, &text(x), what)
                }
            };
            drive(w.cx, it, &all, &mut |(k, v)| sx(k, v), How { len: Some(|i| i.len()), cln: Some(|i| i.clone()), dbg: Some(&d), exact: true }, seed, what);
        }
        1 | 9 => {
            let t = &mut w.s[i].t;
            let it = sut(|| if kind == 1 { t.iter_mut() } else { t.into_iter() });
            let d = |it: &vh::fc::btree::map::IterMut<K, V>, x: &[X]| {
                if x.len() < 60 {
                    dbgck(it, &text(x), what)
                }
            };
            let mut seen: Vec<u64> = Vec::new();
            drive(
                w.cx,
                it,
                &all,
                &mut |(k, v)| {
                    let x = sx(k, v);
                    v.set(newv(x.2));
                    seen.push(x.0);
                    x
                },
                How { len: Some(|i| i.len()), cln: None, dbg: Some(&d), exact: true },
                seed,
                what,
            );
            for k in seen {
                let e = w.s[i].m.get_mut(&k).unwrap();
                e.v = newv(e.v);
            }
        }
        2 => {
            let exp: Vec<(u64, u64)> = all.iter().map(|x| (x.0, x.1)).collect();
            let t = &w.s[i].t;
            let it = sut(|| t.keys());
            let d = |it: &vh::fc::btree::map::Keys<K, V>, x: &[(u64, u64)]| {
                if x.len() < 60 {
                    dbgck(it, &ktext(x), what)
                }
            };
            drive(w.cx, it, &exp, &mut |k| keyed(k), How { len: Some(|i| i.len()), cln: Some(|i| i.clone()), dbg: Some(&d), exact: true }, seed, what);
        }
        3 => {
            let exp: Vec<(u64, u64)> = all.iter().map(|x| (x.2, x.3)).collect();
            let t = &w.s[i].t;
            let it = sut(|| t.values());
            let d = |it: &vh::fc::btree::map::Values<K, V>, x: &[(u64, u64)]| {
                if x.len() < 60 {
                    dbgck(it, &ktext(x), what)
                }
            };
            drive(
                w.cx,
                it,
                &exp,
                &mut |v| {
                    v.check();
                    (v.val(), v.id())
                },
                How { len: Some(|i| i.len()), cln: Some(|i| i.clone()), dbg: Some(&d), exact: true },
                seed,
                what,
            );
        }
        4 => {
            // values alone do not tell the key; number the steps by position through the identity or order
            let exp: Vec<(u64, u64)> = all.iter().map(|x| (x.2, x.3)).collect();
            let t = &mut w.s[i].t;
            let it = sut(|| t.values_mut());
            let d = |it: &vh::fc::btree::map::ValuesMut<K, V>, x: &[(u64, u64)]| {
                if x.len() < 60 {
                    dbgck(it, "ValuesMut", what);
                    let _ = x;
                }
            };
            let mut addr: std::collections::HashMap<usize, u64> = std::collections::HashMap::new();
            let mut visited: Vec<(usize, u64)> = Vec::new();
            drive(
                w.cx,
                it,
                &exp,
                &mut |v| {
                    v.check();
                    let x = (v.val(), v.id());
                    v.set(newv(x.0));
                    visited.push((v as *const V as usize, x.0));
                    x
                },
                How { len: Some(|i| i.len()), cln: None, dbg: Some(&d), exact: true },
                seed,
                what,
            );
            if std::mem::size_of::<V>() > 0 {
                for (k, v) in w.s[i].t.iter() {
                    addr.insert(v as *const V as usize, k.val());
                }
                for (p, old) in visited {
                    match addr.get(&p) {
                        None => fail!("values_mut handed out a value that is not in the map"),
                        Some(k) => {
                            let e = w.s[i].m.get_mut(k).unwrap();
                            ckeq!(e.v, old, "value visited by values_mut");
                            e.v = newv(old);
                        }
                    }
                }
            }
        }
        5 => {
            w.s[i].m.clear();
            let t = std::mem::replace(&mut w.s[i].t, BTreeMap::new());
            let it = sut(|| t.into_iter());
            let d = |it: &vh::fc::btree::map::IntoIter<K, V>, x: &[X]| {
                if x.len() < 60 {
                    dbgck(it, &text(x), what)
                }
            };
            drive(w.cx, it, &all, &mut |(k, v)| sx(&k, &v), How { len: Some(|i| i.len()), cln: None, dbg: Some(&d), exact: true }, seed, what);
            for x in &all {
                ck!((x.1 == 0 || !is_live(x.1)) && (x.3 == 0 || !is_live(x.3)), "owning iteration leaked an entry");
            }
        }
        6 | 12 if form == 3 => {
            // written with the range syntax over owned keys
            let lo = x.min(y);
            let hi = x.max(y);
            let sel = r.below(5);
            let exp: Vec<X> = all
                .iter()
                .copied()
                .filter(|e| match sel {
                    0 => e.0 >= lo && e.0 < hi,
                    1 => e.0 >= lo && e.0 <= hi,
                    2 => e.0 >= lo,
                    3 => e.0 < hi,
                    _ => e.0 <= hi,
                })
                .collect();
            let t = &w.s[i].t;
            let (kl, kh) = (K::mk(lo), K::mk(hi));
            let it = sut(|| match sel {
                0 => t.range::<K, _>(kl..kh),
                1 => t.range::<K, _>(kl..=kh),
                2 => t.range::<K, _>(kl..),
                3 => t.range::<K, _>(..kh),
                _ => t.range::<K, _>(..=kh),
            });
            let it: vh::fc::btree::map::Range<K, V> = it;
            drive(w.cx, it, &exp, &mut |(k, v)| sx(k, v), How { cln: Some(|i| i.clone()), ..How::plain() }, seed, "range syntax");
        }
        6 => {
            let exp: Vec<X> = all.iter().copied().filter(|e| inr(e.0)).collect();
            let t = &w.s[i].t;
            let it = with_bounds::<K, _>(a, b, |p, q| sut_catch(|| t.range::<K::Q, _>((p, q))));
            match it {
                Ok(it) => {
                    ck!(!bad, "range {:?} did not panic", (a, b));
                    let d = |it: &vh::fc::btree::map::Range<K, V>, x: &[X]| {
                        if x.len() < 60 {
                            dbgck(it, &text(x), what)
                        }
                    };
                    drive(w.cx, it, &exp, &mut |(k, v)| sx(k, v), How { len: None, cln: Some(|i| i.clone()), dbg: Some(&d), exact: false }, seed, what);
                }
                Err(p) => {
                    ck!(bad && matches!(p, Pn::Other(_)), "range {:?}: unexpected panic {:?}", (a, b), p);
                    w.cx.hit("documented panic of a range");
                }
            }
        }
        7 => {
            let exp: Vec<X> = all.iter().copied().filter(|e| inr(e.0)).collect();
            let t = &mut w.s[i].t;
            let it = with_bounds::<K, _>(a, b, |p, q| sut_catch(|| t.range_mut::<K::Q, _>((p, q))));
            match it {
                Ok(it) => {
                    ck!(!bad, "range_mut {:?} did not panic", (a, b));
                    let d = |it: &vh::fc::btree::map::RangeMut<K, V>, x: &[X]| {
                        if x.len() < 60 {
                            dbgck(it, &text(x), what)
                        }
                    };
                    let mut seen = Vec::new();
                    drive(
                        w.cx,
                        it,
                        &exp,
                        &mut |(k, v)| {
                            let x = sx(k, v);
                            v.set(newv(x.2));
                            seen.push(x.0);
                            x
                        },
                        How { len: None, cln: None, dbg: Some(&d), exact: false },
                        seed,
                        what,
                    );
                    for k in seen {
                        let e = w.s[i].m.get_mut(&k).unwrap();
                        e.v = newv(e.v);
                    }
                }
                Err(p) => {
                    ck!(bad && matches!(p, Pn::Other(_)), "range_mut {:?}: unexpected panic {:?}", (a, b), p);
                    w.cx.hit("documented panic of a range");
                }
            }
        }
        13 => {
            // every key and its neighbourhood as a bound: each level of the tree gets to hold one
            let incl = r.chance(1, 2);
            for (p, e) in all.iter().enumerate() {
                let k = e.0;
                let (pred, succ) = (p.checked_sub(1).map(|q| all[q]), all.get(p + 1).copied());
                let me = Some(*e);
                let see = |x: Option<(&K, &V)>| x.map(|(k, v)| sx(k, v));
                let see_mut = |x: Option<(&K, &mut V)>| x.map(|(k, v)| sx(k, &*v));
                let t = &mut w.s[i].t;
                let un: Bound<u64> = Bound::Unbounded;
                let ends = [(Bound::Included(k), un, me, 0), (Bound::Excluded(k), un, succ, 0), (un, Bound::Included(k), me, 1), (un, Bound::Excluded(k), pred, 1)];
                for (q, (a, b, want, back)) in ends.into_iter().enumerate() {
                    let muta = (p + q) % 2 == 0;
                    let got = with_bounds::<K, _>(a, b, |x, y| {
                        sut(|| match (muta, back) {
                            (false, 0) => see(t.range::<K::Q, _>((x, y)).next()),
                            (false, _) => see(t.range::<K::Q, _>((x, y)).next_back()),
                            (true, 0) => see_mut(t.range_mut::<K::Q, _>((x, y)).next()),
                            (true, _) => see_mut(t.range_mut::<K::Q, _>((x, y)).next_back()),
                        })
                    });
                    ckeq!(got, want, "{} entry of range{} {:?} of {} entries", ["first", "last"][back], if muta { "_mut" } else { "" }, (a, b), n);
                }
                // a window around it, with exact ends
                let (a, b) = match (pred, succ, incl) {
                    (Some(x), Some(y), false) => (Bound::Excluded(x.0), Bound::Excluded(y.0)),
                    _ => (Bound::Included(k), Bound::Included(k)),
                };
                let got: Vec<X> = with_bounds::<K, _>(a, b, |x, y| {
                    sut(|| {
                        let it = t.range::<K::Q, _>((x, y));
                        let mut v = Vec::new();
                        let _g = pause();
                        for (k, x) in it.take(5) {
                            v.push(sx(k, x));
                        }
                        v
                    })
                });
                ckeq!(got, vec![*e], "range {:?} of {} entries", (a, b), n);
            }
            if n >= 432 {
                w.cx.hit("bounds at every key of 432 entries or more");
            }
        }
        _ => {
            // a set with the same keys, built in another order
            let mut set: BTreeSet<K> = BTreeSet::new();
            let mut ids: Vec<(u64, u64)> = Vec::new();
            let mut order: Vec<u64> = all.iter().map(|x| x.0).collect();
            for q in (1..order.len()).rev() {
                order.swap(q, r.below(q as u64 + 1) as usize);
            }
            for k in order {
                let kk = K::mk(k);
                ids.push((k, kk.id()));
                ck!(sut(|| set.try_insert(kk)).is_ok(), "set insert failed");
            }
            ids.sort();
            match kind {
                10 => {
                    let it = sut(|| if form == 0 { (&set).into_iter() } else { set.iter() });
                    let d = |it: &vh::fc::btree::set::Iter<K>, x: &[(u64, u64)]| {
                        if x.len() < 60 {
                            dbgck(it, &ktext(x), what)
                        }
                    };
                    drive(w.cx, it, &ids, &mut |k| keyed(k), How { len: Some(|i| i.len()), cln: Some(|i| i.clone()), dbg: Some(&d), exact: true }, seed, what);
                }
                11 => {
                    let t = std::mem::replace(&mut set, BTreeSet::new());
                    let it = sut(|| t.into_iter());
                    drive(w.cx, it, &ids, &mut |k| keyed(&k), How { len: Some(|i| i.len()), cln: None, dbg: None, exact: true }, seed, what);
                }
                _ => {
                    let exp: Vec<(u64, u64)> = ids.iter().copied().filter(|e| inr(e.0)).collect();
                    let it = with_bounds::<K, _>(a, b, |p, q| sut_catch(|| set.range::<K::Q, _>((p, q))));
                    match it {
                        Ok(it) => {
                            ck!(!bad, "set range {:?} did not panic", (a, b));
                            drive(w.cx, it, &exp, &mut |k| keyed(k), How { cln: Some(|i| i.clone()), ..How::plain() }, seed, what);
                        }
                        Err(p) => ck!(bad && matches!(p, Pn::Other(_)), "set range {:?}: unexpected panic {:?}", (a, b), p),
                    }
                }
            }
            sut(move || drop(set));
        }
    }
    // exactly the visited values changed
    w.verify_points(i, what);
    w.verify_iter(i, what);
}

// ---------------------------------------------------------------- M05

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    sut(|| t.hash(&mut h));
    h.finish()
}

// Values that are not equal to themselves, or that have no order: the map's answers are the entries' own.
fn odd_values(cx: &mut Cx, r: &mut Rng) {
    const F: [f64; 6] = [0.0, -0.0, 1.5, f64::NAN, f64::INFINITY, -3.0];
    let kinds = r.pick(&[3u64, 3, 6]);
    let n = r.below(40);
    let hist: Vec<(u64, f64)> = (0..n).map(|_| (r.below(60), F[r.below(kinds) as usize])).collect();
    let mut pert = hist.clone();
    if n > 0 && r.chance(1, 2) {
        let at = r.below(n) as usize;
        pert[at].1 = F[r.below(6) as usize];
    }
    let build = |h: &[(u64, f64)]| {
        let mut t: BTreeMap<u64, f64> = BTreeMap::new();
        for (k, v) in h {
            ck!(sut(|| t.try_insert(*k, *v)).is_ok(), "insert failed");
        }
        t
    };
    let (ta, tb) = (build(&hist), build(&pert));
    let (ma, mb): (Ref<u64, f64>, Ref<u64, f64>) = (hist.iter().copied().collect(), pert.iter().copied().collect());
    cx.hit("floating point values");
    #[allow(clippy::eq_op)]
    for (a, b, x, y) in [(&ta, &tb, &ma, &mb), (&tb, &ta, &mb, &ma), (&ta, &ta, &ma, &ma), (&ta, &sut(|| ta.clone()), &ma, &ma)] {
        let text = format!("{:?} and {:?}", x, y);
        ckeq!(sut(|| a == b), x == y, "{} equal", text);
        ckeq!(sut(|| a != b), x != y, "{} unequal", text);
        ckeq!(sut(|| a.partial_cmp(b)), x.partial_cmp(y), "partial order of {}", text);
        ckeq!(sut(|| (a < b, a <= b, a > b, a >= b)), (x < y, x <= y, x > y, x >= y), "comparisons of {}", text);
        ckeq!(format!("{:?}", a), format!("{:?}", x), "debug text");
    }
    sut(move || drop((ta, tb)));
}

fn compare_maps<K: Key, V: Elem>(c: &Case, cx: &mut Cx) {
    let mut w: World<K, V> = World::new(cx, c.hv(1));
    let mut r = Rng::new(c.hv(3));
    for op in &c.ops {
        if op[0] % 32 >= NOPS {
            continue;
        }
        let ops = w.expand(op).unwrap_or_else(|| vec![*op]);
        for o in ops {
            w.cx.steps += 1;
            ok(w.exec(&o), ONAMES[(o[0] % 32) as usize]);
        }
    }
    // a second map with the contents of map 0, reached through another history
    let src: Vec<(u64, u64)> = w.s[0].m.iter().map(|(k, e)| (*k, e.v)).collect();
    let mut order: Vec<usize> = (0..src.len()).collect();
    match r.below(4) {
        0 => {}
        1 => order.reverse(),
        _ => {
            for q in (1..order.len()).rev() {
                order.swap(q, r.below(q as u64 + 1) as usize);
            }
        }
    }
    ok(w.exec(&[opk(NEW, 1, 0), 0, 0, 0]), "new");
    let extra = if r.chance(1, 2) { r.size(60) } else { 0 };
    let mut extras = Vec::new();
    let every = (order.len() as u64 / (extra + 1)).max(1);
    for (q, x) in order.iter().enumerate() {
        let (k, v) = src[*x];
        ok(w.exec(&[opk(INS, 1, 0), k, v, 0]), "insert");
        if (q as u64) % every == 0 && (extras.len() as u64) < extra {
            let e = w.key(r.next() % w.dom);
            if !w.s[0].m.contains_key(&e) {
                ok(w.exec(&[opk(INS, 1, 0), e, 1, 0]), "insert");
                extras.push(e);
            }
        }
    }
    for e in extras {
        ok(w.exec(&[opk(REM, 1, 0), e, 0, 0]), "remove");
    }
    // K::mk / V::mk normalise, so exec's insert stored V::norm(v) = v
    let pert = r.below(8);
    if !src.is_empty() {
        let (k, v) = src[r.below(src.len() as u64) as usize];
        match pert {
            0 | 1 => {}
            2 => {
                ok(w.exec(&[opk(INS, 1, 0), k, V::norm(v.wrapping_add(1)), 0]), "insert");
            }
            3 => {
                ok(w.exec(&[opk(REM, 1, 0), k, 0, 0]), "remove");
            }
            4 => {
                let e = w.key(r.next() % w.dom);
                ok(w.exec(&[opk(INS, 1, 0), e, v, 0]), "insert");
            }
            5 => {
                // same length, one key different
                ok(w.exec(&[opk(REM, 1, 0), k, 0, 0]), "remove");
                let e = w.key(k.wrapping_add(1));
                ok(w.exec(&[opk(INS, 1, 0), e, v, 0]), "insert");
            }
            6 => {
                let (k2, _) = *src.last().unwrap();
                ok(w.exec(&[opk(REM, 1, 0), k2, 0, 0]), "remove");
            }
            _ => {
                ok(w.exec(&[opk(INS, 0, 0), k, V::norm(v.wrapping_sub(1)), 0]), "insert");
            }
        }
    }
    let n = (w.s[0].m.len(), w.s[1].m.len());
    w.cx.nontrivial = n.0 >= 2 && n.1 >= 2;
    for (x, y) in [(0, 1), (1, 0), (0, 0), (0, 2)] {
        let (a, b) = (&w.s[x], &w.s[y]);
        let ma: Ref<u64, u64> = a.m.iter().map(|(k, e)| (*k, e.v)).collect();
        let mb: Ref<u64, u64> = b.m.iter().map(|(k, e)| (*k, e.v)).collect();
        let e = ma == mb;
        let o = ma.cmp(&mb);
        if x == 0 && y == 1 {
            w.cx.hit(if e { "equal maps from different histories" } else { "unequal maps" });
        }
        ckeq!(sut(|| a.t == b.t), e, "maps equal");
        ckeq!(sut(|| a.t != b.t), !e, "maps unequal");
        ckeq!(sut(|| a.t.cmp(&b.t)), o, "order of the maps");
        ckeq!(sut(|| a.t.partial_cmp(&b.t)), Some(o), "partial order of the maps");
        ckeq!(sut(|| a.t < b.t), o == Ordering::Less, "map < map");
        ckeq!(sut(|| a.t >= b.t), o != Ordering::Less, "map >= map");
        if e {
            ckeq!(hash_of(&a.t), hash_of(&b.t), "hashes of equal maps");
        } else if std::mem::size_of::<V>() > 0 {
            ck!(hash_of(&a.t) != hash_of(&b.t), "maps with different entries {:?} / {:?} hash equally", ma.len(), mb.len());
        }
        // sets over the keys
        let ka: Vec<u64> = ma.keys().copied().collect();
        let kb: Vec<u64> = mb.keys().copied().collect();
        if ka.len() + kb.len() < 1500 {
            let mk = |ks: &Vec<u64>, r: &mut Rng| {
                let mut t: BTreeSet<K> = BTreeSet::new();
                let mut ks = ks.clone();
                for q in (1..ks.len()).rev() {
                    ks.swap(q, r.below(q as u64 + 1) as usize);
                }
                for k in ks {
                    let kk = K::mk(k);
                    ck!(sut(|| t.try_insert(kk)).is_ok(), "set insert failed");
                }
                t
            };
            let (ta, tb) = (mk(&ka, &mut r), mk(&kb, &mut r));
            ckeq!(sut(|| ta == tb), ka == kb, "sets equal");
            ckeq!(sut(|| ta.cmp(&tb)), ka.cmp(&kb), "order of the sets");
            ckeq!(sut(|| ta.partial_cmp(&tb)), Some(ka.cmp(&kb)), "partial order of the sets");
            if ka == kb {
                ckeq!(hash_of(&ta), hash_of(&tb), "hashes of equal sets");
            }
            let rs: std::collections::BTreeSet<u64> = ka.iter().copied().collect();
            let s = format!("{:?}", ta);
            ckeq!(s, format!("{:?}", rs), "debug text of the set");
            let s = format!("{:#?}", ta);
            ckeq!(s, format!("{:#?}", rs), "alternate debug text of the set");
            sut(move || drop((ta, tb)));
        }
        ckeq!(format!("{:?}", a.t), format!("{:?}", ma), "debug text of the map");
        ckeq!(format!("{:#?}", a.t), format!("{:#?}", ma), "alternate debug text of the map");
        check_errs();
    }
    if r.chance(1, 4) {
        odd_values(w.cx, &mut r);
    }
    // iterators print what remains
    let t = &w.s[0].t;
    let exp: Vec<(u64, u64)> = w.s[0].m.iter().map(|(k, e)| (*k, e.v)).collect();
    if exp.len() < 400 {
        let f = r.below(exp.len() as u64 + 1) as usize;
        let b = r.range(f as u64, exp.len() as u64) as usize;
        let rest = &exp[f..b];
        let ks: Vec<u64> = rest.iter().map(|x| x.0).collect();
        let vs: Vec<u64> = rest.iter().map(|x| x.1).collect();
        macro_rules! adv {
            ($it:expr) => {{
                let mut it = $it;
                for _ in 0..f {
                    it.next();
                }
                for _ in b..exp.len() {
                    it.next_back();
                }
                let s = format!("{:?}", it);
                s
            }};
        }
        let chk = |s: String, e: String, what: &str| ck!(s.contains(&e), "debug text of {} after {} and {} steps: {:?} does not contain {:?}", what, f, exp.len() - b, s, e);
        let full = (Bound::Unbounded, Bound::Unbounded);
        chk(adv!(t.iter()), format!("{:?}", rest), "iter");
        chk(adv!(t.keys()), format!("{:?}", ks), "keys");
        chk(adv!(t.values()), format!("{:?}", vs), "values");
        chk(adv!(t.range::<K::Q, _>(full)), format!("{:?}", rest), "range");
        let t = &mut w.s[0].t;
        chk(adv!(t.iter_mut()), format!("{:?}", rest), "iter_mut");
        chk(adv!(t.range_mut::<K::Q, _>(full)), format!("{:?}", rest), "range_mut");
        let t = std::mem::replace(&mut w.s[0].t, BTreeMap::new());
        chk(adv!(t.into_iter()), format!("{:?}", rest), "into_iter");
        w.s[0].m.clear();
        // entries
        if let Some((k, e)) = w.s[1].m.iter().next().map(|(k, e)| (*k, *e)) {
            let en = w.s[1].t.try_entry(K::mk(k)).unwrap();
            let s = format!("{:?}", en);
            ck!(s.contains(&format!("{:?}", k)) && s.contains(&format!("{:?}", e.v)), "debug text of an occupied entry: {}", s);
            let absent = K::norm(k ^ 0x5555);
            if !w.s[1].m.contains_key(&absent) {
                let en = w.s[1].t.try_entry(K::mk(absent)).unwrap();
                let s = format!("{:?}", en);
                ck!(s.contains(&format!("{:?}", absent)) && s.contains("Vacant"), "debug text of a vacant entry of {}: {}", absent, s);
            }
        }
    }
    w.finish(true);
}

// ------------------------------------------------------------------ sets

fn run_set<K: Key>(m: M, c: &Case, cx: &mut Cx) {
    if m == M::Panic && c.hv(4) == 1 {
        return lawless_set::<K>(c, cx);
    }
    let mut w: Sets<K> = Sets::new(cx, c.hv(1));
    let mut r = Rng::new(c.hv(3));
    let mut maxn = 0;
    w.cx.hit("set histories");
    for op in &c.ops {
        let kind = op[0] % 32;
        if kind >= NSOPS {
            if kind == ITER {
                iterate_set(&mut w, op);
            }
            continue;
        }
        let bulk = w.expand(op);
        let single = bulk.is_none();
        for o in bulk.unwrap_or_else(|| vec![*op]) {
            let kd = o[0] % 32;
            let (i, j) = Sets::<K>::slots(&o);
            let what = SNAMES[kd as usize];
            let n = w.s[i].m.len();
            w.cx.steps += 1;
            if n >= 12 && (kd == SAPPEND || kd == SSPLIT) && i != j && m == M::Bulk {
                w.cx.nontrivial = true;
            }
            match m {
                M::Oom if matches!(kd, SINS | SREP | SSPLIT) && (single || r.chance(1, 8)) => {
                    let from = r.chance(1, 3);
                    let mut k = 0;
                    loop {
                        w.plan = if from { Plan::From(k) } else { Plan::Once(k) };
                        let res = w.exec(&o);
                        w.plan = Plan::None;
                        let refused = w.refused;
                        match res {
                            Err(p) => fail!("set {} with request {} refused: panic {:?}", what, k, p),
                            Ok(true) => {
                                ck!(refused == 0, "set {} reported success although a memory request was refused", what);
                                break;
                            }
                            Ok(false) => {
                                ck!(refused > 0, "set {} failed although no memory request was refused", what);
                                w.cx.nontrivial = true;
                                w.cx.hit("requests refused");
                                if n <= 160 || r.chance(1, 6) {
                                    w.verify(i, "set after a refused request");
                                    w.verify_back(i, "set after a refused request");
                                }
                                w.balance("set after a refused request");
                                k += 1 + k / 8;
                            }
                        }
                    }
                }
                M::Drops => {
                    if matches!(kd, SINS | SREP | SSPLIT) && (single || r.chance(1, 8)) && r.chance(1, 2) {
                        w.plan = Plan::Once(r.below(6));
                    }
                    if !ok(w.exec(&o), what) {
                        w.cx.nontrivial = true;
                    }
                    w.plan = Plan::None;
                    w.cx.nontrivial |= kd == SINTO && n > 1;
                    if single {
                        w.balance(what);
                    }
                }
                M::Panic => {
                    let nj = w.s[j].m.len() as u64;
                    let n = n as u64;
                    if (single || r.chance(1, 10)) && r.chance(2, 3) {
                        let mut cbx = cb0();
                        let mut clos = NEVER;
                        let log = 6 + 5 * (64 - (n + 2).leading_zeros() as u64);
                        let add = o[1].min(400);
                        let f = match kd {
                            SINS | SREP | SREM | STAKE => fault(&mut r, &mut cbx, &mut clos, log, 1, true, false, true, false),
                            SLOOK | SSPLIT => fault(&mut r, &mut cbx, &mut clos, log, n, true, false, false, false),
                            SRANGE => fault(&mut r, &mut cbx, &mut clos, 2 * log, n, true, false, false, false),
                            SAPPEND => fault(&mut r, &mut cbx, &mut clos, n + nj, n + nj, true, false, true, false),
                            SCOLLECT | SEXTEND => fault(&mut r, &mut cbx, &mut clos, (n + add) * 3, n + add, true, false, true, true),
                            SCLONE => fault(&mut r, &mut cbx, &mut clos, 0, n, false, true, false, false),
                            SCLEAR | SINTO | SNEW => fault(&mut r, &mut cbx, &mut clos, 0, n, false, false, true, false),
                            _ => false,
                        };
                        if f {
                            cbx.clone_fail = NEVER;
                            w.cbset = Some(cbx);
                            w.clos = clos;
                        }
                    }
                    let res = w.exec(&o);
                    w.cbset = None;
                    w.clos = NEVER;
                    match res {
                        Ok(_) => {}
                        Err(Pn::Inj(_)) => {
                            w.leak_ok = true;
                            w.cx.nontrivial = true;
                            w.cx.hit("panic inside a set operation");
                            let inv: Vec<usize> = if i == j { vec![i] } else { vec![i, j] };
                            w.resync(&inv, what);
                            if kd == SAPPEND && r.chance(1, 2) || r.chance(1, 4) {
                                for i in inv {
                                    w.aftermath(i, &mut r, what);
                                }
                            }
                        }
                        Err(p) => fail!("set {}: unexpected panic {:?}", what, p),
                    }
                    w.balance(what);
                }
                M::Shape => {
                    ok(w.exec(&o), what);
                    let n2 = w.s[i].m.len();
                    let h = height(n.max(n2));
                    w.cx.nontrivial |= n >= 12;
                    if matches!(kd, SINS | SREP | SREM | STAKE | SLOOK) {
                        ck!(w.cmps <= 11 * (h + 1), "set {} among {} elements made {} comparisons (height {})", what, n, w.cmps, h);
                    }
                    let have = live().0 as u64;
                    let may: u64 = w.s.iter().map(|s| blocks(s.m.len())).sum();
                    if K::NAME == "tracked" {
                        ck!(have <= may, "after set {}: {} blocks owned, at most {} expected", what, have, may);
                    }
                }
                _ => {
                    ok(w.exec(&o), what);
                }
            }
            let n = w.s[i].m.len();
            maxn = maxn.max(n);
            if m != M::Shape && (n <= 60 || single && r.chance(1, 4)) {
                w.verify(i, what);
                if i != j && matches!(kd, SAPPEND | SSPLIT | SCLONE) {
                    w.verify(j, what);
                    w.verify_back(j, what);
                }
            }
        }
    }
    for i in 0..SSLOTS {
        w.verify(i, "end");
        w.verify_back(i, "end");
    }
    w.balance("end");
    if m == M::Drops {
        w.cx.nontrivial |= maxn >= 12;
    }
    w.finish(true);
}

fn iterate_set<K: Key>(w: &mut Sets<K>, op: &Op) {
    let i = Sets::<K>::slots(op).0;
    let seed = op[2];
    let ids: Vec<(u64, u64)> = w.s[i].m.iter().map(|(a, b)| (*a, *b)).collect();
    if ids.len() >= 12 {
        w.cx.nontrivial = true;
    }
    let keyed = |k: &K| {
        k.check();
        (k.val(), k.id())
    };
    match op[1] % 3 {
        0 => {
            let t = &w.s[i].t;
            drive(w.cx, sut(|| t.iter()), &ids, &mut |k| keyed(k), How { len: Some(|i| i.len()), cln: Some(|i| i.clone()), dbg: None, exact: true }, seed, "set iter");
        }
        1 => {
            let t = std::mem::replace(&mut w.s[i].t, BTreeSet::new());
            w.s[i].m.clear();
            drive(w.cx, sut(|| t.into_iter()), &ids, &mut |k| keyed(&k), How { len: Some(|i| i.len()), cln: None, dbg: None, exact: true }, seed, "set into_iter");
        }
        _ => {
            let mut r = Rng::new(op[3]);
            let (x, y) = (w.key(r.next() % w.dom), w.key(r.next() % w.dom));
            let (x, y) = (x.min(y), x.max(y));
            let exp: Vec<(u64, u64)> = ids.iter().copied().filter(|e| e.0 >= x && e.0 <= y).collect();
            let t = &w.s[i].t;
            let it = with_bounds::<K, _>(Bound::Included(x), Bound::Included(y), |p, q| sut(|| t.range::<K::Q, _>((p, q))));
            drive(w.cx, it, &exp, &mut |k| keyed(k), How { cln: Some(|i| i.clone()), ..How::plain() }, seed, "set range");
        }
    }
    w.verify(i, "after iteration");
}

fn lawless_set<K: Key>(c: &Case, cx: &mut Cx) {
    let mut w: Sets<K> = Sets::new(cx, c.hv(1));
    let mut r = Rng::new(c.hv(3));
    for op in &c.ops {
        let kd = op[0] % 32;
        if kd >= NSOPS {
            continue;
        }
        let (i, j) = Sets::<K>::slots(op);
        let reps = if kd == SBULKI || kd == SBULKR { op[1].min(200) } else { 1 };
        for x in 0..reps {
            w.cx.steps += 1;
            let key = w.key(mix(op[1] ^ x));
            let n = w.s[i].t.len();
            disarm();
            cb().fuel = 100_000 + 60 * n as u64;
            if r.chance(2, 3) {
                cb().cmp_mode = 1 + (r.next() >> 1);
                w.cx.nontrivial |= n > 0;
                w.cx.hit("operations under inconsistent comparisons");
            }
            let s = &mut w.s;
            let res = sut_catch(|| match kd {
                SINS | SBULKI => drop(s[i].t.try_insert(K::mk(key))),
                SREP => drop(s[i].t.replace(K::mk(key))),
                SREM | SBULKR => drop(K::with_q(key, |q| s[i].t.remove(q))),
                STAKE => drop(K::with_q(key, |q| s[i].t.take(q))),
                SCLEAR => s[i].t.clear(),
                SAPPEND if i != j => {
                    let (a, b) = two(s, i, j);
                    a.t.append(&mut b.t);
                }
                SSPLIT if i != j => {
                    if let Ok(t) = K::with_q(key, |q| s[i].t.try_split_off(q)) {
                        s[j].t = t;
                    }
                }
                SLOOK | SRANGE => {
                    let (a, b) = (&s[i].t, &s[j].t);
                    let mut n = 0;
                    let mut see = |k: &K| {
                        k.check();
                        n += 1;
                        assert!(n < 1_000_000, "endless iteration");
                    };
                    match op[2] % 7 {
                        0 => a.union(b).for_each(&mut see),
                        1 => a.intersection(b).for_each(&mut see),
                        2 => a.difference(b).for_each(&mut see),
                        3 => a.symmetric_difference(b).for_each(&mut see),
                        4 => drop(a.is_subset(b)),
                        5 => drop(a.is_disjoint(b)),
                        _ => drop(a.is_superset(b)),
                    }
                }
                SCLONE if i != j => {
                    let t = match op[2] % 4 {
                        0 => &s[i].t | &s[j].t,
                        1 => &s[i].t & &s[j].t,
                        2 => &s[i].t - &s[j].t,
                        _ => &s[i].t ^ &s[j].t,
                    };
                    s[j].t = t;
                }
                _ => {}
            });
            disarm();
            match res {
                Ok(()) => {}
                Err(Pn::Fuel) => fail!("{}: more comparisons than any terminating operation makes", SNAMES[kd as usize]),
                Err(p) => {
                    if let Pn::Other(m) = &p {
                        no_unchecked(SNAMES[kd as usize], m);
                    }
                    w.leak_ok = true;
                    w.cx.hit("operation panicked under inconsistent comparisons");
                }
            }
            check_errs();
            if reps == 1 || r.chance(1, 16) {
                w.safety(SNAMES[kd as usize]);
            }
        }
    }
    w.safety("end");
    for s in w.s.iter_mut() {
        s.m.clear();
    }
    w.finish(true);
}

fn main() {
    let _ = (XITER, LAST);
    main_with(&[
        &PB { id: "M01", m: M::Point },
        &PB { id: "M02", m: M::Entry },
        &PB { id: "M03", m: M::Iter },
        &PB { id: "M04", m: M::Bulk },
        &PB { id: "M05", m: M::Cmp },
        &PB { id: "M06", m: M::Oom },
        &PB { id: "M07", m: M::Drops },
        &PB { id: "M08", m: M::Panic },
        &PB { id: "M09", m: M::Shape },
    ]);
}
