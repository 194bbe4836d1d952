//! H01-H04: the fallible hash map as a stateful machine.
use vh::fc::TryHashMap;
use vh::hashes::*;
use vh::kv::*;
use vh::*;

#[derive(Clone, Copy, PartialEq)]
enum M {
    Map,
    Oom,
    Cap,
    Drops,
}
struct PH(&'static str, M);

fn gen_op(r: &mut Rng, m: M, k: u64, dom: u64, maxb: u64) -> Op {
    let i = if r.chance(3, 5) { 0 } else { r.below(3) };
    let w0 = k + 32 * i + 128 * r.below(3);
    let key = r.below(dom);
    match k {
        HBULKI | HBULKR => [w0, 1 + r.size(maxb), r.below(3), r.below(dom)],
        HCHURN => [w0, r.size(maxb.min(200)), r.below(40), r.below(dom)],
        HITER | HINTO => [w0, r.next() >> 8, 0, 0],
        HCAP => [w0, caps(r, m), 0, 0],
        _ => [w0, key, r.below(1 << 20), 0],
    }
}
fn caps(r: &mut Rng, m: M) -> u64 {
    match r.below(if m == M::Oom { 8 } else { 24 }) {
        0 => {
            let x = r.pick(&[u64::MAX, u64::MAX - 1, u64::MAX / 2, u64::MAX / 2 + 1, u64::MAX / 7 * 6, u64::MAX / 8 * 7, 1 << 63, 1 << 62, 1 << 60, (1 << 61) + 1, 1 << 48, 1 << 40]);
            if usize::BITS == 32 { x >> 32 | 1 << 31 } else { x }
        }
        1 => r.pick(&[3, 4, 7, 8, 14, 15, 28, 29, 56, 57, 112, 113, 224, 448, 449, 896, 897, 1792]),
        _ => r.size(1200),
    }
}

impl Prop for PH {
    fn id(&self) -> &'static str {
        self.0
    }
    fn rule(&self) -> &'static str {
        match self.1 {
            M::Map => "a map reached 8 or more entries and keys were overwritten or removed from it then",
            M::Oom => "a memory request of a hash map operation was refused, or an impossible capacity was asked for",
            M::Cap => "a map created with a capacity of 4 or more was filled, or 30 or more keys were inserted one at a time",
            M::Drops => "a refusal, failing clone, partial owning iteration, a panicking drop, or a panicking or inconsistent hash or equality occurred on a map with entries",
        }
    }
    fn gen(&self, r: &mut Rng) -> Case {
        if r.chance(1, 400) {
            let mut ops = vec![[0; 4]; r.range(1, 5) as usize];
            let mut from = r.next() >> 40;
            for o in ops.iter_mut() {
                let top = 1 << r.range(10, 17);
                if r.chance(1, 3) {
                    from = r.next() >> 40;
                }
                *o = [r.weighted(&[3, 3, 2, 2, 1, 1, 2]) as u64, r.range(top / 2, top), r.below(3), from];
            }
            return Case { h: vec![0, 0, 0, 0, 0, 1], ops };
        }
        if self.1 == M::Drops && r.chance(1, 150) {
            return giant::gen(r, giant::Giant::Life, &[2]);
        }
        let (mut dom, mut maxb) = match r.below(12) {
            0 => (r.range(1, 8), 12),
            1..=3 => (r.range(9, 40), 40),
            4..=7 => (r.range(40, 250), 160),
            8..=10 => (r.range(200, 1500), 600),
            _ => (1 << 40, 400),
        };
        let kv = if self.1 == M::Drops { r.pick(&[0, 0, 0, 1, 3, 5, 7, 8, 11, 13]) } else { r.below(NKV) };
        if matches!(kv, 4 | 5 | 8 | 9 | 10) {
            dom = dom.min(500);
            maxb = maxb.min(120);
        }
        //                          ins rem get iter into clone cap new dbg over bi br churn
        let base: Vec<u64> = match self.1 {
            M::Map => vec![14, 10, 12, 3, 1, 1, 1, 0, 1, 6, 4, 3, 2],
            M::Oom => vec![16, 5, 1, 1, 0, 4, 4, 1, 0, 6, 4, 2, 2],
            M::Cap => vec![10, 1, 3, 1, 0, 1, 3, 2, 0, 6, 5, 0, 0],
            M::Drops => vec![12, 8, 2, 1, 4, 4, 1, 1, 0, 6, 3, 2, 2],
        };
        let w = r.swarm(&base, &[0]);
        let mut ops = Vec::new();
        if r.chance(1, 2) {
            ops.push([HBULKI, 1 + r.below(maxb), r.below(3), r.below(dom)]);
        }
        for _ in 0..r.range(3, 50) {
            let k = r.weighted(&w) as u64;
            ops.push(gen_op(r, self.1, k, dom, maxb));
        }
        let mode = if r.chance(2, 3) { 0 } else { r.range(1, 2) };
        let lawless = (self.1 == M::Drops && r.chance(1, 4)) as u64;
        Case { h: vec![kv, dom, r.next() >> 16, mode, lawless], ops }
    }
    fn run(&self, c: &Case, cx: &mut Cx) {
        if giant::is(c) {
            return giant::run(giant::Giant::Life, c, cx);
        }
        if c.hv(5) == 1 {
            return large(self.1, c, cx);
        }
        struct F<'a>(M, &'a Case, &'a mut Cx);
        impl<'a> KvFn for F<'a> {
            fn call<K: Key, V: Elem>(self) {
                cb().hash_mode = self.1.hv(3);
                if self.0 == M::Drops && self.1.hv(4) == 1 {
                    lawless::<K, V>(self.1, self.2)
                } else {
                    run::<K, V>(self.0, self.1, self.2)
                }
                cb().hash_mode = 0;
            }
        }
        with_kv(c.hv(0), F(self.1, c, cx))
    }
    fn desc(&self, c: &Case) -> String {
        if giant::is(c) {
            return giant::desc(c);
        }
        if c.hv(5) == 1 {
            return format!("large hash maps u64->u32: {}", c.ops.iter().map(|o| format!("{} {} pattern {} from {}", LARGE[(o[0] % 7) as usize], o[1], o[2] % 3, o[3])).collect::<Vec<_>>().join("; "));
        }
        let mut s = format!("hash maps {} keys mod {}{}{}: ", kv_name(c.hv(0)), c.hv(1), ["", ", all hashes equal", ", four hash values"][(c.hv(3) % 3) as usize], if c.hv(4) == 1 { ", inconsistent hash or equality" } else { "" });
        for o in &c.ops {
            s += &hop_text(o);
            s += "; ";
        }
        s
    }
}

fn ok(r: Result<bool, Pn>, refused: u64, what: &str) {
    match r {
        Ok(true) => {}
        Ok(false) => ck!(refused > 0, "{} failed although no memory request was refused", what),
        Err(p) => fail!("{}: unexpected panic {:?}", what, p),
    }
}
fn impossible(o: &Op) -> bool {
    o[0] % 32 == HCAP && o[1] >= 1 << 31
}

fn run<K: Key, V: Elem>(m: M, c: &Case, cx: &mut Cx) {
    let mut w: Hashes<K, V> = Hashes::new(cx, c.hv(1));
    let mut r = Rng::new(c.hv(2));
    // requests and distinct keys since the map in this slot was created
    let mut asked = [(0u64, true); HSLOTS];
    for op in &c.ops {
        if op[0] % 32 >= NHOPS {
            continue;
        }
        let bulk = w.expand(op);
        let single = bulk.is_none();
        for o in bulk.unwrap_or_else(|| vec![*op]) {
            let kd = o[0] % 32;
            let (i, j) = Hashes::<K, V>::slots(&o);
            let what = HNAMES[kd as usize];
            let n = w.s[i].m.len();
            w.cx.steps += 1;
            if impossible(&o) {
                let before = live();
                match w.exec(&o) {
                    Ok(true) => fail!("with_capacity({}) succeeded", o[1]),
                    Ok(false) => {}
                    Err(p) => fail!("with_capacity({}): panic {:?}", o[1], p),
                }
                ckeq!(live(), before, "blocks and bytes owned after a refused capacity");
                w.verify(i, "map after a refused capacity");
                if m == M::Oom {
                    w.cx.nontrivial = true;
                }
                w.cx.hit("impossible capacities");
                continue;
            }
            match m {
                M::Map => {
                    if n >= 8 && matches!(kd, HREM | HOVER) {
                        w.cx.nontrivial = true;
                    }
                    let x = w.exec(&o);
                    ok(x, w.refused, what);
                }
                M::Oom => {
                    if matches!(kd, HINS | HOVER | HCLONE | HCAP) && (single || r.chance(1, 10)) {
                        let from = r.chance(1, 3);
                        let mut k = 0;
                        loop {
                            let before = live();
                            w.plan = if from { Plan::From(k) } else { Plan::Once(k) };
                            let res = w.exec(&o);
                            w.plan = Plan::None;
                            match res {
                                Err(p) => fail!("{} with request {} refused: panic {:?}", what, k, p),
                                Ok(true) => {
                                    if w.refused == 0 {
                                        break;
                                    }
                                    // a refusal may be survived only by not needing that memory
                                    w.cx.hit("refusals survived");
                                    break;
                                }
                                Ok(false) => {
                                    ck!(w.refused > 0, "{} failed although no memory request was refused", what);
                                    ckeq!(live(), before, "blocks and bytes owned after a failed {}", what);
                                    w.verify(i, "map after a refused request");
                                    if i != j {
                                        w.verify(j, "other map after a refused request");
                                    }
                                    w.balance("refused request");
                                    w.cx.nontrivial = true;
                                    w.cx.hit("requests refused");
                                    k += 1 + k / 8;
                                    ck!(k < 200_000, "{} keeps requesting memory", what);
                                }
                            }
                        }
                    } else {
                        let x = w.exec(&o);
                        ok(x, w.refused, what);
                    }
                }
                M::Cap => {
                    let room = w.s[i].room;
                    let key = w.key(o[1]);
                    let present = kd == HOVER || kd == HINS && w.s[i].m.contains_key(&key);
                    let x = w.exec(&o);
                    ok(x, w.refused, what);
                    if let (HINS | HOVER, Some(room)) = (kd, room) {
                        if (n as u64) < room {
                            ckeq!(w.reqs, 0, "requests made inserting into a map of {} entries created with capacity {} (key present: {})", n, room, present);
                            if room >= 4 && n as u64 + 1 == room && !present {
                                w.cx.nontrivial = true;
                                w.cx.hit("promised capacity filled up");
                            }
                        }
                    }
                    if matches!(kd, HNEW | HCAP | HINTO) {
                        asked[i] = (0, true);
                        if kd == HCAP {
                            ck!(w.reqs <= 1, "with_capacity made {} requests", w.reqs);
                        }
                    }
                    if kd == HCLONE {
                        let d = if i == j { (j + 1) % HSLOTS } else { j };
                        asked[d] = (0, false);
                    }
                    if matches!(kd, HINS | HOVER) {
                        asked[i].0 += w.reqs;
                        if w.s[i].room.is_none() {
                            asked[i].1 = false;
                        }
                        let n = w.s[i].m.len() as u64;
                        if asked[i].1 {
                            let lim = 2 + (64 - (n + 1).leading_zeros() as u64);
                            ck!(asked[i].0 <= lim, "{} memory requests while inserting {} keys one at a time", asked[i].0, n);
                            if n >= 30 {
                                w.cx.nontrivial = true;
                            }
                        }
                    }
                }
                M::Drops => {
                    if single || r.chance(1, 12) {
                        if r.chance(1, 4) && matches!(kd, HINS | HOVER | HCLONE | HCAP) {
                            w.plan = Plan::Once(r.below(4));
                        } else if r.chance(1, 2) {
                            let mut x = Cb { ..*cb() };
                            x.hashes = 0;
                            x.cmps = 0;
                            x.clones = 0;
                            x.drops = 0;
                            match kd {
                                HINS | HOVER | HREM | HGET => match r.below(4) {
                                    0 => x.cmp_panic = r.below(3),
                                    3 if kd != HGET => x.drop_panic = r.below(2),
                                    1 => x.hash_panic = r.below(n as u64 + 2),
                                    _ => x.hash_panic = r.below(2),
                                },
                                HCLONE => match r.below(4) {
                                    0 => x.clone_fail = r.below(2 * n as u64 + 1),
                                    1 => x.clone_panic = r.below(2 * n as u64 + 1),
                                    2 => x.hash_panic = r.below(n as u64 + 1),
                                    _ => x.cmp_panic = r.below(4),
                                },
                                HINTO => x.drop_panic = r.below(2 * n as u64 + 1),
                                _ => {}
                            }
                            w.cbset = Some(x);
                        }
                    }
                    let res = w.exec(&o);
                    let injected = w.cbset.take().is_some();
                    let planned = w.plan != Plan::None;
                    w.plan = Plan::None;
                    match res {
                        Ok(true) => w.cx.nontrivial |= kd == HINTO && n > 1,
                        Ok(false) => {
                            ck!(w.refused > 0 || injected || planned, "{} failed although nothing was refused", what);
                            w.cx.nontrivial = true;
                            w.cx.hit("refusals and failing clones");
                            w.verify(i, "map after a failure");
                        }
                        Err(Pn::Inj(kind)) => {
                            w.cx.nontrivial |= n > 0;
                            w.cx.hit(match kind {
                                "cmp" => "equality panicked",
                                "hash" => "hash panicked",
                                "drop" => "drop panicked",
                                _ => "clone panicked",
                            });
                            if kind == "drop" {
                                w.leak_ok = true;
                            }
                            w.resync(i, what, true);
                        }
                        Err(p) => fail!("{}: unexpected panic {:?}", what, p),
                    }
                    w.balance(what);
                }
            }
            let n = w.s[i].m.len();
            if n <= 30 && single || single && r.chance(1, 4) {
                w.verify(i, what);
                if i != j {
                    w.verify(j, what);
                }
            }
        }
    }
    for i in 0..HSLOTS {
        w.verify(i, "end");
    }
    w.balance("end");
    w.finish(true);
}

/// inconsistent hash or equality: only safety and the ledger
fn lawless<K: Key, V: Elem>(c: &Case, cx: &mut Cx) {
    let mut w: Hashes<K, V> = Hashes::new(cx, c.hv(1));
    let mut r = Rng::new(c.hv(2));
    let which = c.hv(2) % 3;
    for op in &c.ops {
        let kd = op[0] % 32;
        if kd >= NHOPS {
            continue;
        }
        let (i, j) = Hashes::<K, V>::slots(op);
        let reps = if matches!(kd, HBULKI | HBULKR | HCHURN) { op[1].min(200) } else { 1 };
        for x in 0..reps {
            w.cx.steps += 1;
            disarm();
            let n = w.s[i].t.len();
            if r.chance(3, 4) {
                if which != 0 {
                    cb().hash_mode = 3 + r.next() % 1000;
                }
                if which != 1 {
                    cb().cmp_mode = 1 + (r.next() >> 1);
                }
                w.cx.nontrivial |= n > 0;
                w.cx.hit("operations under inconsistent hash or equality");
            }
            if r.chance(1, 12) {
                cb().hash_panic = r.below(n as u64 + 2);
            }
            cb().fuel = 1_000_000;
            let key = w.key(op[1].wrapping_add(mix(x)));
            let s = &mut w.s;
            let res = sut_catch(|| match kd {
                HINS | HOVER | HBULKI => drop(s[i].t.insert(K::mk(key), V::mk(op[2]))),
                HREM | HBULKR => drop(K::with_q(key, |q| s[i].t.remove(q))),
                HCHURN => {
                    drop(s[i].t.insert(K::mk(key), V::mk(op[2])));
                    drop(K::with_q(key, |q| s[i].t.remove(q)));
                }
                HGET => {
                    if let Some(v) = K::with_q(key, |q| s[i].t.get(q)) {
                        v.check()
                    }
                }
                HITER => {
                    for (k, v) in s[i].t.iter() {
                        k.check();
                        v.check();
                    }
                }
                HINTO => {
                    let t = std::mem::take(&mut s[i].t);
                    for (k, v) in t.into_iter().take((op[1] % 9) as usize) {
                        k.check();
                        v.check();
                    }
                }
                HCLONE => {
                    use vh::fc::TryClone;
                    if let Ok(t) = s[i].t.try_clone() {
                        s[j].t = t;
                    }
                }
                HCAP => {
                    if let Ok(t) = TryHashMap::with_capacity((op[1] % 500) as usize) {
                        s[j].t = t;
                    }
                }
                HNEW => s[i].t = TryHashMap::default(),
                _ => {}
            });
            disarm();
            cb().hash_mode = c.hv(3);
            match res {
                Ok(()) => {}
                Err(Pn::Inj(_)) => w.cx.hit("hash panicked"),
                Err(Pn::Fuel) => fail!("{}: more comparisons than any terminating operation makes", HNAMES[kd as usize]),
                Err(Pn::Other(p)) => fail!("{} under inconsistent hash or equality panicked: {}", HNAMES[kd as usize], p),
            }
            check_errs();
            w.resync(i, HNAMES[kd as usize], false);
            w.resync(j, HNAMES[kd as usize], false);
            let held: usize = w.s.iter().map(|s| s.t.len()).sum();
            let (a, z) = live_elems();
            ckeq!(a + z, (held * (K::TRACK as usize + V::TRACK as usize)) as i64, "tracked elements that exist, against those held by the maps");
        }
    }
    w.finish(true);
}

const LARGE: [&str; 7] = ["create for and fill", "grow from empty", "grow under refusals", "remove", "clone", "consume", "look up and iterate"];

/// maps of tens of thousands of keys
fn large(m: M, c: &Case, cx: &mut Cx) {
    use vh::fc::TryClone;
    type T = TryHashMap<u64, u32>;
    let mut t: T = sut(TryHashMap::default);
    let mut model: std::collections::BTreeMap<u64, u32> = Default::default();
    for o in &c.ops {
        let n = o[1].min(1 << 20);
        let what = LARGE[(o[0] % 7) as usize];
        cx.hit(what);
        cx.steps += n;
        let seed = o[3];
        let key = |x: u64| match o[2] % 3 {
            0 => seed.wrapping_add(x),
            1 => mix(seed.wrapping_add(x)),
            _ => (seed.wrapping_add(x)) << 32,
        };
        let oom = |r: Result<Option<u32>, vh::fc::TryReserveError>| r.ok();
        arm(Plan::None);
        match o[0] % 7 {
            0 => {
                let before = live().1;
                let nt: T = sut(|| TryHashMap::with_capacity(n as usize)).unwrap_or_else(|e| fail!("with_capacity({}) failed: {:?}", n, e));
                ck!(st().cnt <= 1, "with_capacity({}) made {} requests", n, st().cnt);
                ck!(live().1 - before >= 12 * n as i64, "with_capacity({}) of 12-byte entries allocated {} bytes", n, live().1 - before);
                let old = std::mem::replace(&mut t, nt);
                sut(move || drop(old));
                model.clear();
                arm(if m == M::Cap { Plan::All } else { Plan::None });
                for x in 0..n {
                    let k = key(x);
                    let r = oom(sut(|| t.insert(k, x as u32)));
                    ckeq!(r, Some(model.insert(k, x as u32)), "insert number {} into a map created with capacity {}", x, n);
                    if m == M::Cap {
                        ckeq!(st().cnt, 0, "requests at insert number {} into a map created with capacity {}", x, n);
                    }
                }
                arm(Plan::None);
                cx.nontrivial |= n > 1000;
            }
            1 => {
                let l0 = model.len() as u64;
                for x in 0..n {
                    let k = key(x);
                    let r = oom(sut(|| t.insert(k, !x as u32)));
                    ckeq!(r, Some(model.insert(k, !x as u32)), "insert of {} into {} keys", k, model.len());
                }
                let lim = 2 + (64 - (l0 + n + 1).leading_zeros() as u64);
                ck!(m != M::Cap || st().cnt <= lim, "{} memory requests while inserting {} keys one at a time", st().cnt, n);
                cx.nontrivial |= n > 1000;
            }
            2 if m == M::Oom || m == M::Drops => {
                arm(Plan::All);
                let mut full = false;
                for x in 0..n {
                    let k = key(x);
                    match oom(sut(|| t.insert(k, 7))) {
                        Some(r) => {
                            ckeq!(r, model.insert(k, 7), "insert of {}", k);
                        }
                        None => {
                            ck!(st().refused > 0, "insert failed although nothing was refused");
                            ckeq!(t.len(), model.len(), "length after a refused insert");
                            ckeq!(sut(|| t.get(&k)), model.get(&k), "the key of a refused insert");
                            full = true;
                            break;
                        }
                    }
                }
                arm(Plan::None);
                if full {
                    cx.hit("refused at a large size");
                    cx.nontrivial |= model.len() > 1000;
                }
            }
            3 => {
                for x in 0..n {
                    let k = key(x);
                    arm(Plan::All);
                    ckeq!(sut(|| t.remove(&k)), model.remove(&k), "remove of {}", k);
                }
                arm(Plan::None);
            }
            4 => {
                if o[2] % 2 == 0 && matches!(m, M::Oom) {
                    arm(Plan::All);
                    let r = sut(|| t.try_clone().is_ok());
                    ckeq!(r, st().refused == 0, "try_clone of {} keys without memory: success", model.len());
                    arm(Plan::None);
                }
                let nt = sut(|| t.try_clone()).unwrap_or_else(|e| fail!("try_clone of {} keys failed: {:?}", model.len(), e));
                let old = std::mem::replace(&mut t, nt);
                sut(move || drop(old));
            }
            5 => {
                let old = std::mem::take(&mut t);
                let mut left = std::mem::take(&mut model);
                let stop = if o[2] % 2 == 0 { u64::MAX } else { n / 2 };
                let mut it = sut(|| old.into_iter());
                for _ in 0..stop {
                    match it.next() {
                        None => {
                            ck!(left.is_empty(), "consuming iteration ended with {} keys missing", left.len());
                            break;
                        }
                        Some((k, v)) => ckeq!(left.remove(&k), Some(v), "consuming iteration gave key {} (again)", k),
                    }
                }
                sut(move || drop(it));
            }
            _ => {
                let mut seen = 0;
                for (k, v) in sut(|| t.iter()) {
                    ckeq!(model.get(k), Some(v), "iterated key {}", k);
                    seen += 1;
                }
                ckeq!(seen, model.len(), "keys iterated");
                for x in 0..n.min(30_000) {
                    let k = key(x);
                    ckeq!(sut(|| t.get(&k)), model.get(&k), "get of {}", k);
                }
            }
        }
        ckeq!(t.len(), model.len(), "{}: length", what);
        for k in model.keys().take(3000) {
            ckeq!(sut(|| t.get(k)), model.get(k), "{}: get of {}", what, k);
        }
        if model.len() > 20_000 {
            cx.hit("more than 20000 keys");
        }
    }
    for (k, v) in &model {
        ckeq!(sut(|| t.get(k)), Some(v), "end: get of {}", k);
    }
    sut(move || drop(t));
    let (b, by) = live();
    ck!(b == 0, "{} blocks ({} bytes) never returned", b, by);
}

fn main() {
    main_with(&[&PH("H01", M::Map), &PH("H02", M::Oom), &PH("H03", M::Cap), &PH("H04", M::Drops)])
}
