use crate::*;
use fc::TryHashMap;

pub struct Map<K: El, V: El> {
    t: TryHashMap<K, V>,
    m: Ref<u64, u64>,
}
fn near(m: &Ref<u64, u64>, x: u64) -> u64 {
    if m.is_empty() || x % 5 == 0 {
        return x;
    }
    match m.range(mix(x)..).next() {
        Some(e) => *e.0,
        None => *m.keys().next().unwrap(),
    }
}
impl<K: El, V: El> Map<K, V> {
    fn sorted(&self) -> Vec<(u64, u64)> {
        let mut v: Vec<(u64, u64)> = self.t.iter().map(|(k, v)| (k.val(), v.val())).collect();
        v.sort();
        v
    }
}
impl<K: El, V: El> Con for Map<K, V> {
    type V = V;
    fn name() -> String {
        format!("hash maps {}->{}", K::NAME, V::NAME)
    }
    fn new() -> Self {
        Map { t: TryHashMap::default(), m: Ref::new() }
    }
    fn len(&self) -> usize {
        self.m.len()
    }
    fn read(&self, _o: &Self, op: &Op) {
        match op[0] % 8 {
            0..=3 => {
                for x in 0..6 {
                    let k = near(&self.m, mix(op[1] ^ x));
                    tckeq!(self.t.get(&K::mk(k)).map(|v| v.val()), self.m.get(&k).copied(), "look-up of {} by several threads", k);
                }
                tckeq!(self.t.len(), self.m.len(), "length");
            }
            4 | 5 => self.whole("read by several threads"),
            _ => {
                let (r, refused) = refusing(op[2] % 12, || self.t.try_clone());
                tckeq!(r.is_err(), refused, "failure of a clone while others read");
                if let Ok(t) = r {
                    let mut c = Map { t, m: self.m.clone() };
                    let mut e = Self::new();
                    c.whole("of a clone made while others read");
                    for x in 0..op[3] % 20 {
                        c.change(&mut e, &[mix(op[3] ^ x) % 8, near(&c.m, mix(op[1] ^ x)), 2 * x, op[3]]);
                    }
                    c.whole("of a clone changed while others read the original");
                }
            }
        }
    }
    fn change(&mut self, o: &mut Self, op: &Op) {
        let f = if op[2] % 2 == 0 { 0 } else { op[2] / 2 % 4 };
        let (t, m) = (&mut self.t, &mut self.m);
        match op[0] % 8 {
            0..=3 => {
                let k = if op[0] % 8 == 0 { op[1] } else { near(m, op[1]) };
                let (key, v) = (K::mk(k), V::mk(op[2]));
                let (r, refused) = refusing(f, || t.insert(key, v).map(|x| x.map(|x| x.val())));
                match r {
                    Ok(x) => {
                        tck!(!refused, "an insertion succeeded without memory");
                        tckeq!(x, m.insert(k, op[2]), "replaced");
                    }
                    Err(_) => tck!(refused, "an insertion failed though nothing was refused in its thread"),
                }
            }
            4..=6 => {
                let k = near(m, op[1]);
                tckeq!(t.remove(&K::mk(k)).map(|x| x.val()), m.remove(&k), "removed");
            }
            _ => {
                std::mem::swap(t, &mut o.t);
                std::mem::swap(m, &mut o.m);
            }
        }
        tckeq!(self.t.len(), self.m.len(), "length after a change");
    }
    const LENDS: bool = false;
    fn cells(&mut self, _how: u64) -> Vec<&mut V> {
        Vec::new()
    }
    fn rewrote(&mut self, _f: &dyn Fn(usize, u64) -> u64) {}
    fn travel(&mut self, _o: &mut Self, op: &Op) {
        match op[0] % 4 {
            0 => {
                let mut it = std::mem::replace(&mut self.t, TryHashMap::default()).into_iter();
                let m = std::mem::take(&mut self.m);
                let mut seen = Vec::new();
                for _ in 0..op[1] as usize % (m.len() + 1) {
                    seen.extend(it.next().map(|(k, v)| (k.val(), v.val())));
                }
                seen.extend(elsewhere(it, |it| it.map(|(k, v)| (k.val(), v.val())).collect::<Vec<_>>()));
                seen.sort();
                tckeq!(seen, m.into_iter().collect::<Vec<_>>(), "consumed by two threads");
            }
            1 => {
                let mut it = self.t.iter();
                let mut seen = Vec::new();
                for _ in 0..op[1] as usize % (self.m.len() + 1) {
                    seen.extend(it.next().map(|(k, v)| (k.val(), v.val())));
                }
                seen.extend(elsewhere(it, |it| it.map(|(k, v)| (k.val(), v.val())).collect::<Vec<_>>()));
                seen.sort();
                tckeq!(seen, self.m.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "iterated by two threads");
            }
            2 => {
                let t = std::mem::replace(&mut self.t, TryHashMap::default());
                let (k, w) = (op[1], op[2]);
                self.t = elsewhere(t, |mut t| {
                    tck!(t.insert(K::mk(k), V::mk(w)).is_ok(), "insert failed");
                    t
                });
                self.m.insert(k, w);
            }
            _ => {
                let c = self.t.try_clone().unwrap_or_else(|e| tf!("try_clone failed: {:?}", e));
                let m = self.m.clone();
                elsewhere(Map { t: c, m }, |c| c.whole("of a clone in another thread"));
            }
        }
    }
    fn whole(&self, what: &str) {
        tckeq!(self.t.len(), self.m.len(), "length {}", what);
        tckeq!(self.sorted(), self.m.iter().map(|(k, v)| (*k, *v)).collect::<Vec<_>>(), "contents {}", what);
    }
}
