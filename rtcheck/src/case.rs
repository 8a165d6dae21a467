//! A case is a plain list of numbers: deterministic, printable, reducible.
use crate::world::*;

#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        let mut r = Rng(seed ^ 0x9E37_79B9_7F4A_7C15);
        r.next();
        r.next();
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.next() % n }
    }
    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) < num
    }
}

#[derive(Clone)]
pub struct Case {
    pub prop: String,
    pub world: String,
    /// min/max children of tree 0, of tree 1, query seed
    pub params: Vec<i64>,
    /// [tree, code, six coordinates] with code 0 insert, 1 insert_unique, 2 remove, 3 checkpoint(seed)
    pub ops: Vec<Vec<i64>>,
}
impl Case {
    pub fn text(&self) -> String {
        let mut s = format!("property {}\nworld {}\nparams", self.prop, self.world);
        for p in &self.params {
            s += &format!(" {}", p);
        }
        s += "\n";
        for o in &self.ops {
            let name = match o[1] {
                0 => "insert",
                1 => "insert_unique",
                2 => "remove",
                _ => "check",
            };
            s += &format!("op t{} {}", o[0], name);
            for x in &o[2..] {
                s += &format!(" {}", x);
            }
            s += "\n";
        }
        s
    }
    pub fn parse(t: &str) -> Option<Case> {
        let mut c = Case { prop: String::new(), world: String::new(), params: vec![], ops: vec![] };
        for l in t.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            match w.first().copied() {
                Some("property") => c.prop = w[1].into(),
                Some("world") => c.world = w[1].into(),
                Some("params") => c.params = w[1..].iter().map(|x| x.parse().unwrap()).collect(),
                Some("op") => {
                    let code = match w[2] {
                        "insert" => 0,
                        "insert_unique" => 1,
                        "remove" => 2,
                        _ => 3,
                    };
                    let mut o = vec![w[1][1..].parse().ok()?, code];
                    o.extend(w[3..].iter().map(|x| x.parse::<i64>().unwrap()));
                    c.ops.push(o);
                }
                _ => {}
            }
        }
        if c.prop.is_empty() { None } else { Some(c) }
    }
}

pub const CONFIGS: [(i64, i64); 14] = [
    (1, 2), (1, 3), (2, 4), (2, 5), (3, 6), (1, 4), (2, 6), (3, 7), (4, 8), (4, 9), (5, 16), (4, 32), (1, 8), (2, 4),
];

/// How coordinates are drawn.
struct Dist {
    mode: u64,
    span: i64,
    ext: i64,
    step: i64,
}
impl Dist {
    fn pick(r: &mut Rng, world_free: bool) -> Dist {
        let spans = [1, 2, 3, 5, 9, 20, 60, 200, 1000, 900_000_000];
        let span = spans[r.below(spans.len() as u64) as usize];
        let ext = [0, 1, 2, 5, 30, 100_000_000][r.below(6) as usize];
        Dist { mode: r.below(6) + if world_free { 0 } else { 0 }, span, ext: if span < 1000 { ext.min(200) } else { ext }, step: 0 }
    }
    fn coord<W: World>(&mut self, r: &mut Rng) -> Raw {
        let mut c = [0i64; 6];
        self.step += 1;
        for d in 0..W::DIM {
            let a = match self.mode {
                0 | 1 => r.range(-self.span, self.span),
                2 => self.step % (2 * self.span + 1) - self.span,
                3 => self.span - self.step % (2 * self.span + 1),
                4 => (r.range(0, 3) - 2) * (self.span / 2 + 1) + r.range(0, (self.span / 50).max(1)),
                _ => if d == 0 { r.range(-self.span, self.span) } else { 0 },
            };
            let e = if r.chance(1, 3) { 0 } else { r.range(0, self.ext) };
            c[d] = a;
            c[3 + d] = if !W::EXTENT { 0 } else if W::FREE && r.chance(1, 2) { a - e } else { a + e };
        }
        c
    }
}

fn gen_tree_ops<W: World>(r: &mut Rng, tree: i64, len: usize, ops: &mut Vec<Vec<i64>>, checks: bool) {
    let mut d = Dist::pick(r, W::FREE);
    let mut present: Vec<Raw> = vec![];
    let grow = r.below(4); // 0 balanced, 1 grow then shrink, 2 mostly grow, 3 waves
    let uniq = r.below(4);
    let dup = [0, 0, 1, 3][r.below(4) as usize];
    let every = [1usize, 3, 10, 40][r.below(4) as usize].max(len / if len > 900 { 6 } else { 40 }).max(1);
    for i in 0..len {
        let p_ins = match grow {
            0 => 50,
            1 => if i < len / 2 { 90 } else { 10 },
            2 => 85,
            _ => if (i / 17) % 2 == 0 { 90 } else { 15 },
        };
        let mut o;
        let insert = present.is_empty() || r.below(100) < p_ins;
        if insert {
            let c = if dup > 0 && !present.is_empty() && r.below(4) < dup {
                present[r.below(present.len() as u64) as usize]
            } else {
                d.coord::<W>(r)
            };
            let code = if uniq == 3 || (uniq > 0 && r.chance(1, 3)) { 1 } else { 0 };
            o = vec![tree, code];
            o.extend(c);
            if code == 0 || !present.contains(&c) {
                present.push(c);
            }
        } else {
            let c = if r.chance(1, 12) {
                d.coord::<W>(r)
            } else {
                let i = match r.below(3) {
                    0 => 0,
                    1 => present.len() - 1,
                    _ => r.below(present.len() as u64) as usize,
                };
                present[i]
            };
            o = vec![tree, 2];
            o.extend(c);
            if let Some(i) = present.iter().position(|x| *x == c) {
                present.remove(i);
            }
        }
        ops.push(o);
        if checks && (i % every == every - 1 || i + 1 == len) {
            ops.push(vec![tree, 3, (r.next() >> 16) as i64]);
        }
    }
}

pub fn two_trees(prop: &str) -> bool {
    matches!(prop, "C06" | "C07" | "C15" | "C17")
}

pub fn gen<W: World>(prop: &str, seed: u64) -> Case {
    let r = &mut Rng::new(seed);
    let cfg = |r: &mut Rng| {
        let c = CONFIGS[if r.chance(2, 3) { r.below(6) } else { r.below(14) } as usize];
        [c.0, c.1]
    };
    let (mut a, mut b) = (cfg(r), cfg(r));
    // now and then nodes with many children, or a tall tree
    let big = r.chance(1, 40);
    let tall = !big && r.chance(1, 150);
    if big {
        let wide = [[1, 64], [20, 64], [8, 256], [100, 255], [128, 257], [50, 300]];
        a = wide[r.below(6) as usize];
        if r.chance(1, 2) {
            b = wide[r.below(6) as usize];
        }
    }
    if tall {
        a = [[1, 2], [1, 3], [2, 4]][r.below(3) as usize];
    }
    let mut c = Case {
        prop: prop.into(),
        world: W::NAME.into(),
        params: vec![a[0], a[1], b[0], b[1], (r.next() >> 16) as i64],
        ops: vec![],
    };
    let len = |r: &mut Rng| match r.below(20) {
        0 => 0,
        1 => r.range(1, 3) as usize,
        2..=9 => r.range(2, 30) as usize,
        10..=15 => r.range(20, 90) as usize,
        16..=18 => r.range(80, 260) as usize,
        _ => r.range(250, 700) as usize,
    };
    if two_trees(prop) {
        let (mut l0, mut l1) = (len(r), len(r));
        l0 = l0.min(260);
        l1 = l1.min(260);
        if big {
            l0 = r.range(200, 600) as usize;
        }
        if tall {
            l0 = r.range(700, 2000) as usize;
            l1 = l1.min(60);
            if r.chance(1, 2) {
                (l0, l1) = (l1, l0);
                (a, b) = (b, a);
                c.params = vec![a[0], a[1], b[0], b[1], c.params[4]];
            }
        }
        let mut o1 = vec![];
        gen_tree_ops::<W>(r, 0, l0, &mut c.ops, false);
        gen_tree_ops::<W>(r, 1, l1, &mut o1, false);
        c.ops.extend(o1);
        for _ in 0..r.range(1, 3) {
            c.ops.push(vec![0, 3, (r.next() >> 16) as i64]);
        }
    } else {
        let l = if big { r.range(250, 900) as usize } else if tall { r.range(1000, 4000) as usize } else { len(r) };
        gen_tree_ops::<W>(r, 0, l, &mut c.ops, true);
        if l == 0 {
            c.ops.push(vec![0, 3, (r.next() >> 16) as i64]);
        }
    }
    c
}

/// The `n`-th case of an exhaustive enumeration of short histories on few distinct points.
pub fn gen_small<W: World>(prop: &str, n: u64) -> Option<Case> {
    // configurations x sequences over {insert, insert_unique, remove} x 4 keys, lengths increasing
    let cfgs = [(1, 2), (2, 4), (1, 3)];
    let keys: u64 = 3;
    let alpha = 3 * keys;
    let c = cfgs[(n % 3) as usize];
    let mut m = n / 3;
    let mut len = 1u32;
    loop {
        let cnt = alpha.pow(len);
        if m < cnt {
            break;
        }
        m -= cnt;
        len += 1;
        if len > 7 {
            return None;
        }
    }
    let mut ops = vec![];
    for _ in 0..len {
        let o = m % alpha;
        m /= alpha;
        let k = (o % keys) as i64;
        let mut v = vec![0, (o / keys) as i64];
        let mut raw = [0i64; 6];
        for d in 0..W::DIM {
            raw[d] = k;
            raw[3 + d] = if W::EXTENT { k + (k % 2) } else { 0 };
        }
        v.extend(raw);
        ops.push(v);
    }
    ops.push(vec![0, 3, n as i64]);
    Some(Case { prop: prop.into(), world: W::NAME.into(), params: vec![c.0, c.1, 2, 4, 1], ops })
}
