//! Runs the postconditions of the properties on the real crate (see DESIGN.md: bounded stand-in and replay).
//!
//!   rtcheck run <prop> <seed> <cases> <seconds> <outdir>     driver: 8 worker processes
//!   rtcheck replay <file>                                    re-runs one recorded case
mod alloc;
mod case;
mod exec;
mod pure;
mod world;
use case::*;
use std::collections::HashSet;
use std::io::{Read, Seek, SeekFrom, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};
use world::*;

#[global_allocator]
static ALLOC: alloc::Checked = alloc::Checked::new();

const WORLDS: u64 = 8;
const SHARDS: u64 = 8;
const HANG_S: u64 = 40;

fn live() -> usize {
    ALLOC.live()
}

fn run_case(c: &Case) -> Result<(), String> {
    let r = catch_unwind(AssertUnwindSafe(|| match c.world.as_str() {
        "point1" => exec::run::<P1>(c, &live),
        "point2" => exec::run::<P2>(c, &live),
        "box1" => exec::run::<B1>(c, &live),
        "box2" => exec::run::<B2>(c, &live),
        "box3" => exec::run::<B3>(c, &live),
        "line2" => exec::run::<L2>(c, &live),
        "float2" => exec::run::<F2>(c, &live),
        "loose" => exec::run::<Lo>(c, &live),
        _ => pure::run(c),
    }));
    match r {
        Ok(r) => r,
        Err(e) => {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
            Err(format!("panicked: {}", m.unwrap_or_default()))
        }
    }
}

/// The `n`-th case for a property: pure in (prop, seed, n).
fn nth(prop: &str, seed: u64, n: u64) -> Case {
    if matches!(prop, "C12" | "C13" | "C14") {
        return pure::gen(prop, seed, n);
    }
    // every 4th case is one of an exhaustive enumeration of short histories
    if n % 4 == 3 && !two_trees(prop) {
        let m = n / 4;
        let c = match m % 3 {
            0 => gen_small::<P1>(prop, m / 3),
            1 => gen_small::<B2>(prop, m / 3),
            _ => gen_small::<B1>(prop, m / 3),
        };
        if let Some(c) = c {
            return c;
        }
    }
    let s = seed.wrapping_mul(0x1_0000_0001).wrapping_add(n);
    match s % WORLDS {
        0 => gen::<P1>(prop, s),
        1 => gen::<P2>(prop, s),
        2 => gen::<B1>(prop, s),
        3 => gen::<B2>(prop, s),
        4 => gen::<B3>(prop, s),
        5 => gen::<L2>(prop, s),
        6 => gen::<F2>(prop, s),
        _ => gen::<Lo>(prop, s),
    }
}

/// Removes operations while the case still fails; bounded by time.
fn minimise(c: &Case) -> Case {
    let mut c = c.clone();
    let end = Instant::now() + Duration::from_secs(8);
    let mut size = (c.ops.len() / 2).max(1);
    while !c.ops.is_empty() {
        let mut i = 0;
        let mut any = false;
        while i < c.ops.len() {
            if Instant::now() > end {
                return c;
            }
            let mut d = c.clone();
            d.ops.drain(i..(i + size).min(d.ops.len()));
            if run_case(&d).is_err() {
                c = d;
                any = true;
            } else {
                i += size;
            }
        }
        if size == 1 && !any {
            break;
        }
        if !any {
            size = (size / 2).max(1);
        }
    }
    c
}

fn put(path: &str, text: &str) {
    let _ = std::fs::write(path, text);
}

fn worker(a: &[String]) {
    std::panic::set_hook(Box::new(|_| {}));
    let (prop, seed, shard): (&str, u64, u64) = (&a[0], a[1].parse().unwrap(), a[2].parse().unwrap());
    let (cases, secs): (u64, f64) = (a[3].parse().unwrap(), a[4].parse().unwrap());
    let out = &a[5];
    let mut mark = std::fs::File::create(format!("{}/mark{}", out, shard)).unwrap();
    let end = Instant::now() + Duration::from_secs_f64(secs);
    let mut seen: HashSet<u64> = HashSet::new();
    let (mut evals, mut ops, mut checks, mut biggest) = (0u64, 0u64, 0u64, 0usize);
    let mut n = shard;
    while n < cases && Instant::now() < end {
        let c = nth(prop, seed, n);
        if c.ops.is_empty() && n % 64 != shard % 64 {
            // stateless cases are cheap: mark rarely
        } else {
            let _ = mark.seek(SeekFrom::Start(0));
            let _ = mark.write_all(&n.to_le_bytes());
        }
        if let Err(e) = run_case(&c) {
            put(&format!("{}/case{}", out, shard), &format!("{}# {}\n", c.text(), e));
            put(&format!("{}/fail{}", out, shard), &format!("{}\n", e.lines().next().unwrap_or("")));
            let m = minimise(&c);
            if let Err(e) = run_case(&m) {
                put(&format!("{}/case{}", out, shard), &format!("{}# {}\n", m.text(), e));
                put(&format!("{}/fail{}", out, shard), &format!("{}\n", e.lines().next().unwrap_or("")));
            }
            std::process::exit(3);
        }
        evals += 1;
        let h = c.params.iter().chain(c.ops.iter().flatten()).fold(c.world.len() as u64, |h, x| (h ^ *x as u64).wrapping_mul(0x100_0000_01B3).rotate_left(7));
        if c.ops.iter().filter(|o| o[1] < 3).count() >= 2 || !c.world.find("pure").is_none() {
            seen.insert(h);
        }
        ops += c.ops.iter().filter(|o| o[1] < 3).count() as u64;
        checks += c.ops.iter().filter(|o| o[1] == 3).count() as u64;
        biggest = biggest.max(c.ops.len());
        n += SHARDS;
    }
    let mut f = std::fs::File::create(format!("{}/seen{}", out, shard)).unwrap();
    let mut buf = vec![];
    for h in &seen {
        buf.extend(h.to_le_bytes());
    }
    let _ = f.write_all(&buf);
    put(&format!("{}/stat{}", out, shard), &format!("{} {} {} {}", evals, ops, checks, biggest));
}

fn me() -> Command {
    Command::new(std::env::current_exe().unwrap())
}
fn read_mark(out: &str, shard: u64) -> Option<u64> {
    let mut b = [0u8; 8];
    let mut f = std::fs::File::open(format!("{}/mark{}", out, shard)).ok()?;
    f.read_exact(&mut b).ok()?;
    Some(u64::from_le_bytes(b))
}
/// Runs a case in a process of its own: Some(message) when it fails.
fn outside(path: &str, secs: u64) -> Option<String> {
    let mut p = me().arg("replay").arg(path).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().ok()?;
    let t = Instant::now();
    loop {
        if let Ok(Some(st)) = p.try_wait() {
            if st.success() {
                return None;
            }
            let mut s = String::new();
            let _ = p.stdout.take().unwrap().read_to_string(&mut s);
            let mut e = String::new();
            let _ = p.stderr.take().unwrap().read_to_string(&mut e);
            let l = s.lines().find(|l| l.starts_with("FAILS")).map(|l| l[5..].trim().to_string());
            let l = l.or(e.lines().find(|l| l.starts_with("ALLOCATOR-FAULT")).map(|l| l.to_string()));
            return Some(l.unwrap_or(format!("the process was ended: {}", st)));
        }
        if t.elapsed() > Duration::from_secs(secs) {
            let _ = p.kill();
            let _ = p.wait();
            return Some("does not return".into());
        }
        std::thread::sleep(Duration::from_millis(2));
    }
}
fn minimise_outside(c: &Case, out: &str, secs: u64) -> Case {
    let mut c = c.clone();
    let end = Instant::now() + Duration::from_secs(20);
    let tmp = format!("{}/try", out);
    let mut size = (c.ops.len() / 2).max(1);
    while !c.ops.is_empty() {
        let (mut i, mut any) = (0, false);
        while i < c.ops.len() {
            if Instant::now() > end {
                return c;
            }
            let mut d = c.clone();
            d.ops.drain(i..(i + size).min(d.ops.len()));
            put(&tmp, &d.text());
            if outside(&tmp, secs).is_some() {
                c = d;
                any = true;
            } else {
                i += size;
            }
        }
        if size == 1 && !any {
            break;
        }
        if !any {
            size = (size / 2).max(1);
        }
    }
    c
}

fn driver(a: &[String]) -> i32 {
    let (prop, seed, cases, secs, out) = (&a[0], &a[1], &a[2], &a[3], &a[4]);
    let _ = std::fs::remove_dir_all(out);
    std::fs::create_dir_all(out).unwrap();
    let t0 = Instant::now();
    let mut ws: Vec<_> = (0..SHARDS)
        .map(|i| {
            me().arg("worker").args([prop.as_str(), seed, &i.to_string(), cases, secs, out]).stdout(Stdio::null()).stderr(Stdio::null()).spawn().unwrap()
        })
        .collect();
    let mut last: Vec<(Option<u64>, Instant)> = (0..SHARDS).map(|_| (None, Instant::now())).collect();
    let mut done = vec![false; SHARDS as usize];
    let mut fail: Option<(String, String)> = None; // message, case text
    while done.iter().any(|d| !d) && fail.is_none() {
        for i in 0..SHARDS as usize {
            if done[i] {
                continue;
            }
            if let Ok(Some(st)) = ws[i].try_wait() {
                done[i] = true;
                if st.success() {
                    continue;
                }
                let ct = std::fs::read_to_string(format!("{}/case{}", out, i));
                if let (Some(3), Ok(ct)) = (st.code(), &ct) {
                    let m = std::fs::read_to_string(format!("{}/fail{}", out, i)).unwrap_or_default();
                    fail = Some((m.trim().to_string(), ct.clone()));
                } else if let Some(n) = read_mark(out, i as u64) {
                    let c = nth(prop, seed.parse().unwrap(), n);
                    let p = format!("{}/crash", out);
                    put(&p, &c.text());
                    if let Some(m) = outside(&p, HANG_S) {
                        let d = minimise_outside(&c, out, 5);
                        put(&p, &d.text());
                        let m2 = outside(&p, HANG_S);
                        let (m, c) = match m2 { Some(x) => (x, d), None => (m, c) };
                        fail = Some((m.clone(), format!("{}# {}\n", c.text(), m)));
                    } else {
                        eprintln!("worker {} ended with {} but its case passes alone", i, st);
                    }
                }
                continue;
            }
            let m = read_mark(out, i as u64);
            if m != last[i].0 {
                last[i] = (m, Instant::now());
            } else if last[i].1.elapsed() > Duration::from_secs(HANG_S) && m.is_some() && !matches!(prop.as_str(), "C12" | "C13" | "C14") {
                let _ = ws[i].kill();
                let _ = ws[i].wait();
                done[i] = true;
                if let Ok(ct) = std::fs::read_to_string(format!("{}/case{}", out, i)) {
                    let m = std::fs::read_to_string(format!("{}/fail{}", out, i)).unwrap_or_default();
                    fail = Some((m.trim().to_string(), ct));
                    continue;
                }
                let c = nth(prop, seed.parse().unwrap(), m.unwrap());
                let p = format!("{}/crash", out);
                put(&p, &c.text());
                if let Some(msg) = outside(&p, HANG_S) {
                    let d = minimise_outside(&c, out, 3);
                    put(&p, &d.text());
                    let (msg, c) = match outside(&p, HANG_S) { Some(x) => (x, d), None => (msg, c) };
                    fail = Some((msg.clone(), format!("{}# {}\n", c.text(), msg)));
                }
            }
        }
        std::thread::sleep(Duration::from_millis(5));
    }
    for w in ws.iter_mut() {
        let _ = w.kill();
        let _ = w.wait();
    }
    let mut tot = [0u64; 4];
    let mut seen: HashSet<u64> = HashSet::new();
    for i in 0..SHARDS {
        if let Ok(s) = std::fs::read_to_string(format!("{}/stat{}", out, i)) {
            let v: Vec<u64> = s.split(' ').map(|x| x.parse().unwrap()).collect();
            for j in 0..3 {
                tot[j] += v[j];
            }
            tot[3] = tot[3].max(v[3]);
        }
        if let Ok(b) = std::fs::read(format!("{}/seen{}", out, i)) {
            for c in b.chunks_exact(8) {
                seen.insert(u64::from_le_bytes(c.try_into().unwrap()));
            }
        }
    }
    println!("STATS cases={} distinct={} ops={} checkpoints={} longest={} wall={:.1}", tot[0], seen.len(), tot[1], tot[2], tot[3], t0.elapsed().as_secs_f64());
    for n in [0, 4, 6] {
        println!("SAMPLE {}", nth(prop, seed.parse().unwrap(), n).text().lines().take(5).collect::<Vec<_>>().join("; "));
    }
    if let Some((m, t)) = fail {
        put(&format!("{}/found", out), &t);
        println!("FOUND {}", m);
        return 3;
    }
    0
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a[0].as_str() {
        "worker" => {
            worker(&a[1..]);
            0
        }
        "run" => driver(&a[1..]),
        "replay" => {
            std::panic::set_hook(Box::new(|_| {}));
            let t = std::fs::read_to_string(&a[1]).expect("replay file");
            match Case::parse(&t) {
                None => {
                    println!("no case in this file");
                    2
                }
                Some(c) => match run_case(&c) {
                    Ok(()) => {
                        println!("PASSES property={}", c.prop);
                        0
                    }
                    Err(e) => {
                        println!("FAILS {}", e);
                        3
                    }
                },
            }
        }
        _ => 2,
    };
    std::process::exit(code)
}
