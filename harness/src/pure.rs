//! C17: the same call gives the same reply in every context.

use crate::api::*;
use crate::check::{all16, pool32, Buf};
use crate::fresh;
use crate::run::*;
use crate::spec::*;
use std::fmt::Write as _;

#[derive(Clone, Copy)]
pub struct Item {
    pub width: u8,
    pub w: u32,
    pub k: usize,
}

fn mix(h: u64, x: u64) -> u64 {
    (h ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15).rotate_left(23)
}

pub fn digest(r: &Rep) -> u64 {
    let mut h = 1;
    for x in [
        u64::from(r.ok),
        u64::from(r.err),
        u64::from(r.op),
        r.rd as u64,
        r.rs1 as u64,
        r.rs2 as u64,
        u64::from(r.himm),
        r.imm as u64,
        u64::from(r.fmt),
        u64::from(r.compressed),
    ] {
        h = mix(h, x);
    }
    h
}

pub const KINDS: usize = 4;
/// What the API says about one word: decode, the parsers, the texts, the conversion. Kinds not in
/// `mask` are not called. 1 for a panic.
fn observe(i: Item, mask: u8) -> [u64; KINDS] {
    let mut all = [0; KINDS];
    for (kind, h) in all.iter_mut().enumerate() {
        if mask >> kind & 1 == 1 {
            *h = std::panic::catch_unwind(|| observe_kind(i, kind)).unwrap_or(1);
        }
    }
    all
}

fn observe_kind(i: Item, kind: usize) -> u64 {
    match kind {
        0 => digest(&rep(&decode(i.width, i.w, i.k))),
        1 => match parse_opcode(i.width, i.w, i.k) {
            Err(e) => u64::from(err_index(&e)),
            Ok(o) => {
                let mut h = u64::from(op_index(&o));
                for p in 0..4 {
                    h = mix(h, match parse_part(p, i.width, i.w, i.k, &o) {
                        Err(e) => 1000 + u64::from(err_index(&e)),
                        Ok(None) => 2000,
                        Ok(Some(v)) => v as u64,
                    });
                }
                mix(h, u64::from(fmt_index(&o.get_format())))
            }
        },
        2 => {
            let mut h = 3;
            if let Ok(ins) = decode(i.width, i.w, i.k) {
                let mut b = Buf::new();
                let _ = write!(b, "{ins} {} {ins:?}", ins.opc);
                for c in b.text() {
                    h = mix(h, u64::from(*c));
                }
            }
            h
        }
        _ if i.k == 1 => digest(&rep(&raki::Instruction::try_from(i.w as usize))),
        _ => 4,
    }
}

fn items(sp: &Spec, seed: u64, deep: usize) -> Vec<Item> {
    let mut v = Vec::new();
    for k in 0..2 {
        v.extend(all16().into_iter().map(|w| Item { width: 16, w, k }));
        v.extend(pool32(sp, seed, 200 * deep, 100_000 * deep).into_iter().map(|w| Item { width: 32, w, k }));
    }
    v
}

/// One word per listing row and per refusal, both ISAs.
fn few(sp: &Spec, seed: u64) -> Vec<Item> {
    let mut rng = Rng(seed ^ 5);
    let mut v = Vec::new();
    for r in &sp.rows {
        let w = r.v | (rng.next() as u32 & !r.m);
        let w = if r.width == 16 { w & 0xffff } else { w };
        v.extend((0..2).map(|k| Item { width: r.width, w, k }));
    }
    for w in [0u32, u32::MAX, 0x7f, 0x1073, 0x33 | 2 << 25, 0x6f | 1 << 12] {
        v.extend((0..2).map(|k| Item { width: 32, w, k }));
    }
    for w in [0u32, 0xffff, 4, 0x8002, 0x9c41] {
        v.extend((0..2).map(|k| Item { width: 16, w, k }));
    }
    v
}

/// Orders and selections of the items, each run in a process of its own.
pub const PLANS: [&str; 14] = [
    "down all", "up decode", "down decode", "down parsers", "down texts", "up convert", "down convert", "shuffle all", "refused-first all",
    "accepted-first all", "rv32 all", "rv64 all", "short all", "long all",
];

fn planned(sp: &Spec, v: &[Item], plan: &str, seed: u64) -> (Vec<u32>, u8) {
    let (order, kinds) = plan.split_once(' ').expect("plan");
    let mut o: Vec<u32> = (0..v.len() as u32).collect();
    let ok = |n: &u32| {
        let i = v[*n as usize];
        sp.reply(i.width, i.w, i.k).ok
    };
    match order {
        "up" => {}
        "down" => o.reverse(),
        "shuffle" => shuffle(&mut o, seed ^ 0x5eed),
        "refused-first" => o.sort_by_key(ok),
        "accepted-first" => o.sort_by_key(|n| !ok(n)),
        "rv32" => o.retain(|n| v[*n as usize].k == 0),
        "rv64" => o.retain(|n| v[*n as usize].k == 1),
        "short" => o.retain(|n| v[*n as usize].width == 16),
        "long" => o.retain(|n| v[*n as usize].width == 32),
        _ => panic!("no order {order}"),
    }
    let mask = match kinds {
        "decode" => 1,
        "parsers" => 2,
        "texts" => 4,
        "convert" => 8,
        _ => 15,
    };
    (o, mask)
}

fn shuffle(o: &mut [u32], seed: u64) {
    let mut rng = Rng(seed);
    for i in (1..o.len()).rev() {
        o.swap(i, rng.below(i + 1));
    }
}

/// Runs a plan and writes the digests in the order of the plan.
pub fn child(sp: &Spec, seed: u64, deep: usize, plan: &str, out: &str) {
    let v = items(sp, seed, deep);
    let (order, mask) = planned(sp, &v, plan, seed);
    let mut bytes = Vec::new();
    for n in order {
        for h in observe(v[n as usize], mask) {
            bytes.extend_from_slice(&h.to_le_bytes());
        }
    }
    std::fs::write(out, bytes).expect("digests");
}

pub fn check(sp: &Spec, run: &Run, dir: &str, deep: usize) {
    let words: Vec<(u8, u32, usize)> = few(sp, run.seed).iter().map(|i| (i.width, i.w, i.k)).collect();
    let requests = fresh::requests(sp, &words, run.seed);
    let firsts = fresh::replies(run, &requests);
    fresh::behaviours(run, dir);
    fresh::check(run, dir, &requests, &firsts, deep);

    let v = items(sp, run.seed, deep);
    let reference: Vec<[u64; KINDS]> = v.iter().map(|i| observe(*i, 15)).collect();
    run.add("reference_calls", v.len() as u64);
    let compare = |name: &str, order: &[u32]| {
        let mut l = Local::default();
        for &n in order {
            let i = v[n as usize];
            if observe(i, 15) != reference[n as usize] {
                l.bad(i.width, u64::from(i.w), i.k, || format!("{name}: the replies differ from the first ones"));
            }
        }
        let mut a = run.all.lock().unwrap();
        a.total += l.total;
        a.finds.extend(l.finds);
        drop(a);
        run.add("reordered_calls", order.len() as u64);
    };
    let n = v.len() as u32;
    let asc: Vec<u32> = (0..n).collect();
    let desc: Vec<u32> = (0..n).rev().collect();
    let mut shuffled = asc.clone();
    shuffle(&mut shuffled, run.seed ^ 99);
    // Both ISAs of a word back to back, and each item twice in a row.
    let half = n / 2;
    let zip: Vec<u32> = (0..half).flat_map(|i| [i, i + half, i]).collect();
    compare("descending", &desc);
    compare("shuffled", &shuffled);
    compare("ISAs interleaved", &zip);
    std::thread::scope(|s| {
        for t in 0..THREADS as u32 {
            let (shuffled, compare) = (&shuffled, &compare);
            s.spawn(move || {
                let mut mine = shuffled.clone();
                mine.rotate_left((t as usize * shuffled.len()) / THREADS);
                if t % 2 == 1 {
                    mine.reverse();
                }
                compare("threads", &mine);
            });
        }
    });

    // All ordered pairs and triples of a few calls.
    let f = few(sp, run.seed);
    let fr: Vec<[u64; KINDS]> = f.iter().map(|i| observe(*i, 15)).collect();
    let m = f.len() as u64;
    let say = |a: Item| format!("{:#x}/{} on {}", a.w, a.width, ["Rv32", "Rv64"][a.k]);
    run.each("pairs", 0, m, |x, l| {
        for y in 0..f.len() {
            observe(f[x as usize], 15);
            if observe(f[y], 15) != fr[y] {
                l.bad(f[y].width, u64::from(f[y].w), f[y].k, || format!("after {} the replies differ", say(f[x as usize])));
            }
            l.counts[0] += 1;
        }
    });
    let small: Vec<usize> = (0..f.len()).step_by(if deep > 1 { 1 } else { 3 }).collect();
    run.each("triples", 0, small.len() as u64, |x, l| {
        for &y in &small {
            for &z in &small {
                let (a, b, c) = (f[small[x as usize]], f[y], f[z]);
                let _ = std::panic::catch_unwind(|| {
                    std::hint::black_box(rep(&decode(a.width, a.w, a.k)));
                    std::hint::black_box(rep(&decode(b.width, b.w, b.k)));
                });
                if observe(c, 15) != fr[z] {
                    l.bad(c.width, u64::from(c.w), c.k, || format!("after {} and {} the replies differ", say(a), say(b)));
                }
                l.counts[1] += 1;
            }
        }
    });

    // Every word, decoded again after itself and after the other ISA.
    run.each("repeated_words", 32, 1 << 32, |w, l| {
        let w = w as u32;
        let a = [decode(32, w, 0), decode(32, w, 1)];
        for k in 0..2 {
            if decode(32, w, k) != a[k] {
                l.bad(32, u64::from(w), k, || "decoding it again gives something else".into());
            }
        }
        l.counts[2] += 1;
    });
    // After billions of calls, on all threads.
    compare("at the end", &asc);

    // Other processes, other orders and selections of the calls.
    let dir = std::fs::canonicalize(dir).expect("dir");
    let exe = std::env::current_exe().expect("exe");
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..THREADS {
            s.spawn(|| loop {
                let n = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                let Some(plan) = PLANS.get(n) else { break };
                let out = dir.join(format!("digests{n}"));
                let status = std::process::Command::new(&exe)
                    .args(["pure-child".as_ref(), dir.as_os_str(), plan.as_ref(), out.as_os_str()])
                    .env("DEEP", deep.to_string())
                    .env("RAKI_TEST", "1")
                    .env("LANG", "C")
                    .current_dir("/")
                    .status()
                    .expect("child");
                assert!(status.success(), "child process failed: {status}");
                let bytes = std::fs::read(&out).expect("digests");
                let _ = std::fs::remove_file(&out);
                let theirs: Vec<u64> = bytes.chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
                let (order, mask) = planned(sp, &v, plan, run.seed);
                let mut l = Local::default();
                for (at, &n) in order.iter().enumerate() {
                    for kind in (0..KINDS).filter(|k| mask >> k & 1 == 1) {
                        if theirs[at * KINDS + kind] != reference[n as usize][kind] {
                            let i = v[n as usize];
                            let what = ["decoding", "parsing", "printing", "converting"][kind];
                            l.bad(i.width, u64::from(i.w), i.k, || format!("{what} it in another process (plan {plan:?}, call {at}) gives another reply"));
                        }
                    }
                }
                let mut a = run.all.lock().unwrap();
                a.total += l.total;
                a.finds.extend(l.finds);
                drop(a);
                run.add("calls_in_other_processes", order.len() as u64);
            });
        }
    });
}
