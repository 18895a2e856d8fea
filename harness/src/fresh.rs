//! C17 at the level of single API calls: every request is made as the first call of a process of
//! its own, and the reply is compared with the replies to the same request in other contexts.

use crate::api::*;
use crate::json::parse;
use crate::run::*;
use crate::spec::*;
use crate::trace::*;
use std::fmt::Write as _;
use std::process::{Command, Stdio};
use std::sync::mpsc::channel;

/// Requests of every kind about the given words.
pub fn requests(sp: &Spec, words: &[(u8, u32, usize)], seed: u64) -> Vec<Req> {
    let mut v = Vec::new();
    let mut rng = Rng(seed ^ 0xf00d);
    let mut prints = Vec::new();
    for &(width, w, k) in words {
        v.push(decode_req(width, w, k));
        v.push(opcode_req(width, w, k));
        if k == 1 {
            v.push(convert_req(u64::from(w)));
        }
        let a = sp.reply(width, w, k);
        if a.ok {
            for p in 0..4 {
                v.push(part_req(p, width, w, k, a.op));
            }
            v.push(part_req(rng.below(4), width, w, k, rng.below(OPS.len()) as u16));
            if k == 1 {
                prints.push(a);
            }
        }
    }
    for (n, a) in prints.iter().enumerate() {
        v.push(print_req(*a));
        v.push(debug_req(*a));
        v.push(pretty_req(*a));
        v.push(equal_req("eqins", *a, *a));
        v.push(equal_req("eqins", *a, prints[(n * 7 + 3) % prints.len()]));
    }
    for op in 0..OPS.len() as u16 {
        v.push(name_req(op));
        v.push(debugop_req(op));
        v.push(format_req(op));
    }
    v.push(convert_req(1 << 32));
    v.push(convert_req(1 << 16));
    v
}

/// The reply to each request as the first call of a process.
pub fn replies(run: &Run, v: &[Req]) -> Vec<String> {
    let exe = std::env::current_exe().expect("exe");
    let next = std::sync::atomic::AtomicUsize::new(0);
    let out = std::sync::Mutex::new(vec![String::new(); v.len()]);
    std::thread::scope(|s| {
        for _ in 0..THREADS {
            s.spawn(|| loop {
                let n = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if n >= v.len() {
                    break;
                }
                let o = Command::new(&exe).arg("one").arg(v[n].line()).stdin(Stdio::null()).stderr(Stdio::null()).output().expect("child");
                let text = if o.status.success() { String::from_utf8_lossy(&o.stdout).into_owned() } else { format!("the process ends with {}", o.status) };
                out.lock().unwrap()[n] = text;
            });
        }
    });
    run.add("fresh_processes", v.len() as u64);
    out.into_inner().unwrap()
}

pub fn one(line: &str) {
    print!("{}", call(&Req::of_line(line), None).line());
}

fn differs(l: &mut Local, r: &Req, got: &str, want: &str, when: &dyn Fn() -> String) {
    if got != want {
        l.bad(0, 0, 2, || format!("{}: {got:?} {}, but {want:?} in a fresh process", r.say(), when()));
    }
}

/// Every ordered pair of requests, in processes with one thread.
pub fn pairs_child(path: &str, lo: usize, hi: usize) {
    let text = std::fs::read_to_string(path).expect("requests");
    let v: Vec<(Req, &str)> = text.lines().map(|x| x.split_once('\t').map(|(a, b)| (Req::of_line(a), b)).expect("tab")).collect();
    let mut l = Local::default();
    for x in lo..hi.min(v.len()) {
        for (r, want) in &v {
            call(&v[x].0, None);
            let g = call(r, None).line();
            differs(&mut l, r, &g, want, &|| format!("after {}", v[x].0.say()));
        }
    }
    for f in &l.finds {
        println!("{}", f.what);
    }
    println!("{} {}", l.total, (hi.min(v.len()) - lo) * v.len());
}

fn take(run: &Run, l: Local) {
    let mut a = run.all.lock().unwrap();
    a.total += l.total;
    a.finds.extend(l.finds);
}

pub fn check(run: &Run, dir: &str, v: &[Req], fresh: &[String], deep: usize) {
    let n = v.len();
    let try_all = |name: &'static str, order: &[usize]| {
        let mut l = Local::default();
        for &x in order {
            differs(&mut l, &v[x], &call(&v[x], None).line(), &fresh[x], &|| format!("in order {name:?}"));
        }
        take(run, l);
        run.add("requests_repeated", order.len() as u64);
    };
    let asc: Vec<usize> = (0..n).collect();
    let mut rng = Rng(run.seed ^ 0xace);
    let mut shuffled = asc.clone();
    for round in 0..20 * deep {
        for i in (1..n).rev() {
            shuffled.swap(i, rng.below(i + 1));
        }
        try_all(if round == 0 { "first shuffled" } else { "shuffled" }, &shuffled);
    }
    try_all("ascending", &asc);

    // All pairs, each thread of pairs in its own process.
    let path = format!("{dir}/fresh.txt");
    let text: String = v.iter().zip(fresh).map(|(r, f)| format!("{}\t{f}\n", r.line())).collect();
    std::fs::write(&path, text).expect("fresh.txt");
    let exe = std::env::current_exe().expect("exe");
    let step = n.div_ceil(THREADS * 2);
    let next = std::sync::atomic::AtomicUsize::new(0);
    std::thread::scope(|s| {
        for _ in 0..THREADS {
            s.spawn(|| loop {
                let lo = next.fetch_add(step, std::sync::atomic::Ordering::Relaxed);
                if lo >= n {
                    break;
                }
                let o = Command::new(&exe)
                    .args(["pairs", &path, &lo.to_string(), &(lo + step).to_string()])
                    .stdin(Stdio::null())
                    .output()
                    .expect("child");
                assert!(o.status.success(), "pairs child failed: {}", o.status);
                let text = String::from_utf8_lossy(&o.stdout).into_owned();
                let mut lines: Vec<&str> = text.lines().collect();
                let (bad, count) = lines.pop().and_then(|x| x.split_once(' ')).expect("totals");
                let mut l = Local::default();
                for x in lines {
                    l.bad(0, 0, 2, || x.to_string());
                }
                l.total = bad.parse().expect("number");
                take(run, l);
                run.add("pairs_of_requests", count.parse().expect("number"));
            });
        }
    });

    // Each request repeated, against counters.
    run.each("repetitions", 0, n as u64, |x, l| {
        let (r, want) = (&v[x as usize], &fresh[x as usize]);
        let first = call(r, None);
        differs(l, r, &first.line(), want, &|| "repeated".into());
        for t in 0..5000 * deep {
            let g = call(r, None);
            if g != first {
                differs(l, r, &g.line(), want, &|| format!("at repetition {t}"));
            }
        }
    });

    // One call per thread, on many threads.
    let threads = 2000 * deep;
    for round in 0..threads / 50 {
        let (tx, rx) = channel();
        std::thread::scope(|s| {
            for j in 0..50 {
                let tx = tx.clone();
                let x = (round * 50 + j) * 31 % n;
                s.spawn(move || tx.send((x, call(&v[x], None).line())).expect("send"));
            }
        });
        drop(tx);
        let mut l = Local::default();
        for (x, g) in rx {
            differs(&mut l, &v[x], &g, &fresh[x], &|| "as the first call of a thread".into());
        }
        take(run, l);
    }
    run.add("threads_of_one_call", threads as u64);

    reentrant(run, v, fresh);
    broken(run, v, fresh);
    addresses(run, v);
}

/// Calls made from inside the writer that receives the text of another instruction.
struct Nosy<'a> {
    v: &'a [Req],
    fresh: &'a [String],
    at: usize,
    l: Local,
    text: String,
}
impl std::fmt::Write for Nosy<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        self.text.push_str(s);
        self.at = (self.at * 17 + 5) % self.v.len();
        let x = self.at;
        differs(&mut self.l, &self.v[x], &call(&self.v[x], None).line(), &self.fresh[x], &|| "while another instruction is being printed".into());
        Ok(())
    }
}

/// `{}`, `{:?}` and `{:#?}`.
fn show_in(w: &mut dyn std::fmt::Write, i: &raki::Instruction, form: usize) -> std::fmt::Result {
    match form {
        0 => write!(w, "{i}"),
        1 => write!(w, "{i:?}"),
        _ => write!(w, "{i:#?}"),
    }
}

fn reentrant(run: &Run, v: &[Req], fresh: &[String]) {
    let mut l = Local::default();
    for r in v.iter().filter(|r| r.k == "print") {
        for (at, form) in [(1, 0), (100, 0), (1000, 0), (10, 1), (500, 1), (50, 2)] {
            let mut w = Nosy { v, fresh, at, l: Local::default(), text: String::new() };
            let i = build(&r.ins);
            if std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| show_in(&mut w, &i, form))).is_err() {
                continue;
            }
            let plain = std::panic::catch_unwind(|| {
                let mut t = String::new();
                let _ = show_in(&mut t, &build(&r.ins), form);
                t
            })
            .unwrap_or_default();
            if w.text != plain {
                l.bad(0, 0, 2, || format!("{}: {:?} while other calls are made, else {plain:?}", r.say(), w.text));
            }
            l.total += w.l.total;
            l.finds.append(&mut w.l.finds);
        }
        l.counts[0] += 1;
    }
    take(run, l);
}

/// A writer that fails after some bytes.
pub struct Full(pub usize);
impl std::fmt::Write for Full {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        if s.len() > self.0 {
            return Err(std::fmt::Error);
        }
        self.0 -= s.len();
        Ok(())
    }
}

/// Calls that fail half way - a full writer, an instruction without its operands - leave no mark.
fn broken(run: &Run, v: &[Req], fresh: &[String]) {
    let mut l = Local::default();
    for (n, r) in v.iter().enumerate().filter(|(_, r)| r.k == "print") {
        for room in [0, 3, 7] {
            let _ = std::panic::catch_unwind(|| {
                let i = build(&r.ins);
                for form in 0..3 {
                    let _ = show_in(&mut Full(room * (1 + 4 * form)), &i, form);
                }
                let _ = write!(Full(room / 3), "{}", i.opc);
                let _ = write!(Full(room), "{:?}", i.opc);
            });
        }
        for bad in [
            Rep { rd: NONE, ..r.ins },
            Rep { rs1: NONE, rs2: NONE, ..r.ins },
            Rep { himm: false, imm: 0, ..r.ins },
            Rep { rd: 32, rs1: 99, rs2: 1 << 40, ..r.ins },
            Rep { fmt: (r.ins.fmt + 1) % FMTS.len() as u8, ..r.ins },
        ] {
            let _ = std::panic::catch_unwind(|| build(&bad).to_string());
        }
        for j in 0..8 {
            let x = (n + j * j * 131) % v.len();
            differs(&mut l, &v[x], &call(&v[x], None).line(), &fresh[x], &|| format!("after {} failed half way", r.say()));
        }
    }
    take(run, l);
}

/// The same word at different addresses.
fn addresses(run: &Run, v: &[Req]) {
    use raki::Decode;
    let mut l = Local::default();
    let mut all16 = [0u16; 64];
    let mut all32 = [0u32; 64];
    for r in v.iter().filter(|r| r.k == "decode") {
        let want = rep(&decode(r.width, r.w, r.isa));
        for at in 0..64 {
            let g = if r.width == 16 {
                all16[at] = r.w as u16;
                rep(&all16[at].decode(isa(r.isa)))
            } else {
                all32[at] = r.w;
                rep(&all32[at].decode(isa(r.isa)))
            };
            let boxed = if r.width == 16 { rep(&Box::new(r.w as u16).decode(isa(r.isa))) } else { rep(&Box::new(r.w).decode(isa(r.isa))) };
            if g != want || boxed != want {
                l.bad(r.width, u64::from(r.w), r.isa, || "the reply depends on where the word is stored".into());
            }
        }
    }
    take(run, l);
}

/// Behaviours of Session generated by TLC, with its interleaving of invocations and returns.
pub fn behaviours(run: &Run, dir: &str) {
    let path = format!("{dir}/requests.ndjson");
    let Ok(text) = std::fs::read_to_string(path) else { return };
    let v: Vec<Req> = text.lines().map(|x| Req::of_json(&parse(x))).collect();
    let fresh = replies(run, &v);
    let text = std::fs::read_to_string(format!("{dir}/behaviours.ndjson")).expect("behaviours");
    let (v, fresh) = (&v, &fresh);
    let mut l = Local::default();
    std::thread::scope(|s| {
        let mut ends = Vec::new();
        for _ in 0..3 {
            let (tx, rx) = channel::<usize>();
            let (back, got) = channel();
            s.spawn(move || {
                for n in rx {
                    back.send(call(&v[n], None).line()).expect("send");
                }
            });
            ends.push((tx, got));
        }
        let mut count = 0;
        for (b, line) in text.lines().enumerate() {
            let inner = parse(line);
            let mut at = [None; 3];
            let mut back = |t: usize, n: usize| {
                let g = ends[t].1.recv().expect("reply");
                differs(&mut l, &v[n], &g, &fresh[n], &|| format!("in behaviour {b}"));
            };
            for e in parse(inner.str()).arr() {
                let t = e.get("t").num() as usize - 1;
                if e.get("ev").str() == "inv" {
                    let n = e.get("n").num() as usize - 1;
                    ends[t].0.send(n).expect("send");
                    at[t] = Some(n);
                    count += 1;
                } else {
                    back(t, at[t].take().expect("a pending call"));
                }
            }
            for t in 0..3 {
                if let Some(n) = at[t] {
                    back(t, n);
                }
            }
            run.add("behaviours_of_session", 1);
        }
        run.add("calls_in_behaviours", count);
        drop(ends);
    });
    take(run, l);
}
