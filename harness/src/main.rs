//! Conformance of the crate with the exported specification.
//!
//! conform sweep DIR PROPERTY OUT     replay TLC's vectors, then judge PROPERTY on every word
//! conform tables DIR OUT             does the exported tree agree with the exported listing everywhere
//! conform trace DIR PROPERTY OUT     record a session for TLC
//! conform streams DIR OUT            record stream walks for TLC
//! conform writers DIR OUT            record printing into limited writers for TLC
//! conform show DIR WIDTH WORD        what the crate and the specification say
//! conform one REQUEST                reply to a single request
//! conform pairs FILE LO HI           all pairs of requests, single-threaded (used by sweep DIR C17)
//! conform pure-child DIR PLAN OUT    digests of replies in another order (used by sweep DIR C17)
//! conform probe WIDTH LO HI          just decode (to locate a crash)

mod api;
mod asm;
mod check;
mod fresh;
mod json;
mod more;
mod pure;
mod run;
mod spec;
mod trace;

use run::Run;
use std::time::Duration;

fn env(k: &str, d: u64) -> u64 {
    std::env::var(k).ok().and_then(|v| v.parse().ok()).unwrap_or(d)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(String::as_str).collect();
    let seed = env("VERIF_SEED", 1);
    let deep = env("DEEP", 1) as usize;
    if std::env::var("LOUD").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    match a[1..] {
        ["tables", dir, out] => {
            // Does the exported tree say exactly what the exported listing says, on every word?
            let sp = spec::Spec::load(dir);
            let run = Run::new(true, seed);
            tables(&sp, &run);
            std::fs::write(out, run::report(&run, &[], &[])).expect("out");
        }
        ["sweep", dir, p, out] => {
            run::watchdog(out.to_string(), Duration::from_secs(30));
            let sp = spec::Spec::load(dir);
            let run = Run::new(matches!(p, "C01" | "C05" | "C09" | "C12" | "C13" | "C15" | "C21" | "C22" | "C23" | "C25"), seed);
            let vs = spec::vectors(dir);
            if let Err(e) = spec::check_vectors(&sp, &vs) {
                eprintln!("{e}");
                std::process::exit(2);
            }
            check::replay(&sp, &run, p, &vs);
            sweep(&sp, &run, dir, p, deep);
            let devs: Vec<String> = sp.devs.iter().map(|d| d.id.clone()).collect();
            std::fs::write(out, run::report(&run, &devs, &[])).expect("out");
        }
        ["trace", dir, p, out] => {
            let sp = spec::Spec::load(dir);
            let log = if p == "C17" { trace::threads(&sp, seed, deep) } else { trace::session(&sp, p, seed, deep) };
            log.write(out);
            println!("{} {}", log.len(), log.episodes);
        }
        ["streams", dir, out] => {
            let sp = spec::Spec::load(dir);
            let log = trace::streams(&sp, seed, 300 * deep);
            log.write(out);
            println!("{} {}", log.len(), log.episodes);
        }
        ["writers", dir, out] => {
            let sp = spec::Spec::load(dir);
            let log = more::writers(&sp, seed, deep);
            log.write(out);
            println!("{} {}", log.len(), log.episodes);
        }
        ["pure-child", dir, plan, out] => {
            let sp = spec::Spec::load(dir);
            pure::child(&sp, seed, deep, plan, out);
        }
        ["one", request] => fresh::one(request),
        ["pairs", path, lo, hi] => fresh::pairs_child(path, lo.parse().expect("lo"), hi.parse().expect("hi")),
        ["show", dir, width, word] => {
            let sp = spec::Spec::load(dir);
            let width: u8 = width.parse().expect("width");
            let w = u64::from_str_radix(word.trim_start_matches("0x"), 16).expect("hex word");
            for k in 0..2 {
                let g = std::panic::catch_unwind(|| {
                    let d = api::decode(width, w as u32, k);
                    (api::rep(&d), d.map(|i| i.to_string()).unwrap_or_default())
                });
                let name = ["Rv32", "Rv64"][k];
                match g {
                    Ok((g, t)) => println!("{name} crate: {} {t:?}", check::show(&g)),
                    Err(_) => println!("{name} crate: panicked"),
                }
                println!("{name} spec:  {}", check::show(&sp.reply(width, w as u32, k)));
            }
        }
        ["probe", width, lo, hi] => {
            let width: u8 = width.parse().expect("width");
            let (lo, hi): (u64, u64) = (lo.parse().expect("lo"), hi.parse().expect("hi"));
            let n = (lo..hi)
                .map(|w| {
                    (0..2)
                        .filter(|&k| {
                            std::panic::catch_unwind(|| match api::decode(width, w as u32, k) {
                                Ok(i) => !i.to_string().is_empty(),
                                Err(_) => false,
                            })
                            .unwrap_or(false)
                        })
                        .count()
                })
                .sum::<usize>();
            println!("{n}");
        }
        _ => {
            eprintln!("bad arguments: {a:?}");
            std::process::exit(2);
        }
    }
}

fn sweep(sp: &spec::Spec, run: &Run, dir: &str, p: &str, deep: usize) {
    match p {
        "C01" => check::accept(sp, run, 32),
        "C02" => check::part(sp, run, 32, |a, g| a.op == g.op),
        "C03" => check::part(sp, run, 32, |a, g| (a.rd, a.rs1, a.rs2) == (g.rd, g.rs1, g.rs2)),
        "C04" => check::part(sp, run, 32, |a, g| (a.himm, a.imm) == (g.himm, g.imm)),
        "C05" => check::accept(sp, run, 16),
        "C06" => check::part(sp, run, 16, |a, g| (a.rd, a.rs1, a.rs2) == (g.rd, g.rs1, g.rs2)),
        "C07" => check::part(sp, run, 16, |a, g| (a.himm, a.imm) == (g.himm, g.imm)),
        "C08" => check::xlen(sp, run),
        "C09" => check::no_panic(sp, run, deep),
        "C10" => check::errors(sp, run, deep),
        "C11" => {
            check::lengths(run);
            trace::stream_sweep(sp, run, 200_000 * deep as u64);
        }
        "C12" => check::convert(sp, run, deep),
        "C13" => check::parts(sp, run, deep),
        "C14" => check::shape(sp, run),
        "C15" => check::print(sp, run, check::Text::Total),
        "C16" => check::print(sp, run, check::Text::Mnemonic),
        "C17" => pure::check(sp, run, dir, deep),
        "C18" => check::lossless(sp, run),
        "C19" => check::print(sp, run, check::Text::Operands),
        "C20" => check::expansion(sp, run),
        "C21" => check::equality(sp, run),
        "C22" => check::built(sp, run, deep),
        "C23" => more::debug(sp, run, deep),
        "C24" => more::ranges(sp, run),
        "C25" => more::room(sp, run, deep),
        "C26" => asm::check(sp, run, deep),
        _ => {
            eprintln!("no property {p}");
            std::process::exit(2);
        }
    }
}

fn tables(sp: &spec::Spec, run: &Run) {
    use spec::Leaf;
    for width in [32u8, 16] {
        // Rows by the bits every one of them fixes.
        let n = if width == 32 { 1u64 << 32 } else { 1 << 16 };
        let key = |w: u32| if width == 32 { ((w >> 12 & 7) << 7 | w & 127) as usize } else { (w >> 13 << 2 | w & 3) as usize };
        let mut by: Vec<Vec<&spec::Row>> = vec![Vec::new(); 1024];
        for (c, slot) in by.iter_mut().enumerate() {
            let (m, v) = if width == 32 {
                (0x707f, ((c as u32 >> 7) << 12) | (c as u32 & 127))
            } else {
                (0xe003, ((c as u32 >> 2 & 7) << 13) | (c as u32 & 3))
            };
            slot.extend(sp.rows.iter().filter(|r| r.width == width && (r.v ^ v) & r.m & m == 0));
        }
        run.each(if width == 32 { "words32" } else { "words16" }, width, n, |w, l| {
            let w = w as u32;
            for k in 0..2 {
                let mut hit = by[key(w)].iter().filter(|r| r.claims(w, k));
                let row = hit.next();
                let two = hit.next().is_some();
                let leaf = match sp.leaf(width, w, k) {
                    Leaf::Dev(d) => sp.devs[d as usize].ideal,
                    x => x,
                };
                let good = !two
                    && match (row, leaf) {
                        (None, Leaf::Err(_)) => true,
                        (Some(r), Leaf::Op(o)) => r.id == api::op_name(o),
                        (Some(_), Leaf::Absent) => true,
                        _ => false,
                    };
                l.counts[0] += u64::from(row.is_some());
                if !good {
                    l.bad(width, u64::from(w), k, || format!("listing {:?}, tree {leaf:?}", row.map(|r| &r.id)));
                }
            }
        });
    }
}
