//! Command line shared by the binaries.

use crate::gen::Gen;
use crate::runner::*;
use std::collections::HashSet;

fn usage() -> ! {
    eprintln!("usage: run ID [--seed N] [--salt N] [--cases N] [--scale PERCENT] [--thorough] [--threads N] [--no-enums] [--hashes FILE] [--out FILE] | tape ID INDEX [same options] | replay ID TAPE-NUMBERS... | list");
    std::process::exit(2)
}

pub fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    #[cfg(feature = "cfg_rand")]
    if args.len() == 2 && args[0] == "fresh" {
        crate::p_rand::fresh_main(args[1].parse().unwrap_or(128));
        return;
    }
    install_hooks();
    crate::model::self_check();
    let props = crate::props();
    let cmd = args.first().map(|s| s.as_str()).unwrap_or("");
    if cmd == "list" {
        for p in &props {
            println!("{}", p.id);
        }
        return;
    }
    if args.len() < 2 {
        usage();
    }
    let p = match props.iter().find(|p| p.id == args[1]) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", args[1]);
            std::process::exit(2)
        }
    };
    let mut o = Opts {
        seed: 1,
        salt: 0,
        cases: p.quick,
        thorough: false,
        threads: std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).min(crate::alloc::SLOTS),
        enums: true,
        known: HashSet::new(),
    };
    let mut out = None;
    let mut hashes: Option<String> = None;
    let mut scale = 100u64;
    let mut rest: Vec<u64> = vec![];
    let mut i = 2;
    let num = |s: Option<&String>| -> u64 {
        s.and_then(|s| s.parse().ok()).unwrap_or_else(|| usage())
    };
    while i < args.len() {
        match args[i].as_str() {
            "--seed" => {
                o.seed = num(args.get(i + 1));
                i += 1;
            }
            "--salt" => {
                o.salt = num(args.get(i + 1));
                i += 1;
            }
            "--cases" => {
                o.cases = num(args.get(i + 1));
                i += 1;
            }
            "--scale" => {
                scale = num(args.get(i + 1));
                i += 1;
            }
            "--threads" => {
                o.threads = num(args.get(i + 1)) as usize;
                i += 1;
            }
            "--hashes" => {
                hashes = args.get(i + 1).cloned();
                i += 1;
            }
            "--thorough" => o.thorough = true,
            "--no-enums" => o.enums = false,
            "--out" => {
                out = args.get(i + 1).cloned();
                i += 1;
            }
            s => rest.push(s.parse().unwrap_or_else(|_| usage())),
        }
        i += 1;
    }
    o.cases = o.cases * scale / 100;
    match cmd {
        "run" => {
            #[cfg(not(miri))]
            watchdog(p.id, p.rule, out.clone());
            // non-trivial cases already counted by earlier stages of this check
            if let Some(f) = &hashes {
                if let Ok(b) = std::fs::read(f) {
                    o.known = b
                        .chunks_exact(8)
                        .map(|c| u64::from_le_bytes(c.try_into().unwrap()))
                        .collect();
                }
            }
            let (r, set) = search(p, &o);
            if let Some(f) = &hashes {
                let mut b = Vec::with_capacity(set.len() * 8);
                for h in &set {
                    b.extend_from_slice(&h.to_le_bytes());
                }
                std::fs::write(f, b).expect("write hashes");
            }
            let js = report_json(p, &r);
            match out {
                Some(f) => std::fs::write(f, js).expect("write report"),
                None => println!("{}", js),
            }
            std::process::exit(if r.failure.is_some() { 1 } else { 0 });
        }
        "tape" => {
            // print the tape of one case without judging it: the case is run
            // in dry mode as far as it gets, so print while it is drawn
            let mut enums = vec![];
            if o.enums {
                (p.enums)(o.thorough, &mut enums);
            }
            let mut g = make_gen(p, &enums, o.seed, o.salt, rest[0]);
            g.echo = true;
            let mut ctx = Ctx { slot: 0, ..Ctx::default() };
            let r = run_case(p.case, &mut g, &mut ctx);
            println!();
            match r {
                Ok(()) => println!("OK"),
                Err(m) => {
                    println!("FAIL {}", m);
                    std::process::exit(1)
                }
            }
        }
        "replay" => {
            let mut g = Gen::replay(rest);
            let mut ctx = Ctx { verbose: true, slot: 0, ..Ctx::default() };
            let r = run_case(p.case, &mut g, &mut ctx);
            for n in &ctx.notes {
                println!("  {}", n);
            }
            match r {
                Ok(()) => println!("OK: the case passes"),
                Err(m) => {
                    println!("FAIL: {}", m);
                    std::process::exit(1)
                }
            }
        }
        _ => usage(),
    }
}
