//! Coverage-guided driver of the harness: fuzzer bytes are the entropy source of
//! the same choice-tape generator; APV_PROP names the property.
use apv::gen::{Gen, Src};
use apv::runner::{run_case, Ctx, Prop};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::OnceLock;

static PROP: OnceLock<(Prop, bool)> = OnceLock::new();
static CASES: AtomicU64 = AtomicU64::new(0);
static NONTRIVIAL: AtomicU64 = AtomicU64::new(0);
static OPS: AtomicU64 = AtomicU64::new(0);

extern "C" {
    fn atexit(f: extern "C" fn()) -> i32;
}

extern "C" fn stats() {
    eprintln!(
        "\nFUZZ cases={} nontrivial={} ops={}",
        CASES.load(Ordering::Relaxed),
        NONTRIVIAL.load(Ordering::Relaxed),
        OPS.load(Ordering::Relaxed)
    );
}

fn prop() -> &'static (Prop, bool) {
    PROP.get_or_init(|| {
        let id = std::env::var("APV_PROP").expect("APV_PROP");
        // replaces the aborting panic hook of libfuzzer-sys: panics are caught
        // and judged by the property
        apv::runner::install_panic_hook();
        apv::model::self_check();
        unsafe { atexit(stats) };
        let p = apv::props().into_iter().find(|p| p.id == id).expect("property");
        (p, std::env::var_os("APV_ECHO").is_some())
    })
}

pub fn one(data: &[u8]) {
    let (p, echo) = prop();
    let mut g = Gen::random(Src::Bytes(data.to_vec(), 0));
    g.echo = *echo;
    let mut ctx = Ctx::default();
    let r = run_case(p.case, &mut g, &mut ctx);
    CASES.fetch_add(1, Ordering::Relaxed);
    OPS.fetch_add(ctx.ops, Ordering::Relaxed);
    NONTRIVIAL.fetch_add(ctx.nontrivial as u64, Ordering::Relaxed);
    if let Err(m) = r {
        let tape: Vec<String> = g.tape[..g.used()].iter().map(|x| x.to_string()).collect();
        eprintln!("\nFUZZFAIL {}\nFUZZTAPE {}", m.replace('\n', " "), tape.join(" "));
        std::process::exit(1);
    }
}
