//! One property under libFuzzer. `VERIF_PROP` names it; with `VERIF_RAW` the
//! bytes are the text to load, otherwise the choices of its generator.
//!
//! A broken case is made small and written to `VERIF_FUZZ_OUT` as a replay
//! file. With `VERIF_DUMP`, the case of the first input is only written there;
//! with `VERIF_SEEDS`, a starting corpus is.
#![no_main]

use libfuzzer_sys::fuzz_target;
use std::{
    env, fs,
    path::Path,
    sync::OnceLock,
    time::{Duration, Instant},
};
use verif_pbt::{common::gen_mutant, engine::*, model::*, with_prop};

const TIER: u8 = 1;

struct Setup {
    id: String,
    raw: bool,
    out: String,
    dump: Option<String>,
}

fn setup() -> &'static Setup {
    static S: OnceLock<Setup> = OnceLock::new();
    S.get_or_init(|| {
        install_panic_hook();
        if let Ok(dir) = env::var("VERIF_SEEDS") {
            seeds(&dir);
            std::process::exit(0);
        }
        Setup {
            id: env::var("VERIF_PROP").expect("VERIF_PROP"),
            raw: env::var("VERIF_RAW").map_or(false, |v| v == "1"),
            out: env::var("VERIF_FUZZ_OUT").expect("VERIF_FUZZ_OUT"),
            dump: env::var("VERIF_DUMP").ok(),
        }
    })
}

fn seeds(dir: &str) {
    let raw = env::var("VERIF_RAW").map_or(false, |v| v == "1");
    let seed: u64 = env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let mut r = Rng(mix(seed));
    for i in 0..200u64 {
        let bytes = if raw {
            let mut s = Source::random(mix(seed ^ i << 20), 0);
            if i % 2 == 0 {
                let doc = gen_doc(&mut s, &DocCfg::SMALL);
                let layout = gen_layout(&mut s);
                render(&doc, &layout)
            } else {
                gen_mutant(&mut s, &DocCfg::SMALL).0
            }
        } else {
            (0..16 << (i % 9)).map(|_| r.next() as u8).collect()
        };
        if bytes.len() <= 4096 {
            fs::write(Path::new(dir).join(format!("seed{}", i)), bytes).unwrap();
        }
    }
}

fn write<P: Prop>(path: &Path, message: &str, case: &P::Case) {
    let v = serde_json::json!({ "property": P::ID, "message": message, "case": case });
    fs::write(path, format!("{:#}\n", v)).unwrap();
}

fn one<P: Prop>(data: &[u8], cfg: &Setup) {
    let (case, log) = if cfg.raw {
        let Some(c) = P::of_bytes(data) else { return };
        (c, data.iter().map(|b| *b as u64).collect())
    } else {
        let mut s = Source::bytes(data, TIER);
        (P::gen(&mut s), s.log)
    };
    if let Some(ref d) = cfg.dump {
        write::<P>(Path::new(d), "the process was ended", &case);
        std::process::exit(0);
    }
    let Err(first) = run_check::<P>(&case).0 else { return };
    let build = |c: &[u64]| -> (P::Case, Vec<u64>) {
        if cfg.raw {
            let b: Vec<u8> = c.iter().map(|b| *b as u8).collect();
            (P::of_bytes(&b).unwrap(), c.to_vec())
        } else {
            let mut s = Source::replay(c.to_vec(), TIER);
            let case = P::gen(&mut s);
            (case, s.log)
        }
    };
    let small = shrink(log, 20_000, Instant::now() + Duration::from_secs(30), |c| {
        let (case, used) = build(c);
        run_check::<P>(&case).0.err().map(|_| used)
    });
    let (case, message) = match build(&small).0 {
        c => match run_check::<P>(&c).0 {
            Err(m) => (c, m),
            Ok(()) => (case, first),
        },
    };
    let text = serde_json::to_string(&case).unwrap();
    let path = Path::new(&cfg.out).join(format!("{}-{:016x}.json", P::ID, str_hash(&text)));
    write::<P>(&path, &message, &case);
    eprintln!("broken: {}", message);
    std::process::abort();
}

fuzz_target!(|data: &[u8]| {
    let cfg = setup();
    with_prop!(&cfg.id[..], one(data, cfg))
});
