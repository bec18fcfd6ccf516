//! C17: `bvh!` literals, compiled and compared with the same text, loaded.
//!
//! The macro is expanded by the compiler, so the cases are generated programs
//! with many literals each. A program tells for each literal whether it equals
//! what is loaded from its text.

use super::load::doc_labels;
use crate::{engine::*, model::*};
use serde::{Deserialize, Serialize};
use std::{
    collections::BTreeMap,
    fmt::Write as _,
    fs,
    path::{Path, PathBuf},
    process::{Command, Stdio},
    time::{Duration, Instant},
};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Lit {
    Doc(Doc),
    /// Literals without joints, which are no documents: 0 `{}`, 1 no motion,
    /// 2 no frame time, 3 with a frame time.
    Empty(u8, String),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    pub lit: Lit,
    /// How the literal is written: 0 as the text, 1 on one line, 2 one token
    /// per line, with comments; and the macro imported (+0) or by path (+3).
    pub style: u8,
}

fn plain_num(s: &mut Source) -> String {
    let t = match s.weighted(&[30, 40, 10, 10, 5, 5, 8]) {
        0 => s.pick(&["0.0", "1.0", "-1.0", "5.21", "-0.5", "180.00", "-0.0"]).to_string(),
        1 => {
            let n = s.range(1, 6);
            format!("{}{}.{}", if s.bool() { "-" } else { "" }, s.upto(999), gen_digits(s, n))
        }
        2 => {
            let v = f32::from_bits(gen_f32_bits(s));
            if v.is_finite() {
                format!("{:?}", v)
            } else {
                "2.5".into()
            }
        }
        3 => {
            let n = s.range(7, 40);
            format!("{}.{}", s.upto(99_999), gen_digits(s, n))
        }
        4 => format!("{}.{}e{}", s.upto(9), s.upto(999), s.range(0, 30) as i32 - 15),
        5 => format!("0.{}{}", "0".repeat(s.range(1, 20)), s.range(1, 99_999)),
        _ => gen_midpoint(s),
    };
    // The compiler takes an overflowing literal for an error.
    match t.parse::<f32>() {
        Ok(v) if v.is_finite() && (t.contains('.') || t.contains('e')) => t,
        _ => "4.25".into(),
    }
}

fn ident(s: &mut Source) -> Bytes {
    let n = match s.weighted(&[50, 25, 25]) {
        0 => {
            let n = s.range(1, 8);
            (0..n).map(|_| (b'a' + s.upto(25) as u8) as char).collect()
        }
        1 => s
            .pick(&[
                "ROOT", "JOINT", "End", "Site", "OFFSET", "CHANNELS", "MOTION", "HIERARCHY", "Frames", "Time",
                "Xposition", "Zrotation", "fn", "struct", "self", "Self", "crate", "builder", "bvh", "Bvh",
                "new_bvh", "offset", "Duration", "f32", "u8", "String", "Option", "super", "match",
            ])
            .to_string(),
        _ => {
            let len = *s.pick(&[1usize, 2, 8, 16, 23, 24, 25, 32, 64, 100]);
            let first = *s.pick(&['A', 'z', '_', 'Q', 'é', '手']);
            let mut t = String::from(first);
            while t.chars().count() < len {
                t.push(*s.pick(&['a', 'B', '_', '0', '9', 'z', 'ß']));
            }
            if t == "_" {
                "_x".into()
            } else {
                t
            }
        }
    };
    Bytes(n.into_bytes())
}

/// A frame time, as a literal and as a number in a text alike.
fn gen_lit_time(s: &mut Source) -> String {
    let t = match s.upto(8) {
        0 => s.pick(&["0.033333", "0.033333333333", "1", "0", "0.0083333", "2.5", "60", "0.0", "-0.0"]).to_string(),
        1 => format!("0.{:09}", s.upto(999_999_999)),
        2 => format!("{}.{:09}", s.upto(99_999), s.upto(999_999_999)),
        3 => format!("{}", s.upto(100_000)),
        // Between two nanoseconds, and close to the middle.
        4 => {
            let n = s.range(1, 12);
            format!("0.{:09}{}{}", s.upto(999_999_999), *s.pick(&["5", "49999999", "50000001", "4", "6"]), gen_digits(s, n))
        }
        5 => format!("{}.{:09}5", s.upto(9), s.upto(999_999_999)),
        // Long: up to the longest duration, past what nanoseconds can count.
        6 => {
            let n = s.range(6, 19);
            let k = s.range(1, 9);
            format!("{}{}.{}", s.range(1, 9), gen_digits(s, n), gen_digits(s, k))
        }
        7 => s
            .pick(&[
                "18446744073.709551614", "18446744073.709551615", "18446744073.709551616", "18446744074.0",
                "4294967295.5", "4294967296.0", "9223372036854775807.0", "9223372036854775808.0",
                "18446744073709549568.0", "1000000000000.000001", "9007199254740993.0", "4503599627370497.5",
                "16777217.0", "123456789.987654321", "0.1", "0.3", "1.0000000005", "0.0000000005", "0.00000000050001",
            ])
            .to_string(),
        _ => format!("{}.{}e{}", s.upto(9), s.upto(9999), s.range(0, 35) as i32 - 18),
    };
    // The exact value decides; what is no duration has its own property.
    match t.parse::<f64>() {
        Ok(v) if Duration::try_from_secs_f64(v).is_ok() => t,
        _ => "0.25".into(),
    }
}

fn gen_lit(s: &mut Source) -> Doc {
    let max = match s.weighted(&[50, 35, 15]) {
        0 => 3,
        1 => 8,
        _ => 24,
    };
    let deep = s.chance(1, 6);
    let mut depth = 0usize;
    let mut joints = s.list(1, max, if max <= 3 { 2 } else { max }, |s, i| {
        let up = if i == 0 || deep { 0 } else { s.weighted(&[45, 25, 12, 8, 10]).min(depth - 1) };
        depth = depth - up + 1;
        let n = s.upto(9) as usize;
        let channels = match s.upto(1) {
            0 => (0..n).map(|k| ((k + i) % 6) as u8).collect(),
            _ => (0..n).map(|_| s.upto(5) as u8).collect(),
        };
        JointDoc {
            up: up as u16,
            name: ident(s),
            offset: [plain_num(s), plain_num(s), plain_num(s)],
            channels: Some(channels),
            end_site: None,
        }
    });
    let n = joints.len();
    for i in 0..n {
        let leaf = i + 1 == n || joints[i + 1].up > 0;
        if leaf && !s.chance(1, 4) {
            joints[i].end_site = Some([plain_num(s), plain_num(s), plain_num(s)]);
        }
    }
    let frame_time = gen_lit_time(s);
    let mut doc = Doc { joints, motion: MotionDoc::Rows(vec![]), frame_time };
    let nch = doc.num_channels();
    if nch > 0 {
        let cap = (150 / nch).clamp(1, 5);
        doc.motion = MotionDoc::Rows(s.list(0, cap, 2, |s, _| {
            (0..nch).map(|i| if i < 30 { plain_num(s) } else { format!("{}.5", i) }).collect()
        }));
    }
    doc
}

impl Case {
    fn text(&self) -> Vec<u8> {
        match self.lit {
            Lit::Doc(ref d) => render(d, &Layout::PLAIN),
            Lit::Empty(kind, ref t) => match kind {
                0 => String::new(),
                1 => "HIERARCHY\nMOTION\n".into(),
                2 => "HIERARCHY\nMOTION\nFrames: 0\n".into(),
                _ => format!("HIERARCHY\nMOTION\nFrames: 0\nFrame Time: {}\n", t),
            }
            .into_bytes(),
        }
    }
    /// The function that evaluates the literal.
    fn source(&self, i: usize) -> String {
        let text = String::from_utf8(self.text()).expect("harness: identifiers are text");
        let body = match self.style % 3 {
            0 => text.clone(),
            1 => text.split_whitespace().collect::<Vec<_>>().join(" "),
            _ => {
                let mut b = String::new();
                for (k, t) in text.split_whitespace().enumerate() {
                    b.push_str(t);
                    b.push_str(match k % 3 {
                        0 => " // note\n",
                        1 => "\n",
                        _ => " /* note */ ",
                    });
                }
                b
            }
        };
        let call = if self.style / 3 == 0 { "use bvh_anim::bvh; bvh!" } else { "::bvh_anim::bvh!" };
        let mut s = String::new();
        let _ = writeln!(s, "fn l{}() -> bvh_anim::Bvh {{ {} {{\n{}\n}} }}", i, call, body);
        let want = match self.lit {
            Lit::Doc(_) => format!("Want::Text({:?})", text),
            Lit::Empty(3, ref t) => format!("Want::Empty({:?})", t.parse::<f64>().unwrap()),
            Lit::Empty(..) => "Want::Empty(0.0)".into(),
        };
        let _ = writeln!(s, "const W{}: Want = {};", i, want);
        s
    }
}

const PRELUDE: &str = r#"
#![allow(unknown_lints, warnings, float_literal_f32_fallback)]
use std::fmt::Write as _;
enum Want { Text(&'static str), Empty(f64) }
fn see(b: &bvh_anim::Bvh) -> String {
    let mut s = String::new();
    for j in b.joints() {
        let bits = |o: &[f32; 3]| [o[0].to_bits(), o[1].to_bits(), o[2].to_bits()];
        let _ = write!(s, "joint {} {:?} offset {:?} parent {:?} root {} end site {:?} channels", j.index(), j.name(),
            bits(j.offset()), j.parent_index(), j.is_root(), j.end_site().map(bits));
        for c in j.channels() { let _ = write!(s, " {}@{}", c.channel_type(), c.motion_index()); }
        s.push('\n');
    }
    let _ = writeln!(s, "{} channels, frame time {:?}, {} frames", b.num_channels(), b.frame_time(), b.frames().len());
    for f in b.frames() {
        for v in f.as_slice() { let _ = write!(s, " {:08x}", v.to_bits()); }
        s.push('\n');
    }
    s
}
fn judge(i: usize, f: fn() -> bvh_anim::Bvh, w: &Want) {
    let r = std::panic::catch_unwind(|| {
        let want = match w {
            Want::Text(t) => match std::panic::catch_unwind(|| bvh_anim::from_str(t)) {
                Ok(Ok(b)) => b,
                _ => return Ok(false),
            },
            Want::Empty(t) => {
                let mut b = bvh_anim::Bvh::new();
                b.set_frame_time(std::time::Duration::from_secs_f64(*t));
                b
            }
        };
        let got = match std::panic::catch_unwind(f) {
            Ok(b) => b,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned()
                    .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                return Err(format!("the literal panics: {}", m));
            }
        };
        let (g, w) = (see(&got), see(&want));
        if g != w {
            let (a, b) = g.lines().zip(w.lines()).find(|(a, b)| a != b).unwrap_or((&g, &w));
            return Err(format!("literal: {} | text: {}", a, b));
        }
        if got != want || want != got { return Err("not equal to the loaded text by ==".to_string()); }
        if got.to_string() != want.to_string() { return Err("writes another text than what was loaded".to_string()); }
        Ok(true)
    });
    match r {
        Ok(Ok(true)) => println!("OK {}", i),
        Ok(Ok(false)) => println!("SKIP {}", i),
        Ok(Err(m)) => println!("FAIL {} {}", i, m.replace('\n', " ; ")),
        Err(_) => println!("SKIP {}", i),
    }
}
"#;

const CONTROL: &str = r#"
fn main() {
    let t = "HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 1 Xposition\nEnd Site\n{\nOFFSET 0 0 1\n}\n}\nMOTION\nFrames: 1\nFrame Time: 0.1\n1\n";
    let _ = bvh_anim::from_str(t).is_ok();
}
"#;

fn program(cases: &[(usize, &Case)]) -> String {
    let mut s = String::from(PRELUDE);
    for (i, c) in cases {
        s.push_str(&c.source(*i));
    }
    s.push_str("fn main() {\n    std::panic::set_hook(Box::new(|_| {}));\n");
    for (i, _) in cases {
        let _ = writeln!(s, "    judge({}, l{}, &W{});", i, i, i);
    }
    s.push_str("}\n");
    s
}

fn dir() -> PathBuf {
    PathBuf::from(std::env::var("VERIF_RUN_DIR").expect("VERIF_RUN_DIR")).join("literals")
}

/// What became of a program.
enum Built {
    Ran(BTreeMap<usize, Result<bool, String>>),
    /// It does not compile.
    Broken(String),
}

/// An error of the harness or its surroundings.
pub struct Unusable(pub String);

fn build(programs: &[Vec<(usize, &Case)>]) -> Result<Vec<Built>, Unusable> {
    let d = dir();
    let io = |e: std::io::Error| Unusable(format!("{}: {}", d.display(), e));
    let _ = fs::remove_dir_all(&d);
    fs::create_dir_all(d.join("src/bin")).map_err(io)?;
    let harness = Path::new(env!("CARGO_MANIFEST_DIR"));
    let manifest = fs::read_to_string(harness.join("Cargo.toml")).map_err(io)?;
    // The same dependency, built with the same settings.
    let profile: String = manifest
        .split("\n[")
        .find(|s| s.starts_with("profile.dev]"))
        .map(|s| format!("[{}", s))
        .unwrap_or_default();
    fs::write(
        d.join("Cargo.toml"),
        format!(
            "[package]\nname = \"verif-literals\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n\
[dependencies]\nbvh_anim = {{ path = {:?} }}\n\n{}\n[profile.dev.package.verif-literals]\nopt-level = 0\ndebug = false\n\n[workspace]\n",
            crate::REPO, profile
        ),
    )
    .map_err(io)?;
    fs::copy(harness.join("Cargo.lock"), d.join("Cargo.lock")).map_err(io)?;
    fs::write(d.join("src/bin/control.rs"), CONTROL).map_err(io)?;
    for (i, p) in programs.iter().enumerate() {
        fs::write(d.join(format!("src/bin/p{}.rs", i)), program(p)).map_err(io)?;
    }
    // Its own folder for the programs, so that none is taken from another run.
    let out = Command::new("cargo")
        .args(["build", "--offline", "--keep-going", "--bins", "-q"])
        .current_dir(&d)
        .stdin(Stdio::null())
        .output()
        .map_err(io)?;
    let target = std::env::var("CARGO_TARGET_DIR").map(PathBuf::from).unwrap_or_else(|_| d.join("target"));
    let stderr = String::from_utf8_lossy(&out.stderr).into_owned();
    let exe = |n: &str| target.join("debug").join(n);
    let control = Command::new(exe("control")).stdin(Stdio::null()).output();
    if !control.map(|c| c.status.success()).unwrap_or(false) {
        return Err(Unusable(format!("a program without literals cannot be built: {}", stderr)));
    }
    let mut res = Vec::new();
    for i in 0..programs.len() {
        let name = format!("p{}", i);
        if out.status.success() || fresh(&exe(&name), &d.join(format!("src/bin/p{}.rs", i))) {
            let run = Command::new(exe(&name)).stdin(Stdio::null()).output().map_err(io)?;
            let mut m = BTreeMap::new();
            for l in String::from_utf8_lossy(&run.stdout).lines() {
                let mut w = l.splitn(3, ' ');
                let (what, n) = (w.next().unwrap_or(""), w.next().and_then(|n| n.parse().ok()).unwrap_or(0));
                let r = match what {
                    "OK" => Ok(true),
                    "SKIP" => Ok(false),
                    _ => Err(w.next().unwrap_or("").to_string()),
                };
                m.insert(n, r);
            }
            for (n, _) in &programs[i] {
                m.entry(*n).or_insert_with(|| Err(format!("the program ended early: {}", run.status)));
            }
            res.push(Built::Ran(m));
        } else {
            let first: String = stderr
                .lines()
                .filter(|l| l.starts_with("error"))
                .take(3)
                .collect::<Vec<_>>()
                .join("; ");
            res.push(Built::Broken(first));
        }
        let _ = fs::remove_file(exe(&name));
    }
    let _ = fs::remove_file(exe("control"));
    Ok(res)
}

fn fresh(exe: &Path, src: &Path) -> bool {
    match (fs::metadata(exe).and_then(|m| m.modified()), fs::metadata(src).and_then(|m| m.modified())) {
        (Ok(a), Ok(b)) => a >= b,
        _ => false,
    }
}

/// Judges some cases; the first failure, if any.
fn judge(cases: &[(usize, &Case)], parts: usize) -> Result<Vec<(usize, Result<bool, String>)>, Unusable> {
    if cases.is_empty() {
        return Ok(vec![]);
    }
    let size = (cases.len() + parts - 1) / parts;
    let programs: Vec<Vec<(usize, &Case)>> = cases.chunks(size).map(|c| c.to_vec()).collect();
    let mut out = Vec::new();
    for (p, b) in programs.iter().zip(build(&programs)?) {
        match b {
            Built::Ran(m) => out.extend(m),
            Built::Broken(e) => {
                if p.len() == 1 {
                    out.push((p[0].0, Err(format!("the literal does not compile: {}", e))));
                } else {
                    // One that breaks it is enough.
                    let sub = judge(p, parts)?;
                    let bad = sub.iter().any(|r| r.1.is_err());
                    out.extend(sub);
                    if bad {
                        break;
                    }
                }
            }
        }
    }
    Ok(out)
}

pub struct C17;
impl Prop for C17 {
    type Case = Case;
    const ID: &'static str = "C17";
    const CASES: (u64, u64) = (16_000, 60_000);
    const RULE: &'static str = "A case is a document that can be written as a bvh! literal (up to 24 joints with \
identifier names, 0 to 9 channels each, leaves with and without end sites, decimal numbers, 0 to 5 frames), as \
the text, on one line, or with comments. Programs with many literals are compiled; each literal is compared \
with the animation loaded from the same text. Enumerated: 0 to 9 channels on the root or a child, with and \
without end site, without and with frames; and the literals without joints. Non-trivial: a literal with joints \
that compiled and was compared.";
    fn gen(s: &mut Source) -> Case {
        let doc = gen_lit(s);
        Case { lit: Lit::Doc(doc), style: s.upto(5) as u8 }
    }
    fn check(c: &Case, _: &mut Cx) -> Verdict {
        match judge(&[(0, c)], 1) {
            Ok(r) => r.into_iter().next().map_or(Ok(()), |r| r.1.map(|_| ())),
            Err(Unusable(e)) => panic!("harness: {}", e),
        }
    }
    fn fixed() -> Vec<Case> {
        let mut v: Vec<Case> = (0..4u8).map(|k| Case { lit: Lit::Empty(k, "0.25".into()), style: k % 2 * 3 }).collect();
        v.push(Case { lit: Lit::Empty(3, "2.0".into()), style: 0 });
        let joint = |n: usize, name: &str, site: bool| JointDoc {
            up: 0,
            name: name.into(),
            offset: ["1.0".into(), "-2.5".into(), "3.25".into()],
            channels: Some((0..n).map(|k| ((k * 5 + 4) % 6) as u8).collect()),
            end_site: if site { Some(["-4.5".into(), "5.0".into(), "0.125".into()]) } else { None },
        };
        for n in 0..=9usize {
            for place in 0..3 {
                for site in [true, false] {
                    for frames in [0usize, 2] {
                        let joints = match place {
                            0 => vec![joint(n, "Base", site)],
                            1 => vec![joint(2, "Base", false), joint(n, "Tip", site)],
                            _ => vec![joint(n, "Base", false), joint(1, "A", true), {
                                let mut j = joint(3, "B", site);
                                j.up = 1;
                                j
                            }],
                        };
                        let mut d = Doc { joints, motion: MotionDoc::Rows(vec![]), frame_time: "0.5".into() };
                        let nch = d.num_channels();
                        if nch > 0 {
                            d.motion = MotionDoc::Rows(
                                (0..frames).map(|f| (0..nch).map(|c| format!("{}.5", f * 100 + c)).collect()).collect(),
                            );
                        }
                        v.push(Case { lit: Lit::Doc(d), style: (n % 3) as u8 });
                    }
                }
            }
        }
        v
    }
}

pub fn run(cfg: &RunCfg) -> Result<(Stats, Option<Failure>), Unusable> {
    let mut st = Stats::default();
    let mut all: Vec<(Case, Vec<u64>)> = Vec::new();
    for r in &cfg.regress {
        all.push((serde_json::from_str(r).map_err(|e| Unusable(e.to_string()))?, vec![]));
        st.regress += 1;
    }
    for c in C17::fixed() {
        all.push((c, vec![]));
        st.fixed += 1;
    }
    for i in 0..cfg.cases {
        let mut s = Source::random(case_seed(C17::ID, cfg.seed, i), cfg.tier);
        let c = C17::gen(&mut s);
        all.push((c, s.log));
    }
    // The small cases first; then the generated ones, some hundred at a time.
    let first = (st.regress + st.fixed) as usize;
    let mut batches = vec![0..first];
    let mut at = first;
    while at < all.len() {
        let end = (at + 1000).min(all.len());
        batches.push(at..end);
        at = end;
    }
    for b in batches {
        let cases: Vec<(usize, &Case)> = b.map(|i| (i, &all[i].0)).collect();
        let mut res = judge(&cases, cfg.threads.max(1))?;
        res.sort_by_key(|r| r.0);
        let mut failed = None;
        for (i, r) in res {
            let mut cx = Cx::default();
            match r {
                Ok(compared) => {
                    cx.discarded = !compared;
                    cx.nontrivial = compared && matches!(all[i].0.lit, Lit::Doc(_));
                    cx.comparisons = 3;
                }
                Err(m) => {
                    failed.get_or_insert((i, m));
                }
            }
            match all[i].0.lit {
                Lit::Doc(ref d) => {
                    doc_labels(d, &mut cx);
                    cx.label_if(d.num_frames() > 0, "with motion values");
                    cx.label_if(d.num_channels() == 0, "no channels at all");
                }
                Lit::Empty(..) => cx.label("no joints"),
            }
            st.record::<C17>(&all[i].0, &cx, i as u64);
        }
        if let Some((i, m)) = failed {
            let (case, choices) = &all[i];
            let mut best = (m, serde_json::to_string(case).unwrap(), choices.clone());
            if !choices.is_empty() {
                let deadline = Instant::now() + Duration::from_secs(100);
                let shrunk = shrink(choices.clone(), 60, deadline, |cand| {
                    let mut s = Source::replay(cand.to_vec(), cfg.tier);
                    let case = C17::gen(&mut s);
                    match judge(&[(0, &case)], 1).ok()?.into_iter().next()?.1 {
                        Err(m) => {
                            best.0 = m;
                            best.1 = serde_json::to_string(&case).unwrap();
                            Some(s.log)
                        }
                        Ok(_) => None,
                    }
                });
                // The last candidate that failed need not be the best one.
                let mut s = Source::replay(shrunk.clone(), cfg.tier);
                best.1 = serde_json::to_string(&C17::gen(&mut s)).unwrap();
                best.2 = shrunk;
            }
            return Ok((st, Some(Failure { message: best.0, case_json: best.1, choices: best.2 })));
        }
    }
    Ok((st, None))
}
