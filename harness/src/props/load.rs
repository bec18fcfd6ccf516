//! C01 - C06: what is loaded, and what loading costs.

use crate::{alloc, common::*, engine::*, model::*};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Input {
    Bytes(Bytes),
    /// See `big_input`.
    Big(u8, u32),
    /// A well-formed document, see `scale_doc`.
    Scale(u8, u32),
}
impl Input {
    pub fn bytes(&self) -> Vec<u8> {
        match *self {
            Input::Bytes(ref b) => b.0.clone(),
            Input::Big(k, n) => big_input(k, n),
            Input::Scale(k, n) => render(&scale_doc(k, n as usize), &Layout::FLAT),
        }
    }
}

fn mutant_cfg(s: &mut Source) -> DocCfg {
    let mut cfg = DocCfg { big_frame_time: true, ..DocCfg::SMALL };
    if s.chance(1, 12) {
        cfg.max_joints = 120;
        cfg.max_frames = 60;
    }
    cfg.scale = 15_000;
    cfg
}

// ------------------------------------------------------------------------ C01

pub struct C01;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct C01Case {
    pub input: Input,
    pub chunks: Vec<u32>,
}

impl Prop for C01 {
    type Case = C01Case;
    const ID: &'static str = "C01";
    const CASES: (u64, u64) = (2_400_000, 24_000_000);
    const RULE: &'static str = "A case is the bytes of a document that was mutated (lines, tokens, \
bytes), walked along the grammar with strays, assembled from lines in any order, or random; it is \
loaded from memory, in pieces from a reader, and through the other entry points, and any error is \
displayed, debug-printed and walked. Non-trivial: loading got beyond the first joint header, that is \
it was accepted or rejected with something other than a missing root.";
    fn gen(s: &mut Source) -> C01Case {
        let cfg = mutant_cfg(s);
        let (b, _) = gen_mutant(s, &cfg);
        C01Case { input: Input::Bytes(Bytes(b)), chunks: if s.bool() { gen_chunks(s) } else { vec![] } }
    }
    fn of_bytes(b: &[u8]) -> Option<C01Case> {
        Some(C01Case { input: Input::Bytes(Bytes(b.to_vec())), chunks: vec![3, 1, 64] })
    }
    fn fixed() -> Vec<C01Case> {
        let mut v = Vec::new();
        for (k, ns) in [
            (0u8, &[1u32, 1000, 20_000][..]),
            (1, &[0, 1, 1_000_000]),
            (2, &[0, 1, 7, 300_000]),
            (3, &[0, 1, 500_000]),
            (4, &[0, 1, 100_000]),
            (5, &[0, 1, 2, 100_000]),
            (6, &[0, 1, 2, 100_000]),
            (7, &[0, 1, 400, 100_000]),
            (8, &[0, 1, 20_000]),
            (9, &[1, 400, 100_000]),
        ] {
            for n in ns {
                v.push(C01Case { input: Input::Big(k, *n), chunks: vec![] });
            }
        }
        for place in 0..padded_places().len() {
            v.push(C01Case { input: Input::Big(10 + place as u8, 150_000), chunks: vec![] });
        }
        for kind in 0..SCALES {
            for n in [300, 70_000] {
                v.push(C01Case { input: Input::Scale(kind, n), chunks: vec![8192] });
            }
        }
        // Errors that carry long texts.
        for n in 1..=300 {
            for part in ["a", "\u{e9}", "\u{624b}", "\u{1f642}", "\u{0}"] {
                for lead in ["", "x", "xy"] {
                    let t = format!("{}{}", lead, part.repeat(n));
                    for (a, b) in [
                        ("HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 1 ", "\n}\nMOTION\nFrames: 0\nFrame Time: 1\n"),
                        ("HIERARCHY\nROOT r\n{\nOFFSET 0 ", " 0\nCHANNELS 0\n}\nMOTION\nFrames: 0\nFrame Time: 1\n"),
                        ("HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS ", "\n}\nMOTION\nFrames: 0\nFrame Time: 1\n"),
                        ("HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 0\n}\nMOTION\nFrames: ", "\nFrame Time: 1\n"),
                        ("HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 0\n}\nMOTION\nFrames: 0\nFrame Time: ", "\n"),
                        ("HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 1\nFrame Time: 1\n", "\n"),
                        ("HIERARCHY\nROOT r\n{\n", "\n}\n"),
                    ] {
                        let t = [a.as_bytes(), t.as_bytes(), b.as_bytes()].concat();
                        v.push(C01Case { input: Input::Bytes(Bytes(t)), chunks: vec![] });
                    }
                }
            }
        }
        // Numbers of many digits, which are hard to round.
        for wide in [false, true] {
            for t in long_nums(wide) {
                for end in ["", "x", "e", ".", "e+"] {
                    if !end.is_empty() && t.len() > 1400 {
                        continue;
                    }
                    let t = format!("{}{}", t, end);
                    let t = if wide {
                        format!("HIERARCHY\nROOT r\n{{\nOFFSET 0 0 0\nCHANNELS 0\n}}\nMOTION\nFrames: 0\nFrame Time: {}\n", t)
                    } else if end.is_empty() {
                        format!("HIERARCHY\nROOT r\n{{\nOFFSET 0 {0} 0\nCHANNELS 1 Xposition\n}}\nMOTION\nFrames: 1\nFrame Time: 1\n{0}\n", t)
                    } else {
                        format!("HIERARCHY\nROOT r\n{{\nOFFSET 0 {} 0\n", t)
                    };
                    v.push(C01Case { input: Input::Bytes(Bytes(t.into_bytes())), chunks: vec![] });
                }
            }
        }
        // Every prefix of a document, and every single byte of it replaced.
        let doc = b"HIERARCHY\nROOT r\n{\nOFFSET 0 1.5 -2\nCHANNELS 1 Xposition\nJOINT a:b\n{\nOFFSET 1e3 .5 5.\nCHANNELS 0\nEnd Site\n{\nOFFSET 0 0 1\n}\n}\n}\nMOTION\nFrames: 2\nFrame Time: 0.1\n1\n-2.5\n";
        for n in 0..=doc.len() {
            v.push(C01Case { input: Input::Bytes(Bytes(doc[..n].to_vec())), chunks: vec![] });
        }
        // Every byte as a line of its own, anywhere, and at the end of a
        // document that ends early.
        for n in 0..doc.len() {
            if n > 0 && doc[n - 1] != b'\n' {
                continue;
            }
            for b in 0..=255u8 {
                for eol in [&b"\n"[..], b"", b"\r\n"] {
                    let t = [&doc[..n], &[b], eol].concat();
                    v.push(C01Case { input: Input::Bytes(Bytes(t.clone())), chunks: vec![] });
                    if !eol.is_empty() {
                        let t = [&t[..], &doc[n..]].concat();
                        v.push(C01Case { input: Input::Bytes(Bytes(t)), chunks: vec![] });
                    }
                }
            }
        }
        for i in 0..doc.len() {
            for b in 0..=255u8 {
                let mut d = doc.to_vec();
                d[i] = b;
                v.push(C01Case { input: Input::Bytes(Bytes(d)), chunks: vec![] });
            }
        }
        v
    }
    fn check(c: &C01Case, cx: &mut Cx) -> Verdict {
        let bytes = c.input.bytes();
        let r = bvh_anim::from_bytes(&bytes);
        match &r {
            Ok(_) => {
                cx.nontrivial = true;
                cx.label("accepted");
            }
            Err(e) => {
                let d = format!("{:?}", e.kind());
                if d.contains("MissingRoot") {
                    cx.label("rejected: no root");
                } else {
                    cx.nontrivial = true;
                    cx.label(if d.starts_with("Joints") { "rejected: joints" } else { "rejected: motion" });
                }
            }
        }
        if let Err(e) = r {
            exercise_error(e)?;
        }
        let plan = ReadPlan { chunks: c.chunks.clone(), ..Default::default() };
        if let Err(e) = bvh_anim::from_reader(PlannedReader::new(&bytes, &plan)) {
            exercise_error(e)?;
        }
        if let Ok(t) = std::str::from_utf8(&bytes) {
            if let Err(e) = t.parse::<bvh_anim::Bvh>() {
                exercise_error(e)?;
            }
        }
        cx.comparisons += 3;
        Ok(())
    }
    fn assumptions() -> Vec<&'static str> {
        vec![
            "Stack and memory of the sandbox; documents up to a few megabytes.",
            "A case that takes more than 120 s of processor time, and alone more than 200 s, is taken to go on without end.",
        ]
    }
}

// ------------------------------------------------------------------------ C02

pub struct C02;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct C02Case {
    pub input: Input,
}

/// Bytes held for each byte of input, and beside that. Measured on the
/// unchanged tree, the peak stays below a third of this.
const PER_BYTE: usize = 64;
const CONSTANT: usize = 1 << 20;

const HUGE: [u64; 14] = [
    100_000,
    1_000_000,
    16_777_216,
    100_000_000,
    1 << 31,
    u32::MAX as u64,
    1 << 32,
    10_000_000_000,
    1 << 40,
    1 << 60,
    (1 << 61) + 1,
    1 << 62,
    i64::MAX as u64,
    u64::MAX,
];

/// A document in which some lines come very often.
fn gen_repeated(s: &mut Source, cfg: &DocCfg) -> Vec<u8> {
    let doc = gen_doc(s, cfg);
    let layout = gen_layout(s);
    let mut l = doc.lines();
    l.extend(wrap_values(doc.rows(), &layout));
    let lines: Vec<Vec<u8>> = l.into_iter().map(|l| l.toks.join(&b' ')).collect();
    let at = s.range(0, lines.len());
    let block: Vec<Vec<u8>> = s.list(1, 4, 1, |s, _| match s.upto(2) {
        0 => lines[s.below(lines.len())].clone(),
        1 => gen_soup_line(s).join(&b' '),
        _ => {
            let t = gen_token(s);
            let n = s.range(1, 2).min(t.len());
            t[..n].to_vec()
        }
    });
    let size: usize = block.iter().map(|b| b.len() + 1).sum();
    let times = s.range(200, 30_000).min(400_000 / size);
    let mut out = Vec::new();
    for t in &lines[..at] {
        out.extend_from_slice(t);
        out.push(b'\n');
    }
    for _ in 0..times {
        for b in &block {
            out.extend_from_slice(b);
            out.push(b'\n');
        }
    }
    for t in &lines[at..] {
        out.extend_from_slice(t);
        out.push(b'\n');
    }
    out
}

impl Prop for C02 {
    type Case = C02Case;
    const ID: &'static str = "C02";
    const CASES: (u64, u64) = (1_200_000, 12_000_000);
    const RULE: &'static str = "A case is a document in which one or more counts (channels of any joint, \
frames) declare up to 2^64-1 items, or a mutated document, or one that is large in one respect; the \
peak of the bytes the loading thread holds is compared with 64 bytes per byte of input plus 1 MiB. \
Non-trivial: a declared count exceeds the bytes of the input.";
    fn gen(s: &mut Source) -> C02Case {
        let mut cfg = mutant_cfg(s);
        cfg.scale = 1500;
        if s.chance(1, 5) {
            let (b, _) = gen_mutant(s, &cfg);
            return C02Case { input: Input::Bytes(Bytes(b)) };
        }
        if s.chance(1, 400) {
            cfg.scale = 0;
            cfg.max_joints = 4;
            return C02Case { input: Input::Bytes(Bytes(gen_repeated(s, &cfg))) };
        }
        let doc = gen_doc(s, &cfg);
        let layout = gen_layout(s);
        let mut l = doc.lines();
        l.extend(wrap_values(doc.rows(), &layout));
        let huge = |s: &mut Source| {
            let h = *s.pick(&HUGE);
            match s.upto(2) {
                0 => h,
                1 => h.saturating_sub(s.upto(1000)),
                _ => h / s.range(1, 9) as u64,
            }
            .to_string()
            .into_bytes()
        };
        let frames = l.iter().position(|l| l.kind == Kind::Frames).unwrap();
        let chans: Vec<usize> = (0..l.len()).filter(|i| matches!(l[*i].kind, Kind::Channels(_))).collect();
        let which = s.weighted(&[45, 45, 10]);
        if which != 1 || chans.is_empty() {
            l[frames].toks[1] = huge(s);
        }
        if which != 0 && !chans.is_empty() {
            if s.chance(1, 4) {
                let h = huge(s);
                for i in &chans {
                    l[*i].toks[1] = h.clone();
                }
            } else {
                for _ in 0..s.range(1, 3) {
                    let i = *s.pick(&chans);
                    l[i].toks[1] = huge(s);
                }
            }
        }
        C02Case { input: Input::Bytes(Bytes(render_lines(&l, &layout).bytes)) }
    }
    fn of_bytes(b: &[u8]) -> Option<C02Case> {
        Some(C02Case { input: Input::Bytes(Bytes(b.to_vec())) })
    }
    fn fixed() -> Vec<C02Case> {
        let mut v = Vec::new();
        for (k, n) in [(0u8, 20_000u32), (1, 4_000_000), (2, 300_000), (3, 2_000_000), (4, 1_000_000), (5, 100_000), (6, 100_000), (7, 1_000_000), (8, 50_000)] {
            v.push(C02Case { input: Input::Big(k, n) });
        }
        for place in 0..padded_places().len() {
            v.push(C02Case { input: Input::Big(10 + place as u8, 400_000) });
        }
        for frames in HUGE {
            for ch in [1u64, 3, 1000, u64::MAX] {
                for has in ["", " Xposition"] {
                    let t = format!(
                        "HIERARCHY\nROOT r\n{{\nOFFSET 0 0 0\nCHANNELS {}{}\n}}\nMOTION\nFrames: {}\nFrame Time: 0.1\n1 2 3\n",
                        ch, has, frames
                    );
                    v.push(C02Case { input: Input::Bytes(Bytes(t.into_bytes())) });
                }
            }
        }
        // Many values, and yet not as many as are declared.
        for present in [1_000usize, 20_000, 100_000] {
            for frames in HUGE {
                let mut t = format!(
                    "HIERARCHY\nROOT r\n{{\nOFFSET 0 0 0\nCHANNELS 2 Xposition Yposition\n}}\nMOTION\nFrames: {}\nFrame Time: 0.1\n",
                    frames
                );
                t.push_str(&"1 2\n".repeat(present / 2));
                v.push(C02Case { input: Input::Bytes(Bytes(t.into_bytes())) });
            }
        }
        for kind in 0..SCALES {
            for n in [300, 70_000] {
                v.push(C02Case { input: Input::Scale(kind, match kind { 2 => 20_000.min(n), 3 => 60_000.min(n), _ => n }) });
            }
        }
        // Many joints, each of which declares much.
        for ch in ["4", "17", "100", "1000", "5000", "65536", "1000000", "18446744073709551615"] {
            let mut t = b"HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 0\n".to_vec();
            for _ in 0..2000 {
                t.extend_from_slice(format!("JOINT j\n{{\nOFFSET 0 0 0\nCHANNELS {}\n}}\n", ch).as_bytes());
            }
            t.extend_from_slice(b"}\nMOTION\nFrames: 0\nFrame Time: 0.1\n");
            v.push(C02Case { input: Input::Bytes(Bytes(t)) });
        }
        // One or two short lines, again and again.
        let lines = [
            "x", "}", "{", "JOINT", "JOINT j", "End Site", "End", "OFFSET", "OFFSET 1 2 3", "CHANNELS",
            "CHANNELS 0", "CHANNELS 1 Xposition", "CHANNELS 9", "1", "Frames: 1", "Frame Time: 1", "MOTION",
            "HIERARCHY", "ROOT r", "\u{e9}", ":", "\0", "",
        ];
        let start = "HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 1 Xposition\n";
        let motion = "}\nMOTION\nFrames: 1\nFrame Time: 1\n1\n";
        for a in lines {
            for b in lines {
                let rep = format!("{}\n{}\n", a, b).repeat(4000);
                for (pre, post) in [("", start), (start, motion), ("HIERARCHY\nROOT r\n{\nCHANNELS 1 Xposition\nOFFSET 1 1 1\n}\n", motion)] {
                    let t = [pre, &rep, post].concat();
                    v.push(C02Case { input: Input::Bytes(Bytes(t.into_bytes())) });
                }
            }
            for pre in ["", "MOTION\n", "MOTION\nFrames: 9\n", "MOTION\nFrames: 9\nFrame Time: 1\n", "MOTION\nFrames: 9\nFrame Time: 1\n1\n"] {
                let t = [start, "}\n", pre, &format!("{}\n", a).repeat(20_000)].concat();
                v.push(C02Case { input: Input::Bytes(Bytes(t.into_bytes())) });
            }
        }
        v
    }
    fn check(c: &C02Case, cx: &mut Cx) -> Verdict {
        let bytes = c.input.bytes();
        let (r, peak) = alloc::peak(4 << 30, || guard(|| bvh_anim::from_bytes(&bytes)));
        let bound = bytes.len() * PER_BYTE + CONSTANT;
        ensure!(
            peak <= bound,
            "loading {} bytes held {} bytes at its peak (bound {})",
            bytes.len(),
            peak,
            bound
        );
        let r = match r {
            Ok(r) => r,
            // An allocation too large to even be asked for.
            Err(p) if p.contains("capacity overflow") => return Err(p),
            Err(_) => {
                cx.discarded = true;
                return Ok(());
            }
        };
        cx.comparisons += 1;
        let digits = bytes.len().to_string().len().max(5);
        let mut run = 0;
        for b in bytes.iter().chain(b" ") {
            if b.is_ascii_digit() {
                run += 1;
            } else {
                if run > digits {
                    cx.nontrivial = true;
                }
                run = 0;
            }
        }
        cx.label(if r.is_ok() { "loaded" } else { "rejected" });
        cx.label_if(peak * 3 > bound, "peak above a third of the bound");
        cx.label_if(peak > bytes.len() * 16 + 65536, "peak above 16 bytes per byte + 64 KiB");
        Ok(())
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["Memory is what is requested from the global allocator by the loading thread."]
    }
}

// ------------------------------------------------------------- C03, C04, C06

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct DocCase {
    pub doc: Doc,
    pub layout: Layout,
}

fn load(bytes: &[u8]) -> Result<bvh_anim::Bvh, String> {
    bvh_anim::from_bytes(bytes).map_err(|e| format!("a well-formed document was rejected: {}", e))
}

pub fn doc_labels(doc: &Doc, cx: &mut Cx) {
    let tree = doc.tree();
    let n = doc.joints.len();
    cx.label_if(n >= 13, "13 or more joints");
    cx.label_if(n >= 100, "100 or more joints");
    cx.label_if(tree.iter().any(|t| t.1 >= 20), "depth of 20 or more");
    cx.label_if(tree.iter().any(|t| t.1 >= 100), "depth of 100 or more");
    cx.label_if(
        tree.windows(2).any(|w| w[1].1 + 2 < w[0].1 + 1),
        "climbs several levels at once",
    );
    let leaf = |i: usize| i + 1 == n || doc.joints[i + 1].up > 0;
    cx.label_if((0..n).any(|i| leaf(i) && doc.joints[i].end_site.is_none()), "leaf without end site");
    cx.label_if((0..n).any(|i| !leaf(i) && doc.joints[i].end_site.is_some()), "end site and children");
    cx.label_if(n == 1 && doc.joints[0].end_site.is_some(), "root with an end site only");
    cx.label_if(doc.joints.iter().any(|j| j.channels.is_none()), "joint without a CHANNELS line");
    cx.label_if(doc.joints.iter().any(|j| j.channels.as_ref().map_or(false, |c| c.len() > 6)), "more than 6 channels");
    cx.label_if(doc.joints.iter().any(|j| j.name.0.len() > 24), "name beyond 24 bytes");
    cx.label_if(doc.joints.iter().any(|j| std::str::from_utf8(&j.name.0).is_err()), "name that is not UTF-8");
    cx.label_if(doc.joints.iter().any(|j| j.name.0.contains(&b':')), "name with a colon");
    let mut names: Vec<_> = doc.joints.iter().map(|j| &j.name).collect();
    names.sort();
    cx.label_if(names.windows(2).any(|w| w[0] == w[1]), "repeated name");
}

fn gen_doc_case(s: &mut Source) -> DocCase {
    let mut cfg = DocCfg::FULL;
    if s.tier > 0 && s.chance(1, 50) {
        cfg.max_values = 400_000;
    }
    DocCase { doc: gen_doc(s, &cfg), layout: gen_layout(s) }
}

/// A document of which the lines within joints may come in another order.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct SkeletonCase {
    pub doc: Doc,
    pub layout: Layout,
    /// Joints of which the channels come before the offset: all of one number
    /// modulo another.
    pub swapped: Option<(u8, u8)>,
    /// Joints of which an offset of zero is left out, alike.
    pub left_out: Option<(u8, u8)>,
}

impl From<DocCase> for SkeletonCase {
    fn from(DocCase { doc, layout }: DocCase) -> Self {
        SkeletonCase { doc, layout, swapped: None, left_out: None }
    }
}

impl SkeletonCase {
    fn text(&self, cx: &mut Cx) -> Vec<u8> {
        let mut lines = self.doc.lines();
        let chosen = |w: Option<(u8, u8)>, i: usize| w.map_or(false, |(m, r)| i % (m as usize + 1) == r as usize);
        let (mut swaps, mut gone) = (false, false);
        for k in 1..lines.len() {
            if let (Kind::Offset(i), Kind::Channels(_)) = (lines[k - 1].kind, lines[k].kind) {
                if chosen(self.swapped, i) {
                    lines.swap(k - 1, k);
                    swaps = true;
                }
            }
        }
        let positive_zero = |t: &String| t.parse::<f32>().map_or(false, |v| v.to_bits() == 0);
        lines.retain(|l| match l.kind {
            Kind::Offset(i) if chosen(self.left_out, i) && self.doc.joints[i].offset.iter().all(positive_zero) => {
                gone = true;
                false
            }
            _ => true,
        });
        cx.label_if(swaps, "channels before the offset");
        cx.label_if(gone, "joint without an offset");
        lines.extend(wrap_values(self.doc.rows(), &self.layout));
        render_lines(&lines, &self.layout).bytes
    }
}

pub struct C03;
impl Prop for C03 {
    type Case = SkeletonCase;
    const ID: &'static str = "C03";
    const CASES: (u64, u64) = (1_000_000, 10_000_000);
    const RULE: &'static str = "A case is a well-formed document (1 to 400 joints in any tree shape, names of \
any bytes and up to 9000 of them, 0 to 33 channels per joint, with and without end sites, numbers of all \
kinds) in a random layout, in some with channels before the offset, or without an offset of zero; the loaded \
joints are compared one by one with those of the document. Non-trivial: at least two joints.";
    fn gen(s: &mut Source) -> SkeletonCase {
        let mut c = gen_doc_case(s);
        // The motion is the business of another property.
        c.doc.motion = MotionDoc::Rows(vec![vec![]; s.upto(1) as usize]);
        let mut some = |one_in| {
            let m = s.upto(3) as u8;
            s.chance(1, one_in).then(|| (m, s.upto(m as u64) as u8))
        };
        let (swapped, left_out) = (some(4), some(8));
        if let Some((m, r)) = left_out {
            for j in c.doc.joints.iter_mut().skip(r as usize).step_by(m as usize + 1) {
                j.offset = ["0", "0.0", "0"].map(String::from);
            }
        }
        SkeletonCase { doc: c.doc, layout: c.layout, swapped, left_out }
    }
    fn check(c: &SkeletonCase, cx: &mut Cx) -> Verdict {
        let bvh = load(&c.text(cx))?;
        let want = c.doc.expected();
        diff_joints(&observe_joints(&bvh), &want.joints)?;
        let has = bvh.joints().map(|j| j.has_end_site()).collect::<Vec<_>>();
        let w = want.joints.iter().map(|j| j.end_site.is_some()).collect::<Vec<_>>();
        crate::ensure_eq!(has, w, "end site flags");
        cx.comparisons += want.joints.len() as u64;
        cx.nontrivial = want.joints.len() >= 2;
        doc_labels(&c.doc, cx);
        Ok(())
    }
    fn fixed() -> Vec<SkeletonCase> {
        // Every tree of up to 6 joints, each with leaves with and without end
        // sites.
        let mut out = small_trees();
        out.extend(scale_docs().into_iter().filter(|d| d.num_frames() < 1000).chain(deep_docs()).map(|doc| DocCase {
            doc,
            layout: Layout::FLAT,
        }));
        out.extend(long_nums(false).chunks(3).map(|t| {
            let [a, b, c] = [0, 1, 2].map(|i| t[i % t.len()].clone());
            let mut doc = scale_doc(0, 1);
            doc.joints[0].end_site = Some([b.clone(), format!("-{}", c), a.clone()]);
            doc.joints[0].offset = [a, b, c];
            DocCase { doc, layout: Layout::FLAT }
        }));
        out.into_iter().map(Into::into).collect()
    }
    fn assumptions() -> Vec<&'static str> {
        vec![
            "The standard library's decimal conversion gives the nearest single-precision value.",
            "Names are non-empty, have no white space (ASCII or Unicode) and do not start with a colon.",
        ]
    }
}

pub fn small_trees() -> Vec<DocCase> {
    {
        let mut out = Vec::new();
        for n in 1..=6usize {
            let mut ups = vec![0u16; n];
            loop {
                for ends in 0..3u8 {
                    let joints = (0..n)
                        .map(|i| {
                            let leaf = i + 1 == n || ups[i + 1] > 0;
                            JointDoc {
                                up: ups[i],
                                name: Bytes(format!("j{}", i).into_bytes()),
                                offset: [i.to_string(), "0.5".into(), "-1".into()],
                                channels: Some((0..(i % 4)).map(|k| ((i + k) % 6) as u8).collect()),
                                end_site: if leaf && (ends == 1 || ends == 2 && i % 2 == 0) {
                                    Some(["7".into(), i.to_string(), "9".into()])
                                } else {
                                    None
                                },
                            }
                        })
                        .collect();
                    out.push(DocCase {
                        doc: Doc { joints, motion: MotionDoc::Rows(vec![]), frame_time: "0.1".into() },
                        layout: Layout::PLAIN,
                    });
                }
                // The next tree: `up` of joint i is below the depth of joint i-1.
                let mut i = n;
                let done = loop {
                    if i <= 1 {
                        break true;
                    }
                    i -= 1;
                    let mut depth = 1i32;
                    for k in 1..i {
                        depth += 1 - ups[k] as i32;
                    }
                    if (ups[i] as i32) + 1 < depth {
                        ups[i] += 1;
                        for u in &mut ups[i + 1..] {
                            *u = 0;
                        }
                        break false;
                    }
                };
                if done {
                    break;
                }
            }
        }
        out
    }
}

pub struct C04;
impl Prop for C04 {
    type Case = DocCase;
    const ID: &'static str = "C04";
    const CASES: (u64, u64) = (300_000, 3_000_000);
    const RULE: &'static str = "A case is a well-formed document with 0 to 5000 frames of up to 60000 values, \
numbers of all kinds (midpoints of neighbouring floats, exponents, long digits, extremes), frame times \
from 0 to 2^64 seconds, in a random layout; frames, frame time and channel numbering are compared with \
the document. Non-trivial: at least one frame with a value.";
    fn gen(s: &mut Source) -> DocCase {
        let mut c = gen_doc_case(s);
        if s.chance(1, 2) {
            // Small skeletons leave room for many values of all kinds.
            c.doc.joints.truncate(3);
            let n = c.doc.num_channels();
            if n > 0 {
                let cap = (120 / n).max(1);
                c.doc.motion = MotionDoc::Rows(s.list(1, cap, 8, |s, _| (0..n).map(|_| gen_num(s)).collect()));
            }
        }
        c
    }
    fn check(c: &DocCase, cx: &mut Cx) -> Verdict {
        let bvh = load(&render(&c.doc, &c.layout))?;
        let want = c.doc.expected();
        crate::ensure_eq!(bvh.frames().len(), want.rows.len(), "frames().len()");
        diff_rows(&observe_rows(&bvh), &want.rows)?;
        crate::ensure_eq!(*bvh.frame_time(), want.frame_time, "frame time of {:?}", c.doc.frame_time);
        crate::ensure_eq!(bvh.num_channels(), want.num_channels, "num_channels()");
        let mut n = 0;
        for j in bvh.joints() {
            for ch in j.channels() {
                crate::ensure_eq!(ch.motion_index(), n, "motion index of a channel of joint {}", j.index());
                for (f, r) in bvh.frames().zip(&want.rows).take(3) {
                    ensure!(f.get(ch).map(|v| canon(*v)) == Some(r[n]), "value of channel {}", n);
                }
                n += 1;
            }
        }
        let values = want.rows.len() * want.num_channels;
        cx.comparisons += values as u64 + 3;
        cx.nontrivial = values > 0;
        cx.label_if(want.num_channels == 0 && c.doc.num_frames() > 0, "frames without channels");
        cx.label_if(values == 0, "no values");
        cx.label_if(values > 16384, "more than 16384 values");
        cx.label_if(want.rows.len() > 1000, "more than 1000 frames");
        cx.label_if(c.layout.wrap == 2 && values > 2000, "a line longer than 8 KiB");
        cx.label_if(c.layout.wrap == 3, "wrapped at random");
        cx.label_if(want.frame_time.as_secs() > 1_000_000, "frame time beyond a million seconds");
        Ok(())
    }
    fn fixed() -> Vec<DocCase> {
        let mut v = Vec::new();
        for doc in scale_docs() {
            let wrap = if doc.num_channels() > 1 { 2 } else { 1 };
            v.push(DocCase { doc: doc.clone(), layout: Layout { wrap, ..Layout::FLAT } });
            v.push(DocCase { doc, layout: Layout { eol: 1, ..Layout::FLAT } });
        }
        let mut times = long_nums(true).into_iter();
        for t in long_nums(false).chunks(2) {
            let mut doc = scale_doc(0, 1);
            doc.motion = MotionDoc::Rows(t.iter().map(|t| vec![t.clone()]).collect());
            if let Some(t) = times.next() {
                doc.frame_time = t;
            }
            v.push(DocCase { doc, layout: Layout::FLAT });
        }
        v
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["The standard library's decimal conversion gives the nearest value, and Duration::try_from_secs_f64 the nearest nanosecond."]
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct C06Case {
    pub doc: Doc,
    pub a: Layout,
    pub b: Layout,
    /// Changes of words and lines, made before either layout.
    #[serde(default)]
    pub muts: Vec<Mutation>,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Mutation {
    pub what: u8,
    /// Of the lines before the motion values (`false`) or of the values.
    pub values: bool,
    pub at: u32,
    pub tok: u32,
    pub word: String,
}

/// The document with the changes, in a layout.
fn render_mutated(doc: &Doc, muts: &[Mutation], layout: &Layout) -> Vec<u8> {
    if muts.is_empty() {
        return render(doc, layout);
    }
    let mut lines = doc.lines();
    let mut rows = doc.rows();
    for m in muts {
        if m.values {
            if rows.is_empty() {
                rows.push(vec![]);
            }
            let i = m.at as usize % rows.len();
            let k = m.tok as usize % rows[i].len().max(1);
            match m.what {
                0 if !rows[i].is_empty() => {
                    rows[i].remove(k);
                }
                1 if !rows[i].is_empty() => rows[i][k] = m.word.clone(),
                3 => {
                    rows.remove(i);
                }
                4 => {
                    let r = rows[i].clone();
                    rows.insert(i, r);
                }
                _ => rows[i].insert(k, m.word.clone()),
            }
        } else {
            let i = m.at as usize % lines.len();
            let k = m.tok as usize % lines[i].toks.len().max(1);
            let word = m.word.clone().into_bytes();
            match m.what {
                0 if !lines[i].toks.is_empty() => {
                    lines[i].toks.remove(k);
                }
                1 if !lines[i].toks.is_empty() => lines[i].toks[k] = word,
                3 if lines.len() > 1 => {
                    lines.remove(i);
                }
                4 => {
                    let l = lines[i].clone();
                    lines.insert(i, l);
                }
                5 => {
                    let j = m.tok as usize % lines.len();
                    lines.swap(i, j);
                }
                _ => lines[i].toks.insert(k, word),
            }
        }
    }
    lines.extend(wrap_values(rows, layout));
    render_lines(&lines, layout).bytes
}

fn gen_mutation(s: &mut Source) -> Mutation {
    // Words of the format stay out of the values, where they would begin a line
    // in one layout only.
    let values = s.chance(1, 3);
    let word = if values {
        match s.upto(2) {
            0 => gen_num(s),
            _ => s.pick(&["x", "1e", "-", "nan", "inf", "1,5", "\u{e9}", "0x1"]).to_string(),
        }
    } else {
        match gen_token(s) {
            t if t.is_empty() || has_space(&t) => "x".into(),
            t => String::from_utf8(t).unwrap_or_else(|_| "?".into()),
        }
    };
    Mutation {
        what: s.upto(5) as u8,
        values,
        at: s.upto(0xffff) as u32,
        tok: s.upto(0xffff) as u32,
        word,
    }
}
pub struct C06;
impl Prop for C06 {
    type Case = C06Case;
    const ID: &'static str = "C06";
    const CASES: (u64, u64) = (800_000, 8_000_000);
    const RULE: &'static str = "A case is a well-formed document, at times with lines or words changed, removed, repeated or \
exchanged, and two layouts of it (indentation, words separated by runs of spaces and tabs, blank lines, trailing white space, LF, CRLF or a mixture, final line \
end, wrapping of motion values); both are loaded and compared: the same animation, or the same kind of error. Non-trivial: the two texts differ.";
    fn gen(s: &mut Source) -> C06Case {
        let mut cfg = DocCfg::FULL;
        cfg.max_joints = 60;
        cfg.max_frames = if s.chance(1, 30) { 2000 } else { 20 };
        cfg.max_values = 20_000;
        let doc = gen_doc(s, &cfg);
        let a = if s.bool() { Layout::PLAIN } else { gen_layout(s) };
        let muts = if s.chance(1, 3) { s.list(1, 3, 1, |s, _| gen_mutation(s)) } else { vec![] };
        C06Case { doc, a, b: gen_layout(s), muts }
    }
    fn check(c: &C06Case, cx: &mut Cx) -> Verdict {
        let ta = render_mutated(&c.doc, &c.muts, &c.a);
        let tb = render_mutated(&c.doc, &c.muts, &c.b);
        cx.nontrivial = ta != tb;
        let (ra, rb) = (bvh_anim::from_bytes(&ta), bvh_anim::from_bytes(&tb));
        cx.comparisons += 1;
        match (ra, rb) {
            (Ok(a), Ok(b)) => {
                let (oa, ob) = (observe(&a), observe(&b));
                diff(&ob, &oa).map_err(|e| format!("with the second layout: {}", e))?;
                if !oa.has_nan() {
                    ensure!(a == b, "the two loads look the same but do not compare equal");
                }
                cx.label_if(c.b.eol == 2, "mixed line ends");
                cx.label_if(c.a.wrap != c.b.wrap, "wrapped in another way");
                cx.label_if(c.b.no_final_eol != 0, "no final line end");
            }
            (Err(a), Err(b)) => {
                // With the same kind of error, wherever its place is now.
                let kind = |e: &bvh_anim::errors::LoadError| {
                    let d = format!("{:?}", e.kind());
                    d.split(|c: char| !c.is_alphanumeric()).take(2).collect::<Vec<_>>().join(" ")
                };
                ensure_eq!(kind(&b), kind(&a), "the error with the second layout");
                if c.muts.is_empty() {
                    // Not a matter of layout.
                    cx.discarded = true;
                    cx.nontrivial = false;
                }
                cx.label("rejected in both layouts");
            }
            (Ok(_), Err(e)) => return Err(format!("rejected with the second layout only: {}", e)),
            (Err(e), Ok(_)) => return Err(format!("rejected with the first layout only: {}", e)),
        }
        Ok(())
    }
}

// ------------------------------------------------------------------------ C05

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct C05Case {
    pub input: Input,
}
pub struct C05;
impl Prop for C05 {
    type Case = C05Case;
    const ID: &'static str = "C05";
    const CASES: (u64, u64) = (3_500_000, 35_000_000);
    const RULE: &'static str = "A case is the bytes of a mutated, walked or assembled document; if it is loaded, \
the result is examined: one root that comes first, names, parents before children in depth-first order, \
channel numbers, frame lengths. Non-trivial: it was loaded.";
    fn gen(s: &mut Source) -> C05Case {
        let mut cfg = mutant_cfg(s);
        cfg.exotic_numbers = s.chance(1, 4);
        C05Case { input: Input::Bytes(Bytes(gen_mutant(s, &cfg).0)) }
    }
    fn of_bytes(b: &[u8]) -> Option<C05Case> {
        Some(C05Case { input: Input::Bytes(Bytes(b.to_vec())) })
    }
    fn check(c: &C05Case, cx: &mut Cx) -> Verdict {
        let bytes = c.input.bytes();
        let r = guard(|| bvh_anim::from_bytes(&bytes));
        match r {
            Ok(Ok(bvh)) => {
                cx.nontrivial = true;
                cx.comparisons += 1;
                cx.label("loaded");
                consistent(&bvh)
            }
            Ok(Err(_)) => {
                cx.label("rejected");
                Ok(())
            }
            Err(_) => {
                cx.discarded = true;
                Ok(())
            }
        }
    }
    fn fixed() -> Vec<C05Case> {
        // Every sequence of up to 5 lines inside the root's block, followed by
        // enough closing braces and an empty motion section.
        let alphabet = [
            "OFFSET 1 2 3", "CHANNELS 1 Xposition", "CHANNELS 0", "JOINT j", "End Site", "{", "}", "ROOT q",
            "HIERARCHY", "MOTION",
        ];
        let mut out: Vec<C05Case> = (0..SCALES)
            .flat_map(|k| [256u32, 300, 65_536, 70_000].map(|n| C05Case { input: Input::Scale(k, match k { 2 => n.min(30_000), 3 => n.min(900), _ => n }) }))
            .collect();
        let mut idx: Vec<usize> = Vec::new();
        loop {
            let mut t = String::from("HIERARCHY\nROOT r\n{\n");
            let mut open = 1i32;
            for i in &idx {
                t.push_str(alphabet[*i]);
                t.push('\n');
                match *i {
                    5 => open += 1,
                    6 => open -= 1,
                    _ => {}
                }
            }
            for _ in 0..open.max(0) {
                t.push_str("}\n");
            }
            let ch = idx.iter().filter(|i| **i == 1).count();
            t.push_str("MOTION\nFrames: 1\nFrame Time: 0.1\n");
            t.push_str(&"1 ".repeat(ch));
            out.push(C05Case { input: Input::Bytes(Bytes(t.into_bytes())) });
            // Next sequence.
            let mut k = idx.len();
            loop {
                if k == 0 {
                    idx = vec![0; idx.len() + 1];
                    break;
                }
                k -= 1;
                if idx[k] + 1 < alphabet.len() {
                    idx[k] += 1;
                    for x in &mut idx[k + 1..] {
                        *x = 0;
                    }
                    break;
                }
            }
            if idx.len() > 5 {
                return out;
            }
        }
    }
}
