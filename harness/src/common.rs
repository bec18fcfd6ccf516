//! Shared by the properties: readers, sinks, mutated documents, outcomes.

use crate::{engine::*, model::*};
use bvh_anim::errors::*;
use bvh_anim::Bvh;
use serde::{Deserialize, Serialize};
use std::io::{self, BufRead, Read};

// ------------------------------------------------------------------- readers

pub const ERROR_KINDS: [io::ErrorKind; 12] = [
    io::ErrorKind::Other,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::TimedOut,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::NotFound,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::WriteZero,
    io::ErrorKind::AddrInUse,
];

#[derive(Clone, Debug, Hash, Serialize, Deserialize, Default)]
pub struct ReadPlan {
    /// Sizes of the pieces, repeated; 0 means all there is.
    pub chunks: Vec<u32>,
    /// Every so many calls are interrupted first (0: never).
    pub interrupt_every: u32,
    /// Fail at this position with this kind: (position, kind, again and again).
    pub fault: Option<(u32, u8, bool)>,
}

pub fn gen_chunks(s: &mut Source) -> Vec<u32> {
    match s.upto(4) {
        0 => vec![1],
        1 => vec![s.range(2, 9) as u32],
        2 => s.list(1, 6, 3, |s, _| s.range(1, 40) as u32),
        3 => vec![*s.pick(&[63u32, 64, 65, 511, 512, 4096, 8191, 8192])],
        _ => s.list(1, 5, 3, |s, _| *s.pick(&[1u32, 2, 3, 7, 100, 1000])),
    }
}

/// Delivers `data` according to a plan.
pub struct PlannedReader<'a> {
    data: &'a [u8],
    plan: &'a ReadPlan,
    pos: usize,
    calls: u64,
    chunk: usize,
    avail: usize,
    fault_done: bool,
    after_end: u32,
    pub faults_raised: u32,
}

impl<'a> PlannedReader<'a> {
    pub fn new(data: &'a [u8], plan: &'a ReadPlan) -> Self {
        PlannedReader {
            data,
            plan,
            pos: 0,
            calls: 0,
            chunk: 0,
            avail: 0,
            fault_done: false,
            after_end: 0,
            faults_raised: 0,
        }
    }
}

impl BufRead for PlannedReader<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.calls += 1;
        let n = self.plan.interrupt_every as u64;
        if n > 0 && self.calls % (n + 1) == 0 {
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        if self.avail == 0 {
            let mut limit = self.data.len();
            if let Some((at, kind, again)) = self.plan.fault {
                let at = (at as usize).min(self.data.len());
                if self.pos >= at && (again || !self.fault_done) {
                    self.fault_done = true;
                    self.faults_raised += 1;
                    if self.faults_raised > 10_000 {
                        panic!("reading goes on without end after a read error");
                    }
                    return Err(io::Error::new(
                        ERROR_KINDS[kind as usize % ERROR_KINDS.len()],
                        "planned fault",
                    ));
                }
                if self.pos < at {
                    limit = at;
                }
            }
            let c = if self.plan.chunks.is_empty() {
                0
            } else {
                self.plan.chunks[self.chunk % self.plan.chunks.len()] as usize
            };
            self.chunk += 1;
            let c = if c == 0 { usize::MAX } else { c };
            self.avail = (limit - self.pos).min(c);
            if self.avail == 0 {
                self.after_end += 1;
                if self.after_end > 10_000 {
                    panic!("reading goes on without end after the end of the input");
                }
            }
        }
        Ok(&self.data[self.pos..self.pos + self.avail])
    }
    fn consume(&mut self, n: usize) {
        assert!(n <= self.avail, "harness: consumed more than was given");
        self.pos += n;
        self.avail -= n;
    }
}

impl Read for PlannedReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let b = self.fill_buf()?;
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}

// ------------------------------------------------------------------ outcomes

/// The outcome of a load, comparable.
#[derive(Clone, Debug, PartialEq)]
pub enum Outcome {
    Loaded(Box<Obs>),
    Io(io::ErrorKind),
    Rejected { line: Option<usize>, debug: String },
}

pub fn io_kind(e: &LoadError) -> Option<io::ErrorKind> {
    match e.kind() {
        LoadErrorKind::Joints(LoadJointsError::Io(e)) => Some(e.kind()),
        LoadErrorKind::Motion(LoadMotionError::Io(e)) => Some(e.kind()),
        _ => None,
    }
}

pub fn outcome(r: &Result<Bvh, LoadError>) -> Outcome {
    match r {
        Ok(b) => Outcome::Loaded(Box::new(observe(b))),
        Err(e) => match io_kind(e) {
            Some(k) => Outcome::Io(k),
            None => Outcome::Rejected { line: e.line(), debug: format!("{:?}", e) },
        },
    }
}

pub fn brief(o: &Outcome) -> String {
    let s = match o {
        Outcome::Loaded(o) => {
            format!("loaded {} joints, {} frames", o.joints.len(), o.rows.len())
        }
        o => format!("{:?}", o),
    };
    s.chars().take(300).collect()
}

/// Everything one can do with an error.
pub fn exercise_error(e: LoadError) -> Result<(), String> {
    use std::error::Error;
    let _ = (e.to_string(), format!("{:?}", e), format!("{:#?}", e), e.line());
    let mut src: Option<&dyn Error> = Some(&e);
    let mut n = 0;
    while let Some(s) = src {
        let _ = (s.to_string(), format!("{:?}", s));
        src = s.source();
        n += 1;
        if n > 20 {
            return Err("the chain of error sources does not end".into());
        }
    }
    match e.into_kind() {
        LoadErrorKind::Joints(j) => {
            let _ = (j.line(), j.to_string());
            if let LoadJointsError::ParseChannelError { error, .. } = j {
                let _ = (error.to_string(), error.into_inner());
            }
        }
        LoadErrorKind::Motion(m) => {
            let _ = (m.line(), m.to_string());
        }
    }
    Ok(())
}

// ------------------------------------------------------------------- mutants

const TOKENS: [&str; 56] = [
    "HIERARCHY", "ROOT", "JOINT", "End", "Site", "OFFSET", "CHANNELS", "MOTION", "Frames:",
    "Frames", "Frame", "Time:", "{", "}", ":", "0", "1", "-1", "3", "6", "0.5", "-0.0", "1e999",
    "-1e999", "NaN", "nan", "inf", "-inf", "infinity", "+", "-", ".", "e", "1e", "1e+", "0x10",
    "18446744073709551615", "18446744073709551616", "9223372036854775807", "4294967296",
    "99999999999999999999999999999", "1000000000", "1e18", "1.8446744073709552e19", "1e20",
    "Xposition", "Zrotation", "xrotation", "Xrotatio", "Hips", "a:b", "::", "--5", "1_000", "5,0",
    "\u{a0}",
];

pub fn gen_token(s: &mut Source) -> Vec<u8> {
    match s.weighted(&[76, 10, 10, 4]) {
        0 => s.pick(&TOKENS).as_bytes().to_vec(),
        1 => gen_num(s).into_bytes(),
        2 => {
            let n = s.range(1, 6);
            (0..n).map(|_| s.upto(255) as u8).collect()
        }
        _ => gen_long_token(s),
    }
}

/// Up to some hundred bytes of text with characters of all lengths, or of
/// anything. What is drawn depends little on the length.
pub fn gen_long_token(s: &mut Source) -> Vec<u8> {
    const PARTS: [&str; 12] =
        ["a", "Xposition", "\u{e9}", "\u{624b}", "\u{1f642}", "e\u{301}", "\u{feff}", "0", "\u{7f}", "\"", "\\", "\u{1}"];
    let n = match s.upto(3) {
        0 => s.range(1, 20),
        1 => s.range(20, 70),
        2 => *s.pick(&[15usize, 16, 31, 32, 63, 64, 127, 128, 255, 256]),
        _ => s.range(1, 300),
    };
    let mut r = Rng(mix(s.upto(0xffff_ffff)));
    let lead = s.upto(3) as usize;
    let mut out = vec![b'x'; lead];
    match s.upto(3) {
        0 => {
            let p = s.pick(&PARTS).as_bytes();
            while out.len() < n {
                out.extend_from_slice(p);
            }
        }
        1 => {
            while out.len() < n {
                out.extend_from_slice(PARTS[r.below(PARTS.len() as u64) as usize].as_bytes());
            }
        }
        2 => {
            while out.len() < n {
                out.push(0x80 + r.below(0x80) as u8);
            }
        }
        _ => {
            while out.len() < n {
                let b = r.below(256) as u8;
                out.push(if b.is_ascii_whitespace() || b == 0x0b { b'_' } else { b });
            }
        }
    }
    out
}

pub fn gen_soup_line(s: &mut Source) -> Vec<Vec<u8>> {
    let t = |x: &[&str]| x.iter().map(|t| t.as_bytes().to_vec()).collect::<Vec<_>>();
    match s.upto(17) {
        0 => t(&["HIERARCHY"]),
        1 => t(&["ROOT", "r"]),
        2 => t(&["{"]),
        3 => t(&["}"]),
        4 => t(&["OFFSET", "0", "1.5", "-2"]),
        5 => t(&["CHANNELS", "3", "Xrotation", "Yrotation", "Zrotation"]),
        6 => t(&["CHANNELS", "0"]),
        7 => t(&["JOINT", "j"]),
        8 => t(&["End", "Site"]),
        9 => t(&["MOTION"]),
        10 => t(&["Frames:", "1"]),
        11 => t(&["Frames:", "0"]),
        12 => t(&["Frame", "Time:", "0.1"]),
        13 => t(&["1", "2", "3"]),
        14 => t(&["CHANNELS", "1", "Xposition"]),
        _ => s.list(0, 6, 2, |s, _| gen_token(s)),
    }
}

/// A skeleton of the format that is mostly walked along, but not always.
fn gen_walk(s: &mut Source) -> Vec<Vec<Vec<u8>>> {
    let mut out = Vec::new();
    let steps = s.range(3, 30);
    let mut depth = 0usize;
    let t = |x: &str| vec![x.split(' ').map(|t| t.as_bytes().to_vec()).collect::<Vec<_>>()];
    let mut state = 0; // 0 start, 1 after HIERARCHY, 2 after header, 3 in block, 4 motion..
    for _ in 0..steps {
        if s.chance(1, 14) {
            out.push(gen_soup_line(s));
            continue;
        }
        match state {
            0 => {
                out.extend(t("HIERARCHY"));
                state = 1;
            }
            1 => {
                out.extend(t("ROOT r"));
                state = 2;
            }
            2 => {
                out.extend(t("{"));
                depth += 1;
                state = 3;
            }
            3 => match s.upto(5) {
                0 => out.extend(t("OFFSET 1 2 3")),
                1 => out.extend(t("CHANNELS 2 Xposition Zrotation")),
                2 => {
                    out.extend(t("JOINT j"));
                    state = 2;
                }
                3 => {
                    out.extend(t("End Site"));
                    state = 2;
                }
                _ => {
                    out.extend(t("}"));
                    depth = depth.saturating_sub(1);
                    if depth == 0 {
                        state = 4;
                    }
                }
            },
            4 => {
                out.extend(t("MOTION"));
                state = 5;
            }
            5 => {
                out.extend(t(if s.bool() { "Frames: 0" } else { "Frames: 1" }));
                state = 6;
            }
            6 => {
                out.extend(t("Frame Time: 0.1"));
                state = 7;
            }
            _ => out.extend(t("1 2")),
        }
    }
    if s.chance(2, 3) && state > 0 && state <= 3 {
        if state == 2 {
            out.extend(t("{"));
            depth += 1;
        }
        for _ in 0..depth.max(1) {
            out.extend(t("}"));
        }
        out.extend(t("MOTION"));
        out.extend(t("Frames: 0"));
        out.extend(t("Frame Time: 0.1"));
    }
    out
}

/// The bytes of a document that is well-formed, nearly so, or not at all.
/// The second value tells which.
pub fn gen_mutant(s: &mut Source, cfg: &DocCfg) -> (Vec<u8>, &'static str) {
    let what = s.weighted(&[55, 20, 10, 8, 7]);
    let (mut lines, label): (Vec<Vec<Vec<u8>>>, &'static str) = match what {
        0 | 3 => {
            let doc = gen_doc(s, cfg);
            let layout = gen_layout(s);
            let mut l = doc.lines();
            l.extend(wrap_values(doc.rows(), &layout));
            if what == 3 {
                return (render_lines(&l, &layout).bytes, "well-formed");
            }
            (l.into_iter().map(|l| l.toks).collect(), "mutated document")
        }
        1 => (gen_walk(s), "walk of the format"),
        2 => (s.list(0, 40, 12, |s, _| gen_soup_line(s)), "lines in any order"),
        _ => {
            let b = if s.bool() {
                s.list(0, 60, 20, |s, _| s.upto(255) as u8)
            } else {
                s.list(0, 60, 20, |s, _| *s.pick(b" \t\r\n{}:.-+09eHRJOCMFESa\x00\xff\xc2\xa0"))
            };
            return (b, "raw bytes");
        }
    };
    // Mutations of lines and tokens.
    let n = s.weighted(&[15, 45, 20, 12, 8]);
    for _ in 0..n {
        if lines.is_empty() {
            break;
        }
        let i = s.below(lines.len());
        match s.upto(10) {
            0 => {
                lines.remove(i);
            }
            1 => {
                let l = lines[i].clone();
                lines.insert(i, l);
            }
            2 => {
                let j = s.below(lines.len());
                lines.swap(i, j);
            }
            3 => {
                let l = gen_soup_line(s);
                lines.insert(i, l);
            }
            4 => lines[i] = gen_soup_line(s),
            5 => {
                let l = lines.remove(i);
                let j = s.range(0, lines.len());
                lines.insert(j, l);
            }
            6 => {
                if !lines[i].is_empty() {
                    let k = s.below(lines[i].len());
                    lines[i].truncate(k);
                }
            }
            7 => {
                if !lines[i].is_empty() {
                    let k = s.below(lines[i].len());
                    lines[i][k] = gen_token(s);
                }
            }
            8 => {
                let k = s.range(0, lines[i].len());
                let t = gen_token(s);
                lines[i].insert(k, t);
            }
            9 => {
                // Join with the next line.
                if i + 1 < lines.len() {
                    let l = lines.remove(i + 1);
                    lines[i].extend(l);
                }
            }
            _ => lines.truncate(i),
        }
    }
    let sep = s.weighted(&[80, 10, 10]);
    let crlf = s.chance(1, 6);
    let mut bytes = Vec::new();
    for l in &lines {
        for (k, t) in l.iter().enumerate() {
            if k > 0 {
                bytes.extend_from_slice([&b" "[..], b"\t", b"  "][sep]);
            }
            bytes.extend_from_slice(t);
        }
        bytes.extend_from_slice(if crlf { b"\r\n" } else { b"\n" });
    }
    // Mutations of bytes.
    let n = s.weighted(&[70, 18, 8, 4]);
    for _ in 0..n {
        if bytes.is_empty() {
            break;
        }
        let i = s.below(bytes.len());
        match s.upto(5) {
            0 => bytes[i] = s.upto(255) as u8,
            1 => bytes.insert(i, s.upto(255) as u8),
            2 => {
                bytes.remove(i);
            }
            3 => bytes.truncate(i),
            4 => bytes[i] = *s.pick(b" \t\r\n{}:.-+0e\x00\x0b\x0c\xff\xa0"),
            _ => {
                let j = s.range(i, (i + 40).min(bytes.len()));
                let part = bytes[i..j].to_vec();
                bytes.splice(i..i, part);
            }
        }
    }
    (bytes, label)
}

const PADDED: &[u8] = b"HIERARCHY\nROOT r\n{\nOFFSET 0 1 2\nCHANNELS 1 Xposition\nJOINT a\n{\nOFFSET 1 1 1\nCHANNELS 0\n\
    End Site\n{\nOFFSET 0 0 1\n}\n}\n}\nMOTION\nFrames: 2\nFrame Time: 0.1\n1\n-2.5\n";

/// Where something is repeated in `PADDED`, and what.
pub fn padded_places() -> Vec<(usize, &'static [u8])> {
    let mut v: Vec<(usize, &'static [u8])> = Vec::new();
    for at in 0..=PADDED.len() {
        if at == 0 || PADDED[at - 1] == b'\n' {
            v.extend([&b"\n"[..], b" \n", b"x\n", b" "].map(|u| (at, u)));
        } else if at < PADDED.len() && PADDED[at] == b' ' {
            v.extend([&b" "[..], b":"].map(|u| (at, u)));
        } else if at < PADDED.len() && PADDED[at] == b'\n' {
            v.extend([&b" "[..], b" x"].map(|u| (at, u)));
        }
    }
    v
}

/// Documents that are large in one respect, by number.
pub fn big_input(kind: u8, n: u32) -> Vec<u8> {
    let n = n as usize;
    let mut b = Vec::new();
    let tail = b"MOTION\nFrames: 0\nFrame Time: 0.1\n";
    match kind {
        // A deep chain.
        0 => {
            b.extend_from_slice(b"HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 0\n");
            for _ in 0..n {
                b.extend_from_slice(b"JOINT j\n{\nOFFSET 0 0 0\nCHANNELS 0\n");
            }
            for _ in 0..=n {
                b.extend_from_slice(b"}\n");
            }
            b.extend_from_slice(tail);
        }
        // A long name.
        1 => {
            b.extend_from_slice(b"HIERARCHY\nROOT ");
            b.extend(std::iter::repeat(b'n').take(n));
            b.extend_from_slice(b"\n{\nOFFSET 0 0 0\nCHANNELS 0\n}\n");
            b.extend_from_slice(tail);
        }
        // Many channels of one joint.
        2 => {
            b.extend_from_slice(format!("HIERARCHY\nROOT r\n{{\nOFFSET 0 0 0\nCHANNELS {}", n).as_bytes());
            for _ in 0..n {
                b.extend_from_slice(b" Xposition");
            }
            b.extend_from_slice(b"\n}\n");
            b.extend_from_slice(tail);
        }
        // Many values on one line.
        3 => {
            b.extend_from_slice(b"HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 1 Xposition\n}\n");
            b.extend_from_slice(format!("MOTION\nFrames: {}\nFrame Time: 0.1\n", n).as_bytes());
            for _ in 0..n {
                b.extend_from_slice(b"1 ");
            }
        }
        // Many lines before anything.
        4 => b.extend(std::iter::repeat(b'\n').take(n)),
        // Opening braces only.
        5 => {
            b.extend_from_slice(b"HIERARCHY\nROOT r\n");
            for _ in 0..n {
                b.extend_from_slice(b"{\n");
            }
        }
        // Closing braces only.
        6 => {
            b.extend_from_slice(b"HIERARCHY\nROOT r\n{\n");
            for _ in 0..n {
                b.extend_from_slice(b"}\n");
            }
        }
        // A number of many digits.
        7 => {
            b.extend_from_slice(b"HIERARCHY\nROOT r\n{\nOFFSET 0.");
            b.extend(std::iter::repeat(b'9').take(n));
            b.extend_from_slice(b" 1 1\nCHANNELS 0\n}\n");
            b.extend_from_slice(tail);
        }
        // A wide tree.
        8 => {
            b.extend_from_slice(b"HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 0\n");
            for _ in 0..n {
                b.extend_from_slice(b"JOINT j\n{\n}\n");
            }
            b.extend_from_slice(b"}\n");
            b.extend_from_slice(tail);
        }
        // One thing repeated at one place of a document.
        10.. => {
            let (at, unit) = padded_places()[kind as usize - 10];
            b.extend_from_slice(&PADDED[..at]);
            for _ in 0..n {
                b.extend_from_slice(unit);
            }
            b.extend_from_slice(&PADDED[at..]);
        }
        // A number with many digits before the point, and a large exponent.
        _ => {
            b.extend_from_slice(b"HIERARCHY\nROOT r\n{\nOFFSET ");
            b.extend(std::iter::repeat(b'7').take(n));
            b.extend_from_slice(b"e-");
            b.extend(std::iter::repeat(b'9').take((n / 100).max(1)));
            b.extend_from_slice(b" 1 1\nCHANNELS 0\n}\n");
            b.extend_from_slice(tail);
        }
    }
    b
}

/// Whether what was accepted is a consistent animation.
pub fn consistent(bvh: &Bvh) -> Result<(), String> {
    let o = observe(bvh);
    if o.joints.is_empty() {
        return Err("loaded without a root joint".into());
    }
    let mut path: Vec<usize> = Vec::new();
    let mut ch = 0;
    for (i, (jo, j)) in bvh.joints().zip(&o.joints).enumerate() {
        if jo.index() != i {
            return Err(format!("joint {} says its index is {}", i, jo.index()));
        }
        if j.name.0.is_empty() {
            return Err(format!("joint {} has no name", i));
        }
        if jo.is_root() != (i == 0) || jo.is_child() == (i == 0) {
            return Err(format!("joint {}: wrong root or child flag", i));
        }
        match (i, j.parent) {
            (0, None) => {}
            (0, Some(p)) => return Err(format!("the first joint has the parent {}", p)),
            (_, None) => return Err(format!("joint {} has no parent", i)),
            (_, Some(p)) => {
                if p >= i {
                    return Err(format!("joint {} has the later parent {}", i, p));
                }
                match path.iter().position(|q| *q == p) {
                    Some(at) => path.truncate(at + 1),
                    None => {
                        return Err(format!(
                            "joint {} has the parent {}, whose children have been listed already",
                            i, p
                        ))
                    }
                }
            }
        }
        path.push(i);
        for (_, idx) in &j.channels {
            if *idx != ch {
                return Err(format!("joint {}: channel numbered {} instead of {}", i, idx, ch));
            }
            ch += 1;
        }
    }
    if ch != o.num_channels {
        return Err(format!("{} channels, but num_channels() is {}", ch, o.num_channels));
    }
    for (i, r) in o.rows.iter().enumerate() {
        if r.len() != ch {
            return Err(format!("frame {} has {} values for {} channels", i, r.len(), ch));
        }
    }
    // Nothing is left over beside the whole frames.
    let mut c = bvh.clone();
    let flat = c.extract_frames();
    if flat.len() != o.rows.len() * ch {
        return Err(format!("{} motion values in {} frames of {}", flat.len(), o.rows.len(), ch));
    }
    Ok(())
}
