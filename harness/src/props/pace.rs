//! C24: the time that things take grows with what they are about.

use crate::{engine::*, model::Opts};
use bvh_anim::Bvh;
use serde::{Deserialize, Serialize};
use std::{
    hint::black_box,
    io::{self, Write},
};

/// Bytes of the small document, and how many times as large the others are.
const SMALL: usize = 1 << 16;
const STEPS: [usize; 2] = [16, 64];
/// How much more than in proportion the time may grow: where there is much to
/// do for a byte, and where a small animation is quick because it fits a cache.
const MARGIN: f64 = 8.0;
const CACHED: f64 = 16.0;
const SLACK: f64 = 0.004;
const ATTEMPTS: usize = 6;

/// What a part of the hierarchy is made of, over and over.
pub const PARTS: u8 = 16;
/// What the motion section is made of.
pub const MOTIONS: u8 = 6;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    /// In pieces of so many bytes (0: all at once).
    Load(u32),
    /// With the line removed or spoiled that is so many per mille into the text.
    Spoiled(u16, u8),
    Write(Opts),
    /// To a sink that takes so many bytes at a time.
    Sink(u32),
    Copy,
    Print,
    Joints,
    Find,
    Frames(u8),
    /// Frames added at the end: one by one, or all at once.
    Append(bool),
    /// A frame inserted at, and one removed from, so many per mille.
    EditOne(u16),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    /// Kinds of parts, with their share of the text.
    pub parts: Vec<(u8, u8)>,
    pub motion: (u8, u8),
    pub crlf: bool,
    pub op: Op,
}

struct Builder {
    t: String,
    eol: &'static str,
    depth: usize,
    joints: usize,
    channels: usize,
}

impl Builder {
    fn line(&mut self, s: &str) {
        self.t.push_str(s);
        self.t.push_str(self.eol);
    }
    fn joint(&mut self, channels: usize) {
        let names = ["Xposition", "Yrotation", "Zrotation", "Xrotation"];
        let name = format!("JOINT j{}", self.joints);
        self.line(&name);
        self.line("{");
        self.line("OFFSET 0 1.5 -2");
        let list: Vec<&str> = (0..channels).map(|i| names[i % 4]).collect();
        let list = format!("CHANNELS {} {}", channels, list.join(" "));
        self.line(&list);
        self.joints += 1;
        self.channels += channels;
        self.depth += 1;
    }
    fn close(&mut self) {
        self.line("}");
        self.depth -= 1;
    }
    fn end_site(&mut self) {
        self.line("End Site");
        self.line("{");
        self.line("OFFSET 0 0 1");
        self.line("}");
    }
    /// A part of the hierarchy of about so many bytes, which begins and ends
    /// inside of a joint that has its channels, and perhaps children.
    fn part(&mut self, kind: u8, bytes: usize) {
        let until = self.t.len() + bytes;
        let start = self.depth;
        let mut i = 0;
        while self.t.len() < until {
            let rest = until - self.t.len();
            match kind % PARTS {
                // Children with and without end sites and channels.
                0 => {
                    self.joint(1);
                    self.end_site();
                    self.close();
                }
                1 => {
                    self.joint(0);
                    self.close();
                }
                // A chain, left open.
                2 => self.joint(i % 2),
                // Two down, one up.
                3 => {
                    self.joint(1);
                    self.joint(0);
                    self.end_site();
                    self.close();
                }
                // Down and up again.
                4 => {
                    for _ in 0..40 {
                        self.joint(1);
                    }
                    for _ in 0..40 {
                        self.close();
                    }
                }
                5 => self.line(""),
                6 => self.line("  \t "),
                7 => self.line("some other line"),
                8 => {
                    let t = format!("{}x", " ".repeat(rest));
                    self.line(&t);
                }
                // One joint with much of something.
                9 => {
                    self.joint(rest / 11);
                    self.close();
                }
                10 => {
                    self.joint(1);
                    let name = format!("JOINT {}", "n".repeat(rest));
                    self.line(&name);
                    self.line("{");
                    self.line("}");
                    self.close();
                }
                11 => {
                    self.joint(1);
                    let t = format!("OFFSET 0 1.{} 2", "3".repeat(rest));
                    self.line(&t);
                    self.close();
                }
                // Half of two numbers' distance.
                12 => {
                    self.joint(1);
                    let t = format!("OFFSET 16777217.{}1 1{}e-{} 2", "0".repeat(rest / 2), "0".repeat(rest / 2), rest / 2);
                    self.line(&t);
                    self.close();
                }
                13 => {
                    self.joint(1);
                    for _ in 0..rest / 16 {
                        self.line("OFFSET 1 2 3");
                    }
                    self.close();
                }
                14 => {
                    let t = "word ".repeat(rest / 5 + 1);
                    self.line(&t);
                }
                // The same name throughout, children of children of the root.
                _ => {
                    self.joint(3);
                    self.joint(3);
                    self.end_site();
                    self.close();
                    self.close();
                }
            }
            i += 1;
        }
        // Every other part stays inside what it opened.
        if kind & 0x80 != 0 {
            while self.depth > start {
                self.close();
            }
        }
    }
}

impl Case {
    fn text(&self, bytes: usize) -> String {
        let all: usize = self.parts.iter().map(|p| p.1 as usize + 1).sum::<usize>() + self.motion.1 as usize;
        let mut b = Builder {
            t: String::with_capacity(bytes + bytes / 4 + 1000),
            eol: if self.crlf { "\r\n" } else { "\n" },
            depth: 1,
            joints: 1,
            channels: 1,
        };
        b.line("HIERARCHY");
        b.line("ROOT j0");
        b.line("{");
        b.line("OFFSET 0 0 0");
        b.line("CHANNELS 1 Xposition");
        for (kind, share) in &self.parts {
            b.part(*kind, bytes * (*share as usize + 1) / all);
        }
        while b.depth > 0 {
            b.close();
        }
        b.line("MOTION");
        let left = bytes * self.motion.1 as usize / all;
        let width = match self.motion.0 % MOTIONS {
            2 => 40,
            _ => 6,
        };
        let frames = left / width / b.channels;
        let line = format!("Frames: {}", frames);
        b.line(&line);
        if self.motion.0 % MOTIONS == 3 {
            for _ in 0..left / 8 {
                b.line(" ");
            }
        }
        b.line("Frame Time: 0.0333");
        let mut k = 0;
        for _ in 0..frames {
            for c in 0..b.channels {
                let v = k % 1000;
                k += 1;
                match self.motion.0 % MOTIONS {
                    2 => b.t.push_str(&format!("{}.00000000000000012345678901234567 ", v)),
                    _ => b.t.push_str(&format!("{}.25 ", v)),
                }
                // All in one line, one per line, or a frame per line.
                match self.motion.0 % MOTIONS {
                    1 => b.t.push_str(b.eol),
                    0 | 2 | 3 if c + 1 == b.channels => b.t.push_str(b.eol),
                    4 if k % 3 == 0 => {
                        b.t.push_str(b.eol);
                        b.t.push_str(b.eol)
                    }
                    _ => {}
                }
            }
        }
        b.t.push_str(b.eol);
        b.t
    }
}

struct Sink(usize, u64);
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.0.max(1));
        self.1 += n as u64;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

struct Pieces<'a>(&'a [u8], usize);
impl io::Read for Pieces<'_> {
    fn read(&mut self, to: &mut [u8]) -> io::Result<usize> {
        let n = to.len().min(self.1).min(self.0.len());
        to[..n].copy_from_slice(&self.0[..n]);
        self.0 = &self.0[n..];
        Ok(n)
    }
}
impl io::BufRead for Pieces<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        Ok(&self.0[..self.1.min(self.0.len())])
    }
    fn consume(&mut self, n: usize) {
        self.0 = &self.0[n..];
    }
}

/// The time this thread has used.
fn cpu() -> f64 {
    #[repr(C)]
    struct Timespec {
        sec: i64,
        nsec: i64,
    }
    extern "C" {
        fn clock_gettime(id: i32, to: *mut Timespec) -> i32;
    }
    let mut t = Timespec { sec: 0, nsec: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    let r = unsafe { clock_gettime(3, &mut t) };
    assert_eq!(r, 0);
    t.sec as f64 + t.nsec as f64 * 1e-9
}

/// What is to be timed, and the size of what it is about.
struct Job {
    text: Vec<u8>,
    bvh: Option<Bvh>,
    rows: Vec<Vec<f32>>,
}

impl Job {
    fn new(c: &Case, bytes: usize) -> Option<Job> {
        let mut text = c.text(bytes).into_bytes();
        let mut rows = vec![];
        if let Op::Spoiled(at, how) = c.op {
            let at = (text.len() as u64 * at as u64 / 1000) as usize;
            let at = text[..at.min(text.len())].iter().rposition(|b| *b == b'\n').map_or(0, |i| i + 1);
            match how % 3 {
                0 => text.truncate(at),
                1 => {
                    text.splice(at..at, b"CHANNELS x\n".iter().copied());
                }
                _ => {
                    text.splice(at..at, b"} }\n}\n".iter().copied());
                }
            }
        }
        let bvh = match c.op {
            Op::Load(_) | Op::Spoiled(..) => None,
            _ => Some(bvh_anim::from_bytes(&text).ok()?),
        };
        if let (Op::Append(_), Some(b)) = (&c.op, &bvh) {
            let n = b.num_channels();
            rows = (0..(bytes / 16 / n).max(1)).map(|i| vec![i as f32; n]).collect();
        }
        Some(Job { text, bvh, rows })
    }
    /// Does it once; the units of work and the seconds it took.
    fn run(&mut self, op: &Op) -> (usize, f64) {
        let size = self.text.len();
        let Job { text, bvh, rows } = self;
        macro_rules! timed {
            ($e:expr) => {{
                let start = cpu();
                let r = black_box($e);
                let took = cpu() - start;
                (r, took)
            }};
        }
        let Some(b) = bvh.as_mut() else {
            let (r, took) = match op {
                Op::Load(n) if *n > 0 => timed!(bvh_anim::from_reader(Pieces(text, *n as usize))),
                _ => timed!(bvh_anim::from_bytes(text)),
            };
            // An error names the line it is on, and reading may stop there.
            let read = match &r {
                Err(e) => e.line().map_or(size, |l| {
                    let mut ends = text.iter().enumerate().filter(|(_, b)| **b == b'\n');
                    ends.nth(l).map_or(size, |(at, _)| at + 1)
                }),
                Ok(_) => size,
            };
            let start = cpu();
            drop(r);
            return (read, took + cpu() - start);
        };
        let n = b.frames().len();
        let (units, took) = match op {
            Op::Write(o) => timed!(o.build().write_to_string(b).len()),
            Op::Sink(k) => timed!({
                let mut s = Sink(*k as usize, 0);
                let _ = b.write_to(&mut s);
                s.1 as usize
            }),
            Op::Copy => timed!({
                let c = b.clone();
                black_box(c == *b);
                size
            }),
            Op::Print => timed!(format!("{:?}", b).len()),
            Op::Joints => timed!({
                let mut s = 0;
                for j in b.joints() {
                    s += j.channels().len() + j.name().len() + j.parent_index().unwrap_or(0) + j.index();
                    s += j.parent().map_or(0, |p| p.index());
                }
                s += b.joints_mut().count();
                s += b.root_joint().map_or(0, |r| r.children().count());
                black_box(s);
                size
            }),
            Op::Find => timed!({
                let last = b.joints().last().map(|j| j.name().to_vec()).unwrap_or_default();
                black_box(b.joints().find_by_name(&last).map(|j| j.index()));
                size
            }),
            Op::Frames(k) => timed!({
                let mut s = 0;
                match k % 5 {
                    0 => b.frames().for_each(|f| s += f.len() + f[0] as usize),
                    1 => b.frames().rev().for_each(|f| s += f.len()),
                    2 => b.frames_mut().for_each(|mut f| f.as_mut_slice()[0] += 1.0),
                    3 => {
                        let mut it = b.frames();
                        while let Some(f) = it.nth(1) {
                            s += f.len() + it.len();
                        }
                    }
                    _ => {
                        let mut c = b.frame_cursor();
                        while c.index() < c.len() {
                            c.move_next();
                            s += c.index();
                        }
                        while c.index() > 0 {
                            c.move_prev();
                        }
                        s += c.into_frames().map(|f| f.len()).sum::<usize>();
                    }
                }
                black_box(s);
                size
            }),
            Op::Append(one) => {
                let (_, took) = timed!({
                    let mut c = b.frame_cursor();
                    c.move_last();
                    if *one {
                        for r in rows.iter() {
                            let _ = c.try_insert_frame(r);
                        }
                    } else {
                        let _ = c.try_insert_frames(rows.iter());
                    }
                });
                let mut c = b.frame_cursor();
                // As many as before.
                if c.len() > n {
                    let mut v = b.extract_frames();
                    v.truncate(n * b.num_channels());
                    let mut c = b.frame_cursor();
                    if let Some(k) = std::num::NonZeroUsize::new(c.num_channels()) {
                        for r in v.chunks_exact(k.get()) {
                            let _ = c.try_insert_frame(r);
                        }
                    }
                } else {
                    c.move_last();
                }
                (size, took)
            }
            Op::EditOne(at) => {
                let row = vec![1.5; b.num_channels()];
                timed!({
                    let mut c = b.frame_cursor();
                    for _ in 0..n * *at as usize / 1000 {
                        c.move_next();
                    }
                    let _ = c.try_insert_frame(&row);
                    for _ in 0..3 {
                        c.move_prev();
                    }
                    let _ = c.remove_frame();
                    size
                })
            }
            Op::Load(_) | Op::Spoiled(..) => unreachable!(),
        };
        (units, took)
    }
}

fn gen_op(s: &mut Source) -> Op {
    match s.weighted(&[40, 20, 12, 6, 6, 4, 8, 4, 8, 8, 6]) {
        0 => Op::Load(*s.pick(&[0u32, 0, 0, 1, 7, 64, 4096, 65536])),
        1 => Op::Spoiled(s.upto(1000) as u16, s.upto(2) as u8),
        2 => Op::Write(Opts {
            // Tabs may take more text than there is room for.
            indent: Some(0),
            windows: s.bool(),
            offset: if s.bool() { Some(s.upto(12) as u16) } else { None },
            time: None,
            motion: if s.bool() { Some(s.upto(12) as u16) } else { None },
        }),
        3 => Op::Sink(*s.pick(&[1u32, 5, 100, 1 << 20])),
        4 => Op::Copy,
        5 => Op::Print,
        6 => Op::Joints,
        7 => Op::Find,
        8 => Op::Frames(s.upto(4) as u8),
        9 => Op::Append(s.bool()),
        _ => Op::EditOne(s.upto(1000) as u16),
    }
}

/// A chain of joints, which tabs make longer than memory.
fn deep(kind: u8) -> bool {
    matches!(kind % PARTS, 2 | 3)
}

fn compare(op: &Op, small: &mut Job, large: &mut Job, cx: &mut Cx) -> Verdict {
    let (mut slow, mut fast) = (f64::MAX, 0f64);
    let mut grown = 0.0;
    let margin = match op {
        Op::Load(_) | Op::Spoiled(..) | Op::Write(_) | Op::Sink(_) | Op::Print => MARGIN,
        _ => CACHED,
    };
    for attempt in 0..ATTEMPTS {
        // What takes little time is done several times.
        let (mut units, mut t) = (0, 0.0);
        let mut rounds = 0;
        while rounds < 200 && (t < 0.002 || rounds < 2) {
            let (u, took) = small.run(op);
            units = u;
            t += took;
            rounds += 1;
        }
        let (many, took) = large.run(op);
        grown = many as f64 / units.max(1) as f64;
        fast = fast.max(t / rounds as f64);
        slow = slow.min(took);
        cx.comparisons += 1;
        cx.nontrivial |= took >= SLACK;
        let r = slow / (fast * grown);
        if slow <= SLACK || r <= margin {
            cx.label_if(slow > SLACK && r > 3.0, "3 times as much per byte");
            cx.label_if(slow > SLACK && r > 2.0, "2 times as much per byte");
            cx.label_if(attempt > 0, "measured again");
            return Ok(());
        }
        // Far too slow for noise.
        if attempt > 0 && slow > 3.0 {
            break;
        }
    }
    Err(format!(
        "{:?}: {:.0} times as many bytes take {:.0} times as long ({:.4} s instead of {:.6} s)",
        op, grown, slow / fast, slow, fast
    ))
}

pub struct C24;
impl Prop for C24 {
    type Case = Case;
    const ID: &'static str = "C24";
    const CASES: (u64, u64) = (2_000, 40_000);
    const RULE: &'static str = "A case is a recipe for a document (chains, children, combs, long names, lists, numbers, lines and \
blanks, many frames) and an operation. It is made with 64 KiB, with 16 times and with 64 times that, and the processor time that the operation \
takes may not grow more than 8 times as much as the bytes read or written do (16 times for \
what neither reads nor writes; the least of up to 6 measurements \
counts). Non-trivial: the larger one takes at least 4 milliseconds.";
    fn gen(s: &mut Source) -> Case {
        let op = gen_op(s);
        let parts = s.list(1, 3, 2, |s, _| ((s.upto(PARTS as u64 - 1) as u8) | (s.upto(1) as u8) << 7, s.upto(7) as u8));
        let motion = (s.upto(MOTIONS as u64 - 1) as u8, if s.bool() { s.upto(15) as u8 } else { 0 });
        Case { parts, motion, crlf: s.chance(1, 4), op }
    }
    fn check(c: &Case, cx: &mut Cx) -> Verdict {
        let mut c = c.clone();
        if let Op::Sink(_) = c.op {
            // Written with tabs.
            c.parts.iter_mut().filter(|p| deep(p.0)).for_each(|p| p.0 = 4);
        }
        let c = &c;
        let Some(mut small) = Job::new(c, SMALL) else {
            cx.discarded = true;
            return Ok(());
        };
        for times in STEPS {
            let Some(mut large) = Job::new(c, SMALL * times) else {
                cx.discarded = true;
                return Ok(());
            };
            compare(&c.op, &mut small, &mut large, cx)?;
        }
        Ok(())
    }
    fn fixed() -> Vec<Case> {
        let mut out = Vec::new();
        for kind in 0..PARTS {
            for op in [Op::Load(0), Op::Write(Opts { indent: Some(0), ..Opts::DEFAULT }), Op::Joints, Op::Copy] {
                out.push(Case { parts: vec![(kind, 0)], motion: (0, 0), crlf: false, op });
            }
            out.push(Case { parts: vec![(2, 3), (kind | 0x80, 3)], motion: (0, 1), crlf: true, op: Op::Load(4096) });
        }
        for m in 0..MOTIONS {
            for op in [Op::Load(0), Op::Spoiled(980, 1), Op::Frames(m), Op::Append(m % 2 == 0), Op::EditOne(150 * m as u16), Op::Print] {
                out.push(Case { parts: vec![(0, 0)], motion: (m, 200), crlf: false, op });
            }
        }
        out
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["The clock of the thread's processor time; what slows down by less than the factor is not told from noise and the effect of caches."]
    }
}
