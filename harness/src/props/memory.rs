//! C23: the memory that reading, editing and writing take, and give back.

use super::{cursor, deliver, life, write};
use crate::{alloc, engine::*, model::*};
use bvh_anim::Bvh;
use serde::{Deserialize, Serialize};
use std::{
    fmt,
    io::{self, Write},
    sync::atomic::{AtomicU64, Ordering},
};

const PER_BYTE: usize = 16;
const CONSTANT: usize = 1 << 19;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    Write(Opts),
    ToString(Opts),
    /// Frames that are inserted; the iterator claims to have at most so many
    /// more of them.
    Insert { at: u32, frames: u16, more: u64, bad: bool },
    /// Frames inserted one by one.
    Single { at: u32, frames: u16, bad: bool },
    Remove(u32),
    Clone,
    Compare,
    Print,
    /// Each joint with its parent, children and the first of its name.
    Walk,
    Frames { from: u32, back: bool, mutable: bool },
    Times(u64, u32),
    Shrink,
    Extract,
    RemoveAll,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Case {
    /// Operations on an animation.
    Peak(Anim, Vec<Op>),
    /// The same on one of a size.
    Large(u8, u32, Vec<Op>),
    /// Cases of other properties, made again and again.
    History(life::Case),
    Sink(<write::C11 as Prop>::Case),
    Delivery(<deliver::C08 as Prop>::Case),
    Cursor(<cursor::C12 as Prop>::Case),
    /// A document that is loaded again and again, with names and numbers that
    /// have not been there before; then edited and written, unless something
    /// is wrong with it.
    Fresh { doc: Doc, layout: Layout, opts: Opts, wrong: u8, via: u8 },
}

/// Nothing twice in this process.
static FRESH: AtomicU64 = AtomicU64::new(0);

fn fresh(doc: &Doc) -> (Doc, String) {
    let no = format!("{:010}", FRESH.fetch_add(1, Ordering::Relaxed));
    let mut d = doc.clone();
    for (i, j) in d.joints.iter_mut().enumerate() {
        j.name.0.extend_from_slice(no.as_bytes());
        j.offset[i % 3] = format!("1.{}", no);
        if let Some(e) = &mut j.end_site {
            e[i % 3] = format!("-2.{}", no);
        }
    }
    match &mut d.motion {
        MotionDoc::Rows(r) => {
            for (i, v) in r.iter_mut().flatten().enumerate() {
                if i % 2 == 0 {
                    *v = format!("{}.{}", i, no);
                }
            }
        }
        MotionDoc::Bulk { .. } => {}
    }
    d.frame_time = format!("0.{}", no);
    (d, no)
}

/// Loads, edits, writes and drops once.
fn fresh_round(doc: &Doc, layout: &Layout, opts: &Opts, wrong: u8, via: u8) {
    let (d, no) = fresh(doc);
    let mut t = render(&d, layout);
    match wrong {
        0 => {}
        1 => t.extend_from_slice(format!("\n{}x\n", no).as_bytes()),
        2 => t.extend_from_slice(format!("\n{}\n", no).as_bytes()),
        3 => {
            let at = t.len() / 2;
            t.truncate(at);
            t.extend_from_slice(no.as_bytes());
        }
        _ => {
            let bad = format!("X{}", no);
            t = String::from_utf8_lossy(&t).replacen("rotation", &bad, 1).into_bytes();
        }
    }
    let r = match via {
        0 => bvh_anim::from_bytes(&t),
        1 => bvh_anim::from_reader(&t[..]),
        2 => bvh_anim::from_reader(io::BufReader::with_capacity(7, &t[..])),
        _ => bvh_anim::from_str(&String::from_utf8_lossy(&t)),
    };
    match r {
        Err(e) => {
            let _ = (e.to_string(), format!("{:?}", e));
        }
        Ok(mut b) => {
            let c = b.clone();
            let name = d.joints[d.joints.len() - 1].name.0.clone();
            let _ = (b == c, b.joints().find_by_name(&name).map(|j| j.index()));
            let row = vec![1.5; b.num_channels()];
            let _ = b.frame_cursor().try_insert_frame(&row).map(|_| ());
            let _ = (opts.build().write_to_string(&b), format!("{:?}", b));
        }
    }
}

/// Whether more and more is held, as ever more different things go by.
fn hoards(doc: &Doc, layout: &Layout, opts: &Opts, wrong: u8, via: u8, cx: &mut Cx) -> Verdict {
    let mut rounds = 0;
    let mut start = alloc::live();
    let mut bytes = 0;
    for until in [5, 12, 30, 70, 150, 310, 630, 1270] {
        for _ in rounds..until {
            if guard(|| fresh_round(doc, layout, opts, wrong, via)).is_err() {
                cx.discarded = true;
                return Ok(());
            }
        }
        rounds = until;
        let now = alloc::live();
        cx.comparisons += 1;
        cx.nontrivial = true;
        // The first rounds may set something up.
        if until > 5 {
            if now <= start {
                return Ok(());
            }
            bytes += now - start;
        }
        start = now;
    }
    ensure!(false, "loading {} different documents has left {} bytes behind, and ever more", rounds, bytes);
    Ok(())
}

struct Count(usize);
impl Write for Count {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.0 += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
impl fmt::Write for Count {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.0 += s.len();
        Ok(())
    }
}

/// An iterator that may go on for longer than it does.
struct AtMost<I>(I, usize);
impl<I: Iterator> Iterator for AtMost<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        self.0.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        let (low, high) = self.0.size_hint();
        (low, high.and_then(|h| h.checked_add(self.1)))
    }
}

fn gen_op(s: &mut Source) -> Op {
    match s.weighted(&[16, 8, 24, 8, 4, 4, 4, 8, 10, 3, 3, 3, 3, 10]) {
        0 => Op::Write(gen_opts(s)),
        1 => Op::ToString(gen_opts(s)),
        2 => Op::Insert {
            at: s.upto(9) as u32,
            frames: {
                let most = if s.chance(1, 20) { 2000 } else { 6 };
                s.upto(most) as u16
            },
            more: match s.upto(3) {
                0 => 0,
                1 => s.upto(1000),
                2 => 1 << s.range(10, 40),
                _ => u64::MAX >> s.upto(8),
            },
            bad: s.chance(1, 6),
        },
        3 => Op::Remove(s.upto(9) as u32),
        4 => Op::Clone,
        5 => Op::Compare,
        6 => Op::Print,
        7 => Op::Walk,
        8 => Op::Frames { from: s.upto(9) as u32, back: s.bool(), mutable: s.bool() },
        9 => Op::Times(s.upto(u64::MAX), s.upto(999_999_999) as u32),
        10 => Op::Shrink,
        11 => Op::Extract,
        12 => Op::RemoveAll,
        _ => Op::Single { at: s.upto(9) as u32, frames: s.upto(30) as u16, bad: s.chance(1, 6) },
    }
}

/// What the animation has to hold.
fn size(b: &Bvh) -> usize {
    let joints: usize = b.joints().map(|j| j.name().len() + 16 * j.channels().len() + 64).sum();
    joints + b.frames().len() * b.num_channels() * 4
}

/// The work of an operation, and the bytes it is about.
fn run(b: &mut Bvh, op: &Op, rows: &[Vec<f32>]) -> Result<usize, String> {
    let n = b.frames().len();
    Ok(match op {
        Op::Write(o) => {
            let mut c = Count(0);
            o.build().write(b, &mut c).map_err(|e| e.to_string())?;
            c.0
        }
        Op::ToString(o) => o.build().write_to_string(b).len(),
        Op::Insert { at, more, .. } => {
            let mut c = b.frame_cursor();
            for _ in 0..(*at as usize).min(n) {
                c.move_next();
            }
            let _ = c.try_insert_frames(AtMost(rows.iter(), *more as usize));
            rows.iter().map(|r| r.len() * 4).sum()
        }
        Op::Single { at, .. } => {
            let mut c = b.frame_cursor();
            for _ in 0..(*at as usize).min(n) {
                c.move_next();
            }
            for r in rows {
                let _ = c.try_insert_frame(r).map(|_| ());
            }
            rows.iter().map(|r| r.len() * 4).sum()
        }
        Op::Remove(at) => {
            let mut c = b.frame_cursor();
            for _ in 0..*at {
                c.move_next();
            }
            let _ = c.remove_frame();
            0
        }
        Op::Clone => {
            *b = b.clone();
            0
        }
        Op::Compare => {
            ensure!(b.joints().zip(b.joints()).all(|(x, y)| x.name() == y.name()), "a name differs from itself");
            let _ = *b == *b;
            0
        }
        Op::Print => {
            let mut c = Count(0);
            let _ = fmt::write(&mut c, format_args!("{:?}", b));
            c.0
        }
        Op::Walk => {
            for j in b.joints().take(300) {
                let _ = (j.parent().map(|p| p.index()), j.children().count());
                let _ = b.joints().find_by_name(j.name()).map(|f| f.index());
            }
            0
        }
        Op::Frames { from, back, mutable } => {
            let mut c = b.frame_cursor();
            for _ in 0..*from {
                c.move_next();
            }
            let _ = (c.peek_prev().map(|f| f.len()), c.peek_next_mut().map(|f| f.len()));
            let add = |s: usize, l: usize| s.wrapping_add(l);
            let _ = match (back, mutable) {
                (false, false) => c.into_frames().map(|f| f.len()).fold(0, add),
                (true, false) => c.into_frames().rev().map(|f| f.len()).fold(0, add),
                (false, true) => c.into_frames_mut().map(|f| f.len()).fold(0, add),
                (true, true) => c.into_frames_mut().rev().map(|f| f.len()).fold(0, add),
            };
            0
        }
        Op::Times(secs, nanos) => {
            b.set_frame_time(std::time::Duration::new(*secs, *nanos));
            0
        }
        Op::Shrink => {
            b.frame_cursor().shrink_to_fit();
            0
        }
        Op::Extract => b.extract_frames().len() * 4,
        Op::RemoveAll => {
            b.frame_cursor().remove_all_frames();
            0
        }
    })
}

fn peaks(mut b: Bvh, ops: &[Op], cx: &mut Cx) -> Verdict {
    for (i, op) in ops.iter().enumerate() {
        let n = b.num_channels();
        let rows: Vec<Vec<f32>> = match op {
            Op::Insert { frames, bad, .. } | Op::Single { frames, bad, .. } => {
                // No more than some 100 thousand values.
                let frames = (*frames as usize).min(100_000 / n.max(1));
                (0..frames).map(|k| vec![k as f32; n + (*bad && k + 1 == frames) as usize]).collect()
            }
            _ => vec![],
        };
        let before = size(&b);
        let (r, peak) = alloc::peak(4 << 30, || guard(|| run(&mut b, op, &rows)));
        let about = match r {
            Ok(r) => r?,
            // A request too large to even be made.
            Err(p) if p.contains("capacity overflow") => return Err(format!("operation {} ({:?}): {}", i, op, p)),
            Err(_) => {
                cx.discarded = true;
                return Ok(());
            }
        };
        let held = before.max(size(&b)) + about;
        let bound = held * PER_BYTE + CONSTANT;
        ensure!(
            peak <= bound,
            "operation {} ({:?}) on an animation of {} bytes held {} bytes at its peak (bound {})",
            i, op, held, peak, bound
        );
        cx.comparisons += 1;
        cx.nontrivial |= held > 4096 || matches!(op, Op::Insert { more, .. } if *more > 1 << 20);
        cx.label_if(peak * 8 > bound, "peak above an eighth of the bound");
        cx.label_if(held > 100_000, "more than 100 thousand bytes");
    }
    Ok(())
}

/// Whether what is left behind grows with every round.
fn leaks<P: Prop>(case: &P::Case, cx: &mut Cx) -> Verdict {
    let mut grew = 0;
    let mut bytes = 0;
    for round in 0..40 {
        let before = alloc::live();
        let (v, inner) = run_check::<P>(case);
        if v.is_err() || inner.discarded {
            // Another property's business.
            cx.discarded = true;
            return Ok(());
        }
        if round == 0 {
            cx.nontrivial = inner.nontrivial;
            cx.label_if(inner.nontrivial, "non-trivial history");
        }
        drop((v, inner));
        let after = alloc::live();
        cx.comparisons += 1;
        // The first rounds may set something up.
        if round < 2 {
            continue;
        }
        if after <= before {
            return Ok(());
        }
        grew += 1;
        bytes += after - before;
    }
    ensure!(false, "{} times in a row, what is held has grown, by {} bytes in all", grew, bytes);
    Ok(())
}

pub struct C23;
impl Prop for C23 {
    type Case = Case;
    const ID: &'static str = "C23";
    const CASES: (u64, u64) = (400_000, 4_000_000);
    const RULE: &'static str = "A case is an animation (small or of up to 100000 frames, channels, joints or name bytes) with \
up to 10 operations (insertions from iterators that claim to go on for longer, removals, walks, writing with any options, \
cloning, printing), each of which holds at its peak no more than 16 bytes for each of the animation, the frames inserted and the \
text written, plus 512 KiB; or a history, delivery, sink or cursor case of another property, run again and again until a \
round leaves nothing more behind than there was before it; or documents that all differ in names and numbers (well-formed or not) \
loaded one after another. Non-trivial: more than 4096 bytes, or a claim of more than \
2^20 frames, or a non-trivial case of the other property.";
    fn gen(s: &mut Source) -> Case {
        match s.weighted(&[40, 30, 10, 10, 10, 10]) {
            0 => {
                let cfg = DocCfg { scale: 300, ..DocCfg::SMALL };
                Case::Peak(gen_anim(s, &cfg), s.list(1, 10, 3, |s, _| gen_op(s)))
            }
            1 => Case::History(life::C19::gen(s)),
            2 => Case::Sink(write::C11::gen(s)),
            3 => Case::Delivery(deliver::C08::gen(s)),
            4 => Case::Cursor(cursor::C12::gen(s)),
            _ => Case::Fresh {
                doc: gen_doc(s, &DocCfg { max_joints: 5, max_frames: 4, max_values: 40, ..DocCfg::SMALL }),
                layout: gen_layout(s),
                opts: gen_opts(s),
                wrong: s.weighted(&[5, 2, 2, 2, 2]) as u8,
                via: s.upto(3) as u8,
            },
        }
    }
    fn check(c: &Case, cx: &mut Cx) -> Verdict {
        match c {
            Case::Peak(a, ops) => match a.build() {
                Some(b) => peaks(b, ops, cx),
                None => {
                    cx.discarded = true;
                    Ok(())
                }
            },
            Case::Large(kind, n, ops) => match bvh_anim::from_bytes(&render(&scale_doc(*kind, *n as usize), &Layout::FLAT)) {
                Ok(b) => peaks(b, ops, cx),
                Err(_) => {
                    cx.discarded = true;
                    Ok(())
                }
            },
            Case::History(c) => leaks::<life::C19>(c, cx),
            Case::Sink(c) => leaks::<write::C11>(c, cx),
            Case::Delivery(c) => leaks::<deliver::C08>(c, cx),
            Case::Cursor(c) => leaks::<cursor::C12>(c, cx),
            Case::Fresh { doc, layout, opts, wrong, via } => hoards(doc, layout, opts, *wrong, *via, cx),
        }
    }
    fn fixed() -> Vec<Case> {
        let opts = |k: u16| Opts { offset: Some(k), time: Some(k), motion: Some(k), ..Opts::DEFAULT };
        let ins = |at, frames, more| Op::Insert { at, frames, more, bad: false };
        let mut out = Vec::new();
        for kind in 0..SCALES {
            for n in [300u32, 20_000, 70_000] {
                // Its text grows with the square.
                let n = if kind == 3 { n.min(2000) } else { n };
                out.push(Case::Large(
                    kind,
                    n,
                    vec![
                        Op::Write(Opts::DEFAULT),
                        Op::Write(opts(0)),
                        Op::Write(opts(17)),
                        Op::ToString(Opts::DEFAULT),
                        Op::Walk,
                        Op::Clone,
                        Op::Compare,
                        Op::Print,
                        Op::Frames { from: 3, back: true, mutable: true },
                        Op::Remove(1),
                        ins(1, 5, u64::MAX),
                        ins(0, 1, 1 << 40),
                        Op::Shrink,
                        Op::Extract,
                        ins(0, 1000, 5),
                        Op::RemoveAll,
                        Op::Clone,
                    ],
                ));
            }
        }
        // Frames put one by one into animations that have no room to spare.
        let single = |at, frames| Op::Single { at, frames, bad: false };
        for (kind, n) in [(0u8, 1_000_000u32), (1, 100_000), (5, 20_000), (5, 200_000), (5, 1_000_000), (5, 3_000_000), (6, 1_000_000)] {
            let one = |at| [Op::Clone, single(at, 1), Op::Shrink, single(u32::MAX, 3)];
            out.push(Case::Large(kind, n, one(0).into_iter().chain(one(1)).chain([Op::Remove(0), single(2, 20), Op::Clone]).collect()));
        }
        for more in [0u64, 1 << 16, 1 << 20, 1 << 24, 1 << 28, 1 << 32, 1 << 61, 1 << 62, 1 << 63, u64::MAX - 5, u64::MAX] {
            for kind in [0u8, 1] {
                out.push(Case::Large(kind, 6, vec![ins(0, 0, more), ins(2, 1, more), ins(1, 3, more)]));
            }
        }
        out
    }
    fn assumptions() -> Vec<&'static str> {
        vec![
            "Memory is what is requested from the global allocator by the calling thread.",
            "The lower bound of an iterator's size hint is honest here; memory may be reserved for it.",
        ]
    }
}
