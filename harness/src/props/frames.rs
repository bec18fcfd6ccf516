//! C13 and C14: the frame iterators and the values of a frame.

use super::cursor::{bits, Plain};
use crate::{engine::*, model::*};
use bvh_anim::frames::{Frame, FrameIndex, FrameMut};
use bvh_anim::{Bvh, Channel};
use serde::{Deserialize, Serialize};
use std::{
    borrow::{Borrow, BorrowMut},
    collections::VecDeque,
    iter::FusedIterator,
    slice::SliceIndex,
};

// ------------------------------------------------------------------------ C13

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Step {
    Next,
    Back,
    Nth(u64),
    NthBack(u64),
    /// Through `by_ref().take(n)`.
    Take(u8),
    /// Through `by_ref().rev().take(n)`.
    RevTake(u8),
    /// Through `by_ref().find`: the frame so many places on.
    Find(u8),
    RFind(u8),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Finish {
    Stop,
    Collect,
    Rev,
    Count,
    Last,
    Fold,
    RFold,
    Skip(u8),
    StepBy(u8),
    RevStepBy(u8),
    Enumerate,
    Peek,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct C13Case {
    pub anim: Plain,
    pub mutable: bool,
    pub steps: Vec<Step>,
    pub finish: Finish,
    /// Writes through the frames that were yielded: (which, value, bits).
    pub writes: Vec<(u32, u32, u32)>,
    /// Where the iterator comes from.
    pub from_cursor: Option<u8>,
}

fn gen_step(s: &mut Source) -> Step {
    fn n(s: &mut Source) -> u64 {
        match s.weighted(&[60, 25, 10, 5]) {
            0 => s.upto(2),
            1 => s.upto(6),
            2 => s.upto(40),
            _ => *s.pick(&[u64::MAX, u64::MAX - 1, 1 << 62, u32::MAX as u64, 1 << 32, 255, 256, 65_535, 65_536]),
        }
    }
    match s.weighted(&[30, 30, 12, 12, 4, 4, 4, 4]) {
        0 => Step::Next,
        1 => Step::Back,
        2 => Step::Nth(n(s)),
        3 => Step::NthBack(n(s)),
        4 => Step::Take(s.upto(4) as u8),
        5 => Step::RevTake(s.upto(4) as u8),
        6 => Step::Find(s.upto(5) as u8),
        _ => Step::RFind(s.upto(5) as u8),
    }
}

type Left = VecDeque<(usize, Vec<u32>)>;

/// Drives an iterator next to the frames that are left; returns what it
/// yielded, with the numbers of the frames.
fn drive<I>(
    mut it: I,
    read: impl Fn(&I::Item) -> Vec<u32>,
    left: &mut Left,
    steps: &[Step],
    finish: &Finish,
    cx: &mut Cx,
) -> Result<Vec<(usize, I::Item)>, String>
where
    I: DoubleEndedIterator + ExactSizeIterator + FusedIterator,
{
    let mut out: Vec<(usize, I::Item)> = Vec::new();
    let same = |what: &str, got: Option<I::Item>, want: Option<(usize, Vec<u32>)>, out: &mut Vec<(usize, I::Item)>| {
        let g = got.as_ref().map(&read);
        let w = want.as_ref().map(|w| w.1.clone());
        if g != w {
            return Err(format!("{}: got {:?}, expected frame {:?}", what, g, want));
        }
        if let (Some(i), Some(w)) = (got, want) {
            out.push((w.0, i));
        }
        Ok(())
    };
    let sizes = |it: &I, n: usize, what: &str| {
        ensure_eq!(it.len(), n, "{}: len", what);
        ensure_eq!(it.size_hint(), (n, Some(n)), "{}: size_hint", what);
        Ok(())
    };
    sizes(&it, left.len(), "at first")?;
    let drop_front = |left: &mut Left, n: u64| {
        for _ in 0..n.min(left.len() as u64) {
            left.pop_front();
        }
    };
    let drop_back = |left: &mut Left, n: u64| {
        for _ in 0..n.min(left.len() as u64) {
            left.pop_back();
        }
    };
    for (i, s) in steps.iter().enumerate() {
        let what = format!("step {} ({:?})", i, s);
        match s {
            Step::Next => same(&what, it.next(), left.pop_front(), &mut out)?,
            Step::Back => same(&what, it.next_back(), left.pop_back(), &mut out)?,
            Step::Nth(n) => {
                let g = it.nth(*n as usize);
                drop_front(left, *n);
                same(&what, g, left.pop_front(), &mut out)?
            }
            Step::NthBack(n) => {
                let g = it.nth_back(*n as usize);
                drop_back(left, *n);
                same(&what, g, left.pop_back(), &mut out)?
            }
            Step::Take(n) => {
                let got: Vec<_> = it.by_ref().take(*n as usize).collect();
                for g in got.into_iter().map(Some).chain(std::iter::repeat_with(|| None)).take(*n as usize) {
                    same(&what, g, left.pop_front(), &mut out)?;
                }
            }
            Step::RevTake(n) => {
                let got: Vec<_> = it.by_ref().rev().take(*n as usize).collect();
                for g in got.into_iter().map(Some).chain(std::iter::repeat_with(|| None)).take(*n as usize) {
                    same(&what, g, left.pop_back(), &mut out)?;
                }
            }
            Step::Find(n) => {
                let mut k = *n as usize + 1;
                let g = it.find(|_| {
                    k -= 1;
                    k == 0
                });
                drop_front(left, *n as u64);
                same(&what, g, left.pop_front(), &mut out)?
            }
            Step::RFind(n) => {
                let mut k = *n as usize + 1;
                let g = it.rfind(|_| {
                    k -= 1;
                    k == 0
                });
                drop_back(left, *n as u64);
                same(&what, g, left.pop_back(), &mut out)?
            }
        }
        sizes(&it, left.len(), &what)?;
        cx.comparisons += 1;
        if left.is_empty() {
            cx.labels.push("driven to the end");
        }
    }
    let all = |got: Vec<I::Item>, want: Vec<(usize, Vec<u32>)>, out: &mut Vec<(usize, I::Item)>| {
        let what = format!("{:?}", finish);
        ensure_eq!(got.len(), want.len(), "{}: number of frames", what);
        for (g, w) in got.into_iter().zip(want) {
            same(&what, Some(g), Some(w), out)?;
        }
        Ok(())
    };
    let rest: Vec<_> = left.iter().cloned().collect();
    let mut rev = rest.clone();
    rev.reverse();
    match finish {
        Finish::Stop => {}
        Finish::Collect => all(it.collect(), rest, &mut out)?,
        Finish::Rev => all(it.rev().collect(), rev, &mut out)?,
        Finish::Count => ensure_eq!(it.count(), rest.len(), "count"),
        Finish::Last => same("last", it.last(), rest.last().cloned(), &mut out)?,
        Finish::Fold => {
            let got = it.fold(Vec::new(), |mut v, f| {
                v.push(f);
                v
            });
            all(got, rest, &mut out)?
        }
        Finish::RFold => {
            let got = it.rfold(Vec::new(), |mut v, f| {
                v.push(f);
                v
            });
            all(got, rev, &mut out)?
        }
        Finish::Skip(n) => {
            let want = rest.into_iter().skip(*n as usize).collect();
            all(it.skip(*n as usize).collect(), want, &mut out)?
        }
        Finish::StepBy(n) => {
            let n = *n as usize + 1;
            all(it.step_by(n).collect(), rest.into_iter().step_by(n).collect(), &mut out)?
        }
        Finish::RevStepBy(n) => {
            let n = *n as usize + 1;
            all(it.rev().step_by(n).collect(), rev.into_iter().step_by(n).collect(), &mut out)?
        }
        Finish::Enumerate => {
            let mut got = Vec::new();
            for (i, f) in it.enumerate().rev() {
                ensure_eq!(i, rest.len() - 1 - got.len(), "enumerate from the back");
                got.push(f);
            }
            all(got, rev, &mut out)?
        }
        Finish::Peek => {
            let mut p = it.peekable();
            let g = p.peek().map(&read);
            ensure_eq!(g, rest.first().map(|r| r.1.clone()), "peek");
            all(p.collect(), rest, &mut out)?
        }
    }
    Ok(out)
}

pub struct C13;
impl Prop for C13 {
    type Case = C13Case;
    const ID: &'static str = "C13";
    const CASES: (u64, u64) = (6_000_000, 60_000_000);
    const RULE: &'static str = "A case is an animation of 0 to 130 channels and up to 40 frames, one of the two \
iterators (also from a cursor), and up to 30 steps from the front and the back, next to a queue of the frames \
that are left; then a way to use up the rest, and writes through the frames that were yielded. Non-trivial: at \
least two frames were yielded.";
    fn gen(s: &mut Source) -> C13Case {
        let anim = Plain::gen(s, 40);
        let steps = s.list(0, 30, 5, |s, _| gen_step(s));
        let n = s.upto(4) as u8;
        let finish = match s.upto(11) {
            0 => Finish::Collect,
            1 => Finish::Stop,
            2 => Finish::Rev,
            3 => Finish::Count,
            4 => Finish::Last,
            5 => Finish::Fold,
            6 => Finish::RFold,
            7 => Finish::Skip(n),
            8 => Finish::StepBy(n),
            9 => Finish::RevStepBy(n),
            10 => Finish::Enumerate,
            _ => Finish::Peek,
        };
        let mutable = s.bool();
        let writes = if mutable {
            s.list(0, 6, 2, |s, _| (s.upto(40) as u32, s.upto(130) as u32, gen_f32_bits(s)))
        } else {
            vec![]
        };
        let from_cursor = if s.chance(1, 6) { Some(s.upto(10) as u8) } else { None };
        C13Case { anim, mutable, steps, finish, writes, from_cursor }
    }
    fn fixed() -> Vec<C13Case> {
        let mut v = Vec::new();
        for (nch, fill) in [(1, 255), (1, 256), (3, 300), (256, 3), (300, 300), (1, 65_535), (1, 65_536), (2, 70_000), (65_536, 2), (70_000, 3)] {
            let n = fill as u64;
            let anim = Plain { nch, joints: 1, rows: vec![], fill };
            for steps in [
                vec![],
                vec![Step::Next, Step::Back, Step::Nth(n / 2), Step::NthBack(n / 4), Step::Next, Step::Back],
                vec![Step::Nth(n - 1), Step::Next, Step::Back],
                vec![Step::NthBack(n - 2), Step::Back, Step::Next],
                vec![Step::Nth(n)],
                vec![Step::Nth(n / 2), Step::NthBack(n)],
                vec![Step::Nth(n - 2), Step::Take(2)],
            ] {
                for mutable in [false, true] {
                    for finish in [Finish::Collect, Finish::Rev, Finish::Count, Finish::Last, Finish::StepBy(2)] {
                        let writes = vec![(fill - 1, nch - 1, 0x4000_0000), (0, 0, 0x4100_0000), (fill / 2, nch / 2, 0x4200_0000)];
                        let writes = if mutable { writes } else { vec![] };
                        v.push(C13Case { anim: anim.clone(), mutable, steps: steps.clone(), finish, writes, from_cursor: None });
                    }
                }
            }
        }
        v
    }
    fn check(c: &C13Case, cx: &mut Cx) -> Verdict {
        let Some(mut bvh) = c.anim.build() else {
            cx.discarded = true;
            return Ok(());
        };
        let nch = c.anim.nch as usize;
        let mut rows: Vec<Vec<u32>> = c.anim.all_rows().map(|r| bits(&r.values(nch))).collect();
        let mut left: Left = rows.iter().cloned().enumerate().collect();
        let mut yielded: Vec<usize>;
        macro_rules! source {
            ($frames:ident, $into:ident) => {
                match c.from_cursor {
                    None => bvh.$frames(),
                    Some(n) => {
                        let mut cur = bvh.frame_cursor();
                        for _ in 0..n {
                            cur.move_next();
                            left.pop_front();
                        }
                        cur.$into()
                    }
                }
            };
        }
        if c.mutable {
            let it = source!(frames_mut, into_frames_mut);
            let mut out = drive(it, |f| bits(f.as_slice()), &mut left, &c.steps, &c.finish, cx)?;
            // All of them are held at once, so they must not overlap.
            for (w, k, b) in &c.writes {
                if out.is_empty() {
                    break;
                }
                let w = *w as usize % out.len();
                let k = *k as usize % nch;
                let (i, ref mut f) = out[w];
                f[k] = f32::from_bits(*b);
                rows[i][k] = canon(f32::from_bits(*b));
            }
            for (i, f) in &out {
                ensure_eq!(bits(f.as_slice()), rows[*i], "frame {} after writing", i);
            }
            yielded = out.iter().map(|o| o.0).collect();
        } else {
            let it = source!(frames, into_frames);
            let out = drive(it, |f| bits(f.as_slice()), &mut left, &c.steps, &c.finish, cx)?;
            yielded = out.iter().map(|o| o.0).collect();
            for (i, f) in &out {
                ensure_eq!(bits(f.as_slice()), rows[*i], "frame {}, held to the end", i);
            }
        }
        diff_rows(&observe_rows(&bvh), &rows).map_err(|e| format!("afterwards: {}", e))?;
        if nch == 0 {
            ensure!(bvh.frames().next().is_none() && bvh.frames().len() == 0, "frames without channels");
            ensure!(bvh.frames_mut().next().is_none() && bvh.frames_mut().len() == 0, "frames without channels");
            cx.label("no channels");
        }
        // Once exhausted, it stays so.
        let mut it = bvh.frames();
        let n = rows.len();
        for _ in 0..n {
            it.next();
        }
        for _ in 0..3 {
            ensure!(it.next().is_none() && it.next_back().is_none(), "a frame after the last");
        }
        let total = yielded.len();
        yielded.sort();
        yielded.dedup();
        ensure_eq!(yielded.len(), total, "distinct frames");
        cx.nontrivial = total > 1;
        cx.label(if c.mutable { "mutable" } else { "shared" });
        cx.label_if(c.from_cursor.is_some(), "from a cursor");
        cx.label_if(!c.writes.is_empty() && total > 0, "written through");
        Ok(())
    }
}

// ------------------------------------------------------------------------ C14

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum At {
    Pos(u64),
    Range(u64, u64),
    Inclusive(u64, u64),
    To(u64),
    ToInclusive(u64),
    From(u64),
    Full,
    /// A channel of this animation, by value or by reference.
    Own(u32, bool),
    /// A channel of another animation, with this motion index.
    Foreign(u32, bool),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct C14Case {
    pub anim: Plain,
    pub frame: u32,
    pub queries: Vec<(At, u32)>,
}

fn gen_at(s: &mut Source, nch: u64) -> At {
    fn n(s: &mut Source) -> u64 {
        match s.weighted(&[50, 35, 10, 5]) {
            0 => s.upto(4),
            1 => s.upto(45),
            2 => s.upto(140),
            _ => *s.pick(&[u64::MAX, u64::MAX - 1, 1 << 63, u32::MAX as u64, 1 << 32, 255, 256, 65_535, 65_536]),
        }
    }
    match s.weighted(&[25, 12, 6, 5, 5, 5, 2, 25, 15]) {
        0 => At::Pos(n(s)),
        1 => At::Range(n(s), n(s)),
        2 => At::Inclusive(n(s), n(s)),
        3 => At::To(n(s)),
        4 => At::ToInclusive(n(s)),
        5 => At::From(n(s)),
        6 => At::Full,
        7 if nch > 130 => At::Own(s.upto(nch - 1) as u32, s.bool()),
        7 => At::Own(s.upto(130) as u32, s.bool()),
        _ => At::Foreign(s.upto(139) as u32, s.bool()),
    }
}

fn raw(v: &[f32]) -> Vec<u32> {
    v.iter().map(|v| v.to_bits()).collect()
}

/// What is addressed, as slices of one value or many.
trait Part {
    fn part(&self) -> &[f32];
    fn part_mut(&mut self) -> &mut [f32];
}
impl Part for f32 {
    fn part(&self) -> &[f32] {
        std::slice::from_ref(self)
    }
    fn part_mut(&mut self) -> &mut [f32] {
        std::slice::from_mut(self)
    }
}
impl Part for [f32] {
    fn part(&self) -> &[f32] {
        self
    }
    fn part_mut(&mut self) -> &mut [f32] {
        self
    }
}

/// Every way to address a part of frame `at`, next to the slice oracle.
fn address<I, S>(bvh: &mut Bvh, rows: &mut [Vec<u32>], at: usize, idx: I, oracle: S, new: u32) -> Verdict
where
    I: FrameIndex + Clone,
    <I::SliceIndex as SliceIndex<[f32]>>::Output: Part,
    S: SliceIndex<[u32]> + Clone,
    S::Output: PartU,
{
    let want: Option<Vec<u32>> = rows[at].get(oracle.clone()).map(|p| p.part().to_vec());
    // Reading.
    {
        let f: Frame<'_> = bvh.frames().nth(at).unwrap();
        let got = f.get(idx.clone()).map(|p| raw(p.part()));
        ensure_eq!(got, want, "Frame::get");
        let got = guard(|| raw(f[idx.clone()].part())).ok();
        ensure_eq!(got, want, "Frame[..]");
    }
    {
        let f: FrameMut<'_> = bvh.frames_mut().nth(at).unwrap();
        let got = f.get(idx.clone()).map(|p| raw(p.part()));
        ensure_eq!(got, want, "FrameMut::get");
        let got = guard(|| raw(f[idx.clone()].part())).ok();
        ensure_eq!(got, want, "FrameMut[..]");
        let by_ref: Frame<'_> = (&f).into();
        let got = by_ref.get(idx.clone()).map(|p| raw(p.part()));
        ensure_eq!(got, want, "Frame::from(&FrameMut)");
    }
    {
        let f: Frame<'_> = bvh.frames_mut().nth(at).unwrap().into();
        let got = f.get(idx.clone()).map(|p| raw(p.part()));
        ensure_eq!(got, want, "Frame::from(FrameMut)");
    }
    // Writing.
    let whole = |bvh: &Bvh, rows: &[Vec<u32>], what: &str| {
        for (i, (f, r)) in bvh.frames().zip(rows).enumerate() {
            ensure_eq!(raw(f.as_slice()), *r, "frame {} after {}", i, what);
        }
        Ok(())
    };
    let put = |p: &mut [f32], salt: u32| {
        for (k, v) in p.iter_mut().enumerate() {
            *v = f32::from_bits(new ^ salt ^ k as u32);
        }
    };
    let put_model = |rows: &mut [Vec<u32>], salt: u32| {
        if let Some(p) = rows[at].get_mut(oracle.clone()) {
            for (k, v) in p.part_mut().iter_mut().enumerate() {
                *v = new ^ salt ^ k as u32;
            }
        }
    };
    {
        let mut f = bvh.frames_mut().nth(at).unwrap();
        match f.get_mut(idx.clone()) {
            Some(p) => {
                ensure_eq!(Some(raw(p.part())), want, "FrameMut::get_mut");
                put(p.part_mut(), 0);
                put_model(rows, 0);
            }
            None => ensure!(want.is_none(), "FrameMut::get_mut: nothing, expected {:?}", want),
        }
    }
    whole(bvh, rows, "writing through get_mut")?;
    {
        let mut f = bvh.frames_mut().nth(at).unwrap();
        let wrote = guard(|| put(f[idx.clone()].part_mut(), 0x40)).is_ok();
        ensure_eq!(wrote, want.is_some(), "writing through FrameMut[..]");
        if wrote {
            put_model(rows, 0x40);
        }
    }
    whole(bvh, rows, "writing through [..]")
}

trait PartU {
    fn part(&self) -> &[u32];
    fn part_mut(&mut self) -> &mut [u32];
}
impl PartU for u32 {
    fn part(&self) -> &[u32] {
        std::slice::from_ref(self)
    }
    fn part_mut(&mut self) -> &mut [u32] {
        std::slice::from_mut(self)
    }
}
impl PartU for [u32] {
    fn part(&self) -> &[u32] {
        self
    }
    fn part_mut(&mut self) -> &mut [u32] {
        self
    }
}

fn set<I>(bvh: &mut Bvh, rows: &mut [Vec<u32>], at: usize, idx: I, pos: usize, new: u32) -> Verdict
where
    I: FrameIndex<SliceIndex = usize>,
{
    use bvh_anim::errors::SetMotionError;
    let r = bvh.frames_mut().nth(at).unwrap().try_set_motion(idx, f32::from_bits(new));
    match (r, rows[at].get_mut(pos)) {
        (Ok(old), Some(v)) => {
            ensure_eq!(old.to_bits(), *v, "the previous value returned by try_set_motion({})", pos);
            *v = new;
        }
        (Err(SetMotionError::BadChannel(i)), None) => {
            ensure_eq!(i, pos, "the index in the error of try_set_motion");
            ensure!(
                SetMotionError::BadChannel(i).to_string().contains(&pos.to_string()),
                "the error does not name {}",
                pos
            );
        }
        (r, v) => return Err(format!("try_set_motion({}) returned {:?}, value there: {:?}", pos, r, v)),
    }
    for (i, (f, r)) in bvh.frames().zip(rows.iter()).enumerate() {
        ensure_eq!(raw(f.as_slice()), *r, "frame {} after try_set_motion({})", i, pos);
    }
    // Again, with values that are easily taken for one another.
    if let Some(v) = rows[at].get_mut(pos) {
        let mut f = bvh.frames_mut().nth(at).unwrap();
        for next in [0, 0x8000_0000, 0, 1, 0x7fc0_0000, 0x7fc0_0000, 0xffc0_0001, 0x7f80_0000, !new, new] {
            match f.try_set_motion(pos, f32::from_bits(next)) {
                Ok(old) if old.to_bits() == *v => *v = next,
                r => return Err(format!("try_set_motion({}) returned {:?}, value there: {:#x}", pos, r, v)),
            }
            ensure_eq!(f[pos].to_bits(), next, "value {} after try_set_motion", pos);
        }
    }
    Ok(())
}

/// The channels of an animation with many.
fn foreign() -> Vec<Channel> {
    thread_local! {
        static F: Vec<Channel> = {
            let b = Plain { nch: 140, joints: 3, rows: vec![], fill: 0 }.build();
            b.map(|b| b.joints().flat_map(|j| j.channels().to_vec()).collect()).unwrap_or_default()
        };
    }
    F.with(|f| f.clone())
}

pub struct C14;
impl Prop for C14 {
    type Case = C14Case;
    const ID: &'static str = "C14";
    const CASES: (u64, u64) = (3_000_000, 30_000_000);
    const RULE: &'static str = "A case is an animation, one of its frames and up to 8 queries: a position, a range \
of any form, or a channel of this or another animation, by value or reference. Each is read in six ways and \
written in three, next to a plain slice; all frames are compared afterwards, bit for bit. Non-trivial: one \
query within bounds.";
    fn gen(s: &mut Source) -> C14Case {
        let mut anim = Plain::gen(s, 6);
        if anim.num_rows() == 0 || anim.nch == 0 {
            anim.nch = anim.nch.max(1);
            anim.rows.push(super::cursor::Row::gen(s));
        }
        let n = anim.num_rows() as u64;
        let frame = if n > 20 { s.upto(n - 1) } else { s.upto(5) } as u32;
        let nch = anim.nch as u64;
        let queries = s.list(1, 8, 3, |s, _| (gen_at(s, nch), s.u32()));
        C14Case { anim, frame, queries }
    }
    fn fixed() -> Vec<C14Case> {
        let mut v = Vec::new();
        for (nch, fill) in [(255, 2), (256, 2), (257, 3), (300, 300), (1, 65_536), (2, 70_000), (65_535, 2), (65_536, 2), (65_537, 2), (70_000, 3)] {
            for joints in [1u8, 3] {
                let anim = Plain { nch, joints, rows: vec![], fill };
                for frame in [0, fill - 1] {
                    let n = nch as u64;
                    let mut q = Vec::new();
                    for k in [0, 1, n / 2, n.saturating_sub(2), n - 1, n, n + 1, n + 255, 255, 256, 65_535, 65_536, 65_537] {
                        q.push((At::Pos(k), 0x1234_5678));
                        if k < n {
                            q.push((At::Own(k as u32, true), 0x2345_6789));
                            q.push((At::Own(k as u32, false), 0x3456_789a));
                        }
                        q.push((At::From(k), 0x4567_89ab));
                    }
                    q.truncate(if fill > 1000 { 6 } else { 60 });
                    v.push(C14Case { anim: anim.clone(), frame, queries: q });
                }
            }
        }
        // Indices of every magnitude, out of bounds.
        let q = |k: u64| vec![(At::Pos(k), 1), (At::Range(0, k), 2), (At::Inclusive(0, k), 3), (At::To(k), 4), (At::ToInclusive(k), 5), (At::From(k), 6), (At::Range(k, k), 7), (At::Range(k, 0), 7)];
        for bit in 0..64 {
            for k in [1u64 << bit, (1u64 << bit) - 1, (1u64 << bit) + 1, !(1u64 << bit)] {
                let anim = Plain { nch: 3, joints: 2, rows: vec![], fill: 2 };
                v.push(C14Case { anim, frame: 1, queries: q(k) });
            }
        }
        v
    }
    fn check(c: &C14Case, cx: &mut Cx) -> Verdict {
        let Some(mut bvh) = c.anim.build() else {
            cx.discarded = true;
            return Ok(());
        };
        let nch = c.anim.nch as usize;
        let mut rows: Vec<Vec<u32>> = c.anim.all_rows().map(|r| raw(&r.values(nch))).collect();
        let at = c.frame as usize % rows.len();
        let own: Vec<Channel> = bvh.joints().flat_map(|j| j.channels().to_vec()).collect();
        let other = foreign();
        for (i, (q, new)) in c.queries.iter().enumerate() {
            let e = |e: String| format!("query {} ({:?}) on frame {} of {} values: {}", i, q, at, nch, e);
            let u = |n: &u64| *n as usize;
            let new = *new;
            let mut inside = true;
            let (b, r) = (&mut bvh, &mut rows[..]);
            match q {
                At::Pos(n) => {
                    inside = u(n) < nch;
                    address(b, r, at, u(n), u(n), new)
                        .and_then(|_| set(b, r, at, u(n), u(n), !new))
                        .map_err(e)?
                }
                At::Range(x, y) => address(b, r, at, u(x)..u(y), u(x)..u(y), new).map_err(e)?,
                At::Inclusive(x, y) => address(b, r, at, u(x)..=u(y), u(x)..=u(y), new).map_err(e)?,
                At::To(x) => address(b, r, at, ..u(x), ..u(x), new).map_err(e)?,
                At::ToInclusive(x) => address(b, r, at, ..=u(x), ..=u(x), new).map_err(e)?,
                At::From(x) => address(b, r, at, u(x).., u(x).., new).map_err(e)?,
                At::Full => address(b, r, at, .., .., new).map_err(e)?,
                At::Own(k, by_ref) | At::Foreign(k, by_ref) => {
                    let list = if let At::Own(..) = q { &own } else { &other };
                    if list.is_empty() {
                        continue;
                    }
                    let ch = list[*k as usize % list.len()];
                    let pos = ch.motion_index();
                    inside = pos < nch;
                    if *by_ref {
                        address(b, r, at, &ch, pos, new).and_then(|_| set(b, r, at, &ch, pos, !new))
                    } else {
                        address(b, r, at, ch, pos, new).and_then(|_| set(b, r, at, ch, pos, !new))
                    }
                    .map_err(e)?;
                    cx.label(if inside { "channel inside" } else { "channel out of bounds" });
                }
            }
            cx.comparisons += 9;
            cx.nontrivial |= inside;
        }
        // The whole frame, in every form.
        let want = rows[at].clone();
        {
            let f = bvh.frames().nth(at).unwrap();
            ensure_eq!((f.len(), f.is_empty()), (nch, nch == 0), "Frame::len and is_empty");
            ensure_eq!(raw(f.as_slice()), want, "Frame::as_slice");
            ensure_eq!(raw(f.as_ref()), want, "Frame::as_ref");
            ensure_eq!(raw(Borrow::<[f32]>::borrow(&f)), want, "Frame::borrow");
            for g in bvh.frames() {
                ensure_eq!(f == g, f.as_slice() == g.as_slice(), "equality of two frames");
            }
            let copy = f;
            ensure_eq!(raw(copy.as_slice()), raw(f.as_slice()), "a copied frame");
        }
        {
            let mut f = bvh.frames_mut().nth(at).unwrap();
            ensure_eq!((f.len(), f.is_empty()), (nch, nch == 0), "FrameMut::len and is_empty");
            ensure_eq!(raw(f.as_slice()), want, "FrameMut::as_slice");
            ensure_eq!(raw(f.as_mut_slice()), want, "FrameMut::as_mut_slice");
            ensure_eq!(raw(f.as_ref()), want, "FrameMut::as_ref");
            ensure_eq!(raw(f.as_mut()), want, "FrameMut::as_mut");
            ensure_eq!(raw(Borrow::<[f32]>::borrow(&f)), want, "FrameMut::borrow");
            ensure_eq!(raw(BorrowMut::<[f32]>::borrow_mut(&mut f)), want, "FrameMut::borrow_mut");
        }
        Ok(())
    }
}
