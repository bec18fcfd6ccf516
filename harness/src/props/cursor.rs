//! C12: the frame cursor against a list with a position.

use crate::{engine::*, model::*};
use bvh_anim::frames::{Frame, FrameCursor, Frames, FramesMut};
use bvh_anim::Bvh;
use serde::{Deserialize, Serialize};

/// An animation with `joints` joints and `nch` channels in all.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Plain {
    pub nch: u32,
    pub joints: u8,
    pub rows: Vec<Row>,
    /// So many more rows, numbered.
    #[serde(default)]
    pub fill: u32,
}

/// A frame, by a number from which its values follow.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Row {
    pub tag: u16,
    pub exotic: bool,
}

impl Row {
    pub fn gen(s: &mut Source) -> Row {
        Row { tag: s.upto(400) as u16, exotic: s.chance(1, 8) }
    }
    pub fn values(&self, n: usize) -> Vec<f32> {
        (0..n)
            .map(|k| {
                if self.exotic {
                    match (self.tag as usize + k) % 19 {
                        16 => f32::NAN,
                        17 => f32::INFINITY,
                        18 => f32::NEG_INFINITY,
                        i => f32::from_bits(EDGE_BITS[i]),
                    }
                } else {
                    (self.tag as usize * 128 + k) as f32
                }
            })
            .collect()
    }
}

pub fn bits(v: &[f32]) -> Vec<u32> {
    v.iter().map(|v| canon(*v)).collect()
}

impl Plain {
    pub fn gen(s: &mut Source, max_rows: usize) -> Plain {
        let nch = match s.weighted(&[50, 10, 20, 15, 5]) {
            0 => s.range(1, 4),
            1 => 0,
            2 => s.range(5, 12),
            3 => s.range(13, 40),
            _ => s.range(41, 130),
        };
        let joints = s.range(1, 4) as u8;
        let avg = if s.chance(1, 6) { max_rows } else { 4 };
        let rows = s.list(0, max_rows, avg, |s, _| Row::gen(s));
        // Now and then as large as it takes for sizes to leave one or two bytes.
        let (nch, fill) = match s.upto(29_999) {
            29_999 => (s.range(1, 3), gen_scale(s, 70_000)),
            29_998 => (gen_scale(s, 70_000), s.range(1, 3)),
            29_997 => (s.range(250, 260), s.range(250, 260)),
            _ => (nch, 0),
        };
        Plain { nch: nch as u32, joints, rows: if nch == 0 { vec![] } else { rows }, fill: fill as u32 }
    }
    pub fn all_rows(&self) -> impl Iterator<Item = Row> + '_ {
        let fill = if self.nch == 0 { 0 } else { self.fill };
        let more = (0..fill).map(|i| Row { tag: (i * 7 % 401) as u16, exotic: false });
        self.rows.iter().cloned().chain(more)
    }
    pub fn num_rows(&self) -> usize {
        self.all_rows().count()
    }
    /// Loads the animation and gives it its frames.
    pub fn build(&self) -> Option<Bvh> {
        guard(|| {
            let nch = self.nch as usize;
            let j = self.joints.max(1) as usize;
            let mut t = String::from("HIERARCHY\n");
            for i in 0..j {
                let n = nch / j + if i < nch % j { 1 } else { 0 };
                t.push_str(if i == 0 { "ROOT r\n{\n" } else { "JOINT j\n{\n" });
                t.push_str(&format!("OFFSET 0 {} 1.5\nCHANNELS {}", i, n));
                for c in 0..n {
                    t.push(' ');
                    t.push_str(CHANNEL_NAMES[(c + i) % 6]);
                }
                t.push('\n');
            }
            t.push_str("End Site\n{\nOFFSET 0 0 1\n}\n");
            t.push_str(&"}\n".repeat(j));
            t.push_str(&format!("MOTION\nFrames: {}\nFrame Time: 0.25\n", self.num_rows()));
            for r in self.all_rows() {
                for v in r.values(nch) {
                    // Plain numbers, so that loading is not what is judged.
                    t.push_str(&format!("{} ", if v.is_finite() { v as i64 % 1000 } else { 7 }));
                }
                t.push('\n');
            }
            let mut b = bvh_anim::from_str(&t).ok()?;
            if b.num_channels() != nch || b.frames().len() != self.num_rows() {
                return None;
            }
            for (mut f, r) in b.frames_mut().zip(self.all_rows()) {
                f.as_mut_slice().copy_from_slice(&r.values(nch));
            }
            Some(b)
        })
        .ok()
        .flatten()
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct NewRow {
    pub row: Row,
    /// How much longer than a frame it is.
    pub extra: i16,
    pub form: u8,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    Next(u8),
    Prev(u8),
    First,
    Last,
    Insert(NewRow),
    InsertMany(Vec<NewRow>, u8),
    Remove,
    RemoveAll,
    /// Write through the next (`true`) or previous frame.
    Poke(bool, u32, u32),
    Shrink,
    Walk,
    Reborrow(bool),
    IntoFrames(bool),
    IntoFramesMut(bool, Vec<(u32, u32, u32)>),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    pub anim: Plain,
    pub ops: Vec<Op>,
}

fn gen_new(s: &mut Source) -> NewRow {
    let extra = match s.weighted(&[88, 4, 4, 4]) {
        0 => 0,
        1 => 1,
        2 => -1,
        _ => *s.pick(&[-1000i16, 2, 7, 100, -2]),
    };
    NewRow { row: Row::gen(s), extra, form: s.upto(3) as u8 }
}

fn value_no(s: &mut Source) -> u32 {
    s.upto(300) as u32
}

fn gen_op(s: &mut Source) -> Op {
    match s.weighted(&[16, 12, 4, 6, 18, 10, 14, 1, 8, 2, 3, 3, 2, 3]) {
        0 => Op::Next(s.range(1, 3) as u8),
        1 => Op::Prev(s.range(1, 3) as u8),
        2 => Op::First,
        3 => Op::Last,
        4 => Op::Insert(gen_new(s)),
        5 => Op::InsertMany(s.list(0, 8, 2, |s, _| gen_new(s)), s.upto(5) as u8),
        6 => Op::Remove,
        7 => Op::RemoveAll,
        8 => Op::Poke(s.bool(), value_no(s), gen_f32_bits(s)),
        9 => Op::Shrink,
        10 => Op::Walk,
        11 => Op::Reborrow(s.bool()),
        12 => Op::IntoFrames(s.bool()),
        _ => Op::IntoFramesMut(
            s.bool(),
            s.list(0, 4, 1, |s, _| (s.upto(9) as u32, value_no(s), gen_f32_bits(s))),
        ),
    }
}

struct Model {
    nch: usize,
    rows: Vec<Vec<u32>>,
    at: usize,
}

fn see(c: &FrameCursor<'_>, m: &Model, what: &str) -> Verdict {
    ensure_eq!(c.index(), m.at, "{}: index", what);
    ensure_eq!(c.len(), m.rows.len(), "{}: len", what);
    ensure_eq!(c.num_channels(), m.nch, "{}: num_channels", what);
    let f = |f: Option<Frame<'_>>| f.map(|f| bits(f.as_slice()));
    let next = m.rows.get(m.at).cloned();
    let prev = m.at.checked_sub(1).and_then(|i| m.rows.get(i).cloned());
    ensure_eq!(f(c.peek_next()), next, "{}: peek_next", what);
    ensure_eq!(f(c.peek_prev()), prev, "{}: peek_prev", what);
    let (p, n) = c.surrounding_frames();
    ensure_eq!((f(p), f(n)), (prev, next), "{}: surrounding_frames", what);
    Ok(())
}

fn values(r: &NewRow, nch: usize) -> Vec<f32> {
    let n = (nch as i64 + r.extra as i64).max(0) as usize;
    r.row.values(n)
}

pub struct C12;
impl Prop for C12 {
    type Case = Case;
    const ID: &'static str = "C12";
    const CASES: (u64, u64) = (4_000_000, 40_000_000);
    const RULE: &'static str = "A case is an animation of 0 to 130 channels and up to 30 frames and a history of \
up to 40 cursor operations; a list of rows with a position is stepped along and compared after every operation, \
and in full whenever the cursor is given up. Non-trivial: at least one successful insertion or removal.";
    fn gen(s: &mut Source) -> Case {
        let anim = Plain::gen(s, 30);
        let max = if s.tier > 0 && s.chance(1, 20) { 400 } else { 40 };
        let ops = s.list(1, max, 10, |s, _| gen_op(s));
        Case { anim, ops }
    }
    fn fixed() -> Vec<Case> {
        let row = |tag| NewRow { row: Row { tag, exotic: false }, extra: 0, form: 0 };
        let mut v = Vec::new();
        for (nch, fill) in [(1, 255), (1, 256), (3, 300), (256, 3), (300, 300), (1, 65_535), (1, 65_536), (2, 70_000), (65_536, 2), (70_000, 3)] {
            let anim = Plain { nch, joints: 1, rows: vec![], fill };
            for ops in [
                vec![Op::Last, Op::Insert(row(9)), Op::Prev(3), Op::Insert(row(8)), Op::Remove, Op::Next(1), Op::Poke(true, nch - 1, 0x3f80_0000)],
                vec![Op::First, Op::InsertMany(vec![row(5), row(6)], 0), Op::Poke(true, 0, 0x4000_0000), Op::Walk, Op::Last, Op::Prev(1), Op::Remove, Op::Remove],
                vec![Op::Last, Op::Prev(2), Op::InsertMany(vec![row(5), row(6), row(7)], 4), Op::Shrink, Op::Remove, Op::IntoFrames(false)],
                vec![Op::IntoFramesMut(false, vec![(fill - 1, nch - 1, 0x4100_0000), (0, 0, 0x4110_0000)]), Op::Last, Op::Insert(row(1)), Op::First, Op::Remove],
                vec![Op::Next(2), Op::RemoveAll, Op::Insert(row(2)), Op::Prev(1), Op::Insert(row(3))],
            ] {
                v.push(Case { anim: anim.clone(), ops });
            }
        }
        v
    }
    fn check(c: &Case, cx: &mut Cx) -> Verdict {
        let Some(mut bvh) = c.anim.build() else {
            cx.discarded = true;
            return Ok(());
        };
        let nch = c.anim.nch as usize;
        let mut m = Model {
            nch,
            rows: c.anim.all_rows().map(|r| bits(&r.values(nch))).collect(),
            at: 0,
        };
        if m.rows != observe_rows(&bvh) {
            cx.discarded = true;
            return Ok(());
        }
        let skeleton = observe_joints(&bvh);
        let time = *bvh.frame_time();
        let mut i = 0;
        let mut via_from = false;
        // One turn per cursor.
        loop {
            let mut cur = if via_from { FrameCursor::from(&mut bvh) } else { bvh.frame_cursor() };
            m.at = 0;
            see(&cur, &m, "a new cursor")?;
            let mut last = None;
            while let Some(op) = c.ops.get(i) {
                let at_op = i;
                let what = || format!("operation {} ({:?})", at_op, op);
                i += 1;
                match op {
                    Op::Next(n) => {
                        for _ in 0..*n {
                            m.at = (m.at + 1).min(m.rows.len());
                            ensure_eq!(cur.move_next().index(), m.at, "{}", what());
                        }
                    }
                    Op::Prev(n) => {
                        for _ in 0..*n {
                            m.at = m.at.saturating_sub(1);
                            ensure_eq!(cur.move_prev().index(), m.at, "{}", what());
                        }
                    }
                    Op::First => {
                        m.at = 0;
                        ensure_eq!(cur.move_first().index(), m.at, "{}", what());
                    }
                    Op::Last => {
                        m.at = m.rows.len();
                        ensure_eq!(cur.move_last().index(), m.at, "{}", what());
                    }
                    Op::Insert(r) => {
                        let v = values(r, nch);
                        let res = match r.form {
                            0 => cur.try_insert_frame(&v[..]).map(|_| ()),
                            1 => cur.try_insert_frame(&v).map(|_| ()),
                            2 => cur.try_insert_frame(&v.clone().into_boxed_slice()).map(|_| ()),
                            _ => {
                                // A frame of another animation, if one can have it.
                                let mut other = Plain { nch: v.len() as u32, joints: 1, rows: vec![r.row.clone()], fill: 0 }
                                    .build();
                                match other.as_mut().filter(|_| v.len() < 1000) {
                                    Some(o) if !v.is_empty() && r.row.tag % 2 == 0 => {
                                        let f = o.frames_mut().next().unwrap();
                                        cur.try_insert_frame(&f).map(|_| ())
                                    }
                                    Some(o) if !v.is_empty() => {
                                        let f = o.frames().next().unwrap();
                                        cur.try_insert_frame(&f).map(|_| ())
                                    }
                                    _ => cur.try_insert_frame(&v).map(|_| ()),
                                }
                            }
                        };
                        let good = v.len() == nch;
                        match res {
                            Ok(()) => {
                                ensure!(good, "{}: {} values were accepted for {} channels", what(), v.len(), nch);
                                if nch > 0 {
                                    m.rows.insert(m.at, bits(&v));
                                    m.at += 1;
                                    cx.nontrivial = true;
                                    cx.label_if(m.at < m.rows.len(), "inserted before the end");
                                }
                            }
                            Err(e) => {
                                ensure!(!good, "{}: refused: {}", what(), e);
                                let _ = format!("{:?}", e);
                                cx.label("insertion refused");
                            }
                        }
                    }
                    Op::InsertMany(rs, kind) => {
                        let vs: Vec<Vec<f32>> = rs.iter().map(|r| values(r, nch)).collect();
                        let mut bad = vs.iter().position(|v| v.len() != nch);
                        let over = vec![1.5f32; nch + 1];
                        let res = match kind {
                            0 => cur.try_insert_frames(&vs).map(|_| ()),
                            1 => {
                                // Upper bound of the size far too large.
                                let it = (0..usize::MAX).map(|i| vs.get(i)).take_while(|v| v.is_some());
                                cur.try_insert_frames(it.map(|v| v.unwrap())).map(|_| ())
                            }
                            2 if nch > 0 && bad.is_none() && !vs.is_empty() => {
                                let flat: Vec<f32> = vs.concat();
                                cur.try_insert_frames(flat.chunks(nch)).map(|_| ())
                            }
                            3 => {
                                // A large lower bound; refused at some frame.
                                if bad.is_none() {
                                    bad = Some(vs.len());
                                }
                                cur.try_insert_frames(vs.iter().chain(std::iter::repeat(&over))).map(|_| ())
                            }
                            4 => {
                                // Nothing known about the size.
                                let mut k = 0;
                                let it = std::iter::from_fn(|| {
                                    k += 1;
                                    vs.get(k - 1)
                                });
                                cur.try_insert_frames(it).map(|_| ())
                            }
                            _ => {
                                let all: Vec<&[f32]> = vs.iter().map(|v| &v[..]).collect();
                                cur.try_insert_frames(all).map(|_| ())
                            }
                        };
                        let whole = bad.unwrap_or(vs.len());
                        let k = match (res, bad) {
                            (Ok(()), None) => whole,
                            (Ok(()), Some(b)) => {
                                return Err(format!("{}: frame {} has a wrong length but was accepted", what(), b))
                            }
                            (Err(e), None) => return Err(format!("{}: refused: {}", what(), e)),
                            (Err(_), Some(b)) => {
                                cx.label("insertion of several refused");
                                // Some of the frames before the bad one.
                                let k = cur.index().wrapping_sub(m.at);
                                ensure!(
                                    nch == 0 || k <= b,
                                    "{}: the position moved from {} to {} though frame {} was refused",
                                    what(), m.at, cur.index(), b
                                );
                                k
                            }
                        };
                        if nch > 0 {
                            for v in &vs[..k] {
                                m.rows.insert(m.at, bits(v));
                                m.at += 1;
                            }
                            cx.nontrivial |= k > 0;
                            cx.label_if(k > 1, "several inserted");
                        }
                    }
                    Op::Remove => match cur.remove_frame().map(|_| ()) {
                        Ok(()) => {
                            ensure!(m.at < m.rows.len(), "{}: removed a frame that is not there", what());
                            m.rows.remove(m.at);
                            cx.nontrivial = true;
                            cx.label("removed");
                        }
                        Err(e) => {
                            ensure!(m.at >= m.rows.len(), "{}: refused: {}", what(), e);
                            let _ = format!("{:?}", e);
                            cx.label("removal refused");
                        }
                    },
                    Op::RemoveAll => {
                        ensure_eq!(cur.remove_all_frames().len(), 0, "{}", what());
                        m.rows.clear();
                        m.at = 0;
                    }
                    Op::Poke(next, k, b) => {
                        let row = if *next {
                            Some(m.at)
                        } else {
                            m.at.checked_sub(1)
                        };
                        let f = if *next { cur.peek_next_mut() } else { cur.peek_prev_mut() };
                        match (f, row.and_then(|r| m.rows.get_mut(r))) {
                            (Some(mut f), Some(row)) => {
                                ensure_eq!(bits(f.as_slice()), *row, "{}", what());
                                let k = *k as usize % nch;
                                f[k] = f32::from_bits(*b);
                                row[k] = canon(f32::from_bits(*b));
                                cx.label("written through peek");
                            }
                            (None, None) => {}
                            (f, _) => {
                                return Err(format!(
                                    "{}: {} at {} of {}",
                                    what(),
                                    if f.is_some() { "a frame" } else { "no frame" },
                                    m.at,
                                    m.rows.len()
                                ))
                            }
                        }
                    }
                    Op::Shrink => cur.shrink_to_fit(),
                    Op::Walk => {
                        cur.move_first();
                        for (k, r) in m.rows.iter().enumerate() {
                            let f = cur.peek_next().map(|f| bits(f.as_slice()));
                            ensure_eq!(f.as_ref(), Some(r), "{}: frame {}", what(), k);
                            cur.move_next();
                        }
                        ensure!(cur.peek_next().is_none(), "{}: a frame after the last", what());
                        while cur.index() > m.at {
                            cur.move_prev();
                        }
                    }
                    Op::Reborrow(_) | Op::IntoFrames(_) | Op::IntoFramesMut(..) => {
                        last = Some(op);
                        break;
                    }
                }
                see(&cur, &m, &what())?;
                cx.comparisons += 1;
            }
            match last {
                Some(Op::IntoFrames(from)) => {
                    let it: Frames<'_> = if *from { cur.into() } else { cur.into_frames() };
                    let left = it.len();
                    let got: Vec<Vec<u32>> = it.map(|f| bits(f.as_slice())).collect();
                    diff_rows(&got, &m.rows[m.at..]).map_err(|e| format!("into_frames at {}: {}", m.at, e))?;
                    ensure_eq!(left, got.len(), "len of into_frames");
                    cx.label("converted to frames");
                }
                Some(Op::IntoFramesMut(from, writes)) => {
                    let it: FramesMut<'_> = if *from { cur.into() } else { cur.into_frames_mut() };
                    let mut fs: Vec<_> = it.collect();
                    let got: Vec<Vec<u32>> = fs.iter().map(|f| bits(f.as_slice())).collect();
                    diff_rows(&got, &m.rows[m.at..]).map_err(|e| format!("into_frames_mut at {}: {}", m.at, e))?;
                    for (f, k, b) in writes {
                        let f = *f as usize;
                        if f < fs.len() {
                            let k = *k as usize % nch;
                            fs[f][k] = f32::from_bits(*b);
                            m.rows[m.at + f][k] = canon(f32::from_bits(*b));
                        }
                    }
                    cx.label("converted to mutable frames");
                }
                Some(Op::Reborrow(f)) => via_from = *f,
                _ => {}
            }
            diff_rows(&observe_rows(&bvh), &m.rows).map_err(|e| format!("after {} operations: {}", i, e))?;
            if last.is_none() {
                break;
            }
        }
        diff_joints(&observe_joints(&bvh), &skeleton).map_err(|e| format!("skeleton: {}", e))?;
        ensure!(*bvh.frame_time() == time, "the frame time changed");
        ensure_eq!(bvh.num_channels(), nch, "num_channels afterwards");
        let flat: Vec<u32> = m.rows.concat();
        ensure_eq!(bits(&bvh.extract_frames()), flat, "all values afterwards");
        cx.label_if(nch == 0, "no channels");
        Ok(())
    }
}
