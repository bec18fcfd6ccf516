//! C18: animations as values.

use super::load::doc_labels;
use crate::{engine::*, model::*};
use bvh_anim::Bvh;
use serde::{Deserialize, Serialize};
use std::time::Duration;

/// A small difference of a document.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Edit {
    Name(u16, u8),
    /// One number of the offset or the end site, by so many steps of an `f32`.
    Offset(u16, u8, i8),
    Site(u16, u8, i8),
    ToggleSite(u16),
    ChannelType(u16, u8, u8),
    /// The last channel of a joint goes to another one.
    MoveChannel(u16, u16),
    DropChannel(u16),
    SwapChannels(u16),
    Up(u16, u16),
    RemoveJoint(u16),
    RepeatJoint(u16),
    SwapJoints(u16, u16),
    /// The end site of one joint goes to another.
    MoveSite(u16, u16),
}

/// A change of a loaded animation that touches one aspect.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Act {
    Time(u64, u32),
    Value(u32, u32, u32),
    Insert(u16, u32),
    Remove(u16),
    RemoveAll,
    Extract,
    Shrink,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    pub anim: Anim,
    pub edits: Vec<Edit>,
    pub acts: Vec<Act>,
    /// Acts are done to the clone (`true`) or the original.
    pub to_clone: bool,
}

fn step(text: &str, n: i8) -> String {
    let v: f32 = text.parse().unwrap();
    if !v.is_finite() {
        return "1".into();
    }
    // The integers in the order of the floats.
    let b = v.to_bits() as i32;
    let ord = if b < 0 { i32::MIN.wrapping_sub(b) } else { b };
    let ord = ord.saturating_add(n as i32);
    let b = if ord < 0 { i32::MIN.wrapping_sub(ord) } else { ord };
    let w = f32::from_bits(b as u32);
    if w.is_finite() {
        format!("{}", w)
    } else {
        "-3".into()
    }
}

pub fn apply(doc: &mut Doc, e: &Edit) {
    let n = doc.joints.len();
    let at = |i: u16| i as usize % n;
    match *e {
        Edit::Name(i, how) => {
            let v = &mut doc.joints[at(i)].name.0;
            match how {
                0 => v.push(b'q'),
                1 if v.len() > 1 => {
                    v.pop();
                }
                2 => {
                    let k = v.len() - 1;
                    v[k] = if v[k] == b'a' { b'b' } else { b'a' };
                }
                _ => v[0] = if v[0] == b'M' { b'N' } else { b'M' },
            }
        }
        Edit::Offset(i, k, by) => {
            let t = &mut doc.joints[at(i)].offset[k as usize % 3];
            *t = step(t, by);
        }
        Edit::Site(i, k, by) => {
            if let Some(ref mut e) = doc.joints[at(i)].end_site {
                let t = &mut e[k as usize % 3];
                *t = step(t, by);
            }
        }
        Edit::ToggleSite(i) => {
            let j = &mut doc.joints[at(i)];
            j.end_site = match j.end_site {
                Some(_) => None,
                None => Some(["0".into(), "0".into(), "0".into()]),
            };
        }
        Edit::ChannelType(i, k, t) => {
            if let Some(ref mut c) = doc.joints[at(i)].channels {
                if !c.is_empty() {
                    let k = k as usize % c.len();
                    c[k] = t % 6;
                }
            }
        }
        Edit::MoveChannel(i, k) => {
            if let Some(c) = doc.joints[at(i)].channels.as_mut().and_then(|c| c.pop()) {
                doc.joints[at(k)].channels.get_or_insert_with(Vec::new).push(c);
            }
        }
        Edit::DropChannel(i) => {
            if let Some(ref mut c) = doc.joints[at(i)].channels {
                c.pop();
            }
        }
        Edit::SwapChannels(i) => {
            if let Some(ref mut c) = doc.joints[at(i)].channels {
                c.reverse();
            }
        }
        Edit::Up(i, up) => doc.joints[at(i)].up = up,
        Edit::RemoveJoint(i) => {
            if n > 1 {
                doc.joints.remove(at(i));
            }
        }
        Edit::RepeatJoint(i) => {
            let mut j = doc.joints[at(i)].clone();
            j.channels = None;
            doc.joints.insert(at(i) + 1, j);
        }
        Edit::SwapJoints(i, k) => doc.joints.swap(at(i), at(k)),
        Edit::MoveSite(i, k) => {
            let a = doc.joints[at(i)].end_site.take();
            if a.is_some() {
                doc.joints[at(k)].end_site = a;
            }
        }
    }
}

/// Performs `act` on the animation and on what is expected of it.
pub fn act(bvh: &mut Bvh, o: &mut Obs, a: &Act) -> Verdict {
    let nch = o.num_channels;
    match *a {
        Act::Time(s, n) => {
            let d = Duration::new(s, n % 1_000_000_000);
            bvh.set_frame_time(d);
            o.frame_time = d;
        }
        Act::Value(r, k, b) => {
            if o.rows.is_empty() {
                return Ok(());
            }
            let (r, k) = (r as usize % o.rows.len(), k as usize % nch);
            let mut f = bvh.frames_mut().nth(r).ok_or("no frame where one is listed")?;
            f[k] = f32::from_bits(b);
            o.rows[r][k] = canon(f32::from_bits(b));
        }
        Act::Insert(at, b) => {
            if nch == 0 {
                return Ok(());
            }
            let at = at as usize % (o.rows.len() + 1);
            let row: Vec<f32> = (0..nch).map(|i| f32::from_bits(b) + i as f32).collect();
            let mut c = bvh.frame_cursor();
            for _ in 0..at {
                c.move_next();
            }
            c.try_insert_frame(&row).map_err(|e| e.to_string())?;
            o.rows.insert(at, row.iter().map(|v| canon(*v)).collect());
        }
        Act::Remove(at) => {
            if o.rows.is_empty() {
                return Ok(());
            }
            let at = at as usize % o.rows.len();
            let mut c = bvh.frame_cursor();
            for _ in 0..at {
                c.move_next();
            }
            c.remove_frame().map_err(|e| e.to_string())?;
            o.rows.remove(at);
        }
        Act::RemoveAll => {
            bvh.frame_cursor().remove_all_frames();
            o.rows.clear();
        }
        Act::Extract => {
            let flat = bvh.extract_frames();
            let want: Vec<u32> = o.rows.concat();
            let got: Vec<u32> = flat.iter().map(|v| canon(*v)).collect();
            ensure!(got == want, "extract_frames returned {:?}, expected {:?}", got, want);
            o.rows.clear();
        }
        Act::Shrink => bvh.frame_cursor().shrink_to_fit(),
    }
    Ok(())
}

/// `any_time`: frame times up to the largest there is, or only below a million
/// seconds.
pub fn gen_act(s: &mut Source, any_time: bool) -> Act {
    match s.weighted(&[20, 30, 15, 15, 4, 8, 4]) {
        0 => Act::Time(
            match s.upto(3) {
                0 => 0,
                1 => s.upto(3),
                2 => s.upto(999_999),
                _ if any_time => match s.upto(3) {
                    0 => u64::MAX >> s.upto(63),
                    1 => 1 << s.upto(63),
                    2 => *s.pick(&[u64::MAX, u64::MAX - 1, 1 << 32, u32::MAX as u64, 1 << 53, (1 << 53) + 1]),
                    _ => s.u64() >> s.upto(44),
                },
                _ => s.upto(100),
            },
            match s.upto(2) {
                0 => s.upto(2) as u32,
                1 => s.upto(999_999_999) as u32,
                _ => *s.pick(&[999_999_999u32, 33_333_333, 500_000_000]),
            },
        ),
        1 => Act::Value(s.upto(20) as u32, s.upto(60) as u32, gen_f32_bits(s)),
        2 => Act::Insert(s.upto(20) as u16, (s.upto(1000) as f32).to_bits()),
        3 => Act::Remove(s.upto(20) as u16),
        4 => Act::RemoveAll,
        5 => Act::Extract,
        _ => Act::Shrink,
    }
}

pub fn gen_edit(s: &mut Source) -> Edit {
    let i = s.upto(11) as u16;
    let by = |s: &mut Source| *s.pick(&[1i8, -1, 2, 100, -100]);
    match s.upto(12) {
        0 => Edit::Name(i, s.upto(3) as u8),
        1 => Edit::Offset(i, s.upto(2) as u8, by(s)),
        2 => Edit::Site(i, s.upto(2) as u8, by(s)),
        3 => Edit::ToggleSite(i),
        4 => Edit::ChannelType(i, s.upto(8) as u8, s.upto(5) as u8),
        5 => Edit::MoveChannel(i, s.upto(11) as u16),
        6 => Edit::DropChannel(i),
        7 => Edit::SwapChannels(i),
        8 => Edit::Up(i, s.upto(4) as u16),
        9 => Edit::RemoveJoint(i),
        10 => Edit::RepeatJoint(i),
        11 => Edit::SwapJoints(i, s.upto(11) as u16),
        _ => Edit::MoveSite(i, s.upto(11) as u16),
    }
}

/// Whether two observations are those of equal animations; `None` if that is
/// a matter of taste (not-a-number, zeros of either sign).
pub fn same(a: &Obs, b: &Obs) -> Option<bool> {
    if a == b {
        return if a.has_nan() { None } else { Some(true) };
    }
    fn plus(o: &Obs) -> Obs {
        let z = |b: &mut u32| {
            if *b == 0x8000_0000 {
                *b = 0
            }
        };
        let mut o = o.clone();
        o.rows.iter_mut().flatten().for_each(z);
        for j in &mut o.joints {
            j.offset.iter_mut().for_each(z);
            j.end_site.iter_mut().flatten().for_each(z);
        }
        o
    }
    if plus(a) == plus(b) {
        None
    } else {
        Some(false)
    }
}

pub fn check_eq(a: &Bvh, oa: &Obs, b: &Bvh, ob: &Obs, what: &str, cx: &mut Cx) -> Verdict {
    if let Some(w) = same(oa, ob) {
        let d = diff(oa, ob).err().unwrap_or_else(|| "nothing differs".into());
        ensure!((a == b) == w, "{}: == is {}, but: {}", what, a == b, d);
        ensure!((b == a) == w, "{}: == the other way is {}, but: {}", what, b == a, d);
        ensure!((a != b) == !w, "{}: != is {}, but: {}", what, a != b, d);
        cx.comparisons += 3;
        cx.label(if w { "compared equal" } else { "compared different" });
    } else {
        cx.label("comparison left open");
    }
    Ok(())
}

pub struct C18;
impl Prop for C18 {
    type Case = Case;
    const ID: &'static str = "C18";
    const CASES: (u64, u64) = (700_000, 7_000_000);
    const RULE: &'static str = "A case is an animation, up to 2 small differences of its document (a name, one \
number by one step, an end site, a channel type, a channel or end site moved to another joint, another parent, \
joints removed, repeated or swapped) and up to 5 acts (frame time, one value, frames inserted, removed, \
extracted). The animation is cloned, one of the two is acted upon, and both are compared with what is expected \
after each act; the documents with and without the differences are compared for equality. Non-trivial: an edit \
or act that changed something.";
    fn gen(s: &mut Source) -> Case {
        let anim = gen_anim(s, &DocCfg::SMALL);
        let edits = s.list(0, 2, 1, |s, _| gen_edit(s));
        let acts = s.list(0, 5, 2, |s, _| gen_act(s, true));
        Case { anim, edits, acts, to_clone: s.bool() }
    }
    fn fixed() -> Vec<Case> {
        let mut v = Vec::new();
        for doc in scale_docs().into_iter().filter(|d| d.joints.len() < 60_000) {
            let (r, k) = (doc.num_frames() as u32, doc.num_channels() as u32);
            let last = (doc.joints.len() - 1) as u16;
            for edit in [Edit::Name(last, 0), Edit::Offset(last, 2, 1), Edit::ToggleSite(last), Edit::ChannelType(last, 0, 3)] {
                let anim = Anim { doc: doc.clone(), set_time: None, rows: None };
                let acts = vec![
                    Act::Value(r.saturating_sub(1), k.saturating_sub(1), 0x4000_0000),
                    Act::Remove(0),
                    Act::Insert(r.saturating_sub(1).min(65_535) as u16, 0x4100_0000),
                    Act::Extract,
                ];
                v.push(Case { anim, edits: vec![edit], acts, to_clone: k % 2 == 0 });
            }
        }
        v
    }
    fn check(c: &Case, cx: &mut Cx) -> Verdict {
        let Some(a) = c.anim.build() else {
            cx.discarded = true;
            return Ok(());
        };
        let oa = observe(&a);
        check_eq(&a, &oa, &a, &oa, "with itself", cx)?;
        // The clone, and the same loaded once more.
        let b = a.clone();
        diff(&observe(&b), &oa).map_err(|e| format!("the clone: {}", e))?;
        check_eq(&a, &oa, &b, &oa, "with its clone", cx)?;
        if let Some(again) = c.anim.build() {
            check_eq(&a, &oa, &again, &observe(&again), "with the same loaded again", cx)?;
        }
        let mut into = Bvh::new();
        into.set_frame_time(Duration::new(3, 1));
        into.clone_from(&a);
        diff(&observe(&into), &oa).map_err(|e| format!("clone_from: {}", e))?;
        check_eq(&a, &oa, &into, &oa, "after clone_from", cx)?;
        // Skeletons that differ a little.
        if !c.edits.is_empty() {
            let mut anim = c.anim.clone();
            for e in &c.edits {
                apply(&mut anim.doc, e);
            }
            if let Some(other) = anim.build() {
                let oo = observe(&other);
                check_eq(&a, &oa, &other, &oo, &format!("after {:?}", c.edits), cx)?;
                // Each over the other.
                let (mut x, mut y) = (a.clone(), other.clone());
                x.clone_from(&other);
                y.clone_from(&a);
                diff(&observe(&x), &oo).map_err(|e| format!("clone_from over another: {}", e))?;
                diff(&observe(&y), &oa).map_err(|e| format!("clone_from over another: {}", e))?;
                if oa.joints != oo.joints {
                    cx.label("skeletons differ");
                    cx.nontrivial = true;
                }
            }
        }
        // One of the two changes, the other does not.
        let (mut one, other) = if c.to_clone { (b, a) } else { (a, b) };
        let mut o1 = oa.clone();
        for (i, x) in c.acts.iter().enumerate() {
            let what = format!("after act {} ({:?})", i, x);
            let before = o1.clone();
            act(&mut one, &mut o1, x).map_err(|e| format!("{}: {}", what, e))?;
            diff(&observe(&one), &o1).map_err(|e| format!("{}: {}", what, e))?;
            diff(&observe(&other), &oa).map_err(|e| format!("{}: the other animation: {}", what, e))?;
            check_eq(&one, &o1, &other, &oa, &what, cx)?;
            cx.nontrivial |= before != o1;
        }
        // A clone that went its own way and came back.
        let mut back = other.clone();
        let frames = back.extract_frames();
        let mut o = oa.clone();
        ensure!(
            frames.iter().map(|v| canon(*v)).eq(oa.rows.iter().flatten().copied()),
            "extract_frames does not return all values in order"
        );
        o.rows.clear();
        diff(&observe(&back), &o).map_err(|e| format!("after extract_frames: {}", e))?;
        check_eq(&back, &o, &other, &oa, "after extract_frames", cx)?;
        ensure!(back.extract_frames().is_empty(), "extracting twice gives values again");
        if oa.num_channels > 0 {
            back.frame_cursor()
                .try_insert_frames(frames.chunks(oa.num_channels))
                .map_err(|e| format!("inserting the extracted frames: {}", e))?;
            diff(&observe(&back), &oa).map_err(|e| format!("with the extracted frames inserted: {}", e))?;
            check_eq(&back, &oa, &other, &oa, "with the extracted frames inserted", cx)?;
        }
        let old = oa.frame_time;
        for d in [Duration::MAX, Duration::MAX - Duration::from_nanos(1), Duration::ZERO, Duration::new(1 << 53, 1)] {
            back.set_frame_time(d);
            ensure_eq!(*back.frame_time(), d, "frame time set to {:?}", d);
        }
        // Long frame times that differ little.
        let (t, mut p) = (Duration::new(1 << 40, 1), back.clone());
        back.set_frame_time(t);
        p.set_frame_time(t + Duration::from_nanos(1));
        ensure!(back != p, "frame times of {:?} and {:?} compare equal", t, p.frame_time());
        back.set_frame_time(old.checked_add(Duration::from_nanos(1)).unwrap_or_default());
        let mut o = oa.clone();
        o.frame_time = *back.frame_time();
        ensure!(o.frame_time != old, "set_frame_time did not change the frame time");
        diff(&observe(&back), &o).map_err(|e| format!("after set_frame_time: {}", e))?;
        check_eq(&back, &o, &other, &oa, "with another frame time", cx)?;
        back.set_frame_time(old);
        check_eq(&back, &oa, &other, &oa, "with the frame time set back", cx)?;
        #[allow(deprecated)]
        {
            ensure_eq!(back.num_frames(), oa.rows.len(), "num_frames");
        }
        doc_labels(&c.anim.doc, cx);
        Ok(())
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["Whether values that are not numbers, or zeros of different signs, are the same is left open."]
    }
}
