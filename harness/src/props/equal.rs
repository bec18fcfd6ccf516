//! C22: equality, hashing and copies of the smaller values.

use super::value::{apply, gen_edit, Edit};
use crate::{engine::*, model::*};
use bvh_anim::{errors::SetMotionError, write::*, Axis, Bvh, Channel, ChannelType};
use serde::{Deserialize, Serialize};
use std::{
    collections::hash_map::DefaultHasher,
    fmt::Debug,
    hash::{Hash, Hasher},
};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    pub anim: Anim,
    pub edits: Vec<Edit>,
    /// Values set in the frames of the other: frame, channel, bits.
    pub sets: Vec<(u8, u8, u32)>,
    pub opts: [Opts; 2],
}

fn hash<T: Hash>(v: &T) -> u64 {
    let mut h = DefaultHasher::new();
    v.hash(&mut h);
    h.finish()
}

/// `want`: whether the two are to be equal, if that is not left open.
fn eq<T: PartialEq + ?Sized>(a: &T, b: &T, want: Option<bool>, what: &dyn Fn() -> String) -> Verdict {
    if let Some(w) = want {
        ensure!((a == b) == w, "{}: == is {}", what(), a == b);
        ensure!((b == a) == w, "{}: == the other way is {}", what(), b == a);
        ensure!((a != b) != w, "{}: != is {}", what(), a != b);
    } else {
        ensure!((a == b) == (b == a), "{}: == is not symmetric", what());
        ensure!((a == b) != (a != b), "{}: != is not the opposite of ==", what());
    }
    Ok(())
}

fn eq_hash<T: PartialEq + Hash + Clone + Debug>(a: &T, b: &T, want: bool, what: &dyn Fn() -> String) -> Verdict {
    eq(a, b, Some(want), what)?;
    if want {
        ensure!(hash(a) == hash(b), "{}: equal, with different hashes", what());
    }
    eq(a, &a.clone(), Some(true), what)?;
    ensure!(format!("{:?}", a) == format!("{:?}", a.clone()), "{}: the copy is printed otherwise", what());
    Ok(())
}

/// Whether numbers are the same; `None` for not-a-number and for zeros of
/// different signs.
fn same_bits<'a>(a: impl Iterator<Item = &'a u32>, b: impl Iterator<Item = &'a u32>) -> Option<bool> {
    let (a, b): (Vec<u32>, Vec<u32>) = (a.copied().collect(), b.copied().collect());
    if a.len() != b.len() {
        return Some(false);
    }
    let mut open = false;
    for (x, y) in a.iter().zip(&b) {
        let (f, g) = (f32::from_bits(*x), f32::from_bits(*y));
        if f.is_nan() && g.is_nan() || x != y && f == g {
            open = true;
        } else if x != y {
            return Some(false);
        }
    }
    if open {
        None
    } else {
        Some(true)
    }
}

fn all(v: [Option<bool>; 3]) -> Option<bool> {
    if v.contains(&Some(false)) {
        Some(false)
    } else if v.contains(&None) {
        None
    } else {
        Some(true)
    }
}

fn joints(a: &Bvh, oa: &Obs, b: &Bvh, ob: &Obs, cx: &mut Cx) -> Verdict {
    let (da, db) = (oa.depths(), ob.depths());
    let ja: Vec<_> = a.joints().take(40).collect();
    let jb: Vec<_> = b.joints().take(40).collect();
    for (i, x) in ja.iter().enumerate() {
        for (k, y) in jb.iter().enumerate() {
            let (p, q) = (&oa.joints[i], &ob.joints[k]);
            let shown = p.name == q.name && p.channels == q.channels && p.parent == q.parent && i == k;
            let numbers = same_bits(p.offset.iter(), q.offset.iter());
            let sites = match (&p.end_site, &q.end_site) {
                (None, None) => Some(true),
                (Some(s), Some(t)) => same_bits(s.iter(), t.iter()),
                _ => Some(false),
            };
            // The depth is that of the parent, and not of the joint itself.
            let rest = if !shown {
                Some(false)
            } else if da[i] == db[k] {
                Some(true)
            } else {
                None
            };
            let want = all([rest, numbers, sites]);
            eq(x, y, want, &|| format!("joint {} of one and joint {} of the other", i, k))?;
            cx.comparisons += 1;
            cx.label_if(want == Some(true), "joints equal");
        }
    }
    Ok(())
}

pub struct C22;
impl Prop for C22 {
    type Case = Case;
    const ID: &'static str = "C22";
    const CASES: (u64, u64) = (250_000, 2_500_000);
    const RULE: &'static str = "A case is an animation, another one that is the same or differs a little in its skeleton \
or in single motion values, and two sets of write options that share some fields; every joint, channel and frame of \
one is compared with every one of the other, the options, terminators, indents, axes, channel types and errors with \
each other, and the results with whether what they show is the same; equal ones have equal hashes, and copies are \
equal. Non-trivial: the two animations differ, and share an equal joint or frame.";
    fn gen(s: &mut Source) -> Case {
        let anim = gen_anim(s, &DocCfg { max_joints: 8, max_frames: 5, max_values: 120, ..DocCfg::SMALL });
        let edits = s.list(0, 2, 1, |s, _| gen_edit(s));
        let sets = s.list(0, 3, 1, |s, _| (s.upto(5) as u8, s.upto(40) as u8, gen_f32_bits(s)));
        let a = gen_opts(s);
        let mut b = if s.bool() { a.clone() } else { gen_opts(s) };
        let other = gen_opts(s);
        match s.upto(5) {
            0 => {}
            1 => b.indent = other.indent,
            2 => b.windows = other.windows,
            3 => b.offset = other.offset,
            4 => b.time = other.time,
            _ => b.motion = other.motion,
        }
        Case { anim, edits, sets, opts: [a, b] }
    }
    fn check(c: &Case, cx: &mut Cx) -> Verdict {
        let Some(a) = c.anim.build() else {
            cx.discarded = true;
            return Ok(());
        };
        let mut doc = c.anim.clone();
        for e in &c.edits {
            apply(&mut doc.doc, e);
        }
        let Some(mut b) = doc.build().or_else(|| c.anim.build()) else {
            cx.discarded = true;
            return Ok(());
        };
        let n = b.num_channels();
        for (r, k, v) in &c.sets {
            let rows = b.frames().len();
            if n > 0 && rows > 0 {
                if let Some(mut f) = b.frames_mut().nth(*r as usize % rows) {
                    f.as_mut_slice()[*k as usize % n] = f32::from_bits(*v);
                }
            }
        }
        let (oa, ob) = (observe(&a), observe(&b));
        // Joints.
        joints(&a, &oa, &a, &oa, cx)?;
        joints(&a, &oa, &b, &ob, cx)?;
        // Channels.
        let list = |b: &Bvh| -> Vec<Channel> { b.joints().flat_map(|j| j.channels().to_vec()).take(60).collect() };
        let (ca, cb) = (list(&a), list(&b));
        for x in &ca {
            for y in &cb {
                let want = x.motion_index() == y.motion_index() && x.channel_type() == y.channel_type();
                eq_hash(x, y, want, &|| format!("{:?} and {:?}", x, y))?;
                cx.comparisons += 1;
            }
        }
        // Frames, shared and mutable.
        let mut m = b.clone();
        let mut equal = 0;
        for (i, (x, r)) in a.frames().zip(&oa.rows).enumerate().take(20) {
            for (k, ((y, z), t)) in b.frames().zip(m.frames_mut()).zip(&ob.rows).enumerate().take(20) {
                let want = same_bits(r.iter(), t.iter());
                equal += (want == Some(true)) as u32;
                eq(&x, &y, want, &|| format!("frame {} of one and frame {} of the other", i, k))?;
                let copy = y;
                eq(&copy, &y, same_bits(t.iter(), t.iter()), &|| format!("frame {} and its copy", k))?;
                let mut own = a.clone();
                if let Some(w) = own.frames_mut().nth(i) {
                    eq(&w, &z, want, &|| format!("mutable frame {} of one and {} of the other", i, k))?;
                }
                eq(&x, &bvh_anim::frames::Frame::from(z), want, &|| format!("frame {} and a converted mutable frame {}", i, k))?;
                cx.comparisons += 4;
            }
        }
        cx.label_if(equal > 0, "frames equal");
        // Write options, and the parts of them.
        let [p, q] = &c.opts;
        let (x, y) = (p.build(), q.build());
        eq_hash(&x, &y, p == q, &|| format!("write options {:?} and {:?}", p, q))?;
        eq_hash(&x.indent, &y.indent, p.indent == q.indent, &|| format!("indents {:?} and {:?}", p.indent, q.indent))?;
        eq_hash(&x.line_terminator, &y.line_terminator, p.windows == q.windows, &|| "line terminators".to_string())?;
        if x == y {
            ensure!(x.write_to_string(&a) == y.write_to_string(&a), "equal options write different texts");
            cx.label("options equal");
        }
        ensure!(x.clone().write_to_string(&a) == x.write_to_string(&a), "cloned options write another text");
        for t in [x.line_terminator, LineTerminator::Unix, LineTerminator::Windows] {
            let w = if t == LineTerminator::Windows { "\r\n" } else { "\n" };
            let esc = if t == LineTerminator::Windows { "\\r\\n" } else { "\\n" };
            ensure!(
                t.as_str() == w && t.as_bytes() == w.as_bytes() && t.to_string() == w,
                "{:?} is {:?}, {:?} and {:?}",
                t, t.as_str(), t.as_bytes(), t.to_string()
            );
            ensure!(
                t.as_escaped_str() == esc && t.as_escaped_bytes() == esc.as_bytes(),
                "{:?} is {:?} and {:?}, escaped",
                t, t.as_escaped_str(), t.as_escaped_bytes()
            );
        }
        ensure!(LineTerminator::default() == LineTerminator::native(), "the default terminator is not the native one");
        ensure!(WriteOptions::default() == WriteOptions::new(), "new and default options differ");
        let d = WriteOptions::default();
        ensure!(
            d.indent == IndentStyle::default() && d.line_terminator == LineTerminator::default(),
            "the default options are not made of defaults"
        );
        // Axes, channel types and errors, as the case's numbers tell.
        let types = [
            ChannelType::RotationX, ChannelType::RotationY, ChannelType::RotationZ,
            ChannelType::PositionX, ChannelType::PositionY, ChannelType::PositionZ,
        ];
        for (i, t) in types.iter().enumerate() {
            for (k, u) in types.iter().enumerate() {
                eq_hash(t, u, i == k, &|| format!("{:?} and {:?}", t, u))?;
            }
        }
        let axes = [Axis::X, Axis::Y, Axis::Z];
        for (i, t) in axes.iter().enumerate() {
            for (k, u) in axes.iter().enumerate() {
                eq_hash(t, u, i == k, &|| format!("{:?} and {:?}", t, u))?;
                ensure!(t.cmp(u) == i.cmp(&k) && t.partial_cmp(u) == Some(i.cmp(&k)), "{:?} and {:?} are not in order", t, u);
            }
        }
        let e = |r: u8, k: u8| if r % 2 == 0 { SetMotionError::BadFrame(k as usize) } else { SetMotionError::BadChannel(k as usize) };
        for (r, k, _) in &c.sets {
            for (s, l, _) in &c.sets {
                eq(&e(*r, *k), &e(*s, *l), Some(r % 2 == s % 2 && k == l), &|| format!("{:?} and {:?}", e(*r, *k), e(*s, *l)))?;
                eq(&e(*r, *k), &e(*r, *k).clone(), Some(true), &|| "an error and its clone".to_string())?;
            }
        }
        let differ = oa != ob;
        cx.nontrivial = differ && (equal > 0 || oa.joints.iter().any(|j| ob.joints.contains(j)));
        cx.label_if(differ, "animations differ");
        Ok(())
    }
    fn assumptions() -> Vec<&'static str> {
        vec![
            "Whether NaN equals NaN, and zeros of different signs each other, is left open.",
            "Whether joints that differ in nothing but the depth of their parent are equal is left open.",
        ]
    }
}
