//! C16: channel names, types and axes.

use crate::{engine::*, model::*};
use bvh_anim::{errors::ParseChannelError, Axis, ChannelType};
use serde::{Deserialize, Serialize};
use std::convert::TryFrom;
use std::str::FromStr;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    pub text: Bytes,
}

type Conv = Result<ChannelType, ParseChannelError>;

/// One text through every conversion.
fn conversions(b: &[u8]) -> Vec<(&'static str, Conv)> {
    let mut v: Vec<(&'static str, Conv)> = vec![
        ("from_bytes(&[u8])", ChannelType::from_bytes(b)),
        ("from_bytes(&Vec<u8>)", ChannelType::from_bytes(&b.to_vec())),
        ("TryFrom<&[u8]>", ChannelType::try_from(b)),
    ];
    if let Ok(s) = std::str::from_utf8(b) {
        v.push(("from_bytes(&str)", ChannelType::from_bytes(s)));
        v.push(("TryFrom<&str>", ChannelType::try_from(s)));
        v.push(("FromStr", ChannelType::from_str(s)));
        v.push(("str::parse", s.parse()));
    }
    v
}

/// The same text where the parser of documents meets it.
fn in_document(b: &[u8]) -> Option<Result<ChannelType, Vec<u8>>> {
    use bvh_anim::errors::{LoadErrorKind, LoadJointsError};
    // A `:` separates words of a document, and a second name keeps the end of
    // the line away from this one.
    if b.is_empty() || has_space(b) || b.contains(&b':') {
        return None;
    }
    let mut t = b"HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 2 ".to_vec();
    t.extend_from_slice(b);
    t.extend_from_slice(b" Xposition\n}\nMOTION\nFrames: 0\nFrame Time: 0.1\n");
    match guard(|| bvh_anim::from_bytes(&t)).ok()? {
        Ok(b) => Some(Ok(b.root_joint()?.channels().first()?.channel_type())),
        Err(e) => match e.into_kind() {
            LoadErrorKind::Joints(LoadJointsError::ParseChannelError { error, .. }) => {
                Some(Err(error.into_inner()))
            }
            _ => None,
        },
    }
}

pub struct C16;
impl Prop for C16 {
    type Case = Case;
    const ID: &'static str = "C16";
    const CASES: (u64, u64) = (2_000_000, 20_000_000);
    const RULE: &'static str = "Enumerated: the six names, all byte strings at edit distance one from them (every \
deletion, insertion and replacement by any of the 256 bytes, every transposition), all their substrings, all \
pairs of their halves, and all strings of up to two bytes. Generated: names changed by several edits, in \
other case, padded, doubled, and random bytes. Each goes through every conversion. Non-trivial: a name, or a \
text that shares at least three bytes of prefix or suffix with one.";
    fn gen(s: &mut Source) -> Case {
        let base = s.pick(&CHANNEL_NAMES).as_bytes().to_vec();
        let text = match s.upto(7) {
            0 => base,
            1 => {
                let mut b = base;
                for _ in 0..s.range(1, 4) {
                    let i = s.below(b.len());
                    match s.upto(3) {
                        0 if b.len() > 1 => {
                            b.remove(i);
                        }
                        1 => b.insert(i, s.upto(255) as u8),
                        2 => b[i] ^= 0x20,
                        _ => b[i] = s.upto(255) as u8,
                    }
                }
                b
            }
            2 => {
                // Parts of two names.
                let other = s.pick(&CHANNEL_NAMES).as_bytes();
                let i = s.range(0, base.len());
                let j = s.range(0, other.len());
                [&base[..i], &other[j..]].concat()
            }
            3 => {
                let n = s.range(1, 40);
                (0..n).map(|_| s.upto(255) as u8).collect()
            }
            4 => {
                let pads: [&[u8]; 10] =
                    [b" ", b"\t", b"\n", b"\r", b"\0", b"\r\n", b"  ", b",", b"\xc2\xa0", b"\xef\xbb\xbf"];
                let mut b = base;
                let p = *s.pick(&pads);
                if s.bool() {
                    b.extend_from_slice(p);
                } else {
                    b.splice(0..0, p.iter().copied());
                }
                b
            }
            5 if s.bool() => {
                // Padded to some width, as in a table or a fixed-size field.
                let mut b = base;
                let w = s.range(1, 40);
                let p = *s.pick(b"\0 \t_.\xff0");
                let front = s.bool();
                while b.len() < w {
                    if front {
                        b.insert(0, p)
                    } else {
                        b.push(p)
                    }
                }
                b
            }
            5 => {
                let mut b = base;
                let mask = s.upto(511);
                for (i, c) in b.iter_mut().enumerate() {
                    if mask >> i & 1 == 1 {
                        *c ^= 0x20;
                    }
                }
                b
            }
            6 => {
                // Other axis letters and other words.
                let a = s.upto(255) as u8;
                let w = *s.pick(&["rotation", "position", "scale", "rot", "pos", "rotations", "translation"]);
                [&[a][..], w.as_bytes()].concat()
            }
            _ => {
                let n = s.range(0, 3);
                [base.repeat(n), s.pick(&CHANNEL_NAMES).as_bytes().to_vec()].concat()
            }
        };
        Case { text: Bytes(text) }
    }
    fn check(c: &Case, cx: &mut Cx) -> Verdict {
        let b = &c.text.0[..];
        let want = CHANNEL_NAMES.iter().position(|n| n.as_bytes() == b).map(|i| CHANNEL_TYPES[i]);
        for (how, got) in conversions(b) {
            match (got, want) {
                (Ok(t), Some(w)) => ensure!(t == w, "{} of {:?} gives {:?}", how, c.text, t),
                (Err(e), None) => {
                    let _ = (e.to_string(), format!("{:?}", e));
                    let inner = e.into_inner();
                    ensure!(inner == b, "{} of {:?}: the error returns {:?}", how, c.text, Bytes(inner));
                }
                (Ok(t), None) => return Err(format!("{} of {:?} gives {:?}", how, c.text, t)),
                (Err(_), Some(w)) => return Err(format!("{} of {:?} fails, expected {:?}", how, c.text, w)),
            }
            cx.comparisons += 1;
        }
        if let Some(got) = in_document(b) {
            ensure_eq!(got, want.ok_or(b.to_vec()), "in a CHANNELS line");
            cx.label("in a document");
        }
        if let Some(t) = want {
            let i = channel_no(t) as usize;
            ensure_eq!(t.as_str().as_bytes(), b, "as_str of {:?}", t);
            ensure_eq!(t.to_string().as_bytes(), b, "Display of {:?}", t);
            ensure_eq!(format!("{}", t).parse::<ChannelType>().ok(), Some(t), "printed and parsed");
            ensure_eq!((t.is_position(), t.is_rotation()), (i < 3, i >= 3), "kind of {:?}", t);
            let axis = [Axis::X, Axis::Y, Axis::Z][i % 3];
            ensure_eq!(t.axis(), axis, "axis of {:?}", t);
            let mut unit = [0.0f32; 3];
            unit[i % 3] = 1.0;
            ensure_eq!(axis.vector(), unit, "vector of {:?}", axis);
            ensure_eq!(axis.to_string().as_bytes(), [b"xyz"[i % 3]], "Display of {:?}", axis);
            for (k, o) in CHANNEL_TYPES.iter().enumerate() {
                ensure_eq!(t == *o, i == k, "equality of {:?} and {:?}", t, o);
                ensure_eq!(t.axis() == o.axis(), i % 3 == k % 3, "axes of {:?} and {:?}", t, o);
            }
            cx.label("a name");
        } else {
            cx.label("no name");
        }
        cx.nontrivial = CHANNEL_NAMES.iter().any(|n| {
            let n = n.as_bytes();
            b.len() >= 3 && (n.starts_with(&b[..3]) || n.ends_with(&b[b.len() - 3..]) || b.starts_with(&n[..3]))
        });
        Ok(())
    }
    fn fixed() -> Vec<Case> {
        let mut set = std::collections::BTreeSet::new();
        for n in CHANNEL_NAMES {
            let n = n.as_bytes();
            for i in 0..=n.len() {
                for j in i..=n.len() {
                    set.insert(n[i..j].to_vec());
                }
                for b in 0..=255u8 {
                    let mut t = n.to_vec();
                    t.insert(i, b);
                    set.insert(t);
                    if i < n.len() {
                        let mut t = n.to_vec();
                        t[i] = b;
                        set.insert(t);
                    }
                }
                if i + 1 < n.len() {
                    let mut t = n.to_vec();
                    t.swap(i, i + 1);
                    set.insert(t);
                }
                for m in CHANNEL_NAMES {
                    set.insert([&n[..i], &m.as_bytes()[i..]].concat());
                }
            }
            for m in CHANNEL_NAMES {
                set.insert([n, m.as_bytes()].concat());
            }
            // Padded with one byte at either or both ends, to every width.
            for p in 0..=255u8 {
                for w in 1..=64usize {
                    let pad = vec![p; w];
                    set.insert([n, &pad[..]].concat());
                    set.insert([&pad[..], n].concat());
                    set.insert([&pad[..], n, &pad[..]].concat());
                }
            }
            for case in 0..1u32 << n.len() {
                set.insert(
                    n.iter().enumerate().map(|(i, b)| if case >> i & 1 == 1 { b ^ 0x20 } else { *b }).collect(),
                );
            }
        }
        for a in 0..=255u8 {
            set.insert(vec![a]);
            for b in 0..=255u8 {
                set.insert(vec![a, b]);
            }
        }
        set.into_iter().map(|t| Case { text: Bytes(t) }).collect()
    }
}
