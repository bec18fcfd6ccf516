//! C07: malformed documents are rejected with the right error and place.

use crate::{engine::*, model::*};
use bvh_anim::{errors::*, Axis};
use serde::{Deserialize, Serialize};

/// One defect. `at` selects where, modulo the places there are.
#[derive(Clone, Debug, Hash, Serialize, Deserialize, PartialEq)]
pub enum Defect {
    OffsetMissing { at: u16, axis: u8 },
    OffsetJunk { at: u16, axis: u8, junk: Bytes },
    ChannelCountMissing { at: u16 },
    ChannelCountJunk { at: u16, junk: Bytes },
    ChannelNameJunk { at: u16, which: u16, junk: Bytes },
    NameMissing { at: u16 },
    MotionJunk { junk: Bytes },
    FramesValueMissing,
    FramesValueJunk { junk: Bytes },
    FramesKeyword { junk: Bytes },
    TimeValueMissing,
    TimeValueJunk { junk: Bytes },
    TimeValueInvalid { junk: Bytes },
    TimeKeyword { junk: Bytes, second: bool },
    ValueJunk { at: u32, junk: Bytes },
    // Structural defects, always alone.
    TruncateHierarchy { at: u16 },
    TruncateMotion { at: u8 },
    DeleteLine { at: u8 },
    ValuesDropped { n: u16 },
    ValuesAdded { n: u16 },
    FramesDeclared { n: u64 },
    /// Insert a line of the given kind after the line selected.
    Misplaced { what: u8, at: u16 },
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct C07Case {
    pub doc: Doc,
    pub layout: Layout,
    pub defects: Vec<Defect>,
    /// What else befalls the lines of junk words, after those: 0 nothing, 1
    /// the rest is missing, 2 the rest is junk too, 3 some more words.
    #[serde(default)]
    pub rest: u8,
    /// So many empty lines before the line selected.
    #[serde(default)]
    pub pad: (u16, u32),
}

const NUM_JUNK: [&str; 22] = [
    "x", "1x", "1.2.3", "--1", "1,5", "abc", "0x10", "1e", "e5", "+", "-", ".", "1_0", "1.5f", "nope",
    "1e+", "½", "Xposition", "\u{ff11}", "1..2", "}", "1;",
];
const COUNT_JUNK: [&str; 12] = [
    "x", "-1", "3.5", "three", "3x", "0x3", "99999999999999999999999", "Xposition", "18446744073709551616",
    "--", "1e1", "½",
];
const NAME_JUNK: [&str; 16] = [
    "xposition", "Xpositio", "Xpositions", "XPOSITION", "Wposition", "X", "Xrotationx", "xrotation",
    "position", "Xscale", "Yrotatiom", "1", "Zposition,", "{", "\u{445}position", "XpositionYposition",
];

fn junk(s: &mut Source, list: &[&str]) -> Bytes {
    if s.chance(1, 12) {
        // Bytes that are no text at all.
        let n = s.range(1, 4);
        return Bytes((0..n).map(|_| *s.pick(&[0xffu8, 0xfe, 0xc3, 0x80, 0x01, 0x7f])).collect());
    }
    Bytes::from(*s.pick(list))
}

fn gen_token_defect(s: &mut Source) -> Defect {
    let at = s.upto(u16::MAX as u64) as u16;
    match s.upto(14) {
        0 => Defect::OffsetMissing { at, axis: s.upto(2) as u8 },
        1 => Defect::OffsetJunk { at, axis: s.upto(2) as u8, junk: junk(s, &NUM_JUNK) },
        2 => Defect::ChannelCountMissing { at },
        3 => Defect::ChannelCountJunk { at, junk: junk(s, &COUNT_JUNK) },
        4 => Defect::ChannelNameJunk { at, which: s.upto(40) as u16, junk: junk(s, &NAME_JUNK) },
        5 => Defect::NameMissing { at },
        6 => Defect::MotionJunk {
            junk: Bytes::from(*s.pick(&["motion", "MOTIONS", "MOTION:", "Motion", "MOTIO", "M", "Frames: 3", "MOTION x"])),
        },
        7 => Defect::FramesValueMissing,
        8 => Defect::FramesValueJunk { junk: junk(s, &COUNT_JUNK) },
        9 => Defect::FramesKeyword { junk: Bytes::from(*s.pick(&["frames:", "Frame:", "Framess:", "F:", "FRAMES:"])) },
        10 => Defect::TimeValueMissing,
        11 => Defect::TimeValueJunk { junk: junk(s, &NUM_JUNK) },
        12 => Defect::TimeValueInvalid {
            junk: Bytes::from(*s.pick(&["-1", "-0.0333", "NaN", "inf", "-inf", "1e20", "1e300", "-1e-3"])),
        },
        13 => Defect::TimeKeyword {
            junk: Bytes::from(*s.pick(&["frame", "Frames", "time:", "Tim:", "TIME:", "x", "Time"])),
            second: s.bool(),
        },
        _ => Defect::ValueJunk { at: s.u32(), junk: junk(s, &NUM_JUNK) },
    }
}

fn gen_structural(s: &mut Source) -> Defect {
    let at = s.upto(u16::MAX as u64) as u16;
    match s.upto(8) {
        0 => Defect::TruncateHierarchy { at },
        1 => Defect::TruncateMotion { at: s.upto(2) as u8 },
        2 => Defect::DeleteLine { at: s.upto(5) as u8 },
        3 => Defect::ValuesDropped { n: s.range(1, 30) as u16 },
        4 => Defect::ValuesAdded { n: s.range(1, 30) as u16 },
        5 => Defect::FramesDeclared {
            n: match s.upto(3) {
                0 => s.upto(20),
                1 => s.upto(2000),
                2 => s.u64(),
                _ => *s.pick(&[u32::MAX as u64, 1 << 32, 1 << 63, u64::MAX]),
            },
        },
        _ => Defect::Misplaced { what: s.upto(11) as u8, at },
    }
}

/// What the error has to be.
#[derive(Clone, Debug)]
struct Want {
    kind: WantKind,
    /// A range of lines; `None`: no line.
    line: Option<(usize, usize)>,
}
#[derive(Clone, Debug)]
enum WantKind {
    MissingRoot,
    /// Either of these two.
    MissingRootOrToken,
    Name,
    Token,
    ChannelsSection,
    OffsetSection,
    ChannelCount { junk: bool },
    Channel(Vec<u8>),
    OffsetAxis(Axis),
    OffsetJunk(Axis),
    Motion,
    NumFrames { junk: Option<bool> },
    FrameTime { junk: Option<bool> },
    Value { index: usize },
    Count { actual: usize, expected: Option<usize>, frames: usize, channels: usize },
}

const AXES: [Axis; 3] = [Axis::X, Axis::Y, Axis::Z];

struct Built {
    bytes: Vec<u8>,
    want: Vec<Want>,
}

fn is_num(b: &[u8]) -> bool {
    std::str::from_utf8(b).map_or(false, |t| t.parse::<f64>().is_ok())
}

fn build(c: &C07Case, cx: &mut Cx) -> Option<Built> {
    let mut lines = c.doc.lines();
    lines.extend(wrap_values(c.doc.rows(), &c.layout));
    let nch = c.doc.num_channels();
    let nfr = c.doc.num_frames();
    let find = |lines: &[LLine], f: &dyn Fn(Kind) -> bool| -> Vec<usize> {
        (0..lines.len()).filter(|i| f(lines[*i].kind)).collect()
    };
    let pick = |v: &[usize], at: usize| -> Option<usize> {
        if v.is_empty() {
            None
        } else {
            Some(v[at % v.len()])
        }
    };
    let one = |kind: Kind| lines.iter().position(|l| l.kind == kind).unwrap();
    let (motion, frames, time) = (one(Kind::Motion), one(Kind::Frames), one(Kind::FrameTime));
    // Wanted errors, by logical line.
    let mut want: Vec<(usize, WantKind)> = Vec::new();
    let mut used: Vec<usize> = Vec::new();
    let mut special: Option<Want> = None;
    let spoil = |l: &mut LLine, k: usize| match c.rest {
        0 => {}
        1 => l.toks.truncate(k + 1),
        2 => {
            for (i, t) in l.toks.iter_mut().enumerate().skip(k + 1) {
                *t = format!("junk{}", i).into_bytes();
            }
        }
        _ => {
            for w in ["1", "Xposition", "more", "9"] {
                l.toks.push(w.as_bytes().to_vec());
            }
        }
    };

    for d in &c.defects {
        macro_rules! on {
            ($v:expr, $at:expr) => {{
                let i = pick(&$v, $at as usize)?;
                if used.contains(&i) {
                    continue;
                }
                used.push(i);
                i
            }};
        }
        match *d {
            Defect::OffsetMissing { at, axis } => {
                let i = on!(find(&lines, &|k| matches!(k, Kind::Offset(_) | Kind::SiteOffset(_))), at);
                lines[i].toks.truncate(1 + axis as usize);
                want.push((i, WantKind::OffsetAxis(AXES[axis as usize])));
            }
            Defect::OffsetJunk { at, axis, ref junk } => {
                if is_num(&junk.0) {
                    continue;
                }
                let i = on!(find(&lines, &|k| matches!(k, Kind::Offset(_) | Kind::SiteOffset(_))), at);
                lines[i].toks[1 + axis as usize] = junk.0.clone();
                spoil(&mut lines[i], 1 + axis as usize);
                want.push((i, WantKind::OffsetJunk(AXES[axis as usize])));
            }
            Defect::ChannelCountMissing { at } => {
                let i = on!(find(&lines, &|k| matches!(k, Kind::Channels(_))), at);
                lines[i].toks.truncate(1);
                want.push((i, WantKind::ChannelCount { junk: false }));
            }
            Defect::ChannelCountJunk { at, ref junk } => {
                let i = on!(find(&lines, &|k| matches!(k, Kind::Channels(_))), at);
                lines[i].toks[1] = junk.0.clone();
                spoil(&mut lines[i], 1);
                want.push((i, WantKind::ChannelCount { junk: true }));
            }
            Defect::ChannelNameJunk { at, which, ref junk } => {
                let v: Vec<usize> = find(&lines, &|k| matches!(k, Kind::Channels(_)))
                    .into_iter()
                    .filter(|i| lines[*i].toks.len() > 2)
                    .collect();
                let i = on!(v, at);
                let k = which as usize % (lines[i].toks.len() - 2);
                lines[i].toks[2 + k] = junk.0.clone();
                spoil(&mut lines[i], 2 + k);
                want.push((i, WantKind::Channel(junk.0.clone())));
            }
            Defect::NameMissing { at } => {
                let i = on!(find(&lines, &|k| matches!(k, Kind::Header(_))), at);
                lines[i].toks.truncate(1);
                want.push((i, WantKind::Name));
            }
            Defect::MotionJunk { ref junk } => {
                let i = on!([motion], 0);
                lines[i].toks = vec![junk.0.clone()];
                want.push((i, WantKind::Motion));
            }
            Defect::FramesValueMissing => {
                let i = on!([frames], 0);
                lines[i].toks.truncate(1);
                want.push((i, WantKind::NumFrames { junk: Some(false) }));
            }
            Defect::FramesValueJunk { ref junk } => {
                let i = on!([frames], 0);
                lines[i].toks[1] = junk.0.clone();
                let utf8 = std::str::from_utf8(&junk.0).is_ok();
                want.push((i, WantKind::NumFrames { junk: if utf8 { Some(true) } else { None } }));
            }
            Defect::FramesKeyword { ref junk } => {
                let i = on!([frames], 0);
                lines[i].toks[0] = junk.0.clone();
                want.push((i, WantKind::NumFrames { junk: Some(false) }));
            }
            Defect::TimeValueMissing => {
                let i = on!([time], 0);
                lines[i].toks.truncate(2);
                want.push((i, WantKind::FrameTime { junk: Some(false) }));
            }
            Defect::TimeValueJunk { ref junk } => {
                if is_num(&junk.0) {
                    continue;
                }
                let i = on!([time], 0);
                lines[i].toks[2] = junk.0.clone();
                want.push((i, WantKind::FrameTime { junk: Some(true) }));
            }
            Defect::TimeValueInvalid { ref junk } => {
                let i = on!([time], 0);
                lines[i].toks[2] = junk.0.clone();
                want.push((i, WantKind::FrameTime { junk: None }));
            }
            Defect::TimeKeyword { ref junk, second } => {
                let i = on!([time], 0);
                lines[i].toks[second as usize] = junk.0.clone();
                want.push((i, WantKind::FrameTime { junk: Some(false) }));
            }
            Defect::ValueJunk { at, ref junk } => {
                if is_num(&junk.0) {
                    continue;
                }
                let v = find(&lines, &|k| k == Kind::Values);
                if v.is_empty() {
                    return None;
                }
                let i = on!(v, at);
                let k = (at >> 8) as usize % lines[i].toks.len();
                lines[i].toks[k] = junk.0.clone();
                spoil(&mut lines[i], k);
                want.push((i, WantKind::Value { index: k }));
            }
            // ---- structural, alone
            Defect::TruncateHierarchy { at } => {
                // Keep at most all but the closing brace of the root.
                lines.truncate(at as usize % motion);
                special = Some(Want { kind: WantKind::MissingRoot, line: None });
                cx.label("truncated in the hierarchy");
            }
            Defect::TruncateMotion { at } => {
                let (cut, kind) = match at % 3 {
                    0 => (motion, WantKind::Motion),
                    1 => (frames, WantKind::NumFrames { junk: Some(false) }),
                    _ => (time, WantKind::FrameTime { junk: Some(false) }),
                };
                lines.truncate(cut);
                want.push((usize::MAX, kind));
                cx.label("truncated in the motion section");
            }
            Defect::DeleteLine { at } => {
                let (i, kind) = match at % 6 {
                    0 => (motion, WantKind::Motion),
                    1 => (frames, WantKind::NumFrames { junk: Some(false) }),
                    2 => (time, WantKind::FrameTime { junk: Some(false) }),
                    3 => (0, WantKind::MissingRootOrToken),
                    4 => (1, WantKind::MissingRootOrToken),
                    _ => (2, WantKind::OffsetSection),
                };
                lines.remove(i);
                if i >= lines.len() {
                    want.push((usize::MAX, kind));
                } else {
                    want.push((i, kind));
                }
                cx.label("line deleted");
            }
            Defect::ValuesDropped { n } => {
                let total = nch * nfr;
                if total == 0 {
                    return None;
                }
                let n = (n as usize).min(total);
                for _ in 0..n {
                    let l = lines.last_mut().unwrap();
                    l.toks.pop();
                    if l.toks.is_empty() {
                        lines.pop();
                    }
                }
                special = Some(Want {
                    kind: WantKind::Count { actual: total - n, expected: Some(total), frames: nfr, channels: nch },
                    line: None,
                });
                cx.label("too few values");
            }
            Defect::ValuesAdded { n } => {
                let extra: Vec<Vec<u8>> = (0..n).map(|i| i.to_string().into_bytes()).collect();
                if n % 2 == 0 && lines.last().unwrap().kind == Kind::Values {
                    lines.last_mut().unwrap().toks.extend(extra);
                } else {
                    lines.push(LLine { kind: Kind::Values, depth: 0, toks: extra });
                }
                special = Some(Want {
                    kind: WantKind::Count {
                        actual: nch * nfr + n as usize,
                        expected: Some(nch * nfr),
                        frames: nfr,
                        channels: nch,
                    },
                    line: None,
                });
                cx.label("too many values");
            }
            Defect::FramesDeclared { n } => {
                if nch == 0 || n as usize == nfr {
                    return None;
                }
                lines[frames].toks[1] = n.to_string().into_bytes();
                special = Some(Want {
                    kind: WantKind::Count {
                        actual: nch * nfr,
                        expected: (n as usize).checked_mul(nch),
                        frames: n as usize,
                        channels: nch,
                    },
                    line: None,
                });
                cx.label("wrong number of frames declared");
            }
            Defect::Misplaced { what, at } => {
                let line = |kind: Kind, t: &[&str]| LLine {
                    kind,
                    depth: 1,
                    toks: t.iter().map(|t| t.as_bytes().to_vec()).collect(),
                };
                let chan = line(Kind::Values, &["CHANNELS", "1", "Xposition"]);
                let off = line(Kind::Values, &["OFFSET", "1", "2", "3"]);
                let at = at as usize;
                // (insert before this line, the line, the error)
                let (i, l, k) = match what {
                    0 => {
                        // A second CHANNELS section.
                        let i = pick(&find(&lines, &|k| matches!(k, Kind::Channels(_))), at)?;
                        (i + 1, chan, WantKind::ChannelsSection)
                    }
                    1 => {
                        // CHANNELS in an end site.
                        let i = pick(&find(&lines, &|k| matches!(k, Kind::SiteOffset(_) | Kind::SiteOpen(_))), at)?;
                        (i + 1, chan, WantKind::ChannelsSection)
                    }
                    2 => {
                        // OFFSET after an end site.
                        let i = pick(&find(&lines, &|k| matches!(k, Kind::SiteClose(_))), at)?;
                        (i + 1, off, WantKind::OffsetSection)
                    }
                    3 => {
                        // OFFSET before an opening brace.
                        let i = pick(&find(&lines, &|k| matches!(k, Kind::Open(_) | Kind::SiteOpen(_))), at)?;
                        (i, off, WantKind::OffsetSection)
                    }
                    4 => {
                        // CHANNELS before an opening brace.
                        let i = pick(&find(&lines, &|k| matches!(k, Kind::Open(_) | Kind::SiteOpen(_))), at)?;
                        (i, chan, WantKind::ChannelsSection)
                    }
                    5 => {
                        // An opening brace within a block.
                        let i = pick(
                            &find(&lines, &|k| {
                                matches!(k, Kind::Open(_) | Kind::SiteOpen(_) | Kind::Offset(_) | Kind::SiteClose(_))
                            }),
                            at,
                        )?;
                        (i + 1, line(Kind::Values, &["{"]), WantKind::Token)
                    }
                    6 => {
                        // A second end site.
                        let i = pick(&find(&lines, &|k| matches!(k, Kind::SiteClose(_))), at)?;
                        (i + 1, line(Kind::Values, &["End", "Site"]), WantKind::Token)
                    }
                    7 => {
                        // A joint in an end site.
                        let i = pick(&find(&lines, &|k| matches!(k, Kind::SiteOpen(_) | Kind::SiteOffset(_))), at)?;
                        (i + 1, line(Kind::Values, &["JOINT", "inner"]), WantKind::Token)
                    }
                    8 => {
                        // A second root, or hierarchy, in the hierarchy.
                        let i = 1 + at % (motion - 1);
                        let t: &[&str] = if at % 2 == 0 { &["ROOT", "again"] } else { &["HIERARCHY"] };
                        if i == 1 && at % 2 == 0 {
                            // Then it is the second header that is one too many.
                            (2, line(Kind::Values, t), WantKind::Token)
                        } else {
                            (i, line(Kind::Values, t), WantKind::Token)
                        }
                    }
                    9 => {
                        // A closing brace in place of an opening one.
                        let i = pick(&find(&lines, &|k| matches!(k, Kind::Open(_) | Kind::SiteOpen(_))), at)?;
                        (i, line(Kind::Values, &["}"]), WantKind::Token)
                    }
                    10 => {
                        // A closing brace too many.
                        (motion, line(Kind::Values, &["}"]), WantKind::Motion)
                    }
                    _ => {
                        // OFFSET or CHANNELS after the children.
                        let tree = c.doc.tree();
                        let v: Vec<usize> = (0..lines.len())
                            .filter(|i| match lines[*i].kind {
                                Kind::Close(j) => tree.iter().any(|t| t.0 == Some(j)),
                                _ => false,
                            })
                            .collect();
                        let i = pick(&v, at)?;
                        if at % 2 == 0 {
                            (i, off, WantKind::OffsetSection)
                        } else {
                            (i, chan, WantKind::ChannelsSection)
                        }
                    }
                };
                lines.insert(i, l);
                want.push((i, k));
                cx.label("misplaced line");
            }
        }
    }
    if want.is_empty() && special.is_none() {
        return None;
    }
    let mut r = render_lines(&lines, &c.layout);
    if c.pad.1 > 0 && !r.line_of.is_empty() {
        let first = r.line_of[c.pad.0 as usize % r.line_of.len()];
        let n = c.pad.1 as usize;
        let mut at = 0;
        for _ in 0..first {
            at += 1 + r.bytes[at..].iter().position(|b| *b == b'\n')?;
        }
        r.bytes.splice(at..at, std::iter::repeat(b'\n').take(n));
        r.lines += n;
        r.line_of.iter_mut().filter(|l| **l >= first).for_each(|l| *l += n);
        cx.label_if(n > 60_000, "more than 60 thousand empty lines");
    }
    let mut w: Vec<(usize, Want)> = want
        .into_iter()
        .map(|(i, kind)| {
            let line = if i == usize::MAX {
                // The end of the input: no line of it is to blame.
                (r.line_of.last().copied().unwrap_or(0), r.lines.saturating_sub(1))
            } else {
                (r.line_of[i], r.line_of[i])
            };
            (i, Want { kind, line: Some(line) })
        })
        .collect();
    w.sort_by_key(|x| x.0);
    let want = match special {
        Some(s) => vec![s],
        None => w.into_iter().map(|x| x.1).collect(),
    };
    Some(Built { bytes: r.bytes, want })
}

fn matches_kind(e: &LoadError, w: &WantKind) -> Result<(), String> {
    use LoadErrorKind::*;
    let ok = match (e.kind(), w) {
        (Joints(LoadJointsError::MissingRoot), WantKind::MissingRoot | WantKind::MissingRootOrToken) => true,
        (Joints(LoadJointsError::UnexpectedToken { .. }), WantKind::Token | WantKind::MissingRootOrToken) => true,
        (Joints(LoadJointsError::MissingJointName { .. }), WantKind::Name) => true,
        (Joints(LoadJointsError::UnexpectedChannelsSection { .. }), WantKind::ChannelsSection) => true,
        (Joints(LoadJointsError::UnexpectedOffsetSection { .. }), WantKind::OffsetSection) => true,
        (Joints(LoadJointsError::ParseNumChannelsError { error, .. }), WantKind::ChannelCount { junk }) => {
            if error.is_some() != *junk {
                return Err(format!("parse error {:?} for a number that is {}", error, if *junk { "junk" } else { "missing" }));
            }
            true
        }
        (Joints(LoadJointsError::ParseChannelError { error, .. }), WantKind::Channel(text)) => {
            let shown = error.to_string();
            if shown != ParseChannelError::from(text.clone()).to_string() {
                return Err(format!("the bad channel {:?} is reported as {:?}", Bytes(text.clone()), shown));
            }
            true
        }
        (Joints(LoadJointsError::MissingOffsetAxis { axis, .. }), WantKind::OffsetAxis(a)) => axis == a,
        (Joints(LoadJointsError::ParseOffsetError { axis, .. }), WantKind::OffsetJunk(a)) => axis == a,
        (Motion(LoadMotionError::MissingMotionSection { .. }), WantKind::Motion) => true,
        (Motion(LoadMotionError::MissingNumFrames { parse_error, .. }), WantKind::NumFrames { junk })
        | (Motion(LoadMotionError::MissingFrameTime { parse_error, .. }), WantKind::FrameTime { junk }) => {
            junk.map_or(true, |j| parse_error.is_some() == j)
        }
        (Motion(LoadMotionError::ParseMotionSection { channel_index, .. }), WantKind::Value { index }) => {
            channel_index == index
        }
        (
            Motion(LoadMotionError::MotionCountMismatch {
                actual_total_motion_values: a,
                expected_total_motion_values: x,
                expected_num_frames: f,
                expected_num_clips: n,
            }),
            WantKind::Count { actual, expected, frames, channels },
        ) => a == actual && expected.map_or(true, |e| e == *x) && f == frames && n == channels,
        _ => false,
    };
    if ok {
        Ok(())
    } else {
        Err(format!("rejected with {:?} instead of {:?}", e.kind(), w))
    }
}

/// What the displayed error says, as far as it names details.
fn displays(e: &LoadError, w: &WantKind) -> Verdict {
    let text = e.to_string();
    // The first number after a word, if both are there.
    let after = |word: &str| -> Option<&str> {
        let rest = &text[text.find(word)? + word.len()..];
        let rest = &rest[rest.find(|c: char| c.is_ascii_digit())?..];
        Some(&rest[..rest.find(|c: char| !c.is_ascii_digit()).unwrap_or(rest.len())])
    };
    let says = |word: &str, n: usize| -> Verdict {
        match after(word) {
            Some(t) if t != n.to_string() => Err(format!("{:?}: displayed as {:?}", e.kind(), text)),
            _ => Ok(()),
        }
    };
    match w {
        WantKind::Count { .. } => {
            if let LoadErrorKind::Motion(LoadMotionError::MotionCountMismatch {
                actual_total_motion_values: a,
                expected_total_motion_values: x,
                expected_num_frames: f,
                expected_num_clips: n,
            }) = *e.kind()
            {
                says("expected", x)?;
                says("found", a)?;
                says("frames", f)?;
                says("clips", n)?;
            }
        }
        WantKind::OffsetAxis(a) | WantKind::OffsetJunk(a) => {
            if let Some(at) = text.find("-axis") {
                ensure!(text[..at].ends_with(&a.to_string()), "axis {:?}: displayed as {:?}", a, text);
            }
        }
        _ => {}
    }
    Ok(())
}

pub struct C07;
impl Prop for C07 {
    type Case = C07Case;
    const ID: &'static str = "C07";
    const CASES: (u64, u64) = (3_000_000, 30_000_000);
    const RULE: &'static str = "A case is a well-formed document in a random layout with one defect (or several \
on different lines) from a catalogue of 22 kinds, now and then with thousands of empty lines in it, and large documents; the error is compared in kind, line, axis, text, index \
and counts with what the first defect calls for. Non-trivial: the defect could be applied.";
    fn gen(s: &mut Source) -> C07Case {
        let mut cfg = DocCfg { exotic_numbers: s.chance(1, 4), ..DocCfg::SMALL };
        cfg.max_joints = *s.pick(&[3usize, 8, 12, 40]);
        let doc = gen_doc(s, &cfg);
        let layout = gen_layout(s);
        let defects = match s.weighted(&[45, 35, 20]) {
            0 => vec![gen_token_defect(s)],
            1 => vec![gen_structural(s)],
            _ => s.list(2, 4, 2, |s, _| gen_token_defect(s)),
        };
        let rest = s.weighted(&[60, 15, 15, 10]) as u8;
        let pad = if s.chance(1, 40) {
            let n = match s.weighted(&[20, 10, 1]) {
                0 => s.range(1, 40),
                1 => s.range(240, 300),
                _ => s.range(65_500, 65_600),
            };
            (s.upto(200) as u16, n as u32)
        } else {
            (0, 0)
        };
        C07Case { doc, layout, defects, rest, pad }
    }
    fn check(c: &C07Case, cx: &mut Cx) -> Verdict {
        let Some(b) = build(c, cx) else {
            cx.discarded = true;
            return Ok(());
        };
        cx.nontrivial = true;
        cx.label_if(b.want.len() > 1, "several defects");
        let r = match guard(|| bvh_anim::from_bytes(&b.bytes)) {
            Ok(r) => r,
            Err(_) => {
                // Whether it panics is for C01.
                cx.discarded = true;
                cx.nontrivial = false;
                return Ok(());
            }
        };
        let w = &b.want[0];
        let e = match r {
            Ok(_) => return Err(format!("a malformed document was loaded; expected {:?}", w)),
            Err(e) => e,
        };
        matches_kind(&e, &w.kind)?;
        cx.comparisons += 2;
        cx.label(match w.kind {
            WantKind::MissingRoot | WantKind::MissingRootOrToken => "root",
            WantKind::Name => "joint name",
            WantKind::Token | WantKind::ChannelsSection | WantKind::OffsetSection => "placement",
            WantKind::ChannelCount { .. } => "channel count",
            WantKind::Channel(_) => "channel name",
            WantKind::OffsetAxis(_) | WantKind::OffsetJunk(_) => "offset",
            WantKind::Motion => "MOTION",
            WantKind::NumFrames { .. } => "frame count",
            WantKind::FrameTime { .. } => "frame time",
            WantKind::Value { .. } => "motion value",
            WantKind::Count { .. } => "value count",
        });
        let line = e.line();
        match (w.line, line) {
            (None, None) => {}
            (Some((lo, hi)), Some(l)) if lo <= l && l <= hi => {
                ensure!(
                    e.to_string().contains(&l.to_string()),
                    "the displayed error {:?} does not name its line {}",
                    e.to_string(),
                    l
                );
            }
            // A document without a root has no line to blame.
            (Some(_), None) if matches!(w.kind, WantKind::MissingRootOrToken) => {}
            (w, l) => return Err(format!("{:?}: line {:?} instead of {:?}", e.kind(), l, w)),
        }
        displays(&e, &w.kind)?;
        // The same through the kind, owned and borrowed.
        let inner = match e.kind() {
            LoadErrorKind::Joints(j) => j.line(),
            LoadErrorKind::Motion(m) => m.line(),
        };
        crate::ensure_eq!(inner, line, "line() of the kind and of the error");
        let dbg = format!("{:?}", e.kind());
        if let WantKind::Channel(ref text) = w.kind {
            if let LoadErrorKind::Joints(LoadJointsError::ParseChannelError { error, .. }) = e.into_kind() {
                let got = error.into_inner();
                ensure!(got == *text, "bad channel {:?} reported as {:?}", Bytes(text.clone()), Bytes(got));
            }
        } else {
            crate::ensure_eq!(format!("{:?}", e.into_kind()), dbg, "into_kind() and kind()");
        }
        Ok(())
    }
    fn fixed() -> Vec<C07Case> {
        let x = || Bytes::from("x");
        let mut out = Vec::new();
        for kind in 0..SCALES {
            for n in [300usize, 66_000] {
                let doc = scale_doc(kind, if kind == 3 { 300 } else { n });
                for at in [0u16, 299, u16::MAX - 1, u16::MAX] {
                    let wide = 65_536 * 256 + at as u32;
                    for d in [
                        Defect::OffsetMissing { at, axis: 2 },
                        Defect::OffsetJunk { at, axis: 1, junk: x() },
                        Defect::ChannelCountJunk { at, junk: x() },
                        Defect::ChannelNameJunk { at, which: at, junk: x() },
                        Defect::NameMissing { at },
                        Defect::ValueJunk { at: wide, junk: x() },
                        Defect::ValueJunk { at: at as u32 * 256 + at as u32 % 256, junk: x() },
                        Defect::Misplaced { what: 0, at },
                        Defect::Misplaced { what: 2, at },
                        Defect::Misplaced { what: 7, at },
                        Defect::Misplaced { what: 11, at },
                    ] {
                        out.push(C07Case { doc: doc.clone(), layout: Layout::FLAT, defects: vec![d], rest: 0, pad: (0, 0) });
                    }
                }
                for d in [
                    Defect::MotionJunk { junk: x() },
                    Defect::FramesValueJunk { junk: x() },
                    Defect::TimeValueMissing,
                    Defect::ValuesDropped { n: 1 },
                    Defect::ValuesAdded { n: 1 },
                    Defect::FramesDeclared { n: n as u64 + 1 },
                    Defect::FramesDeclared { n: (1 << 32) + n as u64 },
                    Defect::FramesDeclared { n: (1 << 16) + n as u64 },
                    Defect::TruncateHierarchy { at: u16::MAX },
                ] {
                    out.push(C07Case { doc: doc.clone(), layout: Layout::FLAT, defects: vec![d], rest: 0, pad: (0, 0) });
                }
            }
        }
        // Every defect, behind more lines than two bytes can count.
        let mut doc = scale_doc(2, 4);
        doc.motion = MotionDoc::Bulk { frames: 3, seed: 1 };
        let mut each: Vec<Defect> = (0..12).map(|what| Defect::Misplaced { what, at: 3 }).collect();
        each.extend([
            Defect::OffsetMissing { at: 3, axis: 0 },
            Defect::OffsetJunk { at: 3, axis: 1, junk: x() },
            Defect::ChannelCountMissing { at: 3 },
            Defect::ChannelCountJunk { at: 3, junk: x() },
            Defect::ChannelNameJunk { at: 3, which: 0, junk: x() },
            Defect::NameMissing { at: 3 },
            Defect::MotionJunk { junk: x() },
            Defect::FramesValueMissing,
            Defect::FramesValueJunk { junk: x() },
            Defect::FramesKeyword { junk: x() },
            Defect::TimeValueMissing,
            Defect::TimeValueJunk { junk: x() },
            Defect::TimeValueInvalid { junk: Bytes::from("-1") },
            Defect::TimeKeyword { junk: x(), second: true },
            Defect::ValueJunk { at: 2, junk: x() },
            Defect::TruncateMotion { at: 0 },
            Defect::TruncateMotion { at: 1 },
            Defect::TruncateMotion { at: 2 },
            Defect::DeleteLine { at: 0 },
            Defect::DeleteLine { at: 1 },
            Defect::DeleteLine { at: 2 },
            Defect::DeleteLine { at: 4 },
        ]);
        for d in each {
            for n in [255, 256, 65_534, 65_535, 65_536, 70_000] {
                for at in [0, 1, 3, 8, 20] {
                    out.push(C07Case { doc: doc.clone(), layout: Layout::FLAT, defects: vec![d.clone()], rest: 0, pad: (at, n) });
                }
            }
        }
        out
    }
    fn assumptions() -> Vec<&'static str> {
        vec![
            "Lines are counted from 0, blank lines included, as the unchanged code does.",
            "For defects at the end of the input, the line has to be the last one that is not blank, or one of those after it.",
            "The index of a bad motion value is counted within its line, as the unchanged code does.",
        ]
    }
}

