//! The reference model: documents, their texts in any layout, what they
//! describe, and what can be observed of a loaded animation.

use crate::engine::{mix, Rng, Source};
use bstr::ByteSlice;
use bvh_anim::{Bvh, ChannelType};
use serde::{Deserialize, Deserializer, Serialize, Serializer};
use std::{fmt, time::Duration};

// --------------------------------------------------------------------- bytes

/// Bytes, shown and stored with one character (U+0000 to U+00FF) per byte.
#[derive(Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Default)]
pub struct Bytes(pub Vec<u8>);

impl fmt::Debug for Bytes {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self.0.as_bstr(), f)
    }
}
impl Serialize for Bytes {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.0.iter().map(|b| *b as char).collect::<String>())
    }
}
impl<'de> Deserialize<'de> for Bytes {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        s.chars()
            .map(|c| u8::try_from(c as u32))
            .collect::<Result<Vec<u8>, _>>()
            .map(Bytes)
            .map_err(|_| serde::de::Error::custom("character beyond U+00FF"))
    }
}
impl From<&str> for Bytes {
    fn from(s: &str) -> Self {
        Bytes(s.as_bytes().to_vec())
    }
}

// ------------------------------------------------------------------- numbers

/// The bits of a value, with all NaNs alike.
pub fn canon(v: f32) -> u32 {
    if v.is_nan() {
        0x7fc0_0000
    } else {
        v.to_bits()
    }
}

/// The value that a number written as `text` stands for.
pub fn text_bits(text: &str) -> u32 {
    canon(text.parse::<f32>().unwrap_or_else(|_| panic!("harness: not a number: {}", text)))
}

pub fn gen_f32_bits(s: &mut Source) -> u32 {
    match s.weighted(&[30, 25, 20, 10, 10, 3, 2]) {
        0 => (s.range(0, 20) as f32).to_bits(),
        1 => ((s.upto(360_000) as f32 - 180_000.0) / 1000.0).to_bits(),
        2 => {
            let e = s.range(100, 150) as u32;
            (s.upto(1) as u32) << 31 | e << 23 | s.upto(0x7f_ffff) as u32
        }
        3 => {
            let b = s.u32();
            if f32::from_bits(b).is_nan() {
                0x3f80_0000
            } else {
                b
            }
        }
        4 => *s.pick(&EDGE_BITS),
        5 => *s.pick(&[0x7f80_0000, 0xff80_0000]),
        _ => 0x7fc0_0000,
    }
}

pub const EDGE_BITS: [u32; 16] = [
    0x8000_0000, // -0
    0x0000_0001, // smallest subnormal
    0x8000_0001,
    0x007f_ffff, // largest subnormal
    0x0080_0000, // smallest normal
    0x7f7f_ffff, // largest
    0xff7f_ffff,
    0x3f80_0001,
    0x3f7f_ffff,
    0x4b80_0000, // 2^24
    0x4b80_0001,
    0x5f00_0000, // 2^63
    0x3dcc_cccd, // 0.1
    0x4479_ffff, // 999.99994
    0x3eaa_aaab, // 1/3
    0x0000_0000,
];

pub fn gen_digits(s: &mut Source, n: usize) -> String {
    (0..n).map(|_| (b'0' + s.upto(9) as u8) as char).collect()
}

/// The text of a number, with the domain of an `f32`.
pub fn gen_num(s: &mut Source) -> String {
    match s.weighted(&[30, 30, 12, 8, 8, 6, 4, 4, 2, 2]) {
        0 => s.pick(&["0", "0.0", "1", "1.0", "-1", "10", "5.21", "-0.5", "180.00"]).to_string(),
        1 => {
            let sign = if s.bool() { "-" } else { "" };
            let int = s.upto(999);
            let n = s.range(1, 6);
            format!("{}{}.{}", sign, int, gen_digits(s, n))
        }
        2 => {
            let b = s.u32();
            let v = f32::from_bits(b);
            if v.is_finite() {
                format!("{}", v)
            } else {
                "2.5".into()
            }
        }
        3 => {
            let v = f32::from_bits(s.u32());
            if !v.is_finite() {
                return "1e3".into();
            }
            let t = format!("{:e}", v);
            match s.upto(2) {
                0 => t,
                1 => t.replace('e', "E"),
                _ if !t.contains("e-") => t.replace('e', "e+"),
                _ => t,
            }
        }
        4 => gen_midpoint(s),
        5 => {
            let n = s.range(8, 60);
            let mut d = gen_digits(s, n);
            let at = s.range(1, n - 1).min(36);
            d.insert(at, '.');
            if s.bool() {
                d.insert(0, '-');
            }
            d
        }
        6 => s
            .pick(&[
                "-0.0", "-0", "340282350000000000000000000000000000000", "3.4028236e38",
                "3.4028235677973366e38", "1e39", "-1e39", "1e-46", "7e-46", "7.1e-46", "1e-45",
                "1.1754943e-38", "1.1754942e-38", "16777217", "16777219", "33554434.99999",
                "0.1", "0.30000001192092896", "1e10", "123456789.123456789", "8388608.5",
                "8388609.5", "4194304.25", "0.000000000000000000000000000001", "1e22", "1e23",
                "9007199254740993", "1e400", "-1e-400", "0e400",
            ])
            .to_string(),
        7 => s
            .pick(&["+5", "+0.25", "00012.50", "-007", ".5", "-.25", "5.", "000", "+00.10", "1.e1"])
            .to_string(),
        8 => s.pick(&["NaN", "inf", "-inf"]).to_string(),
        _ => gen_long_midpoint(s, false),
    }
}

/// The exact decimal digits of the middle between two neighbouring numbers,
/// and the power of ten that the last one stands for.
fn midpoint_digits(bits: u64, wide: bool) -> (Vec<u8>, i64) {
    let text = if wide {
        let (lo, hi) = (f64::from_bits(bits), f64::from_bits(bits + 1));
        let (lo, hi) = (format!("{:.1080}", lo), format!("{:.1080}", hi));
        half_sum(lo.as_bytes(), hi.as_bytes())
    } else {
        let (lo, hi) = (f32::from_bits(bits as u32) as f64, f32::from_bits(bits as u32 + 1) as f64);
        format!("{:.200}", (lo + hi) / 2.0)
    };
    let (int, frac) = text.split_once('.').unwrap();
    let frac = frac.trim_end_matches('0');
    let digits = format!("{}{}", int, frac);
    let digits = digits.trim_start_matches('0');
    let digits = if digits.is_empty() { "5" } else { digits };
    (digits.as_bytes().to_vec(), -(frac.len() as i64))
}

/// Half of the sum of two decimal texts with as many digits behind the point.
fn half_sum(a: &[u8], b: &[u8]) -> String {
    let n = a.len().max(b.len());
    let at = |t: &[u8], i: usize| {
        let pad = n - t.len();
        if i < pad { b'0' } else { t[i - pad] }
    };
    let mut sum: Vec<u8> = Vec::new();
    let mut carry = 0;
    for i in (0..n).rev() {
        if at(b, i) == b'.' {
            sum.push(b'.');
            continue;
        }
        let d = at(a, i) - b'0' + at(b, i) - b'0' + carry;
        sum.push(d % 10);
        carry = d / 10;
    }
    sum.push(carry);
    let mut out = String::new();
    let mut rest = 0;
    for d in sum.into_iter().rev() {
        if d == b'.' {
            out.push('.');
            continue;
        }
        let d = d + 10 * rest;
        out.push((b'0' + d / 2) as char);
        rest = d % 2;
    }
    out.push((b'0' + 5 * rest) as char);
    out
}

/// A number at, or right beside, the middle of two neighbouring `f32`s (or
/// `f64`s), written with so many digits and the point after so many of them.
pub fn long_midpoint(bits: u64, wide: bool, beside: u8, digits: usize, point: usize) -> String {
    let (mut d, mut exp) = midpoint_digits(bits, wide);
    let pad = digits.saturating_sub(d.len());
    match beside {
        0 => {
            d.extend(std::iter::repeat(b'0').take(pad));
        }
        1 => {
            d.extend(std::iter::repeat(b'0').take(pad));
            if pad > 0 {
                *d.last_mut().unwrap() = b'1';
            }
        }
        _ => {
            // One less in the last place, and nines from there on.
            for x in d.iter_mut().rev() {
                if *x > b'0' {
                    *x -= 1;
                    break;
                }
                *x = b'9';
            }
            d.extend(std::iter::repeat(b'9').take(pad));
        }
    }
    exp -= pad as i64;
    let point = point.min(d.len());
    let e = exp + (d.len() - point) as i64;
    let d = String::from_utf8(d).unwrap();
    let lead = if point == 0 { "0" } else { "" };
    let exponent = if e == 0 { String::new() } else { format!("e{}", e) };
    if point == d.len() {
        format!("{}{}", d, exponent)
    } else {
        format!("{}{}.{}{}", lead, &d[..point], &d[point..], exponent)
    }
}

pub fn gen_long_midpoint(s: &mut Source, wide: bool) -> String {
    let bits = if wide {
        // From 2^-60 to 2^30.
        (s.range(963, 1052) as u64) << 52 | s.upto((1 << 52) - 1)
    } else {
        let e = if s.chance(1, 5) { s.range(0, 250) } else { s.range(100, 150) } as u64;
        e << 23 | s.upto(0x7f_ffff)
    };
    let digits = match s.weighted(&[8, 24, 24, 20, 1]) {
        0 => 0,
        1 => s.range(100, 160),
        2 => s.range(700, 800),
        3 => s.range(800, 1600),
        _ => s.range(16_000, 21_000),
    };
    let point = match s.weighted(&[30, 20, 20, 10, 10]) {
        0 => s.range(110, 117),
        1 => s.range(765, 772),
        2 => s.range(0, digits.max(20)),
        3 => 0,
        _ => usize::MAX,
    };
    let t = long_midpoint(bits, wide, s.upto(2) as u8, digits, point);
    if !wide && s.bool() {
        format!("-{}", t)
    } else {
        t
    }
}

/// Numbers of many digits which are hard to round.
pub fn long_nums(wide: bool) -> Vec<String> {
    let all: &[u64] = if wide {
        &[0x3ff0_0000_0000_0000, 0x3f9f_ffff_ffff_ffff, 0x41cd_cd65_0000_0001, 0x41ff_ffff_ffff_fffe]
    } else {
        &[0x3f80_0000, 0x3dcc_cccc, 0x4b7f_ffff, 0x3777_7777, 0x0080_0001]
    };
    let max = if wide { 769 } else { 114 };
    let mut out = Vec::new();
    for bits in all {
        for beside in 0..3 {
            for digits in [0, max - 1, max, max + 1, max + 10, max + 100, 1233, 1300, 16_700, 20_000] {
                for point in [0, 1, max - 2, max - 1, max, max + 1, usize::MAX] {
                    out.push(long_midpoint(*bits, wide, beside, digits, point));
                }
            }
        }
    }
    out
}

/// A text at or right beside the middle of two neighbouring `f32`s.
pub fn gen_midpoint(s: &mut Source) -> String {
    let e = if s.chance(1, 10) { s.range(1, 250) } else { s.range(100, 150) } as u32;
    let b = e << 23 | s.upto(0x7f_ffff) as u32;
    let (lo, hi) = (f32::from_bits(b) as f64, f32::from_bits(b + 1) as f64);
    let mid = (lo + hi) / 2.0;
    let mut t = format!("{:.180}", mid);
    if t.contains('.') {
        t = t.trim_end_matches('0').trim_end_matches('.').to_string();
    }
    match s.upto(2) {
        0 => {}
        1 => {
            if !t.contains('.') {
                t.push('.');
            }
            let n = s.range(0, 30);
            t.extend(std::iter::repeat('0').take(n));
            t.push('1');
        }
        _ => {
            if t.contains('.') {
                let last = t.pop().unwrap() as u8;
                t.push((last - 1) as char);
                let n = s.range(1, 30);
                t.extend(std::iter::repeat('9').take(n));
            }
        }
    }
    if s.bool() {
        t.insert(0, '-');
    }
    t
}

pub fn text_duration(text: &str) -> Duration {
    Duration::try_from_secs_f64(text.parse::<f64>().unwrap()).unwrap()
}

/// The text of a frame time. `big`: also beyond a million seconds.
pub fn gen_frame_time(s: &mut Source, big: bool) -> String {
    let t = match s.weighted(&[30, 25, 15, 10, 8, 6, 6, 2]) {
        0 => s.pick(&["0.033333", "0.033333333333", "1", "0", "0.0083333", "2.5"]).to_string(),
        1 => format!("0.{:09}", s.upto(999_999_999)),
        2 => format!("{}.{:09}", s.upto(999_999), s.upto(999_999_999)),
        3 => format!("{}", f64::from_bits(s.range(0x3e0, 0x412) as u64 * (1 << 52) + s.upto((1 << 52) - 1))),
        4 => {
            let n = s.range(10, 40);
            format!("{}.{}", s.upto(99), gen_digits(s, n))
        }
        5 => s
            .pick(&[
                "3.3e-2", "1E-3", "0.0000000005", "0.0000000015", "0.0000000025", "1e-10", ".5",
                "5.", "+0.25", "0.9999999999", "0.99999999949", "59.9999999999", "-0", "-0.0",
                "999999.999999999", "0.0333333343", "0.1", "0.3",
            ])
            .to_string(),
        7 => gen_long_midpoint(s, true),
        _ if big => s
            .pick(&[
                "1000000.123456789", "4294967296.5", "123456789012.25", "9007199254740993",
                "1e15", "18446744073709549568", "1e19", "9223372036854775808",
            ])
            .to_string(),
        _ => format!("{}", s.upto(999_999)),
    };
    match t.parse::<f64>().ok().and_then(|v| Duration::try_from_secs_f64(v).ok()) {
        Some(d) if big || d < Duration::from_secs(1_000_000) => t,
        _ => "0.5".into(),
    }
}

// --------------------------------------------------------------------- names

pub fn has_space(b: &[u8]) -> bool {
    b.iter().any(|c| c.is_ascii_whitespace() || *c == 0x0b) || b.chars().any(|c| c.is_whitespace())
}

pub fn valid_name(b: &[u8]) -> bool {
    // Only ASCII white space ends a name.
    !b.is_empty() && b[0] != b':' && !b.iter().any(|c| c.is_ascii_whitespace())
}

const KEYWORDISH: [&str; 34] = [
    "ROOT", "JOINT", "End", "Site", "OFFSET", "CHANNELS", "MOTION", "HIERARCHY", "{", "}",
    "Frames:", "Frame", "Time:", "0", "-1.5", "3", "Xposition", "Zrotation", "End:Site", "a:b",
    "a:", "x::y:", "{}", "}{", "joint", "ROOTs", "JOINTx", "//", "#", "\"q\"", "NaN", "CHANNELS:3",
    "mixamorig:LeftHand", "OFFSET:",
];

pub fn gen_name(s: &mut Source, prev: &[Bytes]) -> Bytes {
    let name: Vec<u8> = match s.weighted(&[40, 12, 12, 10, 10, 10, 6]) {
        0 => {
            let n = s.range(1, 8);
            (0..n).map(|_| b'a' + s.upto(25) as u8).collect()
        }
        1 => {
            let n = *s.pick(&[
                1usize, 2, 7, 8, 15, 16, 22, 23, 24, 25, 31, 32, 33, 47, 48, 63, 64, 65, 127, 128,
                129, 255, 256, 257, 1000, 4095, 4096, 9000,
            ]);
            let k = s.upto(25);
            (0..n as u64).map(|i| b'A' + ((i * 7 + k) % 26) as u8).collect()
        }
        2 => s.pick(&KEYWORDISH).as_bytes().to_vec(),
        3 if !prev.is_empty() => s.pick(prev).0.clone(),
        4 if !prev.is_empty() => {
            // Close to an earlier name.
            let mut n = s.pick(prev).0.clone();
            match s.upto(4) {
                0 => n.push(b'a' + s.upto(25) as u8),
                1 if n.len() > 1 => {
                    n.pop();
                }
                2 => {
                    let at = s.below(n.len());
                    if n[at].is_ascii_alphabetic() {
                        n[at] ^= 0x20;
                    }
                }
                3 => n.insert(0, b'_'),
                _ => {
                    let at = s.below(n.len());
                    n[at] = b'z';
                }
            }
            n
        }
        5 => {
            let n = s.range(1, 40);
            (0..n)
                .map(|_| {
                    let b = s.upto(255) as u8;
                    if b.is_ascii_whitespace() {
                        b'_'
                    } else {
                        b
                    }
                })
                .collect()
        }
        _ => s.pick(&["Ārm", "手", "🙂x", "naïve", "Б", "a\u{200b}b", "e\u{301}", "\u{feff}k",
            "a\u{a0}", "\u{3000}", "\u{2003}b\u{2028}", "x\u{85}", "\x0b", "q\x0b\x1c", "l\u{a0}\u{3000}r",
        ]).as_bytes().to_vec(),
    };
    if valid_name(&name) {
        Bytes(name)
    } else {
        Bytes(b"n".to_vec())
    }
}

// ----------------------------------------------------------------- documents

pub const CHANNEL_NAMES: [&str; 6] =
    ["Xposition", "Yposition", "Zposition", "Xrotation", "Yrotation", "Zrotation"];
pub const CHANNEL_TYPES: [ChannelType; 6] = [
    ChannelType::PositionX,
    ChannelType::PositionY,
    ChannelType::PositionZ,
    ChannelType::RotationX,
    ChannelType::RotationY,
    ChannelType::RotationZ,
];
pub fn channel_no(t: ChannelType) -> u8 {
    CHANNEL_TYPES.iter().position(|c| *c == t).unwrap() as u8
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize, PartialEq)]
pub struct JointDoc {
    /// Levels to go up from the previous joint before adding this one as a
    /// child (clamped to what is there). Meaningless for the root.
    pub up: u16,
    pub name: Bytes,
    pub offset: [String; 3],
    /// Indices into `CHANNEL_NAMES`; `None` writes no `CHANNELS` line.
    pub channels: Option<Vec<u8>>,
    pub end_site: Option<[String; 3]>,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize, PartialEq)]
pub enum MotionDoc {
    /// The texts of the values, row by row, cut or filled to the channels.
    Rows(Vec<Vec<String>>),
    /// Many frames of plain values, derived from a seed.
    Bulk { frames: u32, seed: u64 },
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize, PartialEq)]
pub struct Doc {
    pub joints: Vec<JointDoc>,
    pub motion: MotionDoc,
    pub frame_time: String,
}

impl Doc {
    /// The parent of each joint and its depth.
    pub fn tree(&self) -> Vec<(Option<usize>, usize)> {
        let mut path: Vec<usize> = Vec::new();
        let mut out = Vec::with_capacity(self.joints.len());
        for (i, j) in self.joints.iter().enumerate() {
            if i > 0 {
                let up = (j.up as usize).min(path.len() - 1);
                path.truncate(path.len() - up);
            }
            out.push((path.last().copied(), path.len()));
            path.push(i);
        }
        out
    }
    pub fn num_channels(&self) -> usize {
        self.joints.iter().map(|j| j.channels.as_ref().map_or(0, |c| c.len())).sum()
    }
    pub fn num_frames(&self) -> usize {
        match self.motion {
            MotionDoc::Rows(ref r) => r.len(),
            MotionDoc::Bulk { frames, .. } => frames as usize,
        }
    }
    /// The texts of all motion values, row by row.
    pub fn rows(&self) -> Vec<Vec<String>> {
        let n = self.num_channels();
        if n == 0 {
            return Vec::new();
        }
        match self.motion {
            MotionDoc::Rows(ref r) => r
                .iter()
                .map(|r| {
                    (0..n)
                        .map(|i| {
                            r.get(i).cloned().unwrap_or_else(|| ((i * 7) % 1000).to_string())
                        })
                        .collect()
                })
                .collect(),
            MotionDoc::Bulk { frames, seed } => {
                let mut r = Rng(mix(seed));
                (0..frames)
                    .map(|_| {
                        (0..n)
                            .map(|_| {
                                let v = r.next();
                                let sign = if v & 1 == 0 { "" } else { "-" };
                                format!("{}{}.{}", sign, (v >> 8) % 200, (v >> 32) % 100_000)
                            })
                            .collect()
                    })
                    .collect()
            }
        }
    }
    /// What a correct load observes.
    pub fn expected(&self) -> Obs {
        let off = |t: &[String; 3]| [text_bits(&t[0]), text_bits(&t[1]), text_bits(&t[2])];
        let mut ch = 0;
        let joints = self
            .joints
            .iter()
            .zip(self.tree())
            .map(|(j, (parent, _))| ObsJoint {
                name: j.name.clone(),
                offset: off(&j.offset),
                end_site: j.end_site.as_ref().map(off),
                channels: j
                    .channels
                    .iter()
                    .flatten()
                    .map(|c| {
                        ch += 1;
                        (*c, ch - 1)
                    })
                    .collect(),
                parent,
            })
            .collect();
        Obs {
            joints,
            num_channels: ch,
            rows: self.rows().iter().map(|r| r.iter().map(|t| text_bits(t)).collect()).collect(),
            frame_time: text_duration(&self.frame_time),
        }
    }
}

/// What bounds the documents of a property.
#[derive(Clone, Copy)]
pub struct DocCfg {
    pub max_joints: usize,
    pub max_frames: usize,
    /// Upper bound of frames x channels.
    pub max_values: usize,
    pub big_frame_time: bool,
    /// Joints with both an end site and children, and joints with no
    /// `CHANNELS` line.
    pub odd: bool,
    pub exotic_numbers: bool,
    /// One document in so many is large in one respect; 0 for none.
    pub scale: u32,
}

impl DocCfg {
    pub const SMALL: DocCfg = DocCfg {
        max_joints: 12,
        max_frames: 8,
        max_values: 400,
        big_frame_time: false,
        odd: true,
        exotic_numbers: true,
        scale: 0,
    };
    pub const FULL: DocCfg = DocCfg {
        max_joints: 400,
        max_frames: 5000,
        max_values: 60_000,
        big_frame_time: true,
        odd: true,
        exotic_numbers: true,
        scale: 4000,
    };
}

fn num(s: &mut Source, cfg: &DocCfg) -> String {
    if cfg.exotic_numbers {
        gen_num(s)
    } else {
        format!("{}", s.upto(100_000) as f64 / 1000.0)
    }
}

/// Three numbers, now and then all zero, all the same or `like` others.
fn triple(s: &mut Source, cfg: &DocCfg, like: Option<&[String; 3]>) -> [String; 3] {
    match s.weighted(&[80, 8, 3, 3, 6]) {
        0 => [num(s, cfg), num(s, cfg), num(s, cfg)],
        1 => ["0".into(), "0".into(), "0".into()],
        2 => ["-0".into(), "0.0".into(), "-0.00".into()],
        3 => {
            let n = num(s, cfg);
            [n.clone(), n.clone(), n]
        }
        _ => match like {
            Some(l) => l.clone(),
            None => ["0".into(), "0".into(), "0".into()],
        },
    }
}

pub fn gen_channels(s: &mut Source) -> Vec<u8> {
    let n = match s.weighted(&[35, 20, 10, 10, 15, 10]) {
        0 => 3,
        1 => 6,
        2 => 0,
        3 => 1,
        4 => s.range(0, 9),
        _ => *s.pick(&[2usize, 4, 5, 7, 8, 9, 12, 15, 16, 17, 20, 33]),
    };
    match s.upto(2) {
        0 => (0..n).map(|i| ((i + 3) % 6) as u8).collect(),
        1 => {
            // Distinct while possible, in random order.
            let mut order: Vec<u8> = (0..6).collect();
            for i in 0..5 {
                let j = s.range(i, 5);
                order.swap(i, j);
            }
            (0..n).map(|i| order[i % 6]).collect()
        }
        _ => (0..n).map(|_| s.upto(5) as u8).collect(),
    }
}

/// A number of up to `max`, of any magnitude.
pub fn gen_scale(s: &mut Source, max: usize) -> usize {
    let top = 1usize << s.range(4, 17);
    s.range(top / 2, top).min(max)
}

/// How many kinds of large documents there are.
pub const SCALES: u8 = 7;

/// A document of which something comes `n` times.
pub fn scale_doc(kind: u8, n: usize) -> Doc {
    let joint = |i: usize, up: usize, channels: Vec<u8>, leaf: bool| JointDoc {
        up: up.min(u16::MAX as usize) as u16,
        name: Bytes(format!("j{}", i).into_bytes()),
        offset: [(i % 1000).to_string(), "0.5".into(), "-1.25".into()],
        channels: Some(channels),
        end_site: if leaf { Some(["0".into(), (i % 77).to_string(), "1.5".into()]) } else { None },
    };
    let ch = |n: usize| (0..n).map(|i| ((i * 5 + i / 6) % 6) as u8).collect::<Vec<u8>>();
    let (joints, frames): (Vec<JointDoc>, usize) = match kind {
        // Frames.
        0 => (vec![joint(0, 0, ch(1), true)], n),
        // Channels of a joint.
        1 => (vec![joint(0, 0, ch(n), true)], 2),
        // Children of the root.
        2 => (
            (0..n.max(1)).map(|i| joint(i, (i > 1) as usize, ch(1), i > 0)).collect(),
            1,
        ),
        // Levels of a chain, and one more child of the root after it.
        3 => {
            let n = n.max(1);
            let mut v: Vec<_> = (0..n).map(|i| joint(i, 0, ch(i % 3), i + 1 == n)).collect();
            v.push(joint(n, n - 1, ch(1), true));
            v.push(joint(n + 1, 0, ch(2), true));
            (v, 1)
        }
        // Bytes of a name.
        4 => {
            let mut v = vec![joint(0, 0, ch(3), false), joint(1, 0, ch(3), true)];
            v[1].name = Bytes((0..n.max(1)).map(|i| b'a' + (i * 7 % 26) as u8).collect());
            (v, 1)
        }
        // Values, in frames of some hundred.
        5 => {
            let j = ((n as f64).sqrt() as usize / 6).clamp(1, 60);
            let v: Vec<_> = (0..j).map(|i| joint(i, (i % 4 == 3) as usize, ch(6), i + 1 == j)).collect();
            let frames = n / (j * 6);
            (v, frames)
        }
        // Frames of no values.
        _ => (vec![joint(0, 0, vec![], true)], n),
    };
    Doc {
        joints,
        motion: MotionDoc::Bulk { frames: frames as u32, seed: n as u64 },
        frame_time: "0.0166667".into(),
    }
}

/// Large documents, beyond what one or two bytes can count.
pub fn scale_docs() -> Vec<Doc> {
    let mut v = Vec::new();
    for kind in 0..SCALES {
        for n in [254, 255, 256, 257, 300] {
            v.push(scale_doc(kind, n));
        }
        if kind != 3 {
            for n in [65_535, 65_536, 70_000] {
                v.push(scale_doc(kind, n));
            }
        }
    }
    v.push(scale_doc(5, 200_000));
    v.push(scale_doc(6, u32::MAX as usize));
    v
}

/// A chain of joints that is too deep to be indented.
pub fn deep_docs() -> Vec<Doc> {
    vec![scale_doc(3, 65_534), scale_doc(3, 66_000)]
}

pub fn gen_doc(s: &mut Source, cfg: &DocCfg) -> Doc {
    if cfg.scale > 0 && s.chance(1, cfg.scale as u64) {
        let kind = s.upto(SCALES as u64 - 1) as u8;
        // A chain is indented, so its text grows with the square.
        let n = gen_scale(s, if kind == 3 { 1500 } else { 100_000 });
        return scale_doc(kind, n);
    }
    let top = match s.weighted(&[45, 30, 15, 7, 3]) {
        0 => 4,
        1 => 12,
        2 => 40,
        3 => 120,
        _ => 400,
    };
    let max = top.min(cfg.max_joints);
    let shape = s.weighted(&[50, 14, 12, 12, 12]);
    // Larger skeletons get cheaper contents.
    let plain = max > 40;
    let mut depth = 0usize;
    let mut names: Vec<Bytes> = Vec::new();
    let mut prev: Option<[String; 3]> = None;
    let mut joints = s.list(1, max, if max <= 4 { 2 } else { max }, |s, i| {
        let up = if i == 0 {
            0
        } else {
            let up = match shape {
                0 => s.weighted(&[45, 25, 12, 8, 5, 3, 2]),
                1 => s.weighted(&[97, 1, 1, 1]), // deep chain
                2 => {
                    if depth > 0 {
                        depth - 1
                    } else {
                        0
                    }
                } // all below the root
                3 => s.weighted(&[50, 0, 50]),   // caterpillar
                _ => {
                    if s.chance(1, 6) {
                        s.range(0, depth)
                    } else {
                        0
                    }
                } // long climbs
            };
            up.min(depth.saturating_sub(1))
        };
        if i > 0 {
            depth -= up;
        }
        depth += 1;
        let name = if plain && !s.chance(1, 8) {
            Bytes(format!("j{}", i).into_bytes())
        } else {
            gen_name(s, &names)
        };
        names.push(name.clone());
        let offset = if plain {
            [i.to_string(), "0.5".into(), "-1.25".into()]
        } else {
            triple(s, cfg, prev.as_ref())
        };
        prev = Some(offset.clone());
        let channels = if cfg.odd && s.chance(1, 25) { None } else { Some(gen_channels(s)) };
        JointDoc { up: up as u16, name, offset, channels, end_site: None }
    });
    // End sites: mostly on leaves, now and then missing, now and then inside.
    let n = joints.len();
    for i in 0..n {
        let leaf = i + 1 == n || joints[i + 1].up > 0;
        let site = if leaf { !s.chance(1, 6) } else { cfg.odd && s.chance(1, 30) };
        if site {
            joints[i].end_site = Some(if plain {
                ["0".into(), i.to_string(), "1.5".into()]
            } else {
                let own = joints[i].offset.clone();
                triple(s, cfg, Some(&own))
            });
        }
    }
    let mut doc = Doc { joints, motion: MotionDoc::Rows(vec![]), frame_time: String::new() };
    doc.frame_time = gen_frame_time(s, cfg.big_frame_time);
    let nch = doc.num_channels();
    doc.motion = if cfg.max_frames > 100 && s.chance(1, 12) {
        let cap = (cfg.max_values / nch.max(1)).min(cfg.max_frames);
        MotionDoc::Bulk { frames: s.range(0, cap) as u32, seed: s.upto(0xffff) }
    } else if nch == 0 {
        MotionDoc::Rows(vec![vec![]; s.range(0, 3)])
    } else {
        let cap = (cfg.max_values.min(600) / nch).clamp(1, cfg.max_frames);
        MotionDoc::Rows(s.list(0, cap, 3, |s, _| {
            if nch > 60 {
                let k = s.upto(9999) as usize;
                (0..nch).map(|i| format!("{}.5", (i * 31 + k) % 977)).collect()
            } else {
                (0..nch).map(|_| num(s, cfg)).collect()
            }
        }))
    };
    doc
}

// ---------------------------------------------------------------- the layout

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Hierarchy,
    Header(usize),
    Open(usize),
    Offset(usize),
    Channels(usize),
    EndSite(usize),
    SiteOpen(usize),
    SiteOffset(usize),
    SiteClose(usize),
    Close(usize),
    Motion,
    Frames,
    FrameTime,
    Values,
}

/// A line of a document, apart from its layout.
#[derive(Clone, Debug)]
pub struct LLine {
    pub kind: Kind,
    pub depth: usize,
    pub toks: Vec<Vec<u8>>,
}

fn toks<T: AsRef<[u8]>>(t: &[T]) -> Vec<Vec<u8>> {
    t.iter().map(|t| t.as_ref().to_vec()).collect()
}

pub fn channels_line(ch: &[u8]) -> Vec<Vec<u8>> {
    let mut t = toks(&["CHANNELS".to_string(), ch.len().to_string()]);
    t.extend(ch.iter().map(|c| CHANNEL_NAMES[*c as usize].as_bytes().to_vec()));
    t
}

impl Doc {
    /// The lines of the document, without those of the motion values.
    pub fn lines(&self) -> Vec<LLine> {
        let mut out = Vec::new();
        let mut push = |kind, depth, toks| out.push(LLine { kind, depth, toks });
        push(Kind::Hierarchy, 0, toks(&["HIERARCHY"]));
        let tree = self.tree();
        for (i, j) in self.joints.iter().enumerate() {
            let d = tree[i].1;
            let kw = if i == 0 { "ROOT" } else { "JOINT" };
            push(Kind::Header(i), d, vec![kw.as_bytes().to_vec(), j.name.0.clone()]);
            push(Kind::Open(i), d, toks(&["{"]));
            push(Kind::Offset(i), d + 1, toks(&["OFFSET", &j.offset[0], &j.offset[1], &j.offset[2]]));
            if let Some(ref ch) = j.channels {
                push(Kind::Channels(i), d + 1, channels_line(ch));
            }
            if let Some(ref e) = j.end_site {
                push(Kind::EndSite(i), d + 1, toks(&["End", "Site"]));
                push(Kind::SiteOpen(i), d + 1, toks(&["{"]));
                push(Kind::SiteOffset(i), d + 2, toks(&["OFFSET", &e[0], &e[1], &e[2]]));
                push(Kind::SiteClose(i), d + 1, toks(&["}"]));
            }
            // Close this joint and those above it that end here.
            let next = tree.get(i + 1).map_or(0, |t| t.1);
            let mut open = i;
            for level in (next..=d).rev() {
                push(Kind::Close(open), level, toks(&["}"]));
                open = tree[open].0.unwrap_or(0);
            }
        }
        push(Kind::Motion, 0, toks(&["MOTION"]));
        push(Kind::Frames, 0, toks(&["Frames:".to_string(), self.num_frames().to_string()]));
        push(Kind::FrameTime, 0, toks(&["Frame", "Time:", &self.frame_time]));
        out
    }
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize, PartialEq)]
pub struct Layout {
    /// 0 none, 1 tabs, 2 two spaces, 3 random.
    pub indent: u8,
    /// Between words: 0 one space, 1 a tab, 2 random runs of spaces and tabs.
    pub sep: u8,
    /// Blank lines: 0 none, 1 few, 2 many.
    pub blank: u8,
    /// Trailing white space: 0 none, 1 some.
    pub trail: u8,
    /// 0 LF, 1 CRLF, 2 mixed.
    pub eol: u8,
    /// 0 ends with a line end, 1 does not.
    pub no_final_eol: u8,
    /// 0 a frame per line, 1 a value per line, 2 all on a line, 3 random.
    pub wrap: u8,
    pub seed: u64,
}

impl Layout {
    pub const PLAIN: Layout = Layout {
        indent: 1,
        sep: 0,
        blank: 0,
        trail: 0,
        eol: 0,
        no_final_eol: 0,
        wrap: 0,
        seed: 0,
    };
    /// Without indentation.
    pub const FLAT: Layout = Layout { indent: 0, ..Layout::PLAIN };
}

pub fn gen_layout(s: &mut Source) -> Layout {
    if s.chance(1, 4) {
        return Layout { indent: s.upto(2) as u8, ..Layout::PLAIN };
    }
    Layout {
        indent: s.upto(3) as u8,
        sep: s.upto(2) as u8,
        blank: s.weighted(&[60, 25, 15]) as u8,
        trail: s.upto(1) as u8,
        eol: s.upto(2) as u8,
        no_final_eol: s.upto(1) as u8,
        wrap: s.weighted(&[40, 15, 15, 30]) as u8,
        seed: s.upto(0xffff),
    }
}

pub struct Rendered {
    pub bytes: Vec<u8>,
    /// The number (from 0) of the physical line of each logical line.
    pub line_of: Vec<usize>,
    /// The number of physical lines.
    pub lines: usize,
}

/// Splits the motion values into lines.
pub fn wrap_values(rows: Vec<Vec<String>>, layout: &Layout) -> Vec<LLine> {
    let line = |t: Vec<String>| LLine {
        kind: Kind::Values,
        depth: 0,
        toks: t.into_iter().map(String::into_bytes).collect(),
    };
    match layout.wrap {
        0 => rows.into_iter().map(line).collect(),
        1 => rows.into_iter().flatten().map(|v| line(vec![v])).collect(),
        2 => {
            let all: Vec<String> = rows.into_iter().flatten().collect();
            if all.is_empty() {
                vec![]
            } else {
                vec![line(all)]
            }
        }
        _ => {
            let mut r = Rng(mix(layout.seed ^ 0x77));
            let mut out = Vec::new();
            let mut cur = Vec::new();
            let mut left = 1 + r.below(12);
            for v in rows.into_iter().flatten() {
                cur.push(v);
                left -= 1;
                if left == 0 {
                    out.push(line(std::mem::take(&mut cur)));
                    let most = if r.below(4) == 0 { 90 } else { 12 };
                    left = 1 + r.below(most);
                }
            }
            if !cur.is_empty() {
                out.push(line(cur));
            }
            out
        }
    }
}

fn ws(r: &mut Rng, out: &mut Vec<u8>, max: u64) {
    for _ in 0..r.below(max + 1) {
        out.push(if r.below(2) == 0 { b' ' } else { b'\t' });
    }
}

pub fn render_lines(lines: &[LLine], layout: &Layout) -> Rendered {
    let mut r = Rng(mix(layout.seed ^ 0x1a));
    let mut bytes = Vec::new();
    let mut line_of = Vec::with_capacity(lines.len());
    let mut line = 0usize;
    let eol = |r: &mut Rng, out: &mut Vec<u8>| match layout.eol {
        0 => out.push(b'\n'),
        1 => out.extend_from_slice(b"\r\n"),
        _ => out.extend_from_slice(if r.below(2) == 0 { b"\n" } else { b"\r\n" }),
    };
    let blanks = |r: &mut Rng, out: &mut Vec<u8>, line: &mut usize| {
        let n = match layout.blank {
            0 => 0,
            1 => (r.below(6) == 0) as u64,
            _ => r.below(4),
        };
        for _ in 0..n {
            if r.below(2) == 0 {
                ws(r, out, 5);
            }
            eol(r, out);
            *line += 1;
        }
    };
    let last = lines.len().saturating_sub(1);
    for (i, l) in lines.iter().enumerate() {
        blanks(&mut r, &mut bytes, &mut line);
        match layout.indent {
            0 => {}
            1 => bytes.extend(std::iter::repeat(b'\t').take(l.depth)),
            2 => bytes.extend(std::iter::repeat(b' ').take(l.depth * 2)),
            _ => ws(&mut r, &mut bytes, 9),
        }
        for (k, t) in l.toks.iter().enumerate() {
            if k > 0 {
                match layout.sep {
                    0 => bytes.push(b' '),
                    1 => bytes.push(b'\t'),
                    _ => {
                        bytes.push(if r.below(2) == 0 { b' ' } else { b'\t' });
                        ws(&mut r, &mut bytes, 3);
                    }
                }
            }
            bytes.extend_from_slice(t);
        }
        if layout.trail == 1 && r.below(2) == 0 {
            ws(&mut r, &mut bytes, 6);
        }
        line_of.push(line);
        line += 1;
        if i < last || layout.no_final_eol == 0 {
            eol(&mut r, &mut bytes);
        }
    }
    if layout.no_final_eol == 0 {
        blanks(&mut r, &mut bytes, &mut line);
    }
    Rendered { bytes, line_of, lines: line }
}

pub fn render(doc: &Doc, layout: &Layout) -> Vec<u8> {
    let mut lines = doc.lines();
    lines.extend(wrap_values(doc.rows(), layout));
    render_lines(&lines, layout).bytes
}

// -------------------------------------------------------------- observations

#[derive(Clone, Debug, PartialEq)]
pub struct ObsJoint {
    pub name: Bytes,
    pub offset: [u32; 3],
    pub end_site: Option<[u32; 3]>,
    /// Type and motion index.
    pub channels: Vec<(u8, usize)>,
    pub parent: Option<usize>,
}

/// All that can be seen of an animation.
#[derive(Clone, Debug, PartialEq)]
pub struct Obs {
    pub joints: Vec<ObsJoint>,
    pub num_channels: usize,
    pub rows: Vec<Vec<u32>>,
    pub frame_time: Duration,
}

pub fn observe_joints(bvh: &Bvh) -> Vec<ObsJoint> {
    let bits = |o: &[f32; 3]| [canon(o[0]), canon(o[1]), canon(o[2])];
    bvh.joints()
        .map(|j| ObsJoint {
            name: Bytes(j.name().to_vec()),
            offset: bits(j.offset()),
            end_site: j.end_site().map(bits),
            channels: j
                .channels()
                .iter()
                .map(|c| (channel_no(c.channel_type()), c.motion_index()))
                .collect(),
            parent: j.parent_index(),
        })
        .collect()
}

pub fn observe_rows(bvh: &Bvh) -> Vec<Vec<u32>> {
    bvh.frames().map(|f| f.as_slice().iter().map(|v| canon(*v)).collect()).collect()
}

pub fn observe(bvh: &Bvh) -> Obs {
    Obs {
        joints: observe_joints(bvh),
        num_channels: bvh.num_channels(),
        rows: observe_rows(bvh),
        frame_time: *bvh.frame_time(),
    }
}

fn short<T: fmt::Debug>(v: &T) -> String {
    let s = format!("{:?}", v);
    if s.len() > 400 {
        format!("{}...", s.chars().take(400).collect::<String>())
    } else {
        s
    }
}

pub fn diff_joints(got: &[ObsJoint], want: &[ObsJoint]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{} joints instead of {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        macro_rules! cmp {
            ($f:ident) => {
                if g.$f != w.$f {
                    return Err(format!(
                        "joint {}: {} is {} instead of {}",
                        i,
                        stringify!($f),
                        short(&g.$f),
                        short(&w.$f)
                    ));
                }
            };
        }
        cmp!(name);
        cmp!(parent);
        cmp!(channels);
        for (what, a, b) in [("offset", Some(g.offset), Some(w.offset)), ("end_site", g.end_site, w.end_site)] {
            if a != b {
                let f = |o: Option<[u32; 3]>| o.map(|o| o.map(f32::from_bits));
                return Err(format!("joint {}: {} is {:?} instead of {:?}", i, what, f(a), f(b)));
            }
        }
    }
    Ok(())
}

pub fn diff_rows(got: &[Vec<u32>], want: &[Vec<u32>]) -> Result<(), String> {
    if got.len() != want.len() {
        return Err(format!("{} frames instead of {}", got.len(), want.len()));
    }
    for (i, (g, w)) in got.iter().zip(want).enumerate() {
        if g.len() != w.len() {
            return Err(format!("frame {} has {} values instead of {}", i, g.len(), w.len()));
        }
        for (k, (a, b)) in g.iter().zip(w).enumerate() {
            if a != b {
                return Err(format!(
                    "frame {} value {} is {:?} ({:#x}) instead of {:?} ({:#x})",
                    i,
                    k,
                    f32::from_bits(*a),
                    a,
                    f32::from_bits(*b),
                    b
                ));
            }
        }
    }
    Ok(())
}

pub fn diff(got: &Obs, want: &Obs) -> Result<(), String> {
    diff_joints(&got.joints, &want.joints)?;
    if got.num_channels != want.num_channels {
        return Err(format!("{} channels instead of {}", got.num_channels, want.num_channels));
    }
    if got.frame_time != want.frame_time {
        return Err(format!("frame time {:?} instead of {:?}", got.frame_time, want.frame_time));
    }
    diff_rows(&got.rows, &want.rows)
}

impl Obs {
    /// The depth of each joint.
    pub fn depths(&self) -> Vec<usize> {
        let mut d: Vec<usize> = Vec::with_capacity(self.joints.len());
        for j in &self.joints {
            let v = j.parent.map_or(0, |p| d.get(p).map_or(0, |x| x + 1));
            d.push(v);
        }
        d
    }
    pub fn has_nan(&self) -> bool {
        let n = |b: &u32| f32::from_bits(*b).is_nan();
        self.rows.iter().flatten().any(n)
            || self
                .joints
                .iter()
                .any(|j| j.offset.iter().any(n) || j.end_site.iter().flatten().any(n))
    }
}

// ---------------------------------------------------- loaded, edited animations

/// An animation that is loaded and then perhaps edited.
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Anim {
    pub doc: Doc,
    pub set_time: Option<(u64, u32)>,
    /// Rows (as bits) that replace the motion, through the cursor.
    pub rows: Option<Vec<Vec<u32>>>,
}

pub fn gen_anim(s: &mut Source, cfg: &DocCfg) -> Anim {
    let doc = gen_doc(s, cfg);
    let set_time = if s.chance(1, 3) {
        let secs = match s.upto(3) {
            0 => 0,
            1 => s.upto(9),
            2 => s.upto(999_999),
            _ if cfg.big_frame_time => *s.pick(&[1_000_000, u32::MAX as u64 + 1, u64::MAX]),
            _ => s.upto(3600),
        };
        let nanos = match s.upto(3) {
            0 => 0,
            1 => s.upto(999_999_999) as u32,
            2 => *s.pick(&[1u32, 999_999_999, 500_000_000, 33_333_333, 100]),
            _ => s.upto(999) as u32,
        };
        Some((secs, nanos))
    } else {
        None
    };
    let nch = doc.num_channels();
    let rows = if nch > 0 && s.chance(1, 3) {
        let cap = (400 / nch).clamp(1, 6);
        Some(s.list(0, cap, 2, |s, _| (0..nch).map(|_| gen_f32_bits(s)).collect()))
    } else {
        None
    };
    Anim { doc, set_time, rows }
}

impl Anim {
    /// Builds the animation; `None` if that is not possible, which is for
    /// other properties to judge.
    pub fn build(&self) -> Option<Bvh> {
        self.build_from(&render(&self.doc, &Layout::FLAT))
    }

    /// The same edits to the animation of another text.
    pub fn build_from(&self, text: &[u8]) -> Option<Bvh> {
        crate::engine::guard(|| {
            let mut bvh = bvh_anim::from_bytes(text).ok()?;
            if let Some((s, n)) = self.set_time {
                bvh.set_frame_time(Duration::new(s, n));
            }
            if let Some(ref rows) = self.rows {
                let mut c = bvh.frame_cursor();
                c.remove_all_frames();
                c.move_first();
                for r in rows {
                    let r: Vec<f32> = r.iter().map(|b| f32::from_bits(*b)).collect();
                    c.try_insert_frame(&r).ok()?;
                }
            }
            Some(bvh)
        })
        .ok()
        .flatten()
    }
}

// ------------------------------------------------------------ the text, written

#[derive(Clone, Debug, Hash, Serialize, Deserialize, PartialEq)]
pub struct Opts {
    /// `None` tabs, `Some(n)` n spaces (0: none).
    pub indent: Option<u16>,
    pub windows: bool,
    pub offset: Option<u16>,
    pub time: Option<u16>,
    pub motion: Option<u16>,
}

impl Opts {
    pub const DEFAULT: Opts =
        Opts { indent: None, windows: false, offset: None, time: None, motion: None };
    pub fn build(&self) -> bvh_anim::write::WriteOptions {
        use bvh_anim::write::*;
        let mut o = WriteOptions::default();
        o.indent = match self.indent {
            None => IndentStyle::Tabs,
            Some(n) => IndentStyle::with_spaces(n as usize),
        };
        o.line_terminator =
            if self.windows { LineTerminator::Windows } else { LineTerminator::Unix };
        o.offset_significant_figures = self.offset.map(|n| n as usize);
        o.frame_time_significant_figures = self.time.map(|n| n as usize);
        o.motion_values_significant_figures = self.motion.map(|n| n as usize);
        o
    }
}

pub fn gen_opts(s: &mut Source) -> Opts {
    fn prec(s: &mut Source) -> Option<u16> {
        match s.weighted(&[30, 20, 30, 10, 10]) {
            0 => None,
            1 => Some(0),
            2 => Some(s.range(1, 9) as u16),
            3 => Some(s.range(10, 20) as u16),
            _ => Some(*s.pick(&[25u16, 40, 60, 150])),
        }
    }
    Opts {
        indent: match s.weighted(&[30, 15, 40, 15]) {
            0 => None,
            1 => Some(0),
            2 => Some(s.range(1, 8) as u16),
            _ => Some(*s.pick(&[9u16, 16, 31, 33, 64])),
        },
        windows: s.bool(),
        offset: prec(s),
        time: prec(s),
        motion: prec(s),
    }
}

fn fmt_f32(bits: u32, prec: Option<u16>) -> String {
    let v = f32::from_bits(bits);
    match prec {
        Some(p) => format!("{:.*}", p as usize, v),
        None => format!("{}", v),
    }
}

/// The lines of the written text, without indentation and terminators; with
/// the depth of each.
pub fn reference_lines(o: &Obs, opts: &Opts) -> Vec<(usize, Vec<u8>)> {
    let mut out: Vec<(usize, Vec<u8>)> = vec![(0, b"HIERARCHY".to_vec())];
    let depths = o.depths();
    let off = |v: &[u32; 3]| {
        format!(
            "OFFSET {} {} {}",
            fmt_f32(v[0], opts.offset),
            fmt_f32(v[1], opts.offset),
            fmt_f32(v[2], opts.offset)
        )
        .into_bytes()
    };
    for (i, j) in o.joints.iter().enumerate() {
        let d = depths[i];
        let mut head = if i == 0 { b"ROOT ".to_vec() } else { b"JOINT ".to_vec() };
        head.extend_from_slice(&j.name.0);
        out.push((d, head));
        out.push((d, b"{".to_vec()));
        out.push((d + 1, off(&j.offset)));
        let mut ch = format!("CHANNELS {}", j.channels.len());
        for (c, _) in &j.channels {
            ch.push(' ');
            ch.push_str(CHANNEL_NAMES[*c as usize]);
        }
        out.push((d + 1, ch.into_bytes()));
        if let Some(ref e) = j.end_site {
            out.push((d + 1, b"End Site".to_vec()));
            out.push((d + 1, b"{".to_vec()));
            out.push((d + 2, off(e)));
            out.push((d + 1, b"}".to_vec()));
        }
        let next = depths.get(i + 1).copied().unwrap_or(0);
        for level in (next..=d).rev() {
            out.push((level, b"}".to_vec()));
        }
    }
    out.push((0, b"MOTION".to_vec()));
    out.push((0, format!("Frames: {}", o.rows.len()).into_bytes()));
    let t = o.frame_time.as_secs_f64();
    out.push((
        0,
        match opts.time {
            Some(p) => format!("Frame Time: {:.*}", p as usize, t),
            None => format!("Frame Time: {}", t),
        }
        .into_bytes(),
    ));
    for r in &o.rows {
        let t: Vec<String> = r.iter().map(|b| fmt_f32(*b, opts.motion)).collect();
        out.push((0, t.join(" ").into_bytes()));
    }
    out
}
