//! C25: errors are whole: their parts, sources and texts agree.

use crate::{common::*, engine::*, model::*};
use bvh_anim::{
    errors::{LoadError, LoadErrorKind, LoadJointsError, LoadMotionError, ParseChannelError, SetMotionError},
    Axis, ChannelType,
};
use serde::{Deserialize, Serialize};
use std::{convert::TryFrom, error::Error, fmt::Write, io};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Case {
    /// The error of a document that is refused.
    Loaded(Bytes),
    /// Reading fails after so many bytes, with one of the kinds and this text.
    Io(u8, String, u32),
    /// A kind of error, made by hand.
    Made(u8, [u64; 4], u8, Bytes),
    Channel(Bytes),
    /// Channels, frames, and the length of a frame that does not fit.
    Insert(u32, u8, u32),
    /// Frame removed behind the last one of so many.
    Remove(u8, u32),
    /// A value set behind the last one of so many, at so many plus.
    Set(u32, u64),
}

/// The parts that a text has to name.
#[derive(Default)]
struct Named {
    line: Option<usize>,
    numbers: Vec<usize>,
    axis: Option<Axis>,
}

fn letter(a: Axis) -> &'static str {
    match a {
        Axis::X => "X",
        Axis::Y => "Y",
        Axis::Z => "Z",
    }
}

/// Formats until so many bytes were taken, and then fails.
struct Short(usize, String);
impl Write for Short {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        for c in s.chars() {
            if self.0 < c.len_utf8() {
                return Err(std::fmt::Error);
            }
            self.0 -= c.len_utf8();
            self.1.push(c);
        }
        Ok(())
    }
}

/// If the text has the word, the next number behind it has to be this one.
fn behind(t: &str, word: &str, number: usize) -> Verdict {
    let lower = t.to_ascii_lowercase();
    if let Some((_, rest)) = lower.split_once(word) {
        let rest = rest.trim_start_matches(|c: char| !c.is_ascii_digit());
        let k: String = rest.chars().take_while(|c| c.is_ascii_digit()).collect();
        ensure!(k == number.to_string(), "{:?} says {:?} behind {:?} instead of {}", t, k, word, number);
    }
    Ok(())
}

/// An error's text, which names what it is about.
fn text(e: &dyn Error, n: &Named, cx: &mut Cx) -> Result<String, String> {
    let t = e.to_string();
    ensure!(!t.trim().is_empty(), "the error has no text: {:?}", e);
    ensure!(t == e.to_string(), "the text changes: {:?} {:?}", t, e);
    let numbers: Vec<&str> = t.split(|c: char| !c.is_ascii_digit()).filter(|s| !s.is_empty()).collect();
    for k in n.line.iter().chain(&n.numbers) {
        let k = k.to_string();
        ensure!(numbers.contains(&k.as_str()), "{:?} does not name {} of {:?}", t, k, e);
        cx.comparisons += 1;
    }
    if let Some(a) = n.axis {
        let words: Vec<String> = t.split(|c: char| !c.is_ascii_alphanumeric()).map(|w| w.to_ascii_uppercase()).collect();
        ensure!(words.iter().any(|w| w == letter(a)), "{:?} does not name the axis of {:?}", t, e);
        for b in [Axis::X, Axis::Y, Axis::Z] {
            ensure!(b == a || !words.iter().any(|w| w == letter(b)), "{:?} names another axis than {:?}", t, e);
        }
    }
    // A formatter that fails is not overlooked.
    let mut cuts = vec![0, 1, t.len() / 2, t.len() - 1];
    cuts.push(t.find(':').unwrap_or(0));
    for cut in cuts {
        let mut w = Short(cut, String::new());
        let r = write!(w, "{}", e);
        ensure!(r.is_err() || cut >= t.len(), "{} of {} bytes could be written, and no failure is reported: {:?}", cut, t.len(), t);
        ensure!(t.starts_with(&w.1), "{:?} is no beginning of {:?}", w.1, t);
    }
    let mut w = Short(t.len(), String::new());
    ensure!(write!(w, "{}", e).is_ok() && w.1 == t, "{:?} is written as {:?}", t, w.1);
    let d = format!("{:?}", e);
    ensure!(!d.is_empty() && d == format!("{:?}", e), "debug output {:?}", d);
    Ok(t)
}

fn same(a: &dyn Error, b: &dyn Error) -> bool {
    a.to_string() == b.to_string() && format!("{:?}", a) == format!("{:?}", b)
}

/// An error that is at the end of its chain.
fn last(e: &dyn Error) -> Verdict {
    ensure!(e.source().is_none(), "{:?} has the source {:?}", e, e.source());
    Ok(())
}

/// What I/O errors are told apart by.
fn io_source(e: &dyn Error, own: &io::Error) -> Verdict {
    let s = e.source().and_then(|s| s.downcast_ref::<io::Error>());
    ensure!(s.map(|s| (s.kind(), s.to_string())) == Some((own.kind(), own.to_string())), "{:?} has the source {:?}", e, e.source());
    ensure!(e.to_string() == own.to_string(), "{:?} is shown as {:?}", own, e.to_string());
    Ok(())
}

fn joints(e: &LoadJointsError, cx: &mut Cx) -> Verdict {
    use LoadJointsError::*;
    let mut n = Named::default();
    match e {
        Io(_) | MissingRoot => {}
        MissingJointName { line }
        | UnexpectedToken { line }
        | UnexpectedChannelsSection { line }
        | ParseNumChannelsError { line, .. }
        | ParseChannelError { line, .. }
        | UnexpectedOffsetSection { line } => n.line = Some(*line),
        ParseOffsetError { axis, line, .. } | MissingOffsetAxis { axis, line } => {
            n.line = Some(*line);
            n.axis = Some(*axis);
        }
    }
    ensure!(e.line() == n.line, "{:?} is on line {:?}", e, e.line());
    text(e, &n, cx)?;
    match e {
        Io(own) => io_source(e, own),
        ParseChannelError { error, .. } => {
            let s = e.source();
            ensure!(s.map_or(false, |s| s.is::<bvh_anim::errors::ParseChannelError>() && same(s, error)), "{:?} has the source {:?}", e, s);
            last(error)
        }
        // Others may or may not lead to the error of the number.
        _ => Ok(()),
    }
}

fn motion(e: &LoadMotionError, cx: &mut Cx) -> Verdict {
    use LoadMotionError::*;
    let mut n = Named::default();
    match e {
        Io(_) => {}
        MissingMotionSection { line } | MissingNumFrames { line, .. } | MissingFrameTime { line, .. } | ParseMotionSection { line, .. } => {
            n.line = Some(*line)
        }
        MotionCountMismatch { actual_total_motion_values, expected_total_motion_values, expected_num_frames, expected_num_clips } => {
            n.numbers = vec![*actual_total_motion_values, *expected_total_motion_values, *expected_num_frames, *expected_num_clips]
        }
    }
    ensure!(e.line() == n.line, "{:?} is on line {:?}", e, e.line());
    let t = text(e, &n, cx)?;
    match e {
        Io(own) => io_source(e, own),
        MotionCountMismatch { actual_total_motion_values, expected_total_motion_values, expected_num_frames, expected_num_clips } => {
            behind(&t, "expected", *expected_total_motion_values)?;
            behind(&t, "found", *actual_total_motion_values)?;
            behind(&t, "frames =", *expected_num_frames)?;
            behind(&t, "clips =", *expected_num_clips)
        }
        _ => Ok(()),
    }
}

fn load(e: LoadError, cx: &mut Cx) -> Verdict {
    let debug = format!("{:?}", e.kind());
    let (line, inner) = match e.kind() {
        LoadErrorKind::Joints(j) => {
            joints(j, cx)?;
            (j.line(), j.to_string())
        }
        LoadErrorKind::Motion(m) => {
            motion(m, cx)?;
            (m.line(), m.to_string())
        }
    };
    ensure!(e.line() == line, "the error is on line {:?}, its kind on {:?}: {:?}", e.line(), line, e);
    let t = text(&e, &Named { line, ..Named::default() }, cx)?;
    ensure!(t.contains(&inner), "{:?} does not say {:?}", t, inner);
    let s = e.source();
    let right = match (e.kind(), s) {
        (LoadErrorKind::Joints(j), Some(s)) => s.is::<LoadJointsError>() && same(s, j),
        (LoadErrorKind::Motion(m), Some(s)) => s.is::<LoadMotionError>() && same(s, m),
        _ => false,
    };
    ensure!(right, "{:?} has the source {:?}", e, s);
    // Taken apart and put together again.
    let kind = e.into_kind();
    ensure!(format!("{:?}", kind) == debug, "{:?} is turned into {:?}", debug, kind);
    let e = LoadError::from(kind);
    ensure!(e.to_string() == t && e.line() == line, "{:?} is made again as {:?}", t, e);
    let e = match e.into_kind() {
        LoadErrorKind::Joints(j) => LoadError::from(j),
        LoadErrorKind::Motion(m) => LoadError::from(m),
    };
    ensure!(e.to_string() == t && e.line() == line, "{:?} is made again as {:?}", t, e);
    cx.comparisons += 6;
    cx.nontrivial = true;
    Ok(())
}

const MADE: u8 = 17;

fn made(kind: u8, n: [usize; 4], axis: u8, b: &[u8]) -> LoadError {
    use LoadJointsError as J;
    use LoadMotionError as M;
    let line = n[0];
    let axis = [Axis::X, Axis::Y, Axis::Z][axis as usize % 3];
    match kind % MADE {
        0 => J::MissingRoot.into(),
        1 => J::MissingJointName { line }.into(),
        2 => J::UnexpectedToken { line }.into(),
        3 => J::UnexpectedChannelsSection { line }.into(),
        4 => J::ParseNumChannelsError { error: None, line }.into(),
        5 => J::ParseChannelError { error: ParseChannelError::from(b.to_vec()), line }.into(),
        6 => J::UnexpectedOffsetSection { line }.into(),
        7 => J::MissingOffsetAxis { axis, line }.into(),
        8 => J::from(io::Error::new(ERROR_KINDS[n[1] % ERROR_KINDS.len()], "reason")).into(),
        9 => J::Io(io::Error::from(ERROR_KINDS[n[1] % ERROR_KINDS.len()])).into(),
        10 => M::MissingMotionSection { line }.into(),
        11 => M::MissingNumFrames { parse_error: None, line }.into(),
        12 => M::MissingFrameTime { parse_error: None, line }.into(),
        13 | 14 => M::MotionCountMismatch {
            actual_total_motion_values: n[0],
            expected_total_motion_values: n[1],
            expected_num_frames: n[2],
            expected_num_clips: n[3],
        }
        .into(),
        15 => M::from(io::Error::new(ERROR_KINDS[n[1] % ERROR_KINDS.len()], "reason")).into(),
        _ => M::Io(io::Error::from(ERROR_KINDS[n[1] % ERROR_KINDS.len()])).into(),
    }
}

/// An error on the very line, axis and so on that is in the case.
fn made_parts(kind: u8, n: [usize; 4], axis: u8, e: &LoadError) -> Verdict {
    let line = match kind % MADE {
        1..=7 | 10..=12 => Some(n[0]),
        _ => None,
    };
    ensure!(e.line() == line, "made with line {:?}, has {:?}: {:?}", line, e.line(), e);
    let _ = axis;
    Ok(())
}

fn bvh(channels: usize, frames: usize) -> bvh_anim::Bvh {
    let mut t = format!("HIERARCHY\nROOT r\n{{\nOFFSET 0 0 0\nCHANNELS {}{}\n}}\nMOTION\nFrames: {}\nFrame Time: 1\n", channels, " Xposition".repeat(channels), frames);
    for i in 0..frames * channels {
        t.push_str(&format!("{} ", i));
    }
    bvh_anim::from_bytes(t.as_bytes()).expect("a small document")
}

fn gen_number(s: &mut Source) -> u64 {
    match s.upto(5) {
        0 => s.upto(9),
        1 => s.upto(300),
        2 => 1 << s.upto(63),
        3 => (1u64 << s.upto(63)) - 1,
        4 => u64::MAX - s.upto(2),
        _ => s.upto(10_000_000),
    }
}

pub struct C25;
impl Prop for C25 {
    type Case = Case;
    const ID: &'static str = "C25";
    const CASES: (u64, u64) = (1_500_000, 15_000_000);
    const RULE: &'static str = "A case is a refused document, a reader that fails, an error made by hand, or an insertion, removal, \
set value or channel name that is refused; the error's line, kind, details, sources and text are compared with each other and with what \
was asked for. Non-trivial: there was an error.";
    fn gen(s: &mut Source) -> Case {
        match s.weighted(&[40, 8, 25, 6, 7, 5, 9]) {
            0 => {
                let cfg = DocCfg { max_joints: 5, max_frames: 4, ..DocCfg::SMALL };
                Case::Loaded(Bytes(gen_mutant(s, &cfg).0))
            }
            1 => Case::Io(
                s.upto(11) as u8,
                s.pick(&["x", "reason", "line 7: 3 of 4", "\u{e9}\u{0}%s{}", "a\nb"]).to_string(),
                s.upto(200) as u32,
            ),
            2 => {
                let n = [gen_number(s), gen_number(s), gen_number(s), gen_number(s)];
                Case::Made(s.upto(MADE as u64 - 1) as u8, n, s.upto(2) as u8, Bytes(gen_token(s)))
            }
            3 => Case::Channel(Bytes(if s.bool() { gen_token(s) } else { gen_long_token(s) })),
            4 => {
                let most = if s.bool() { 50 } else { 2000 };
                let (mut channels, mut len) = (s.upto(40), s.upto(most));
                match s.upto(59) {
                    59 => len = gen_scale(s, 140_000) as u64,
                    58 => channels = gen_scale(s, 140_000) as u64,
                    _ => {}
                }
                Case::Insert(channels as u32, s.upto(5) as u8, len as u32)
            }
            5 if s.chance(1, 60) => Case::Remove(1, gen_scale(s, 140_000) as u32),
            5 => Case::Remove(s.upto(9) as u8, s.upto(40) as u32),
            _ if s.chance(1, 60) => Case::Set(gen_scale(s, 140_000) as u32, gen_number(s)),
            _ => Case::Set(s.upto(30) as u32, gen_number(s)),
        }
    }
    fn of_bytes(b: &[u8]) -> Option<Case> {
        Some(Case::Loaded(Bytes(b.to_vec())))
    }
    fn check(c: &Case, cx: &mut Cx) -> Verdict {
        match c {
            Case::Loaded(b) => match guard(|| bvh_anim::from_bytes(&b.0)) {
                Ok(Err(e)) => {
                    cx.label("refused document");
                    load(e, cx)
                }
                Ok(Ok(_)) => Ok(()),
                // Left to C01.
                Err(_) => {
                    cx.discarded = true;
                    Ok(())
                }
            },
            Case::Io(kind, why, at) => {
                let kind = ERROR_KINDS[*kind as usize % ERROR_KINDS.len()];
                struct R<'a>(&'a [u8], io::ErrorKind, &'a str);
                impl io::Read for R<'_> {
                    fn read(&mut self, _: &mut [u8]) -> io::Result<usize> {
                        Err(io::Error::new(self.1, self.2))
                    }
                }
                impl io::BufRead for R<'_> {
                    fn fill_buf(&mut self) -> io::Result<&[u8]> {
                        if self.0.is_empty() {
                            return Err(io::Error::new(self.1, self.2.to_string()));
                        }
                        Ok(self.0)
                    }
                    fn consume(&mut self, n: usize) {
                        self.0 = &self.0[n..];
                    }
                }
                let doc = b"HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 1 Xposition\n}\nMOTION\nFrames: 9\nFrame Time: 1\n1\n2\n3\n4\n5\n6\n7\n8\n9";
                let at = (*at as usize).min(doc.len());
                match bvh_anim::from_reader(R(&doc[..at], kind, why)) {
                    Ok(_) => Err(format!("loaded in spite of {:?}", kind)),
                    Err(e) => {
                        ensure!(io_kind(&e) == Some(kind), "{:?} is reported as {:?}", kind, e);
                        // The reader's own error, not another one like it.
                        let own = match e.kind() {
                            LoadErrorKind::Joints(LoadJointsError::Io(e)) | LoadErrorKind::Motion(LoadMotionError::Io(e)) => e,
                            _ => unreachable!(),
                        };
                        let inner = own.get_ref().map(|i| i.to_string());
                        ensure!(inner.as_deref() == Some(why.as_str()), "the reader said {:?}, the error {:?}", why, own);
                        ensure!(e.line().is_none(), "a reader's error has line {:?}", e.line());
                        cx.label("failing reader");
                        load(e, cx)
                    }
                }
            }
            Case::Made(kind, n, axis, b) => {
                let n = n.map(|n| n as usize);
                let e = made(*kind, n, *axis, &b.0);
                made_parts(*kind, n, *axis, &e)?;
                cx.label("made by hand");
                load(e, cx)
            }
            Case::Channel(b) => {
                let Err(e) = ChannelType::try_from(&b.0[..]) else {
                    return Ok(());
                };
                cx.label("channel name");
                cx.nontrivial = true;
                text(&e, &Named::default(), cx)?;
                last(&e)?;
                ensure!(e.into_inner() == b.0, "the error has another name than {:?}", b);
                let e = ParseChannelError::from(b.0.clone());
                ensure!(e.into_inner() == b.0, "the error has another name than {:?}", b);
                Ok(())
            }
            Case::Insert(channels, frames, len) => {
                let (channels, len) = (*channels as usize, *len as usize);
                let mut b = bvh(channels, if channels == 0 { 0 } else { *frames as usize });
                let mut cursor = b.frame_cursor();
                if frames % 2 == 0 {
                    cursor.move_last();
                }
                let Err(e) = cursor.try_insert_frame(&vec![0.5f32; len]) else {
                    ensure!(len == channels, "{} values were taken for {} channels", len, channels);
                    return Ok(());
                };
                cx.label("insertion");
                cx.nontrivial = true;
                text(&e, &Named { numbers: vec![channels, len], ..Named::default() }, cx)?;
                last(&e)?;
                let t = e.to_string();
                behind(&t, "frame with", len)?;
                behind(&t, "containing", channels)?;
                let rows = [vec![0.5f32; channels], vec![0.5f32; len]];
                let Err(e) = cursor.try_insert_frames(&rows) else {
                    return Err(format!("{} values were taken for {} channels", len, channels));
                };
                ensure!(e.to_string() == t, "{:?} for one frame, {:?} for several", t, e.to_string());
                Ok(())
            }
            Case::Remove(channels, frames) => {
                let frames = if *channels == 0 { 0 } else { *frames as usize };
                let mut b = bvh(*channels as usize, frames);
                let mut cursor = b.frame_cursor();
                cursor.move_last();
                let Err(e) = cursor.remove_frame() else {
                    return Err(format!("a frame was removed behind the {} frames", frames));
                };
                cx.label("removal");
                cx.nontrivial = true;
                text(&e, &Named { numbers: vec![frames], ..Named::default() }, cx)?;
                last(&e)
            }
            Case::Set(channels, at) => {
                let channels = *channels as usize + 1;
                let at = *at as usize;
                let mut b = bvh(channels, 1);
                let mut f = b.frames_mut().next().expect("a frame");
                let Err(e) = f.try_set_motion(at, 2.0) else {
                    ensure!(at < channels, "value {} was set of {}", at, channels);
                    return Ok(());
                };
                cx.label("set value");
                cx.nontrivial = true;
                ensure!(at >= channels, "value {} of {} could not be set", at, channels);
                ensure!(e == SetMotionError::BadChannel(at), "{:?} for value {}", e, at);
                text(&e, &Named { numbers: vec![at], ..Named::default() }, cx)?;
                last(&e)?;
                let e = SetMotionError::BadFrame(at);
                text(&e, &Named { numbers: vec![at], ..Named::default() }, cx)?;
                last(&e)
            }
        }
    }
    fn fixed() -> Vec<Case> {
        let mut out = Vec::new();
        for (channels, frames, len) in [(1, 0, 65_535), (3, 1, 65_536), (2, 2, 70_000), (70_000, 0, 4_464), (65_536, 1, 0)] {
            out.push(Case::Insert(channels, frames, len));
        }
        out.push(Case::Remove(1, 70_000));
        out.push(Case::Set(70_000, 135_000));
        for kind in 0..MADE {
            for axis in 0..3 {
                for n in [[0, 0, 0, 0], [1, 2, 3, 4], [9, 10, 99, 100], [u64::MAX; 4], [7, u64::MAX, 0, 1 << 40]] {
                    out.push(Case::Made(kind, n, axis, Bytes(b"Xpos".to_vec())));
                }
            }
        }
        for kind in 0..ERROR_KINDS.len() as u8 {
            for at in 0..140 {
                out.push(Case::Io(kind, "why".into(), at));
            }
        }
        out
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["The wording of messages is left open, as is whether an error of a number is a source."]
    }
}
