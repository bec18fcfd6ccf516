//! C09 - C11: writing.

use crate::{common::*, engine::*, model::*};
use bvh_anim::write::{IndentStyle, LineTerminator, WriteOptions};
use serde::{Deserialize, Serialize};
use std::io::{self, Write};

pub fn rounded(o: &Obs, opts: &Opts) -> Obs {
    let f = |bits: u32, p: Option<u16>| match p {
        None => bits,
        Some(p) => text_bits(&format!("{:.*}", p as usize, f32::from_bits(bits))),
    };
    let off = |v: [u32; 3]| v.map(|b| f(b, opts.offset));
    Obs {
        joints: o
            .joints
            .iter()
            .map(|j| ObsJoint { offset: off(j.offset), end_site: j.end_site.map(off), ..j.clone() })
            .collect(),
        num_channels: o.num_channels,
        rows: o.rows.iter().map(|r| r.iter().map(|b| f(*b, opts.motion)).collect()).collect(),
        frame_time: match opts.time {
            None => o.frame_time,
            Some(p) => text_duration(&format!("{:.*}", p as usize, o.frame_time.as_secs_f64())),
        },
    }
}

// ------------------------------------------------------------------------ C09

pub struct C09;
#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct C09Case {
    pub anim: Anim,
    /// More words behind the names, which are of no account.
    #[serde(default)]
    pub words: bool,
    /// Loaded from this text instead, if it is accepted.
    #[serde(default)]
    pub text: Option<Bytes>,
}

impl Prop for C09 {
    type Case = C09Case;
    const ID: &'static str = "C09";
    const CASES: (u64, u64) = (450_000, 4_500_000);
    const RULE: &'static str = "A case is an animation, loaded from a well-formed document (or one with more words behind names, or \
a changed one that is accepted) and perhaps edited \
(frame time, all frames replaced by values of any bits); it is written, loaded again, compared bit by bit, \
and written again. Non-trivial: at least two joints or one motion value.";
    fn gen(s: &mut Source) -> C09Case {
        let mut cfg = DocCfg::FULL;
        cfg.big_frame_time = false;
        cfg.max_frames = if s.chance(1, 30) { 1500 } else { 12 };
        cfg.max_values = 8000;
        let mut anim = gen_anim(s, &cfg);
        let words = s.chance(1, 4);
        let text = if s.chance(1, 6) {
            anim.rows = None;
            Some(Bytes(gen_mutant(s, &DocCfg::SMALL).0))
        } else {
            None
        };
        C09Case { anim, words, text }
    }
    fn check(c: &C09Case, cx: &mut Cx) -> Verdict {
        let built = match (&c.text, c.words) {
            (Some(t), _) => c.anim.build_from(&t.0),
            (None, false) => c.anim.build(),
            (None, true) => {
                let mut lines = c.anim.doc.lines();
                lines.extend(wrap_values(c.anim.doc.rows(), &Layout::FLAT));
                for (i, l) in lines.iter_mut().enumerate() {
                    if matches!(l.kind, Kind::Header(_)) {
                        l.toks.push(if i % 3 == 0 { "{" } else { "more" }.into());
                    }
                }
                c.anim.build_from(&render_lines(&lines, &Layout::FLAT).bytes)
            }
        };
        let Some(bvh) = built else {
            cx.discarded = true;
            return Ok(());
        };
        let o = observe(&bvh);
        // What is accepted may have a frame time beyond what is claimed here.
        if c.text.is_some() && (o.joints.is_empty() || o.frame_time.as_secs() >= 1_000_000) {
            cx.discarded = true;
            return Ok(());
        }
        cx.label_if(c.text.is_some(), "loaded from a changed text");
        let c = &c.anim;
        let text = bvh.to_string();
        let again = bvh_anim::from_bytes(&text)
            .map_err(|e| format!("the written text was rejected: {}\n{}", e, Bytes(text.clone()).0.len()))?;
        diff(&observe(&again), &o).map_err(|e| format!("after writing and loading: {}", e))?;
        ensure!(o.has_nan() || again == bvh, "the animation loaded again does not compare equal");
        let second = again.to_string();
        ensure!(second == text, "writing the animation that was loaded again gives another text");
        let mut sink = Vec::new();
        bvh.write_to(&mut sink).map_err(|e| format!("write_to a vector failed: {}", e))?;
        ensure!(sink == text, "write_to and to_string give different texts");
        cx.comparisons += 4;
        cx.nontrivial = o.joints.len() > 1 || !o.rows.is_empty();
        doc_labels_of(&c.doc, cx);
        cx.label_if(o.has_nan(), "with NaN");
        cx.label_if(c.set_time.is_some(), "frame time set");
        cx.label_if(c.rows.is_some(), "frames replaced");
        Ok(())
    }
    fn fixed() -> Vec<C09Case> {
        let plain = super::load::small_trees()
            .into_iter()
            .map(|mut c| {
                c.doc.motion = MotionDoc::Bulk { frames: 2, seed: 3 };
                Anim { doc: c.doc, set_time: None, rows: None }
            })
            .chain(scale_docs().into_iter().map(|doc| Anim { doc, set_time: None, rows: None }));
        plain.map(|anim| C09Case { anim, words: false, text: None }).collect()
    }
    fn assumptions() -> Vec<&'static str> {
        vec![
            "Animations without a root joint are left out: their text is no document.",
            "Frame times below a million seconds, beyond which nanoseconds do not fit a double.",
        ]
    }
}

fn doc_labels_of(doc: &Doc, cx: &mut Cx) {
    super::load::doc_labels(doc, cx)
}

// ------------------------------------------------------------------------ C10

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct C10Case {
    pub anim: Anim,
    pub opts: Opts,
    /// The order in which the builder methods are called; a setting may be
    /// overwritten by a later one.
    pub order: Vec<u8>,
    pub before: Opts,
}

pub struct C10;
impl Prop for C10 {
    type Case = C10Case;
    const ID: &'static str = "C10";
    const CASES: (u64, u64) = (600_000, 6_000_000);
    const RULE: &'static str = "A case is an animation and write options (indentation by tabs or 0 to 64 spaces, \
either line end, up to 150 fractional digits for each kind of number), set through the fields and through \
the builder methods in some order. The text is compared line by line with one written from the model, and \
loaded again. Non-trivial: the options differ from the defaults.";
    fn gen(s: &mut Source) -> C10Case {
        let mut cfg = DocCfg { big_frame_time: true, ..DocCfg::SMALL };
        if s.chance(1, 20) {
            cfg.max_joints = 100;
        }
        let anim = gen_anim(s, &cfg);
        let opts = gen_opts(s);
        let order = s.list(0, 9, 5, |s, _| s.upto(4) as u8);
        C10Case { anim, opts, order, before: gen_opts(s) }
    }
    fn check(c: &C10Case, cx: &mut Cx) -> Verdict {
        // The builder methods.
        let mut o = c.before.build();
        let mut want = c.before.clone();
        let us = |n: Option<u16>| n.map(|n| n as usize);
        for (step, m) in c.order.iter().enumerate() {
            match m {
                0 => {
                    o = o.with_indent(c.opts.build().indent);
                    want.indent = c.opts.indent;
                }
                1 => {
                    o = o.with_line_terminator(c.opts.build().line_terminator);
                    want.windows = c.opts.windows;
                }
                2 => {
                    o = match c.opts.offset {
                        Some(n) if step % 2 == 0 => o.with_offset_significant_figures(n as usize),
                        n => o.with_offset_significant_figures(us(n)),
                    };
                    want.offset = c.opts.offset;
                }
                3 => {
                    o = match c.opts.time {
                        Some(n) if step % 2 == 0 => o.with_frame_time_significant_figures(n as usize),
                        n => o.with_frame_time_significant_figures(us(n)),
                    };
                    want.time = c.opts.time;
                }
                _ => {
                    o = match c.opts.motion {
                        Some(n) if step % 2 == 0 => o.with_motion_values_significant_figures(n as usize),
                        n => o.with_motion_values_significant_figures(us(n)),
                    };
                    want.motion = c.opts.motion;
                }
            }
        }
        let built = |o: &WriteOptions, w: &Opts| -> Verdict {
            let wi = match w.indent {
                None => IndentStyle::Tabs,
                Some(0) => IndentStyle::NoIndentation,
                Some(n) => IndentStyle::Spaces(std::num::NonZeroUsize::new(n as usize).unwrap()),
            };
            let wt = if w.windows { LineTerminator::Windows } else { LineTerminator::Unix };
            crate::ensure_eq!(o.indent, wi, "indent");
            crate::ensure_eq!(o.line_terminator, wt, "line_terminator");
            crate::ensure_eq!(o.offset_significant_figures, us(w.offset), "offset_significant_figures");
            crate::ensure_eq!(o.frame_time_significant_figures, us(w.time), "frame_time_significant_figures");
            crate::ensure_eq!(
                o.motion_values_significant_figures,
                us(w.motion),
                "motion_values_significant_figures"
            );
            Ok(())
        };
        built(&o, &want).map_err(|e| format!("after builder methods {:?}: {}", c.order, e))?;
        ensure!(o == want.build() && o == o.clone(), "equal options do not compare equal");
        let d = WriteOptions::default();
        built(&d, &Opts::DEFAULT).map_err(|e| format!("defaults: {}", e))?;
        ensure!(d == WriteOptions::new(), "default() and new() differ");
        let t = LineTerminator::Windows;
        let u = LineTerminator::Unix;
        ensure!(
            (t.as_str(), t.as_escaped_str(), &t.to_string()[..]) == ("\r\n", "\\r\\n", "\r\n")
                && (t.as_bytes(), t.as_escaped_bytes()) == (&b"\r\n"[..], &b"\\r\\n"[..])
                && (u.as_str(), u.as_escaped_str(), &u.to_string()[..]) == ("\n", "\\n", "\n")
                && (u.as_bytes(), u.as_escaped_bytes()) == (&b"\n"[..], &b"\\n"[..]),
            "texts of the line terminators"
        );

        let Some(bvh) = c.anim.build() else {
            cx.discarded = true;
            return Ok(());
        };
        let obs = observe(&bvh);
        let opts = &want;
        let text = o.write_to_string(&bvh);
        let lines = reference_lines(&obs, opts);
        let term: &[u8] = if opts.windows { b"\r\n" } else { b"\n" };
        let mut rest = &text[..];
        for (n, (depth, want)) in lines.iter().enumerate() {
            let Some(end) = rest.iter().position(|b| *b == b'\n') else {
                return Err(format!("line {} of {} has no line end or is missing", n, lines.len()));
            };
            let whole = &rest[..=end];
            rest = &rest[end + 1..];
            ensure!(whole.ends_with(term), "line {} ends with the wrong terminator: {:?}", n, Bytes(whole.to_vec()));
            let mut body = &whole[..whole.len() - term.len()];
            let indent: Vec<u8> = match opts.indent {
                None => vec![b'\t'; *depth],
                Some(k) => vec![b' '; k as usize * depth],
            };
            ensure!(
                body.starts_with(&indent),
                "line {} is not indented by {} levels: {:?}",
                n,
                depth,
                Bytes(body.to_vec())
            );
            body = &body[indent.len()..];
            if want == b"CHANNELS 0" {
                // The writer may leave the blank that would precede a name.
                while body.last() == Some(&b' ') {
                    body = &body[..body.len() - 1];
                }
            }
            ensure!(
                body == &want[..],
                "line {} is {:?} instead of {:?}",
                n,
                Bytes(body.to_vec()),
                Bytes(want.clone())
            );
        }
        ensure!(rest.is_empty(), "{} bytes follow the last line", rest.len());
        cx.comparisons += lines.len() as u64;

        if obs.frame_time.as_secs() < 1_000_000 {
            let again = bvh_anim::from_bytes(&text).map_err(|e| format!("the written text was rejected: {}", e))?;
            diff(&observe(&again), &rounded(&obs, opts)).map_err(|e| format!("loaded again: {}", e))?;
        }
        cx.nontrivial = *opts != Opts::DEFAULT;
        cx.label_if(opts.offset.is_some(), "offset digits");
        cx.label_if(opts.time.is_some(), "frame time digits");
        cx.label_if(opts.motion.is_some() && !obs.rows.is_empty(), "motion digits");
        cx.label_if(opts.windows, "windows line ends");
        cx.label_if(matches!(opts.indent, Some(n) if n > 0), "indented by spaces");
        Ok(())
    }
    fn fixed() -> Vec<C10Case> {
        let mut v = Vec::new();
        // Every number of spaces and of digits, and each setting by itself.
        let anim = |doc| Anim { doc, set_time: Some((7, 123_456_789)), rows: None };
        let small = scale_doc(3, 4);
        for n in 0..=70u16 {
            for opts in [
                Opts { indent: Some(n), ..Opts::DEFAULT },
                Opts { indent: Some(n), windows: true, ..Opts::DEFAULT },
                Opts { offset: Some(n), ..Opts::DEFAULT },
                Opts { time: Some(n), ..Opts::DEFAULT },
                Opts { motion: Some(n), ..Opts::DEFAULT },
                Opts { offset: Some(n), time: Some(n / 2), motion: Some(n / 3), windows: true, indent: None },
            ] {
                for order in [vec![0, 1, 2, 3, 4], vec![4, 3, 2, 1, 0]] {
                    v.push(C10Case { anim: anim(small.clone()), opts: opts.clone(), order, before: Opts::DEFAULT });
                }
            }
        }
        let big = |doc, opts| C10Case { anim: anim(doc), opts, order: vec![0, 1, 2, 3, 4], before: Opts::DEFAULT };
        for doc in scale_docs() {
            v.push(big(doc, Opts { indent: Some(1), windows: true, motion: Some(3), ..Opts::DEFAULT }));
        }
        for doc in deep_docs() {
            v.push(big(doc, Opts { indent: Some(0), ..Opts::DEFAULT }));
        }
        v.push(big(scale_doc(3, 40), Opts { indent: Some(300), ..Opts::DEFAULT }));
        v.push(big(scale_doc(3, 6), Opts { indent: Some(65_535), ..Opts::DEFAULT }));
        v.push(big(scale_doc(3, 6), Opts { offset: Some(300), time: Some(400), motion: Some(500), ..Opts::DEFAULT }));
        v
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["The standard library prints numbers correctly rounded to a number of fractional digits, and the shortest that reads back."]
    }
}

// ------------------------------------------------------------------------ C11

/// What a sink does with one call of `write`.
#[derive(Clone, Copy, Debug, Hash, Serialize, Deserialize, PartialEq)]
pub enum Act {
    All,
    Part(u16),
    Interrupt,
    Zero,
    Fail(u8),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct C11Case {
    pub anim: Anim,
    pub opts: Opts,
    /// Repeated, except for `Zero` and `Fail`, which happen once, after this
    /// many bytes have been taken.
    pub acts: Vec<Act>,
    pub fault: Option<(u32, Act)>,
    pub flush: Vec<Option<u8>>,
}

struct Sink<'a> {
    case: &'a C11Case,
    got: Vec<u8>,
    calls: usize,
    flushes: usize,
    flushed_at: usize,
    raised: Option<io::ErrorKind>,
    zeroed: bool,
    idle: u32,
    after_fault: bool,
}

impl<'a> Sink<'a> {
    fn new(case: &'a C11Case) -> Self {
        Sink {
            case,
            got: Vec::new(),
            calls: 0,
            flushes: 0,
            flushed_at: usize::MAX,
            raised: None,
            zeroed: false,
            idle: 0,
            after_fault: false,
        }
    }
}

impl Write for Sink<'_> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.idle += 1;
        if self.idle > 100_000 {
            panic!("writing goes on without end");
        }
        if self.raised.is_some() || self.zeroed {
            self.after_fault = true;
        }
        if buf.is_empty() {
            return Ok(0);
        }
        let mut limit = buf.len();
        if let Some((at, act)) = self.case.fault {
            let at = at as usize;
            if self.got.len() >= at {
                match act {
                    Act::Fail(k) => {
                        let kind = ERROR_KINDS[k as usize % ERROR_KINDS.len()];
                        self.raised = Some(kind);
                        return Err(io::Error::new(kind, "planned fault"));
                    }
                    _ => {
                        self.zeroed = true;
                        return Ok(0);
                    }
                }
            }
            limit = limit.min(at - self.got.len());
        }
        let act = if self.case.acts.is_empty() {
            Act::All
        } else {
            self.case.acts[self.calls % self.case.acts.len()]
        };
        self.calls += 1;
        let n = match act {
            Act::Interrupt => return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted")),
            Act::Part(n) => limit.min((n as usize).max(1)),
            _ => limit,
        };
        self.got.extend_from_slice(&buf[..n]);
        if n > 0 {
            self.idle = 0;
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let r = self.case.flush.get(self.flushes).copied().flatten();
        self.flushes += 1;
        self.flushed_at = self.got.len();
        match r {
            Some(k) => {
                let kind = ERROR_KINDS[k as usize % ERROR_KINDS.len()];
                self.raised = Some(kind);
                Err(io::Error::new(kind, "planned flush fault"))
            }
            None => Ok(()),
        }
    }
}

pub struct C11;
impl Prop for C11 {
    type Case = C11Case;
    const ID: &'static str = "C11";
    const CASES: (u64, u64) = (1_000_000, 10_000_000);
    const RULE: &'static str = "A case is an animation, write options, and a sink that takes parts of each \
write, interrupts, fails with one of 12 kinds or takes nothing at some byte of the text, or fails to \
flush. Non-trivial: the sink does not simply take everything.";
    fn gen(s: &mut Source) -> C11Case {
        let mut cfg = DocCfg::SMALL;
        cfg.max_joints = 6;
        let anim = gen_anim(s, &cfg);
        let opts = if s.bool() { Opts::DEFAULT } else { gen_opts(s) };
        let mut acts = s.list(0, 6, 3, |s, _| match s.upto(3) {
            0 => Act::All,
            1 => Act::Part(s.range(1, 5) as u16),
            2 => Act::Part(*s.pick(&[1u16, 7, 16, 64, 4096])),
            _ => Act::Interrupt,
        });
        if !acts.is_empty() && acts.iter().all(|a| *a == Act::Interrupt) {
            acts.push(Act::All);
        }
        let fault = if s.chance(1, 2) {
            // Positions beyond the text never come up.
            let at = if s.bool() { s.upto(60) } else { s.upto(3000) } as u32;
            Some((at, if s.chance(1, 4) { Act::Zero } else { Act::Fail(s.upto(11) as u8) }))
        } else {
            None
        };
        let flush = if s.chance(1, 3) { vec![Some(s.upto(11) as u8)] } else { vec![] };
        C11Case { anim, opts, acts, fault, flush }
    }
    fn check(c: &C11Case, cx: &mut Cx) -> Verdict {
        let Some(bvh) = c.anim.build() else {
            cx.discarded = true;
            return Ok(());
        };
        let o = c.opts.build();
        let text = o.write_to_string(&bvh);
        let mut v = Vec::new();
        o.write(&bvh, &mut v).map_err(|e| format!("writing to a vector failed: {}", e))?;
        ensure!(v == text, "write to a vector and write_to_string give different texts");
        let mut b = io::BufWriter::with_capacity(7, Vec::new());
        o.write(&bvh, &mut b).map_err(|e| format!("writing to a BufWriter failed: {}", e))?;
        ensure!(b.get_ref() == &text, "write left bytes in a buffered writer, or wrote others");
        if c.opts == Opts::DEFAULT {
            ensure!(bvh.to_string() == text, "to_string and write_to_string with defaults differ");
        }
        cx.comparisons += 2;

        for by_bvh in [false, true] {
            if by_bvh && c.opts != Opts::DEFAULT {
                continue;
            }
            let mut sink = Sink::new(c);
            let r = if by_bvh { bvh.write_to(&mut sink) } else { o.write(&bvh, &mut sink) };
            ensure!(
                text.starts_with(&sink.got),
                "what the sink received is no prefix of the text: {:?} of {:?}",
                Bytes(sink.got.clone()),
                Bytes(text.clone())
            );
            let whole = sink.got.len() == text.len();
            match r {
                Ok(()) => {
                    ensure!(
                        whole,
                        "success was reported after {} of {} bytes",
                        sink.got.len(),
                        text.len()
                    );
                    ensure!(sink.raised.is_none(), "success was reported although the sink failed");
                    ensure!(sink.flushes >= 1, "the sink was not flushed");
                    ensure!(sink.flushed_at == text.len(), "bytes followed the last flush");
                    cx.label("complete");
                }
                Err(e) => {
                    if let Some(k) = sink.raised {
                        ensure!(e.kind() == k, "the sink failed with {:?}, writing with {:?}", k, e.kind());
                        ensure!(
                            e.to_string().contains("planned"),
                            "the sink's error was replaced by {:?}",
                            e.to_string()
                        );
                        ensure!(!sink.after_fault, "writing went on after the sink had failed");
                        cx.label(if sink.flushes > 0 { "flush error reported" } else { "write error reported" });
                    } else if sink.zeroed {
                        ensure!(
                            e.kind() == io::ErrorKind::WriteZero,
                            "a sink that takes nothing is reported as {:?}",
                            e.kind()
                        );
                        cx.label("a sink that takes nothing");
                    } else {
                        return Err(format!("writing failed with {:?}, but the sink did not", e));
                    }
                }
            }
            cx.comparisons += 1;
            cx.label_if(c.acts.contains(&Act::Interrupt), "interrupted");
            cx.label_if(c.acts.iter().any(|a| matches!(a, Act::Part(_))), "partial writes");
        }
        cx.nontrivial = c.acts.iter().any(|a| *a != Act::All) || c.fault.is_some() || !c.flush.is_empty();
        Ok(())
    }
    fn fixed() -> Vec<C11Case> {
        // A fault of each sort at every byte of a text.
        let doc = Doc {
            joints: vec![
                JointDoc {
                    up: 0,
                    name: "r".into(),
                    offset: ["0".into(), "1.5".into(), "-2".into()],
                    channels: Some(vec![0, 5]),
                    end_site: None,
                },
                JointDoc {
                    up: 0,
                    name: "a:b".into(),
                    offset: ["0".into(), "0.1".into(), "1e9".into()],
                    channels: Some(vec![]),
                    end_site: Some(["1".into(), "2".into(), "3".into()]),
                },
            ],
            motion: MotionDoc::Rows(vec![vec!["1".into(), "2".into()], vec!["-3.5".into(), "4".into()]]),
            frame_time: "0.25".into(),
        };
        let anim = Anim { doc, set_time: None, rows: None };
        let mut out = Vec::new();
        for at in 0..320 {
            for act in [Act::Zero, Act::Fail(0), Act::Fail(2)] {
                for acts in [vec![], vec![Act::Part(1)], vec![Act::Interrupt, Act::Part(3)]] {
                    for windows in [false, true] {
                        out.push(C11Case {
                            anim: anim.clone(),
                            opts: Opts { windows, ..Opts::DEFAULT },
                            acts: acts.clone(),
                            fault: Some((at, act)),
                            flush: vec![],
                        });
                    }
                }
            }
        }
        // Texts of some hundred kilobytes.
        for (kind, n) in [(0, 70_000), (1, 70_000), (4, 70_000)] {
            let anim = Anim { doc: scale_doc(kind, n), set_time: None, rows: None };
            for acts in [vec![], vec![Act::Part(4096)], vec![Act::Part(65_535), Act::Part(1)], vec![Act::Interrupt, Act::Part(8191)]] {
                for fault in [None, Some((4096, Act::Fail(1))), Some((65_536, Act::Fail(2))), Some((70_001, Act::Zero))] {
                    out.push(C11Case { anim: anim.clone(), opts: Opts::DEFAULT, acts: acts.clone(), fault, flush: vec![] });
                }
            }
        }
        for k in 0..12 {
            out.push(C11Case { anim: anim.clone(), opts: Opts::DEFAULT, acts: vec![], fault: None, flush: vec![Some(k)] });
        }
        out
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["A sink that takes no byte of a non-empty write is to be reported as WriteZero, as std's write_all does."]
    }
}
