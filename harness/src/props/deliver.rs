//! C08: loading does not depend on how the bytes are delivered.

use crate::{common::*, engine::*, model::*};
use bstr::ByteSlice;
use bvh_anim::Bvh;
use serde::{Deserialize, Serialize};
use std::{convert::TryFrom, io};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct C08Case {
    pub input: Bytes,
    pub plan: ReadPlan,
    /// Capacity of a `BufReader` around a plain reader.
    pub buffer: u16,
}

/// A plain reader that hands out the pieces of a planned one, interrupts too.
struct Plain<'a>(PlannedReader<'a>);
impl io::Read for Plain<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.0.read(buf)
    }
}

/// What texts are found to start or end with.
const DECORATION: &[&[u8]] = &[
    b"\xef\xbb\xbf", b"\xff\xfe", b"\0", b"\x1a", b"\x0c", b"\x0b", b"\xc2\xa0", b"\xe2\x80\x8b", b"\xc2\x85",
    b"\xe2\x80\xa8", b"\r", b"\n\r", b"\x1b[0m", b"#", b"//", b"\xef\xbf\xbd", b"\xe3\x80\x80", b"\x08", b"\\",
];

pub struct C08;
impl Prop for C08 {
    type Case = C08Case;
    const ID: &'static str = "C08";
    const CASES: (u64, u64) = (500_000, 5_000_000);
    const RULE: &'static str = "A case is the bytes of a document (well-formed or mutated) and a plan for a \
reader: sizes of the pieces, interrupted calls, perhaps an error of one of 12 kinds at some byte, once or \
for good. Loading through every entry point and through readers that follow the plan is compared with \
loading from memory; with a planned error, loading has to report it unless an earlier complete line is \
itself to blame. Non-trivial: the plan splits the text, interrupts, or fails.";
    fn gen(s: &mut Source) -> C08Case {
        let mut cfg = DocCfg { big_frame_time: true, ..DocCfg::SMALL };
        if s.chance(1, 20) {
            cfg.max_joints = 60;
            cfg.max_frames = 200;
            cfg.max_values = 4000;
        }
        let input = if s.chance(3, 4) {
            let doc = gen_doc(s, &cfg);
            render(&doc, &gen_layout(s))
        } else {
            gen_mutant(s, &cfg).0
        };
        let mut input = input;
        if s.chance(1, 12) {
            let t = *s.pick(DECORATION);
            match s.upto(3) {
                0 | 1 => drop(input.splice(0..0, t.iter().copied())),
                2 => input.extend_from_slice(t),
                _ => {
                    let at = s.upto(input.len() as u64) as usize;
                    drop(input.splice(at..at, t.iter().copied()))
                }
            }
        }
        let fault = if s.chance(1, 2) {
            let at = match s.upto(2) {
                0 => s.upto(input.len() as u64),
                // Near a line end, or the end.
                1 => {
                    let ends: Vec<usize> =
                        (0..input.len()).filter(|i| input[*i] == b'\n').collect();
                    if ends.is_empty() {
                        0
                    } else {
                        let e = *s.pick(&ends) as u64;
                        (e + s.upto(2)).min(input.len() as u64)
                    }
                }
                _ => (input.len() as u64).saturating_sub(s.upto(3)),
            };
            Some((at as u32, s.upto(11) as u8, s.bool()))
        } else {
            None
        };
        let plan = ReadPlan {
            chunks: if s.chance(5, 6) { gen_chunks(s) } else { vec![] },
            interrupt_every: if s.bool() { s.range(1, 5) as u32 } else { 0 },
            fault,
        };
        C08Case { input: Bytes(input), plan, buffer: *s.pick(&[1u16, 2, 3, 7, 16, 64, 255, 8192]) }
    }
    fn of_bytes(b: &[u8]) -> Option<C08Case> {
        let n = b.len() as u32;
        let fault = if n % 2 == 1 { Some((n * 7 / 16, (n / 2 % 12) as u8, n % 4 == 1)) } else { None };
        let plan = ReadPlan { chunks: vec![1 + n % 5], interrupt_every: n % 3, fault };
        Some(C08Case { input: Bytes(b.to_vec()), plan, buffer: 1 + (n % 19) as u16 })
    }
    fn fixed() -> Vec<C08Case> {
        let mut v = Vec::new();
        for (kind, n) in [(0u8, 30_000usize), (1, 30_000), (2, 9_000), (4, 70_000), (4, 8192), (4, 8191), (5, 30_000)] {
            let input = Bytes(render(&scale_doc(kind, n), &Layout::FLAT));
            let len = input.0.len() as u32;
            for chunks in [vec![], vec![1], vec![8192], vec![65_535], vec![4095, 1, 4097]] {
                for (interrupt_every, fault) in [(0, None), (3, None), (0, Some((len - 1, 0, false))), (0, Some((len / 2, 3, true))), (2, Some((8192.min(len), 2, false)))] {
                    let plan = ReadPlan { chunks: chunks.clone(), interrupt_every, fault };
                    v.push(C08Case { input: input.clone(), plan, buffer: 8192 });
                }
            }
        }
        // Decorated texts.
        let text = b"HIERARCHY\nROOT r\n{\nOFFSET 0 1.5 -2\nCHANNELS 0\nEnd Site\n{\nOFFSET 0 0 1\n}\n}\nMOTION\nFrames: 0\nFrame Time: 0.1\n";
        for t in DECORATION {
            for at in 0..=text.len() {
                let mut b = text.to_vec();
                drop(b.splice(at..at, t.iter().copied()));
                let plan = ReadPlan { chunks: vec![1], interrupt_every: 0, fault: None };
                v.push(C08Case { input: Bytes(b), plan, buffer: 3 });
            }
        }
        // Every error at every byte of a document, once or for good.
        let small = b"HIERARCHY\nROOT r\n{\nOFFSET 0 1.5 -2\nCHANNELS 1 Xposition\nEnd Site\n{\nOFFSET 0 0 1\n}\n}\nMOTION\nFrames: 2\nFrame Time: 0.1\n1\n-2.5\n";
        for at in 0..=small.len() as u32 {
            for kind in 0..12 {
                let plan = ReadPlan { chunks: vec![], interrupt_every: 0, fault: Some((at, kind, kind % 2 == 0)) };
                v.push(C08Case { input: Bytes(small.to_vec()), plan, buffer: [1u16, 7, 64, 8192][at as usize % 4] });
            }
        }
        v
    }
    fn check(c: &C08Case, cx: &mut Cx) -> Verdict {
        let b = &c.input.0;
        let Ok(direct) = guard(|| bvh_anim::from_bytes(b)) else {
            cx.discarded = true;
            return Ok(());
        };
        let want = outcome(&direct);
        let same = |what: &str, r: Result<Bvh, bvh_anim::errors::LoadError>| -> Verdict {
            let got = outcome(&r);
            ensure!(
                got == want,
                "{}: {}, but from memory: {}",
                what,
                brief(&got),
                brief(&want)
            );
            Ok(())
        };
        ensure!(!matches!(want, Outcome::Io(_)), "loading from memory fails with {}", brief(&want));

        same("Bvh::from_bytes", Bvh::from_bytes(b))?;
        same("TryFrom<&[u8]>", Bvh::try_from(&b[..]))?;
        same("TryFrom<&BStr>", Bvh::try_from(b.as_bstr()))?;
        same("from_reader(&[u8])", bvh_anim::from_reader(&b[..]))?;
        same("Bvh::from_reader(Cursor)", Bvh::from_reader(io::Cursor::new(b)))?;
        if let Ok(t) = std::str::from_utf8(b) {
            same("from_str", bvh_anim::from_str(t))?;
            same("FromStr", t.parse::<Bvh>())?;
            same("TryFrom<&str>", Bvh::try_from(t))?;
        }
        cx.comparisons += 8;

        let clean = ReadPlan { fault: None, ..c.plan.clone() };
        same("from_reader in pieces", bvh_anim::from_reader(PlannedReader::new(b, &clean)))?;
        let mut r = PlannedReader::new(b, &clean);
        same("Bvh::from_reader by reference", Bvh::from_reader(&mut r))?;
        same(
            "from_reader(BufReader)",
            bvh_anim::from_reader(io::BufReader::with_capacity(
                (c.buffer as usize).max(1),
                Plain(PlannedReader::new(b, &clean)),
            )),
        )?;
        cx.comparisons += 3;
        cx.nontrivial = !c.plan.chunks.is_empty() && !b.is_empty() || c.plan.interrupt_every > 0;
        cx.label_if(c.plan.interrupt_every > 0, "interrupted");
        cx.label(match want {
            Outcome::Loaded(_) => "loaded",
            _ => "rejected",
        });

        if let Some((at, kind, again)) = c.plan.fault {
            let at = (at as usize).min(b.len());
            let kind = ERROR_KINDS[kind as usize % ERROR_KINDS.len()];
            for buffered in [false, true] {
                let mut rd = PlannedReader::new(b, &c.plan);
                let r = if buffered {
                    bvh_anim::from_reader(io::BufReader::with_capacity(
                        (c.buffer as usize).max(1),
                        Plain(PlannedReader::new(b, &c.plan)),
                    ))
                } else {
                    bvh_anim::from_reader(&mut rd)
                };
                let got = outcome(&r);
                match got {
                    Outcome::Io(k) => {
                        ensure!(k == kind, "a reader failed with {:?}, loading with {:?}", kind, k);
                        if let Err(e) = r {
                            exercise_error(e)?;
                        }
                        cx.label("read error reported");
                    }
                    Outcome::Loaded(_) => {
                        return Err(format!(
                            "the reader failed with {:?} at byte {} of {}, but loading succeeded",
                            kind,
                            at,
                            b.len()
                        ))
                    }
                    Outcome::Rejected { line, .. } => {
                        // Only for a complete line before the failure.
                        let complete = b[..at].iter().filter(|c| **c == b'\n').count();
                        let blame = line.map_or(false, |l| l < complete);
                        ensure!(
                            blame && got == want,
                            "the reader failed with {:?} at byte {} of {}, but loading reports {} (from memory: {})",
                            kind,
                            at,
                            b.len(),
                            brief(&got),
                            brief(&want)
                        );
                        cx.label("earlier defect reported");
                    }
                }
                cx.comparisons += 1;
            }
            cx.nontrivial = true;
            cx.label_if(again, "error for good");
            cx.label_if(at == b.len(), "error in place of the end");
        }
        Ok(())
    }
}
