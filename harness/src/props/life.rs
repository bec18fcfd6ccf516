//! C19: histories of loads, edits, writes and reloads.

use super::value::{act, check_eq, gen_act, Act};
use super::write::rounded;
use crate::{common::*, engine::*, model::*};
use bvh_anim::Bvh;
use serde::{Deserialize, Serialize};
use std::io::{self, BufReader, Write};
use std::convert::TryFrom;

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    Load { slot: u8, doc: Doc, layout: Layout, via: u8 },
    /// An attempt to load something else, whose outcome goes away.
    Attempt(Bytes),
    Act(u8, Act),
    /// Frames of one animation inserted into another, where they fit.
    Graft { from: u8, to: u8, at: u16 },
    Clone { from: u8, to: u8 },
    Swap { a: u8, b: u8 },
    Reload { slot: u8, to: u8, opts: Opts, sink: u8, chunks: Vec<u32> },
    /// Writing to a sink that fails.
    WriteFails { slot: u8, after: u16 },
    Reset(u8),
    Compare { a: u8, b: u8 },
    /// An iterator that is taken a few steps and dropped.
    Peek { slot: u8, steps: u8, mutable: bool },
    Print(u8),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    pub ops: Vec<Op>,
}

const SLOTS: usize = 3;

struct Trickle(Vec<u8>, usize);
impl Write for Trickle {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = b.len().min(self.1.max(1));
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
struct Failing(usize);
impl Write for Failing {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.0 == 0 && !b.is_empty() {
            return Err(io::Error::new(io::ErrorKind::Other, "planned fault"));
        }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

pub fn gen_op(s: &mut Source, i: usize) -> Op {
    fn slot(s: &mut Source) -> u8 {
        s.weighted(&[60, 25, 15]) as u8
    }
    let cfg = DocCfg { max_joints: 8, max_frames: 5, max_values: 120, ..DocCfg::SMALL };
    let what = if i == 0 { 0 } else { s.weighted(&[8, 40, 6, 8, 3, 22, 4, 1, 5, 5, 3, 4]) };
    match what {
        0 => Op::Load { slot: slot(s), doc: gen_doc(s, &cfg), layout: gen_layout(s), via: s.upto(5) as u8 },
        1 => Op::Act(slot(s), gen_act(s, false)),
        2 => Op::Graft { from: slot(s), to: slot(s), at: s.upto(6) as u16 },
        3 => Op::Clone { from: slot(s), to: slot(s) },
        4 => Op::Swap { a: slot(s), b: slot(s) },
        5 => Op::Reload {
            slot: slot(s),
            to: slot(s),
            opts: if s.bool() { Opts::DEFAULT } else { gen_opts(s) },
            sink: s.upto(3) as u8,
            chunks: gen_chunks(s),
        },
        6 => Op::WriteFails { slot: slot(s), after: s.upto(400) as u16 },
        7 => Op::Reset(slot(s)),
        8 => Op::Compare { a: slot(s), b: slot(s) },
        9 => Op::Peek { slot: slot(s), steps: s.upto(6) as u8, mutable: s.bool() },
        10 => Op::Print(slot(s)),
        _ => Op::Attempt(Bytes(gen_mutant(s, &cfg).0)),
    }
}

fn empty() -> Obs {
    Obs { joints: vec![], num_channels: 0, rows: vec![], frame_time: Default::default() }
}

pub struct C19;
impl Prop for C19 {
    type Case = Case;
    const ID: &'static str = "C19";
    const CASES: (u64, u64) = (600_000, 6_000_000);
    const RULE: &'static str = "A case is a history of up to 25 operations on three animations (loading documents \
in any layout through any entry point, failing loads and writes, cursor and frame edits, frame time, extraction, \
grafting, cloning, swapping, writing with any options to any sink and loading the text again); after each, all \
three are compared with a model of tree, rows and frame time. Non-trivial: a reload after an edit.";
    fn gen(s: &mut Source) -> Case {
        let max = if s.tier > 0 && s.chance(1, 10) { 120 } else { 25 };
        Case { ops: s.list(1, max, 13, |s, i| gen_op(s, i)) }
    }
    fn check(c: &Case, cx: &mut Cx) -> Verdict {
        let mut live: Vec<Bvh> = (0..SLOTS).map(|_| Bvh::new()).collect();
        let mut model: Vec<Obs> = (0..SLOTS).map(|_| empty()).collect();
        let mut edited = [false; SLOTS];
        let at = |s: u8| s as usize % SLOTS;
        for (i, op) in c.ops.iter().enumerate() {
            let what = || {
                let t: String = format!("{:?}", op).chars().take(200).collect();
                format!("operation {} ({})", i, t)
            };
            match op {
                Op::Load { slot, doc, layout, via } => {
                    let t = render(doc, layout);
                    let s = std::str::from_utf8(&t);
                    let b = match (via, s) {
                        (1, Ok(s)) => bvh_anim::from_str(s),
                        (2, Ok(s)) => s.parse(),
                        (3, Ok(s)) => Bvh::try_from(s),
                        (3, _) => Bvh::try_from(&t[..]),
                        (4, _) => bvh_anim::from_reader(&t[..]),
                        (5, _) => bvh_anim::from_reader(BufReader::with_capacity(7, &t[..])),
                        _ => bvh_anim::from_bytes(&t),
                    }
                    .map_err(|e| format!("{}: {}", what(), e))?;
                    live[at(*slot)] = b;
                    model[at(*slot)] = doc.expected();
                    edited[at(*slot)] = false;
                }
                Op::Attempt(b) => match bvh_anim::from_bytes(&b.0) {
                    Ok(b) => {
                        consistent(&b).map_err(|e| format!("{}: {}", what(), e))?;
                        cx.label("attempt succeeded");
                    }
                    Err(e) => {
                        exercise_error(e).map_err(|e| format!("{}: {}", what(), e))?;
                        cx.label("attempt failed");
                    }
                },
                Op::Act(slot, a) => {
                    let k = at(*slot);
                    act(&mut live[k], &mut model[k], a).map_err(|e| format!("{}: {}", what(), e))?;
                    edited[k] = true;
                }
                Op::Graft { from, to, at: pos } => {
                    let src = live[at(*from)].clone();
                    let rows = model[at(*from)].rows.clone();
                    let (b, m) = (&mut live[at(*to)], &mut model[at(*to)]);
                    let pos = *pos as usize % (m.rows.len() + 1);
                    let fs: Vec<_> = src.frames().collect();
                    let mut cur = b.frame_cursor();
                    for _ in 0..pos {
                        cur.move_next();
                    }
                    let fits = rows.iter().all(|r| r.len() == m.num_channels);
                    match cur.try_insert_frames(&fs).map(|_| ()) {
                        Ok(()) => {
                            ensure!(fits, "{}: frames of another size were accepted", what());
                            let end = cur.index();
                            ensure!(end == pos + rows.len(), "{}: the cursor is at {}", what(), end);
                            m.rows.splice(pos..pos, rows);
                            edited[at(*to)] = true;
                            cx.label("grafted");
                        }
                        Err(e) => ensure!(!fits, "{}: {}", what(), e),
                    }
                }
                Op::Clone { from, to } => {
                    if i % 2 == 0 {
                        live[at(*to)] = live[at(*from)].clone();
                    } else {
                        let c = live[at(*from)].clone();
                        live[at(*to)].clone_from(&c);
                    }
                    model[at(*to)] = model[at(*from)].clone();
                    edited[at(*to)] = edited[at(*from)];
                }
                Op::Swap { a, b } => {
                    live.swap(at(*a), at(*b));
                    model.swap(at(*a), at(*b));
                    edited.swap(at(*a), at(*b));
                }
                Op::Reload { slot, to, opts, sink, chunks } => {
                    let k = at(*slot);
                    let b = &live[k];
                    let o = opts.build();
                    let default = *opts == Opts::DEFAULT && !cfg!(windows);
                    let text = match sink {
                        0 if default => b.to_string(),
                        1 if default => {
                            let mut v = Vec::new();
                            b.write_to(&mut v).map_err(|e| format!("{}: {}", what(), e))?;
                            v
                        }
                        2 => {
                            let mut t = Trickle(Vec::new(), 1 + i % 9);
                            o.write(b, &mut t).map_err(|e| format!("{}: {}", what(), e))?;
                            t.0
                        }
                        3 => {
                            let mut w = io::BufWriter::with_capacity(16, Vec::new());
                            o.write(b, &mut w).map_err(|e| format!("{}: {}", what(), e))?;
                            w.into_inner().map_err(|_| "harness: BufWriter".to_string())?
                        }
                        _ => o.write_to_string(b),
                    };
                    if model[k].joints.is_empty() {
                        // Not a document.
                        continue;
                    }
                    let plan = ReadPlan { chunks: chunks.clone(), interrupt_every: 0, fault: None };
                    let again = bvh_anim::from_reader(PlannedReader::new(&text, &plan))
                        .map_err(|e| format!("{}: loading what was written: {}", what(), e))?;
                    let m = rounded(&model[k], opts);
                    live[at(*to)] = again;
                    model[at(*to)] = m;
                    cx.nontrivial |= edited[k];
                    cx.label_if(edited[k], "reloaded after an edit");
                    edited[at(*to)] = edited[k];
                }
                Op::WriteFails { slot, after } => {
                    let b = &live[at(*slot)];
                    let n = b.to_string().len();
                    let r = b.write_to(&mut Failing(*after as usize));
                    ensure!(r.is_err() == (n > *after as usize), "{}: {:?} for a text of {} bytes", what(), r, n);
                    cx.label_if(r.is_err(), "writing failed");
                }
                Op::Reset(slot) => {
                    live[at(*slot)] = if i % 2 == 0 { Bvh::new() } else { Bvh::default() };
                    model[at(*slot)] = empty();
                    edited[at(*slot)] = false;
                }
                Op::Compare { a, b } => {
                    let (a, b) = (at(*a), at(*b));
                    check_eq(&live[a], &model[a], &live[b], &model[b], &what(), cx)?;
                }
                Op::Peek { slot, steps, mutable } => {
                    let k = at(*slot);
                    let m = &model[k];
                    if *mutable {
                        let mut it = live[k].frames_mut();
                        for s in 0..*steps {
                            if s % 2 == 0 {
                                it.next();
                            } else {
                                it.next_back();
                            }
                        }
                        let left = m.rows.len().saturating_sub(*steps as usize);
                        ensure!(it.len() == left, "{}: {} frames left", what(), it.len());
                    } else {
                        let n = live[k].joints().skip(*steps as usize).count();
                        ensure!(n == m.joints.len().saturating_sub(*steps as usize), "{}: {} joints left", what(), n);
                        let r = live[k].root_joint().map(|r| Bytes(r.name().to_vec()));
                        ensure!(r == m.joints.first().map(|j| j.name.clone()), "{}: the root is {:?}", what(), r);
                    }
                }
                Op::Print(slot) => {
                    let _ = (format!("{:?}", live[at(*slot)]), live[at(*slot)].to_string());
                }
            }
            for k in 0..SLOTS {
                diff(&observe(&live[k]), &model[k])
                    .map_err(|e| format!("after {}: animation {}: {}", what(), k, e))?;
            }
            cx.comparisons += SLOTS as u64;
        }
        Ok(())
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["Frame times stay below a million seconds, beyond which nanoseconds do not fit a double."]
    }
}
