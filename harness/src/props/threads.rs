//! C20: several threads at once.

use super::life;
use crate::{common::*, engine::*, model::*};
use bvh_anim::{frames::*, write::*, *};
use serde::{Deserialize, Serialize};
use std::sync::{
    atomic::{AtomicU32, Ordering},
    Barrier,
};

/// Whether a type has a property, as a value (so that a type that loses it is
/// a violation of this property and not an error of all checks).
macro_rules! has {
    ($t:ty: $b:path) => {{
        struct Probe<T: ?Sized>(std::marker::PhantomData<T>);
        #[allow(dead_code)]
        trait No {
            const HAS: bool = false;
        }
        impl<T: ?Sized> No for Probe<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + $b> Probe<T> {
            const HAS: bool = true;
        }
        <Probe<$t>>::HAS
    }};
}

macro_rules! table {
    ($($t:ty),* $(,)?) => {
        [$((stringify!($t), has!($t: Send), has!($t: Sync))),*]
    };
}

fn shareable() -> Result<(), String> {
    let t = table!(
        Bvh, Joint<'static>, Joints<'static>, Frame<'static>, FrameMut<'static>, Frames<'static>,
        FramesMut<'static>, FrameCursor<'static>, Channel, ChannelType, Axis, WriteOptions, IndentStyle,
        LineTerminator, errors::LoadError, errors::LoadErrorKind, errors::LoadJointsError, errors::LoadMotionError,
        errors::ParseChannelError, errors::FrameInsertError, errors::FrameRemoveError, errors::SetMotionError,
    );
    for (name, send, sync) in t {
        if !send {
            return Err(format!("{} cannot be sent to another thread", name));
        }
        if !sync {
            return Err(format!("{} cannot be shared between threads", name));
        }
    }
    Ok(())
}

/// Lends a value to other threads whatever its type says: that is judged by
/// `shareable`, which runs first.
struct Lent<'a, T>(&'a T);
unsafe impl<T> Sync for Lent<'_, T> {}
unsafe impl<T> Send for Lent<'_, T> {}
impl<T> Clone for Lent<'_, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Lent<'_, T> {}
impl<'a, T> Lent<'a, T> {
    fn get(self) -> &'a T {
        self.0
    }
}

/// How often each case is run on threads; more when a case is run alone.
pub static ROUNDS: AtomicU32 = AtomicU32::new(3);

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Job {
    /// Loaded, whatever comes of it.
    pub text: Bytes,
    pub chunks: Vec<u32>,
    pub history: life::Case,
    pub opts: Opts,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    /// Read by all.
    pub shared: Anim,
    pub jobs: Vec<Job>,
}

/// What a thread sees of an animation that it only reads.
fn read(b: &Bvh, j: &Job) -> (Obs, Vec<u8>, String, Vec<Vec<usize>>) {
    let mut kids = Vec::new();
    for joint in b.joints() {
        let mut k: Vec<usize> = joint.children().map(|c| c.index()).collect();
        k.extend(joint.parent().map(|p| p.index()));
        k.extend(b.joints().find_by_name(joint.name()).map(|f| f.index()));
        kids.push(k);
    }
    let c = b.clone();
    let same = c == *b;
    (observe(b), j.opts.build().write_to_string(b), format!("{:?} {}", b, same), kids)
}

fn load(j: &Job) -> (Outcome, Outcome) {
    let plan = ReadPlan { chunks: j.chunks.clone(), interrupt_every: 3, fault: None };
    let a = bvh_anim::from_bytes(&j.text.0);
    let b = bvh_anim::from_reader(PlannedReader::new(&j.text.0, &plan));
    let r = (outcome(&a), outcome(&b));
    for e in [a.err(), b.err()].into_iter().flatten() {
        let _ = exercise_error(e);
    }
    r
}

pub struct C20;
impl Prop for C20 {
    type Case = Case;
    const ID: &'static str = "C20";
    const CASES: (u64, u64) = (10_000, 300_000);
    const RULE: &'static str = "A case is an animation that all threads read (observe, walk, clone, compare, print, write \
with their own options) and, for each of 2 to 8 threads, a history of edits, writes and reloads of its own and a text, \
well-formed or mutated, that is loaded; everything is done first on one thread, then by all at once, three times over, \
and every result compared. Non-trivial: the threads have different texts, of which one loads.";
    fn gen(s: &mut Source) -> Case {
        let small = DocCfg { max_joints: 6, max_frames: 5, max_values: 100, ..DocCfg::SMALL };
        let shared = gen_anim(s, &small);
        let jobs = s.list(2, 8, 5, |s, _| Job {
            text: Bytes(if s.bool() {
                let d = gen_doc(s, &small);
                let l = gen_layout(s);
                render(&d, &l)
            } else {
                gen_mutant(s, &small).0
            }),
            chunks: gen_chunks(s),
            history: life::Case { ops: s.list(1, 10, 4, |s, i| life::gen_op(s, i)) },
            opts: if s.bool() { Opts::DEFAULT } else { gen_opts(s) },
        });
        Case { shared, jobs }
    }
    fn check(c: &Case, cx: &mut Cx) -> Verdict {
        shareable()?;
        let Some(shared) = c.shared.build() else {
            cx.discarded = true;
            return Ok(());
        };
        // One after the other; what fails here is for other properties.
        let mut want = Vec::new();
        for j in &c.jobs {
            let w = guard(|| {
                let mut inner = Cx::default();
                life::C19::check(&j.history, &mut inner).ok().map(|_| (load(j), read(&shared, j)))
            });
            match w {
                Ok(Some(w)) => want.push(w),
                _ => {
                    cx.discarded = true;
                    return Ok(());
                }
            }
        }
        let lent = Lent(&shared);
        let n = c.jobs.len();
        let one = |k: usize, turn: usize| -> Verdict {
            let (j, w) = (&c.jobs[k], &want[k]);
            for i in 0..3 {
                match (i + turn + k) % 3 {
                    0 => {
                        let l = load(j);
                        ensure!(l == w.0, "loading gives {} and {}; alone, {} and {}", brief(&l.0), brief(&l.1), brief(&w.0 .0), brief(&w.0 .1));
                    }
                    1 => {
                        life::C19::check(&j.history, &mut Cx::default()).map_err(|e| format!("a history that works alone: {}", e))?;
                    }
                    _ => {
                        let r = read(lent.get(), j);
                        diff(&r.0, &w.1 .0).map_err(|e| format!("an animation that all read: {}", e))?;
                        ensure!(r == w.1, "an animation that all read is written, printed or walked another way than alone");
                    }
                }
            }
            Ok(())
        };
        for round in 0..ROUNDS.load(Ordering::Relaxed) as usize {
            let gate = Barrier::new(n);
            let ends: Vec<Verdict> = std::thread::scope(|sc| {
                let hs: Vec<_> = (0..n)
                    .map(|k| {
                        let (gate, one) = (&gate, &one);
                        sc.spawn(move || {
                            gate.wait();
                            guard(|| one(k, round)).unwrap_or_else(Err)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("a thread panicked".into()))).collect()
            });
            for (k, e) in ends.into_iter().enumerate() {
                e.map_err(|e| format!("thread {} of {}, all at once: {}", k, n, e))?;
            }
            cx.comparisons += 3 * n as u64;
        }
        // And nothing of it stays behind.
        for k in 0..n {
            one(k, 0).map_err(|e| format!("on one thread, after several: {}", e))?;
        }
        let loads = want.iter().any(|w| matches!(w.0 .0, Outcome::Loaded(_)));
        cx.nontrivial = loads && c.jobs.windows(2).any(|w| w[0].text != w[1].text);
        cx.label(if n < 4 { "2 or 3 threads" } else { "4 to 8 threads" });
        cx.label_if(want.iter().any(|w| matches!(w.0 .0, Outcome::Rejected { .. })), "a text is rejected");
        Ok(())
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["The schedule is the operating system's; it is not enumerated."]
    }
}
