//! C21: what the caller supplies panics, misbehaves or calls back.

use super::cursor::{bits, Plain, Row};
use crate::{common::*, engine::*, model::*};
use bvh_anim::Bvh;
use serde::{Deserialize, Serialize};
use std::{
    cell::{Cell, RefCell},
    fmt,
    io::{self, BufRead, Read, Write},
};

/// What happens at some point of the caller's code.
#[derive(Clone, Copy, Debug, Hash, PartialEq, Eq, Serialize, Deserialize)]
pub enum Wild {
    No,
    Panics,
    /// Loads, edits and writes another animation.
    CallsBack,
    /// For frames: another length from the second look on.
    Changes(u8),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub enum Op {
    /// Inserts frames at a position; at the frame of this number, the iterator
    /// (`in_iter`) or the frame does something.
    Insert { at: u16, rows: Vec<Row>, wild: Wild, when: u8, in_iter: bool, one: bool },
    /// Loads a document from a reader that does something at some byte.
    Load { doc: Doc, layout: Layout, chunks: Vec<u32>, wild: Wild, when: u16 },
    /// Writes to a sink that does something at some byte, or when flushed.
    Write { opts: Opts, part: u16, wild: Wild, when: u16, in_flush: bool },
    /// Prints the animation, its joints or an error to a formatter that ends.
    Print { what: u8, room: u16, wild: Wild },
    /// A cursor or iterator is used and then leaked, or dropped by a panic.
    Leak { what: u8, steps: u8, panics: bool },
    Remove(u16),
    Set(u16, u16, u32),
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    pub start: Plain,
    pub ops: Vec<Op>,
}

/// A panic of ours.
struct Planned;
fn bang() -> ! {
    std::panic::panic_any(Planned)
}

/// Whether `f` ended by a panic of ours; others go on.
fn bounded<T>(f: impl FnOnce() -> T) -> Option<T> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Some(v),
        Err(p) if p.is::<Planned>() => None,
        Err(p) => std::panic::resume_unwind(p),
    }
}

thread_local! {
    /// What a call back found wrong.
    static WRONG: RefCell<Option<String>> = const { RefCell::new(None) };
    static CALLS: Cell<u32> = const { Cell::new(0) };
}

const OTHER: &str = "HIERARCHY\nROOT other\n{\n\tOFFSET 1.5 0.0 -2.0\n\tCHANNELS 2 Xposition Zrotation\n\tEnd Site\n\t{\n\t\tOFFSET 0.0 0.0 4.25\n\t}\n}\nMOTION\nFrames: 2\nFrame Time: 0.125\n1.0 2.0\n-3.5 4.0\n";

/// The caller's code using the library.
fn call_back() {
    CALLS.with(|c| c.set(c.get() + 1));
    let f = || -> Result<(), String> {
        let b = bvh_anim::from_str(OTHER).map_err(|e| format!("{}", e))?;
        let mut c = b.clone();
        c.frame_cursor().move_next().try_insert_frame(&[7.5f32, 8.0][..]).map_err(|e| e.to_string())?;
        let rows: Vec<Vec<f32>> = c.frames().map(|f| f.as_slice().to_vec()).collect();
        let want: &[&[f32]] = &[&[1.0, 2.0], &[7.5, 8.0], &[-3.5, 4.0]];
        ensure!(rows == want, "its frames are {:?}", rows);
        let again = bvh_anim::from_bytes(&b.to_string()).map_err(|e| format!("written: {}", e))?;
        ensure!(again == b && again != c, "it is not written and loaded as it was");
        ensure!(bvh_anim::from_str("HIERARCHY\nROOT x\n{\nOFFSET 1 y 2\n").is_err(), "a broken text loads");
        Ok(())
    };
    if let Err(e) = guard(f).unwrap_or_else(Err) {
        WRONG.with(|w| *w.borrow_mut() = Some(e));
    }
}

fn act(w: Wild) {
    match w {
        Wild::Panics => bang(),
        Wild::CallsBack => call_back(),
        _ => {}
    }
}

/// A frame with a will of its own.
struct Odd {
    values: Vec<f32>,
    other: Vec<f32>,
    wild: Wild,
    looks: Cell<u32>,
}
impl AsRef<[f32]> for Odd {
    fn as_ref(&self) -> &[f32] {
        let n = self.looks.get();
        self.looks.set(n + 1);
        act(self.wild);
        if matches!(self.wild, Wild::Changes(_)) && n > 0 {
            &self.other
        } else {
            &self.values
        }
    }
}

struct OddReader<'a> {
    data: &'a [u8],
    pos: usize,
    chunks: &'a [u32],
    calls: usize,
    wild: Wild,
    when: usize,
    done: bool,
}
impl BufRead for OddReader<'_> {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        if self.pos >= self.when && !self.done {
            self.done = true;
            act(self.wild);
        }
        let c = self.chunks.get(self.calls % self.chunks.len().max(1)).map_or(64, |c| *c as usize).max(1);
        self.calls += 1;
        let mut end = (self.pos + c).min(self.data.len());
        if !self.done {
            end = end.min(self.when.max(self.pos + 1));
        }
        Ok(&self.data[self.pos..end])
    }
    fn consume(&mut self, n: usize) {
        self.pos += n;
    }
}
impl Read for OddReader<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let b = self.fill_buf()?;
        let n = b.len().min(buf.len());
        buf[..n].copy_from_slice(&b[..n]);
        self.consume(n);
        Ok(n)
    }
}

struct OddSink {
    got: Vec<u8>,
    part: usize,
    wild: Wild,
    when: usize,
    in_flush: bool,
    done: bool,
}
impl Write for OddSink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if !self.in_flush && !self.done && self.got.len() >= self.when {
            self.done = true;
            act(self.wild);
        }
        let n = b.len().min(self.part.max(1));
        self.got.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        if self.in_flush && !self.done {
            self.done = true;
            act(self.wild);
        }
        Ok(())
    }
}

/// A formatter's target that takes so many bytes.
struct Room {
    got: String,
    room: usize,
    wild: Wild,
}
impl fmt::Write for Room {
    fn write_str(&mut self, t: &str) -> fmt::Result {
        act(self.wild);
        if self.got.len() + t.len() > self.room {
            return Err(fmt::Error);
        }
        self.got.push_str(t);
        Ok(())
    }
}

fn gen_wild(s: &mut Source, frames: bool) -> Wild {
    match s.upto(if frames { 4 } else { 3 }) {
        0 => Wild::No,
        1 | 2 => Wild::Panics,
        3 => Wild::CallsBack,
        _ => Wild::Changes(s.upto(9) as u8),
    }
}

fn gen_op(s: &mut Source) -> Op {
    match s.weighted(&[40, 10, 15, 10, 12, 10, 6]) {
        0 => {
            let rows = s.list(0, 8, 3, |s, _| Row::gen(s));
            Op::Insert {
                at: s.upto(8) as u16,
                when: s.upto(rows.len() as u64) as u8,
                rows,
                wild: gen_wild(s, true),
                in_iter: s.bool(),
                one: s.chance(1, 6),
            }
        }
        1 => {
            let cfg = DocCfg { max_joints: 5, max_frames: 4, max_values: 60, ..DocCfg::SMALL };
            Op::Load {
                doc: gen_doc(s, &cfg),
                layout: gen_layout(s),
                chunks: gen_chunks(s),
                wild: gen_wild(s, false),
                when: s.upto(500) as u16,
            }
        }
        2 => Op::Write {
            opts: if s.bool() { Opts::DEFAULT } else { gen_opts(s) },
            part: *s.pick(&[1000u16, 1, 7, 64]),
            wild: gen_wild(s, false),
            when: s.upto(600) as u16,
            in_flush: s.chance(1, 4),
        },
        3 => Op::Print {
            what: s.upto(5) as u8,
            room: s.upto(300) as u16,
            wild: gen_wild(s, false),
        },
        4 => Op::Leak { what: s.upto(5) as u8, steps: s.upto(6) as u8, panics: s.bool() },
        5 => Op::Remove(s.upto(8) as u16),
        _ => Op::Set(s.upto(8) as u16, s.upto(40) as u16, gen_f32_bits(s)),
    }
}

/// The frames, which have to be all there is.
fn rows_of(b: &Bvh) -> Result<Vec<Vec<u32>>, String> {
    let n = b.num_channels();
    let rows: Vec<Vec<u32>> = b.frames().map(|f| bits(f.as_slice())).collect();
    for (i, r) in rows.iter().enumerate() {
        ensure!(r.len() == n, "frame {} has {} values of {}", i, r.len(), n);
    }
    ensure!(b.frames().len() == rows.len(), "{} frames are announced, and {} come", b.frames().len(), rows.len());
    let all = bits(&b.clone().extract_frames());
    let flat: Vec<u32> = rows.iter().flatten().copied().collect();
    ensure!(all == flat, "{} values in {} frames of {}", all.len(), rows.len(), n);
    Ok(rows)
}

fn to(c: &mut bvh_anim::frames::FrameCursor<'_>, at: usize) {
    c.move_first();
    for _ in 0..at {
        c.move_next();
    }
}

pub struct C21;
impl Prop for C21 {
    type Case = Case;
    const ID: &'static str = "C21";
    const CASES: (u64, u64) = (1_000_000, 10_000_000);
    const RULE: &'static str = "A case is an animation and up to 12 operations in which code of the caller panics, calls \
the library itself, or changes its answers, at a chosen point (an iterator of frames, a frame's AsRef, a reader, a sink, \
a formatter), or in which a cursor or iterator is leaked or dropped by a panic; after each, the frames are compared with \
a model. Non-trivial: a panic or a call back happened within an operation of the library.";
    fn gen(s: &mut Source) -> Case {
        Case { start: Plain::gen(s, 6), ops: s.list(1, 12, 4, |s, _| gen_op(s)) }
    }
    fn check(c: &Case, cx: &mut Cx) -> Verdict {
        let Some(mut b) = c.start.build() else {
            cx.discarded = true;
            return Ok(());
        };
        let mut skeleton = observe_joints(&b);
        let mut time = *b.frame_time();
        let mut rows = rows_of(&b)?;
        for (i, op) in c.ops.iter().enumerate() {
            let n = b.num_channels();
            let what = format!("operation {} ({})", i, format!("{:?}", op).chars().take(200).collect::<String>());
            CALLS.with(|c| c.set(0));
            let mut hit = false;
            match op {
                Op::Insert { at, rows: new, wild, when, in_iter, one } => {
                    let at = if rows.is_empty() { 0 } else { *at as usize % (rows.len() + 1) };
                    let odd: Vec<Odd> = new
                        .iter()
                        .enumerate()
                        .map(|(k, r)| Odd {
                            values: r.values(n),
                            other: r.values(match wild {
                                Wild::Changes(m) => *m as usize,
                                _ => n,
                            }),
                            wild: if !*in_iter && k == *when as usize { *wild } else { Wild::No },
                            looks: Cell::new(0),
                        })
                        .collect();
                    let r = bounded(|| {
                        let mut cur = b.frame_cursor();
                        to(&mut cur, at);
                        if *one {
                            match odd.first() {
                                Some(f) => cur.try_insert_frame(f).map(|_| ()),
                                None => Ok(()),
                            }
                        } else {
                            let it = odd.iter().enumerate().map(|(k, f)| {
                                if *in_iter && k == *when as usize {
                                    act(*wild);
                                }
                                f
                            });
                            cur.try_insert_frames(it).map(|_| ())
                        }
                        .map_err(|e| e.to_string())
                    });
                    let news: Vec<Vec<u32>> = odd.iter().take(if *one { 1 } else { 99 }).map(|o| bits(&o.values)).collect();
                    let after = rows_of(&b).map_err(|e| format!("{}: {}", what, e))?;
                    hit = r.is_none();
                    let whole = |k: usize| {
                        let mut m = rows.clone();
                        m.splice(at..at, news[..k].iter().cloned());
                        m
                    };
                    if n == 0 {
                        ensure!(after.is_empty(), "{}: frames without channels", what);
                    } else if matches!((wild, &r), (Wild::Changes(_), _)) && !in_iter {
                        // Whatever is there of the new frames, the others stay.
                        let k = after.len().checked_sub(rows.len());
                        ensure!(k.map_or(false, |k| k <= news.len()), "{}: {} frames of {}", what, after.len(), rows.len());
                        let k = k.unwrap();
                        ensure!(
                            after[..at] == rows[..at] && after[at + k..] == rows[at..],
                            "{}: frames beside the new ones changed",
                            what
                        );
                        cx.label("frame changes");
                    } else {
                        match r {
                            Some(Ok(())) => ensure!(after == whole(news.len()), "{}: other frames than those inserted", what),
                            Some(Err(ref e)) => ensure!(false, "{}: {}", what, e),
                            None => {
                                let first = (*when as usize).min(news.len());
                                ensure!(
                                    (0..=first).any(|k| after == whole(k)),
                                    "{}: after the panic the frames are neither the old nor some of the new at their place",
                                    what
                                );
                                cx.label("panic while inserting");
                            }
                        }
                    }
                    rows = after;
                }
                Op::Load { doc, layout, chunks, wild, when } => {
                    let t = render(doc, layout);
                    let rd = OddReader {
                        data: &t,
                        pos: 0,
                        chunks,
                        calls: 0,
                        wild: *wild,
                        when: *when as usize % (t.len() + 1),
                        done: false,
                    };
                    match bounded(|| bvh_anim::from_reader(rd)) {
                        None => {
                            hit = true;
                            cx.label("panic while loading");
                        }
                        Some(r) => {
                            b = r.map_err(|e| format!("{}: {}", what, e))?;
                            let o = observe(&b);
                            diff(&o, &doc.expected()).map_err(|e| format!("{}: {}", what, e))?;
                            rows = rows_of(&b).map_err(|e| format!("{}: {}", what, e))?;
                            skeleton = o.joints;
                            time = o.frame_time;
                        }
                    }
                }
                Op::Write { opts, part, wild, when, in_flush } => {
                    let o = opts.build();
                    let want = o.write_to_string(&b);
                    let mut sink = OddSink {
                        got: vec![],
                        part: *part as usize,
                        wild: *wild,
                        when: *when as usize,
                        in_flush: *in_flush,
                        done: false,
                    };
                    match bounded(|| o.write(&b, &mut sink)) {
                        None => {
                            hit = true;
                            ensure!(want.starts_with(&sink.got), "{}: before the panic the sink got something else", what);
                            cx.label("panic while writing");
                        }
                        Some(r) => {
                            r.map_err(|e| format!("{}: {}", what, e))?;
                            ensure!(sink.got == want, "{}: the sink got another text", what);
                        }
                    }
                    ensure!(o.write_to_string(&b) == want, "{}: afterwards another text is written", what);
                }
                Op::Print { what: k, room, wild } => {
                    let e = bvh_anim::from_str("HIERARCHY\nROOT r\n{\nOFFSET 0 0 0\nCHANNELS 1 Wposition\n}\n").err();
                    let print = |w: &mut dyn fmt::Write| match (k, &e) {
                        (0, Some(e)) => write!(w, "{}", e),
                        (1, Some(e)) => write!(w, "{:?}", e),
                        (2, _) => write!(w, "{:#?}", b.root_joint()),
                        (3, _) => write!(w, "{:?}", b.joints()),
                        (4, _) => b.joints().try_for_each(|j| j.channels().iter().try_for_each(|c| write!(w, "{} ", c.channel_type()))),
                        _ => write!(w, "{:?}", b),
                    };
                    let mut all = String::new();
                    print(&mut all).map_err(|e| format!("{}: {}", what, e))?;
                    let mut w = Room { got: String::new(), room: *room as usize, wild: *wild };
                    match bounded(|| print(&mut w)) {
                        None => {
                            hit = true;
                            cx.label("panic while printing");
                        }
                        Some(r) => {
                            ensure!(
                                r.is_ok() == (all.len() <= *room as usize),
                                "{}: {:?} for {} bytes where there is room for {}",
                                what, r, all.len(), room
                            );
                            cx.label_if(r.is_err(), "formatter fails");
                        }
                    }
                    ensure!(all.starts_with(&w.got), "{}: something else is printed", what);
                }
                Op::Leak { what: k, steps, panics } => {
                    let steps = *steps as usize;
                    bounded(|| {
                        macro_rules! end {
                            ($v:expr) => {{
                                let v = $v;
                                if *panics {
                                    let _v = v;
                                    bang();
                                } else {
                                    std::mem::forget(v);
                                }
                            }};
                        }
                        match k {
                            0 => {
                                let mut cur = b.frame_cursor();
                                for s in 0..steps {
                                    if s == 3 {
                                        cur.move_prev();
                                    } else {
                                        cur.move_next();
                                    }
                                }
                                let _ = cur.peek_next_mut();
                                end!(cur)
                            }
                            1 => {
                                // A real edit, which must not depend on the drop.
                                let at = rows.len().min(1);
                                let new = Row { tag: 3, exotic: false };
                                let mut cur = b.frame_cursor();
                                to(&mut cur, at);
                                let _ = cur.try_insert_frame(&new.values(n));
                                if n > 0 {
                                    rows.insert(at, bits(&new.values(n)));
                                }
                                end!(cur)
                            }
                            2 => {
                                let mut it = b.frames_mut();
                                for _ in 0..steps {
                                    it.next_back();
                                }
                                let f = it.next();
                                std::mem::forget(f);
                                end!(it)
                            }
                            3 => end!(b.frames().skip(steps)),
                            4 => {
                                let mut it = b.joints_mut();
                                let j = (0..=steps).filter_map(|_| it.next()).last();
                                end!((j, it))
                            }
                            _ => {
                                let f: Vec<_> = b.frames_mut().collect();
                                end!(f)
                            }
                        }
                    });
                    hit = *panics;
                    cx.label(if *panics { "dropped by a panic" } else { "leaked" });
                }
                Op::Remove(at) => {
                    let at = *at as usize % (rows.len() + 1);
                    let mut cur = b.frame_cursor();
                    to(&mut cur, at);
                    match cur.remove_frame() {
                        Ok(_) => {
                            ensure!(at < rows.len(), "{}: removed a frame at the end", what);
                            rows.remove(at);
                        }
                        Err(_) => ensure!(at >= rows.len(), "{}: frame {} of {} was not removed", what, at, rows.len()),
                    }
                }
                Op::Set(f, ch, v) => {
                    if !rows.is_empty() && n > 0 {
                        let (f, ch) = (*f as usize % rows.len(), *ch as usize % n);
                        let v = f32::from_bits(*v);
                        let mut it = b.frames_mut();
                        let Some(mut frame) = it.nth(f) else {
                            return Err(format!("{}: there is no frame {} of {}", what, f, rows.len()));
                        };
                        frame.as_mut_slice()[ch] = v;
                        rows[f][ch] = canon(v);
                    }
                }
            }
            if let Some(e) = WRONG.with(|w| w.borrow_mut().take()) {
                return Err(format!("{}: the library, called from within: {}", what, e));
            }
            let calls = CALLS.with(|c| c.get());
            cx.label_if(calls > 0, "called back");
            cx.nontrivial |= hit || calls > 0;
            let got = rows_of(&b).map_err(|e| format!("after {}: {}", what, e))?;
            diff_rows(&got, &rows).map_err(|e| format!("after {}: {}", what, e))?;
            diff_joints(&observe_joints(&b), &skeleton).map_err(|e| format!("after {}: {}", what, e))?;
            ensure!(*b.frame_time() == time, "after {}: another frame time", what);
            cx.comparisons += 3;
        }
        Ok(())
    }
    fn assumptions() -> Vec<&'static str> {
        vec!["Panics unwind; how many of the frames before a panic were inserted is left open."]
    }
}
