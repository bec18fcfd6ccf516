//! C15: joint navigation against the tree of the document.

use super::load::{doc_labels, small_trees};
use crate::{engine::*, model::*};
use bvh_anim::{Bvh, Joint};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Lookup {
    /// The joint whose name is taken, changed by `change`.
    pub of: u32,
    pub change: u8,
    /// How many joints are consumed first.
    pub after: u32,
    /// Among the children of this joint instead of all joints.
    pub below: Option<u32>,
}

#[derive(Clone, Debug, Hash, Serialize, Deserialize)]
pub struct Case {
    /// `None`: an animation without joints.
    pub doc: Option<Doc>,
    /// What is done with the animation first.
    pub via: u8,
    pub lookups: Vec<Lookup>,
}

fn name(of: &[u8], change: u8) -> Vec<u8> {
    let mut n = of.to_vec();
    match change {
        0 => {}
        1 => {
            n.pop();
        }
        2 => n.push(b'x'),
        3 => n.iter_mut().for_each(|b| b.make_ascii_uppercase()),
        4 => n.iter_mut().for_each(|b| b.make_ascii_lowercase()),
        5 => n.clear(),
        6 => n.insert(0, b' '),
        _ => {
            n.remove(0);
        }
    }
    n
}

fn idx<'a>(it: impl Iterator<Item = Joint<'a>>) -> Vec<usize> {
    it.map(|j| j.index()).collect()
}

fn check_tree(bvh: &mut Bvh, names: &[Bytes], parents: &[Option<usize>], sites: &[bool], cx: &mut Cx) -> Verdict {
    let n = names.len();
    let all: Vec<usize> = (0..n).collect();
    // All joints, in order and once.
    {
        let mut it = bvh.joints();
        let mut got = Vec::new();
        while let Some(j) = it.next() {
            got.push(j.index());
            ensure!(got.len() <= n, "more than {} joints", n);
        }
        ensure_eq!(got, all, "the joints");
        for _ in 0..3 {
            ensure!(it.next().is_none(), "a joint after the last");
        }
        let (lo, hi) = bvh.joints().size_hint();
        ensure!(lo <= n && hi.map_or(true, |h| h >= n), "size hint {:?} of {} joints", (lo, hi), n);
        for k in [0, 1, n / 2, n.saturating_sub(1), n, n + 1] {
            ensure_eq!(bvh.joints().nth(k).map(|j| j.index()), all.get(k).copied(), "nth({})", k);
        }
        ensure_eq!(bvh.joints().count(), n, "count of joints");
        ensure_eq!(bvh.joints().last().map(|j| j.index()), n.checked_sub(1), "last joint");
    }
    // Mutably.
    {
        let mut it = bvh.joints_mut();
        let _ = format!("{:?} {:#?}", it, it);
        let mut k = 0;
        while it.next().is_some() {
            k += 1;
            ensure!(k <= n, "joints_mut yields more than {} joints", n);
        }
        ensure_eq!(k, n, "joints yielded by joints_mut");
        for _ in 0..3 {
            ensure!(it.next().is_none(), "joints_mut yields a joint after the last");
        }
        ensure_eq!(bvh.joints_mut().count(), n, "count of joints_mut");
    }
    let bvh = &*bvh;
    // The root.
    match bvh.root_joint() {
        None => ensure!(n == 0, "no root joint, but {} joints", n),
        Some(r) => {
            ensure!(n > 0, "a root joint, but no joints");
            ensure_eq!(r.index(), 0, "index of the root");
            ensure_eq!(r.name(), &names[0].0[..], "name of the root");
            ensure_eq!(r.parent_index(), None, "parent of the root");
            ensure!(r.parent().is_none(), "the root has a parent");
            ensure!(r.is_root() && !r.is_child(), "flags of the root");
            ensure_eq!(r.has_end_site(), sites[0], "end site flag of the root");
        }
    }
    // Each joint.
    let mut kids: Vec<Vec<usize>> = vec![Vec::new(); n];
    for (i, p) in parents.iter().enumerate() {
        if let Some(p) = p {
            kids[*p].push(i);
        }
    }
    // Iterating over children is linear in the number of joints.
    let step = if n > 1000 { n / 40 } else if n > 120 { 7 } else { 1 };
    for (i, j) in bvh.joints().enumerate() {
        ensure_eq!(j.name(), &names[i].0[..], "name of joint {}", i);
        ensure_eq!(j.parent_index(), parents[i], "parent_index of joint {}", i);
        ensure_eq!(j.is_root(), i == 0, "is_root of joint {}", i);
        ensure_eq!(j.is_child(), i != 0, "is_child of joint {}", i);
        ensure_eq!(j.has_end_site(), sites[i], "has_end_site of joint {}", i);
        ensure_eq!(j.end_site().is_some(), sites[i], "presence of end_site of joint {}", i);
        let p = j.parent();
        ensure_eq!(p.as_ref().map(|p| p.index()), parents[i], "parent of joint {}", i);
        if let (Some(p), Some(pi)) = (p, parents[i]) {
            ensure_eq!(p.name(), &names[pi].0[..], "name of the parent of joint {}", i);
            ensure_eq!(p.parent_index(), parents[pi], "grandparent of joint {}", i);
            if i % step == 0 {
                ensure_eq!(idx(p.children()), kids[pi], "children of the parent of joint {}", i);
            }
        }
        if i % step == 0 {
            let mut it = j.children();
            let got = idx(it.by_ref());
            ensure_eq!(got, kids[i], "children of joint {}", i);
            ensure!(it.next().is_none() && it.next().is_none(), "a child of joint {} after the last", i);
            ensure_eq!(j.children().count(), kids[i].len(), "number of children of joint {}", i);
            for c in j.children() {
                ensure_eq!(c.parent_index(), Some(i), "parent of child {} of joint {}", c.index(), i);
                ensure_eq!(c.name(), &names[c.index()].0[..], "name of child {} of joint {}", c.index(), i);
            }
            let (lo, hi) = j.children().size_hint();
            let k = kids[i].len();
            ensure!(lo <= k && hi.map_or(true, |h| h >= k), "size hint {:?} of {} children", (lo, hi), k);
        }
        let floats = j.offset().iter().chain(j.end_site().into_iter().flatten());
        if (n <= 1000 || i % step == 0) && floats.clone().all(|v| !v.is_nan()) {
            let again = bvh.joints().nth(i).unwrap();
            ensure!(j == again, "joint {} does not equal itself", i);
        }
        if i < 20 {
            let _ = (format!("{:?}", j), format!("{:#?}", j), format!("{:?}", j.children()));
        }
        cx.comparisons += 1;
    }
    // Down the tree and up again.
    if n > 0 && n <= 120 {
        let mut order = Vec::new();
        let mut path = vec![0usize];
        fn down(j: &Joint<'_>, path: &mut Vec<usize>, order: &mut Vec<usize>, left: &mut usize) {
            order.push(j.index());
            *left = left.saturating_sub(1);
            if *left == 0 {
                return;
            }
            for c in j.children() {
                path.push(c.index());
                down(&c, path, order, left);
                path.pop();
            }
        }
        let mut left = 4 * n;
        down(&bvh.root_joint().unwrap(), &mut path, &mut order, &mut left);
        ensure_eq!(order, all, "joints below the root, depth first");
    }
    let _ = (format!("{:?}", bvh.joints()), format!("{:?}", bvh.root_joint()));
    if n < 40 {
        let _ = (format!("{:?}", bvh), format!("{:#?}", bvh));
    }
    Ok(())
}

pub struct C15;
impl Prop for C15 {
    type Case = Case;
    const ID: &'static str = "C15";
    const CASES: (u64, u64) = (450_000, 4_500_000);
    const RULE: &'static str = "A case is the skeleton of a random document (1 to 400 joints in any tree shape), \
or an empty animation; as loaded, cloned, written and loaded again, or after its frames were taken away. All \
navigation is compared with the tree of the document, and up to 8 names are looked up, in fresh and in partly \
consumed iterators and among children. Non-trivial: at least three joints.";
    fn gen(s: &mut Source) -> Case {
        let cfg = DocCfg { max_joints: if s.chance(1, 40) { 400 } else { 60 }, ..DocCfg::SMALL };
        let mut doc = gen_doc(s, &cfg);
        doc.motion = MotionDoc::Bulk { frames: s.upto(2) as u32, seed: 1 };
        let via = s.upto(4) as u8;
        let doc = if s.chance(1, 200) { None } else { Some(doc) };
        let n = doc.as_ref().map_or(1, |d| d.joints.len());
        let lookups = s.list(0, 8, 4, |s, _| Lookup {
            of: s.below(n) as u32,
            change: s.weighted(&[60, 8, 8, 6, 6, 4, 4, 4]) as u8,
            after: if s.bool() { 0 } else { s.range(0, n + 2) as u32 },
            below: if s.chance(1, 4) { Some(s.below(n) as u32) } else { None },
        });
        Case { doc, via, lookups }
    }
    fn check(c: &Case, cx: &mut Cx) -> Verdict {
        let mut bvh = match c.doc {
            None => match c.via {
                0 => Bvh::new(),
                1 => Bvh::default(),
                2 => bvh_anim::bvh! {},
                _ => Bvh::new().clone(),
            },
            Some(ref doc) => {
                let b = guard(|| bvh_anim::from_bytes(&render(doc, &Layout::FLAT)).ok()).ok().flatten();
                let Some(mut b) = b else {
                    cx.discarded = true;
                    return Ok(());
                };
                match c.via {
                    0 | 1 => b,
                    2 => b.clone(),
                    3 => {
                        b.extract_frames();
                        b
                    }
                    _ => {
                        let mut other = Bvh::new();
                        std::mem::swap(&mut other, &mut b);
                        other.frame_cursor().remove_all_frames();
                        other
                    }
                }
            }
        };
        let (names, parents, sites): (Vec<Bytes>, Vec<Option<usize>>, Vec<bool>) = match c.doc {
            None => Default::default(),
            Some(ref d) => (
                d.joints.iter().map(|j| j.name.clone()).collect(),
                d.tree().iter().map(|t| t.0).collect(),
                d.joints.iter().map(|j| j.end_site.is_some()).collect(),
            ),
        };
        check_tree(&mut bvh, &names, &parents, &sites, cx)?;
        // Lookups.
        let n = names.len();
        for l in &c.lookups {
            let of = names.get(l.of as usize).map_or(&b"x"[..], |b| &b.0[..]);
            let wanted = name(of, l.change);
            let what = format!("looking up {:?} after {} joints below {:?}", Bytes(wanted.clone()), l.after, l.below);
            let (mut it, all): (_, Vec<usize>) = match l.below.filter(|b| (*b as usize) < n) {
                None => (bvh.joints(), (0..n).collect()),
                Some(_) => continue,
            };
            for _ in 0..l.after {
                it.next();
            }
            // Every joint of that name, one after the other.
            let mut want = all.iter().copied().skip(l.after as usize).filter(|i| names[*i].0 == wanted);
            for _ in 0..4 {
                let got = match l.of % 3 {
                    0 => it.find_by_name(&wanted[..]),
                    1 => it.find_by_name(&wanted),
                    _ => match std::str::from_utf8(&wanted) {
                        Ok(s) => it.find_by_name(s),
                        Err(_) => it.find_by_name(&wanted),
                    },
                };
                let w = want.next();
                ensure_eq!(got.as_ref().map(|j| j.index()), w, "{}", what);
                if let Some(j) = got {
                    ensure_eq!(j.name(), &wanted[..], "{}: name", what);
                    cx.label("found by name");
                } else {
                    cx.label("not found by name");
                    break;
                }
            }
            // What is left is untouched by a hit.
            let mut it = bvh.joints();
            if let Some(j) = it.find_by_name(&wanted) {
                let i = j.index();
                ensure_eq!(idx(it), (i + 1..n).collect::<Vec<_>>(), "{}: joints after the one found", what);
            } else {
                ensure!(it.next().is_none(), "{}: joints left after nothing was found", what);
            }
        }
        for l in &c.lookups {
            let Some(b) = l.below.map(|b| b as usize).filter(|b| *b < n) else { continue };
            let wanted = name(&names[l.of as usize].0, l.change);
            let parent = bvh.joints().nth(b).unwrap();
            let kids: Vec<usize> = (0..n).filter(|i| parents[*i] == Some(b)).collect();
            let mut it = parent.children();
            for _ in 0..l.after.min(3) {
                it.next();
            }
            let want = kids.iter().copied().skip(l.after.min(3) as usize).find(|i| names[*i].0 == wanted);
            let got = it.find_by_name(&wanted).map(|j| j.index());
            ensure_eq!(got, want, "looking up {:?} among the children of joint {}", Bytes(wanted.clone()), b);
            cx.label("looked up among children");
        }
        cx.nontrivial = n >= 3;
        match c.doc {
            None => cx.label("no joints"),
            Some(ref d) => doc_labels(d, cx),
        }
        Ok(())
    }
    fn fixed() -> Vec<Case> {
        let mut v: Vec<Case> = small_trees()
            .into_iter()
            .step_by(3)
            .map(|c| {
                let n = c.doc.joints.len() as u32;
                let lookups =
                    (0..n).map(|of| Lookup { of, change: 0, after: of / 2, below: Some(of / 2) }).collect();
                Case { doc: Some(c.doc), via: 0, lookups }
            })
            .collect();
        for doc in scale_docs().into_iter().filter(|d| d.num_frames() < 10).chain(deep_docs()) {
            let n = doc.joints.len();
            let lookups = [0, 1, 254, 255, 256, 257, 65_535, 65_536, 65_537, n.wrapping_sub(2), n.wrapping_sub(1)]
                .iter()
                .filter(|i| **i < n)
                .flat_map(|of| {
                    let of = *of as u32;
                    [(0, None), (of / 2, None), (0, Some(0))].map(|(after, below)| Lookup { of, change: 0, after, below })
                })
                .collect();
            v.push(Case { doc: Some(doc), via: 2, lookups });
        }
        v.extend((0..4).map(|via| Case {
            doc: None,
            via,
            lookups: vec![Lookup { of: 0, change: 0, after: 0, below: None }],
        }));
        v
    }
}
