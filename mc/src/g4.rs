//! C19 the randomizer, C20 composition of gadgets.
use crate::circ::*;
use crate::f::*;
use crate::g1::*;
use crate::g2::*;
use crate::g3::*;
use crate::gadgets::*;
use crate::rt::*;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::poseidon_hash::{allocate_statics_for_prover, allocate_statics_for_verifier};
use bulletproofs_amcl::r1cs::gadgets::randomizer::*;
use bulletproofs_amcl::r1cs::{ConstraintSystem, Prover, R1CSProof, Verifier};
use amcl_wrapper::field_elem::FieldElementVector;
use merlin::Transcript;
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::sync::{Arc, Mutex, OnceLock};

type T4 = VanillaSparseMerkleTree_4<'static>;

/// hash parameters that live forever, one per shape
pub fn leaked(b: usize, e: usize, p: usize) -> &'static PoseidonParams {
    static M: OnceLock<Mutex<BTreeMap<(usize, usize, usize), &'static PoseidonParams>>> = OnceLock::new();
    let mut m = M.get_or_init(|| Mutex::new(BTreeMap::new())).lock().unwrap();
    m.entry((b, e, p)).or_insert_with(|| {
        let q: Pp = pp(5, b, e, p);
        let r: &'static Pp = Box::leak(Box::new(q));
        &**r
    })
}

#[derive(Clone)]
pub struct Rz {
    pub pp: &'static PoseidonParams,
    pub depth: usize,
    pub orig: Map,
    pub new: Map,
    pub d: Vec<Ix>,
    /// committed original values, siblings and root; honest unless changed
    pub vals: Vec<Fe>,
    pub sib: Vec<Vec<Vec<Fe>>>,
    pub root: Fe,
    /// a depth given to the entry points other than the trees', a node removed from (original, new) store
    pub stated: Option<usize>,
    pub missing: Option<(usize, usize)>,
}
impl Rz {
    pub fn honest(pp: &'static PoseidonParams, depth: usize, orig: Map, new: Map, d: Vec<Ix>) -> Rz {
        let rt = RefTree::new(4, depth, pp);
        let vals = d.iter().map(|i| orig.get(i).cloned().unwrap_or_else(Fe::zero)).collect();
        let sib = d.iter().map(|i| rt.siblings(&orig, i)).collect();
        let root = rt.root(&orig);
        Rz { pp, depth, orig, new, d, vals, sib, root, stated: None, missing: None }
    }
    /// Restoring the declared entries of the new tree gives the original root.
    pub fn true_(&self) -> bool {
        let rt = RefTree::new(4, self.depth, self.pp);
        let mut m = self.new.clone();
        for (i, v) in self.d.iter().zip(&self.vals) {
            m.insert(i.clone(), v.clone());
        }
        eq(&rt.root(&m), &self.root)
            && self.d.iter().enumerate().all(|(k, i)| eq(&rt.fold(i, &self.vals[k], &self.sib[k]), &self.root))
    }
    fn tree(&self, m: &Map) -> (T4, Db<4>) {
        let mut db = Db::<4>::new();
        let mut t = T4::new(self.pp, self.depth, &mut db);
        for (k, v) in m {
            t.update(&ix_fe(k, 4), v.clone(), &mut db).expect("update");
        }
        (t, db)
    }
    pub fn idx(&self) -> Vec<Fe> {
        self.d.iter().map(|i| ix_fe(i, 4)).collect()
    }
    pub fn committed(&self) -> Vec<Fe> {
        let mut v = vec![self.root.clone()];
        for k in 0..self.d.len() {
            v.push(self.vals[k].clone());
            for l in &self.sib[k] {
                v.extend(l.iter().cloned());
            }
        }
        v
    }
    pub fn stmt(&self) -> Stmt {
        let (c1, c2, c3, c4) = (self.clone(), self.clone(), self.clone(), self.clone());
        let new = self.tree(&self.new);
        let (n1, n2, n3, n4) = (new.clone(), new.clone(), new.clone(), new.clone());
        let orig = self.tree(&self.orig);
        let per = 1 + 3 * self.depth;
        Stmt {
            name: format!(
                "randomizer(depth {}, original {}, new {}, declared {:?}, values {:?})",
                self.depth,
                show_map(&self.orig),
                show_map(&self.new),
                self.d,
                self.vals.iter().map(show).collect::<Vec<_>>()
            ),
            ncomm: 1 + self.d.len() * per,
            inputs: self.committed().into_iter().enumerate().collect(),
            rnd: false,
            pv: Box::new(move |p: &mut Prover, _| {
                let mut comms = vec![];
                let mut vars = vec![];
                for x in c1.committed() {
                    let (c, v) = p.commit(x, Fe::random());
                    comms.push(c);
                    vars.push(v);
                }
                let st = allocate_statics_for_prover(p, 1);
                let (mut t, mut db) = n1.clone();
                let vals = (0..c1.d.len()).map(|k| vars[1 + k * per]).collect();
                let prs = (0..c1.d.len()).map(|k| vars[2 + k * per..1 + (k + 1) * per].to_vec()).collect();
                randomizer_gadget(p, c1.depth, vars[0], &mut t, &mut db, c1.idx(), vals, prs, st, c1.pp, &SboxType::Quint)?;
                Ok(comms)
            }),
            vf: Box::new(move |v: &mut Verifier, c, g| {
                if c.len() != 1 + c2.d.len() * per {
                    return Err(R1CSError::FormatError);
                }
                let vars: Vec<_> = c.into_iter().map(|x| v.commit(x)).collect();
                let st = allocate_statics_for_verifier(v, 1, &g.g, &g.h);
                let (mut t, mut db) = n2.clone();
                let vals = (0..c2.d.len()).map(|k| vars[1 + k * per]).collect();
                let prs = (0..c2.d.len()).map(|k| vars[2 + k * per..1 + (k + 1) * per].to_vec()).collect();
                randomizer_gadget(v, c2.depth, vars[0], &mut t, &mut db, c2.idx(), vals, prs, st, c2.pp, &SboxType::Quint)
            }),
            gw: Box::new(move |g, _, l| {
                let (mut t, mut db) = n3.clone();
                gen_proof_for_randomizer(&orig.0, &orig.1, &mut t, &mut db, &c3.idx(), &c3.vals, c3.depth, c3.pp, &SboxType::Quint, l, &g.g, &g.h, &g.G, &g.H)
            }),
            vw: Box::new(move |g, p, c, l| {
                let (mut t, mut db) = n4.clone();
                verify_proof_for_randomizer(&mut t, &mut db, &c4.idx(), c4.depth, c4.pp, &SboxType::Quint, p, c, l, &g.g, &g.h, &g.G, &g.H)
            }),
        }
    }
}
impl Rz {
    /// Only the full entry points, with possibly inconsistent arguments.
    pub fn entry_only(&self) -> Stmt {
        let (c3, c4) = (self.clone(), self.clone());
        let dep = self.stated.unwrap_or(self.depth);
        let mut orig = self.tree(&self.orig);
        let mut new = self.tree(&self.new);
        if let Some((w, k)) = self.missing {
            let db = if w == 0 { &mut orig.1 } else { &mut new.1 };
            // nodes on the paths of the declared indices, from the root
            let mut ks: Vec<Vec<u8>> = vec![];
            for i in &self.d {
                let mut cur = if w == 0 { orig.0.root.clone() } else { new.0.root.clone() };
                for x in i {
                    ks.push(cur.to_bytes());
                    if let Some(ch) = db.m.get(&cur.to_bytes()) {
                        cur = ch[*x as usize].clone();
                    }
                }
            }
            if let Some(x) = ks.get(k) {
                db.m.remove(x);
            }
        }
        let n2 = new.clone();
        Stmt {
            name: "randomizer".into(),
            ncomm: 0,
            inputs: vec![],
            rnd: false,
            pv: Box::new(|_, _| Err(R1CSError::FormatError)),
            vf: Box::new(|_, _, _| Err(R1CSError::FormatError)),
            gw: Box::new(move |g, _, l| {
                let (mut t, mut db) = new.clone();
                gen_proof_for_randomizer(&orig.0, &orig.1, &mut t, &mut db, &c3.idx(), &c3.vals, dep, c3.pp, &SboxType::Quint, l, &g.g, &g.h, &g.G, &g.H)
            }),
            vw: Box::new(move |g, p, c, l| {
                let (mut t, mut db) = n2.clone();
                verify_proof_for_randomizer(&mut t, &mut db, &c4.idx(), dep, c4.pp, &SboxType::Quint, p, c, l, &g.g, &g.h, &g.G, &g.H)
            }),
        }
    }
}
/// A proof by the library's prover from whatever values the statement commits to.
pub fn via_parts(s: &Stmt, g: &Gens, r: &Rnd) -> Result<Result<(R1CSProof, Vec<G1>), R1CSError>, String> {
    guard(|| {
        let mut t = Transcript::new(GL);
        let mut p = Prover::new(&g.g, &g.h, &mut t);
        let c = (s.pv)(&mut p, r)?;
        Ok((p.prove(&g.G, &g.H)?, c))
    })
}
fn ix_lists(ixs: &[Ix], k: usize) -> Vec<Vec<Ix>> {
    let mut out: Vec<Vec<Ix>> = vec![vec![]];
    let mut last = out.clone();
    for _ in 0..k {
        last = last.iter().flat_map(|l| ixs.iter().map(move |i| [l.clone(), vec![i.clone()]].concat())).collect();
        out.extend(last.clone());
    }
    out
}
fn subsets(ixs: &[Ix], most: usize) -> Vec<Vec<Ix>> {
    (0u32..1 << ixs.len())
        .filter(|b| b.count_ones() as usize <= most)
        .map(|b| (0..ixs.len()).filter(|i| b >> i & 1 == 1).map(|i| ixs[i].clone()).collect())
        .collect()
}
fn content(depth: usize, full: bool) -> Map {
    let mut m = Map::new();
    for (k, i) in all_ix(4, depth).into_iter().enumerate() {
        // a few leaves stay empty, two share a value
        if full || k % 5 != 2 {
            m.insert(i, if k == 3 { drv("leaf", 1) } else { drv("leaf", k as u64) });
        }
    }
    m
}
fn modified(m: &Map, ixs: &[Ix]) -> Map {
    let mut n = m.clone();
    for i in ixs {
        let v = m.get(i).cloned().unwrap_or_else(Fe::zero);
        n.insert(i.clone(), randomize(&v));
    }
    n
}

pub fn c19(ctx: &Ctx) {
    let pp1 = leaked(1, 0, 1);
    // every declared list against every set of modified leaves
    let mut items: Vec<(usize, Vec<Ix>, Vec<Ix>)> = vec![];
    let i1 = all_ix(4, 1);
    for m in subsets(&i1, 4) {
        for d in ix_lists(&i1, ctx.b(2, 3)) {
            items.push((1, d, m.clone()));
        }
    }
    if !ctx.thorough {
        for m in subsets(&i1, 4) {
            for d in [vec![0u8, 1, 2], vec![3, 1, 0], vec![2, 2, 1], vec![0, 1, 2, 3], vec![3, 2, 1, 0]] {
                items.push((1, d.into_iter().map(|x| vec![x]).collect(), m.clone()));
            }
        }
    }
    let i2: Vec<Ix> = ctx.b(vec![vec![0u8, 0], vec![0, 1], vec![1, 0], vec![3, 3]], vec![vec![0u8, 0], vec![0, 1], vec![1, 0], vec![1, 2], vec![2, 1], vec![3, 3]]);
    for m in subsets(&i2, ctx.b(3, 6)) {
        for d in ix_lists(&i2, 2) {
            items.push((2, d, m.clone()));
        }
    }
    let i3: Vec<Ix> = vec![vec![0, 0, 0], vec![0, 0, 3], vec![0, 2, 0], vec![3, 1, 2]];
    for m in subsets(&i3, ctx.b(2, 4)) {
        for d in [vec![], vec![0usize], vec![0, 1], vec![1, 0], vec![0, 2], vec![3, 0], vec![2, 1, 0], vec![0, 1, 2, 3]] {
            items.push((3, d.into_iter().map(|k| i3[k].clone()).collect(), m.clone()));
        }
    }
    // long lists: everything declared, and one leaf too few
    let all2: Vec<Ix> = all_ix(4, 2);
    for k in 3..=ctx.b(12usize, 16) {
        for start in [0usize, 5] {
            let d: Vec<Ix> = (0..k).map(|j| all2[(start + j) % 16].clone()).collect();
            items.push((2, d.clone(), d.clone()));
            let extra = all2[(start + k + 2) % 16].clone();
            if !d.contains(&extra) {
                let mut m = d.clone();
                m.push(extra);
                items.push((2, d.clone(), m));
            }
            // one of the declared leaves left out
            let mut e = d.clone();
            e.remove(k / 2);
            items.push((2, e, d));
        }
    }
    ctx.par("declared lists and modified sets", &items, |(depth, d, m)| {
        let orig = content(*depth, false);
        let r = Rz::honest(pp1, *depth, orig.clone(), modified(&orig, m), d.clone());
        let t = r.true_();
        let covered = m.iter().all(|i| d.contains(i));
        ctx.check(t == covered, "model", || "the reference tree disagrees with set inclusion".into());
        let s = r.stmt();
        if t {
            provable(ctx, "randomizer", &s, &[], false);
        } else {
            unprovable(ctx, "randomizer", &s, &[]);
        }
        // with these values and siblings, no other root is provable: the root left free
        if HOOKS {
            if let Ok(Ok(c)) = circuit(&s) {
                let pos = comm_pos(&c, s.ncomm);
                let root = pos[0].unwrap_or(0);
                let fx: Vec<_> = fixed_of(&s, &c).into_iter().filter(|x| x.0 != root).collect();
                let mut se = Search::new(&c).forbid(root, r.root.clone());
                let a = se.solve(&fx);
                ctx.st(se.stats.nodes);
                ctx.tr(se.stats.assigns);
                if let Some(a) = a {
                    // with nothing declared the new root itself is the original root
                    let rr = Rz { root: a[root].clone(), ..r.clone() };
                    if !rr.true_() {
                        match replay(&s, &c, &a) {
                            Ok(true) => ctx.viol("randomizer-root", format!("{}: provable for root {}", s.name, show(&a[root]))),
                            _ => ctx.count("witness found in the model but its proof was rejected", 1),
                        }
                    }
                }
            }
        }
    });
    // wrong values, siblings and roots
    let mut items: Vec<(usize, Vec<Ix>)> = ix_lists(&i1, 2).into_iter().map(|d| (1, d)).collect();
    items.extend(ix_lists(&i2, 2).into_iter().map(|d| (2, d)));
    items.push((3, i3.clone()));
    ctx.par("wrong values, siblings and roots", &items, |(depth, d)| {
        let orig = content(*depth, true);
        let r = Rz::honest(pp1, *depth, orig.clone(), modified(&orig, d), d.clone());
        let one = Fe::one();
        let mut bad: Vec<Rz> = vec![];
        for x in [&r.root + &one, Fe::zero(), RefTree::new(4, *depth, pp1).root(&r.new)] {
            bad.push(Rz { root: x, ..r.clone() });
        }
        for k in 0..d.len() {
            for x in [&r.vals[k] + &one, Fe::zero(), randomize(&r.vals[k])] {
                let mut b = r.clone();
                b.vals[k] = x;
                bad.push(b);
            }
            for l in 0..*depth {
                for j in 0..3 {
                    let mut b = r.clone();
                    b.sib[k][l][j] = &b.sib[k][l][j] + &one;
                    bad.push(b);
                }
                let mut b = r.clone();
                b.sib[k][l].swap(0, 2);
                bad.push(b);
            }
            // the value and siblings of another leaf
            for o in orig.keys().take(6) {
                let other = Rz::honest(pp1, *depth, orig.clone(), r.new.clone(), vec![o.clone()]);
                let mut b = r.clone();
                b.vals[k] = other.vals[0].clone();
                b.sib[k] = other.sib[0].clone();
                bad.push(b);
                let mut b = r.clone();
                b.vals[k] = other.vals[0].clone();
                bad.push(b);
            }
        }
        if d.len() == 2 {
            let mut b = r.clone();
            b.vals.swap(0, 1);
            b.sib.swap(0, 1);
            bad.push(b);
            // the second declared value lies in another tree
            let mut o2 = orig.clone();
            o2.insert(d[1].clone(), drv("other", 1));
            let other = Rz::honest(pp1, *depth, o2, r.new.clone(), d.clone());
            let mut b = r.clone();
            b.vals[1] = other.vals[1].clone();
            b.sib[1] = other.sib[1].clone();
            bad.push(b.clone());
            b.root = other.root.clone();
            bad.push(b);
        }
        for b in bad {
            let s = b.stmt();
            if b.true_() {
                provable(ctx, "randomizer-values", &s, &[], false);
            } else {
                unprovable(ctx, "randomizer-values", &s, &[]);
            }
        }
    });
    // one wrong value, sibling or root among many declared entries, at every place
    let mut items: Vec<(usize, usize, usize)> = vec![];
    for k in ctx.b(vec![3usize, 5, 9], vec![3, 5, 8, 9, 12, 16]) {
        for i in 0..k {
            for w in 0..3 {
                items.push((k, i, w));
            }
        }
    }
    ctx.par("wrong values among many", &items, |&(k, i, w)| {
        let orig = content(2, true);
        let d: Vec<Ix> = (0..k).map(|j| all2[(3 + 5 * j) % 16].clone()).collect();
        let mut r = Rz::honest(pp1, 2, orig.clone(), modified(&orig, &d), d.clone());
        match w {
            0 => {
                r.vals[i] = &r.vals[i] + &Fe::one();
            }
            1 => {
                let x = &r.sib[i][0][1] + &Fe::one();
                r.sib[i][0][1] = x;
            }
            _ => {
                let x = &r.sib[i][1][2] + &Fe::one();
                r.sib[i][1][2] = x;
            }
        }
        unprovable(ctx, "randomizer-values", &r.stmt(), &[]);
    });
    // deep trees with few leaves: paths that part at every level, one thing wrong at every level
    let mut items: Vec<(usize, usize)> = vec![];
    for depth in ctx.b(vec![4usize, 5, 6, 8, 9, 16, 17, 33], (4..=20).chain([24, 31, 32, 33, 34, 48, 64, 65, 100, 126]).collect::<Vec<_>>()) {
        let l: Vec<usize> = if depth <= 9 || ctx.thorough { (0..depth).collect() } else { vec![0, 1, depth / 2, depth - 2, depth - 1] };
        items.extend(l.into_iter().map(|s| (depth, s)));
    }
    ctx.par("deep trees", &items, |&(depth, sp)| {
        let one = Fe::one();
        let a: Ix = (0..depth).map(|i| ((i * i + 3 * i + 1) % 4) as u8).collect();
        let part = |from: usize, by: u8| -> Ix { a.iter().enumerate().map(|(i, x)| if i < from { *x } else { (x + by + (i > from) as u8) % 4 }).collect() };
        let (b, c) = (part(sp, 1), part(sp, 2));
        let mut orig = Map::new();
        orig.insert(a.clone(), drv("deep", 1));
        orig.insert(b.clone(), drv("deep", 2));
        for (d, m) in [
            (vec![&a, &b], vec![&a, &b]),
            (vec![&b, &a], vec![&a, &b]),
            (vec![&a, &b, &c], vec![&c, &a]),
            (vec![&a], vec![&a]),
            (vec![&b], vec![&a]),
            (vec![&a, &c], vec![&a, &b]),
            (vec![&a, &b, &a], vec![&b]),
        ] {
            let d: Vec<Ix> = d.into_iter().cloned().collect();
            let m: Vec<Ix> = m.into_iter().cloned().collect();
            let r = Rz::honest(pp1, depth, orig.clone(), modified(&orig, &m), d.clone());
            let s = r.stmt();
            if m.iter().all(|i| d.contains(i)) {
                provable(ctx, "randomizer-deep", &s, &[], false);
            } else {
                unprovable(ctx, "randomizer-deep", &s, &[]);
            }
        }
        let d = vec![b.clone(), a.clone()];
        let r = Rz::honest(pp1, depth, orig.clone(), modified(&orig, &d), d);
        let mut bad = vec![];
        for k in 0..2 {
            for j in 0..3 {
                let mut x = r.clone();
                x.sib[k][sp][j] = &x.sib[k][sp][j] + &one;
                bad.push(x);
            }
            let mut x = r.clone();
            x.vals[k] = &x.vals[k] + &one;
            bad.push(x);
        }
        bad.push(Rz { root: RefTree::new(4, depth, pp1).root(&r.new), ..r.clone() });
        for x in bad {
            let s = x.stmt();
            if x.true_() {
                provable(ctx, "randomizer-deep", &s, &[], false);
            } else {
                unprovable(ctx, "randomizer-deep", &s, &[]);
            }
        }
    });
    // the full entry points
    let mut items: Vec<(usize, Vec<Ix>, Vec<Ix>)> = vec![];
    for d in ix_lists(&i1, ctx.b(1, 2)) {
        for m in subsets(&i1, ctx.b(1, 2)) {
            items.push((1, d.clone(), m));
        }
    }
    items.push((1, vec![vec![2], vec![0]], vec![vec![0], vec![2]]));
    items.push((1, vec![vec![1], vec![1]], vec![vec![1]]));
    items.push((2, vec![vec![1, 2]], vec![vec![1, 2]]));
    items.push((2, vec![vec![1, 2], vec![1, 0]], vec![vec![1, 0]]));
    items.push((2, vec![vec![1, 2]], vec![vec![2, 2]]));
    items.push((3, vec![vec![1, 2, 3]], vec![vec![1, 2, 3]]));
    ctx.par("entry points", &items, |(depth, d, m)| {
        let orig = content(*depth, false);
        let r = Rz::honest(pp1, *depth, orig.clone(), modified(&orig, m), d.clone());
        let s = r.stmt();
        let ng = need(&s, 256);
        if r.true_() {
            honest_true(ctx, "randomizer-entry", &s, ng, &Rnd::Neither);
            // the same proof with other declared indices, another new tree or another depth
            let g = gens(ng);
            if let Ok(Ok((p, c))) = guard(|| (s.gw)(&g, &Rnd::Neither, GL)) {
                let mut others: Vec<Rz> = vec![];
                for k in 0..d.len() {
                    let mut b = r.clone();
                    b.d[k] = { let mut x = b.d[k].clone(); let n = x.len(); x[n - 1] = (x[n - 1] + 1) % 4; x };
                    others.push(b);
                }
                if d.len() > 1 && d[0] != d[1] {
                    let mut b = r.clone();
                    b.d.swap(0, 1);
                    others.push(b);
                }
                let undeclared = all_ix(4, *depth).into_iter().find(|i| !d.contains(i)).unwrap();
                others.push(Rz { new: modified(&r.new, &[undeclared]), ..r.clone() });
                for o in others {
                    let t = o.true_();
                    let os = o.stmt();
                    ctx.tv(1);
                    let v = guard(|| (os.vw)(&g, p.clone(), c.clone(), GL).is_ok());
                    ctx.check(v == Ok(t) || (t && v == Ok(false)), "randomizer-entry", || format!("proof of {} checked against {}: {:?}", s.name, os.name, v));
                }
            }
        } else {
            honest_false(ctx, "randomizer-entry", &s, ng, &Rnd::Neither);
        }
    });
    // false statements through the library's own prover, with the committed values the cheater wants
    let items = ix_lists(&i1, 1);
    ctx.par("cheating prover", &items, |d| {
        let orig = content(1, true);
        let r = Rz::honest(pp1, 1, orig.clone(), modified(&orig, d), d.clone());
        let mut bad = vec![Rz { root: &r.root + Fe::one(), ..r.clone() }];
        for k in 0..d.len() {
            let mut b = r.clone();
            b.vals[k] = Fe::one();
            bad.push(b.clone());
            b.root = RefTree::new(4, 1, pp1).fold(&d[k], &b.vals[k], &b.sib[k]);
            // consistent with another tree that differs from the new one only as declared: true
            bad.push(b);
        }
        for b in bad {
            let s = b.stmt();
            let g = gens(need(&s, 256));
            let t = b.true_();
            ctx.tv(1);
            ctx.st(1);
            if let Ok(Ok((p, c))) = via_parts(&s, &g, &Rnd::Neither) {
                let v = guard(|| (s.vw)(&g, p, c, GL).is_ok());
                ctx.check(v == Ok(t), "randomizer-cheat", || format!("{} (true: {}): verification gives {:?}", s.name, t, v));
            }
        }
    });
    // index selection
    let mut items = vec![];
    for nonce in 0..ctx.b(20u64, 200) {
        for size in (1usize..=9).chain([15, 16, 17, 64, 150, 1000, 1 << 20, 1 << 40]) {
            items.push((if nonce % 2 == 0 { fe(nonce) } else { drv("nonce", nonce) }, size));
        }
    }
    ctx.par("index selection", &items, |(nonce, size)| {
        let mut prev: Option<BTreeSet<Vec<u8>>> = None;
        for count in 0..=8usize {
            ctx.st(1);
            ctx.tr(1);
            let a = get_indices_to_modify(nonce, *size, count);
            let b = get_indices_to_modify(nonce, *size, count);
            let ka: BTreeSet<Vec<u8>> = a.iter().map(key).collect();
            let kb: BTreeSet<Vec<u8>> = b.iter().map(key).collect();
            let bound = key(&fe(*size as u64 - 1));
            let why = if ka != kb {
                "differs between two calls"
            } else if ka.len() != a.len() {
                "contains an index twice"
            } else if ka.iter().any(|k| *k > bound) {
                "contains an index outside the data"
            } else if a.len() > count {
                "selects more than asked for"
            } else if count > 0 && a.is_empty() {
                "selects nothing"
            } else if *size >= 1 << 20 && a.len() != count {
                "selects fewer than asked for although repetitions are out of the question"
            } else if prev.as_ref().map_or(false, |p| p.len() > a.len()) {
                "selects fewer for a larger count"
            } else {
                ""
            };
            ctx.check(why.is_empty(), "selection", || format!("indices for nonce {}, {} entries, {} to modify: {}", show(nonce), size, count, why));
            if *size == 1 << 40 && count == 3 {
                let o = get_indices_to_modify(&(nonce + Fe::one()), *size, count);
                let ko: BTreeSet<Vec<u8>> = o.iter().map(key).collect();
                ctx.check(ko != ka, "selection", || format!("nonces {} and its successor select the same indices", show(nonce)));
            }
            prev = Some(ka);
        }
    });
    // the selection depends on all of the nonce
    ctx.seq("nonces differing in one place", || {
        let base = drv("nonce", 1);
        let mut seen: BTreeMap<Vec<Vec<u8>>, String> = BTreeMap::new();
        let mut all = vec![("base".to_string(), base.clone()), ("0".to_string(), Fe::zero()), ("1".to_string(), Fe::one()), ("-1".to_string(), Fe::minus_one())];
        for k in 0..254u32 {
            all.push((format!("base + 2^{}", k), &base + &two(k as usize)));
            all.push((format!("2^{}", k + 1), two(k as usize + 1)));
        }
        for (w, n) in all {
            ctx.st(1);
            ctx.tr(1);
            let mut a: Vec<Vec<u8>> = get_indices_to_modify(&n, 1 << 40, 4).iter().map(key).collect();
            a.sort();
            if let Some(o) = seen.insert(a, w.clone()) {
                ctx.viol("selection", format!("nonces {} and {} select the same indices", o, w));
            }
        }
    });
    // data randomization
    let mut items = vec![];
    for n in 1..=ctx.b(6usize, 10) {
        for mask in 0u32..1 << n {
            items.push((n, mask));
        }
    }
    ctx.par("data randomization", &items, |&(n, mask)| {
        for variant in 0..3u64 {
            let data: Vec<Fe> = (0..n as u64).map(|i| match variant { 0 => drv("data", i), 1 => fe(i / 2), _ => Fe::zero() }).collect();
            let sel: HashSet<Fe> = (0..n).filter(|i| mask >> i & 1 == 1).map(|i| fe(i as u64)).collect();
            ctx.st(1);
            ctx.tr(n as u64);
            let (m, new) = get_randomized_data(&FieldElementVector::from(data.clone()), &sel);
            let keys: BTreeMap<Vec<u8>, Fe> = m.iter().map(|(k, v)| (key(k), v.clone())).collect();
            for i in 0..n {
                let s = mask >> i & 1 == 1;
                let want = if s { randomize(&data[i]) } else { data[i].clone() };
                let ok = new.len() == n
                    && eq(&new[i], &want)
                    && (!s || !eq(&want, &data[i]))
                    && match keys.get(&key(&fe(i as u64))) {
                        Some(v) => s && eq(v, &data[i]),
                        None => !s,
                    };
                ctx.check(ok, "data", || format!("randomizing entries {:b} of {} entries: entry {} is wrong", mask, n, i));
            }
            ctx.check(keys.len() == sel.len(), "data", || "number of returned originals".into());
        }
    });
    // long lists, entries on both sides of every power of two
    let lens = ctx.b(vec![257usize, 1025, 65538], vec![129, 257, 513, 1025, 4097, 65538, 262145]);
    ctx.par("randomized entries of long lists", &lens, |&n| {
        let data: Vec<Fe> = (0..n).map(|i| fe(i as u64 * 3 + 1)).collect();
        let mut at: Vec<usize> = (0..30).flat_map(|w| [(1usize << w) - 1, 1 << w, (1 << w) + 1]).filter(|i| *i < n).collect();
        at.push(n - 1);
        at.sort();
        at.dedup();
        for step in 1..4 {
            let sel: std::collections::BTreeSet<usize> = at.iter().cloned().skip(step - 1).step_by(step).collect();
            ctx.st(1);
            let (m, new) = get_randomized_data(&FieldElementVector::from(data.clone()), &sel.iter().map(|i| fe(*i as u64)).collect());
            let keys: BTreeMap<Vec<u8>, Fe> = m.iter().map(|(k, v)| (key(k), v.clone())).collect();
            ctx.check(keys.len() == sel.len() && new.len() == n, "data", || format!("{} entries, {} selected: {} returned", n, sel.len(), keys.len()));
            for i in 0..n.min(new.len()) {
                let ok = if sel.contains(&i) {
                    eq(&new[i], &randomize(&data[i])) && keys.get(&key(&fe(i as u64))).is_some_and(|v| eq(v, &data[i]))
                } else {
                    new[i] == data[i]
                };
                ctx.check(ok, "data", || format!("randomizing {} of {} entries: entry {} is wrong", sel.len(), n, i));
            }
        }
    });
}

// ---------------------------------------------------------------- C20

/// A pending single allocation.
pub fn half(x: Fe) -> Stmt {
    from_parts(
        "half-allocated pair".into(),
        0,
        vec![],
        move |p, _| {
            p.allocate(Some(x.clone()))?;
            Ok(vec![])
        },
        |v, _, _| {
            v.allocate(None)?;
            Ok(())
        },
    )
}
/// x * x = y for a committed x
pub fn square(x: Fe, y: Fe) -> Stmt {
    let (x1, y1) = (x.clone(), y.clone());
    from_parts(
        format!("{}^2 = {}", show(&x), show(&y)),
        1,
        vec![(0, x)],
        move |p, _| {
            let (c, v) = p.commit(x1.clone(), drv("sq", 1));
            let (_, _, o) = p.multiply(v.into(), v.into());
            p.constrain(o - y1.clone());
            Ok(vec![c])
        },
        move |v, c, _| {
            let a = v.commit(c[0].clone());
            let (_, _, o) = v.multiply(a.into(), a.into());
            v.constrain(o - y.clone());
            Ok(())
        },
    )
}
/// One true and, where there is one, one false instance of every gadget.
pub fn instances() -> Vec<(&'static str, Arc<Stmt>, Option<Arc<Stmt>>)> {
    let a = |s: Stmt| Arc::new(s);
    let mut v: Vec<(&'static str, Arc<Stmt>, Option<Arc<Stmt>>)> = vec![];
    v.push(("bound", a(bound(5, 3, 9, 3)), Some(a(bound(10, 3, 9, 3)))));
    v.push(("member", a(setm(fe(7), fes(&[3, 7, 9]))), Some(a(setm(fe(8), fes(&[3, 7, 9]))))));
    v.push(("member_alt", a(alt(7, vec![3, 7])), Some(a(alt(8, vec![3, 7])))));
    v.push(("non_member", a(nonmem(fe(8), fes(&[3, 7]))), Some(a(nonmem(fe(7), fes(&[3, 7]))))));
    v.push(("non_zero", a(nonzero(fe(4))), Some(a(nonzero(fe(0))))));
    v.push(("hamming", a(hamming(fes(&[1, 2, 3]), fes(&[1, 5, 3]), 1)), Some(a(hamming(fes(&[1, 2, 3]), fes(&[1, 5, 3]), 2)))));
    v.push(("hamming, all differ", a(hamming(fes(&[1, 2]), fes(&[4, 5]), 2)), Some(a(hamming(fes(&[1, 2]), fes(&[4, 5]), 1)))));
    let (x, y, c) = (drv("l", 1), drv("r", 1), vec![drv("c", 0), drv("c", 1)]);
    let out = bulletproofs_amcl::r1cs::gadgets::helper_constraints::mimc::mimc(&x, &y, &c, 2);
    v.push(("mimc", a(mimc(vec![x.clone(), y.clone()], out.clone(), c.clone(), 2)), Some(a(mimc(vec![x, y], out + Fe::one(), c, 2)))));
    for (w, sb, name) in [(3usize, SboxType::Quint, "poseidon2, quint"), (3, SboxType::Inverse, "poseidon2, inverse"), (5, SboxType::Cube, "poseidon4, cube"), (5, SboxType::Inverse, "poseidon4, inverse")] {
        let k = if w == 3 { 2 } else { 4 };
        let p = pp(w, 1, 0, 1);
        let inp: Vec<Fe> = (0..k).map(|i| drv("in", i)).collect();
        let h = hash_ref(&inp, &p, &sb).0;
        v.push((name, a(poseidon(inp.clone(), h.clone(), p.clone(), sb, k as usize)), Some(a(poseidon(inp, h + Fe::one(), p, sb, k as usize)))));
    }
    let p = params(4, 1, 0, 0);
    let sib = sibs(4, 1, "sib");
    let rt = RefTree { n: 4, depth: 1, p: &p, empty: vec![], sb: SboxType::Inverse };
    let leaf = drv("leaf", 0);
    let root = rt.fold(&[2], &leaf, &sib);
    v.push((
        "merkle4, inverse",
        a(incl(4, &leaf, &fe(2), &sib, &root, 1, &p, SboxType::Inverse)),
        Some(a(incl(4, &leaf, &fe(1), &sib, &root, 1, &p, SboxType::Inverse))),
    ));
    let p = params(8, 1, 0, 0);
    let sib = sibs(8, 1, "sib");
    let rt = RefTree { n: 8, depth: 1, p: &p, empty: vec![], sb: SboxType::Quint };
    let root = rt.fold(&[6], &leaf, &sib);
    v.push((
        "merkle8",
        a(incl(8, &leaf, &fe(6), &sib, &root, 1, &p, SboxType::Quint)),
        Some(a(incl(8, &leaf, &fe(5), &sib, &root, 1, &p, SboxType::Quint))),
    ));
    let orig = content(1, true);
    let r = Rz::honest(leaked(1, 0, 0), 1, orig.clone(), modified(&orig, &[vec![1]]), vec![vec![1]]);
    let b = Rz { new: modified(&orig, &[vec![1], vec![2]]), ..r.clone() };
    v.push(("randomizer", a(r.stmt()), Some(a(b.stmt()))));
    v.push(("half", a(half(drv("half", 1))), None));
    v.push(("half, zero", a(half(Fe::zero())), None));
    v.push(("square", a(square(fe(3), fe(9))), Some(a(square(fe(3), fe(10))))));
    v
}

pub fn c20(ctx: &Ctx) {
    let inst = instances();
    let n = inst.len();
    type Item = Vec<(usize, bool)>;
    let mut items: Vec<Item> = vec![];
    for i in 0..n {
        items.push(vec![(i, true)]);
        if inst[i].2.is_some() {
            items.push(vec![(i, false)]);
        }
        for j in 0..n {
            items.push(vec![(i, true), (j, true)]);
            if inst[j].2.is_some() {
                items.push(vec![(i, true), (j, false)]);
                items.push(vec![(j, false), (i, true)]);
                if inst[i].2.is_some() {
                    items.push(vec![(i, false), (j, false)]);
                }
            }
        }
    }
    // with a pending allocation before, between and after
    let hs: Vec<usize> = (0..n).filter(|i| inst[*i].0.starts_with("half")).collect();
    for i in 0..n {
        for t in [true, false] {
            if !t && inst[i].2.is_none() {
                continue;
            }
            for &h in &hs {
                items.push(vec![(h, true), (i, t), (h, true)]);
                items.push(vec![(h, true), (h, true), (i, t)]);
                for j in 0..n {
                    if ctx.thorough || (i + j) % 3 == 0 {
                        items.push(vec![(h, true), (i, t), (j, true)]);
                        items.push(vec![(i, t), (h, true), (j, true)]);
                        items.push(vec![(i, true), (h, true), (j, t)]);
                        items.push(vec![(i, t), (j, true), (h, true)]);
                    }
                }
            }
        }
    }
    // longer sequences
    let small: Vec<usize> = (0..n).filter(|i| !inst[*i].0.starts_with("merkle8")).collect();
    for (x, &i) in small.iter().enumerate() {
        for (y, &j) in small.iter().enumerate() {
            for (z, &k) in small.iter().enumerate() {
                if ctx.thorough || (x * 7 + y * 3 + z) % 11 == 0 {
                    items.push(vec![(i, true), (j, true), (k, true)]);
                    for f in 0..3 {
                        let mut it = vec![(i, true), (j, true), (k, true)];
                        if inst[it[f].0].2.is_some() {
                            it[f].1 = false;
                            items.push(it);
                        }
                    }
                }
            }
        }
    }
    for r in 0..n {
        let mut it: Item = (0..n).map(|k| ((k + r) % n, true)).collect();
        items.push(it.clone());
        if let Some(x) = (0..n).find(|x| inst[it[*x].0].2.is_some()) {
            it[x].1 = false;
            items.push(it.clone());
            it[x].1 = true;
        }
        if let Some(x) = (0..n).rev().find(|x| inst[it[*x].0].2.is_some()) {
            it[x].1 = false;
            items.push(it);
        }
    }
    let mk = |it: &Item| {
        compose(it.iter().map(|(i, t)| if *t { inst[*i].1.clone() } else { inst[*i].2.clone().unwrap_or_else(|| inst[*i].1.clone()) }).collect())
    };
    ctx.par("circuits of sequences", &items, |it| {
        let s = mk(it);
        let t = it.iter().all(|(i, t)| *t || inst[*i].2.is_none());
        if t {
            provable(ctx, "compose", &s, &[], it.len() == 1);
        } else {
            unprovable(ctx, "compose", &s, &[]);
        }
    });
    // end to end
    let mut e2e: Vec<Item> = vec![];
    for i in 0..n {
        for j in 0..n {
            if ctx.thorough || (i + 2 * j) % 4 == 0 {
                e2e.push(vec![(i, true), (j, true)]);
                if inst[j].2.is_some() {
                    e2e.push(vec![(i, true), (j, false)]);
                    e2e.push(vec![(j, false), (i, true)]);
                }
            }
        }
        e2e.push(vec![(hs[0], true), (i, true), (hs[0], true)]);
        e2e.push(vec![(i, true), (hs[0], true), (i, true)]);
        if inst[i].2.is_some() {
            e2e.push(vec![(hs[0], true), (i, false), (hs[0], true)]);
        }
    }
    e2e.push((0..n).map(|k| (k, true)).collect());
    e2e.push((0..n).rev().map(|k| (k, true)).collect());
    ctx.par("sequences end to end", &e2e, |it| {
        let s = mk(it);
        let t = it.iter().all(|(i, t)| *t || inst[*i].2.is_none());
        let ng = need(&s, NGENS).min(NGENS);
        // every part draws randomness its own way, from the same source
        let r = Rnd::Rng(11);
        if t {
            honest_true(ctx, "compose-entry", &s, ng, &r);
        } else {
            honest_false(ctx, "compose-entry", &s, ng, &r);
        }
    });
}
