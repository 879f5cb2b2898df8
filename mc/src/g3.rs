//! C17 sparse Merkle trees as persistent authenticated maps, C18 inclusion proofs.
use crate::f::*;
use crate::g1::*;
use crate::g2::*;
use crate::gadgets::*;
use crate::rt::*;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::utils::hash_db::{HashDb, InMemoryHashDb};
use std::collections::{BTreeMap, BTreeSet};

/// A store that can be inspected and have nodes removed.
#[derive(Clone)]
pub struct Db<const N: usize> {
    pub m: BTreeMap<Vec<u8>, [Fe; N]>,
}
impl<const N: usize> Db<N> {
    pub fn new() -> Self {
        Db { m: BTreeMap::new() }
    }
    fn same(&self, o: &Self) -> bool {
        self.m.len() == o.m.len() && self.m.iter().zip(&o.m).all(|((k, v), (l, w))| k == l && v.iter().zip(w).all(|(x, y)| eq(x, y)))
    }
}
impl<const N: usize> HashDb<[Fe; N]> for Db<N> {
    fn insert(&mut self, hash: Vec<u8>, value: [Fe; N]) {
        self.m.insert(hash, value);
    }
    fn get(&self, hash: &[u8]) -> Result<[Fe; N], R1CSError> {
        self.m.get(hash).cloned().ok_or_else(|| R1CSError::HashNotFoundInDB { hash: hash.to_vec() })
    }
}

/// Both arities behind one interface.
pub trait Tree<'a, const N: usize>: Sized + Clone {
    fn make(p: &'a PoseidonParams, depth: usize, db: &mut dyn HashDb<[Fe; N]>) -> Self;
    fn up(&mut self, i: &Fe, v: Fe, db: &mut dyn HashDb<[Fe; N]>) -> Result<Fe, R1CSError>;
    fn read(&self, i: &Fe, db: &dyn HashDb<[Fe; N]>) -> Result<Fe, R1CSError>;
    fn read_proof(&self, i: &Fe, db: &dyn HashDb<[Fe; N]>) -> Result<(Fe, Vec<Vec<Fe>>), R1CSError>;
    fn check(&self, i: &Fe, v: &Fe, pf: &[Vec<Fe>], root: Option<&Fe>) -> bool;
    fn root(&self) -> Fe;
    fn set_root(&mut self, r: Fe);
    fn digits(i: &Fe, depth: usize) -> Vec<u8>;
    fn depth(&self) -> usize;
}
macro_rules! tree {
    ($t:ident, $n:expr, $rep:ident) => {
        impl<'a> Tree<'a, $n> for $t<'a> {
            fn make(p: &'a PoseidonParams, depth: usize, db: &mut dyn HashDb<[Fe; $n]>) -> Self {
                $t::new(p, depth, db)
            }
            fn up(&mut self, i: &Fe, v: Fe, db: &mut dyn HashDb<[Fe; $n]>) -> Result<Fe, R1CSError> {
                self.update(i, v, db)
            }
            fn read(&self, i: &Fe, db: &dyn HashDb<[Fe; $n]>) -> Result<Fe, R1CSError> {
                self.get(i, &mut None, db)
            }
            fn read_proof(&self, i: &Fe, db: &dyn HashDb<[Fe; $n]>) -> Result<(Fe, Vec<Vec<Fe>>), R1CSError> {
                let mut p = Some(vec![]);
                let v = self.get(i, &mut p, db)?;
                Ok((v, p.unwrap_or_default().into_iter().map(|x| x.to_vec()).collect()))
            }
            fn check(&self, i: &Fe, v: &Fe, pf: &[Vec<Fe>], root: Option<&Fe>) -> bool {
                let p: Vec<[Fe; $n - 1]> = pf
                    .iter()
                    .map(|x| {
                        let a: [Fe; $n - 1] = x.clone().try_into().map_err(|_| ()).unwrap();
                        a
                    })
                    .collect();
                self.verify_proof(i, v, &p, root)
            }
            fn root(&self) -> Fe {
                self.root.clone()
            }
            fn set_root(&mut self, r: Fe) {
                self.root = r;
            }
            fn digits(i: &Fe, depth: usize) -> Vec<u8> {
                let a = $t::leaf_index_to_path(i, depth);
                assert_eq!(a, $rep(i, depth));
                a
            }
            fn depth(&self) -> usize {
                self.depth
            }
        }
    };
}
tree!(VanillaSparseMerkleTree_4, 4, get_base_4_repr);
tree!(VanillaSparseMerkleTree_8, 8, get_base_8_repr);

/// An index as its digits, most significant first.
pub type Ix = Vec<u8>;
pub fn ix_fe(d: &[u8], n: usize) -> Fe {
    d.iter().fold(Fe::zero(), |a, x| a * fe(n as u64) + fe(*x as u64))
}
pub fn all_ix(n: usize, depth: usize) -> Vec<Ix> {
    let mut v: Vec<Ix> = vec![vec![]];
    for _ in 0..depth {
        v = v.iter().flat_map(|d| (0..n as u8).map(move |x| [d.clone(), vec![x]].concat())).collect();
    }
    v
}
pub type Map = BTreeMap<Ix, Fe>;
/// The reference tree: hash of the subtree under `pre`, computed from the contents alone.
pub struct RefTree<'p> {
    pub n: usize,
    pub depth: usize,
    pub p: &'p PoseidonParams,
    pub empty: Vec<Fe>,
    pub sb: SboxType,
}
impl<'p> RefTree<'p> {
    pub fn new(n: usize, depth: usize, p: &'p PoseidonParams) -> Self {
        let mut empty = vec![Fe::zero()];
        for i in 0..depth {
            empty.push(hash_ref(&vec![empty[i].clone(); n], p, &SboxType::Quint).0);
        }
        RefTree { n, depth, p, empty, sb: SboxType::Quint }
    }
    pub fn node(&self, m: &Map, pre: &[u8]) -> Fe {
        if pre.len() == self.depth {
            return m.get(pre).cloned().unwrap_or_else(Fe::zero);
        }
        if !m.keys().any(|k| k.starts_with(pre)) {
            return self.empty[self.depth - pre.len()].clone();
        }
        let ch: Vec<Fe> = (0..self.n as u8).map(|x| self.node(m, &[pre, &[x]].concat())).collect();
        hash_ref(&ch, self.p, &self.sb).0
    }
    pub fn root(&self, m: &Map) -> Fe {
        self.node(m, &[])
    }
    pub fn siblings(&self, m: &Map, ix: &[u8]) -> Vec<Vec<Fe>> {
        (0..self.depth)
            .map(|l| (0..self.n as u8).filter(|x| *x != ix[l]).map(|x| self.node(m, &[&ix[..l], &[x]].concat())).collect())
            .collect()
    }
    pub fn fold(&self, ix: &[u8], v: &Fe, sib: &[Vec<Fe>]) -> Fe {
        let mut cur = v.clone();
        for l in (0..ix.len()).rev() {
            let mut ch = sib[l].clone();
            ch.insert(ix[l] as usize, cur);
            cur = hash_ref(&ch, self.p, &self.sb).0;
        }
        cur
    }
    pub fn verdict(&self, ix: &[u8], v: &Fe, sib: &[Vec<Fe>], root: &Fe) -> bool {
        sib.len() == self.depth && eq(&self.fold(ix, v, sib), root)
    }
}
pub fn show_map(m: &Map) -> String {
    m.iter().map(|(k, v)| format!("{:?}={}", k, show(v))).collect::<Vec<_>>().join(" ")
}

/// every read, proof and proof edit on one tree state
fn audit<'a, const N: usize, T: Tree<'a, N>>(ctx: &Ctx, rt: &RefTree, t: &T, db: &Db<N>, m: &Map, ixs: &[Ix], edits: bool, hist: &str) {
    let root = rt.root(m);
    ctx.st(1);
    ctx.check(eq(&t.root(), &root), "tree-root", || format!("arity {} depth {}: root after {} is not the hash of the contents {}", N, rt.depth, hist, show_map(m)));
    for ix in ixs {
        let i = ix_fe(ix, N);
        let want = m.get(ix).cloned().unwrap_or_else(Fe::zero);
        ctx.tr(1);
        ctx.tv(1);
        let plain = guard(|| t.read(&i, db));
        ctx.check(matches!(&plain, Ok(Ok(x)) if eq(x, &want)), "tree-read", || {
            format!("arity {} depth {}: after {} reading {:?} gives {:?}, last written {}", N, rt.depth, hist, ix, plain.as_ref().map(|r| r.as_ref().map(show)), show(&want))
        });
        let r = guard(|| t.read_proof(&i, db));
        let (v, pf) = match r {
            Ok(Ok(x)) => x,
            e => {
                ctx.viol("tree-read", format!("arity {} depth {}: after {} reading {:?} with a proof fails: {:?}", N, rt.depth, hist, ix, e.map(|x| x.map(|_| ()))));
                continue;
            }
        };
        ctx.check(eq(&v, &want), "tree-read", || format!("arity {} depth {}: after {} reading {:?} with a proof gives {}", N, rt.depth, hist, ix, show(&v)));
        let sib = rt.siblings(m, ix);
        ctx.check(
            pf.len() == sib.len() && pf.iter().zip(&sib).all(|(a, b)| a.iter().zip(b).all(|(x, y)| eq(x, y))),
            "tree-proof",
            || format!("arity {} depth {}: after {} the proof of {:?} is not the list of siblings", N, rt.depth, hist, ix),
        );
        let verdict = |ix: &[u8], v: &Fe, pf: &[Vec<Fe>], r: Option<&Fe>, what: &dyn Fn() -> String| {
            ctx.tr(1);
            let want = rt.verdict(ix, v, pf, r.unwrap_or(&root));
            let got = guard(|| t.check(&ix_fe(ix, N), v, pf, r));
            ctx.check(got == Ok(want), "tree-verify", || {
                format!("arity {} depth {}: after {}, proof of index {:?} checked with {}: {:?}, should be {}", N, rt.depth, hist, ix, what(), got, want)
            });
        };
        verdict(ix, &want, &pf, None, &|| "nothing changed".into());
        verdict(ix, &want, &pf, Some(&root), &|| "the root given".into());
        if !edits {
            continue;
        }
        let one = Fe::one();
        for v in [&want + &one, Fe::zero(), one.clone(), fe(2), Fe::minus_one(), root.clone()] {
            verdict(ix, &v, &pf, None, &|| format!("value {}", show(&v)));
        }
        for r in [&root + &one, Fe::zero(), rt.empty[rt.depth].clone()] {
            verdict(ix, &want, &pf, Some(&r), &|| format!("root {}", show(&r)));
        }
        for l in 0..rt.depth {
            for d in 0..N as u8 {
                let mut x = ix.clone();
                x[l] = d;
                verdict(&x, &want, &pf, None, &|| format!("index {:?} instead of {:?}", x, ix));
            }
            for s in 0..N - 1 {
                let mut p = pf.clone();
                p[l][s] = &p[l][s] + &one;
                verdict(ix, &want, &p, None, &|| format!("sibling {} of level {} changed", s, l));
                let mut p = pf.clone();
                p[l].swap(s, (s + 1) % (N - 1));
                verdict(ix, &want, &p, None, &|| format!("siblings {} and {} of level {} exchanged", s, (s + 1) % (N - 1), l));
            }
            let mut p = pf.clone();
            p.remove(l);
            verdict(ix, &want, &p, None, &|| format!("level {} dropped", l));
            let mut p = pf.clone();
            p.insert(l, pf[l].clone());
            verdict(ix, &want, &p, None, &|| format!("level {} doubled", l));
        }
        let mut p = pf.clone();
        p.push(vec![Fe::zero(); N - 1]);
        verdict(ix, &want, &p, None, &|| "one level more".into());
        verdict(ix, &want, &[], None, &|| "no levels".into());
        if rt.depth > 0 {
            // an inner node presented as a leaf
            let mut p = pf.clone();
            let last = p.pop().unwrap();
            let mut ch = last;
            ch.insert(ix[rt.depth - 1] as usize, want.clone());
            let inner = hash_ref(&ch, rt.p, &SboxType::Quint).0;
            verdict(ix, &inner, &p, None, &|| "an inner node as the leaf".into());
        }
    }
}

/// all histories of length <= len over the operations; audits after every step, old roots at the end
fn histories<'a, const N: usize, T: Tree<'a, N> + Sync + Send>(ctx: &Ctx, p: &'a PoseidonParams, depth: usize, ops: &[(Ix, Fe)], len: usize, ixs: &[Ix], edits: bool, label: &str) {
    let firsts: Vec<usize> = (0..ops.len()).collect();
    let rt = RefTree::new(N, depth, p);
    struct S<'x, 'p, const N: usize> {
        ctx: &'x Ctx,
        rt: &'x RefTree<'p>,
        ops: &'x [(Ix, Fe)],
        len: usize,
        ixs: &'x [Ix],
        edits: bool,
    }
    fn go<'a, const N: usize, T: Tree<'a, N>>(s: &S<N>, t: &T, db: &Db<N>, m: &Map, hist: &[usize], old: &[(Fe, Map)], only: Option<usize>) {
        if hist.len() == s.len || s.ctx.stopped() {
            return;
        }
        for (k, (ix, v)) in s.ops.iter().enumerate() {
            if only.map_or(false, |o| o != k) {
                continue;
            }
            let (mut t2, mut db2, mut m2) = (t.clone(), db.clone(), m.clone());
            let h2 = [hist, &[k]].concat();
            let hs = || h2.iter().map(|k| format!("{:?}:={}", s.ops[*k].0, show(&s.ops[*k].1))).collect::<Vec<_>>().join(", ");
            m2.insert(ix.clone(), v.clone());
            s.ctx.tr(1);
            let r = guard(|| t2.up(&ix_fe(ix, N), v.clone(), &mut db2));
            let root = s.rt.root(&m2);
            s.ctx.check(matches!(&r, Ok(Ok(x)) if eq(x, &root)), "tree-update", || {
                format!("arity {} depth {}: update {} returns {:?}", N, s.rt.depth, hs(), r.as_ref().map(|x| x.as_ref().map(show)))
            });
            if !matches!(r, Ok(Ok(_))) {
                continue;
            }
            audit(s.ctx, s.rt, &t2, &db2, &m2, s.ixs, s.edits && h2.len() == s.len, &hs());
            // earlier states are still served
            for (r, mo) in old {
                let mut o = t2.clone();
                o.set_root(r.clone());
                for ix in s.ixs {
                    let want = mo.get(ix).cloned().unwrap_or_else(Fe::zero);
                    let g = guard(|| o.read_proof(&ix_fe(ix, N), &db2));
                    let ok = matches!(&g, Ok(Ok((v, pf))) if eq(v, &want) && s.rt.verdict(ix, v, pf, r));
                    s.ctx.check(ok, "tree-old-root", || format!("arity {} depth {}: after {} the earlier root no longer serves index {:?}", N, s.rt.depth, hs(), ix));
                }
            }
            let mut old2 = old.to_vec();
            old2.push((root, m2.clone()));
            go(s, &t2, &db2, &m2, &h2, &old2, None);
        }
    }
    let s = S { ctx, rt: &rt, ops, len, ixs, edits };
    ctx.par(label, &firsts, |&k| {
        let mut db = Db::<N>::new();
        let t = T::make(p, depth, &mut db);
        let m = Map::new();
        if k == 0 {
            audit(ctx, &rt, &t, &db, &m, ixs, edits, "nothing");
            ctx.check(t.depth() == depth, "tree-root", || "depth".into());
        }
        let r = rt.root(&m);
        go(&s, &t, &db, &m, &[], &[(r, m.clone())], Some(k));
    });
}
fn ops_of(ixs: &[Ix], vals: &[u64]) -> Vec<(Ix, Fe)> {
    ixs.iter().flat_map(|i| vals.iter().map(move |v| (i.clone(), fe(*v)))).collect()
}

/// each stored node missing in turn
fn missing<'a, const N: usize, T: Tree<'a, N>>(ctx: &Ctx, p: &'a PoseidonParams, depth: usize, writes: &[(Ix, Fe)], ixs: &[Ix]) {
    let mut db = Db::<N>::new();
    let mut t = T::make(p, depth, &mut db);
    let rt = RefTree::new(N, depth, p);
    let mut m = Map::new();
    for (ix, v) in writes {
        if !matches!(guard(|| t.up(&ix_fe(ix, N), v.clone(), &mut db)), Ok(Ok(_))) {
            ctx.viol("tree-update", format!("arity {} depth {}: update fails", N, depth));
            return;
        }
        m.insert(ix.clone(), v.clone());
    }
    for k in db.m.keys().cloned().collect::<Vec<_>>() {
        let mut d = db.clone();
        d.m.remove(&k);
        for ix in ixs {
            let i = ix_fe(ix, N);
            let hit = (0..depth).any(|l| rt.node(&m, &ix[..l]).to_bytes() == k);
            let want = m.get(ix).cloned().unwrap_or_else(Fe::zero);
            ctx.st(1);
            ctx.tr(3);
            ctx.tv(1);
            let r = guard(|| t.read_proof(&i, &d));
            let ok = match &r {
                Ok(Ok((v, _))) => !hit && eq(v, &want),
                Ok(Err(_)) => hit,
                Err(_) => false,
            };
            ctx.check(ok, "tree-missing", || format!("arity {} depth {}: a stored node missing, reading {:?}: {:?}", N, depth, ix, r.as_ref().map(|x| x.as_ref().map(|y| show(&y.0)))));
            let (mut t2, mut d2) = (t.clone(), d.clone());
            let r = guard(|| t2.up(&i, fe(77), &mut d2));
            let ok = match &r {
                Ok(Ok(_)) => !hit,
                Ok(Err(_)) => hit && eq(&t2.root(), &t.root()) && d2.same(&d),
                Err(_) => false,
            };
            ctx.check(ok, "tree-missing", || {
                format!("arity {} depth {}: a stored node on the path to {:?} missing: update gives {:?}, root changed {}, store changed {}", N, depth, ix, r.as_ref().map(|x| x.as_ref().map(show)), !eq(&t2.root(), &t.root()), !d2.same(&d))
            });
        }
    }
}
pub fn deep_ix(n: usize, depth: usize) -> Vec<Ix> {
    let hi = n as u8 - 1;
    let mut v: Vec<Ix> = vec![vec![0; depth], vec![hi; depth], (0..depth).map(|i| (i % n) as u8).collect(), (0..depth).map(|i| if i % 2 == 0 { hi } else { 0 }).collect()];
    for k in [0usize, 1, 2, 3, 4, 7, 8, depth / 2, depth.saturating_sub(2), depth - 1] {
        if k < depth {
            let mut a = vec![0; depth];
            a[depth - 1 - k] = 1;
            v.push(a.clone());
            a[depth - 1 - k] = hi;
            v.push(a);
            let mut b = vec![hi; depth];
            b[depth - 1 - k] = hi - 1;
            v.push(b);
            let mut c = vec![0; depth];
            for x in c.iter_mut().skip(depth - 1 - k) {
                *x = hi;
            }
            v.push(c);
        }
    }
    let s: BTreeSet<Ix> = v.into_iter().collect();
    s.into_iter().collect()
}
fn deep<'a, const N: usize, T: Tree<'a, N>>(ctx: &Ctx, p: &'a PoseidonParams, depth: usize) {
    let ixs = deep_ix(N, depth);
    for ix in &ixs {
        let d = guard(|| T::digits(&ix_fe(ix, N), depth));
        ctx.check(d.as_ref() == Ok(ix), "tree-digits", || format!("arity {} depth {}: digits of {:?} are {:?}", N, depth, ix, d));
    }
    let rt = RefTree::new(N, depth, p);
    let mut db = Db::<N>::new();
    let mut t = T::make(p, depth, &mut db);
    let mut m = Map::new();
    for (k, ix) in ixs.iter().enumerate() {
        let v = drv("deep", k as u64);
        m.insert(ix.clone(), v.clone());
        let r = guard(|| t.up(&ix_fe(ix, N), v, &mut db));
        ctx.tr(1);
        ctx.check(matches!(r, Ok(Ok(_))), "tree-update", || format!("arity {} depth {}: update of {:?}: {:?}", N, depth, ix, r.as_ref().map(|x| x.as_ref().map(show))));
        if k == 0 || k + 1 == ixs.len() || k == ixs.len() / 2 {
            audit(ctx, &rt, &t, &db, &m, &ixs, depth <= 6 && k + 1 == ixs.len(), "the boundary indices written in order");
        }
    }
    // clear, rewrite and repeat
    for (k, ix) in ixs.iter().enumerate() {
        let v = match k % 3 {
            0 => Fe::zero(),
            1 => m[ix].clone(),
            _ => drv("deep2", k as u64),
        };
        m.insert(ix.clone(), v.clone());
        let r = guard(|| t.up(&ix_fe(ix, N), v, &mut db));
        ctx.tr(1);
        ctx.check(matches!(r, Ok(Ok(_))), "tree-update", || format!("arity {} depth {}: second update of {:?} fails", N, depth, ix));
    }
    audit(ctx, &rt, &t, &db, &m, &ixs, false, "the boundary indices written, then cleared or rewritten");
    // a tree in which only zero is ever written
    let mut db = Db::<N>::new();
    let mut t = T::make(p, depth, &mut db);
    let mut m = Map::new();
    for ix in ixs.iter().take(6) {
        m.insert(ix.clone(), Fe::zero());
        let r = guard(|| t.up(&ix_fe(ix, N), Fe::zero(), &mut db));
        ctx.check(matches!(r, Ok(Ok(_))), "tree-update", || format!("arity {} depth {}: writing zero at {:?} fails", N, depth, ix));
    }
    audit(ctx, &rt, &t, &db, &m, &ixs[..ixs.len().min(8)], false, "zero written");
}
/// the deepest trees: every single digit alone, and values at indices that differ only in the top digits
fn deepest<'a, const N: usize, T: Tree<'a, N>>(ctx: &Ctx, p: &'a PoseidonParams, depth: usize) {
    for k in 0..depth {
        for x in [1u8, N as u8 - 1] {
            for bg in [0u8, 1] {
                let mut ix = vec![bg; depth];
                ix[k] = x;
                let d = guard(|| T::digits(&ix_fe(&ix, N), depth));
                ctx.tr(1);
                ctx.check(d.as_ref() == Ok(&ix), "tree-digits", || format!("arity {} depth {}: digits of {:?} are {:?}", N, depth, ix, d));
            }
        }
    }
    let rt = RefTree::new(N, depth, p);
    let mut db = Db::<N>::new();
    let mut t = T::make(p, depth, &mut db);
    let mut m = Map::new();
    let mut ixs: Vec<Ix> = vec![vec![0; depth]];
    for k in [0, 1, depth / 2, depth - 1] {
        let mut a = vec![0; depth];
        a[k] = N as u8 - 1;
        ixs.push(a);
    }
    for (k, ix) in ixs.iter().enumerate() {
        let v = drv("deepest", k as u64);
        m.insert(ix.clone(), v.clone());
        let r = guard(|| t.up(&ix_fe(ix, N), v, &mut db));
        ctx.check(matches!(r, Ok(Ok(_))), "tree-update", || format!("arity {} depth {}: update of {:?} fails", N, depth, ix));
    }
    audit(ctx, &rt, &t, &db, &m, &ixs, false, "indices that part at the top, middle and bottom");
}
/// two trees in one store, operations interleaved
fn two_trees<'a, const N: usize, T: Tree<'a, N>>(ctx: &Ctx, p: &'a PoseidonParams, da: usize, dbp: usize, len: usize) {
    let sel = |d: usize| -> Vec<Ix> { vec![vec![0; d], vec![N as u8 - 1; d]] };
    let ops: Vec<(usize, Ix, Fe)> = [(0usize, da), (1, dbp)]
        .iter()
        .flat_map(|(w, d)| ops_of(&sel(*d), &[1, 2]).into_iter().map(move |(i, v)| (*w, i, v)))
        .collect();
    let (ra, rb) = (RefTree::new(N, da, p), RefTree::new(N, dbp, p));
    let total = ops.len().pow(len as u32);
    for code in 0..total {
        let mut db = Db::<N>::new();
        let mut ts = [T::make(p, da, &mut db), T::make(p, dbp, &mut db)];
        let mut ms = [Map::new(), Map::new()];
        let mut c = code;
        let mut h = String::new();
        for _ in 0..len {
            let (w, ix, v) = &ops[c % ops.len()];
            c /= ops.len();
            h += &format!("tree {} {:?}:={}, ", w, ix, show(v));
            let r = guard(|| ts[*w].up(&ix_fe(ix, N), v.clone(), &mut db));
            ctx.tr(1);
            ctx.check(matches!(r, Ok(Ok(_))), "tree-update", || format!("arity {}: {}: fails", N, h));
            ms[*w].insert(ix.clone(), v.clone());
        }
        audit(ctx, &ra, &ts[0], &db, &ms[0], &sel(da), false, &h);
        audit(ctx, &rb, &ts[1], &db, &ms[1], &sel(dbp), false, &h);
    }
}

pub fn c17(ctx: &Ctx) {
    type T4<'a> = VanillaSparseMerkleTree_4<'a>;
    type T8<'a> = VanillaSparseMerkleTree_8<'a>;
    let (p5, p9) = (pp(5, 1, 1, 1), pp(9, 1, 0, 1));
    // histories
    let i41 = all_ix(4, 1);
    histories::<4, T4>(ctx, &p5, 1, &ops_of(&i41, &[0, 1, 2]), ctx.b(2, 3), &i41, true, "arity 4 depth 1, all histories");
    let i42 = all_ix(4, 2);
    histories::<4, T4>(ctx, &p5, 2, &ops_of(&i42, &[1, 0]), 2, &i42, false, "arity 4 depth 2, all histories");
    let sel: Vec<Ix> = ctx.b(vec![vec![0, 0], vec![0, 3], vec![1, 2], vec![3, 3]], vec![vec![0, 0], vec![0, 1], vec![0, 3], vec![1, 2], vec![2, 1], vec![3, 0], vec![3, 3]]);
    histories::<4, T4>(ctx, &p5, 2, &ops_of(&sel, &[0, 1]), 3, &sel, true, "arity 4 depth 2, longer histories");
    let sel: Vec<Ix> = vec![vec![0, 0, 0], vec![0, 0, 3], vec![0, 2, 0], vec![2, 1, 3], vec![3, 3, 3]];
    histories::<4, T4>(ctx, &p5, 3, &ops_of(&sel, &[1]), ctx.b(3, 4), &sel, true, "arity 4 depth 3, histories");
    let i81 = all_ix(8, 1);
    histories::<8, T8>(ctx, &p9, 1, &ops_of(&i81, &[0, 1]), 2, &i81, true, "arity 8 depth 1, all histories");
    let sel: Vec<Ix> = ctx.b(vec![vec![0, 0], vec![0, 7], vec![5, 2], vec![7, 7]], vec![vec![0, 0], vec![0, 1], vec![0, 7], vec![1, 6], vec![5, 2], vec![7, 0], vec![7, 7]]);
    histories::<8, T8>(ctx, &p9, 2, &ops_of(&sel, &[0, 1]), ctx.b(2, 3), &sel, true, "arity 8 depth 2, histories");
    let i82 = all_ix(8, 2);
    histories::<8, T8>(ctx, &p9, 2, &ops_of(&i82, &[1]), 1, &i82, false, "arity 8 depth 2, every index");
    if ctx.thorough {
        let sel: Vec<Ix> = vec![vec![0, 0, 0], vec![0, 0, 7], vec![0, 4, 0], vec![6, 1, 3], vec![7, 7, 7]];
        histories::<8, T8>(ctx, &p9, 3, &ops_of(&sel, &[1]), 3, &sel, true, "arity 8 depth 3, histories");
        histories::<4, T4>(ctx, &p5, 1, &ops_of(&i41, &[0, 1]), 5, &i41, false, "arity 4 depth 1, all histories of length 5");
    }
    // depth 0
    ctx.seq("depth 0", || {
        let rt = RefTree::new(4, 0, &p5);
        let mut db = Db::<4>::new();
        let mut t = T4::make(&p5, 0, &mut db);
        let mut m = Map::new();
        audit(ctx, &rt, &t, &db, &m, &[vec![]], false, "nothing");
        let _ = guard(|| t.up(&fe(0), fe(9), &mut db));
        m.insert(vec![], fe(9));
        audit(ctx, &rt, &t, &db, &m, &[vec![]], false, "one write");
    });
    // missing nodes
    let sel4: Vec<Vec<(Ix, Fe)>> = vec![
        vec![],
        vec![(vec![0, 1], fe(1))],
        vec![(vec![0, 1], fe(1)), (vec![0, 2], fe(2)), (vec![3, 3], fe(3))],
        vec![(vec![2, 0], fe(1)), (vec![2, 0], fe(0)), (vec![1, 1], fe(4))],
    ];
    ctx.par("missing nodes, arity 4", &sel4, |w| missing::<4, T4>(ctx, &p5, 2, w, &i42));
    ctx.par("missing nodes, arity 8", &sel4, |w| missing::<8, T8>(ctx, &p9, 2, w, &i82));
    let w3: Vec<Vec<(Ix, Fe)>> = vec![vec![(vec![0, 1, 2], fe(1)), (vec![0, 1, 3], fe(2)), (vec![3, 0, 0], fe(5))]];
    ctx.par("missing nodes, depth 3", &w3, |w| missing::<4, T4>(ctx, &p5, 3, w, &all_ix(4, 3)));
    // deep trees
    let d4: Vec<usize> = ctx.b((3..=12).chain([16, 17, 20, 24, 27, 28, 29, 32, 33]).collect(), (3..=70).chain([100, 120, 126, 127]).collect());
    ctx.par("deep trees, arity 4", &d4, |&d| deep::<4, T4>(ctx, &p5, d));
    let d8: Vec<usize> = ctx.b((3..=12).chain([16, 18, 19, 20, 21, 22]).collect(), (3..=45).chain([63, 64, 80, 84]).collect());
    ctx.par("deep trees, arity 8", &d8, |&d| deep::<8, T8>(ctx, &p9, d));
    ctx.par("deepest trees, arity 4", &[63usize, 64, 65, 96, 126, 127], |&d| deepest::<4, T4>(ctx, &p5, d));
    ctx.par("deepest trees, arity 8", &[42usize, 43, 63, 64, 65, 84], |&d| deepest::<8, T8>(ctx, &p9, d));
    // full-size hash parameters
    ctx.seq("full-size hash, arity 4", || deep::<4, T4>(ctx, &pp(5, 4, 4, 56), 6));
    ctx.seq("full-size hash, arity 8", || deep::<8, T8>(ctx, &pp(9, 4, 4, 57), 3));
    // full trees on the library's own store
    fn full<'a, const N: usize, T: Tree<'a, N>>(ctx: &Ctx, p: &'a PoseidonParams, depth: usize, step: usize) {
        let ixs = all_ix(N, depth);
        let rt = RefTree::new(N, depth, p);
        let mut db = InMemoryHashDb::<[Fe; N]>::new();
        let mut t = T::make(p, depth, &mut db);
        let mut m = Map::new();
        let n = ixs.len();
        for k in 0..n {
            let ix = &ixs[(k * step) % n];
            let v = drv("full", k as u64);
            ctx.tr(1);
            let r = guard(|| t.up(&ix_fe(ix, N), v.clone(), &mut db));
            ctx.check(matches!(r, Ok(Ok(_))), "tree-update", || format!("arity {} depth {}: write {} fails: {:?}", N, depth, k, r.as_ref().map(|x| x.as_ref().map(show))));
            m.insert(ix.clone(), v);
            if k + 1 == n || (k + 1).is_power_of_two() {
                for ix in &ixs {
                    let r = guard(|| t.read(&ix_fe(ix, N), &db));
                    let w = m.get(ix).cloned().unwrap_or_else(Fe::zero);
                    ctx.check(matches!(&r, Ok(Ok(x)) if eq(x, &w)), "tree-read", || format!("arity {} depth {}: after {} writes {:?} reads {:?}", N, depth, k + 1, ix, r.as_ref().map(|x| x.as_ref().map(show))));
                    let r = guard(|| t.read_proof(&ix_fe(ix, N), &db));
                    ctx.check(matches!(&r, Ok(Ok((x, q))) if eq(x, &w) && q.len() == depth), "tree-read", || format!("arity {} depth {}: after {} writes no proof for {:?}", N, depth, k + 1, ix));
                }
            }
        }
        ctx.st(n as u64);
        ctx.check(eq(&t.root(), &rt.root(&m)), "tree-root", || format!("arity {} depth {}: root of the full tree is not the hash of its contents", N, depth));
    }
    let fl: Vec<(usize, usize)> = ctx.b(vec![(1, 1), (2, 1), (2, 7), (3, 1), (3, 37), (4, 101)], vec![(1, 1), (2, 1), (2, 7), (3, 1), (3, 37), (4, 1), (4, 101), (5, 401)]);
    ctx.par("full trees on the library's store, arity 4", &fl, |&(d, s)| full::<4, T4>(ctx, &p5, d, s));
    ctx.par("full trees on the library's store, arity 8", &fl[..ctx.b(4, 6)], |&(d, s)| full::<8, T8>(ctx, &p9, d, s));
    // several trees in one store
    let pairs = [(1usize, 1usize), (1, 2), (2, 2), (2, 3)];
    ctx.par("two trees in one store, arity 4", &pairs, |&(a, b)| two_trees::<4, T4>(ctx, &p5, a, b, 2));
    ctx.par("two trees in one store, arity 8", &pairs[..2], |&(a, b)| two_trees::<8, T8>(ctx, &p9, a, b, 2));
    // the library's own store is a map
    ctx.seq("in-memory store", || {
        let keys: Vec<Vec<u8>> = vec![vec![], vec![0], vec![0, 0], vec![1], vec![0; 48], vec![255; 48]];
        let n = keys.len() * 2;
        for code in 0..n * n * n {
            let mut db = InMemoryHashDb::<u64>::new();
            let mut m: BTreeMap<Vec<u8>, u64> = BTreeMap::new();
            let mut c = code;
            for s in 0..3u64 {
                let k = keys[(c % n) / 2].clone();
                let v = (c % 2) as u64 * 10 + s;
                c /= n;
                db.insert(k.clone(), v);
                m.insert(k, v);
                ctx.tr(1);
                for k in &keys {
                    let got = db.get(k);
                    let ok = match (m.get(k), &got) {
                        (Some(v), Ok(w)) => v == w,
                        (None, Err(R1CSError::HashNotFoundInDB { hash })) => hash == k,
                        _ => false,
                    };
                    ctx.check(ok, "store", || format!("store: get({:?}) = {:?}, map has {:?}", k, got, m.get(k)));
                }
            }
            ctx.st(1);
        }
        // nothing is lost in a large store
        let mut db = InMemoryHashDb::<u64>::new();
        let n = ctx.b(5000u64, 70000);
        let k = |i: u64| -> Vec<u8> {
            let mut b = i.to_be_bytes().to_vec();
            b.resize(48, (i % 7) as u8);
            b
        };
        for i in 0..n {
            db.insert(k(i), i);
            if i % 3 == 2 {
                db.insert(k(i / 2), i / 2 + 1);
                db.insert(k(i / 2), i / 2);
            }
            if (i + 1).is_power_of_two() || i % 997 == 0 || i + 1 == n {
                for j in 0..=i {
                    ctx.tr(1);
                    ctx.check(db.get(&k(j)) == Ok(j), "store", || format!("entry {} is lost or changed after {} insertions", j, i + 1));
                }
            }
        }
        // cloned stores are independent
        let mut a = InMemoryHashDb::<u64>::new();
        a.insert(vec![1], 1);
        let mut b = a.clone();
        b.insert(vec![1], 2);
        ctx.check(a.get(&[1]) == Ok(1) && b.get(&[1]) == Ok(2), "store", || "clone shares state".into());
    });
}

/// inclusion statement whose siblings are fixed as well
pub fn incl(n: usize, leaf: &Fe, index: &Fe, sib: &[Vec<Fe>], root: &Fe, depth: usize, p: &Pp, sb: SboxType) -> Stmt {
    let mut s = merkle(n, leaf.clone(), index.clone(), sib.to_vec(), root.clone(), depth, p.clone(), sb);
    let mut k = 2;
    for l in sib {
        for x in l {
            s.inputs.push((k, x.clone()));
            k += 1;
        }
    }
    s
}
pub fn params(n: usize, b: usize, e: usize, p: usize) -> Pp {
    pp(n + 1, b, e, p)
}
pub fn sibs(n: usize, depth: usize, tag: &str) -> Vec<Vec<Fe>> {
    (0..depth).map(|l| (0..n - 1).map(|k| drv(tag, (l * 10 + k) as u64)).collect()).collect()
}

pub fn c18(ctx: &Ctx) {
    // exactly one root is provable for each leaf, index and siblings
    let mut items: Vec<(usize, usize, Ix, usize)> = vec![];
    for (n, ds) in [(4usize, ctx.b(vec![1usize, 2, 3], vec![1, 2, 3, 4])), (8, ctx.b(vec![1, 2], vec![1, 2, 3]))] {
        for d in ds {
            for (k, ix) in all_ix(n, d).into_iter().enumerate() {
                items.push((n, d, ix, if d == 1 { 3 } else if k % 7 == 0 { 3 } else { 1 }));
            }
        }
        for d in ctx.b((4usize..=12).chain([16, 17]).collect::<Vec<_>>(), (4..=34).collect()) {
            for ix in deep_ix(n, d) {
                items.push((n, d, ix, 1));
            }
        }
    }
    ctx.par("provable roots", &items, |(n, d, ix, nsb)| {
        let p = params(*n, 1, 0, 1);
        let leaf = drv("leaf", 1);
        let sib = sibs(*n, *d, "sib");
        for sb in [SboxType::Quint, SboxType::Cube, SboxType::Inverse].iter().take(*nsb) {
            let rt = RefTree { n: *n, depth: *d, p: &p, empty: vec![], sb: *sb };
            let root = rt.fold(ix, &leaf, &sib);
            only_output(ctx, "inclusion", &|r: &Fe| incl(*n, &leaf, &ix_fe(ix, *n), &sib, r, *d, &p, *sb), Some(&root));
        }
    });
    // degenerate values: zero and repeated siblings, zero leaf
    let mut items = vec![];
    for n in [4usize, 8] {
        for d in 1..=2usize {
            for ix in all_ix(n, d) {
                for kind in 0..3 {
                    items.push((n, d, ix.clone(), kind));
                }
            }
        }
    }
    if !ctx.thorough {
        items.retain(|x| x.1 == 1 || (x.2[0] as usize + x.2[1] as usize) % 3 == 0);
    }
    ctx.par("provable roots, degenerate values", &items, |(n, d, ix, kind)| {
        let p = params(*n, 1, 1, 0);
        let (leaf, s) = match kind {
            0 => (fe(0), fe(0)),
            1 => (fe(5), fe(5)),
            _ => (fe(0), fe(1)),
        };
        let sib = vec![vec![s; n - 1]; *d];
        let rt = RefTree { n: *n, depth: *d, p: &p, empty: vec![], sb: SboxType::Quint };
        let root = rt.fold(ix, &leaf, &sib);
        only_output(ctx, "inclusion", &|r: &Fe| incl(*n, &leaf, &ix_fe(ix, *n), &sib, r, *d, &p, SboxType::Quint), Some(&root));
    });
    // indices outside the tree have no proof for any root
    let mut items = vec![];
    for n in [4usize, 8] {
        for d in ctx.b(vec![1usize, 2, 3, 4, 5], (1..=12).collect()) {
            items.push((n, d));
        }
    }
    ctx.par("indices outside the tree", &items, |&(n, d)| {
        let p = params(n, 1, 0, 0);
        let size = (0..d).fold(Fe::one(), |a, _| a * fe(n as u64));
        let sib = sibs(n, d, "sib");
        let leaf = drv("leaf", 2);
        for i in [size.clone(), &size + Fe::one(), Fe::minus_one(), &size + &size, &size * fe(n as u64), drv("index", 1), fe(2).inverse(), size.negation(), two(200), two(254)] {
            only_output(ctx, "inclusion-range", &|r: &Fe| incl(n, &leaf, &i, &sib, r, d, &p, SboxType::Quint), None);
        }
    });
    // trees with more indices than the field has elements: a second digit sequence of the same index
    let items: Vec<(usize, usize)> = ctx.b(vec![(4, 127), (4, 128), (8, 84), (8, 85)], vec![(4, 126), (4, 127), (4, 128), (4, 129), (4, 150), (8, 83), (8, 84), (8, 85), (8, 86), (8, 100)]);
    ctx.par("index aliases in very deep trees", &items, |&(n, d)| {
        let p = params(n, 0, 0, 0);
        let sib = sibs(n, d, "sib");
        let leaf = drv("leaf", 5);
        // the honest path of a small index
        let mut ix = vec![0u8; d];
        ix[d - 1] = 3;
        ix[d - 2] = 1;
        let rt = RefTree { n, depth: d, p: &p, empty: vec![], sb: SboxType::Quint };
        let root = rt.fold(&ix, &leaf, &sib);
        let mk = |r: &Fe| incl(n, &leaf, &ix_fe(&ix, n), &sib, r, d, &p, SboxType::Quint);
        if !crate::circ::HOOKS || matches!(circuit(&mk(&root)), Ok(Err(_))) {
            ctx.count("refused depths", 1);
            return;
        }
        only_output(ctx, "inclusion-alias", &mk, Some(&root));
    });
    // any number of sibling commitments other than the tree's is refused
    let mut items = vec![];
    for n in [4usize, 8] {
        for d in ctx.b(vec![1usize, 2, 3], vec![1, 2, 3, 4, 5, 6]) {
            for c in 0..=(d + 2) * (n - 1) + 3 {
                if c != d * (n - 1) + 2 {
                    items.push((n, d, c));
                }
            }
        }
    }
    ctx.par("wrong sibling counts, verifier", &items, |&(n, d, c)| {
        if !crate::circ::HOOKS {
            return;
        }
        let p = params(n, 1, 0, 0);
        let mut s = merkle(n, fe(1), fe(0), sibs(n, d, "sib"), fe(1), d, p.clone(), SboxType::Quint);
        s.ncomm = c;
        ctx.st(1);
        ctx.tr(1);
        let r = circuit(&s);
        ctx.check(matches!(r, Ok(Err(_))), "inclusion-levels", || {
            format!("arity {} depth {}: a verifier given {} commitments instead of {} {}", n, d, c, d * (n - 1) + 2, if r.is_err() { "panics" } else { "accepts them" })
        });
    });
    // presenting an inner node as a leaf, or extra levels, through the entry points
    let mut items = vec![];
    for n in [4usize, 8] {
        for d in 1..=ctx.b(2usize, 3) {
            for lv in 0..=d + 2 {
                if lv != d {
                    items.push((n, d, lv));
                }
            }
        }
    }
    ctx.par("wrong levels, entry points", &items, |&(n, d, lv)| {
        let p = params(n, 1, 0, 0);
        let sib = sibs(n, lv, "sib");
        let rt = RefTree { n, depth: lv, p: &p, empty: vec![], sb: SboxType::Quint };
        for top in [vec![0u8; lv], vec![1u8; lv]] {
            let leaf = drv("inner", 1);
            let root = rt.fold(&top, &leaf, &sib);
            let s = merkle(n, leaf.clone(), ix_fe(&top, n), sib.clone(), root.clone(), d, p.clone(), SboxType::Quint);
            honest_false(ctx, "inclusion-levels", &s, 256, &Rnd::Rng(4));
            // made for its own number of levels, checked for the tree's depth
            if lv > 0 {
                let own = merkle(n, leaf, ix_fe(&top, n), sib.clone(), root, lv, p.clone(), SboxType::Quint);
                let g = gens(256);
                if let Ok(Ok((pf, c))) = guard(|| (own.gw)(&g, &given(2), GL)) {
                    ctx.tv(1);
                    let r = guard(|| (s.vw)(&g, pf, c, GL).is_ok());
                    ctx.check(r == Ok(false), "inclusion-levels", || format!("arity {}: a proof with {} levels checked for depth {}: {:?}", n, lv, d, r));
                }
            }
        }
    });
    // real trees end to end
    let mut items: Vec<(usize, usize, Ix)> = vec![];
    for ix in all_ix(4, 1) {
        items.push((4, 1, ix));
    }
    for ix in all_ix(8, 1) {
        items.push((8, 1, ix));
    }
    for ix in ctx.b(vec![vec![0, 0], vec![1, 3], vec![2, 1], vec![3, 2]], all_ix(4, 2)) {
        items.push((4, 2, ix));
    }
    for ix in ctx.b(vec![vec![6, 3], vec![1, 4]], deep_ix(8, 2)) {
        items.push((8, 2, ix));
    }
    items.push((4, 3, vec![3, 0, 2]));
    items.push((4, 5, vec![1, 3, 0, 2, 1]));
    ctx.par("real trees, entry points", &items, |(n, d, ix)| {
        let p = params(*n, 1, 0, 1);
        let rt = RefTree::new(*n, *d, &p);
        let mut m = Map::new();
        for (k, i) in deep_ix(*n, *d).into_iter().enumerate().take(6) {
            m.insert(i, drv("content", k as u64));
        }
        m.insert(ix.clone(), drv("content", 99));
        let i = ix_fe(ix, *n);
        // the library's own tree must supply the same root and siblings
        fn build<'a, const N: usize, T: Tree<'a, N>>(p: &'a PoseidonParams, d: usize, m: &Map, i: &Fe) -> Result<(Fe, Fe, Vec<Vec<Fe>>), R1CSError> {
            let mut db = Db::<N>::new();
            let mut t = T::make(p, d, &mut db);
            for (k, v) in m {
                t.up(&ix_fe(k, N), v.clone(), &mut db)?;
            }
            let (v, pf) = t.read_proof(i, &db)?;
            Ok((t.root(), v, pf))
        }
        let r = guard(|| {
            if *n == 4 {
                build::<4, VanillaSparseMerkleTree_4>(&p, *d, &m, &i)
            } else {
                build::<8, VanillaSparseMerkleTree_8>(&p, *d, &m, &i)
            }
        });
        let (root, leaf, sib) = match r {
            Ok(Ok(x)) => x,
            _ => {
                ctx.viol("inclusion-entry", format!("arity {} depth {}: tree operations fail", n, d));
                return;
            }
        };
        ctx.check(eq(&root, &rt.root(&m)), "inclusion-entry", || format!("arity {} depth {}: tree root", n, d));
        let mk = |l: &Fe, i: &Fe, s: &[Vec<Fe>], r: &Fe| merkle(*n, l.clone(), i.clone(), s.to_vec(), r.clone(), *d, p.clone(), SboxType::Quint);
        let s = mk(&leaf, &i, &sib, &root);
        let ng = need(&s, 512);
        honest_true(ctx, "inclusion-entry", &s, ng, &given(2));
        honest_true(ctx, "inclusion-entry", &s, ng, &Rnd::Rng(4));
        if *d > 2 {
            return;
        }
        let one = Fe::one();
        // (leaf, digits of the index if it is in the tree, index, siblings, root)
        let mut bad: Vec<(Fe, Option<Ix>, Fe, Vec<Vec<Fe>>, Fe)> = vec![
            (&leaf + &one, Some(ix.clone()), i.clone(), sib.clone(), root.clone()),
            (leaf.clone(), Some(ix.clone()), i.clone(), sib.clone(), &root + &one),
            (Fe::zero(), Some(ix.clone()), i.clone(), sib.clone(), root.clone()),
            (leaf.clone(), None, &i + (0..*d).fold(one.clone(), |a, _| a * fe(*n as u64)), sib.clone(), root.clone()),
        ];
        for l in 0..*d {
            let mut x = ix.clone();
            x[l] = (x[l] + 1) % *n as u8;
            bad.push((leaf.clone(), Some(x.clone()), ix_fe(&x, *n), sib.clone(), root.clone()));
            let mut s2 = sib.clone();
            s2[l][l] = &s2[l][l] + &one;
            bad.push((leaf.clone(), Some(ix.clone()), i.clone(), s2, root.clone()));
            let mut s2 = sib.clone();
            s2[l].reverse();
            bad.push((leaf.clone(), Some(ix.clone()), i.clone(), s2, root.clone()));
        }
        let mut s2 = sib.clone();
        s2.reverse();
        bad.push((leaf.clone(), Some(ix.clone()), i.clone(), s2, root.clone()));
        for (l2, x2, i2, s2, r2) in bad {
            if x2.map_or(false, |x| rt.verdict(&x, &l2, &s2, &r2)) {
                continue;
            }
            honest_false(ctx, "inclusion-entry", &mk(&l2, &i2, &s2, &r2), ng, &Rnd::Rng(4));
        }
        // an honest proof against another root
        let g = gens(ng);
        if let Ok(Ok((pf, c))) = guard(|| (s.gw)(&g, &given(2), GL)) {
            for r2 in [&root + &one, Fe::zero(), rt.empty[*d].clone()] {
                if eq(&r2, &root) {
                    continue;
                }
                let o = mk(&leaf, &i, &sib, &r2);
                ctx.tv(1);
                let v = guard(|| (o.vw)(&g, pf.clone(), c.clone(), GL).is_ok());
                ctx.check(v == Ok(false), "inclusion-entry", || format!("arity {} depth {}: honest proof accepted for another root: {:?}", n, d, v));
            }
        }
    });
    // full-size hash parameters at circuit level
    let full: Vec<(usize, usize)> = ctx.b(vec![(4, 2), (8, 1)], vec![(4, 1), (4, 2), (4, 3), (4, 5), (8, 1), (8, 2), (8, 3)]);
    ctx.par("full-size hash", &full, |&(n, d)| {
        let p = params(n, 4, 4, n / 4 + 55);
        let ix: Ix = (0..d).map(|l| ((l * 3 + 2) % n) as u8).collect();
        let leaf = drv("leaf", 3);
        let sib = sibs(n, d, "sib");
        let rt = RefTree { n, depth: d, p: &p, empty: vec![], sb: SboxType::Quint };
        let root = rt.fold(&ix, &leaf, &sib);
        only_output(ctx, "inclusion", &|r: &Fe| incl(n, &leaf, &ix_fe(&ix, n), &sib, r, d, &p, SboxType::Quint), Some(&root));
    });
}
