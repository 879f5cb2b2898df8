//! The library's gadgets as uniform statements, and the checks shared by the gadget properties.
use crate::circ::*;
use crate::f::*;
use crate::refimpl::*;
use crate::rt::*;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::gadgets::bound_check::*;
use bulletproofs_amcl::r1cs::gadgets::hamming_distance::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::{PoseidonParams, SboxType};
use bulletproofs_amcl::r1cs::gadgets::mimc::*;
use bulletproofs_amcl::r1cs::gadgets::non_zero::*;
use bulletproofs_amcl::r1cs::gadgets::poseidon_hash::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership::*;
use bulletproofs_amcl::r1cs::gadgets::set_membership_alt::*;
use bulletproofs_amcl::r1cs::gadgets::set_non_membership::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_4_ary::*;
use bulletproofs_amcl::r1cs::gadgets::sparse_merkle_tree_8_ary::*;
use bulletproofs_amcl::r1cs::{Prover, R1CSProof, Verifier};
use merlin::Transcript;
use rand::{CryptoRng, RngCore};
use std::sync::Arc;

pub type Res = Result<(), R1CSError>;
pub type Label = &'static [u8];
pub const GL: Label = b"mc-gadget";

/// A deterministic random source.
#[derive(Clone)]
pub struct Cnt(pub u64);
impl RngCore for Cnt {
    fn next_u32(&mut self) -> u32 {
        self.next_u64() as u32
    }
    fn next_u64(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for b in d {
            *b = self.next_u64() as u8;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Cnt {}

/// How the caller supplies randomness for its own inputs.
#[derive(Clone)]
pub enum Rnd {
    Given(Vec<Fe>),
    Rng(u64),
    /// both: the caller's randomness counts
    Both(Vec<Fe>, u64),
    Neither,
}
impl Rnd {
    pub fn one(&self) -> Option<Fe> {
        match self {
            Rnd::Given(v) | Rnd::Both(v, _) => v.first().cloned(),
            _ => None,
        }
    }
    pub fn many(&self) -> Option<Vec<Fe>> {
        match self {
            Rnd::Given(v) | Rnd::Both(v, _) => Some(v.clone()),
            _ => None,
        }
    }
    pub fn rng(&self) -> Option<Cnt> {
        match self {
            Rnd::Rng(s) | Rnd::Both(_, s) => Some(Cnt(*s)),
            _ => None,
        }
    }
}

type VF = Box<dyn Fn(&mut Verifier, Vec<G1>, &Gens) -> Res + Send + Sync>;
type PF = Box<dyn Fn(&mut Prover, &Rnd) -> Result<Vec<G1>, R1CSError> + Send + Sync>;
type GW = Box<dyn Fn(&Gens, &Rnd, Label) -> Result<(R1CSProof, Vec<G1>), R1CSError> + Send + Sync>;
type VW = Box<dyn Fn(&Gens, R1CSProof, Vec<G1>, Label) -> Res + Send + Sync>;

pub struct Stmt {
    pub name: String,
    /// number of commitments the caller hands to the verifier
    pub ncomm: usize,
    /// the caller's own inputs: position among the commitments and value
    pub inputs: Vec<(usize, Fe)>,
    /// whether the caller may choose the randomness of its inputs
    pub rnd: bool,
    pub pv: PF,
    pub vf: VF,
    pub gw: GW,
    pub vw: VW,
}

pub fn given(k: usize) -> Rnd {
    Rnd::Given((0..k).map(|i| drv("rand", i as u64)).collect())
}

pub fn bound(val: u64, lo: u64, hi: u64, bits: usize) -> Stmt {
    Stmt {
        name: format!("bound(v={} in [{},{}] bits={})", val, lo, hi, bits),
        ncomm: 3,
        inputs: vec![(0, fe(val))],
        rnd: true,
        pv: Box::new(move |p, r| prove_bounded_num(val, r.one(), lo, hi, bits, r.rng().as_mut(), p)),
        vf: Box::new(move |v, c, _| verify_bounded_num(lo, hi, bits, c, v)),
        gw: Box::new(move |g, r, l| gen_proof_of_bounded_num(val, r.one(), lo, hi, bits, r.rng().as_mut(), l, &g.g, &g.h, &g.G, &g.H)),
        vw: Box::new(move |g, p, c, l| verify_proof_of_bounded_num(lo, hi, bits, p, c, l, &g.g, &g.h, &g.G, &g.H)),
    }
}
pub fn setm(val: Fe, set: Vec<Fe>) -> Stmt {
    let (s1, s2, s3, s4) = (set.clone(), set.clone(), set.clone(), set.clone());
    let (v1, v2) = (val.clone(), val.clone());
    Stmt {
        name: format!("member({} in {:?})", show(&val), set.iter().map(show).collect::<Vec<_>>()),
        ncomm: set.len() + 1,
        inputs: vec![(0, val)],
        rnd: true,
        pv: Box::new(move |p, r| prove_set_membership(v1.clone(), r.one(), &s1, r.rng().as_mut(), p)),
        vf: Box::new(move |v, c, _| verify_set_membership(&s2, c, v)),
        gw: Box::new(move |g, r, l| gen_proof_of_set_membership(v2.clone(), r.one(), &s3, r.rng().as_mut(), l, &g.g, &g.h, &g.G, &g.H)),
        vw: Box::new(move |g, p, c, l| verify_proof_of_set_membership(&s4, p, c, l, &g.g, &g.h, &g.G, &g.H)),
    }
}
pub fn alt(val: u64, set: Vec<u64>) -> Stmt {
    let (s1, s2, s3, s4) = (set.clone(), set.clone(), set.clone(), set.clone());
    Stmt {
        name: format!("member_alt({} in {:?})", val, set),
        ncomm: set.len() + 1,
        inputs: vec![(set.len(), fe(val))],
        rnd: true,
        pv: Box::new(move |p, r| prove_set_membership_alt(val, r.one(), &s1, r.rng().as_mut(), p)),
        vf: Box::new(move |v, c, _| verify_set_membership_alt(&s2, c, v)),
        gw: Box::new(move |g, r, l| gen_proof_of_set_membership_alt(val, r.one(), &s3, r.rng().as_mut(), l, &g.g, &g.h, &g.G, &g.H)),
        vw: Box::new(move |g, p, c, l| verify_proof_of_set_membership_alt(&s4, p, c, l, &g.g, &g.h, &g.G, &g.H)),
    }
}
pub fn nonmem(val: Fe, set: Vec<Fe>) -> Stmt {
    let (s1, s2, s3, s4) = (set.clone(), set.clone(), set.clone(), set.clone());
    let (v1, v2) = (val.clone(), val.clone());
    Stmt {
        name: format!("non_member({} not in {:?})", show(&val), set.iter().map(show).collect::<Vec<_>>()),
        ncomm: 2 * set.len() + 1,
        inputs: vec![(0, val)],
        rnd: true,
        pv: Box::new(move |p, r| prove_set_non_membership(v1.clone(), r.one(), &s1, r.rng().as_mut(), p)),
        vf: Box::new(move |v, c, _| verify_set_non_membership(&s2, c, v)),
        gw: Box::new(move |g, r, l| gen_proof_of_set_non_membership(v2.clone(), r.one(), &s3, r.rng().as_mut(), l, &g.g, &g.h, &g.G, &g.H)),
        vw: Box::new(move |g, p, c, l| verify_proof_of_set_non_membership(&s4, p, c, l, &g.g, &g.h, &g.G, &g.H)),
    }
}
pub fn nonzero(val: Fe) -> Stmt {
    let (v1, v2) = (val.clone(), val.clone());
    Stmt {
        name: format!("non_zero({})", show(&val)),
        ncomm: 2,
        inputs: vec![(0, val)],
        rnd: true,
        pv: Box::new(move |p, r| prove_non_zero_val(v1.clone(), r.one(), r.rng().as_mut(), p)),
        vf: Box::new(move |v, c, _| verify_non_zero_val(c, v)),
        gw: Box::new(move |g, r, l| gen_proof_of_non_zero_val(v2.clone(), r.one(), r.rng().as_mut(), l, &g.g, &g.h, &g.G, &g.H)),
        vw: Box::new(move |g, p, c, l| verify_proof_of_non_zero_val(p, c, l, &g.g, &g.h, &g.G, &g.H)),
    }
}
pub fn hamming(orig: Vec<Fe>, new: Vec<Fe>, k: u64) -> Stmt {
    let (o1, o2) = (orig.clone(), orig.clone());
    let (n1, n2, n3, n4) = (new.clone(), new.clone(), new.clone(), new.clone());
    Stmt {
        name: format!(
            "hamming({:?} vs {:?} = {})",
            orig.iter().map(show).collect::<Vec<_>>(),
            new.iter().map(show).collect::<Vec<_>>(),
            k
        ),
        ncomm: orig.len(),
        inputs: orig.iter().cloned().enumerate().collect(),
        rnd: false,
        pv: Box::new(move |p, _| prove_hamming_distance(&o1, &n1, k, p)),
        vf: Box::new(move |v, c, _| verify_hamming_distance(&n2, k, c, v)),
        gw: Box::new(move |g, _, l| gen_proof_for_hamming_distance(&o2, &n3, k, l, &g.g, &g.h, &g.G, &g.H)),
        vw: Box::new(move |g, p, c, l| verify_proof_for_hamming_distance(&n4, k, p, c, l, &g.g, &g.h, &g.G, &g.H)),
    }
}
pub fn mimc(inputs: Vec<Fe>, out: Fe, consts: Vec<Fe>, rounds: usize) -> Stmt {
    let (i1, i2) = (inputs.clone(), inputs.clone());
    let (o1, o2, o3, o4) = (out.clone(), out.clone(), out.clone(), out.clone());
    let (c1, c2, c3, c4) = (consts.clone(), consts.clone(), consts.clone(), consts.clone());
    Stmt {
        name: format!("mimc({:?}, rounds {}) = {}", inputs.iter().map(show).collect::<Vec<_>>(), rounds, show(&out)),
        ncomm: 2,
        inputs: inputs.iter().cloned().enumerate().collect(),
        rnd: true,
        pv: Box::new(move |p, r| prove_mimc_preimage(i1.clone(), r.many(), &o1, &c1, rounds, r.rng().as_mut(), p)),
        vf: Box::new(move |v, c, _| verify_mimc_preimage(&o2, &c2, rounds, c, v)),
        gw: Box::new(move |g, r, l| gen_proof_of_knowledge_of_preimage_of_mimc(i2.clone(), r.many(), &o3, &c3, rounds, r.rng().as_mut(), l, &g.g, &g.h, &g.G, &g.H)),
        vw: Box::new(move |g, p, c, l| verify_knowledge_of_preimage_of_mimc(&o4, &c4, rounds, p, c, l, &g.g, &g.h, &g.G, &g.H)),
    }
}
pub type Pp = Arc<PoseidonParams>;
pub fn poseidon(inputs: Vec<Fe>, out: Fe, pp: Pp, sb: SboxType, arity: usize) -> Stmt {
    let (i1, i2) = (inputs.clone(), inputs.clone());
    let (o1, o2, o3, o4) = (out.clone(), out.clone(), out.clone(), out.clone());
    let (p1, p2, p3, p4) = (pp.clone(), pp.clone(), pp.clone(), pp.clone());
    Stmt {
        name: format!(
            "poseidon{}({:?}, {:?}, rounds {}+{}+{}) = {}",
            arity,
            inputs.iter().map(show).collect::<Vec<_>>(),
            sb,
            pp.full_rounds_beginning,
            pp.partial_rounds,
            pp.full_rounds_end,
            show(&out)
        ),
        ncomm: arity,
        inputs: inputs.iter().cloned().enumerate().collect(),
        rnd: true,
        pv: Box::new(move |p, r| {
            let (i, m, mut g) = (i1.clone(), r.many(), r.rng());
            match arity {
                2 => prove_knowledge_of_preimage_of_Poseidon_2(i, m, &o1, &p1, &sb, g.as_mut(), p),
                4 => prove_knowledge_of_preimage_of_Poseidon_4(i, m, &o1, &p1, &sb, g.as_mut(), p),
                _ => prove_knowledge_of_preimage_of_Poseidon_8(i, m, &o1, &p1, &sb, g.as_mut(), p),
            }
        }),
        vf: Box::new(move |v, c, g| match arity {
            2 => verify_knowledge_of_preimage_of_Poseidon_2(&o2, &p2, &sb, c, &g.g, &g.h, v),
            4 => verify_knowledge_of_preimage_of_Poseidon_4(&o2, &p2, &sb, c, &g.g, &g.h, v),
            _ => verify_knowledge_of_preimage_of_Poseidon_8(&o2, &p2, &sb, c, &g.g, &g.h, v),
        }),
        gw: Box::new(move |g, r, l| {
            let (i, m, mut rg) = (i2.clone(), r.many(), r.rng());
            match arity {
                2 => gen_proof_of_knowledge_of_preimage_of_Poseidon_2(i, m, &o3, &p3, &sb, rg.as_mut(), l, &g.g, &g.h, &g.G, &g.H),
                4 => gen_proof_of_knowledge_of_preimage_of_Poseidon_4(i, m, &o3, &p3, &sb, rg.as_mut(), l, &g.g, &g.h, &g.G, &g.H),
                _ => gen_proof_of_knowledge_of_preimage_of_Poseidon_8(i, m, &o3, &p3, &sb, rg.as_mut(), l, &g.g, &g.h, &g.G, &g.H),
            }
        }),
        vw: Box::new(move |g, p, c, l| match arity {
            2 => verify_proof_of_knowledge_of_preimage_of_Poseidon_2(&o4, &p4, &sb, p, c, l, &g.g, &g.h, &g.G, &g.H),
            4 => verify_proof_of_knowledge_of_preimage_of_Poseidon_4(&o4, &p4, &sb, p, c, l, &g.g, &g.h, &g.G, &g.H),
            _ => verify_proof_of_knowledge_of_preimage_of_Poseidon_8(&o4, &p4, &sb, p, c, l, &g.g, &g.h, &g.G, &g.H),
        }),
    }
}
/// Merkle inclusion, arity 4 or 8; siblings level by level from the root, each of arity-1 values.
pub fn merkle(arity: usize, leaf: Fe, index: Fe, sib: Vec<Vec<Fe>>, root: Fe, depth: usize, pp: Pp, sb: SboxType) -> Stmt {
    let n4 = |s: &Vec<Vec<Fe>>| -> Vec<[Fe; 3]> { s.iter().map(|n| [n[0].clone(), n[1].clone(), n[2].clone()]).collect() };
    let n8 = |s: &Vec<Vec<Fe>>| -> Vec<[Fe; 7]> {
        s.iter()
            .map(|n| [n[0].clone(), n[1].clone(), n[2].clone(), n[3].clone(), n[4].clone(), n[5].clone(), n[6].clone()])
            .collect()
    };
    let (s1, s2) = (sib.clone(), sib.clone());
    let (l1, l2, x1, x2) = (leaf.clone(), leaf.clone(), index.clone(), index.clone());
    let (r1, r2, r3, r4) = (root.clone(), root.clone(), root.clone(), root.clone());
    let (p1, p2, p3, p4) = (pp.clone(), pp.clone(), pp.clone(), pp.clone());
    Stmt {
        name: format!("merkle{}(leaf {}, index {}, depth {}, levels {}, {:?})", arity, show(&leaf), show(&index), depth, sib.len(), sb),
        ncomm: 2 + (arity - 1) * sib.len(),
        inputs: vec![(0, leaf), (1, index)],
        rnd: true,
        pv: Box::new(move |p, r| {
            let (m, mut g) = (r.many(), r.rng());
            if arity == 4 {
                prove_leaf_inclusion_4_ary_merkle_tree(l1.clone(), x1.clone(), m, n4(&s1), &r1, depth, &p1, &sb, g.as_mut(), p)
            } else {
                prove_leaf_inclusion_8_ary_merkle_tree(l1.clone(), x1.clone(), m, n8(&s1), &r1, depth, &p1, &sb, g.as_mut(), p)
            }
        }),
        vf: Box::new(move |v, c, g| {
            if arity == 4 {
                verify_leaf_inclusion_4_ary_merkle_tree(&r2, depth, &p2, &sb, c, &g.g, &g.h, v)
            } else {
                verify_leaf_inclusion_8_ary_merkle_tree(&r2, depth, &p2, &sb, c, &g.g, &g.h, v)
            }
        }),
        gw: Box::new(move |g, r, l| {
            let (m, mut rg) = (r.many(), r.rng());
            if arity == 4 {
                gen_proof_of_leaf_inclusion_4_ary_merkle_tree(l2.clone(), x2.clone(), m, n4(&s2), &r3, depth, &p3, &sb, rg.as_mut(), l, &g.g, &g.h, &g.G, &g.H)
            } else {
                gen_proof_of_leaf_inclusion_8_ary_merkle_tree(l2.clone(), x2.clone(), m, n8(&s2), &r3, depth, &p3, &sb, rg.as_mut(), l, &g.g, &g.h, &g.G, &g.H)
            }
        }),
        vw: Box::new(move |g, p, c, l| {
            if arity == 4 {
                verify_proof_of_leaf_inclusion_4_ary_merkle_tree(&r4, depth, &p4, &sb, p, c, l, &g.g, &g.h, &g.G, &g.H)
            } else {
                verify_proof_of_leaf_inclusion_8_ary_merkle_tree(&r4, depth, &p4, &sb, p, c, l, &g.g, &g.h, &g.G, &g.H)
            }
        }),
    }
}

/// A statement from its circuit-building parts; the full entry points are put together from them.
pub fn from_parts(
    name: String,
    ncomm: usize,
    inputs: Vec<(usize, Fe)>,
    pv: impl Fn(&mut Prover, &Rnd) -> Result<Vec<G1>, R1CSError> + Send + Sync + 'static,
    vf: impl Fn(&mut Verifier, Vec<G1>, &Gens) -> Res + Send + Sync + 'static,
) -> Stmt {
    let (pv, vf) = (Arc::new(pv), Arc::new(vf));
    let (p1, v1) = (pv.clone(), vf.clone());
    Stmt {
        name,
        ncomm,
        inputs,
        rnd: true,
        pv: Box::new(move |p, r| pv(p, r)),
        vf: Box::new(move |v, c, g| vf(v, c, g)),
        gw: Box::new(move |g, r, l| {
            let mut t = Transcript::new(l);
            let mut p = Prover::new(&g.g, &g.h, &mut t);
            let c = p1(&mut p, r)?;
            Ok((p.prove(&g.G, &g.H)?, c))
        }),
        vw: Box::new(move |g, pr, c, l| {
            let mut t = Transcript::new(l);
            let mut v = Verifier::new(&mut t);
            v1(&mut v, c, g)?;
            v.verify(&pr, &g.g, &g.h, &g.G, &g.H)
        }),
    }
}
/// Several statements in one proof, in order.
pub fn compose(parts: Vec<Arc<Stmt>>) -> Stmt {
    let name = parts.iter().map(|s| s.name.clone()).collect::<Vec<_>>().join(" ; ");
    let mut inputs = vec![];
    let mut off = 0;
    for s in &parts {
        for (i, x) in &s.inputs {
            inputs.push((off + i, x.clone()));
        }
        off += s.ncomm;
    }
    let p2 = parts.clone();
    from_parts(
        name,
        off,
        inputs,
        move |p, r| {
            let mut c = vec![];
            for s in &parts {
                c.extend((s.pv)(p, r)?);
            }
            Ok(c)
        },
        move |v, c, g| {
            let mut at = 0;
            for s in &p2 {
                if c.len() < at + s.ncomm {
                    return Err(R1CSError::FormatError);
                }
                (s.vf)(v, c[at..at + s.ncomm].to_vec(), g)?;
                at += s.ncomm;
            }
            Ok(())
        },
    )
}

// ------------------------------------------------------------------------------ shared checks

/// The statement's circuit on the verifier, with stand-in commitments.
pub fn circuit(s: &Stmt) -> Result<Result<Circ, R1CSError>, String> {
    let g = gens(1);
    guard(|| extract(&|v: &mut Verifier| (s.vf)(v, stand_ins(s.ncomm), &g)))
}
/// Committed variables the verifier commits to itself: position -> opening (value, blinding 0).
pub fn statics(c: &Circ, ncomm: usize) -> Vec<(V, Fe)> {
    let g = gens(1);
    let si: std::collections::BTreeSet<Vec<u8>> = stand_ins(ncomm).iter().map(pkey).collect();
    let ks: Vec<(Vec<u8>, u64)> = [0u64, 101, 1, 2].iter().map(|k| (pkey(&(&g.g * &fe(*k))), *k)).collect();
    let mut out = vec![];
    for (i, p) in c.comms.iter().enumerate() {
        let p = pkey(p);
        if si.contains(&p) {
            continue;
        }
        if let Some((_, k)) = ks.iter().find(|x| x.0 == p) {
            out.push((i, fe(*k)));
        }
    }
    out
}
/// position of the caller's i-th commitment among the verifier's commitments
pub fn comm_pos(c: &Circ, ncomm: usize) -> Vec<Option<V>> {
    let mut at: std::collections::BTreeMap<Vec<u8>, V> = Default::default();
    for (i, p) in c.comms.iter().enumerate() {
        at.entry(pkey(p)).or_insert(i);
    }
    stand_ins(ncomm).iter().map(|q| at.get(&pkey(q)).cloned()).collect()
}
pub fn pad(c: &Circ) -> usize {
    c.n.next_power_of_two()
}
pub fn gens_for(c: &Circ) -> Gens {
    gens(pad(c).min(NGENS))
}
/// Replays a witness: the independent prover makes a proof from it, the library verifies it.
pub fn replay(s: &Stmt, c: &Circ, a: &[Fe]) -> Result<bool, String> {
    let st = statics(c, s.ncomm);
    let blind: Vec<Fe> = (0..c.m)
        .map(|i| if st.iter().any(|x| x.0 == i) { Fe::zero() } else { drv("blind", i as u64) })
        .collect();
    let g = gens_for(c);
    let (p, comms) = forge(c, a, &blind, &g, GL);
    let pos = comm_pos(c, s.ncomm);
    let mine: Vec<G1> = pos.iter().map(|p| p.map_or_else(|| stand_ins(1)[0].clone(), |i| comms[i].clone())).collect();
    guard(|| (s.vw)(&g, p.lib(), mine, GL).is_ok())
}
fn absorb(ctx: &Ctx, st: &Stats) {
    ctx.st(st.nodes);
    ctx.tr(st.assigns);
    ctx.count("search leaves", st.leaves);
    if st.menu > 0 {
        ctx.count("menu branches", st.menu);
    }
    if st.exhausted {
        ctx.count("search budget exhausted", 1);
    }
}
pub fn fixed_of(s: &Stmt, c: &Circ) -> Vec<(V, Fe)> {
    let pos = comm_pos(c, s.ncomm);
    let mut fx = statics(c, s.ncomm);
    for (i, x) in &s.inputs {
        if let Some(Some(p)) = pos.get(*i) {
            fx.push((*p, x.clone()));
        }
    }
    fx
}
/// The statement is false: no assignment of helper and internal variables satisfies the verifier's
/// circuit. A found witness is replayed against the library before it is reported.
pub fn unprovable(ctx: &Ctx, key: &str, s: &Stmt, menu: &[Fe]) {
    if !HOOKS {
        return;
    }
    let c = match circuit(s) {
        Err(p) => {
            ctx.viol(key, format!("{}: verifier side panics: {}", s.name, p));
            return;
        }
        Ok(Err(_)) => {
            ctx.st(1);
            return; // refused: not provable
        }
        Ok(Ok(c)) => c,
    };
    let fx = fixed_of(s, &c);
    let mut se = Search::new(&c).menu(menu);
    let a = se.solve(&fx);
    absorb(ctx, &se.stats);
    if let Some(a) = a {
        if pad(&c) > NGENS {
            ctx.count("witness too large to replay", 1);
            return;
        }
        match replay(s, &c, &a) {
            Ok(true) => ctx.viol(
                key,
                format!(
                    "false statement {} is provable: the verifier accepts a proof made from wire values {:?}",
                    s.name,
                    a.iter().take(40).map(show).collect::<Vec<_>>()
                ),
            ),
            Ok(false) => ctx.count("witness found in the model but its proof was rejected", 1),
            Err(p) => ctx.viol(key, format!("{}: verification panics: {}", s.name, p)),
        }
    }
}
/// The statement is true: the verifier's circuit has a witness, and its proof is accepted when replayed.
pub fn provable(ctx: &Ctx, key: &str, s: &Stmt, menu: &[Fe], do_replay: bool) {
    if !HOOKS {
        return;
    }
    let c = match circuit(s) {
        Ok(Ok(c)) => c,
        e => {
            ctx.viol(key, format!("{}: verifier side refuses a true statement: {:?}", s.name, e.map(|r| r.err())));
            return;
        }
    };
    let fx = fixed_of(s, &c);
    let mut se = Search::new(&c).menu(menu);
    let a = se.solve(&fx);
    absorb(ctx, &se.stats);
    match a {
        None => {
            if !se.stats.exhausted && se.stats.menu == 0 {
                ctx.viol(key, format!("true statement {} has no witness", s.name));
            }
        }
        Some(a) => {
            if do_replay && pad(&c) <= NGENS {
                ctx.tv(1);
                match replay(s, &c, &a) {
                    Ok(true) => {}
                    x => ctx.viol(key, format!("{}: proof made from a satisfying witness is not accepted: {:?}", s.name, x)),
                }
            }
        }
    }
}
/// Honest proof through the full entry points.
#[derive(PartialEq, Debug, Clone, Copy)]
pub enum Out {
    Accepted,
    Refused,
    Rejected,
    Panicked,
}
pub fn honest(s: &Stmt, g: &Gens, r: &Rnd) -> (Out, String) {
    let p = match guard(|| (s.gw)(g, r, GL)) {
        Err(e) => return (Out::Panicked, format!("prover: {}", e)),
        Ok(Err(e)) => return (Out::Refused, format!("{:?}", e)),
        Ok(Ok(x)) => x,
    };
    match guard(|| (s.vw)(g, p.0, p.1, GL)) {
        Err(e) => (Out::Panicked, format!("verifier: {}", e)),
        Ok(Err(e)) => (Out::Rejected, format!("{:?}", e)),
        Ok(Ok(())) => (Out::Accepted, String::new()),
    }
}
/// generators for a statement: padded size of its circuit (or a fallback)
pub fn need(s: &Stmt, fallback: usize) -> usize {
    if HOOKS {
        if let Ok(Ok(c)) = circuit(s) {
            return pad(&c);
        }
    }
    fallback
}
pub fn honest_true(ctx: &Ctx, key: &str, s: &Stmt, ngens: usize, r: &Rnd) {
    ctx.st(1);
    ctx.tv(1);
    let o = honest(s, &gens(ngens), r);
    ctx.check(o.0 == Out::Accepted, key, || format!("honest proof of true statement {}: {:?} {}", s.name, o.0, o.1));
}
pub fn honest_false(ctx: &Ctx, key: &str, s: &Stmt, ngens: usize, r: &Rnd) {
    ctx.st(1);
    ctx.tv(1);
    let o = honest(s, &gens(ngens), r);
    ctx.check(o.0 == Out::Refused || o.0 == Out::Rejected, key, || {
        format!("prover run on false statement {}: {:?} {}", s.name, o.0, o.1)
    });
}
