//! C27 the size and shape of a proof, and the generators it takes, follow from the circuit alone.
use crate::core1::*;
use crate::f::*;
use crate::prog::*;
use crate::refimpl::*;
use crate::rt::*;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::ipp::IPP;
use merlin::Transcript;

fn tails(g: &Gens, n: usize, p: &G1) -> Gens {
    let f = |v: &G1Vector| -> G1Vector {
        let mut x: Vec<G1> = v.as_slice()[..n].to_vec();
        x.extend(vec![p.clone(); 3]);
        x.into()
    };
    Gens { g: g.g.clone(), h: g.h.clone(), G: f(&g.G), H: f(&g.H) }
}
fn part(g: &Gens, a: usize, b: usize) -> Gens {
    let f = |v: &G1Vector, n: usize| -> G1Vector { v.as_slice()[..n].to_vec().into() };
    Gens { g: g.g.clone(), h: g.h.clone(), G: f(&g.G, a), H: f(&g.H, b) }
}
/// phase-two gates of a program, by the model
fn phase2_gates(m: &Made) -> usize {
    let s = m.st.borrow();
    s.l.len() - s.n1.unwrap_or(s.l.len())
}
fn one(ctx: &Ctx, ops: &[Op], prof: u8, full: bool) {
    let pn = npad(ops);
    let g = gens(pn);
    let m = match real_prove(ops, prof, &g) {
        Ok(Ok(m)) => m,
        Ok(Err((e, _))) => return ctx.viol("enough generators", format!("{} generators refused ({:?}) for {}", pn, e, sh(ops))),
        Err(e) => return ctx.viol("enough generators", format!("panic {} on {}", e, sh(ops))),
    };
    ctx.st(1);
    ctx.tr(1);
    ctx.tv(1);
    let p = RefProof::from_lib(&m.proof);
    let k = pn.trailing_zeros() as usize;
    ctx.check(p.ls.len() == k && p.rs.len() == k, "size", || format!("{}+{} inner-product points for {} gates, expected {} each: {}", p.ls.len(), p.rs.len(), gates(ops), k, sh(ops)));
    let n2 = phase2_gates(&m);
    for i in 0..11 {
        let empty = p.pts[i].is_identity();
        let want = (3..6).contains(&i) && n2 == 0;
        ctx.check(empty == want, "shape", || format!("{} is {}the identity with {} gates in phase two, profile {}: {}", PT[i], if empty { "" } else { "not " }, n2, prof, sh(ops)));
    }
    if !full {
        return;
    }
    // generators beyond the padded number play no part, on either side
    for q in [ident(), g.h.clone()] {
        let t = tails(&g, pn, &q);
        ctx.tv(1);
        ctx.check(verdict(ops, prof, &t, &m.proof, &m.comms, LABEL) == Ok(true), "spare generators", || format!("verifier uses more than {} generators on {}", pn, sh(ops)));
        match real_prove(ops, prof, &t) {
            Ok(Ok(m2)) => {
                ctx.check(verdict(ops, prof, &g, &m2.proof, &m2.comms, LABEL) == Ok(true), "spare generators", || format!("prover uses more than {} generators on {}", pn, sh(ops)));
                ctx.check(RefProof::from_lib(&m2.proof).ls.len() == k, "size", || format!("size depends on the number of generators on {}", sh(ops)));
            }
            x => ctx.viol("spare generators", format!("prover: {:?} on {}", x.map(|r| r.err().map(|e| e.0)), sh(ops))),
        }
    }
    // fewer are refused
    let mut short = vec![(pn - 1, pn), (pn, pn - 1), (0, pn), (pn, 0), (pn / 2, 2 * pn), (2 * pn, pn / 2)];
    short.dedup();
    let big = gens(2 * pn);
    for (a, b) in short {
        let s = part(&big, a, b);
        ctx.tv(2);
        match real_prove(ops, prof, &s) {
            Ok(Err((R1CSError::InvalidGeneratorsLength, _))) => {}
            x => ctx.viol("too few generators", format!("prover with {} and {} of {}: {:?} on {}", a, b, pn, x.map(|r| r.err().map(|e| e.0)), sh(ops))),
        }
        match real_verify(ops, prof, &s, &m.proof, &m.comms, LABEL) {
            Ok((Err(R1CSError::InvalidGeneratorsLength), _)) => {}
            x => ctx.viol("too few generators", format!("verifier with {} and {} of {}: {:?} on {}", a, b, pn, x.map(|r| r.0), sh(ops))),
        }
    }
}
pub fn c27(ctx: &Ctx) {
    let items: Vec<(usize, Vec<Op>)> = seqs(&alphabet(), ctx.b(3, 4)).into_iter().enumerate().collect();
    ctx.par("programs", &items, |(i, ops)| {
        one(ctx, ops, (i % NPROF as usize) as u8, i % 7 == 0);
        if i % 211 == 0 {
            ctx.sample(|| sh(ops));
        }
    });
    // every number of gates, split over the phases every way that matters, other counts varied
    let mut items = vec![];
    for n in 0..ctx.b(67usize, 140) {
        for a in [0, 1, n / 2, n.saturating_sub(1), n] {
            if a <= n {
                items.push((a, n - a, n % 4));
            }
        }
    }
    for n in ctx.b(vec![127usize, 128, 129, 255, 256, 257], vec![127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025]) {
        items.push((n, 0, 1));
        items.push((0, n, 1));
    }
    items.dedup();
    ctx.par("sizes", &items, |(a, b, m)| one(ctx, &sized(*a, *b, *m), ((a + b) % NPROF as usize) as u8, a + b < 40));
    // every witness profile on the same circuit: same size, same pattern
    let mut items = vec![];
    for p in 0..NPROF {
        for (a, b) in [(0, 0), (1, 0), (0, 1), (2, 0), (0, 2), (1, 1), (2, 3), (5, 0), (3, 6)] {
            for m in 0..3 {
                items.push((a, b, m, p));
            }
        }
    }
    ctx.par("witnesses", &items, |(a, b, m, p)| one(ctx, &sized(*a, *b, *m), *p, false));
    // constraints and commitments do not enlarge a proof
    let items: Vec<usize> = ctx.b(vec![0usize, 1, 10, 100, 1000], vec![0, 1, 10, 100, 1000, 10000]);
    ctx.par("constraints and commitments", &items, |q| {
        for ops in long_lists(*q) {
            one(ctx, &ops, 0, false);
        }
        let mut ops = vec![Op::Commit; (*q).min(300)];
        ops.push(Op::Pair);
        one(ctx, &ops, 3, false);
    });
    // the inner-product argument on its own
    let items: Vec<u32> = (0..ctx.b(8, 11)).collect();
    ctx.par("inner-product argument", &items, |k| {
        let n = 1usize << k;
        let g = gens(n);
        for kind in 0..3u64 {
            let v = |s: u64| -> Vec<Fe> { (0..n as u64).map(|i| match kind { 0 => Fe::zero(), 1 => fe(i % 2), _ => drv("c27", i + s) }).collect() };
            let one_: Vec<Fe> = vec![Fe::one(); n];
            ctx.st(1);
            ctx.tv(1);
            let r = guard(|| {
                let mut t = Transcript::new(b"size");
                IPP::create_ipp(&mut t, &g.g, &one_.clone().into(), &one_.clone().into(), &g.G, &g.H, &v(0).into(), &v(1000).into())
            });
            match r {
                Ok(p) => {
                    ctx.check(p.L.len() == *k as usize && p.R.len() == *k as usize, "size", || format!("{} and {} points for vectors of {}", p.L.len(), p.R.len(), n));
                }
                Err(e) => ctx.viol("size", e),
            }
        }
    });
}
