//! C16 Poseidon.
use crate::circ::*;
use crate::f::*;
use crate::g1::*;
use crate::gadgets::*;
use crate::rt::*;
use bulletproofs_amcl::r1cs::gadgets::helper_constraints::poseidon::*;
use bulletproofs_amcl::r1cs::linear_combination::{AllocatedQuantity, LinearCombination as LC};
use bulletproofs_amcl::r1cs::{ConstraintSystem, Prover};
use merlin::Transcript;
use std::sync::Arc;

pub fn pp(width: usize, b: usize, e: usize, p: usize) -> Pp {
    Arc::new(PoseidonParams::new(width, b, e, p))
}
pub const SB: [SboxType; 3] = [SboxType::Cube, SboxType::Inverse, SboxType::Quint];

/// The definition. Second component: some inverse S-box input was zero.
pub fn perm_ref(input: &[Fe], p: &PoseidonParams, sb: &SboxType) -> (Vec<Fe>, bool) {
    let w = p.width;
    let mut s = input.to_vec();
    let mut zero = false;
    let total = p.full_rounds_beginning + p.partial_rounds + p.full_rounds_end;
    for r in 0..total {
        let full = r < p.full_rounds_beginning || r >= p.full_rounds_beginning + p.partial_rounds;
        for i in 0..w {
            s[i] = &s[i] + &p.round_keys[r * w + i];
            if full || i == w - 1 {
                let x = s[i].clone();
                s[i] = match sb {
                    SboxType::Cube => &x * &x * &x,
                    SboxType::Quint => &x * &x * &x * &x * &x,
                    SboxType::Inverse => {
                        if x.is_zero() {
                            zero = true;
                            x
                        } else {
                            x.inverse()
                        }
                    }
                };
            }
        }
        s = (0..w).map(|i| (0..w).fold(Fe::zero(), |a, j| a + &s[j] * &p.MDS_matrix[j][i])).collect();
    }
    (s, zero)
}
pub fn hash_ref(inputs: &[Fe], p: &PoseidonParams, sb: &SboxType) -> (Fe, bool) {
    let mut v = vec![Fe::zero()];
    v.extend_from_slice(inputs);
    let (mut o, z) = perm_ref(&v, p, sb);
    (o.remove(1), z)
}
/// the hash when it is provable
fn want(inputs: &[Fe], p: &PoseidonParams, sb: &SboxType) -> Option<Fe> {
    let (h, z) = hash_ref(inputs, p, sb);
    if z {
        None
    } else {
        Some(h)
    }
}
fn native(inputs: &[Fe], p: &PoseidonParams, sb: &SboxType) -> Fe {
    match inputs.len() {
        2 => Poseidon_hash_2(inputs[0].clone(), inputs[1].clone(), p, sb),
        4 => Poseidon_hash_4(inputs.to_vec(), p, sb),
        _ => Poseidon_hash_8(inputs.to_vec(), p, sb),
    }
}
fn max_rounds(w: usize) -> usize {
    match w {
        3 => 63,
        5 => 64,
        _ => 65,
    }
}
/// digest of the published round constants, per width
const DIGEST: [(usize, &str); 3] = [(3, "0x60e10b32cb35642d5d6a1f649d40ec705263b7eb0438cd1aed8d4d03ac535f8c"), (5, "0x1a97632e0f2066beebc4ee11143be9b362b9fd5bcb0d89a843d768b8f28acf43"), (9, "0x05e76beaac80a883a041504b75977d5b89d4b094378fcbfada83377315b0fef0")];

fn inputs_for(w: usize, p: &PoseidonParams) -> Vec<Vec<Fe>> {
    let k = w - 1;
    let mut v: Vec<Vec<Fe>> = vec![
        (0..k).map(|i| drv("in", i as u64)).collect(),
        (0..k).map(|i| fe(i as u64 + 1)).collect(),
        vec![fe(0); k],
        vec![fe(1); k],
        vec![Fe::minus_one(); k],
    ];
    for i in 0..k {
        let mut x: Vec<Fe> = (0..k).map(|j| drv("in", 20 + j as u64)).collect();
        x[i] = fe(0);
        v.push(x.clone());
        // the S-box input of this position in the first round is 0 or -1
        if !p.round_keys.is_empty() {
            x[i] = p.round_keys[i + 1].negation();
            v.push(x.clone());
            x[i] = &x[i] - &Fe::one();
            v.push(x);
        }
    }
    v
}

pub fn c16(ctx: &Ctx) {
    // constants
    ctx.par("constants", &[3usize, 5, 9], |&w| {
        let full = pp(w, 4, 4, max_rounds(w) - 8);
        ctx.st(full.round_keys.len() as u64);
        let mut bytes = vec![];
        for k in &full.round_keys {
            bytes.extend(key(k));
        }
        let d = show(&Fe::from_msg_hash(&bytes));
        let e = DIGEST.iter().find(|x| x.0 == w).unwrap().1;
        ctx.check(d == e, "constants", || format!("width {}: round constants digest {} instead of {}", w, d, e));
        for i in 0..w {
            for j in 0..w {
                ctx.tr(1);
                let x = fe((i + j + w) as u64).inverse();
                ctx.check(eq(&full.MDS_matrix[i][j], &x), "constants", || {
                    format!("width {}: MDS[{}][{}] = {} is not the Cauchy entry {}", w, i, j, show(&full.MDS_matrix[i][j]), show(&x))
                });
            }
        }
        for b in 0..5 {
            for e in 0..5 {
                for p in [0, 1, 2, 7, max_rounds(w) - b - e] {
                    ctx.tv(1);
                    let q = pp(w, b, e, p);
                    let n = (b + e + p) * w;
                    let ok = q.round_keys.len() == n
                        && (0..n).all(|i| eq(&q.round_keys[i], &full.round_keys[i]))
                        && q.width == w
                        && (q.full_rounds_beginning, q.full_rounds_end, q.partial_rounds) == (b, e, p)
                        && (0..w).all(|i| (0..w).all(|j| eq(&q.MDS_matrix[i][j], &full.MDS_matrix[i][j])));
                    ctx.check(ok, "constants", || format!("parameters ({},{},{},{}) are not a prefix of the published constants", w, b, e, p));
                }
            }
        }
    });
    // native permutation and hashes against the definition
    let mut splits = vec![];
    for w in [3usize, 5, 9] {
        for b in 0..=2 {
            for p in 0..=2 {
                for e in 0..=2 {
                    splits.push((w, b, e, p));
                }
            }
        }
    }
    let full: Vec<(usize, usize, usize, usize)> = vec![(3, 4, 4, 55), (5, 4, 4, 56), (9, 4, 4, 57)];
    let mut nat = splits.clone();
    nat.extend(full.clone());
    nat.extend([(3, 8, 0, 55), (3, 0, 8, 55), (5, 3, 5, 50), (9, 5, 3, 41), (9, 0, 0, 65), (5, 0, 0, 64), (3, 63, 0, 0)]);
    ctx.par("native against the definition", &nat, |&(w, b, e, p)| {
        let q = pp(w, b, e, p);
        for sb in &SB {
            for inp in inputs_for(w, &q) {
                ctx.st(1);
                ctx.tr((b + e + p) as u64);
                ctx.tv(2);
                let mut st = vec![drv("first", 0)];
                st.extend(inp.clone());
                let r = guard(|| Poseidon_permutation(&st, &q, sb));
                let (d, _) = perm_ref(&st, &q, sb);
                ctx.check(r.as_ref().map_or(false, |r| r.len() == w && r.iter().zip(&d).all(|(x, y)| eq(x, y))), "native", || {
                    format!("permutation, width {} rounds {}+{}+{} {:?} on {:?} differs from the definition", w, b, p, e, sb, st.iter().map(show).collect::<Vec<_>>())
                });
                let h = guard(|| native(&inp, &q, sb));
                let (hd, _) = hash_ref(&inp, &q, sb);
                ctx.check(h.as_ref().map_or(false, |x| eq(x, &hd)), "native", || {
                    format!("hash of {} inputs, rounds {}+{}+{} {:?} on {:?} differs from the definition", w - 1, b, p, e, sb, inp.iter().map(show).collect::<Vec<_>>())
                });
            }
        }
    });
    // the hash is sensitive to the order of its inputs and to each of them (definition sanity, non-vacuity)
    // circuit: exactly the true output is provable
    let mut items = vec![];
    for &(w, b, e, p) in &splits {
        if !ctx.thorough && w == 9 && b + e + p > 3 {
            continue;
        }
        for sb in 0..3 {
            items.push((w, b, e, p, sb));
        }
    }
    ctx.par("provable outputs, small round splits", &items, |&(w, b, e, p, sb)| {
        let q = pp(w, b, e, p);
        let ins = inputs_for(w, &q);
        let take = ctx.b(if w == 9 { 6 } else { 9 }, ins.len());
        for inp in ins.into_iter().take(take) {
            let h = want(&inp, &q, &SB[sb]);
            only_output(ctx, "preimage", &|x: &Fe| poseidon(inp.clone(), x.clone(), q.clone(), SB[sb], w - 1), h.as_ref());
        }
    });
    // a special S-box input at every position and round (round keys chosen for it)
    let mut items = vec![];
    for (w, b, e, p) in [(3usize, 1usize, 1usize, 1usize), (5, 1, 1, 1), (9, 1, 0, 1), (3, 0, 2, 2)] {
        for r in 0..(b + e + p) {
            for i in 0..w {
                for sb in 0..3 {
                    for t in 0..4u8 {
                        items.push((w, b, e, p, sb, r, i, t));
                    }
                }
            }
        }
    }
    ctx.par("S-box input 0, 1, -1, 2 at every position", &items, |&(w, b, e, p, sb, r, i, t)| {
        let target = [fe(0), fe(1), Fe::minus_one(), fe(2)][t as usize].clone();
        let mut q = (*pp(w, b, e, p)).clone();
        let inp: Vec<Fe> = (0..w - 1).map(|j| drv("z", j as u64)).collect();
        // state before round r
        let mut pre = q.clone();
        let (nb, np) = (b.min(r), r.saturating_sub(b).min(p));
        pre.full_rounds_beginning = nb;
        pre.partial_rounds = np;
        pre.full_rounds_end = r - nb - np;
        let mut st = vec![Fe::zero()];
        st.extend(inp.clone());
        let (s, _) = perm_ref(&st, &pre, &SB[sb]);
        q.round_keys[r * w + i] = &target - &s[i];
        let q: Pp = Arc::new(q);
        ctx.tv(1);
        let h = guard(|| native(&inp, &q, &SB[sb]));
        ctx.check(h.map_or(false, |x| eq(&x, &hash_ref(&inp, &q, &SB[sb]).0)), "native", || format!("native hash with S-box input {} at round {} position {}", show(&target), r, i));
        let h = want(&inp, &q, &SB[sb]);
        only_output(ctx, "preimage", &|x: &Fe| poseidon(inp.clone(), x.clone(), q.clone(), SB[sb], w - 1), h.as_ref());
    });
    // full-size parameters
    let mut items = vec![];
    for &(w, b, e, p) in &full {
        for sb in 0..3 {
            for k in 0..ctx.b(1, 4) {
                items.push((w, b, e, p, sb, k));
            }
        }
    }
    ctx.par("provable outputs, full-size rounds", &items, |&(w, b, e, p, sb, k)| {
        let q = pp(w, b, e, p);
        let inp = inputs_for(w, &q)[k].clone();
        let h = want(&inp, &q, &SB[sb]);
        only_output(ctx, "preimage", &|x: &Fe| poseidon(inp.clone(), x.clone(), q.clone(), SB[sb], w - 1), h.as_ref());
    });
    // the whole permutation as a gadget: each output coordinate
    let mut items = vec![];
    for (w, b, e, p) in [(3usize, 0usize, 0usize, 0usize), (3, 1, 1, 1), (3, 2, 1, 2), (5, 1, 1, 1), (5, 0, 1, 2), (9, 1, 0, 1)] {
        for sb in 0..3 {
            for c in 0..w {
                items.push((w, b, e, p, sb, c));
            }
        }
    }
    ctx.par("permutation gadget, every output", &items, |&(w, b, e, p, sb, c)| {
        let q = pp(w, b, e, p);
        let inp: Vec<Fe> = (0..w).map(|j| drv("pg", j as u64)).collect();
        let (out, _) = perm_ref(&inp, &q, &SB[sb]);
        let mk = |x: &Fe| {
            let mut o = out.clone();
            o[c] = x.clone();
            perm_stmt(inp.clone(), o, q.clone(), SB[sb])
        };
        only_output(ctx, "permutation-gadget", &mk, Some(&out[c]));
        if c == 0 && w < 9 {
            honest_true(ctx, "permutation-gadget", &mk(&out[0]), 64, &given(w));
        }
        // with the output of the next coordinate
        honest_false(ctx, "permutation-gadget", &mk(&out[(c + 1) % w]), 64, &given(w));
    });
    // the prover's own evaluation of the circuit output equals the native output
    let mut items = vec![];
    for &(w, b, e, p) in splits.iter().chain(&full) {
        for sb in 0..3 {
            items.push((w, b, e, p, sb));
        }
    }
    ctx.par("evaluated circuit output", &items, |&(w, b, e, p, sb)| {
        let q = pp(w, b, e, p);
        for inp in inputs_for(w, &q).into_iter().take(ctx.b(3, 30)) {
            let g = gens(1);
            let mut t = Transcript::new(b"x");
            let mut pr = Prover::new(&g.g, &g.h, &mut t);
            let mut lcs: Vec<LC> = vec![LC::from(Fe::zero())];
            for x in &inp {
                lcs.push(pr.commit(x.clone(), fe(3)).1.into());
            }
            let (out, z) = perm_ref(&[vec![Fe::zero()], inp.clone()].concat(), &q, &SB[sb]);
            if z {
                continue;
            }
            ctx.st(1);
            ctx.tr((b + e + p) as u64);
            ctx.tv(1);
            let r = guard(|| Poseidon_permutation_constraints(&mut pr, lcs, &q, &SB[sb]));
            let ok = match &r {
                Ok(Ok(v)) => v.len() == w && v.iter().zip(&out).all(|(l, y)| pr.evaluate_lc(l).map_or(false, |x| eq(&x, y))),
                _ => false,
            };
            ctx.check(ok, "evaluated", || format!("circuit output, width {} rounds {}+{}+{} {:?} on {:?} differs from the definition", w, b, p, e, SB[sb], inp.iter().map(show).collect::<Vec<_>>()));
        }
    });
    // entry points: true, wrong and permuted statements
    let mut items = vec![];
    for (w, b, e, p) in [(3usize, 1usize, 1usize, 1usize), (3, 2, 2, 3), (5, 1, 1, 1), (5, 2, 0, 2), (9, 1, 0, 1), (9, 1, 1, 0)] {
        for sb in 0..3 {
            items.push((w, b, e, p, sb));
        }
    }
    if ctx.thorough {
        for &(w, b, e, p) in &full {
            for sb in 0..3 {
                items.push((w, b, e, p, sb));
            }
        }
    }
    ctx.par("entry points", &items, |&(w, b, e, p, sb)| {
        let q = pp(w, b, e, p);
        let k = w - 1;
        let sb = SB[sb];
        let inp: Vec<Fe> = (0..k).map(|i| drv("in", i as u64)).collect();
        let h = hash_ref(&inp, &q, &sb).0;
        let s = poseidon(inp.clone(), h.clone(), q.clone(), sb, k);
        let n = need(&s, 512).max(1);
        honest_true(ctx, "preimage-entry", &s, n, &given(k));
        honest_true(ctx, "preimage-entry", &s, n, &Rnd::Rng(9));
        if n > 256 {
            return;
        }
        // any two inputs exchanged; any input changed; another coordinate; another S-box
        let mut wrong: Vec<(Vec<Fe>, Fe)> = vec![];
        for i in 0..k {
            let mut x = inp.clone();
            x.swap(i, (i + 1) % k);
            wrong.push((x, h.clone()));
            let mut x = inp.clone();
            x[i] = &x[i] + Fe::one();
            wrong.push((x, h.clone()));
        }
        let all = perm_ref(&[vec![Fe::zero()], inp.clone()].concat(), &q, &sb).0;
        for c in [0, w - 1] {
            wrong.push((inp.clone(), all[c].clone()));
        }
        for s2 in &SB {
            wrong.push((inp.clone(), hash_ref(&inp, &q, s2).0));
        }
        wrong.push((inp.clone(), Fe::zero()));
        let g = gens(n);
        let proof = guard(|| (s.gw)(&g, &given(k), GL));
        for (x, y) in wrong {
            if eq(&hash_ref(&x, &q, &sb).0, &y) {
                continue;
            }
            let s2 = poseidon(x, y.clone(), q.clone(), sb, k);
            honest_false(ctx, "preimage-entry", &s2, n, &Rnd::Rng(9));
            // an honest proof is not accepted for another output
            if let Ok(Ok((pf, c))) = &proof {
                if !eq(&y, &h) {
                    ctx.tv(1);
                    let r = guard(|| (s2.vw)(&g, pf.clone(), c.clone(), GL).is_ok());
                    ctx.check(r == Ok(false), "preimage-entry", || format!("proof of {} accepted for output {}: {:?}", s.name, show(&y), r));
                }
            }
        }
    });
}

/// knowledge of an input of the permutation, all outputs public
pub fn perm_stmt(inp: Vec<Fe>, out: Vec<Fe>, q: Pp, sb: SboxType) -> Stmt {
    let w = q.width;
    let (i1, o1, q1) = (inp.clone(), out.clone(), q.clone());
    from_parts(
        format!("permutation{}({:?}, {:?}) = {:?}", w, inp.iter().map(show).collect::<Vec<_>>(), sb, out.iter().map(show).collect::<Vec<_>>()),
        w,
        inp.iter().cloned().enumerate().collect(),
        move |p, r| {
            let rs = r.many().unwrap();
            let mut c = vec![];
            let mut vs = vec![];
            for i in 0..w {
                let (cm, v) = p.commit(i1[i].clone(), rs[i].clone());
                c.push(cm);
                vs.push(AllocatedQuantity { variable: v, assignment: Some(i1[i].clone()) });
            }
            Poseidon_permutation_gadget(p, vs, &q1, &sb, &o1)?;
            Ok(c)
        },
        move |v, c, _| {
            let vs = c.into_iter().map(|x| AllocatedQuantity { variable: v.commit(x), assignment: None }).collect();
            Poseidon_permutation_gadget(v, vs, &q, &sb, &out)
        },
    )
}
