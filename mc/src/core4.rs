//! C26 sessions: several messages, challenges and proofs on one transcript.
use crate::core1::*;
use crate::f::*;
use crate::prog::*;
use crate::rt::*;
use bulletproofs_amcl::ipp::{InnerProductArgumentProof, IPP};
use bulletproofs_amcl::r1cs::{Prover, R1CSProof, Verifier};
use merlin::Transcript;
use std::sync::Arc;

#[derive(Clone, Copy, Debug, PartialEq)]
enum It {
    Msg(u8),
    Chal(u8),
    Proof(u8),
    Ipp(u8),
}
#[derive(Clone)]
enum Art {
    None,
    R(Arc<(R1CSProof, Vec<G1>)>),
    I(Arc<(InnerProductArgumentProof, G1)>),
}
fn circ_of(k: u8) -> Vec<Op> {
    match k {
        0 => sized(1, 0, 1),
        1 => vec![Op::Commit, Op::Pair, Op::Rand(vec![Op::Chal, Op::Con(1)])],
        2 => vec![Op::Commit, Op::Con(0)],
        _ => sized(2, 1, 2),
    }
}
fn msg(t: &mut Transcript, k: u8) {
    let label: &'static [u8] = if k < 4 { b"session-a" } else { b"session-b" };
    t.append_message(label, match k % 4 {
        0 => b"",
        1 => b"one",
        2 => b"two",
        _ => b"one ",
    })
}
fn draw(t: &mut Transcript, k: u8) -> Vec<u8> {
    let mut b = vec![0u8; 32];
    t.challenge_bytes(if k == 0 { b"session-c" } else { b"session-d" }, &mut b);
    b
}
fn ipv(n: usize, k: u64) -> FeV {
    (0..n).map(|i| drv("sess", i as u64 * 7 + k)).collect::<Vec<_>>().into()
}
/// the prover's side of a session: one artefact or challenge per item, and the final state
fn prove(h: &[It]) -> Result<(Vec<Art>, Vec<Vec<u8>>, Vec<u8>), String> {
    guard(|| {
        let g = gens(4);
        let mut t = Transcript::new(b"session");
        let (mut arts, mut ch) = (vec![], vec![]);
        for it in h {
            match it {
                It::Msg(k) => {
                    msg(&mut t, *k);
                    arts.push(Art::None)
                }
                It::Chal(k) => {
                    ch.push(draw(&mut t, *k));
                    arts.push(Art::None)
                }
                It::Proof(k) => {
                    let st = Exec::new(true, 3);
                    let mut comms = vec![];
                    let mut p = Prover::new(&g.g, &g.h, &mut t);
                    run_top(&mut p, &circ_of(*k), &st, &mut comms).unwrap();
                    let pf = p.prove(&g.G, &g.H).unwrap();
                    arts.push(Art::R(Arc::new((pf, comms))))
                }
                It::Ipp(k) => {
                    let n = 1usize << k;
                    let gg = gens(n);
                    let one: FeV = vec![Fe::one(); n].into();
                    let (a, b) = (ipv(n, 1), ipv(n, 2));
                    let pf = IPP::create_ipp(&mut t, &g.g, &one, &one, &gg.G, &gg.H, &a, &b);
                    let mut pt = &g.g * &a.inner_product(&b).unwrap();
                    for i in 0..n {
                        pt = pt + &gg.G[i] * &a[i] + &gg.H[i] * &b[i];
                    }
                    arts.push(Art::I(Arc::new((pf, pt))))
                }
            }
        }
        (arts, ch, draw(&mut t, 0))
    })
}
/// the verifier's side: verdict per item (challenges as bytes), and the final state
fn verify(h: &[(It, Art)]) -> Result<(Vec<Result<bool, Vec<u8>>>, Vec<u8>), String> {
    guard(|| {
        let g = gens(4);
        let mut t = Transcript::new(b"session");
        let mut out = vec![];
        for (it, art) in h {
            match (it, art) {
                (It::Msg(k), _) => {
                    msg(&mut t, *k);
                    out.push(Ok(true))
                }
                (It::Chal(k), _) => out.push(Err(draw(&mut t, *k))),
                (It::Proof(k), Art::R(a)) => {
                    let st = Exec::new(false, 3);
                    let mut comms = a.1.clone();
                    let mut v = Verifier::new(&mut t);
                    let ok = run_top(&mut v, &circ_of(*k), &st, &mut comms).is_ok() && v.verify(&a.0, &g.g, &g.h, &g.G, &g.H).is_ok();
                    out.push(Ok(ok))
                }
                (It::Ipp(k), Art::I(a)) => {
                    let n = 1usize << k;
                    let gg = gens(n);
                    let one: FeV = vec![Fe::one(); n].into();
                    out.push(Ok(IPP::verify_ipp(n, &mut t, &one, &one, &a.1, &g.g, &gg.G, &gg.H, &a.0.a, &a.0.b, &a.0.L, &a.0.R).is_ok()))
                }
                _ => out.push(Ok(false)),
            }
        }
        (out, draw(&mut t, 0))
    })
}

pub fn c26(ctx: &Ctx) {
    let alpha = vec![It::Msg(0), It::Msg(1), It::Chal(0), It::Proof(0), It::Proof(1), It::Proof(2), It::Ipp(1)];
    let mut hs: Vec<Vec<It>> = vec![vec![]];
    let mut cur = hs.clone();
    for _ in 0..ctx.b(3, 4) {
        let mut nx = vec![];
        for c in &cur {
            for a in &alpha {
                let mut v: Vec<It> = c.clone();
                v.push(*a);
                nx.push(v);
            }
        }
        hs.extend(nx.iter().cloned());
        cur = nx;
    }
    // longer ones
    for k in 0..ctx.b(8usize, 40) {
        hs.push((0..6 + k % 5).map(|i| [It::Proof(3), It::Ipp(2), It::Chal(1), It::Msg(5), It::Proof(1), It::Proof(0), It::Ipp(0), It::Proof(2)][(i * (2 * k + 1) + k) % 8]).collect());
    }
    ctx.par("sessions", &hs, |h| {
        let (arts, ch, end) = match prove(h) {
            Ok(x) => x,
            Err(e) => return ctx.viol("session", format!("prover side fails on {:?}: {}", h, e)),
        };
        ctx.st(1);
        ctx.tv(1);
        let base: Vec<(It, Art)> = h.iter().cloned().zip(arts.iter().cloned()).collect();
        match verify(&base) {
            Ok((out, vend)) => {
                let vch: Vec<Vec<u8>> = out.iter().filter_map(|o| o.clone().err()).collect();
                for (i, o) in out.iter().enumerate() {
                    ctx.tr(1);
                    ctx.check(*o != Ok(false), "session", || format!("item {} of {:?} is rejected", i, h));
                }
                ctx.check(vch == ch, "session", || format!("challenges drawn between proofs differ on {:?}", h));
                ctx.check(vend == end, "session", || format!("transcripts end differently on {:?}", h));
            }
            Err(e) => return ctx.viol("session", format!("verifier side panics on {:?}: {}", h, e)),
        }
        // a history that differs: nothing after the difference is accepted or repeats a challenge
        let mut alts: Vec<(String, usize, Vec<(It, Art)>)> = vec![];
        for i in 0..base.len() {
            let mut v = base.clone();
            v.remove(i);
            // removing one of a run of equal messages or challenges is a difference at the end of the run
            let at = (i..base.len()).find(|j| j + 1 >= base.len() || !same(&base[*j], &base[j + 1])).unwrap_or(i);
            alts.push((format!("without item {}", i), at, v));
            match h[i] {
                It::Msg(k) => {
                    for k2 in [(k + 1) % 4, k + 4 - 8 * (k / 4), 3] {
                        if k2 != k {
                            let mut v = base.clone();
                            v[i].0 = It::Msg(k2);
                            alts.push((format!("message {} changed", i), i, v));
                        }
                    }
                }
                It::Chal(k) => {
                    let mut v = base.clone();
                    v[i].0 = It::Chal(1 - k);
                    alts.push((format!("label of challenge {} changed", i), i, v));
                }
                _ => {}
            }
            // the last message of an inner-product argument is not absorbed, so exchanging two of one size
            // may leave the transcript as it was
            if i + 1 < base.len() && !same(&base[i], &base[i + 1]) && !matches!((h[i], h[i + 1]), (It::Ipp(a), It::Ipp(b)) if a == b) {
                let mut v = base.clone();
                v.swap(i, i + 1);
                alts.push((format!("items {} and {} exchanged", i, i + 1), i, v));
            }
        }
        for i in 0..=base.len() {
            for x in [It::Msg(2), It::Chal(1)] {
                let mut v = base.clone();
                v.insert(i, (x, Art::None));
                alts.push((format!("{:?} inserted at {}", x, i), i, v));
            }
        }
        for (what, at, v) in alts {
            ctx.tr(1);
            ctx.tv(1);
            match verify(&v) {
                Ok((out, vend)) => {
                    for (i, o) in out.iter().enumerate() {
                        match (&v[i].0, o) {
                            (It::Proof(_), Ok(ok)) | (It::Ipp(_), Ok(ok)) => {
                                // a one-element inner-product argument has no rounds and no challenge
                                if v[i].0 == It::Ipp(0) {
                                    continue;
                                }
                                ctx.check(*ok == (i < at), "other history", || format!("{} in {:?}: item {} is {}", what, h, i, if *ok { "accepted" } else { "rejected" }));
                            }
                            (_, Err(c)) => {
                                if i > at {
                                    ctx.check(!ch.contains(c), "other history", || format!("{} in {:?}: challenge {} is one of the original session", what, h, i));
                                }
                            }
                            _ => {}
                        }
                    }
                    ctx.check(vend != end, "other history", || format!("{} in {:?}: same final state", what, h));
                }
                Err(e) => ctx.viol("other history", format!("panic {}: {} in {:?}", e, what, h)),
            }
        }
    });
    // making and checking proofs leaves no trace outside the transcript: repeated and interleaved sessions
    let items: Vec<u8> = (0..4).collect();
    ctx.par("independent sessions", &items, |k| {
        let h = vec![It::Proof(*k), It::Chal(0)];
        let runs: Vec<_> = (0..3).map(|_| prove(&h)).collect();
        let runs: Vec<_> = match runs.into_iter().collect::<Result<Vec<_>, _>>() {
            Ok(r) => r,
            Err(e) => return ctx.viol("independent", e),
        };
        for (i, r) in runs.iter().enumerate() {
            for (j, q) in runs.iter().enumerate() {
                // i's proof with j's commitments: the caller's blindings are the same, so only the proof matters
                let base: Vec<(It, Art)> = h.iter().cloned().zip(r.0.iter().cloned()).collect();
                ctx.tr(1);
                ctx.check(matches!(verify(&base), Ok((ref o, ref e)) if o[0] == Ok(true) && *e == r.2), "independent", || format!("proof {} of circuit {} rejected after others were made", i, k));
                ctx.check(i == j || r.1 != q.1, "independent", || format!("two sessions of circuit {} yield the same challenge", k));
            }
        }
    });
}
fn same(a: &(It, Art), b: &(It, Art)) -> bool {
    a.0 == b.0 && matches!((&a.1, &b.1), (Art::None, Art::None))
}
