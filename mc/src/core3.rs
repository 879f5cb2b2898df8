//! C21 linear combinations, C22 serialisation, C25 vector polynomials and generators.
use crate::core1::*;
use crate::f::*;
use crate::prog::*;
use crate::refimpl::*;
use crate::rt::*;
use bulletproofs_amcl::r1cs::linear_combination::{LinearCombination as LC, Variable as Var};
use bulletproofs_amcl::r1cs::{ConstraintSystem, Prover, R1CSProof, Verifier};
use bulletproofs_amcl::utils::vector_poly::{Poly2, Poly6, VecPoly1, VecPoly3};
use bulletproofs_amcl::utils::{gen_challenges, get_generators};
use merlin::Transcript;

/// An expression and its meaning as a function of the assignment.
#[derive(Clone)]
struct Ex {
    lc: LC,
    /// coefficients of v0,l0,r0,o0,One
    co: [Fe; 5],
    what: String,
}
const VARS: [Var; 5] = [Var::Committed(0), Var::MultiplierLeft(0), Var::MultiplierRight(0), Var::MultiplierOutput(0), Var::One()];
fn unit(i: usize) -> [Fe; 5] {
    let mut c = zero5();
    c[i] = Fe::one();
    c
}
fn zero5() -> [Fe; 5] {
    [Fe::zero(), Fe::zero(), Fe::zero(), Fe::zero(), Fe::zero()]
}
fn map(a: &[Fe; 5], b: &[Fe; 5], f: impl Fn(&Fe, &Fe) -> Fe) -> [Fe; 5] {
    [f(&a[0], &b[0]), f(&a[1], &b[1]), f(&a[2], &b[2]), f(&a[3], &b[3]), f(&a[4], &b[4])]
}
fn lin(c: &[Fe; 5], a: &[Fe; 5]) -> Fe {
    (0..5).fold(Fe::zero(), |s, i| s + &c[i] * &a[i])
}
fn idx(v: &Var) -> Option<usize> {
    VARS.iter().position(|x| x == v)
}
fn eval(lc: &LC, a: &[Fe; 5]) -> Option<Fe> {
    let mut s = Fe::zero();
    for (v, c) in &lc.terms {
        s = s + c * &a[idx(v)?];
    }
    Some(s)
}
fn leaves() -> Vec<Ex> {
    let mut v = vec![Ex { lc: LC::default(), co: zero5(), what: "0".into() }];
    for (i, x) in VARS.iter().enumerate() {
        v.push(Ex { lc: LC::from(*x), co: unit(i), what: format!("{:?}", x) });
        v.push(Ex { lc: -*x, co: map(&unit(i), &unit(i), |a, _| a.negation()), what: format!("-{:?}", x) });
        for c in [fe(0), fe(1), fi(-1), fe(3), drv("c", 1)] {
            v.push(Ex { lc: c.clone() * *x, co: map(&unit(i), &unit(i), |a, _| a * &c), what: format!("{}*{:?}", show(&c), x) });
            let mut co = unit(i);
            co[4] = &co[4] + &c;
            v.push(Ex { lc: c.clone() + *x, co, what: format!("{}+{:?}", show(&c), x) });
            let mut co = map(&unit(i), &unit(i), |a, _| a.negation());
            co[4] = &co[4] + &c;
            v.push(Ex { lc: c.clone() - *x, co, what: format!("{}-{:?}", show(&c), x) });
        }
        for (j, y) in VARS.iter().enumerate() {
            v.push(Ex { lc: *x + *y, co: map(&unit(i), &unit(j), |a, b| a + b), what: format!("{:?}+{:?}", x, y) });
            v.push(Ex { lc: *x - *y, co: map(&unit(i), &unit(j), |a, b| a - b), what: format!("{:?}-{:?}", x, y) });
            v.push(Ex { lc: *x + LC::from(*y), co: map(&unit(i), &unit(j), |a, b| a + b), what: format!("{:?}+LC({:?})", x, y) });
            v.push(Ex { lc: *x - LC::from(*y), co: map(&unit(i), &unit(j), |a, b| a - b), what: format!("{:?}-LC({:?})", x, y) });
            let t = vec![(*x, fe(2)), (*y, fi(-5)), (*x, fe(1))];
            let co = map(&unit(i), &unit(j), |a, b| a * fe(3) + b * fi(-5));
            v.push(Ex { lc: t.iter().collect(), co: co.clone(), what: format!("collect(&) {:?},{:?}", x, y) });
            v.push(Ex { lc: t.into_iter().collect(), co, what: format!("collect {:?},{:?}", x, y) });
        }
        for c in [fe(0), fi(-1), fe(9)] {
            let mut co = unit(i);
            co[4] = &co[4] + &c;
            v.push(Ex { lc: *x + c.clone(), co, what: format!("{:?}+{}", x, show(&c)) });
            let mut co = unit(i);
            co[4] = &co[4] - &c;
            v.push(Ex { lc: *x - c.clone(), co, what: format!("{:?}-{}", x, show(&c)) });
        }
    }
    for c in [fe(0), fe(7), fi(-2)] {
        let mut co = zero5();
        co[4] = c.clone();
        v.push(Ex { lc: LC::from(c.clone()), co, what: show(&c) });
    }
    v
}
fn unary(e: &Ex) -> Vec<Ex> {
    let mut v = vec![];
    let s = |c: &Fe| map(&e.co, &e.co, |a, _| a * c);
    v.push(Ex { lc: -e.lc.clone(), co: s(&fi(-1)), what: format!("-({})", e.what) });
    v.push(Ex { lc: e.lc.clone().simplify(), co: e.co.clone(), what: format!("simplify({})", e.what) });
    v.push(Ex { lc: e.lc.clone().get_terms().into_iter().collect(), co: e.co.clone(), what: format!("terms({})", e.what) });
    for c in [fe(0), fe(2), drv("c", 2)] {
        v.push(Ex { lc: c.clone() * e.lc.clone(), co: s(&c), what: format!("{}*({})", show(&c), e.what) });
        v.push(Ex { lc: &c * e.lc.clone(), co: s(&c), what: format!("&{}*({})", show(&c), e.what) });
    }
    for (i, x) in VARS.iter().enumerate() {
        let u = unit(i);
        v.push(Ex { lc: e.lc.clone() + *x, co: map(&e.co, &u, |a, b| a + b), what: format!("({})+{:?}", e.what, x) });
        v.push(Ex { lc: e.lc.clone() - *x, co: map(&e.co, &u, |a, b| a - b), what: format!("({})-{:?}", e.what, x) });
        v.push(Ex { lc: *x - e.lc.clone(), co: map(&u, &e.co, |a, b| a - b), what: format!("{:?}-({})", x, e.what) });
        v.push(Ex { lc: *x + e.lc.clone(), co: map(&u, &e.co, |a, b| a + b), what: format!("{:?}+({})", x, e.what) });
        let mut l = e.lc.clone();
        l += *x;
        v.push(Ex { lc: l, co: map(&e.co, &u, |a, b| a + b), what: format!("({})+={:?}", e.what, x) });
    }
    let mut one = zero5();
    one[4] = fe(11);
    v.push(Ex { lc: e.lc.clone() + fe(11), co: map(&e.co, &one, |a, b| a + b), what: format!("({})+11", e.what) });
    v.push(Ex { lc: e.lc.clone() - fe(11), co: map(&e.co, &one, |a, b| a - b), what: format!("({})-11", e.what) });
    let mut l = e.lc.clone();
    l += fe(11);
    v.push(Ex { lc: l, co: map(&e.co, &one, |a, b| a + b), what: format!("({})+=11", e.what) });
    v
}
fn binary(a: &Ex, b: &Ex) -> Vec<Ex> {
    let mut l = a.lc.clone();
    l += b.lc.clone();
    vec![
        Ex { lc: a.lc.clone() + b.lc.clone(), co: map(&a.co, &b.co, |x, y| x + y), what: format!("({})+({})", a.what, b.what) },
        Ex { lc: a.lc.clone() - b.lc.clone(), co: map(&a.co, &b.co, |x, y| x - y), what: format!("({})-({})", a.what, b.what) },
        Ex { lc: l, co: map(&a.co, &b.co, |x, y| x + y), what: format!("({})+=({})", a.what, b.what) },
    ]
}
fn check_ex(ctx: &Ctx, e: &Ex) {
    ctx.st(1);
    ctx.tr(1);
    // the function is linear: equality on the five unit assignments with One=1, on zero and on a generic one
    let mut asg: Vec<[Fe; 5]> = vec![];
    for i in 0..4 {
        let mut a = unit(i);
        a[4] = Fe::one();
        asg.push(a);
    }
    asg.push([Fe::zero(), Fe::zero(), Fe::zero(), Fe::zero(), Fe::one()]);
    asg.push([drv("x", 0), drv("x", 1), drv("x", 2), drv("x", 3), Fe::one()]);
    for a in &asg {
        match eval(&e.lc, a) {
            Some(x) => {
                ctx.check(eq(&x, &lin(&e.co, a)), "value", || format!("{} evaluates to {} instead of {}", e.what, show(&x), show(&lin(&e.co, a))));
            }
            None => ctx.viol("value", format!("{} mentions a foreign variable", e.what)),
        }
    }
    let s = e.lc.clone().simplify();
    let mut seen = std::collections::HashSet::new();
    for (v, _) in &s.terms {
        ctx.check(seen.insert(*v), "simplify", || format!("simplify({}) repeats {:?}", e.what, v));
    }
    let a = &asg[5];
    ctx.check(eval(&s, a).is_some_and(|x| eq(&x, &lin(&e.co, a))), "simplify", || format!("simplify({}) changes the value", e.what));
    ctx.check(e.lc.len() == e.lc.clone().get_terms().len(), "len", || e.what.clone());
}

pub fn c21(ctx: &Ctx) {
    let l = leaves();
    ctx.par("leaves", &l, |e| check_ex(ctx, e));
    ctx.par("unary chains", &l, |e| {
        for u in unary(e) {
            check_ex(ctx, &u);
            for w in unary(&u) {
                check_ex(ctx, &w);
                if ctx.thorough {
                    for z in unary(&w) {
                        check_ex(ctx, &z);
                    }
                }
            }
        }
    });
    ctx.par("binary", &l, |a| {
        for b in &l {
            for e in binary(a, b) {
                check_ex(ctx, &e);
                check_ex(ctx, &unary(&e)[1]);
            }
        }
    });
    if ctx.thorough {
        let small: Vec<Ex> = l.iter().step_by(5).cloned().collect();
        ctx.par("ternary", &small, |a| {
            for b in &small {
                for e in binary(a, b) {
                    for c in &small {
                        for f in binary(&e, c).into_iter().chain(binary(c, &e)) {
                            check_ex(ctx, &f);
                        }
                    }
                }
            }
        });
    }
    // combinations of every length: the map from variables to coefficients, whatever built it
    let mut lens: Vec<usize> = (0..ctx.b(140, 600)).collect();
    lens.extend([255, 256, 257, 511, 512, 513, 1000, 1024, 1025]);
    ctx.par("long combinations", &lens, |n| {
        let var = |i: usize| match i % 4 {
            0 => Var::Committed(i / 4),
            1 => Var::MultiplierLeft(i / 4),
            2 => Var::MultiplierRight(i / 4),
            _ => Var::MultiplierOutput(i / 4),
        };
        let terms: Vec<(Var, Fe)> = (0..*n).map(|i| (if i == 9 { Var::One() } else { var(i) }, fe(i as u64 + 2))).collect();
        type M = std::collections::HashMap<Var, Fe>;
        let meaning = |lc: &LC| -> M {
            let mut m = M::new();
            for (v, c) in &lc.terms {
                let e = m.entry(*v).or_insert(Fe::zero());
                *e = &*e + c;
            }
            m.retain(|_, c| !c.is_zero());
            m
        };
        let scaled = |k: &Fe| -> M { terms.iter().map(|(v, c)| (*v, c * k)).filter(|x| !x.1.is_zero()).collect() };
        let lc: LC = terms.iter().collect();
        let lc2: LC = terms.clone().into_iter().collect();
        let mut sum = LC::default();
        for (v, c) in &terms {
            sum = sum + (c.clone() * *v);
        }
        let mut acc = LC::default();
        for (v, c) in &terms {
            for _ in 0..2 {
                acc = acc - (c.clone() * *v);
            }
        }
        let mut dup = lc.clone();
        for (v, c) in terms.iter().rev() {
            dup = dup + c * LC::from(*v);
        }
        // many terms over few variables
        for few in [1usize, 2, 5] {
            let rep: Vec<(Var, Fe)> = (0..*n).map(|i| (VARS[i % few], fe(i as u64 + 1))).collect();
            let m = |l: &LC| (0..5).map(|j| l.terms.iter().filter(|t| t.0 == VARS[j]).fold(Fe::zero(), |s, t| s + &t.1)).collect::<Vec<_>>();
            let l: LC = rep.iter().collect();
            let sim = l.clone().simplify();
            ctx.st(1);
            ctx.tr(*n as u64);
            let once: std::collections::HashSet<Var> = sim.terms.iter().map(|t| t.0).collect();
            ctx.check(once.len() == sim.terms.len(), "long", || format!("simplified list of {} terms over {} variables: a variable is left twice", n, few));
            ctx.check(m(&l).iter().zip(&m(&sim)).all(|(x, y)| eq(x, y)), "long", || format!("simplified list of {} terms over {} variables changes its meaning", n, few));
        }
        let k = fe(3);
        let cases: Vec<(&str, LC, Fe)> = vec![
            ("collect", lc.clone(), fe(1)),
            ("collect owned", lc2, fe(1)),
            ("sum", sum.clone(), fe(1)),
            ("difference", acc.clone(), fi(-2)),
            ("repeated", dup.clone(), fe(2)),
            ("negated", -lc.clone(), fi(-1)),
            ("scaled", k.clone() * lc.clone(), fe(3)),
            ("scaled by reference", &k * lc.clone(), fe(3)),
            ("plus itself", lc.clone() + sum.clone(), fe(2)),
            ("minus itself", lc.clone() - sum.clone(), fe(0)),
            ("minus repeated", lc.clone() - dup.clone(), fi(-1)),
            ("simplified", lc.clone().simplify(), fe(1)),
            ("simplified repeated", dup.clone().simplify(), fe(2)),
            ("simplified difference", (acc.clone() + dup.clone()).simplify(), fe(0)),
            ("negated sum", -(dup.clone() + acc), fe(0)),
            ("terms", dup.get_terms().into_iter().collect(), fe(2)),
        ];
        for (w, x, k) in cases {
            ctx.st(1);
            ctx.tr(*n as u64);
            ctx.check(meaning(&x) == scaled(&k), "long", || format!("{} of {} terms", w, n));
            if w.starts_with("simplified") {
                let once: std::collections::HashSet<Var> = x.terms.iter().map(|t| t.0).collect();
                ctx.check(once.len() == x.len() && x.len() == x.terms.len(), "long", || format!("{} of {} terms: a variable is left twice, or the length is off", w, n));
            }
        }
    });
    ctx.sample(|| l[l.len() / 2].what.clone());
    // as constraints and as multiplication inputs on the real prover and verifier
    let mut exs: Vec<Ex> = l.iter().step_by(ctx.b(9, 2)).cloned().collect();
    for (i, e) in l.iter().enumerate().step_by(ctx.b(23, 5)) {
        exs.extend(unary(e));
        exs.extend(binary(e, &l[(i * 7 + 3) % l.len()]));
    }
    ctx.par("as constraints", &exs, |e| {
        let g = gens(4);
        let a: [Fe; 5] = [fe(5), fe(3), fe(4), fe(12), Fe::one()];
        let val = lin(&e.co, &a);
        for off in [0i64, 1] {
            for form in 0..3 {
                ctx.tv(1);
                let build = |cs: &mut dyn FnMut(LC), lc: &LC| {
                    let t = val.clone() + fi(off);
                    match form {
                        0 => cs(lc.clone() - t),
                        1 => cs(LC::from(t) - lc.clone()),
                        _ => cs((fe(2) * (lc.clone() - t)).simplify()),
                    }
                };
                let r = guard(|| {
                    let mut t = Transcript::new(b"lc");
                    let mut p = Prover::new(&g.g, &g.h, &mut t);
                    let (c, _) = p.commit(a[0].clone(), drv("b", 0));
                    p.allocate_multiplier(Some((a[1].clone(), a[2].clone()))).unwrap();
                    let ev = p.evaluate_lc(&e.lc);
                    let (_, _, o) = p.multiply(e.lc.clone(), LC::from(fe(2)));
                    let ov = p.evaluate_lc(&LC::from(o));
                    build(&mut |lc| p.constrain(lc), &e.lc);
                    p.constrain(o - val.clone() * fe(2));
                    let proof = p.prove(&g.G, &g.H).unwrap();
                    let mut t = Transcript::new(b"lc");
                    let mut v = Verifier::new(&mut t);
                    v.commit(c);
                    v.allocate_multiplier(None).unwrap();
                    let (_, _, o) = v.multiply(e.lc.clone(), LC::from(fe(2)));
                    build(&mut |lc| v.constrain(lc), &e.lc);
                    v.constrain(o - val.clone() * fe(2));
                    (ev, ov, v.verify(&proof, &g.g, &g.h, &g.G, &g.H).is_ok())
                });
                match r {
                    Ok((ev, ov, ok)) => {
                        ctx.check(ev.is_some_and(|x| eq(&x, &val)), "evaluate", || e.what.clone());
                        ctx.check(ov.is_some_and(|x| eq(&x, &(&val * fe(2)))), "multiply", || e.what.clone());
                        ctx.check(ok == (off == 0), "constraint", || format!("{} form {} offset {}: accepted={}", e.what, form, off, ok));
                    }
                    Err(p) => ctx.viol("constraint", format!("panic {} on {}", p, e.what)),
                }
            }
        }
    });
}

// ---------------------------------------------------------------- C22
pub fn c22(ctx: &Ctx) {
    let mut items: Vec<(usize, Vec<Op>)> = seqs(&alphabet(), ctx.b(2, 3)).into_iter().enumerate().collect();
    for (a, b) in size_grid(ctx.thorough) {
        if a + b <= ctx.b(17, 65) {
            items.push((a + b, sized(a, b, 2)));
        }
    }
    let sizes: std::sync::Mutex<std::collections::BTreeMap<usize, (usize, usize)>> = Default::default();
    ctx.par("round trips", &items, |(i, ops)| {
        let prof = (*i % NPROF as usize) as u8;
        let g = gens(npad(ops));
        let m = match real_prove(ops, prof, &g) {
            Ok(Ok(m)) => m,
            _ => return ctx.viol("prove", sh(ops)),
        };
        ctx.st(1);
        ctx.tr(2);
        ctx.tv(1);
        let r = guard(|| {
            let s = serde_json::to_string(&m.proof).unwrap();
            let q: R1CSProof = serde_json::from_str(&s).unwrap();
            let s2 = serde_json::to_string(&q).unwrap();
            (s, q, s2)
        });
        let (s, q, s2) = match r {
            Ok(x) => x,
            Err(e) => return ctx.viol("round trip", format!("panic {} on {}", e, sh(ops))),
        };
        let (a, b) = (RefProof::from_lib(&m.proof), RefProof::from_lib(&q));
        let same = a.pts.iter().zip(&b.pts).all(|(x, y)| peq(x, y)) && a.sc.iter().zip(&b.sc).all(|(x, y)| eq(x, y)) && a.ls.len() == b.ls.len() && a.rs.len() == b.rs.len() && a.ls.iter().zip(&b.ls).all(|(x, y)| peq(x, y)) && a.rs.iter().zip(&b.rs).all(|(x, y)| peq(x, y)) && eq(&a.a, &b.a) && eq(&a.b, &b.b);
        ctx.check(same, "components", || sh(ops));
        ctx.check(s == s2, "stable", || sh(ops));
        ctx.check(verdict(ops, prof, &g, &q, &m.comms, LABEL) == Ok(true), "verdict", || format!("proof rejected after a round trip: {}", sh(ops)));
        // independent reader: the reference verifier accepts what was read from the text
        ctx.check(matches!(ref_verify(ops, prof, &g, &b, &m.comms, LABEL), Ok(true)), "components", || format!("independent verifier rejects the round trip of {}", sh(ops)));
        // a wrong statement stays rejected after a round trip
        let mut bad = ops.clone();
        bad.push(Op::Con(100));
        ctx.check(verdict(&bad, prof, &g, &q, &m.comms, LABEL) == Ok(false), "verdict", || format!("accepted for a false statement after a round trip: {}", sh(&bad)));
        // sizes
        let pn = npad(ops);
        ctx.check(a.ls.len() == pn.trailing_zeros() as usize && a.rs.len() == a.ls.len(), "size", || format!("{} rounds for padded size {}", a.ls.len(), pn));
        let j: serde_json::Value = serde_json::from_str(&s).unwrap();
        fn count(v: &serde_json::Value) -> usize {
            match v {
                serde_json::Value::Array(a) => a.iter().map(count).sum(),
                serde_json::Value::Object(o) => o.values().map(count).sum(),
                _ => 1,
            }
        }
        let c = count(&j);
        let mut sz = sizes.lock().unwrap();
        let e = sz.entry(pn).or_insert((c, *i));
        if e.0 != c {
            ctx.viol("size", format!("{} serialised components instead of {} for padded size {}: {}", c, e.0, pn, sh(ops)));
        }
    });
    // mutated proofs keep their verdict as well
    for ops in [sized(2, 1, 1), sized(1, 0, 1), sized(0, 3, 2)] {
        let g = gens(npad(&ops));
        let Ok(Ok(m)) = real_prove(&ops, 3, &g) else {
            ctx.viol("prove", sh(&ops));
            continue;
        };
        let muts = mutations(&RefProof::from_lib(&m.proof), &g);
        ctx.par("edited proofs", &muts, |(w, q)| {
            let p = q.lib();
            let s = serde_json::to_string(&p).unwrap();
            let p2: R1CSProof = serde_json::from_str(&s).unwrap();
            ctx.tr(1);
            ctx.tv(1);
            ctx.check(verdict(&ops, 3, &g, &p, &m.comms, LABEL) == verdict(&ops, 3, &g, &p2, &m.comms, LABEL), "verdict", || format!("{} changes verdict in a round trip", w));
        });
    }
}
// ---------------------------------------------------------------- C25
fn ip(a: &FeV, b: &FeV) -> Fe {
    (0..a.len()).fold(Fe::zero(), |s, i| s + &a[i] * &b[i])
}
pub fn c25(ctx: &Ctx) {
    let menu: Vec<Fe> = vec![Fe::zero(), Fe::one(), Fe::minus_one(), fe(5), drv("vp", 7)];
    let points: Vec<Fe> = vec![Fe::zero(), Fe::one(), Fe::minus_one(), fe(2), fe(3), fe(4), fe(5), drv("vp", 9)];
    // VecPoly1: n = 1 over all coefficient tuples, n = 2 over a smaller menu
    let mut items: Vec<(usize, Vec<Fe>)> = vec![(0, vec![])];
    for c in 0..625usize {
        items.push((1, (0..4).map(|k| menu[c / 5usize.pow(k) % 5].clone()).collect()));
    }
    for c in 0..6561usize {
        if ctx.thorough || c % 5 == 0 {
            items.push((2, (0..8).map(|k| menu[[0, 1, 3][c / 3usize.pow(k) % 3]].clone()).collect()));
        }
    }
    for n in [3usize, 5, 8] {
        items.push((n, (0..4 * n).map(|i| drv("vq", i as u64)).collect()));
    }
    ctx.par("degree one", &items, |(n, c)| {
        let v = |k: usize| -> FeV { c[k * n..(k + 1) * n].to_vec().into() };
        let (l, r) = (VecPoly1(v(0), v(1)), VecPoly1(v(2), v(3)));
        ctx.st(1);
        match guard(|| l.inner_product(&r)) {
            Ok(t) => {
                ctx.tv(1);
                let want = [ip(&l.0, &r.0), ip(&l.0, &r.1) + ip(&l.1, &r.0), ip(&l.1, &r.1)];
                ctx.check(eq(&t.0, &want[0]) && eq(&t.1, &want[1]) && eq(&t.2, &want[2]), "coefficients1", || format!("{:?}", n));
                for x in &points {
                    ctx.tr(1);
                    let (lx, rx) = (l.eval(x), r.eval(x));
                    for i in 0..*n {
                        ctx.check(eq(&lx[i], &(&l.0[i] + &l.1[i] * x)), "eval1", || format!("at {}", show(x)));
                    }
                    ctx.check(eq(&t.eval(x), &ip(&lx, &rx)), "product1", || format!("n={} at {}", n, show(x)));
                }
            }
            Err(e) => ctx.viol("product1", e),
        }
    });
    // VecPoly3 with l.0 = 0 and r.2 = 0 (the shape the protocol uses)
    let mut items: Vec<(usize, Vec<Fe>)> = vec![(0, vec![])];
    for c in 0..15625usize {
        if ctx.thorough || c % 3 == 0 {
            items.push((1, (0..6).map(|k| menu[c / 5usize.pow(k) % 5].clone()).collect()));
        }
    }
    for c in 0..4096usize {
        items.push((2, (0..12).map(|k| menu[[1, 4][c >> k & 1]].clone()).collect()));
    }
    for n in [3usize, 5, 8, 16] {
        items.push((n, (0..6 * n).map(|i| drv("vr", i as u64)).collect()));
    }
    ctx.par("degree three", &items, |(n, c)| {
        let v = |k: usize| -> FeV { c[k * n..(k + 1) * n].to_vec().into() };
        let z = || -> FeV { vec![Fe::zero(); *n].into() };
        let l = VecPoly3(z(), v(0), v(1), v(2));
        let r = VecPoly3(v(3), v(4), z(), v(5));
        ctx.st(1);
        match guard(|| VecPoly3::special_inner_product(&l, &r)) {
            Ok(t) => {
                ctx.tv(1);
                let lc = [&l.0, &l.1, &l.2, &l.3];
                let rc = [&r.0, &r.1, &r.2, &r.3];
                let mut want = vec![Fe::zero(); 7];
                for i in 0..4 {
                    for j in 0..4 {
                        want[i + j] = &want[i + j] + ip(lc[i], rc[j]);
                    }
                }
                let got = [Fe::zero(), t.t1.clone(), t.t2.clone(), t.t3.clone(), t.t4.clone(), t.t5.clone(), t.t6.clone()];
                for k in 0..7 {
                    ctx.check(eq(&got[k], &want[k]), "coefficients3", || format!("coefficient {} for n={}", k, n));
                }
                for x in &points {
                    ctx.tr(1);
                    let (lx, rx) = (l.eval(x), r.eval(x));
                    for i in 0..*n {
                        let e = |p: &VecPoly3| &p.0[i] + &p.1[i] * x + &p.2[i] * x.square() + &p.3[i] * x.square() * x;
                        ctx.check(eq(&lx[i], &e(&l)) && eq(&rx[i], &e(&r)), "eval3", || format!("at {}", show(x)));
                    }
                    ctx.check(eq(&t.eval(x), &ip(&lx, &rx)), "product3", || format!("n={} at {}", n, show(x)));
                }
            }
            Err(e) => ctx.viol("product3", e),
        }
    });
    // plain polynomials on their own, general degree-three evaluation, zero constructors
    ctx.seq("plain polynomials", || {
        for c in 0..3125usize {
            let d: Vec<Fe> = (0..6).map(|k| menu[(c / 5usize.pow(k % 5) + k as usize) % 5].clone()).collect();
            let p = Poly6 { t1: d[0].clone(), t2: d[1].clone(), t3: d[2].clone(), t4: d[3].clone(), t5: d[4].clone(), t6: d[5].clone() };
            let q = Poly2(d[0].clone(), d[1].clone(), d[2].clone());
            for x in &points {
                let mut s = Fe::zero();
                let mut xp = x.clone();
                for t in &d {
                    s = s + t * &xp;
                    xp = &xp * x;
                }
                ctx.tr(1);
                ctx.check(eq(&p.eval(x), &s), "Poly6", || format!("at {}", show(x)));
                ctx.check(eq(&q.eval(x), &(&d[0] + &d[1] * x + &d[2] * x * x)), "Poly2", || format!("at {}", show(x)));
                let one = |k: usize| -> FeV { vec![d[k].clone()].into() };
                let g = VecPoly3(one(0), one(1), one(2), one(3));
                ctx.check(eq(&g.eval(x)[0], &(&d[0] + &d[1] * x + &d[2] * x.square() + &d[3] * x.square() * x)), "eval3", || format!("general at {}", show(x)));
            }
        }
        for n in 0..6 {
            let a = VecPoly1::zero(n);
            let b = VecPoly3::zero(n);
            for v in [&a.0, &a.1, &b.0, &b.1, &b.2, &b.3] {
                ctx.check(v.len() == n && v.iter().all(|x| x.is_zero()), "zero", || format!("n={}", n));
            }
        }
    });
    // generators
    let prefixes = ["G", "H", "g", "h", "", "some longer prefix", "é"];
    let n = ctx.b(300, 1100);
    // prefixes that agree up to every length, then differ; that differ only in case, spacing or length
    let stem: String = (0..70u8).map(|i| (b'a' + i % 26) as char).collect();
    let mut fam: Vec<String> = vec![];
    for k in 0..=64 {
        for c in ["-x", "-y", "-X"] {
            fam.push(format!("{}{}", &stem[..k], c));
            fam.push(format!("{}{}{}", &stem[..k], c, &stem[k..]));
        }
    }
    for c in [" ", "  ", "\t", "a ", " a", "\u{0}", "a\u{0}", "è", "ê", "ＧG"] {
        fam.push(c.to_string());
    }
    fam.sort();
    fam.dedup();
    let out: std::sync::Mutex<std::collections::HashMap<Vec<u8>, String>> = Default::default();
    ctx.par("generator prefixes", &fam, |p| {
        for (i, x) in get_generators(p, 2).iter().enumerate() {
            ctx.st(1);
            let me = format!("{:?}/{}", p, i + 1);
            if let Some(o) = out.lock().unwrap().insert(x.to_bytes(), me.clone()) {
                ctx.viol("distinct", format!("generators {} and {} coincide", o, me));
            }
        }
    });
    let lists: std::sync::Mutex<Vec<(String, usize, Vec<u8>)>> = std::sync::Mutex::new(vec![]);
    ctx.par("generators", &prefixes, |p| {
        let long = get_generators(p, n);
        ctx.check(long.len() == n, "length", || p.to_string());
        let again = get_generators(p, n);
        ctx.tv(2);
        for k in [0usize, 1, 2, 3, 7, 8, n - 1] {
            let s = get_generators(p, k);
            ctx.tr(1);
            ctx.check(s.len() == k && s.iter().zip(&long).all(|(a, b)| peq(a, b)), "extension", || format!("{} {}", p, k));
        }
        for (i, x) in long.iter().enumerate() {
            ctx.st(1);
            ctx.check(peq(x, &again[i]), "deterministic", || format!("{} {}", p, i));
            ctx.check(!x.is_identity() && !peq(x, &G1::generator()) && x.has_correct_order(), "trivial", || format!("{} {}", p, i));
            lists.lock().unwrap().push((p.to_string(), i, x.to_bytes()));
        }
    });
    let l = lists.into_inner().unwrap();
    let mut seen = std::collections::HashMap::new();
    for (p, i, b) in &l {
        if let Some(o) = seen.insert(b.clone(), (p.clone(), *i)) {
            ctx.viol("distinct", format!("generators {:?} and {:?} coincide", o, (p, i)));
        }
        // nor is one the negation or double of another
    }
    let mut neg = 0;
    for (p, i, b) in &l {
        let x = G1::from_bytes(b).unwrap();
        for y in [x.negation(), &x + &x] {
            if let Some(o) = seen.get(&y.to_bytes()) {
                ctx.viol("related", format!("generators {:?} and {:?} are related", o, (p, i)));
            }
            neg += 1;
        }
    }
    ctx.tr(neg);
    // challenge chain
    ctx.seq("challenge chain", || {
        let pts = [G1::generator(), gens(1).g, gens(1).h];
        // long chains: no challenge twice, a prefix of a longer one
        let long = ctx.b(700usize, 5000);
        let mut s = vec![1u8, 2];
        let a = gen_challenges(&[&pts[0]], &mut s, long);
        let all: std::collections::HashSet<Vec<u8>> = a.iter().map(key).collect();
        ctx.tr(long as u64);
        ctx.check(a.len() == long && all.len() == long, "chain repeats", || format!("{} challenges, {} of them different", a.len(), all.len()));
        for n in [7usize, 8, 9, 31, 32, 33, 64, 65, 255, 256, 257, 511, 512, 513] {
            let mut s = vec![1u8, 2];
            let b = gen_challenges(&[&pts[0]], &mut s, n);
            ctx.st(1);
            ctx.check(b.len() == n && b.iter().zip(&a).all(|(x, y)| eq(x, y)), "chain", || format!("{} challenges are not the first of {}", n, long));
            let mut s = vec![1u8, 3];
            let c = gen_challenges(&[&pts[0]], &mut s, n);
            ctx.check(c.iter().all(|x| !all.contains(&key(x))), "chain state", || format!("n={}", n));
        }
        for n in 1..ctx.b(10, 16) {
            for k in 0..4usize {
                let input: Vec<&G1> = pts.iter().take(k).collect();
                let mut s1 = vec![1u8, 2];
                let a = gen_challenges(&input, &mut s1, n);
                let mut s2 = vec![1u8, 2];
                let b = gen_challenges(&input, &mut s2, n + 1);
                ctx.tr(1);
                ctx.check(a.len() == n && a.iter().zip(&b).all(|(x, y)| eq(x, y)), "chain", || format!("n={} k={}", n, k));
                for i in 0..b.len() {
                    for j in 0..i {
                        ctx.check(!eq(&b[i], &b[j]), "chain repeats", || format!("{} {}", i, j));
                    }
                }
                let mut s3 = vec![1u8, 3];
                let c = gen_challenges(&input, &mut s3, n);
                ctx.check(a.iter().zip(&c).all(|(x, y)| !eq(x, y)), "chain state", || format!("n={} k={}", n, k));
                for d in 0..k {
                    let mut inp = input.clone();
                    let alt = gens(2).G[1].clone();
                    inp[d] = &alt;
                    let mut s4 = vec![1u8, 2];
                    let e = gen_challenges(&inp, &mut s4, n);
                    ctx.check(a.iter().zip(&e).all(|(x, y)| !eq(x, y)), "chain input", || format!("input {} not hashed", d));
                }
            }
        }
    });
}
