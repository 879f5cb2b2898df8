//! C01 completeness, C02 soundness, C03 binding, C04 malformed input, C08 interoperability.
use crate::f::*;
use crate::prog::*;
use crate::refimpl::*;
use crate::rt::*;
use bulletproofs_amcl::errors::R1CSError;
use bulletproofs_amcl::r1cs::R1CSProof;

pub fn sh(ops: &[Op]) -> String {
    format!("{:?}", ops)
}
fn prove_or(ctx: &Ctx, key: &str, ops: &[Op], prof: u8, g: &Gens) -> Option<Made> {
    match real_prove(ops, prof, g) {
        Ok(Ok(m)) => Some(m),
        Ok(Err((e, _))) => {
            ctx.viol(key, format!("prover error {:?} on {} profile {}", e, sh(ops), prof));
            None
        }
        Err(p) => {
            ctx.viol(key, format!("prover panic {} on {} profile {}", p, sh(ops), prof));
            None
        }
    }
}
/// Ok(true) accepted, Ok(false) rejected with an error, Err panic
pub fn verdict(ops: &[Op], prof: u8, g: &Gens, p: &R1CSProof, c: &[G1], label: &'static [u8]) -> Result<bool, String> {
    real_verify(ops, prof, g, p, c, label).map(|r| r.0.is_ok())
}
fn accept(ctx: &Ctx, key: &str, ops: &[Op], prof: u8, g: &Gens, vg: &Gens) {
    let Some(m) = prove_or(ctx, key, ops, prof, g) else { return };
    ctx.st(1);
    ctx.tr(m.st.borrow().steps);
    ctx.tv(1);
    match real_verify(ops, prof, vg, &m.proof, &m.comms, LABEL) {
        Ok((Ok(()), _)) => {}
        Ok((Err(e), _)) => ctx.viol(key, format!("honest proof rejected ({:?}): {} profile {}", e, sh(ops), prof)),
        Err(p) => ctx.viol(key, format!("verifier panic {}: {} profile {}", p, sh(ops), prof)),
    }
}
fn prof_of(i: usize) -> u8 {
    (i % NPROF as usize) as u8
}
/// (n1, n2) pairs around sizes of interest
pub fn size_grid(thorough: bool) -> Vec<(usize, usize)> {
    let mut v = vec![];
    let top = if thorough { 10 } else { 6 };
    for a in 0..top {
        for b in 0..top {
            v.push((a, b));
        }
    }
    for n in if thorough { vec![11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129] } else { vec![7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65] } {
        for a in [0, 1, n / 2, n - 1, n] {
            if !v.contains(&(a, n - a)) {
                v.push((a, n - a));
            }
        }
    }
    v
}

pub fn list_lengths(thorough: bool) -> Vec<usize> {
    let mut v: Vec<usize> = (0..if thorough { 150 } else { 40 }).collect();
    for k in 6..if thorough { 12 } else { 10 } {
        v.extend([(1 << k) - 1, 1 << k, (1 << k) + 1]);
    }
    v.extend([100, 200, 250, 300]);
    v
}
/// q satisfied constraints in one phase, the other, both
pub fn long_lists(q: usize) -> Vec<Vec<Op>> {
    let list = |k: usize| -> Vec<Op> { (0..k).map(|i| Op::Con([0u8, 3, 1, 5][i % 4])).collect() };
    let mut a = vec![Op::Commit, Op::Pair];
    a.extend(list(q));
    let mut b = vec![Op::Commit, Op::Pair, Op::Con(0)];
    let mut body = vec![Op::Chal];
    body.extend(list(q));
    b.push(Op::Rand(body));
    let mut c = vec![Op::Commit, Op::Pair];
    c.extend(list(q / 2));
    c.push(Op::Rand(list(q - q / 2)));
    vec![a, b, c]
}
pub fn c01(ctx: &Ctx) {
    let progs = seqs(&alphabet(), ctx.b(3, 4));
    let items: Vec<(usize, Vec<Op>)> = progs.into_iter().enumerate().collect();
    ctx.par("programs", &items, |(i, ops)| {
        let pn = npad(ops);
        // generator vectors: exactly sufficient on one side, longer on the other, by turns
        let (a, b) = match i % 4 {
            0 => (pn, pn),
            1 => (pn + 3, pn),
            2 => (pn, pn + 5),
            _ => (2 * pn, 2 * pn),
        };
        accept(ctx, "programs", ops, prof_of(i / 4), &gens(a), &gens(b));
        if i % 97 == 0 {
            ctx.sample(|| sh(ops));
        }
    });
    let mut items = vec![];
    for (a, b) in size_grid(ctx.thorough) {
        for m in [0, 1, 3] {
            items.push((a, b, m));
        }
    }
    for n in 0..ctx.b(70usize, 260) {
        for a in [0, n / 3, n] {
            items.push((a, n - a, 2));
        }
    }
    ctx.par("sizes", &items, |(a, b, m)| {
        let ops = sized(*a, *b, *m);
        let pn = npad(&ops);
        accept(ctx, "sizes", &ops, prof_of(a + b + m), &gens(pn), &gens(pn));
    });
    // larger circuits
    let mut items = vec![];
    for n in ctx.b(vec![66usize, 127, 128, 129, 255, 256, 257], vec![66, 127, 128, 129, 130, 200, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025]) {
        for a in [0, n / 2, n] {
            items.push((a, n - a));
        }
    }
    ctx.par("large sizes", &items, |(a, b)| {
        let ops = sized(*a, *b, 2);
        let pn = npad(&ops);
        accept(ctx, "large-sizes", &ops, prof_of(a + b), &gens(pn), &gens(pn));
    });
    // every shape of multiply's arguments
    let mut alpha = vec![Op::Commit, Op::Pair, Op::Single];
    alpha.extend((2..10).map(Op::Mul));
    alpha.push(Op::Rand(vec![Op::Mul(4), Op::Chal, Op::Mul(5)]));
    alpha.push(Op::Rand(vec![Op::Pair, Op::Mul(6), Op::Mul(7), Op::Con(1)]));
    let items: Vec<(usize, Vec<Op>)> = seqs(&alpha, ctx.b(2, 3)).into_iter().enumerate().collect();
    ctx.par("shapes of multiply", &items, |(i, ops)| accept(ctx, "multiply", ops, prof_of(*i), &gens(npad(ops)), &gens(npad(ops))));
    // number of constraints
    let items = list_lengths(ctx.thorough);
    ctx.par("constraint lists", &items, |q| {
        for ops in long_lists(*q) {
            accept(ctx, "lists", &ops, 0, &gens(npad(&ops)), &gens(npad(&ops)));
        }
    });
    // number of terms of a constraint and of a multiply
    let items: Vec<(usize, u8)> = ctx.b(vec![5usize, 21, 43, 64, 86, 128, 171, 256, 342, 512], vec![5, 21, 43, 64, 86, 128, 171, 256, 342, 512, 1024, 2048]).into_iter().flat_map(|k| (0..4u8).map(move |w| (k, w))).collect();
    ctx.par("many terms", &items, |(k, w)| {
        let mut body = vec![Op::Pair; *k];
        body.push(if w & 1 == 0 { Op::Con(1) } else { Op::Mul(6) });
        body.push(Op::Con(0));
        let mut ops = vec![Op::Commit, Op::Commit];
        if w & 2 == 2 {
            ops.push(Op::Rand(body))
        } else {
            ops.extend(body)
        }
        accept(ctx, "many-terms", &ops, 3, &gens(npad(&ops)), &gens(npad(&ops)));
    });
    // every value profile on a fixed family
    let mut items = vec![];
    for p in 0..NPROF {
        for (a, b) in [(0, 0), (1, 0), (0, 1), (1, 1), (2, 3), (5, 0), (3, 6)] {
            items.push((p, a, b));
        }
    }
    ctx.par("profiles", &items, |(p, a, b)| accept(ctx, "profiles", &sized(*a, *b, 2), *p, &gens(16), &gens(16)));
    // number of commitments
    let items: Vec<usize> = (0..ctx.b(10, 40)).collect();
    ctx.par("commitments", &items, |m| {
        accept(ctx, "commitments", &sized(2, 1, *m), 3, &gens(4), &gens(4));
        accept(ctx, "commitments", &sized(0, 0, *m), 0, &gens(1), &gens(1));
    });
    // many callbacks, unpaired allocations at phase ends, gates in several callbacks
    let mut items = vec![];
    for k in 0..ctx.b(5usize, 8) {
        for tail in 0..4 {
            let mut ops = vec![Op::Commit, Op::Alloc];
            for j in 0..k {
                let mut b = vec![];
                if tail & 1 == 1 {
                    b.push(Op::Alloc);
                }
                b.push(Op::Chal);
                if tail & 2 == 2 {
                    b.push(Op::Single);
                }
                if j % 2 == 1 {
                    b.push(Op::Con(1));
                }
                ops.push(Op::Rand(b));
                if j % 2 == 0 {
                    ops.push(Op::Mul(1));
                }
            }
            items.push(ops);
        }
    }
    ctx.par("callbacks", &items, |ops| accept(ctx, "callbacks", ops, 3, &gens(64), &gens(64)));
}

/// inserts `x` at every position of the program, including inside callbacks
pub fn inserts(ops: &[Op], x: &Op) -> Vec<Vec<Op>> {
    let mut out = vec![];
    for i in 0..=ops.len() {
        let mut v = ops.to_vec();
        v.insert(i, x.clone());
        out.push(v);
    }
    for i in 0..ops.len() {
        if let Op::Rand(b) = &ops[i] {
            for nb in inserts(b, x) {
                let mut v = ops.to_vec();
                v[i] = Op::Rand(nb);
                out.push(v);
            }
        }
    }
    out
}
/// replaces every occurrence of an op in turn by alternatives; also deletes and duplicates
fn edits(ops: &[Op]) -> Vec<Vec<Op>> {
    let alts = |o: &Op| -> Vec<Op> {
        match o {
            Op::Con(_) => vec![Op::Con(100), Op::Con(101), Op::Con(200), Op::Con(103)],
            Op::Mul(k) => vec![Op::Mul((k + 1) % 4), Op::Mul((k + 3) % 4), Op::Mul(5)],
            _ => vec![],
        }
    };
    let mut out = vec![];
    for i in 0..ops.len() {
        for a in alts(&ops[i]) {
            let mut v = ops.to_vec();
            v[i] = a;
            out.push(v);
        }
        if let Op::Rand(b) = &ops[i] {
            for nb in edits(b) {
                let mut v = ops.to_vec();
                v[i] = Op::Rand(nb);
                out.push(v);
            }
        }
    }
    out
}
fn must_reject(ctx: &Ctx, key: &str, r: Result<bool, String>, what: impl Fn() -> String) {
    match r {
        Ok(false) => {}
        Ok(true) => ctx.viol(key, format!("ACCEPTED: {}", what())),
        Err(p) => ctx.viol(key, format!("panic {} on {}", p, what())),
    }
}

pub fn c02(ctx: &Ctx) {
    // 1. one violated constraint at every position of every program
    let mut items = vec![];
    for (i, ops) in seqs(&alphabet(), 2).into_iter().enumerate() {
        for (j, k) in [100u8, 101, 102, 103, 104, 105].iter().enumerate() {
            if !ctx.thorough && (i + j) % 3 != 0 {
                continue;
            }
            for p in inserts(&ops, &Op::Con(*k)) {
                items.push((p, prof_of(i + j)));
            }
        }
    }
    if ctx.thorough {
        for (i, ops) in seqs(&alphabet(), 3).into_iter().enumerate() {
            if ops.len() == 3 {
                for p in inserts(&ops, &Op::Con([100u8, 101, 103][i % 3])) {
                    items.push((p, prof_of(i)));
                }
            }
        }
    }
    let rej = |key: &str, ops: &[Op], prof: u8| {
        let g = gens(npad(ops));
        ctx.st(1);
        ctx.tv(1);
        let m = match real_prove(ops, prof, &g) {
            Ok(Ok(m)) => m,
            Ok(Err(_)) => return, // refusing to prove a false statement is fine
            Err(p) => return ctx.viol(key, format!("prover panic {} on {}", p, sh(ops))),
        };
        ctx.tr(m.st.borrow().steps);
        must_reject(ctx, key, verdict(ops, prof, &g, &m.proof, &m.comms, LABEL), || format!("violated constraint in {} profile {}", sh(ops), prof));
    };
    ctx.par("violated constraint, programs", &items, |(ops, p)| {
        rej("violated-constraint", ops, *p);
    });
    // 2. at every position of larger circuits
    let mut items = vec![];
    for (a, b) in ctx.b(vec![(3, 0), (4, 4), (0, 5), (9, 0), (6, 11)], vec![(3, 0), (4, 4), (0, 5), (9, 0), (6, 11), (17, 0), (16, 16), (1, 33), (40, 3)]) {
        for (i, p) in inserts(&sized(a, b, 2), &Op::Con(0)).into_iter().enumerate() {
            let _ = p;
            items.push((a, b, i));
        }
    }
    ctx.par("violated constraint, position sweep", &items, |(a, b, i)| {
        let base = sized(*a, *b, 2);
        rej("violated-constraint-position", &inserts(&base, &Op::Con(100 + [0u8, 1, 3][i % 3]))[*i], 0);
    });
    // 2b. for every number of gates, one violated constraint of each kind at the ends of each phase
    let mut items = vec![];
    for n in 0..ctx.b(66usize, 140) {
        for a in [0, n / 2, n] {
            items.push((a, n - a));
        }
    }
    ctx.par("violated constraint, every size", &items, |(a, b)| {
        for k in [100u8, 101, 204] {
            let mut ops = sized(*a, *b, 1);
            if (*a + *b + k as usize) % 2 == 0 {
                ops.insert(1, Op::Con(k));
            } else if let Some(Op::Rand(body)) = ops.last_mut() {
                body.push(Op::Con(k));
            } else {
                ops.push(Op::Con(k));
            }
            rej("violated-constraint-size", &ops, 0);
        }
    });
    // 3. two violations that would cancel without distinct weights
    let mut items = vec![];
    for (a, b) in ctx.b(vec![(4, 0), (2, 3)], vec![(4, 0), (2, 3), (8, 0), (5, 5)]) {
        let base = sized(a, b, 1);
        for x in inserts(&base, &Op::Con(102)) {
            let lens = inserts(&x, &Op::Con(200));
            for y in lens {
                items.push(y);
            }
        }
    }
    // kinds 102/200 give +1 = 0 and (a - value) + ... ; use pure constants for an exact cancellation
    ctx.par("two violated constraints", &items, |ops| {
        fn conv(o: &[Op]) -> Vec<Op> {
            o.iter()
                .map(|x| match x {
                    Op::Con(102) => Op::Con(104),
                    Op::Con(200) => Op::Con(204),
                    Op::Rand(b) => Op::Rand(conv(b)),
                    x => x.clone(),
                })
                .collect()
        }
        rej("two-violated-constraints", &conv(ops), 0)
    });
    // 3b. the same at every pair of positions of long constraint lists, in one phase and across phases:
    // a weight that repeats after any number of constraints lets the two offset each other
    let mut items = vec![];
    let (near, far) = ctx.b((64usize, 520usize), (150, 2200));
    for i in 0..near {
        for j in i + 1..near {
            items.push((i, j));
        }
    }
    for j in near..far {
        items.push((0, j));
    }
    for k in 1..=ctx.b(8usize, 10) {
        for i in [1usize, 2, 3, 5, 7, 15, 31, 32, 33, 63, 64] {
            for d in [(1usize << k) - 1, 1 << k, (1 << k) + 1] {
                items.push((i, i + d));
            }
        }
    }
    ctx.par("two violated constraints, long lists", &items, |(i, j)| {
        let pair = [(104u8, 204u8), (100, 200), (102, 202)][(i * 3 + j) % 3];
        let mut cons = vec![Op::Con(0); j + 2];
        cons[*i] = Op::Con(pair.0);
        cons[*j] = Op::Con(pair.1);
        let mut ops = vec![Op::Commit];
        match (i + j) % 3 {
            0 => ops.extend(cons),
            1 => ops.push(Op::Rand(cons)),
            _ => {
                let tail = cons.split_off(i + (j - i) / 2 + 1);
                ops.extend(cons);
                ops.push(Op::Rand(tail));
            }
        }
        rej("two-violated-constraints-far", &ops, 0);
    });
    // 3b'. every two kinds of violation that would cancel, with every kind of constraint before, between
    // and after: weights that depend on what a constraint looks like
    let sign = |k: u8| if [2u8, 4, 5].contains(&(k % 100)) == (k < 200) { 1 } else { -1 };
    let kinds: Vec<u8> = (0..6).flat_map(|k| [100 + k, 200 + k]).collect();
    let mut items = vec![];
    for a in &kinds {
        for b in &kinds {
            if sign(*a) + sign(*b) == 0 {
                for fill in 0..6u8 {
                    for (before, gap) in ctx.b(vec![(0usize, 1usize), (1, 1)], vec![(0, 1), (1, 0), (1, 1), (2, 2), (0, 3)]) {
                        items.push((*a, *b, fill, before, gap));
                    }
                }
            }
        }
    }
    ctx.par("two violated constraints, all kinds", &items, |&(a, b, fill, before, gap)| {
        let mut cons = vec![Op::Con(fill); before];
        cons.push(Op::Con(a));
        cons.extend(vec![Op::Con(fill); gap]);
        cons.push(Op::Con(b));
        cons.push(Op::Con(fill));
        for w in 0..4 {
            if w == 3 && (before, gap) != (1, 1) {
                continue;
            }
            let mut ops = if w == 0 && fill % 2 == 0 { vec![Op::Commit] } else { vec![Op::Commit, Op::Commit, Op::Pair] };
            match w {
                0 => ops.extend(cons.clone()),
                1 => ops.push(Op::Rand(cons.clone())),
                3 => {
                    ops.extend(vec![Op::Con([0u8, 4, 2][fill as usize % 3]); 280]);
                    ops.extend(cons.clone());
                }
                _ => {
                    ops.extend(cons[..before + 1].to_vec());
                    ops.push(Op::Rand(cons[before + 1..].to_vec()));
                }
            }
            rej("two-violated-constraints-kinds", &ops, 0);
        }
    });
    // 3c. and for the weights of gates: outputs wrong by +1 and -1 at every pair of positions
    let mut items = vec![];
    let top = ctx.b(33usize, 65);
    for i in 0..top {
        for j in i + 1..top {
            if i < 2 || (j - i).is_power_of_two() {
                items.push((top, i, j));
            }
        }
    }
    for j in [63usize, 64, 65, 127] {
        items.push((128, 0, j));
        items.push((128, 1, j));
    }
    ctx.par("two wrong gates, long lists", &items, |(n, i, j)| {
        let mut ops = vec![Op::Commit, Op::Con(0)];
        let n1 = match (i + j) % 3 {
            0 => *n,
            1 => 0,
            _ => (i + j + 1) / 2,
        };
        ops.extend(vec![Op::Pair; n1]);
        if n1 < *n {
            ops.push(Op::Rand(vec![Op::Pair; *n - n1]));
        }
        let (i, j) = (*i, *j);
        let tam: Tamper = Box::new(move |ph, _, _, o| {
            for (k, d) in [(i, 1), (j, -1)] {
                if (k < n1) == (ph == 1) && k < o.len() {
                    o[k] = &o[k] + fi(d)
                }
            }
        });
        let g = gens(npad(&ops));
        let (p, comms, cs) = ref_prove(&ops, 0, &g, Some(tam)).unwrap();
        assert!(!cs.satisfied());
        ctx.st(1);
        ctx.tv(1);
        must_reject(ctx, "gate-pair", verdict(&ops, 0, &g, &p.lib(), &comms, LABEL), || format!("outputs of gates {} and {} of {} wrong by +1 and -1 (phase one: {})", i, j, n, n1));
    });
    // 4. deviating prover: wrong wires at every gate of both phases, alone and in cancelling pairs
    let mut items = vec![];
    for (a, b) in ctx.b(
        vec![(1, 0), (2, 0), (0, 2), (3, 2), (5, 4), (17, 0), (3, 14)],
        vec![(1, 0), (2, 0), (0, 2), (3, 2), (5, 4), (8, 8), (17, 0), (3, 14), (16, 17), (33, 0), (64, 1)],
    ) {
        for i in 0..a + b {
            for w in 0..5u8 {
                items.push((a, b, i, i, w));
            }
            for j in i + 1..a + b {
                if a + b <= ctx.b(5, 9) {
                    items.push((a, b, i, j, 5));
                    items.push((a, b, i, j, 6));
                    items.push((a, b, i, j, 7));
                }
            }
        }
    }
    ctx.par("deviating prover, gates", &items, |(a, b, i, j, w)| {
        // free gates: only the multiplication relation is violated
        let mut ops = vec![Op::Commit];
        ops.extend(vec![Op::Pair; *a]);
        if *b > 0 {
            ops.push(Op::Rand(vec![Op::Pair; *b]));
        }
        ops.insert(1, Op::Con(0));
        let g = gens(npad(&ops));
        let (i, j, w, a) = (*i, *j, *w, *a);
        let tam: Tamper = Box::new(move |ph, l, r, o| {
            let mine = |k: usize| (k < a) == (ph == 1);
            let bump = |v: &mut Vec<Fe>, k: usize, d: i64| {
                if mine(k) && k < v.len() {
                    v[k] = &v[k] + fi(d)
                }
            };
            match w {
                0 => bump(o, i, 1),
                1 => bump(l, i, 1),
                2 => bump(r, i, -3),
                3 => {
                    if mine(i) && i < o.len() {
                        o[i] = o[i].negation()
                    }
                }
                4 => {
                    if mine(i) && i < o.len() {
                        o[i] = Fe::zero()
                    }
                }
                5 => {
                    bump(o, i, 1);
                    bump(o, j, -1)
                }
                6 => {
                    if mine(i) && mine(j) && j < o.len() {
                        o.swap(i, j)
                    } else {
                        bump(o, i, 1);
                        bump(o, j, 1)
                    }
                }
                _ => {
                    bump(l, i, 1);
                    bump(r, j, 1)
                }
            }
        });
        let (p, comms, cs) = ref_prove(&ops, 0, &g, Some(tam)).unwrap();
        assert!(!cs.satisfied());
        ctx.st(1);
        ctx.tr(1);
        ctx.tv(1);
        must_reject(ctx, "gate", verdict(&ops, 0, &g, &p.lib(), &comms, LABEL), || format!("wrong wires ({},{}) kind {} in {}+{} gates", i, j, w, a, b));
    });
    // 4b. deviating prover: one wire of a gate made by multiply() does not carry its linear combination
    // (the product stays right, so only the wiring constraint is violated)
    let mut items = vec![];
    for k in 0..10u8 {
        for n in 1..=ctx.b(3usize, 5) {
            for i in 0..n {
                for w in 0..4u8 {
                    for p2 in [false, true] {
                        items.push((k, n, i, w, p2));
                    }
                }
            }
        }
    }
    ctx.par("deviating prover, wiring of multiply", &items, |(k, n, i, w, p2)| {
        // the gates' own values are not used by later constraints
        let mut body = vec![];
        for _ in 0..*n {
            body.push(Op::Pair);
            body.push(Op::Mul(*k));
        }
        let mut ops = vec![Op::Commit, Op::Con(0)];
        if *p2 {
            ops.push(Op::Rand(body));
        } else {
            ops.extend(body);
        }
        let (i, w, p2) = (2 * i + 1, *w, *p2);
        let tam: Tamper = Box::new(move |ph, l, r, o| {
            if (ph == 2) == p2 && i < l.len() {
                match w {
                    0 => l[i] = &l[i] + fe(1),
                    1 => r[i] = &r[i] + fe(1),
                    2 => {
                        l[i] = l[i].negation() + fe(1);
                    }
                    _ => {
                        r[i] = Fe::zero();
                        l[i] = &l[i] + fe(5)
                    }
                }
                o[i] = &l[i] * &r[i];
            }
        });
        let g = gens(npad(&ops));
        let (p, comms, cs) = ref_prove(&ops, 3, &g, Some(tam)).unwrap();
        if cs.satisfied() {
            return ctx.count("wiring deviations that change nothing", 1);
        }
        ctx.st(1);
        ctx.tv(1);
        must_reject(ctx, "wiring", verdict(&ops, 3, &g, &p.lib(), &comms, LABEL), || format!("gate {} of multiply kind {} carries other values (kind {}) in {}", i, k, w, sh(&ops)));
    });
    // 5. deviating prover: scalars chosen so that errors of the two batched equations offset each other
    let mut items = vec![];
    for (a, b) in [(1, 0), (2, 1), (0, 3), (5, 0)] {
        for k in 0..12u16 + ctx.b(130, 600) {
            items.push((a, b, k));
        }
    }
    ctx.par("deviating prover, batched equations", &items, |(a, b, k)| {
        let ops = sized(*a, *b, 1);
        let g = gens(npad(&ops));
        let k = *k;
        let st = Exec::new(true, 0);
        let mut comms = vec![];
        let mut p = RefCs::new(LABEL, false);
        run_top(&mut p, &ops, &st, &mut comms).unwrap();
        p.sc_tamper = Some(Box::new(move |sc, x| {
            let d = fe(17);
            // the verifier's batching coefficient guessed: constants, challenges, every small number
            let f = match k / 2 {
                0 => Fe::one(),
                1 => Fe::minus_one(),
                2 => fe(2),
                3 => x.clone(),
                4 => x.square(),
                5 => x.inverse(),
                n => fe(n as u64 - 3),
            };
            if k % 2 == 0 {
                sc[2] = &sc[2] + &d * &f;
                sc[1] = &sc[1] - &d;
            } else {
                sc[2] = &sc[2] - &d;
                sc[1] = &sc[1] + &d * &f;
            }
        }));
        let (p, _) = p.prove(&g).unwrap();
        ctx.st(1);
        ctx.tv(1);
        must_reject(ctx, "batched", verdict(&ops, 0, &g, &p.lib(), &comms, LABEL), || format!("offsetting scalars kind {} in {}", k, sh(&ops)));
    });
    // 5b. deviating prover: a false statement with the t(x) a true one would have, so that only the
    // inner-product relation fails; and the untouched false one, where only the t(x) relation fails
    let mut items = vec![];
    for n in 0..ctx.b(18usize, 34) {
        for a in 0..=n {
            for k in [100u8, 101, 102] {
                if n < 5 || a == 0 || a == n || (a + n) % 5 == 0 {
                    for m in [0usize, 1] {
                        items.push((a, n - a, k, m));
                    }
                }
            }
        }
    }
    ctx.par("deviating prover, announced t(x)", &items, |(a, b, k, m)| {
        let mut ops = sized(*a, *b, *m);
        ops.insert(*m, Op::Con(*k));
        let g = gens(npad(&ops));
        for claim in [false, true] {
            let st = Exec::new(true, 0);
            let mut comms = vec![];
            let mut p = RefCs::new(LABEL, false);
            run_top(&mut p, &ops, &st, &mut comms).unwrap();
            p.claim_tx = claim;
            let (p, cs) = p.prove(&g).unwrap();
            assert!(!cs.satisfied());
            ctx.st(1);
            ctx.tv(1);
            must_reject(ctx, "announced t(x)", verdict(&ops, 0, &g, &p.lib(), &comms, LABEL), || format!("false statement, t(x) of a {} one, in {}", if claim { "true" } else { "false" }, sh(&ops)));
        }
    });
    // 5b'. the same false statement with a forged argument of more rounds, its inner product chosen freely
    let mut items = vec![];
    for n in ctx.b(vec![1usize, 2, 3, 4, 5, 8], vec![1, 2, 3, 4, 5, 7, 8, 9, 16, 17]) {
        for a in [0, n / 2, n] {
            for extra in 1..=ctx.b(2usize, 4) {
                for p in 0..16u8 {
                    items.push((a, n - a, extra, (p % 4, p / 4)));
                }
            }
        }
    }
    for n in [1usize, 2, 3] {
        for extra in [31usize, 32, 64, 65] {
            for p in 0..16u8 {
                items.push((n, 0, extra, (p % 4, p / 4)));
            }
        }
    }
    ctx.par("deviating prover, extra rounds", &items, |(a, b, extra, pl)| {
        let mut ops = sized(*a, *b, 1);
        ops.insert(1, Op::Con(100));
        let g = gens(npad(&ops));
        let st = Exec::new(true, 0);
        let mut comms = vec![];
        let mut p = RefCs::new(LABEL, false);
        run_top(&mut p, &ops, &st, &mut comms).unwrap();
        p.claim_tx = true;
        p.forge = Some((*extra, *pl));
        let (p, cs) = p.prove(&g).unwrap();
        assert!(!cs.satisfied());
        ctx.st(1);
        ctx.tv(1);
        must_reject(ctx, "extra rounds", verdict(&ops, 0, &g, &p.lib(), &comms, LABEL), || format!("false statement, {} extra rounds, places {:?}, in {}", extra, pl, sh(&ops)));
    });
    // 5c. one violated constraint far down long lists
    let mut items = vec![];
    for q in ctx.b(vec![511usize, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4096, 4097], vec![511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 3000, 4096, 4097, 8192, 8193, 16384, 16385]) {
        for w in 0..3u8 {
            items.push((q, w));
        }
    }
    ctx.par("violated constraint, long lists", &items, |(q, w)| {
        let mut cons = vec![Op::Con(0); *q];
        cons[*q - 1] = Op::Con(100);
        let mut ops = vec![Op::Commit, Op::Pair];
        match w {
            0 => ops.extend(cons),
            1 => ops.push(Op::Rand(cons)),
            _ => {
                let tail = cons.split_off(q / 2);
                ops.extend(cons);
                ops.push(Op::Rand(tail));
            }
        }
        rej("violated-constraint-long", &ops, 0);
    });
    // 5d. one violated constraint with many terms
    let items: Vec<(usize, bool)> = ctx.b(vec![5usize, 21, 43, 64, 86, 128, 171, 256, 342, 512], vec![5, 21, 43, 64, 86, 128, 171, 256, 342, 512, 1024, 2048]).into_iter().flat_map(|k| [(k, false), (k, true)]).collect();
    ctx.par("violated constraint, many terms", &items, |(k, p2)| {
        let mut body = vec![Op::Pair; *k];
        body.push(Op::Con(101));
        let mut ops = vec![Op::Commit, Op::Commit];
        if *p2 {
            ops.push(Op::Rand(body))
        } else {
            ops.extend(body)
        }
        rej("violated-constraint-wide", &ops, 0);
    });
    // 6. the verifier's circuit differs from the prover's
    let mut items = vec![];
    for ops in [sized(2, 0, 1), sized(3, 2, 2), sized(0, 3, 1), sized(5, 4, 0), vec![Op::Commit, Op::Mul(1), Op::Con(1), Op::Rand(vec![Op::Chal, Op::Con(3), Op::Rand(vec![Op::Mul(1), Op::Con(1)])]), Op::Con(0)]] {
        for e in edits(&ops) {
            items.push((ops.clone(), e));
        }
        // reordered constraints (adjacent, distinct)
        fn swaps(ops: &[Op], top: bool) -> Vec<Vec<Op>> {
            let _ = top;
            let mut out = vec![];
            for i in 0..ops.len() {
                if let Op::Rand(b) = &ops[i] {
                    for nb in swaps(b, false) {
                        let mut v = ops.to_vec();
                        v[i] = Op::Rand(nb);
                        out.push(v);
                    }
                }
                if i + 1 < ops.len() {
                    if let (Op::Con(a), Op::Con(b)) = (&ops[i], &ops[i + 1]) {
                        if a != b {
                            let mut v = ops.to_vec();
                            v.swap(i, i + 1);
                            out.push(v);
                        }
                    }
                }
            }
            out
        }
        // add an extra distinct constraint after each existing one so that swaps apply
        let mut two = vec![];
        for o in &ops {
            two.push(o.clone());
            if let Op::Con(k) = o {
                two.push(Op::Con(if *k == 0 { 1 } else { 0 }));
            }
        }
        for e in swaps(&two, true) {
            items.push((two.clone(), e));
        }
        // one more / one fewer constraint on the verifier (non-empty, so all weights shift or a false one appears)
        for x in inserts(&ops, &Op::Con(100)) {
            items.push((ops.clone(), x));
        }
        // a dropped non-final constraint shifts the weights
        let cons: Vec<usize> = (0..ops.len()).filter(|i| matches!(ops[*i], Op::Con(_))).collect();
        for i in &cons {
            let mut v = ops.clone();
            v.remove(*i);
            items.push((ops.clone(), v));
        }
        // different number of variables / phase split
        for extra in [Op::Pair, Op::Mul(0), Op::Alloc] {
            let mut v = ops.clone();
            let at = ops.iter().position(|o| matches!(o, Op::Rand(_))).unwrap_or(ops.len());
            v.insert(at, extra);
            items.push((ops.clone(), v));
        }
        let mut v = ops.clone();
        v.push(Op::Rand(vec![]));
        if !ops.iter().any(|o| matches!(o, Op::Rand(_))) {
            items.push((ops.clone(), v)); // one-phase proof offered to a two-phase circuit
        }
        let v: Vec<Op> = ops.iter().flat_map(|o| if let Op::Rand(b) = o { b.clone() } else { vec![o.clone()] }).filter(|o| *o != Op::Chal).collect();
        if v != ops {
            items.push((ops.clone(), v)); // same operations moved into phase one
        }
        for (i, o) in ops.iter().enumerate() {
            if *o == Op::Commit {
                let mut v = ops.clone();
                v.insert(i, Op::Commit);
                items.push((ops.clone(), v));
                break;
            }
        }
    }
    ctx.par("verifier circuit differs", &items, |(p, v)| {
        let n = gates(p).max(gates(v)).next_power_of_two();
        let g = gens(n);
        let Some(m) = prove_or(ctx, "differs", p, 0, &g) else { return };
        ctx.st(1);
        ctx.tr(1);
        ctx.tv(1);
        let mut c = m.comms.clone();
        while c.len() < 8 {
            c.push(c.first().cloned().unwrap_or(g.g.clone()));
        }
        if sh(p) == sh(v) {
            return;
        }
        must_reject(ctx, "differs", verdict(v, 0, &g, &m.proof, &c, LABEL), || format!("proof of {} against {}", sh(p), sh(v)));
    });
    // sanity: the deviating machinery with no deviation is accepted (otherwise rejections mean nothing)
    let items: Vec<(usize, usize)> = vec![(1, 0), (0, 2), (3, 2), (17, 0)];
    ctx.par("undeviating control", &items, |(a, b)| {
        let ops = sized(*a, *b, 2);
        let g = gens(npad(&ops));
        let (p, comms, cs) = ref_prove(&ops, 0, &g, None).unwrap();
        assert!(cs.satisfied());
        ctx.check(verdict(&ops, 0, &g, &p.lib(), &comms, LABEL) == Ok(true), "control", || format!("true statement rejected {}", sh(&ops)));
    });
    let items: Vec<u8> = (0..10).collect();
    ctx.par("undeviating control, multiply", &items, |k| {
        for ops in [vec![Op::Commit, Op::Pair, Op::Mul(*k), Op::Pair, Op::Mul(*k), Op::Con(0)], vec![Op::Commit, Op::Rand(vec![Op::Pair, Op::Mul(*k), Op::Pair, Op::Mul(*k)])]] {
            let g = gens(npad(&ops));
            let (p, comms, cs) = ref_prove(&ops, 3, &g, None).unwrap();
            assert!(cs.satisfied());
            ctx.check(verdict(&ops, 3, &g, &p.lib(), &comms, LABEL) == Ok(true), "control", || format!("true statement rejected {}", sh(&ops)));
        }
    });
}

/// All single mutations of a proof; no-op mutations are dropped.
pub fn mutations(p: &RefProof, g: &Gens) -> Vec<(String, RefProof)> {
    let mut out: Vec<(String, RefProof)> = vec![];
    let foreign = &g.g * &fe(12345) + &g.h;
    fn alts(x: &G1, g: &Gens, foreign: &G1, other: &G1) -> Vec<(&'static str, G1)> {
        vec![
            ("identity", ident()),
            ("negated", x.negation()),
            ("doubled", x + x),
            ("+g", x + &g.g),
            ("+h", x + &g.h),
            ("=g", g.g.clone()),
            ("foreign", foreign.clone()),
            ("=neighbour", other.clone()),
        ]
    }
    let salts = |x: &Fe, other: &Fe| -> Vec<(&'static str, Fe)> {
        vec![("zero", Fe::zero()), ("one", Fe::one()), ("+1", x + Fe::one()), ("-1", x - Fe::one()), ("negated", x.negation()), ("doubled", x + x), ("=neighbour", other.clone())]
    };
    for i in 0..p.pts.len() {
        for (n, x) in alts(&p.pts[i], g, &foreign, &p.pts[(i + 1) % 11]) {
            if !peq(&x, &p.pts[i]) {
                let mut q = p.clone();
                q.pts[i] = x;
                out.push((format!("{} {}", PT[i], n), q));
            }
        }
        for j in i + 1..p.pts.len() {
            if !peq(&p.pts[i], &p.pts[j]) {
                let mut q = p.clone();
                q.pts.swap(i, j);
                out.push((format!("swap {} {}", PT[i], PT[j]), q));
            }
        }
    }
    for i in 0..3 {
        for (n, x) in salts(&p.sc[i], &p.sc[(i + 1) % 3]) {
            if !eq(&x, &p.sc[i]) {
                let mut q = p.clone();
                q.sc[i] = x;
                out.push((format!("{} {}", SC[i], n), q));
            }
        }
        let mut q = p.clone();
        q.sc.swap(i, (i + 1) % 3);
        if !eq(&q.sc[i], &p.sc[i]) {
            out.push((format!("swap {} with next", SC[i]), q));
        }
    }
    for (n, x) in salts(&p.a, &p.b) {
        if !eq(&x, &p.a) {
            let mut q = p.clone();
            q.a = x;
            out.push((format!("a {}", n), q));
        }
    }
    for (n, x) in salts(&p.b, &p.a) {
        if !eq(&x, &p.b) {
            let mut q = p.clone();
            q.b = x;
            out.push((format!("b {}", n), q));
        }
    }
    if !eq(&p.a, &p.b) {
        let mut q = p.clone();
        std::mem::swap(&mut q.a, &mut q.b);
        out.push(("swap a b".into(), q));
    }
    if !p.a.is_zero() && !p.b.is_zero() {
        let mut q = p.clone();
        q.a = q.a.negation();
        q.b = q.b.negation();
        out.push(("negate a and b".into(), q));
    }
    let k = p.ls.len();
    for i in 0..k {
        for side in 0..2 {
            let cur = if side == 0 { &p.ls[i] } else { &p.rs[i] };
            let oth = if side == 0 { &p.rs[i] } else { &p.ls[i] };
            for (n, x) in alts(cur, g, &foreign, oth) {
                if !peq(&x, cur) {
                    let mut q = p.clone();
                    if side == 0 {
                        q.ls[i] = x
                    } else {
                        q.rs[i] = x
                    }
                    out.push((format!("{}[{}] {}", ["L", "R"][side], i, n), q));
                }
            }
        }
        let mut q = p.clone();
        std::mem::swap(&mut q.ls[i], &mut q.rs[i]);
        out.push((format!("swap L[{}] R[{}]", i, i), q));
        for j in i + 1..k {
            let mut q = p.clone();
            q.ls.swap(i, j);
            out.push((format!("swap L[{}] L[{}]", i, j), q));
            let mut q = p.clone();
            q.rs.swap(i, j);
            out.push((format!("swap R[{}] R[{}]", i, j), q));
            let mut q = p.clone();
            q.ls.swap(i, j);
            q.rs.swap(i, j);
            out.push((format!("swap rounds {} {}", i, j), q));
        }
        let mut q = p.clone();
        q.ls.remove(i);
        q.rs.remove(i);
        out.push((format!("drop round {}", i), q));
    }
    if k > 0 {
        let mut q = p.clone();
        std::mem::swap(&mut q.ls, &mut q.rs);
        out.push(("swap L and R".into(), q));
    }
    let mut q = p.clone();
    q.ls.push(ident());
    q.rs.push(ident());
    out.push(("identity round appended".into(), q));
    let mut q = p.clone();
    q.ls.push(foreign.clone());
    q.rs.push(foreign.clone());
    out.push(("foreign round appended".into(), q));
    let mut q = p.clone();
    q.ls.insert(0, ident());
    q.rs.insert(0, ident());
    out.push(("identity round prepended".into(), q));
    out
}
fn bind_shapes(thorough: bool) -> Vec<Vec<Op>> {
    let mut v = vec![
        sized(0, 0, 2),
        sized(1, 0, 1),
        sized(2, 0, 2),
        sized(3, 2, 2),
        sized(0, 3, 1),
        vec![Op::Commit, Op::Commit, Op::Mul(0), Op::Con(1), Op::Rand(vec![Op::Con(1)])],
        sized(4, 0, 3),
        sized(1, 1, 1),
        sized(0, 1, 2),
        sized(2, 0, 0),
        sized(0, 2, 0),
        sized(1, 0, 7),
    ];
    if thorough {
        v.extend(vec![sized(5, 4, 4), sized(9, 0, 1), sized(8, 9, 2), sized(16, 0, 0), sized(2, 0, 0), sized(0, 2, 0), sized(20, 20, 3)]);
        v.extend(bodies().into_iter().map(|b| vec![Op::Commit, Op::Alloc, b, Op::Single]));
    }
    v
}

pub fn c03(ctx: &Ctx) {
    for (si, ops) in bind_shapes(ctx.thorough).iter().enumerate() {
        let n = gates(ops);
        let g = gens(npad(ops) + 1);
        let Some(m) = prove_or(ctx, "bind", ops, 3, &g) else { continue };
        let base = RefProof::from_lib(&m.proof);
        // the untouched proof verifies repeatedly
        for _ in 0..3 {
            ctx.check(verdict(ops, 3, &g, &m.proof, &m.comms, LABEL) == Ok(true), "unmodified", || format!("unmodified proof rejected {}", sh(ops)));
        }
        let muts = mutations(&base, &g);
        ctx.st(1);
        ctx.sample(|| format!("shape {}: {} mutations e.g. {}", sh(ops), muts.len(), muts[si % muts.len()].0));
        ctx.par("proof mutations", &muts, |(what, q)| {
            ctx.tr(1);
            ctx.tv(1);
            must_reject(ctx, "proof-mutation", verdict(ops, 3, &g, &q.lib(), &m.comms, LABEL), || format!("{} in {}", what, sh(ops)));
        });
        // points that are not on the curve, written into the serialised form
        let js = base.to_json();
        let mut bad: Vec<(String, serde_json::Value)> = vec![];
        for (bn, b) in bad_points() {
            for k in PT {
                let mut j = js.clone();
                j[k] = b.clone();
                bad.push((format!("{} = {}", k, bn), j));
            }
            for (side, cnt) in [("L", base.ls.len()), ("R", base.rs.len())] {
                for i in 0..cnt {
                    let mut j = js.clone();
                    let list = &mut j["ipp_proof"][side];
                    let arr = if list.is_array() { list.as_array_mut() } else { list["elems"].as_array_mut() };
                    arr.expect("list of points")[i] = b.clone();
                    bad.push((format!("{}[{}] = {}", side, i, bn), j));
                }
            }
        }
        ctx.par("off-curve points", &bad, |(what, j)| {
            ctx.tr(1);
            ctx.tv(1);
            let p: Result<Result<R1CSProof, _>, String> = guard(|| serde_json::from_value(j.clone()));
            match p {
                Ok(Ok(p)) => must_reject(ctx, "off-curve", verdict(ops, 3, &g, &p, &m.comms, LABEL), || format!("{} in {}", what, sh(ops))),
                Ok(Err(_)) => {}
                Err(e) => ctx.viol("off-curve", format!("panic reading {}: {}", what, e)),
            }
        });
        // commitments
        let mut items: Vec<(String, Vec<G1>)> = vec![];
        let mc = m.comms.len();
        for i in 0..mc {
            for (n, x) in [("identity", ident()), ("negated", m.comms[i].negation()), ("+g", &m.comms[i] + &g.g), ("+h", &m.comms[i] + &g.h), ("=g", g.g.clone()), ("=neighbour", m.comms[(i + 1) % mc].clone())] {
                if !peq(&x, &m.comms[i]) {
                    let mut c = m.comms.clone();
                    c[i] = x;
                    items.push((format!("commitment {} {}", i, n), c));
                }
            }
            for (bn, b) in bad_points() {
                if let Ok(x) = serde_json::from_value::<G1>(b) {
                    let mut c = m.comms.clone();
                    c[i] = x;
                    items.push((format!("commitment {} {}", i, bn), c));
                }
            }
            for j in i + 1..mc {
                let mut c = m.comms.clone();
                c.swap(i, j);
                items.push((format!("commitments {} {} swapped", i, j), c));
            }
        }
        ctx.par("commitments", &items, |(what, c)| {
            ctx.tr(1);
            ctx.tv(1);
            must_reject(ctx, "commitment", verdict(ops, 3, &g, &m.proof, c, LABEL), || format!("{} in {}", what, sh(ops)));
        });
        // one commitment more, never used by a constraint
        let mut more = ops.clone();
        more.insert(mc, Op::Commit);
        let _ = &more;
        for (what, label) in [("other label", &b"mc2"[..]), ("empty label", &b""[..]), ("prefix label", &b"m"[..])] {
            ctx.tr(1);
            let label: &'static [u8] = label;
            must_reject(ctx, "label", verdict(ops, 3, &g, &m.proof, &m.comms, label), || format!("{} in {}", what, sh(ops)));
        }
        // generators in use
        if n > 0 {
            let mut items: Vec<(String, Gens)> = vec![];
            let pn = npad(ops);
            let cp = || Gens { g: g.g.clone(), h: g.h.clone(), G: g.G.clone(), H: g.H.clone() };
            for k in 0..4 {
                let alt = |x: &G1| match k {
                    0 => ident(),
                    1 => x.negation(),
                    2 => x + &g.h,
                    _ => G1::from_msg_hash(b"mc other generator"),
                };
                let mut q = cp();
                q.g = alt(&g.g);
                items.push((format!("g kind {}", k), q));
                let mut q = cp();
                q.h = alt(&g.h);
                items.push((format!("h kind {}", k), q));
                for i in 0..pn {
                    let mut q = cp();
                    q.G[i] = alt(&g.G[i]);
                    items.push((format!("G[{}] kind {}", i, k), q));
                    let mut q = cp();
                    q.H[i] = alt(&g.H[i]);
                    items.push((format!("H[{}] kind {}", i, k), q));
                }
            }
            let mut q = cp();
            std::mem::swap(&mut q.g, &mut q.h);
            items.push(("g and h swapped".into(), q));
            let mut q = cp();
            std::mem::swap(&mut q.G, &mut q.H);
            items.push(("G and H swapped".into(), q));
            for i in 0..pn - 1 {
                let mut q = cp();
                let t = q.G[i].clone();
                q.G[i] = q.G[i + 1].clone();
                q.G[i + 1] = t;
                items.push((format!("G[{}] and next swapped", i), q));
            }
            ctx.par("generators", &items, |(what, q)| {
                ctx.tr(1);
                ctx.tv(1);
                must_reject(ctx, "generator", verdict(ops, 3, q, &m.proof, &m.comms, LABEL), || format!("{} in {}", what, sh(ops)));
            });
            // a generator beyond the padded size plays no part
            let mut q = cp();
            q.G[pn] = ident();
            q.H[pn] = ident();
            ctx.check(verdict(ops, 3, &q, &m.proof, &m.comms, LABEL) == Ok(true), "unused generator", || sh(ops));
        }
    }
}
/// serialised group elements that are not points of the curve
pub fn bad_points() -> Vec<(&'static str, serde_json::Value)> {
    let one = serde_json::to_value(&G1::generator()).unwrap();
    let s = one.as_str().unwrap_or("").to_string();
    let w: Vec<String> = s.split_whitespace().map(|x| x.to_string()).collect();
    let mut v = vec![];
    if w.len() >= 3 {
        let z = "0".repeat(w[0].len().max(1));
        let mut zero = w.clone();
        // the coordinates may be written with a leading multiplicity per coordinate
        let per = w.len() / 3;
        let set = |w: &mut Vec<String>, i: usize, val: &str| w[i * per + per - 1] = val.to_string();
        for i in 0..3 {
            set(&mut zero, i, &z);
        }
        v.push(("(0,0,0)", serde_json::Value::from(zero.join(" "))));
        let mut off = w.clone();
        let one_s = format!("{:0>1$}", "1", w[per - 1].len());
        set(&mut off, 0, &one_s);
        set(&mut off, 1, &one_s);
        set(&mut off, 2, &one_s);
        v.push(("(1,1,1)", serde_json::Value::from(off.join(" "))));
        let mut xz = w.clone();
        set(&mut xz, 2, &z);
        v.push(("(x,y,0)", serde_json::Value::from(xz.join(" "))));
        let mut y0 = w.clone();
        set(&mut y0, 1, &z);
        v.push(("(x,0,1)", serde_json::Value::from(y0.join(" "))));
    }
    v
}

pub fn c04(ctx: &Ctx) {
    let shapes = bind_shapes(ctx.thorough);
    for ops in &shapes {
        let pn = npad(ops);
        let g = gens(pn + 2);
        let Some(m) = prove_or(ctx, "prove", ops, 3, &g) else { continue };
        let base = RefProof::from_lib(&m.proof);
        let lg = base.ls.len();
        // every pair of round-list lengths
        let mut items = vec![];
        for a in 0..=lg + 2 {
            for b in 0..=lg + 2 {
                for fill in 0..2 {
                    if (a, b) != (lg, lg) {
                        items.push((a, b, fill));
                    }
                }
            }
        }
        for k in [16, 31, 32, 33, 40, 62, 63, 64, 65, 66, 96, 127, 128, 129, 192, 255, 256, 257] {
            for (a, b) in [(k, k), (k, 0), (0, k), (k, lg), (lg, k), (k, k + 1), (k + 64, k), (k + lg, k + lg)] {
                items.push((a, b, 0));
                items.push((a, b, 1));
            }
        }
        ctx.par("round lists", &items, |(a, b, fill)| {
            let mut q = base.clone();
            let f = if *fill == 0 { ident() } else { g.g.clone() };
            q.ls.resize(*a, f.clone());
            q.rs.resize(*b, f);
            ctx.st(1);
            ctx.tr(1);
            ctx.tv(1);
            must_reject(ctx, "rounds", verdict(ops, 3, &g, &q.lib(), &m.comms, LABEL), || format!("|L|={} |R|={} for {}", a, b, sh(ops)));
        });
        // hostile contents: all components identity / zero, one or all at a time
        let muts = mutations(&base, &g);
        ctx.par("hostile contents", &muts, |(what, q)| {
            ctx.tr(1);
            ctx.tv(1);
            must_reject(ctx, "hostile", verdict(ops, 3, &g, &q.lib(), &m.comms, LABEL), || format!("{} in {}", what, sh(ops)));
        });
        let mut zero = base.clone();
        zero.pts = vec![ident(); 11];
        zero.ls = vec![ident(); lg];
        zero.rs = vec![ident(); lg];
        for k in 0..8 {
            let mut q = zero.clone();
            if k & 1 == 1 {
                q.sc = vec![Fe::zero(); 3];
            }
            if k & 2 == 2 {
                q.a = Fe::zero();
                q.b = Fe::zero();
            }
            if k == 4 && lg == 0 {
                continue; // that is the proof itself
            }
            if k & 4 == 4 {
                q.pts = base.pts.clone();
            }
            must_reject(ctx, "hostile", verdict(ops, 3, &g, &q.lib(), &m.comms, LABEL), || format!("zeroed proof {} in {}", k, sh(ops)));
        }
        // off-curve points in every component and in every commitment
        let js = base.to_json();
        for (bn, b) in bad_points() {
            for all in [true, false] {
                let mut j = js.clone();
                for (i, k) in PT.iter().enumerate() {
                    if all || i == 7 {
                        j[*k] = b.clone();
                    }
                }
                let p = guard(|| serde_json::from_value::<R1CSProof>(j.clone()));
                ctx.tr(1);
                match p {
                    Ok(Ok(p)) => must_reject(ctx, "off-curve", verdict(ops, 3, &g, &p, &m.comms, LABEL), || format!("{} all={} in {}", bn, all, sh(ops))),
                    Ok(Err(_)) => {}
                    Err(e) => ctx.viol("off-curve", e),
                }
            }
        }
        // proofs of other shapes
        for other in &shapes {
            if sh(other) == sh(ops) {
                continue;
            }
            let g2 = gens(npad(other).max(pn));
            if let Ok(Ok(o)) = real_prove(other, 3, &g2) {
                let mut c = o.comms.clone();
                c.extend(m.comms.iter().cloned());
                while c.len() < 4 {
                    c.push(g.g.clone());
                }
                ctx.tr(1);
                must_reject(ctx, "foreign proof", verdict(ops, 3, &g2, &o.proof, &c, LABEL), || format!("proof of {} for {}", sh(other), sh(ops)));
            }
        }
    }
    // generator lengths on both sides
    let mut items = vec![];
    let sizes = ctx.b(vec![(0, 0), (1, 0), (2, 0), (0, 1), (3, 0), (3, 2), (0, 5), (8, 1)], vec![(0, 0), (1, 0), (2, 0), (0, 1), (1, 1), (3, 0), (3, 2), (0, 5), (4, 4), (8, 1), (5, 12), (32, 1)]);
    for (a, b) in sizes {
        let n: usize = a + b;
        let pn = (n as usize).next_power_of_two();
        let mut lens: Vec<usize> = vec![0, 1, n.saturating_sub(1), n, a, pn - 1, pn, pn + 1, pn / 2, 2 * pn];
        lens.sort();
        lens.dedup();
        for x in &lens {
            for y in &lens {
                items.push((a, b, *x, *y));
            }
        }
    }
    ctx.par("generator lengths", &items, |(a, b, x, y)| {
        let ops = sized(*a, *b, 1);
        let pn = npad(&ops);
        let full = gens(2 * pn);
        let g = Gens { g: full.g.clone(), h: full.h.clone(), G: gens(*x).G, H: gens(*y).H };
        let enough = *x >= pn && *y >= pn;
        ctx.st(1);
        ctx.tr(2);
        ctx.tv(1);
        match real_prove(&ops, 0, &g) {
            Ok(Ok(_)) => {
                ctx.check(enough, "generators-prove", || format!("proved with |G|={} |H|={} padded {}", x, y, pn));
            }
            Ok(Err((R1CSError::InvalidGeneratorsLength, _))) => {
                ctx.check(!enough, "generators-prove", || format!("refused sufficient |G|={} |H|={} padded {}", x, y, pn));
            }
            Ok(Err((e, _))) => ctx.viol("generators-prove", format!("error {:?} with |G|={} |H|={} padded {}", e, x, y, pn)),
            Err(p) => ctx.viol("generators-prove", format!("panic {} with |G|={} |H|={} padded {}", p, x, y, pn)),
        }
        let Some(m) = prove_or(ctx, "generators", &ops, 0, &full) else { return };
        match real_verify(&ops, 0, &g, &m.proof, &m.comms, LABEL) {
            Ok((Ok(()), _)) => {
                ctx.check(enough, "generators-verify", || format!("accepted with |G|={} |H|={} padded {}", x, y, pn));
            }
            Ok((Err(R1CSError::InvalidGeneratorsLength), _)) => {
                ctx.check(!enough, "generators-verify", || format!("refused sufficient |G|={} |H|={} padded {}", x, y, pn));
            }
            Ok((Err(e), _)) => ctx.viol("generators-verify", format!("error {:?} with |G|={} |H|={} padded {}", e, x, y, pn)),
            Err(p) => ctx.viol("generators-verify", format!("panic {} with |G|={} |H|={} padded {}", p, x, y, pn)),
        }
    });
}

pub fn c08(ctx: &Ctx) {
    let both = |key: &str, ops: &[Op], prof: u8, i: usize| {
        let g = gens(npad(ops));
        let Some(m) = prove_or(ctx, key, ops, prof, &g) else { return };
        ctx.st(1);
        ctx.tr(m.st.borrow().steps * 2);
        ctx.tv(2);
        let rp = RefProof::from_lib(&m.proof);
        ctx.check(matches!(ref_verify(ops, prof, &g, &rp, &m.comms, LABEL), Ok(true)), key, || format!("library proof rejected by the independent verifier: {} profile {}", sh(ops), prof));
        let (p, comms, _) = ref_prove(ops, prof, &g, None).unwrap();
        ctx.check(verdict(ops, prof, &g, &p.lib(), &comms, LABEL) == Ok(true), key, || format!("independent proof rejected by the library: {} profile {}", sh(ops), prof));
        for (a, b) in comms.iter().zip(&m.comms) {
            ctx.check(peq(a, b), key, || format!("commitments differ for equal value and blinding: {}", sh(ops)));
        }
        if i % 131 == 0 {
            ctx.sample(|| sh(ops));
        }
    };
    let items: Vec<(usize, Vec<Op>)> = seqs(&alphabet(), ctx.b(2, 3)).into_iter().enumerate().collect();
    ctx.par("programs", &items, |(i, ops)| both("programs", ops, prof_of(*i), *i));
    let mut items = vec![];
    for (a, b) in size_grid(ctx.thorough) {
        if a + b <= ctx.b(33, 129) {
            items.push((a, b, (a + b) % 3));
        }
    }
    for m in (0..ctx.b(36usize, 140)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300]) {
        items.push((1, 0, m));
        items.push((m % 4, (m + 1) % 3, m));
    }
    for n in ctx.b(vec![63usize, 64, 65, 127, 129, 257], vec![257, 513, 1025]) {
        items.push((n, 0, 1));
        items.push((n / 2, n - n / 2, 1));
    }
    ctx.par("sizes", &items, |(a, b, m)| both("sizes", &sized(*a, *b, *m), prof_of(*a + *b), 1));
    let mut alpha = vec![Op::Commit, Op::Pair];
    alpha.extend((2..10).map(Op::Mul));
    alpha.push(Op::Rand(vec![Op::Mul(4), Op::Chal, Op::Mul(5)]));
    alpha.push(Op::Rand(vec![Op::Pair, Op::Mul(6), Op::Mul(7), Op::Con(1)]));
    let items: Vec<(usize, Vec<Op>)> = seqs(&alpha, ctx.b(2, 3)).into_iter().enumerate().collect();
    ctx.par("shapes of multiply", &items, |(i, ops)| both("multiply", ops, prof_of(*i), 1));
    let items = list_lengths(ctx.thorough);
    ctx.par("constraint lists", &items, |q| {
        for ops in long_lists(*q) {
            both("lists", &ops, 0, 1);
        }
    });
    // verdict equality on edited and deviating proofs
    for ops in bind_shapes(ctx.thorough).iter().skip(1).take(ctx.b(4, 20)) {
        let g = gens(npad(ops));
        let (p, comms, _) = ref_prove(ops, 3, &g, None).unwrap();
        let muts = mutations(&p, &g);
        ctx.par("edited proofs", &muts, |(what, q)| {
            ctx.tr(1);
            ctx.tv(1);
            let r = ref_verify(ops, 3, &g, q, &comms, LABEL).unwrap_or(false);
            match verdict(ops, 3, &g, &q.lib(), &comms, LABEL) {
                Ok(v) => {
                    ctx.check(v == r, "edited", || format!("library says {}, independent verifier {}: {} in {}", v, r, what, sh(ops)));
                }
                Err(e) => ctx.viol("edited", format!("panic {}: {}", e, what)),
            }
        });
    }
    // phase-two gates that no constraint mentions, padding boundary, verdicts agree whatever they are
    let mut items = vec![];
    let small: Vec<Op> = vec![Op::Pair, Op::Con(1), Op::Mul(0), Op::Rand(vec![Op::Pair]), Op::Rand(vec![Op::Pair, Op::Pair]), Op::Commit];
    let progs: Vec<Vec<Op>> = seqs(&small, 2);
    for a in &progs {
        for b in &progs {
            if a != b {
                items.push((a.clone(), b.clone()));
            }
        }
    }
    ctx.par("proof of one circuit against another", &items, |(a, b)| {
        let g = gens(gates(a).max(gates(b)).next_power_of_two());
        let Some(m) = prove_or(ctx, "cross", a, 0, &g) else { return };
        let mut c = m.comms.clone();
        while c.len() < 3 {
            c.push(g.g.clone());
        }
        ctx.tr(1);
        ctx.tv(1);
        let r = ref_verify(b, 0, &g, &RefProof::from_lib(&m.proof), &c, LABEL).unwrap_or(false);
        match verdict(b, 0, &g, &m.proof, &c, LABEL) {
            Ok(v) => {
                ctx.check(v == r, "cross", || format!("library says {}, independent verifier {}: {} against {}", v, r, sh(a), sh(b)));
            }
            Err(e) => ctx.viol("cross", format!("panic {}: {} against {}", e, sh(a), sh(b))),
        }
    });
}
