//! Field and group helpers.
pub use amcl_wrapper::field_elem::{FieldElement as Fe, FieldElementVector as FeV};
pub use amcl_wrapper::group_elem::{GroupElement, GroupElementVector};
pub use amcl_wrapper::group_elem_g1::{G1Vector, G1};
use std::sync::OnceLock;

pub fn fe(x: u64) -> Fe {
    // the dependency's From<u64> goes through isize into one limb; build large values from halves
    if x >> 56 == 0 {
        Fe::from(x)
    } else {
        let hi = Fe::from(x >> 32);
        let lo = Fe::from(x & 0xffff_ffff);
        hi * Fe::from(1u64 << 32) + lo
    }
}
pub fn fi(x: i64) -> Fe {
    if x < 0 {
        fe((-x) as u64).negation()
    } else {
        fe(x as u64)
    }
}
pub fn eq(a: &Fe, b: &Fe) -> bool {
    (a - b).is_zero()
}
/// canonical bytes
pub fn key(a: &Fe) -> Vec<u8> {
    (a * Fe::one()).to_bytes()
}
pub fn show(a: &Fe) -> String {
    let k = key(a);
    let neg = key(&a.negation());
    let tail = |k: &[u8]| {
        let nz = k.iter().position(|b| *b != 0).unwrap_or(k.len() - 1);
        k[nz..].to_vec()
    };
    let (t, n) = (tail(&k), tail(&neg));
    let hex = |t: &[u8]| t.iter().map(|b| format!("{:02x}", b)).collect::<String>();
    if n.len() < t.len() {
        format!("-0x{}", hex(&n))
    } else {
        format!("0x{}", hex(&t))
    }
}
pub fn peq(a: &G1, b: &G1) -> bool {
    // an identity reached by arithmetic has no canonical encoding in the dependency
    match (a.is_identity(), b.is_identity()) {
        (true, true) => true,
        (false, false) => a.to_bytes() == b.to_bytes(),
        _ => false,
    }
}
/// Bytes that identify a point (empty for the identity).
pub fn pkey(a: &G1) -> Vec<u8> {
    if a.is_identity() {
        vec![]
    } else {
        a.to_bytes()
    }
}
pub struct Gens {
    pub g: G1,
    pub h: G1,
    pub G: G1Vector,
    pub H: G1Vector,
}
pub const NGENS: usize = 1024;
static BASE: OnceLock<(G1, G1, Vec<G1>, Vec<G1>)> = OnceLock::new();
fn base() -> &'static (G1, G1, Vec<G1>, Vec<G1>) {
    BASE.get_or_init(|| {
        let mk = |p: &str| -> Vec<G1> {
            // derive by hashing to the curve, on all cores
            let idx: Vec<usize> = (0..NGENS).collect();
            let chunks: Vec<Vec<G1>> = std::thread::scope(|s| {
                let hs: Vec<_> = idx
                    .chunks(NGENS / 8)
                    .map(|c| {
                        let c = c.to_vec();
                        s.spawn(move || c.iter().map(|i| G1::from_msg_hash(format!("mc-{}-{}", p, i).as_bytes())).collect())
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            });
            chunks.concat()
        };
        (G1::from_msg_hash(b"mc-g"), G1::from_msg_hash(b"mc-h"), mk("G"), mk("H"))
    })
}
pub fn gens(n: usize) -> Gens {
    let b = base();
    Gens { g: b.0.clone(), h: b.1.clone(), G: b.2[..n].to_vec().into(), H: b.3[..n].to_vec().into() }
}
pub fn ident() -> G1 {
    G1::identity()
}
/// Constant-time routine: the dependency's variable-time one loses a carry on scalars with a run
/// of about 54 one-bits (2^64-1, say).
pub fn msm(pts: &[G1], sc: &[Fe]) -> G1 {
    assert_eq!(pts.len(), sc.len());
    if pts.is_empty() {
        return ident();
    }
    G1Vector::from(pts.to_vec()).multi_scalar_mul_const_time(&sc.to_vec().into()).unwrap()
}
pub fn ped(g: &G1, h: &G1, v: &Fe, r: &Fe) -> G1 {
    g * v + h * r
}
/// deterministic pseudo-random non-special field element
pub fn drv(tag: &str, i: u64) -> Fe {
    Fe::from_msg_hash(format!("mc-val-{}-{}", tag, i).as_bytes())
}
