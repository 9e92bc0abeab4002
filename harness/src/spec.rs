//! Reference formulas of the pair, stated in exact integers.
use crate::big::B;
use serde::{Deserialize, Serialize};

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub struct SwapQ {
    pub ret: u128,
    pub spread: u128,
    pub comm: u128,
}

/// Exact outcome of a swap of `a` against reserves x (offered asset), y (asked asset).
#[derive(Clone, Copy, Debug)]
pub struct SwapSpec {
    pub gross: u128,
    pub comm: u128,
    pub ret: u128,
    /// exact spread; the reported one is this or one less, never below zero
    pub spread: B,
}

/// None when x is empty (no price)
pub fn swap(x: u128, y: u128, a: u128) -> Option<SwapSpec> {
    if x == 0 {
        return None;
    }
    let (bx, by, ba) = (B::new(x), B::new(y), B::new(a));
    let gross = (by * ba).div(&(bx + ba)).u128().unwrap();
    let comm = (B::new(gross) * B::new(3)).div(&B::new(1000)).u128().unwrap();
    let ideal = (ba * by).div(&bx);
    Some(SwapSpec { gross, comm, ret: gross - comm, spread: ideal - B::new(gross) })
}

impl SwapSpec {
    pub fn fits(&self) -> bool {
        self.spread.u128().is_some()
    }
    pub fn spread_lo(&self) -> B {
        self.spread.sat_sub(&B::one())
    }
    /// does a reported outcome agree with the specification?
    pub fn agrees(&self, q: &SwapQ) -> Result<(), String> {
        if q.ret != self.ret || q.comm != self.comm {
            return Err(format!(
                "reported return {} commission {}, exact return {} commission {}",
                q.ret, q.comm, self.ret, self.comm
            ));
        }
        let s = B::new(q.spread);
        if s > self.spread || s < self.spread_lo() {
            return Err(format!("reported spread {}, exact spread {}", q.spread, self.spread));
        }
        Ok(())
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Accept,
    Refuse,
    Either,
}

/// C11. `belief` and `max` are raw 18-digit numbers.
pub fn max_spread(s: &SwapSpec, a: u128, belief: Option<u128>, max: Option<u128>, od: u8, rd: u8) -> Verdict {
    let max = match max {
        None => return Verdict::Accept,
        Some(m) => B::new(m),
    };
    if od.abs_diff(rd) > 60 {
        return Verdict::Either;
    }
    let e18 = B::e18();
    // the normalised amounts times 10^18 must fit 256 bits, otherwise the swap may abort
    let wide = |v: B| (v * e18).bits() > 256;
    let (ka, kr) = (B::pow10(rd.saturating_sub(od) as u32), B::pow10(od.saturating_sub(rd) as u32));
    // refuse iff loss/base > max (18-digit)
    let judge = |loss: B, base: B| -> Verdict {
        if base.is_zero() {
            return Verdict::Either;
        }
        // loss/base <= max/1e18 ?
        if loss * e18 <= max * base {
            Verdict::Accept
        } else if loss * e18 >= (max + B::new(2)) * base {
            Verdict::Refuse
        } else {
            Verdict::Either
        }
    };
    let both = |a: Verdict, b: Verdict| if a == b { a } else { Verdict::Either };
    match belief {
        Some(0) => Verdict::Either,
        Some(bp) => {
            let ret = B::new(s.ret) * kr;
            let num = B::new(a) * ka * e18;
            if num.bits() > 256 || ret.bits() > 256 || wide(num.div(&B::new(bp))) {
                return Verdict::Either;
            }
            let f = num.div(&B::new(bp));
            let c = num.ceil_div(&B::new(bp));
            let j = |e: B| if e <= ret { Verdict::Accept } else { judge(e - ret, e) };
            both(j(f), j(c))
        }
        None => {
            let ret = B::new(s.ret) * kr;
            if wide(ret + s.spread * kr) {
                return Verdict::Either;
            }
            let j = |sp: B| judge(sp * kr, ret + sp * kr);
            both(j(s.spread), j(s.spread_lo()))
        }
    }
}

/// C10. deposits and reserves (before the deposit) in pair order, all positive; t raw 18-digit.
pub fn slippage(d: [u128; 2], p: [u128; 2], t: Option<u128>) -> Verdict {
    let t = match t {
        None => return Verdict::Accept,
        Some(t) => t,
    };
    let one = 1_000_000_000_000_000_000u128;
    if t > one {
        return Verdict::Refuse;
    }
    if d[0] == 0 || d[1] == 0 || p[0] == 0 || p[1] == 0 {
        return Verdict::Either;
    }
    let keep = B::new(one - t);
    let e18 = B::e18();
    let mut v = Verdict::Accept;
    for (i, j) in [(0, 1), (1, 0)] {
        // lhs = d_i*keep/(d_j*1e18), rhs = p_i/p_j
        let (ln, ld) = (B::new(d[i]) * keep, B::new(d[j]) * e18);
        let (rn, rd) = (B::new(p[i]), B::new(p[j]));
        if ln * rd <= rn * ld {
            continue;
        }
        // lhs >= rhs + 3e-18 ?
        let bn = rn * e18 + B::new(3) * rd; // over rd*e18
        if ln * rd * e18 >= bn * ld {
            return Verdict::Refuse;
        }
        v = Verdict::Either;
    }
    v
}

/// C05: share minted on a provision. Ok(None) when some quotient does not fit 128 bits.
pub fn share(d: [u128; 2], r: [u128; 2], s: u128) -> Option<u128> {
    if s == 0 {
        return Some((B::new(d[0]) * B::new(d[1])).isqrt().u128().unwrap());
    }
    if r[0] == 0 || r[1] == 0 {
        return None;
    }
    let q0 = (B::new(d[0]) * B::new(s)).div(&B::new(r[0])).u128()?;
    let q1 = (B::new(d[1]) * B::new(s)).div(&B::new(r[1])).u128()?;
    Some(q0.min(q1))
}

/// C06: is `paid` an admissible refund of reserve r for a of s pool tokens?
pub fn refund_ok(r: u128, a: u128, s: u128, paid: u128) -> Result<(), String> {
    let ideal_n = B::new(r) * B::new(a); // over s
    let (bs, e18) = (B::new(s), B::e18());
    if a == s && paid != r {
        return Err(format!("full withdrawal paid {} of a reserve of {}", paid, r));
    }
    if B::new(paid) * bs > ideal_n {
        return Err(format!("paid {} exceeds the pro-rata share of {}*{}/{}", paid, r, a, s));
    }
    // ideal - paid < 1 + r*1e-18  <=>  (ideal_n - paid*s)*e18 < s*(e18 + r)
    if (ideal_n - B::new(paid) * bs) * e18 >= bs * (e18 + B::new(r)) {
        return Err(format!("paid {} falls short of the pro-rata share of {}*{}/{}", paid, r, a, s));
    }
    Ok(())
}

/// lower bound on any admissible refund is at least one unit
pub fn refund_surely_positive(r: u128, a: u128, s: u128) -> bool {
    // r*a/s >= 2 + r*1e-18
    let e18 = B::e18();
    B::new(r) * B::new(a) * e18 >= B::new(s) * (B::new(2) * e18 + B::new(r))
}
