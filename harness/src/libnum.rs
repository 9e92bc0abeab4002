//! C25, C26: the 256-bit number library against exact integers.
use crate::big::B;
use crate::chain::guard;
use crate::run::Outcome;
use bigint::U256;
use bignumber::{Decimal256, Uint256};
use cosmwasm_std::{Decimal, Uint128};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::convert::TryFrom;
use std::str::FromStr;

pub type W = [u64; 4];

#[derive(Serialize, Deserialize, Clone, Copy, Debug, Hash, PartialEq, Eq)]
pub enum F {
    UAdd,
    UAddAssign,
    USub,
    UMul,
    UMulD,
    DMulU,
    UDivD,
    URatio,
    DAdd,
    DAddAssign,
    DSub,
    DMul,
    DDiv,
    DRatio,
    DFromU,
    Percent,
    Permille,
    Cmp,
    Consts,
}
pub const FS: [F; 19] = [
    F::UAdd,
    F::UAddAssign,
    F::USub,
    F::UMul,
    F::UMulD,
    F::DMulU,
    F::UDivD,
    F::URatio,
    F::DAdd,
    F::DAddAssign,
    F::DSub,
    F::DMul,
    F::DDiv,
    F::DRatio,
    F::DFromU,
    F::Percent,
    F::Permille,
    F::Cmp,
    F::Consts,
];

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub struct ArithCase {
    pub f: F,
    pub a: W,
    pub b: W,
    pub c: W,
}

fn lift(r: u32, raw: W, k: u64) -> W {
    let max = B::pow2(256) - B::one();
    let b = B::from_words(&raw);
    let v = match r {
        // a random bit length
        0..=3 => b.divrem(&B::pow2((k % 257) as usize)).1,
        // powers of two +- small
        4 => {
            let p = B::pow2((k % 257) as usize);
            let d = B::new((k >> 32) as u128 % 3);
            if k >> 60 & 1 == 0 {
                p + d
            } else {
                p.sat_sub(&d)
            }
        }
        // multiples of 10^18
        5 => b.divrem(&B::pow2((k % 197) as usize)).1 * B::e18(),
        6 => B::pow10((k % 78) as u32) * B::new(1 + (k >> 32) as u128 % 9),
        7 => B::new(k as u128 % 12),
        _ => max.clone(),
    };
    let v = if v > max { max } else { v };
    v.to_words().unwrap()
}

pub fn word() -> BoxedStrategy<W> {
    let d = || crate::dict::num(128).prop_map(|v| [v as u64, (v >> 64) as u64, 0, 0]).boxed();
    prop_oneof![
        12 => plain_word(),
        1 => d(),
        // as a decimal
        1 => crate::dict::num(128).prop_map(|v| (B::new(v) * B::e18()).to_words().unwrap()),
    ]
    .boxed()
}

fn plain_word() -> BoxedStrategy<W> {
    let limb = || prop_oneof![4 => any::<u64>(), 1 => Just(0u64), 1 => Just(u64::MAX), 1 => Just(1u64), 1 => Just(1u64 << 63), 1 => Just(1u64 << 32)];
    (
        prop_oneof![8 => 0u32..4, 2 => Just(4u32), 3 => Just(5u32), 2 => Just(6u32), 2 => Just(7u32), 1 => Just(8u32)],
        [limb(), limb(), limb(), limb()],
        any::<u64>(),
    )
        .prop_map(|(r, raw, k)| lift(r, raw, k))
        .boxed()
}

pub fn arith() -> BoxedStrategy<ArithCase> {
    (prop::sample::select(FS.to_vec()), word(), word(), word(), 0u32..10, any::<u64>())
        .prop_map(|(f, a, b, c, rel, k)| {
            let max = B::pow2(256) - B::one();
            let (ba, bb) = (B::from_words(&a), B::from_words(&b));
            let near = |v: B| {
                let v = v + B::new((k % 4) as u128);
                let v = v.sat_sub(&B::new((k >> 8) as u128 % 4));
                if v > max {
                    max
                } else {
                    v
                }
            };
            // put the operands where the exact result or the intermediate product just fits
            let b = match rel {
                0 => a,
                1 => near(ba).to_words().unwrap(),
                2 => near(max - ba).to_words().unwrap(),
                3 if !ba.is_zero() => near(max.div(&ba)).to_words().unwrap(),
                4 if !ba.is_zero() => near((max * B::e18()).div(&ba).divrem(&B::pow2(256)).1).to_words().unwrap(),
                _ => b,
            };
            let a = match rel {
                5 => near(max.div(&B::e18())).to_words().unwrap(),
                6 if !bb.is_zero() => near(max.div(&bb)).to_words().unwrap(),
                _ => a,
            };
            ArithCase { f, a, b, c }
        })
        .boxed()
}

fn u(w: &W) -> Uint256 {
    Uint256(U256(*w))
}
fn d(w: &W) -> Decimal256 {
    Decimal256(U256(*w))
}

pub fn check_arith(t: &ArithCase) -> Outcome {
    let (a, b, c) = (B::from_words(&t.a), B::from_words(&t.b), B::from_words(&t.c));
    let e = B::e18();
    let lim = B::pow2(256);
    let fit = |v: B| if v < lim { Some(v) } else { None };
    let div = |n: B, q: B| if q.is_zero() { None } else { Some(n.div(&q)) };
    // (exact result if it fits, does every intermediate product fit)
    let (exact, inter): (Option<B>, bool) = match t.f {
        F::UAdd | F::UAddAssign | F::DAdd | F::DAddAssign => (fit(a + b), true),
        F::USub | F::DSub => (a.checked_sub(&b), true),
        F::UMul => (fit(a * b), true),
        F::UMulD | F::DMulU => (fit((a * b).div(&e)), a * b < lim),
        F::DMul => (fit((a * b).div(&e)), a * b < lim),
        F::UDivD => (div(a * e, b).and_then(fit), a * e < lim),
        F::DDiv => (div(a * e, b).and_then(fit), a * e < lim),
        F::URatio => (div(a * b, c).and_then(fit), a * b < lim),
        F::DRatio => (div(a * e, b).and_then(fit), a * e < lim),
        F::DFromU => (fit(a * e), true),
        F::Percent => (Some(B::new(t.a[0] as u128) * B::pow10(16)), true),
        F::Permille => (Some(B::new(t.a[0] as u128) * B::pow10(15)), true),
        F::Cmp | F::Consts => (None, true),
    };
    let label = |l: &'static str| vec![(l, 1)];
    if t.f == F::Consts {
        let ok = Decimal256::one().0 == U256(e.to_words().unwrap())
            && Decimal256::zero().0 == U256([0; 4])
            && Uint256::one().0 == U256([1, 0, 0, 0])
            && Uint256::zero().0 == U256([0; 4])
            && Decimal256::MAX.0 == U256([u64::MAX; 4])
            && u(&t.a).is_zero() == a.is_zero()
            && d(&t.a).is_zero() == a.is_zero()
            && Uint256::from(t.a[0]).0 == U256([t.a[0], 0, 0, 0])
            && Uint256::from(t.a[0] as u128 | (t.a[1] as u128) << 64).0 == U256([t.a[0], t.a[1], 0, 0])
            && U256::from(u(&t.a)) == U256(t.a)
            && Uint256::from(U256(t.a)).0 == U256(t.a);
        return Outcome { fail: if ok { None } else { Some(format!("a constant or zero test is wrong (operand {})", a)) }, nontrivial: !a.is_zero(), labels: label("consts") };
    }
    if t.f == F::Cmp {
        let o = a.cmp(&b);
        let (ua, ub, da, db) = (u(&t.a), u(&t.b), d(&t.a), d(&t.b));
        let r = guard(|| {
            Ok(ua.cmp(&ub) == o
                && da.cmp(&db) == o
                && ua.partial_cmp(&ub) == Some(o)
                && da.partial_cmp(&db) == Some(o)
                && (ua == ub) == (a == b)
                && (da == db) == (a == b)
                && (ua < ub) == (a < b)
                && (da < db) == (a < b)
                && (ua >= ub) == (a >= b)
                && (da >= db) == (a >= b)
                && ua.max(ub) == u(&a.max(b).to_words().unwrap()))
        });
        return Outcome {
            fail: if r == Ok(true) { None } else { Some(format!("comparing {} and {}: expected {:?} ({:?})", a, b, o, r)) },
            nontrivial: t.a != t.b,
            labels: label("compare"),
        };
    }
    let (ta, tb, tc) = (t.a, t.b, t.c);
    let f = t.f;
    let got: Result<W, String> = guard(|| {
        Ok(match f {
            F::UAdd => (u(&ta) + u(&tb)).0 .0,
            F::UAddAssign => {
                let mut x = u(&ta);
                x += u(&tb);
                x.0 .0
            }
            F::USub => (u(&ta) - u(&tb)).0 .0,
            F::UMul => (u(&ta) * u(&tb)).0 .0,
            F::UMulD => (u(&ta) * d(&tb)).0 .0,
            F::DMulU => (d(&ta) * u(&tb)).0 .0,
            F::UDivD => (u(&ta) / d(&tb)).0 .0,
            F::URatio => u(&ta).multiply_ratio(U256(tb), U256(tc)).0 .0,
            F::DAdd => (d(&ta) + d(&tb)).0 .0,
            F::DAddAssign => {
                let mut x = d(&ta);
                x += d(&tb);
                x.0 .0
            }
            F::DSub => (d(&ta) - d(&tb)).0 .0,
            F::DMul => (d(&ta) * d(&tb)).0 .0,
            F::DDiv => (d(&ta) / d(&tb)).0 .0,
            F::DRatio => Decimal256::from_ratio(U256(ta), U256(tb)).0 .0,
            F::DFromU => Decimal256::from_uint256(u(&ta)).0 .0,
            F::Percent => Decimal256::percent(ta[0]).0 .0,
            F::Permille => Decimal256::permille(ta[0]).0 .0,
            F::Cmp | F::Consts => unreachable!(),
        })
    });
    let what = || format!("{:?} of {}, {}, {}", t.f, a, b, c);
    let fail = match (&got, &exact, inter) {
        (Ok(w), Some(x), _) if B::from_words(w) == *x => None,
        (Ok(w), Some(x), _) => Some(format!("{}: returned {}, exact result {}", what(), B::from_words(w), x)),
        (Ok(w), None, _) => Some(format!("{}: returned {} although the exact result does not exist or does not fit", what(), B::from_words(w))),
        (Err(e), Some(x), true) => Some(format!("{}: aborted ({}), exact result {}", what(), e, x)),
        (Err(_), _, _) => None,
    };
    let l = match (&got, &exact, inter) {
        (Ok(_), _, true) => "value",
        (Ok(_), _, false) => "wide_value",
        (Err(_), None, _) => "abort_no_result",
        (Err(_), Some(_), _) => "abort_intermediate",
    };
    Outcome { fail, nontrivial: !a.is_zero() && !b.is_zero(), labels: label(l) }
}

// ------------------------------------------------------------------ C26

#[derive(Serialize, Deserialize, Clone, Debug, Hash)]
pub enum TextCase {
    Value(W),
    Text(String),
}

fn digits_strategy() -> BoxedStrategy<String> {
    let max = (B::pow2(256) - B::one()).to_string();
    let max_dec = (B::pow2(256) - B::one()).div(&B::e18()).to_string();
    let pert = |m: String| {
        (0usize..m.len(), 0u8..10, 0usize..3, any::<bool>()).prop_map(move |(i, dg, z, on)| {
            let mut v: Vec<u8> = m.clone().into_bytes();
            if on {
                v[i] = b'0' + dg;
            }
            "0".repeat(z) + &String::from_utf8(v).unwrap()
        })
    };
    prop_oneof![
        4 => "[0-9]{1,40}",
        2 => "[0-9]{50,82}",
        2 => "0{0,4}[1-9][0-9]{0,20}",
        1 => Just(String::new()),
        2 => pert(max),
        3 => pert(max_dec),
        1 => word().prop_map(|w| B::from_words(&w).to_string()),
        1 => word().prop_map(|w| B::from_words(&w).div(&B::e18()).to_string()),
    ]
    .boxed()
}

pub fn text() -> BoxedStrategy<TextCase> {
    let frac = prop_oneof![
        4 => "[0-9]{1,18}",
        2 => "[0-9]{18}",
        2 => "[0-9]{0,6}0{0,12}",
        1 => "[0-9]{19,24}",
        1 => "0{0,20}",
        1 => Just("584007913129639935".to_string()),
        1 => Just("584007913129639936".to_string()),
    ];
    let decimal = (digits_strategy(), frac).prop_map(|(w, f)| format!("{}.{}", w, f));
    let odd = (prop_oneof![digits_strategy(), (digits_strategy(), "[0-9]{1,18}").prop_map(|(a, b)| format!("{}.{}", a, b))], any::<prop::sample::Index>(), prop::sample::select(vec!["-", "+", " ", "_", "e", "E", "x", "0x", ",", ".", "..", "\n", "a", "f", "é", "\u{0661}", "/", ":", "\0", "\""])).prop_map(
        |(s, i, c)| {
            let p = i.index(s.len() + 1);
            let mut s = s;
            s.insert_str(p, c);
            s
        },
    );
    prop_oneof![
        5 => word().prop_map(TextCase::Value),
        3 => digits_strategy().prop_map(TextCase::Text),
        5 => decimal.prop_map(TextCase::Text),
        3 => odd.prop_map(TextCase::Text),
        1 => ".{0,12}".prop_map(TextCase::Text),
    ]
    .boxed()
}

fn dec_text(v: &B) -> String {
    let (w, f) = v.divrem(&B::e18());
    if f.is_zero() {
        return w.to_string();
    }
    let f = f.to_string();
    let f = "0".repeat(18 - f.len()) + &f;
    format!("{}.{}", w, f.trim_end_matches('0'))
}

/// Reference parser. Ok(value) | Err(None): must be rejected | Err(Some(v)): unspecified, but if accepted the value is v
fn parse_int(s: &str) -> Result<B, Option<B>> {
    if s.is_empty() {
        return Err(Some(B::ZERO));
    }
    if !s.bytes().all(|c| c.is_ascii_digit()) {
        return Err(None);
    }
    let t = s.trim_start_matches('0');
    if t.len() > 90 {
        return Err(None);
    }
    let v = if t.is_empty() { B::ZERO } else { B::parse(t).unwrap() };
    if v.fits256() {
        Ok(v)
    } else {
        Err(None)
    }
}
fn parse_dec(s: &str) -> Result<B, Option<B>> {
    let parts: Vec<&str> = s.split('.').collect();
    if parts.len() > 2 {
        return Err(None);
    }
    let mut loose = false;
    let mut get = |p: &str| match parse_int(p) {
        Ok(v) => Ok(v),
        Err(Some(v)) => {
            loose = true;
            Ok(v)
        }
        Err(None) => Err(None),
    };
    let w = get(parts[0])?;
    let mut v = w * B::e18();
    if parts.len() == 2 {
        if parts[1].len() > 18 {
            return Err(None);
        }
        let f = get(parts[1])?;
        v = v + f * B::pow10(18 - parts[1].len() as u32);
    }
    if !v.fits256() {
        return Err(None);
    }
    if loose {
        Err(Some(v))
    } else {
        Ok(v)
    }
}

fn judge(what: &str, s: &str, got: Result<W, String>, exp: &Result<B, Option<B>>) -> Option<String> {
    match (got, exp) {
        (Ok(w), Ok(v)) | (Ok(w), Err(Some(v))) => {
            if B::from_words(&w) == *v {
                None
            } else {
                Some(format!("{} of {:?} gives {}, the text means {}", what, s, B::from_words(&w), v))
            }
        }
        (Ok(w), Err(None)) => Some(format!("{} of {:?} is accepted as {}", what, s, B::from_words(&w))),
        (Err(e), Ok(v)) => Some(format!("{} of {:?} is rejected ({}), the text means {}", what, s, e, v)),
        (Err(_), Err(_)) => None,
    }
}

pub fn check_text(t: &TextCase) -> Outcome {
    let mut fails: Vec<String> = vec![];
    match t {
        TextCase::Text(s) => {
            let (ei, ed) = (parse_int(s), parse_dec(s));
            let st = |e: cosmwasm_std::StdError| e.to_string();
            fails.extend(judge("Uint256::from_str", s, guard(|| Uint256::from_str(s).map(|x| x.0 .0).map_err(st)), &ei));
            fails.extend(judge("Uint256::try_from", s, guard(|| Uint256::try_from(s.as_str()).map(|x| x.0 .0).map_err(st)), &ei));
            fails.extend(judge("Decimal256::from_str", s, guard(|| Decimal256::from_str(s).map(|x| x.0 .0).map_err(st)), &ed));
            let j = serde_json::to_vec(s).unwrap();
            fails.extend(judge("JSON Uint256", s, guard(|| cosmwasm_std::from_slice::<Uint256>(&j).map(|x| x.0 .0).map_err(st)), &ei));
            fails.extend(judge("JSON Decimal256", s, guard(|| cosmwasm_std::from_slice::<Decimal256>(&j).map(|x| x.0 .0).map_err(st)), &ed));
            let label = match (&ei, &ed) {
                (Ok(_), _) => "text_integer",
                (_, Ok(_)) => "text_decimal",
                (_, Err(Some(_))) => "text_unspecified",
                _ => "text_invalid",
            };
            Outcome { fail: fails.into_iter().next(), nontrivial: s.len() > 1, labels: vec![(label, 1)] }
        }
        TextCase::Value(w) => {
            let v = B::from_words(w);
            let (ux, dx) = (u(w), d(w));
            let mut eq = |what: &str, got: Result<String, String>, exp: String| {
                if got.as_ref() != Ok(&exp) {
                    fails.push(format!("{} of {}: {:?}, expected {}", what, v, got, exp));
                }
            };
            let st = |e: cosmwasm_std::StdError| e.to_string();
            let num = |w: W| B::from_words(&w).to_string();
            eq("printing the integer", guard(|| Ok(ux.to_string())), v.to_string());
            eq("String::from", guard(|| Ok(String::from(ux))), v.to_string());
            eq("printing the decimal", guard(|| Ok(dx.to_string())), dec_text(&v));
            eq("integer print/parse", guard(|| Uint256::from_str(&ux.to_string()).map(|x| num(x.0 .0)).map_err(st)), v.to_string());
            eq("decimal print/parse", guard(|| Decimal256::from_str(&dx.to_string()).map(|x| num(x.0 .0)).map_err(st)), v.to_string());
            eq("integer JSON", guard(|| cosmwasm_std::to_vec(&ux).map(|x| String::from_utf8(x).unwrap()).map_err(st)), format!("\"{}\"", v));
            eq("decimal JSON", guard(|| cosmwasm_std::to_vec(&dx).map(|x| String::from_utf8(x).unwrap()).map_err(st)), format!("\"{}\"", dec_text(&v)));
            eq("integer JSON round trip", guard(|| cosmwasm_std::from_slice::<Uint256>(&cosmwasm_std::to_vec(&ux).map_err(st)?).map(|x| num(x.0 .0)).map_err(st)), v.to_string());
            eq("decimal JSON round trip", guard(|| cosmwasm_std::from_slice::<Decimal256>(&cosmwasm_std::to_vec(&dx).map_err(st)?).map(|x| num(x.0 .0)).map_err(st)), v.to_string());
            let small = v.u128();
            let conv = |what: &str, got: Result<u128, String>| -> Option<String> {
                match (got, small) {
                    (Ok(a), Some(b)) if a == b => None,
                    (Err(_), None) => None,
                    (g, _) => Some(format!("{} of {}: {:?}", what, v, g)),
                }
            };
            let mut more = vec![];
            more.extend(conv("u128::from", guard(|| Ok(u128::from(ux)))));
            more.extend(conv("Uint128::from", guard(|| Ok(Uint128::from(ux).u128()))));
            more.extend(conv("Decimal::from", guard(|| Ok(Decimal::from(dx).atomics().u128()))));
            if let Some(s) = small {
                more.extend(conv("Uint256 from u128", guard(|| Ok(B::from_words(&Uint256::from(s).0 .0).u128().unwrap()))));
                more.extend(conv("Uint256 from Uint128", guard(|| Ok(B::from_words(&Uint256::from(Uint128::new(s)).0 .0).u128().unwrap()))));
                more.extend(conv("Decimal256 from Decimal", guard(|| Ok(B::from_words(&Decimal256::from(Decimal::new(Uint128::new(s))).0 .0).u128().unwrap()))));
            }
            fails.extend(more);
            Outcome { fail: fails.into_iter().next(), nontrivial: w[0] > 9 || w[1..] != [0, 0, 0], labels: vec![(if small.is_some() { "value_128" } else { "value_256" }, 1)] }
        }
    }
}
