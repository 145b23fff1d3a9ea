//! C13..C22: money markets, bonds, floating-rate notes, rate curves.

use crate::base::*;
use crate::gens::*;
use crate::infra::*;
use financelib as fl;
use fl::fixedincomes::bonds::rates::{RateCurve, Rates};
use fl::fixedincomes::bonds::{CouponBond, FloatingRateNotes};
use fl::fixedincomes::moneymarkets as mm;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

// ---------------------------------------------------------------- bills

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        rule: "discount rates, days of 1 to 400 and face values of wide ranges, prices against their definitions and inverses; non-trivial: rate not zero and days not 360 or 365",
        laws: vec![
            law(
                "bill discounts",
                800_000,
                20_000_000,
                || (float_in(-0.5, 1.5), prop_oneof![2 => (1u32..=400).prop_map(|t| t as f64), 1 => float_in(0.5, 800.0)], log_float(-2.0, 12.0), prop_oneof![9 => float_in(0.01, 3.0).boxed(), 1 => beside().prop_map(|d| 1.0 + d.unwrap_or(1e-7)).boxed()]),
                |&(r, t, f, q): &(f64, f64, f64, f64), o| {
                    o.nt(r != 0.0 && t != 360.0 && t != 365.0);
                    o.label(r < 0.0, "negative rate");
                    let d = mm::t_bill_d(r, t, f);
                    rel(&format!("t_bill_d({r}, {t}, {f})"), d, f * (r * (t / 360.0)), 2e-15)?;
                    // 1 - p0/f carries a rounding error of 1e-16 before it is scaled by 360/t
                    let e = 1e-15 * 360.0 / t * (1.0 + (d / f).abs());
                    same("discount rate of face less discount", mm::t_bill_r(t, f - d, f), r, 2.0 * e + 1e-14 * r.abs())?;
                    // any price, above face too
                    let p0 = f * q;
                    let got = mm::t_bill_r(t, p0, f);
                    same(&format!("t_bill_r({t}, {p0}, {f})"), got, (f - p0) / f * 360.0 / t, 1e-15 * 360.0 / t * (2.0 + q))?;
                    same(
                        "face less discount at the discount rate",
                        f - mm::t_bill_d(got, t, f),
                        p0,
                        4e-15 * f * (1.0 + q),
                    )
                },
            ),
            law(
                "yields",
                800_000,
                20_000_000,
                || {
                    (
                        prop_oneof![2 => (1u32..=400).prop_map(|t| t as f64), 1 => float_in(0.5, 800.0)],
                        log_float(-2.0, 12.0),
                        prop_oneof![3 => float_in(0.5, 1.6), 1 => float_in(0.0, 10.0)],
                        prop_oneof![2 => Just(0.0), 4 => float_in(0.0, 0.5), 1 => float_in(-0.5, 0.0)],
                        beside(),
                    )
                        // next to nothing gained
                        .prop_map(|(t, p0, a, b, d)| (t, p0, d.map_or(a, |d| 1.0 - b + d), b))
                },
                |&(t, p0, a, b): &(f64, f64, f64, f64), o| {
                    let (p1, d1) = (p0 * a, p0 * b);
                    let ratio = (p1 + d1) / p0;
                    if ratio < 0.05 {
                        return Ok(());
                    }
                    o.nt(b != 0.0 && a != 1.0 && t != 360.0 && t != 365.0);
                    o.label(b < 0.0, "negative income");
                    let hpy = a + b - 1.0;
                    let e = 1e-15 * (2.0 + a + b.abs());
                    let what = format!("of price {p0}, end price {p1}, income {d1} over {t} days");
                    let h = mm::holding_per_yield(p0, p1, d1);
                    same(&format!("holding period yield {what}"), h, hpy, e)?;
                    same(
                        &format!("money market yield {what}"),
                        mm::money_mkt_yield(t, p0, p1, d1),
                        hpy * 360.0 / t,
                        e * 2.0 * 360.0 / t,
                    )?;
                    let (g, tg) = growth(hpy, 365.0 / t);
                    same(
                        &format!("effective annual yield {what}"),
                        mm::eff_ann_yield(t, p0, p1, d1),
                        g - 1.0,
                        1e-15 + g * 4.0 * tg * (1.0 + 1.0 / ratio),
                    )?;
                    // holding for a year of days is its own annual yield
                    same("effective annual yield over 365 days", mm::eff_ann_yield(365.0, p0, p1, d1), hpy, 4.0 * e)?;
                    same("money market yield over 360 days", mm::money_mkt_yield(360.0, p0, p1, d1), hpy, 4.0 * e)?;
                    // income and end price count alike, and only in proportion to the price
                    same("holding yield with income and price exchanged", mm::holding_per_yield(p0, d1, p1), h, 4.0 * e)?;
                    same("holding yield of twice the position", mm::holding_per_yield(2.0 * p0, 2.0 * p1, 2.0 * d1), h, 4.0 * e)
                },
            ),
        ],
    }
}

// ---------------------------------------------------------------- time-weighted return

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Port {
    bv0: f64,
    steps: Vec<(f64, f64)>, // inflow as a fraction of the value, growth of the sub-period
    n: f64,
    scale: f64,
    at: usize,
    mid: f64,
}

impl Port {
    fn values(&self) -> (Vec<f64>, Vec<f64>) {
        let mut bv = vec![self.bv0];
        let mut inf = vec![];
        for &(i, g) in &self.steps {
            let v = *bv.last().expect("value");
            inf.push(v * i);
            bv.push((v + v * i) * g);
        }
        (bv, inf)
    }
}

fn port() -> BoxedStrategy<Port> {
    (
        log_float(-2.0, 9.0),
        list(
            (
                prop_oneof![24 => Just(0.0), 35 => float_in(-0.8, 2.0), 1 => float_in(-0.9999, -0.8), 2 => log_float(-4.0, 3.0)],
                prop_oneof![6 => float_in(0.5, 1.6), 1 => float_in(0.05, 8.0), 1 => log_float(-3.0, 3.0), 1 => Just(1.0), 1 => beside().prop_map(|d| 1.0 + d.unwrap_or(1e-6))],
            ),
            1,
            39,
            130,
        ),
        prop_oneof![1 => Just(1.0), 3 => float_in(0.25, 40.0), 1 => (1u32..40).prop_map(|n| n as f64)],
        log_float(-3.0, 4.0),
        0usize..40,
        float_in(0.3, 3.0),
    )
        .prop_map(|(bv0, steps, n, scale, at, mid)| Port { bv0, steps, n, scale, at, mid })
        .boxed()
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        rule: "portfolios of 1 to 39 sub-periods with inflows and outflows, built from their growth factors; non-trivial: at least two sub-periods, an inflow, and different growth factors",
        laws: vec![law("chained growth", 800_000, 16_000_000, port, |c: &Port, o| {
            let k = c.steps.len();
            o.nt(k > 1 && c.steps.iter().any(|s| s.0 != 0.0) && c.steps.iter().any(|s| s.1 != c.steps[0].1));
            o.label(k == 1, "one sub-period");
            o.label(k > 20, "more than 20 sub-periods");
            let (bv, inf) = c.values();
            if bv.iter().any(|v| !v.is_finite() || *v < 1e-200) {
                return Ok(());
            }
            let l: f64 = c.steps.iter().map(|s| s.1.ln()).sum();
            // what is left after an outflow of nearly everything has lost digits
            let lost: f64 = 4.0 * f64::EPSILON * c.steps.iter().map(|s| (1.0 + s.0.abs()) / (1.0 + s.0)).sum::<f64>();
            o.label(c.steps.iter().any(|s| s.0 < -0.8), "outflow of more than 80%");
            let check = |what: &str, bv: &Vec<f64>, inf: &Vec<f64>, n: f64| -> Res {
                let e = (1e-14 * (k + 4) as f64 + lost) / n.min(1.0) * (1.0 + l.abs());
                let want = (l / n).exp();
                same(what, mm::twrr_n(n, bv, inf), want - 1.0, e * (want + 1.0))
            };
            check("return over n periods", &bv, &inf, c.n)?;
            check("return over one period", &bv, &inf, 1.0)?;
            check("return per sub-period", &bv, &inf, k as f64)?;
            let t = mm::twrr(&bv, &inf);
            let want = (l / k as f64).exp();
            same("return with n left out", t, want - 1.0, (1e-14 * (k + 4) as f64 + lost) * (want + 1.0) * (1.0 + l.abs()))?;
            let by = |v: &Vec<f64>, s: f64| v.iter().map(|x| x * s).collect::<Vec<_>>();
            check("return of a portfolio of another size", &by(&bv, c.scale), &by(&inf, c.scale), c.n)?;
            // value part of the way through a sub-period, after its inflow
            let at = c.at % k;
            let (mut b2, mut i2) = (bv.clone(), inf.clone());
            b2.insert(at + 1, (bv[at] + inf[at]) * c.mid);
            i2.insert(at + 1, 0.0);
            check("return with a sub-period split", &b2, &i2, c.n)
        })],
    }
}

// ---------------------------------------------------------------- bonds

fn freqs() -> BoxedStrategy<f64> {
    prop_oneof![
        8 => proptest::sample::select(vec![1.0, 2.0, 3.0, 4.0, 6.0, 12.0, 24.0, 26.0, 52.0]),
        1 => proptest::sample::select(vec![360.0, 365.0]),
        1 => (1u32..=130).prop_map(|f| f as f64),
        1 => proptest::sample::select(vec![0.5, 0.25, 0.2, 1.5, 2.5, 0.75, 365.25]),
    ]
    .boxed()
}

/** Frequency and number of payments, of at most 40 periods. */
/** Numbers in the code, and one less or more, as counts. */
pub fn named_count(max: i64) -> BoxedStrategy<u32> {
    let v: Vec<u32> = crate::mined::mined()
        .ints
        .iter()
        .flat_map(|&v| [v - 1, v, v + 1])
        .filter(|&v| v >= 1 && v <= max)
        .map(|v| v as u32)
        .collect();
    if v.is_empty() { (1..=max as u32).boxed() } else { proptest::sample::select(v).boxed() }
}

fn terms(max_years: f64) -> BoxedStrategy<(f64, u32)> {
    terms_of(360, max_years)
}

fn terms_of(most: u32, max_years: f64) -> BoxedStrategy<(f64, u32)> {
    (freqs(), prop_oneof![1 => Just(1u32), 6 => 1u32..=60, 2 => 1u32..=most, 1 => named_count(most as i64)])
        .prop_map(move |(f, k)| (f, k.min((f * max_years) as u32).max(1)))
        .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BondCase {
    par: f64,
    c: f64,
    freq: f64,
    k: u32,
    y: f64,
    dy: f64,
}

impl BondCase {
    fn bond(&self) -> CouponBond {
        CouponBond { par: self.par, c: self.c, freq: self.freq, t_life: self.k as f64 / self.freq }
    }
    /** Price from the payments one by one, its tolerance, and the sum of t*payment/(1+i). */
    fn value(&self, y: f64) -> (f64, f64, f64) {
        self.value_k(y, self.k)
    }
    fn value_k(&self, y: f64, k: u32) -> (f64, f64, f64) {
        let i = y / self.freq;
        let a = annuity_sum(i, k);
        let (g, tg) = growth(i, k as f64);
        let coupon = self.par * self.c / self.freq;
        let price = coupon * a + self.par / g;
        let tol = (coupon * a).abs() * annuity_tol(i, k as f64) + self.par / g * tg + 1e-300;
        let dur = (coupon * a + self.par / g) * k as f64 / self.freq / (1.0 + i);
        (price, tol, dur)
    }
}

fn coupon() -> BoxedStrategy<f64> {
    prop_oneof![2 => Just(0.0), 8 => float_in(0.0, 0.3), 1 => float_in(-0.05, 2.0)].boxed()
}

/** Now and then longer than bonds usually are. */
fn long_terms() -> BoxedStrategy<(f64, u32)> {
    prop_oneof![14 => terms(40.0), 2 => terms_of(400, 130.0), 1 => terms_of(2600, 130.0)].boxed()
}

fn bond() -> BoxedStrategy<BondCase> {
    (
        log_float(-2.0, 12.0),
        coupon(),
        long_terms(),
        prop_oneof![10 => small_or_rate(-0.1, 1.0), 1 => float_in(-0.2, 5.0)],
        log_float(-4.0, 0.0),
        beside(),
    )
        .prop_map(|(par, c, (freq, k), y, dy, d)| BondCase { par, c, freq, k, y: d.map_or(y, |d| c + d).max(-0.6 * freq), dy })
        .boxed()
}

#[derive(Debug, Clone, Copy, PartialEq, Serialize, Deserialize)]
pub enum Kind {
    Nom,
    Eff,
    Exp,
}

fn kind() -> BoxedStrategy<Kind> {
    proptest::sample::select(vec![Kind::Nom, Kind::Eff, Kind::Exp]).boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Curve {
    kind: Kind,
    freq: f64,
    rate: Vec<f64>,
}

impl Curve {
    fn build(&self) -> RateCurve {
        let (rate, freq) = (self.rate.clone(), self.freq);
        match self.kind {
            Kind::Nom => RateCurve::NominalRateCurve { rate, freq },
            Kind::Eff => RateCurve::EffectiveRateCurve { rate, freq },
            Kind::Exp => RateCurve::ExponentialRateCurve { rate, freq },
        }
    }
    /** Interpolated rate at time y, and how far off the reading may be. */
    fn at(&self, y: f64) -> (f64, f64) {
        let x = y * self.freq;
        let j = (x + 1e-9).floor();
        let w = x - j;
        let (i, n) = (j as usize - 1, self.rate.len());
        let a = self.rate[i];
        let b = if i + 1 < n { self.rate[i + 1] } else { a };
        let e = 4e-16 * (1.0 + x) * ((b - a).abs() + a.abs() + b.abs());
        if w <= 2e-9 {
            (a, e + if w == 0.0 { 0.0 } else { 4e-9 * ((b - a).abs() + if i > 0 { (a - self.rate[i - 1]).abs() } else { 0.0 }) })
        } else {
            (a + (b - a) * w, e + if w > 1.0 - 2e-9 { 4e-9 * (b - a).abs() } else { 0.0 })
        }
    }
    fn discount_at(&self, r: f64, t: f64) -> f64 {
        match self.kind {
            Kind::Nom => growth(r / self.freq, t * self.freq).0,
            Kind::Eff => growth(r, t).0,
            Kind::Exp => (r * t).exp(),
        }
    }
    /** Discount factor at time t with its relative tolerance. */
    fn factor(&self, t: f64) -> (f64, f64) {
        let (r, e) = self.at(t);
        let (base, n) = match self.kind {
            Kind::Nom => (1.0 + r / self.freq, t * self.freq),
            Kind::Eff => (1.0 + r, t),
            Kind::Exp => (1.0, 0.0),
        };
        let tol = 1.5e-14 * (2.0 + n / base * (1.0 + r.abs()) + (r * t).abs()) + 4.0 * t * e / base.min(1.0);
        (1.0 / self.discount_at(r, t), tol)
    }
}

fn read(rc: &RateCurve) -> (Kind, Vec<f64>, f64) {
    match rc {
        RateCurve::NominalRateCurve { rate, freq } => (Kind::Nom, rate.clone(), *freq),
        RateCurve::EffectiveRateCurve { rate, freq } => (Kind::Eff, rate.clone(), *freq),
        RateCurve::ExponentialRateCurve { rate, freq } => (Kind::Exp, rate.clone(), *freq),
    }
}

/** Rates of a curve: free, smooth or flat. */
fn curve_rates(lo: f64, hi: f64, n: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<f64>> {
    // now and then longer curves
    let long = if *n.end() >= 30 && n.start() < n.end() { 130 } else { *n.end() };
    let (min, max) = (*n.start(), *n.end());
    prop_oneof![
        4 => list(float_in(lo, hi), min, max, long),
        3 => (float_in(lo, hi), list(-0.004..0.006f64, min, max, long)).prop_map(move |(r, d)| {
            let mut v = r;
            d.iter().map(|x| { v = (v + x).clamp(lo, hi); v }).collect()
        }),
        1 => (float_in(lo, hi), list(beside(), min, max, long)).prop_map(move |(r, d)| {
            // hardly any slope, or none
            let mut v = r;
            d.iter().map(|x| { v = (v + x.unwrap_or(0.0)).clamp(lo, hi); v }).collect()
        }),
        1 => (float_in(lo, hi), n).prop_map(|(r, n)| vec![r; n]),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct BondCurve {
    b: BondCase,
    curve: Curve,
    mult: u32,
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        rule: "bonds of 1 to 2600 payments, any frequency, coupons of -5% to 200% (mostly 0 to 30%), yields of -20% to 500% (mostly -10% to 100%) with zero and tiny ones; curves of the three types with points at or between the payment dates; non-trivial: a coupon and more than one payment",
        laws: vec![
            law("price at a yield is the value of the cash flows", 400_000, 10_000_000, bond, |c: &BondCase, o| {
                let b = c.bond();
                o.nt(c.k > 1 && c.c > 0.0);
                o.label(c.c == 0.0, "no coupon");
                o.label(c.k == 1, "one payment");
                o.label(c.y == 0.0, "zero yield");
                o.label(c.y < 0.0, "negative yield");
                let cf = b.generate_cashflow();
                ensure(cf.len() == c.k as usize, || format!("{} cash flows for {} payments", cf.len(), c.k))?;
                let each = c.par * c.c / c.freq;
                for (i, x) in cf.iter().enumerate() {
                    let want = if i + 1 == cf.len() { each + c.par } else { each };
                    rel(&format!("cash flow {} of {}", i + 1, cf.len()), *x, want, 4e-15)?;
                }
                let (want, tol, _) = c.value(c.y);
                let got = b.price(c.y);
                same(&format!("price at {}", c.y), got, want, tol)?;
                let (_, ptol, _) = c.value(c.c);
                same("price at the coupon rate", b.price(c.c), c.par, ptol)?;
                // a higher yield, a lower price
                let (up, utol, _) = c.value(c.y + c.dy);
                if want - up > 2.0 * (tol + utol) {
                    let p = b.price(c.y + c.dy);
                    ensure(p < got, || format!("price {p} at yield {}, not below {got} at {}", c.y + c.dy, c.y))?;
                }
                // the flat curve of the bond's own frequency
                let flat = RateCurve::NominalRateCurve { rate: vec![c.y; c.k as usize], freq: c.freq };
                same("price on a flat nominal curve", b.price_ratecurve(&flat), want, 2.0 * tol + 2e-15 * c.k as f64 * want.abs())
            }),
            law(
                "price on a curve",
                200_000,
                5_000_000,
                || {
                    (bond(), kind(), prop_oneof![3 => Just(1u32), 2 => 2u32..=4], 0usize..4)
                        .prop_flat_map(|(b, kind, mult, extra)| {
                            let mut b = b;
                            b.k = b.k.min(120);
                            let n = (b.k * mult) as usize + extra;
                            let freq = b.freq * mult as f64;
                            (Just(b), curve_rates(-0.08, 0.4, n..=n), Just(kind), Just(mult), Just(freq))
                        })
                        .prop_map(|(b, rate, kind, mult, freq)| BondCurve { b, curve: Curve { kind, freq, rate }, mult })
                },
                |c: &BondCurve, o| {
                    o.nt(c.b.k > 1 && c.b.c > 0.0);
                    o.label(c.curve.kind == Kind::Nom, "nominal curve");
                    o.label(c.curve.kind == Kind::Eff, "effective curve");
                    o.label(c.curve.kind == Kind::Exp, "exponential curve");
                    o.label(c.mult > 1, "finer curve");
                    let b = c.b.bond();
                    let coupon = c.b.par * c.b.c / c.b.freq;
                    let (mut want, mut tol) = (0.0, 0.0);
                    for j in 1..=c.b.k {
                        let (d, e) = c.curve.factor(j as f64 / c.b.freq);
                        let x = coupon + if j == c.b.k { c.b.par } else { 0.0 };
                        want += x * d;
                        tol += (x * d).abs() * e;
                    }
                    tol += 1e-15 * c.b.k as f64 * want.abs();
                    same("price on the curve", b.price_ratecurve(&c.curve.build()), want, 2.0 * tol)
                },
            ),
        ],
    }
}

fn ytm_bond() -> BoxedStrategy<BondCase> {
    (
        log_float(2.0, 7.0),
        prop_oneof![1 => Just(0.0), 8 => float_in(0.0, 0.2)],
        terms(30.0),
        prop_oneof![1 => Just(0.0), 8 => float_in(-0.02, 0.6), 2 => (log_float(-9.0, -2.0), any::<bool>()).prop_map(|(v, s)| if s { -v } else { v })],
        beside(),
    )
        .prop_map(|(par, c, (freq, k), y, d)| BondCase { par, c, freq, k, y: d.map_or(y, |d| c + d).clamp(-0.02, 0.6), dy: 0.0 })
        .boxed()
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        rule: "bonds of par 100 to 1e7, coupons 0 to 20%, up to 30 years, priced by summing payments at yields of -2% to 60%; non-trivial: yield neither the coupon nor the search's start of 5%, and more than one payment",
        laws: vec![law("yield of a price", 400_000, 10_000_000, ytm_bond, |c: &BondCase, o| {
            o.nt(c.k > 1 && (c.y - c.c).abs() > 1e-6 && (c.y - 0.05).abs() > 1e-6);
            o.label(c.c == 0.0, "no coupon");
            o.label(c.y < 0.0, "negative yield");
            o.label(c.k > 60, "more than 60 payments");
            let b = c.bond();
            let (price, tol, dur) = c.value(c.y);
            let y = b.ytm(price);
            // the price fixes the yield no better than its own rounding allows
            let slack = 2.0 * tol / (dur / c.k as f64 + 1e-300);
            same(&format!("yield of price {price}"), y, c.y, 1e-7 + slack)?;
            same(&format!("price at the returned yield {y}"), b.price(y), price, 2.0 * tol + dur * 1.5e-7)?;
            let own = b.ytm(b.price(c.y));
            same("yield of the price at a yield", own, c.y, 1e-7 + slack)
        })],
    }
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        rule: "bonds as for C15 and times from the coupon date up to the next; non-trivial: a coupon and a time strictly between two coupon dates",
        laws: vec![law(
            "between coupon dates",
            600_000,
            12_000_000,
            || (bond(), prop_oneof![1 => Just(0.0), 1 => Just(1.0), 8 => float_in(0.0, 1.0)]),
            |(c, w): &(BondCase, f64), o| {
                let b = c.bond();
                let t = w / c.freq;
                o.nt(*w > 0.0 && *w < 1.0 && c.c > 0.0);
                o.label(*w == 0.0, "on a coupon date");
                let (price, tol, _) = c.value(c.y);
                let i = c.y / c.freq;
                let (g, tg) = growth(i, t * c.freq);
                let full = b.pv_full(c.y, t);
                let ft = tol * g * 2.0 + (price * g).abs() * tg;
                same(&format!("full price at {}, {t} after a coupon date", c.y), full, price * g, ft)?;
                let acc = c.c * c.par * t;
                same("accrued interest", b.accrued_interest(t), acc, 4e-15 * acc.abs())?;
                same("flat price", b.pv_flat(c.y, t), price * g - acc, ft + 4e-15 * (acc.abs() + (price * g).abs()))?;
                same("full price on the coupon date", b.pv_full(c.y, 0.0), price, 2.0 * tol)?;
                same("flat price on the coupon date", b.pv_flat(c.y, 0.0), price, 2.0 * tol)?;
                // at the next coupon date: one payment fewer, plus the coupon
                let coupon = c.par * c.c / c.freq;
                let next = b.pv_full(c.y, 1.0 / c.freq);
                let (rest, t2) = if c.k == 1 {
                    (c.par, 0.0)
                } else {
                    let shorter = CouponBond { t_life: (c.k - 1) as f64 / c.freq, ..b };
                    (shorter.price(c.y), c.value_k(c.y, c.k - 1).1)
                };
                let (g1, tg1) = growth(i, 1.0);
                same("full price at the next coupon date", next, rest + coupon, 2.0 * (tol * g1 + t2 + (price * g1).abs() * tg1))
            },
        )],
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct FrnCase {
    par: f64,
    qm: f64,
    freq: f64,
    k: u32,
    index: f64,
    total: f64,
}

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        rule: "notes of 1 to 2600 payments (margins: up to 30 years), index rates of -1% to 20%, margins; price against payments one by one, margin against the price; non-trivial: more than one payment and discount margin different from the quoted one",
        laws: vec![law(
            "price and discount margin",
            400_000,
            10_000_000,
            || {
                (
                    log_float(2.0, 7.0),
                    float_in(-0.01, 0.06),
                    prop_oneof![12 => terms(30.0), 1 => terms_of(400, 130.0), 1 => terms_of(2600, 130.0)],
                    float_in(-0.01, 0.2),
                    prop_oneof![2 => float_in(-0.02, 0.4), 1 => float_in(-0.02, 0.08), 1 => Just(0.0)],
                    prop_oneof![1 => Just(None), 3 => float_in(-0.08, 0.1).prop_map(Some)],
                    beside(),
                )
                    .prop_map(|(par, qm, (freq, k), index, total, dm, d)| (par, qm, (freq, k), index, total, d.map(|d| qm + d).or(dm)))
                    .prop_map(|(par, qm, (freq, k), index, total, dm)| FrnCase { par, qm, freq, k, index, total: dm.map_or(total, |d| index + d).clamp(-0.02, 0.4) })
            },
            |c: &FrnCase, o| {
                let f = FloatingRateNotes { par: c.par, quoted_margin: c.qm, freq: c.freq, t_life: c.k as f64 / c.freq };
                let dm = c.total - c.index;
                let y = c.index + dm;
                o.nt(c.k > 1 && (dm - c.qm).abs() > 1e-6);
                o.label(y < 0.0, "negative discount rate");
                o.label(dm < 0.0, "negative margin");
                let bc = BondCase { par: c.par, c: c.index + c.qm, freq: c.freq, k: c.k, y, dy: 0.0 };
                let (price, tol, dur) = bc.value(y);
                same(&format!("price at index {} and margin {dm}", c.index), f.price(c.index, dm), price, 2.0 * tol)?;
                let (_, ptol, _) = bc.value(bc.c);
                same("price at the quoted margin", f.price(c.index, c.qm), c.par, 2.0 * ptol)?;
                let i = (y / c.freq).abs();
                // with negative payments a price can belong to several margins
                if (i > 0.0 && i < 1e-13) || bc.c < 0.0 || dm < -0.08 || c.k as f64 / c.freq > 30.0 {
                    return Ok(());
                }
                o.label(true, "margin of a price");
                let slack = 2.0 * tol / (dur.abs() / c.k as f64 + 1e-300);
                let got = f.discount_margin(price, c.index);
                same(&format!("discount margin of price {price}"), got, dm, 1e-7 + slack)?;
                same("price at the returned margin", f.price(c.index, got), price, 4.0 * tol + 1.5e-7 * (dur.abs() + c.par * c.k as f64 / c.freq))
            },
        )],
    }
}

// ---------------------------------------------------------------- curves

fn curve(n: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Curve> {
    (kind(), freqs(), prop_oneof![10 => curve_rates(-0.3, 1.0, n.clone()), 1 => curve_rates(-0.5, 6.0, n)])
        .prop_map(|(kind, freq, rate)| Curve { kind, freq, rate })
        .boxed()
}

fn outer(which: u8, rate: RateCurve) -> Rates {
    match which {
        0 => Rates::SpotRates { rate },
        1 => Rates::ParRates { rate },
        _ => Rates::ForwardRates { rate },
    }
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        rule: "curves of the three types, 1 to 60 points, any frequency; every point and times between points; non-trivial: a time between two points with different rates",
        laws: vec![law(
            "interpolation and discounting",
            400_000,
            10_000_000,
            || (curve(1..=60), float_in(0.0, 1.0), amount(-2.0, 9.0), any::<proptest::sample::Index>(), 0u8..3).prop_map(|(c, w, x, i, which)| {
                let at = i.index(c.rate.len());
                (c, w, x, at, which)
            }),
            |(c, w, x, at, which): &(Curve, f64, f64, usize, u8), o| {
                let rc = c.build();
                let named = outer(*which, c.build());
                let n = c.rate.len();
                for i in 0..n {
                    let t = (i + 1) as f64 / c.freq;
                    let near = if i + 1 < n { (c.rate[i + 1] - c.rate[i]).abs() } else { 0.0 } + if i > 0 { (c.rate[i] - c.rate[i - 1]).abs() } else { 0.0 };
                    let tol = 1e-14 * (c.rate[i].abs() + near * (i + 2) as f64);
                    same(&format!("rate at point {} of {n}", i + 1), rc.rate_estim(t), c.rate[i], tol)?;
                    same(&format!("named rate at point {} of {n}", i + 1), named.rate_estim(t), c.rate[i], tol)?;
                }
                // a time between point `at` and the next
                let i = (*at).min(n.max(2) - 2);
                let t = if n == 1 { 1.0 / c.freq } else { ((i + 1) as f64 + w) / c.freq };
                let (want, e) = c.at(t);
                let b = if n == 1 { c.rate[0] } else { c.rate[i + 1] };
                o.nt(*w > 1e-6 && *w < 1.0 - 1e-6 && c.rate[i] != b);
                o.label(c.kind == Kind::Nom, "nominal");
                o.label(c.kind == Kind::Eff, "effective");
                o.label(c.kind == Kind::Exp, "exponential");
                let got = rc.rate_estim(t);
                same(&format!("rate at {t}, between {} and {b}", c.rate[i]), got, want, 2.0 * e)?;
                same("named rate", named.rate_estim(t), want, 2.0 * e)?;
                let (lo, hi) = (c.rate[i].min(b), c.rate[i].max(b));
                ensure(got >= lo - e && got <= hi + e, || format!("rate {got} at {t} outside {lo}..{hi}"))?;
                if c.kind == Kind::Nom && want / c.freq < -0.9 || (want * t).abs() > 600.0 {
                    return Ok(());
                }
                let (d, te) = c.factor(t);
                same(&format!("value of {x} at {t}"), rc.pv(*x, t), x * d, (x * d).abs() * te)
            },
        )],
    }
}

fn conv(rc: &RateCurve, k: Kind) -> RateCurve {
    match k {
        Kind::Nom => rc.to_nominal(),
        Kind::Eff => rc.to_effective(),
        Kind::Exp => rc.to_exponential(),
    }
}

pub fn c20() -> Prop {
    Prop {
        id: "C20",
        rule: "curves of the three types, 1 to 30 points, any frequency, and chains of 1 to 6 conversions; non-trivial: a chain that leaves the curve's form, at a rate other than zero",
        laws: vec![law(
            "conversions",
            400_000,
            8_000_000,
            || (curve(1..=30), proptest::collection::vec(kind(), 1..6)),
            |(c, chain): &(Curve, Vec<Kind>), o| {
                if c.kind == Kind::Nom && c.rate.iter().any(|r| r / c.freq < -0.9) {
                    return Ok(());
                }
                o.nt(chain.iter().any(|k| *k != c.kind) && c.rate.iter().any(|r| *r != 0.0));
                o.label(chain.len() > 2, "chain of more than two");
                let mut now = c.build();
                let mut from = c.kind;
                let n = c.rate.len();
                for (step, k) in chain.iter().chain([&c.kind]).enumerate() {
                    let next = conv(&now, *k);
                    let (kind, rate, freq) = read(&next);
                    ensure(kind == *k, || format!("converting to {k:?} gives {kind:?}"))?;
                    ensure(rate.len() == n, || format!("{n} points become {}", rate.len()))?;
                    ensure(freq == c.freq, || format!("frequency {} becomes {freq}", c.freq))?;
                    if *k == from {
                        let before = read(&now).1;
                        ensure(rate == before, || format!("converting to its own form: {before:?} becomes {rate:?}"))?;
                    }
                    for i in 0..n {
                        let t = (i + 1) as f64 / c.freq;
                        if (c.rate[i] * t).abs() > 600.0 {
                            continue;
                        }
                        let d = 1.0 / c.discount_at(c.rate[i], t);
                        // a rate is known to its rounding times the frequency, over (i+1)/freq
                        let low = 1.0 + (c.rate[i] / if c.kind == Kind::Nom { c.freq } else { 1.0 }).min(0.0);
                        let up = 1.0 + c.rate[i].abs() * 2.0;
                        let tol = 4e-14 * (step + 2) as f64 * (4.0 + (i + 1) as f64) * up / low * (1.0 + t);
                        same(
                            &format!("value at point {} after {} conversions ({:?} to {k:?})", i + 1, step + 1, c.kind),
                            next.pv(1.0, t),
                            d,
                            d * tol,
                        )?;
                    }
                    now = next;
                    from = *k;
                }
                let (_, back, _) = read(&now);
                for i in 0..n {
                    let r = c.rate[i];
                    let low = 1.0 + (r / if c.kind == Kind::Nom { c.freq } else { 1.0 }).min(0.0);
                    let tol = 4e-14 * (chain.len() + 2) as f64 * (2.0 + c.freq) * (1.0 + r.abs() * 2.0) / (low * low);
                    same(&format!("rate {} after the chain", i + 1), back[i], r, tol)?;
                }
                Ok(())
            },
        )],
    }
}

// ---------------------------------------------------------------- par and spot

/** Par rates of a nominal spot curve, and its discount factors. */
fn par_of(spot: &[f64], f: f64) -> (Vec<f64>, Vec<f64>) {
    let d: Vec<f64> = spot.iter().enumerate().map(|(k, s)| (-((k + 1) as f64) * (s / f).ln_1p()).exp()).collect();
    let mut sum = 0.0;
    let par = d
        .iter()
        .map(|x| {
            sum += x;
            f * (1.0 - x) / sum
        })
        .collect();
    (par, d)
}

/** Discount factors from par rates; None where they turn negative or tiny. */
fn boot(par: &[f64], f: f64) -> Option<Vec<f64>> {
    let mut sum = 0.0;
    let mut d = vec![];
    for p in par {
        let x = (1.0 - p / f * sum) / (1.0 + p / f);
        if x < 1e-3 {
            return None;
        }
        sum += x;
        d.push(x);
    }
    Some(d)
}

fn nominal(r: &Rates, spot: bool) -> Result<(Vec<f64>, f64), String> {
    match (r, spot) {
        (Rates::SpotRates { rate: RateCurve::NominalRateCurve { rate, freq } }, true)
        | (Rates::ParRates { rate: RateCurve::NominalRateCurve { rate, freq } }, false) => Ok((rate.clone(), *freq)),
        _ => Err(format!("not a nominal {} curve: {r:?}", if spot { "spot" } else { "par" })),
    }
}

fn small_freqs() -> BoxedStrategy<f64> {
    prop_oneof![8 => proptest::sample::select(vec![1.0, 2.0, 4.0, 12.0]), 2 => freqs()].boxed()
}

fn check_par_spot(par: &[f64], spot: &[f64], d: &[f64], f: f64) -> Res {
    let n = par.len();
    let dmin = d.iter().cloned().fold(1.0f64, f64::min);
    let most = par.iter().chain(spot).fold(1.0f64, |a, r| a.max(1.0 + r.abs()));
    let tol = 4e-14 * (n + 4) as f64 * (f + 2.0) * most / dmin;
    let nom = |rate: &[f64]| RateCurve::NominalRateCurve { rate: rate.to_vec(), freq: f };
    let p = Rates::ParRates { rate: nom(par) };
    let s = Rates::SpotRates { rate: nom(spot) };
    let (s2, fs) = nominal(&p.to_spot(), true)?;
    let (p2, fp) = nominal(&s.to_par(), false)?;
    ensure(fs == f && fp == f, || format!("frequency {f} becomes {fs} and {fp}"))?;
    ensure(s2.len() == n && p2.len() == n, || format!("{n} points become {} and {}", s2.len(), p2.len()))?;
    for i in 0..n {
        same(&format!("spot rate {} from par", i + 1), s2[i], spot[i], tol)?;
        same(&format!("par rate {} from spot", i + 1), p2[i], par[i], tol)?;
    }
    let (p3, _) = nominal(&p.to_spot().to_par(), false)?;
    let (s3, _) = nominal(&s.to_par().to_spot(), true)?;
    for i in 0..n {
        same(&format!("par rate {} after par to spot to par", i + 1), p3[i], par[i], 2.0 * tol)?;
        same(&format!("spot rate {} after spot to par to spot", i + 1), s3[i], spot[i], 2.0 * tol)?;
    }
    for i in [0, n / 2, n - 1] {
        let t_life = (i + 1) as f64 / f;
        let slack = 100.0 * tol * (t_life + 1.0) * 4.0;
        let b = CouponBond { par: 100.0, c: par[i], freq: f, t_life };
        same(&format!("price of the par bond of {} payments on the spot curve", i + 1), b.price_ratecurve(&nom(&s2)), 100.0, slack)?;
        let b = CouponBond { c: p2[i], ..b };
        same(&format!("price of the bond at the derived par rate {}", i + 1), b.price_ratecurve(&nom(spot)), 100.0, slack)?;
    }
    Ok(())
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        rule: "nominal spot curves (free, smooth, flat) of 1 to 60 points with the par curve derived independently, and par curves whose discount factors stay above 0.001; non-trivial: at least three points that are not all equal",
        laws: vec![
            law(
                "from a spot curve",
                100_000,
                3_000_000,
                || (small_freqs(), curve_rates(-0.03, 0.2, 1..=60)),
                |(f, spot): &(f64, Vec<f64>), o| {
                    let (par, d) = par_of(spot, *f);
                    if d.iter().any(|x| *x < 1e-3) {
                        return Ok(());
                    }
                    // jumps between neighbours can ask for par rates no bond pays
                    if par.iter().any(|p| p / f < -0.5) {
                        return Ok(());
                    }
                    o.nt(spot.len() > 2 && spot.iter().any(|r| *r != spot[0]));
                    o.label(spot.iter().any(|r| *r < 0.0), "negative rates");
                    o.label(spot.len() > 30, "more than 30 points");
                    check_par_spot(&par, spot, &d, *f)
                },
            ),
            law(
                "from a par curve",
                100_000,
                3_000_000,
                || (small_freqs(), curve_rates(-0.02, 0.12, 1..=60)),
                |(f, par): &(f64, Vec<f64>), o| {
                    let Some(d) = boot(par, *f) else { return Ok(()) };
                    let spot: Vec<f64> = d.iter().enumerate().map(|(k, x)| f * (-x.ln() / (k + 1) as f64).exp_m1()).collect();
                    o.nt(par.len() > 2 && par.iter().any(|r| *r != par[0]));
                    o.label(par.iter().any(|r| *r < 0.0), "negative rates");
                    check_par_spot(par, &spot, &d, *f)
                },
            ),
        ],
    }
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        rule: "nominal spot curves of 2 to 60 points; forward starts and tenors on and between points; non-trivial: the spot rates at start and end differ",
        laws: vec![law(
            "forward growth",
            600_000,
            12_000_000,
            || {
                (
                    small_freqs(),
                    prop_oneof![4 => curve_rates(-0.05, 0.3, 2..=30), 1 => (float_in(-0.05, 0.3), 2usize..30).prop_map(|(r, n)| vec![r; n])],
                    proptest::collection::vec(prop_oneof![2 => 0.0..1.0f64, 1 => (0u32..=60).prop_map(|k| k as f64)], 3),
                )
                    .prop_map(|(f, rate, cut)| {
                        // three different times on the curve, in units of its points
                        let n = rate.len() as f64;
                        let mut x: Vec<f64> = cut.iter().map(|&c| if c > 0.0 && c < 1.0 { 1.0 + c * (n - 1.0) } else { 1.0 + c % n }).collect();
                        x.sort_by(f64::total_cmp);
                        (f, rate, x)
                    })
            },
            |(f, rate, x): &(f64, Vec<f64>, Vec<f64>), o| {
                if x[1] - x[0] < 0.01 || x[2] - x[1] < 0.01 || x[2] > rate.len() as f64 {
                    return Ok(());
                }
                let c = Curve { kind: Kind::Nom, freq: *f, rate: rate.clone() };
                let r = Rates::SpotRates { rate: c.build() };
                let flat = rate.iter().all(|v| *v == rate[0]);
                o.label(flat, "flat curve");
                let mut logs = vec![];
                for (a, b) in [(0, 1), (1, 2), (0, 2)] {
                    let (t, tenor) = (x[a] / f, (x[b] - x[a]) / f);
                    if ((t + tenor) * f + 1e-9).floor() as usize > rate.len() || ((t + tenor) * f > rate.len() as f64 + 1e-10) {
                        return Ok(());
                    }
                    let ((s0, e0), (s1, e1)) = (c.at(t), c.at(t + tenor));
                    o.nt(s0 != s1);
                    o.label(x[a].fract() != 0.0 || x[b].fract() != 0.0, "between points");
                    let fw = r.forward_rate(t, tenor);
                    let (n0, n1, n) = (t * f, (t + tenor) * f, tenor * f);
                    let (l0, l1) = (n0 * (s0 / f).ln_1p(), n1 * (s1 / f).ln_1p());
                    let tol = 2e-14 * (4.0 + 4.0 * n1 + l0.abs() + l1.abs()) + 4.0 * (n0 * e0 + n1 * e1) / f;
                    let lf = n * (fw / f).ln_1p();
                    same(&format!("log growth at forward rate {fw} from {t} over {tenor}"), lf, l1 - l0, tol + 4e-15 * n / (1.0 + fw / f).min(1.0))?;
                    if flat {
                        same(&format!("forward rate from {t} over {tenor} on a flat curve"), fw, rate[0], 2.0 * (tol / n + 1e-15) * (f + 1.0))?;
                    }
                    logs.push((lf, tol + 4e-15 * n / (1.0 + fw / f).min(1.0)));
                }
                same(
                    "growth over two chained forwards and over their joint tenor",
                    logs[0].0 + logs[1].0,
                    logs[2].0,
                    logs[0].1 + logs[1].1 + logs[2].1,
                )
            },
        )],
    }
}
