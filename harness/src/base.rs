//! C01..C12: day counts, time value, rates, annuities, NPV, IRR, root finder, comparisons.

use crate::gens::*;
use crate::infra::*;
use chrono::{Datelike, Duration, NaiveDate};
use financelib as fl;
use financelib::DayCountConvention::*;
use proptest::prelude::*;

pub type D = NaiveDate;

pub fn basis(i: u8) -> fl::DayCountConvention {
    match i {
        0 => US30360,
        1 => EU30360,
        2 => ACTACT,
        3 => ACT360,
        _ => ACT365,
    }
}

pub const NAMES: [&str; 5] = ["US30360", "EU30360", "ACTACT", "ACT360", "ACT365"];

/** Days from the civil epoch, by the usual era arithmetic (independent of chrono). */
pub fn day_number(y: i32, m: u32, d: u32) -> i64 {
    let y = y as i64 - (m <= 2) as i64;
    let era = y.div_euclid(400);
    let yoe = y.rem_euclid(400);
    let mp = (m as i64 + 9) % 12;
    let doy = (153 * mp + 2) / 5 + d as i64 - 1;
    let doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    era * 146_097 + doe
}

pub fn dn(d: D) -> i64 {
    day_number(d.year(), d.month(), d.day())
}

pub fn year_len(y: i32) -> i64 {
    if leap(y) { 366 } else { 365 }
}

fn last_of_feb(d: D) -> bool {
    d.month() == 2 && d.day() == last_day(d.year(), 2)
}

/** Numerator in days over 360. */
fn us_days(a: D, b: D) -> i64 {
    let (mut d0, mut d1) = (a.day() as i64, b.day() as i64);
    // 1. both on the last day of February: second to 30; 2. first on it: first to 30
    if last_of_feb(a) && last_of_feb(b) {
        d1 = 30;
    }
    if last_of_feb(a) {
        d0 = 30;
    }
    // 3. second on the 31st and first on the 30th or 31st: second to 30; 4. first on the 31st: 30
    if d1 == 31 && (d0 == 30 || d0 == 31) {
        d1 = 30;
    }
    if d0 == 31 {
        d0 = 30;
    }
    360 * (b.year() as i64 - a.year() as i64) + 30 * (b.month() as i64 - a.month() as i64) + d1 - d0
}

fn eu_days(a: D, b: D) -> i64 {
    let (d0, d1) = ((a.day() as i64).min(30), (b.day() as i64).min(30));
    360 * (b.year() as i64 - a.year() as i64) + 30 * (b.month() as i64 - a.month() as i64) + d1 - d0
}

/** Actual/Actual ISDA: days in each calendar year, first included, last excluded. */
fn actact(a: D, b: D) -> f64 {
    if a > b {
        return -actact(b, a);
    }
    let start = |y: i32| day_number(y, 1, 1);
    if a.year() == b.year() {
        return (dn(b) - dn(a)) as f64 / year_len(a.year()) as f64;
    }
    let first = (start(a.year() + 1) - dn(a)) as f64 / year_len(a.year()) as f64;
    let last = (dn(b) - start(b.year())) as f64 / year_len(b.year()) as f64;
    first + last + (b.year() - a.year() - 1) as f64
}

pub fn ref_yf(a: D, b: D, i: u8) -> f64 {
    match i {
        0 => us_days(a, b) as f64 / 360.0,
        1 => eu_days(a, b) as f64 / 360.0,
        2 => actact(a, b),
        3 => (dn(b) - dn(a)) as f64 / 360.0,
        _ => (dn(b) - dn(a)) as f64 / 365.0,
    }
}

pub fn yf_tol(a: D, b: D, i: u8) -> f64 {
    let y = (a.year().abs().max(b.year().abs()) + 1) as f64;
    if i == 2 { 8.0 * f64::EPSILON * y } else { 4.0 * f64::EPSILON * (1.0 + ref_yf(a, b, i).abs()) }
}

fn check_yf(a: D, b: D, o: &mut Obs) -> Res {
    o.nt(a != b && (a.day() >= 28 || b.day() >= 28 || leap(a.year()) != leap(b.year())));
    o.label(a > b, "reversed");
    o.label(last_of_feb(a), "from end of February");
    o.label(leap(a.year()) != leap(b.year()), "mixed leap and common years");
    for i in 0..5u8 {
        let got = fl::yearfrac(a, b, basis(i));
        same(
            &format!("yearfrac({a}, {b}, {})", NAMES[i as usize]),
            got,
            ref_yf(a, b, i),
            yf_tol(a, b, i),
        )?;
    }
    same(
        &format!("default year fraction of ({a}, {b})"),
        fl::yrfrac((a, b)),
        ref_yf(a, b, 0),
        yf_tol(a, b, 0),
    )
}

fn full_date() -> BoxedStrategy<D> {
    prop_oneof![
        6 => date(),
        2 => date_in(-2000, 4000),
        1 => date_in(-262_000, 262_000),
    ]
    .boxed()
}

fn full_pair() -> BoxedStrategy<(D, D)> {
    prop_oneof![
        6 => date_pair(1900, 2100),
        2 => date_pair(1, 4000),
        1 => date_pair(-262_000, 262_000),
    ]
    .boxed()
}

pub fn c01() -> Prop {
    let base = ymd(1999, 1, 1);
    let days = 2557u64; // 1999-2005, two leap years among common ones
    let base2 = ymd(1899, 7, 1);
    let days2 = 580u64; // across 1900, not a leap year
    Prop {
        id: "C01",
        rule: "date pairs (exhaustively 1999-2005 and 1899-07..1901, and random ones biased to month ends, leap days, year ends, the same day, anniversaries and code literals) compared under all five conventions with an independent integer reference; non-trivial: different dates with a day of 28 or later or a mix of leap and common years",
        laws: vec![
            enum_law(
                "all pairs of dates 1999-2005",
                move |_| days * days,
                move |i| {
                    (
                        base + Duration::days((i / days) as i64),
                        base + Duration::days((i % days) as i64),
                    )
                },
                |&(a, b): &(D, D), o| check_yf(a, b, o),
            ),
            enum_law(
                "all pairs of dates 1899-07 to 1901-01",
                move |_| days2 * days2,
                move |i| {
                    (
                        base2 + Duration::days((i / days2) as i64),
                        base2 + Duration::days((i % days2) as i64),
                    )
                },
                |&(a, b): &(D, D), o| check_yf(a, b, o),
            ),
            law("random pairs", 1_600_000, 60_000_000, full_pair, |&(a, b): &(D, D), o| {
                check_yf(a, b, o)
            }),
        ],
    }
}

fn triple() -> BoxedStrategy<(D, D, D)> {
    prop_oneof![
        3 => (date_pair(1900, 2100), date_in(1900, 2100)).prop_map(|((a, b), c)| (a, b, c)),
        2 => (date_pair(1900, 2100), -400i64..400).prop_map(|((a, b), k)| (a, b, b + Duration::days(k))),
        1 => (full_date(), full_date(), full_date()),
    ]
    .boxed()
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        rule: "triples of dates; identity, monotonicity in the end date, sign reversal and additivity; non-trivial: three different dates",
        laws: vec![
            law("laws over triples", 1_600_000, 40_000_000, triple, |&(a, b, c): &(D, D, D), o| {
                o.nt(a != b && b != c && a != c);
                o.label(a < b && b < c, "in order");
                for i in 0..5u8 {
                    let f = |x: D, y: D| fl::yearfrac(x, y, basis(i));
                    let n = NAMES[i as usize];
                    let tol = yf_tol(a, b, i) + yf_tol(b, c, i) + yf_tol(a, c, i);
                    for d in [a, b, c] {
                        same(&format!("{n}: yearfrac({d}, {d})"), f(d, d), 0.0, yf_tol(d, d, i))?;
                    }
                    let (lo, hi) = if b <= c { (b, c) } else { (c, b) };
                    let (x, y) = (f(a, lo), f(a, hi));
                    ensure(x <= y + tol, || {
                        format!("{n}: from {a}, later end {hi} gives {y}, less than {x} for {lo}")
                    })?;
                    if i != 0 {
                        let (x, y) = (f(a, b), f(b, a));
                        same(&format!("{n}: yearfrac({b}, {a}) against its reverse"), y, -x, 2.0 * yf_tol(a, b, i))?;
                        same(
                            &format!("{n}: yearfrac({a}, {b}) + yearfrac({b}, {c})"),
                            f(a, b) + f(b, c),
                            f(a, c),
                            tol,
                        )?;
                    }
                }
                Ok(())
            }),
            law(
                "adjacent days",
                400_000,
                8_000_000,
                || (full_date(), date_in(1900, 2100)),
                |&(a, b): &(D, D), o| {
                    let c = b + Duration::days(1);
                    o.nt(a != b);
                    for i in 0..5u8 {
                        let f = |x: D, y: D| fl::yearfrac(x, y, basis(i));
                        let n = NAMES[i as usize];
                        let tol = 2.0 * (yf_tol(a, b, i) + yf_tol(a, c, i));
                        ensure(f(a, b) <= f(a, c) + tol, || {
                            format!("{n}: from {a}, {c} gives {}, less than {} for {b}", f(a, c), f(a, b))
                        })?;
                        if i >= 2 {
                            let step = f(a, c) - f(a, b);
                            let want = match i {
                                2 => 1.0 / year_len(b.year()) as f64,
                                3 => 1.0 / 360.0,
                                _ => 1.0 / 365.0,
                            };
                            same(&format!("{n}: one more day after {b}, from {a}"), step, want, tol)?;
                        }
                    }
                    Ok(())
                },
            ),
        ],
    }
}

pub fn ref_float(d: D) -> f64 {
    let ord = dn(d) - day_number(d.year(), 1, 1) + 1;
    d.year() as f64 + ord as f64 / year_len(d.year()) as f64
}

fn check_date(d: D, o: &mut Obs) -> Res {
    let x = fl::date_to_float(d);
    let edge = (d.month() == 1 && d.day() == 1) || (d.month() == 12 && d.day() == 31);
    o.nt(edge || d.day() >= 28);
    o.label(edge, "first or last day of a year");
    o.label(d.year() < 1, "year before 1");
    let ulp = 4.0 * f64::EPSILON * (d.year().abs() + 1) as f64;
    same(&format!("decimal year of {d}"), x, ref_float(d), ulp)?;
    let back = fl::date_from_float(x);
    ensure(back == d, || format!("{d} -> {x} -> {back}"))?;
    if let Some(n) = d.succ_opt() {
        let y = fl::date_to_float(n);
        ensure(y > x, || format!("decimal year of {n} is {y}, not above {x} for {d}"))?;
    }
    Ok(())
}

pub fn c03() -> Prop {
    let lo = ymd(1583, 1, 1);
    let n = 330_000u64; // to about 2486
    Prop {
        id: "C03",
        rule: "every date from 1583 for 330000 days, random dates over the whole calendar, and random decimal years; non-trivial: year ends, days 28-31, or decimal years within two days of a year end",
        laws: vec![
            enum_law(
                "every date 1583-2486 there and back",
                move |_| n,
                move |i| lo + Duration::days(i as i64),
                |&d: &D, o| check_date(d, o),
            ),
            law("random dates there and back", 800_000, 20_000_000, full_date, |&d: &D, o| {
                check_date(d, o)
            }),
            law(
                "any decimal year converts",
                800_000,
                20_000_000,
                || {
                    prop_oneof![
                        4 => 1800.0..2200.0f64,
                        2 => -260_000.0..260_000.0f64,
                        4 => (1600i32..2500, -0.006..0.006f64).prop_map(|(y, e)| y as f64 + e),
                        2 => (date(), -0.0014..0.0014f64).prop_map(|(d, e)| ref_float(d) + e),
                        1 => (-200_000i32..200_000, -0.006..0.006f64).prop_map(|(y, e)| y as f64 + e),
                        2 => float_in(-3000.0, 5000.0),
                    ]
                },
                |&x: &f64, o| {
                    o.nt((x - x.round()).abs() < 0.006);
                    let d = fl::date_from_float(x);
                    let y = ref_float(d);
                    // half a day of the shorter year with some slack for where the year is cut, plus
                    // rounding of x
                    let tol = 0.5005 / 365.0 + 8.0 * f64::EPSILON * (x.abs() + 1.0);
                    same(&format!("decimal year of {d}, converted from {x:?}"), y, x, tol)
                },
            ),
            law(
                "leap years",
                200_000,
                2_000_000,
                || {
                    prop_oneof![
                        2 => -3000i32..5000,
                        1 => any::<i32>(),
                        1 => (-1000i32..1000).prop_map(|c| c * 100),
                        1 => (-1000i32..1000, -1i32..=1).prop_map(|(c, e)| c * 400 + e),
                    ]
                },
                |&y: &i32, o| {
                    o.nt(y % 100 == 0 || y % 4 == 0);
                    ensure(fl::is_leap_year(y) == leap(y), || {
                        format!("is_leap_year({y}) = {}", fl::is_leap_year(y))
                    })?;
                    ensure(fl::days_in_year(y) == year_len(y), || {
                        format!("days_in_year({y}) = {}", fl::days_in_year(y))
                    })
                },
            ),
        ],
    }
}

// ------------------------------------------------------------------ time value

/** (1+r)^n by another route, with its relative tolerance. */
pub fn growth(r: f64, n: f64) -> (f64, f64) {
    let e = n * r.ln_1p();
    (e.exp(), 1.5e-14 * (2.0 + n.abs() / (1.0 + r) * (1.0 + r.abs()) + e.abs()))
}

pub fn rel(what: &str, got: f64, want: f64, tol: f64) -> Res {
    same(what, got, want, tol * want.abs().max(1e-290))
}

fn tv_rate() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => float_in(-0.5, 1.0),
        1 => float_in(-0.95, 10.0),
        1 => (log_float(-9.0, 0.0), any::<bool>()).prop_map(|(v, s)| if s { -v * 0.9 } else { v }),
    ]
    .boxed()
}

fn tv_n() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => (0u32..=60).prop_map(|n| n as f64),
        4 => float_in(-10.0, 60.0),
        1 => float_in(-60.0, 200.0),
        1 => (0u32..=400).prop_map(|n| n as f64 / 12.0),
    ]
    .boxed()
}

pub fn tv_m() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => proptest::sample::select(vec![1.0, 2.0, 3.0, 4.0, 6.0, 12.0, 24.0, 26.0, 52.0, 360.0, 365.0]),
        2 => (1u32..=400).prop_map(|m| m as f64),
        1 => float_in(0.5, 400.0),
    ]
    .boxed()
}

type Tv = (f64, f64, f64, f64, f64);

fn check_tv(&(r, n, m, x, k): &Tv, o: &mut Obs) -> Res {
    o.nt(r != 0.0 && n != 0.0 && x != 0.0 && n != 1.0);
    o.label(n < 0.0, "negative periods");
    o.label(n.fract() != 0.0, "fractional periods");
    o.label(r < 0.0, "negative rate");
    o.label(r == 0.0, "zero rate");
    // keep every quantity well inside the range of f64
    let big = 600.0;
    if (r * n).abs() > big || (n * r.ln_1p()).abs() > big || (r / m > -0.99 && (n * m * (r / m).ln_1p()).abs() > big) {
        return Ok(());
    }
    let (g, t) = growth(r, n);
    rel(&format!("fv({r}, {n}, {x})"), fl::fv(r, n, x), x * g, t)?;
    rel(&format!("pv({r}, {n}, {x})"), fl::pv(r, n, x), x / g, t)?;
    rel(&format!("dis_fact({r}, {n})"), fl::dis_fact(r, n), 1.0 / g, t)?;
    rel(
        &format!("dis_fact_annual({r})"),
        fl::dis_fact_annual(r),
        1.0 / (1.0 + r),
        1e-15,
    )?;
    let i = r / m;
    if i > -0.99 {
        let (gm, tm) = growth(i, n * m);
        let tm = tm + 4e-15 * (n * m).abs() * i.abs() / (1.0 + i);
        rel(&format!("fvm({r}, {n}, {m}, {x})"), fl::fvm(r, n, m, x), x * gm, tm)?;
        rel(&format!("pvm({r}, {n}, {m}, {x})"), fl::pvm(r, n, m, x), x / gm, tm)?;
        rel(
            "pvm of fvm",
            fl::pvm(r, n, m, fl::fvm(r, n, m, x)),
            x,
            2.0 * tm,
        )?;
        if m == 1.0 {
            rel("fvm with one compounding", fl::fvm(r, n, 1.0, x), fl::fv(r, n, x), t)?;
        }
    }
    let ge = (r * n).exp();
    let te = 1.2e-14 * (2.0 + (r * n).abs());
    rel(&format!("fvc({r}, {n}, {x})"), fl::fvc(r, n, x), x * ge, te)?;
    rel(&format!("pvc({r}, {n}, {x})"), fl::pvc(r, n, x), x / ge, te)?;
    rel("pvc of fvc", fl::pvc(r, n, fl::fvc(r, n, x)), x, 2.0 * te)?;
    rel("pv of fv", fl::pv(r, n, fl::fv(r, n, x)), x, 2.0 * t)?;
    rel("fv of pv", fl::fv(r, n, fl::pv(r, n, x)), x, 2.0 * t)?;
    rel("fv of k times the amount", fl::fv(r, n, k * x), k * fl::fv(r, n, x), t)?;
    rel("pv of k times the amount", fl::pv(r, n, k * x), k * fl::pv(r, n, x), t)?;
    rel("pv of one", fl::pv(r, n, 1.0), fl::dis_fact(r, n), t)
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        rule: "rates, periods, compounding frequencies and amounts of wide ranges compared with exp(n ln(1+r)) and with each other; non-trivial: rate, periods and amount not zero, periods not one",
        laws: vec![
            law(
                "values and inverses",
                1_200_000,
                30_000_000,
                || (tv_rate(), tv_n(), tv_m(), amount(-3.0, 12.0), amount(-3.0, 3.0)),
                check_tv,
            ),
            law(
                "composition and forward factors",
                800_000,
                20_000_000,
                || {
                    (tv_rate(), tv_n(), tv_rate(), tv_n(), amount(-3.0, 12.0), beside(), beside()).prop_map(|(r, a, q, b, x, dr, dt)| {
                        let q = dr.map_or(q, |d| (r + d).max(-0.95));
                        (r, a, q, dt.map_or(b, |d| a + d), x)
                    })
                },
                |&(r, a, q, b, x): &Tv, o| {
                    let most = [r * a, r * b, a * r.ln_1p(), b * r.ln_1p(), b * q.ln_1p()];
                    if most.iter().any(|v| v.abs() > 300.0) {
                        return Ok(());
                    }
                    o.nt(a != 0.0 && b != 0.0 && r != q && x != 0.0);
                    let (ga, ta) = growth(r, a);
                    let (gb, tb) = growth(q, b);
                    let (_, tr) = growth(r, b);
                    rel("fv over a+b", fl::fv(r, a + b, x), fl::fv(r, b, fl::fv(r, a, x)), 2.0 * (ta + tr))?;
                    rel("pv over a+b", fl::pv(r, a + b, x), fl::pv(r, b, fl::pv(r, a, x)), 2.0 * (ta + tr))?;
                    rel(
                        "fvc over a+b",
                        fl::fvc(r, a + b, x),
                        fl::fvc(r, b, fl::fvc(r, a, x)),
                        1e-14 * (2.0 + (r * a).abs() + (r * b).abs()),
                    )?;
                    rel(
                        &format!("fwd_dis_fact(({r}, {a}), ({q}, {b}))"),
                        fl::fwd_dis_fact((r, a), (q, b)),
                        ga / gb,
                        2.0 * (ta + tb),
                    )
                },
            ),
        ],
    }
}

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct Dated {
    r: f64,
    d0: D,
    flows: Vec<(D, f64)>,
}

fn dated() -> BoxedStrategy<Dated> {
    (
        prop_oneof![8 => float_in(-0.3, 0.6), 1 => float_in(-0.9, 5.0)],
        prop_oneof![8 => date_in(1980, 2030), 1 => date_in(1800, 2200)],
        list((prop_oneof![8 => date_in(1980, 2045), 1 => date_in(1800, 2200)], amount(-2.0, 9.0), 0u8..6), 1, 8, 130),
    )
        .prop_map(|(r, d0, fs)| {
            let mut flows: Vec<(D, f64)> = vec![];
            for (d, c, how) in fs {
                let d = match (how, flows.last()) {
                    (0, Some(&(p, _))) => p,
                    (1, _) => d0,
                    (2, _) => ymd(d.year(), d0.month(), d0.day()),
                    _ => d,
                };
                flows.push((d, c));
            }
            Dated { r, d0, flows }
        })
        .boxed()
}

/** Sum of discounted flows with Neumaier compensation, and the sum of magnitudes. */
pub fn ref_npv(r: f64, tim: &[f64], cf: &[f64]) -> (f64, f64, f64) {
    let (mut s, mut c, mut a, mut tol) = (0.0f64, 0.0f64, 0.0f64, 0.0f64);
    for (&t, &x) in tim.iter().zip(cf) {
        if x == 0.0 {
            continue;
        }
        let (g, e) = growth(r, t);
        let v = x / g;
        let n = s + v;
        c += if s.abs() >= v.abs() { (s - n) + v } else { (v - n) + s };
        s = n;
        a += v.abs();
        tol += v.abs() * e;
    }
    (s + c, a, tol + 2.3e-16 * a * tim.len() as f64)
}

/** Discounting stays well inside the range of f64. */
fn moderate(r: f64, tim: &[f64]) -> bool {
    tim.iter().all(|t| (t * r.ln_1p()).abs() < 600.0)
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        rule: "dated amounts and series (repeated, unsorted and past dates) against the period functions with an independent US 30/360 fraction; non-trivial: different dates and a non-zero rate",
        laws: vec![
            law(
                "single amounts",
                800_000,
                20_000_000,
                || {
                    (
                        prop_oneof![8 => float_in(-0.4, 1.0), 1 => float_in(-0.95, 10.0)],
                        prop_oneof![8 => date_pair(1950, 2060), 1 => date_pair(1600, 2500)],
                        amount(-3.0, 12.0),
                    )
                },
                |&(r, (a, b), x): &(f64, (D, D), f64), o| {
                    o.nt(a != b && r != 0.0);
                    o.label(a > b, "reversed");
                    let t = us_days(a, b) as f64 / 360.0;
                    if (t * r.ln_1p()).abs() > 600.0 {
                        return Ok(());
                    }
                    let (g, e) = growth(r, t);
                    rel(&format!("xpv({r}, ({a}, {b}), {x})"), fl::xpv(r, (a, b), x), x / g, e)?;
                    rel(&format!("xfv({r}, ({a}, {b}), {x})"), fl::xfv(r, (a, b), x), x * g, e)?;
                    rel(&format!("xdis_fact({r}, ({a}, {b}))"), fl::xdis_fact(r, (a, b)), 1.0 / g, e)?;
                    rel("xpv against pv", fl::xpv(r, (a, b), x), fl::pv(r, t, x), e)?;
                    rel("xfv against fv", fl::xfv(r, (a, b), x), fl::fv(r, t, x), e)
                },
            ),
            law("series", 500_000, 12_000_000, dated, |c: &Dated, o| {
                let dts: Vec<D> = c.flows.iter().map(|f| f.0).collect();
                let cf: Vec<f64> = c.flows.iter().map(|f| f.1).collect();
                o.nt(c.flows.len() > 1 && c.r != 0.0 && dts.iter().any(|d| *d != c.d0));
                o.label(dts.iter().any(|d| *d < c.d0), "flow before the valuation date");
                let tim: Vec<f64> = dts.iter().map(|&d| us_days(c.d0, d) as f64 / 360.0).collect();
                if !moderate(c.r, &tim) {
                    return Ok(());
                }
                let (want, _, tol) = ref_npv(c.r, &tim, &cf);
                same("xnpv", fl::xnpv(c.r, &dts, c.d0, &cf), want, tol)?;
                same("xnpv against npv", fl::xnpv(c.r, &dts, c.d0, &cf), fl::npv(c.r, &tim, 0.0, &cf), 2.0 * tol)?;
                let tim0: Vec<f64> = dts.iter().map(|&d| us_days(dts[0], d) as f64 / 360.0).collect();
                let (x, y) = (fl::xirr(&dts, &cf), fl::irr(&tim0, &cf));
                let alike = |x: Option<f64>, y: Option<f64>| match (x, y) {
                    (None, None) => true,
                    (Some(a), Some(b)) => within(a, b, 1e-9 * (1.0 + b.abs())),
                    _ => false,
                };
                // where the search depends on the last digit of the times there is nothing to compare
                for k in [1.0 + 1e-15, 1.0 - 1e-15, 1.0 + 4e-15] {
                    if !alike(fl::irr(&tim0.iter().map(|t| t * k).collect(), &cf), y) {
                        o.label(true, "rate search too sensitive to compare");
                        return Ok(());
                    }
                }
                ensure(alike(x, y), || format!("xirr {x:?} against irr over year fractions {y:?}"))
            }),
            law("series with an internal rate", 300_000, 6_000_000, dated_conventional, |c: &Dated, o| {
                let dts: Vec<D> = c.flows.iter().map(|f| f.0).collect();
                let cf: Vec<f64> = c.flows.iter().map(|f| f.1).collect();
                o.nt(c.flows.len() > 2);
                let got = fl::xirr(&dts, &cf);
                match got {
                    Some(r) => {
                        o.label(true, "rate found");
                        same("xirr", r, c.r, 1e-7)
                    }
                    None => Err(format!("xirr found nothing, the rate is {}", c.r)),
                }
            }),
        ],
    }
}

/** An outlay at the first date and receipts later, with the rate c.r by construction. */
fn dated_conventional() -> BoxedStrategy<Dated> {
    (
        float_in(-0.3, 0.8),
        date_in(1980, 2030),
        list((30i64..7200, log_float(0.0, 7.0)), 1, 7, 60),
    )
        .prop_map(|(r, d0, fs)| {
            let mut flows: Vec<(D, f64)> = vec![(d0, 0.0)];
            let mut s = 0.0;
            for (k, c) in fs {
                let d = d0 + Duration::days(k);
                s += c / growth(r, us_days(d0, d) as f64 / 360.0).0;
                flows.push((d, c));
            }
            flows[0].1 = -s;
            Dated { r, d0, flows }
        })
        .boxed()
}

// ------------------------------------------------------------------ rate conversions

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        rule: "nominal rates of -60% to 300% (also of 1e-9..1 in magnitude) and any frequency, converted every way; non-trivial: rate not zero and more than one compounding",
        laws: vec![law(
            "conversions",
            1_600_000,
            40_000_000,
            || {
                (
                    prop_oneof![
                        4 => float_in(-0.6, 3.0),
                        1 => (log_float(-9.0, 0.0), any::<bool>()).prop_map(|(v, s)| if s { -v * 0.6 } else { v })
                    ],
                    tv_m(),
                )
            },
            |&(x, m): &(f64, f64), o| {
                o.nt(x != 0.0 && m != 1.0);
                o.label(x < 0.0, "negative");
                o.label(m.fract() != 0.0, "fractional frequency");
                // absolute errors: rates are growth factors less one
                let t = |growth: f64| 1.2e-14 * (1.0 + growth.abs()) * (2.0 + m + growth.abs().ln().abs());
                // x as nominal
                if x / m > -0.95 {
                    let eff = (m * (x / m).ln_1p()).exp_m1();
                    let exp = m * (x / m).ln_1p();
                    let s = 1.0 / (1.0 + x / m);
                    let te = t(1.0 + eff) * (1.0 + s);
                    same(&format!("nom_eff_rate({x}, {m})"), fl::nom_eff_rate(x, m), eff, te)?;
                    same(&format!("nom_exp_rate({x}, {m})"), fl::nom_exp_rate(x, m), exp, te / (1.0 + eff) + 1e-15)?;
                    let tn = te / (1.0 + eff) * (1.0 + x.abs() / m) + 1.2e-14 * m * (1.0 + x.abs() / m);
                    same("eff_nom of nom_eff", fl::eff_nom_rate(fl::nom_eff_rate(x, m), m), x, 2.0 * tn)?;
                    same("exp_nom of nom_exp", fl::exp_nom_rate(fl::nom_exp_rate(x, m), m), x, 4.0 * tn)?;
                    same("exp_eff of nom_exp", fl::exp_eff_rate(fl::nom_exp_rate(x, m)), eff, 4.0 * te)?;
                }
                // x as effective
                {
                    let exp = x.ln_1p();
                    let nom = m * (x.ln_1p() / m).exp_m1();
                    let s = 1.0 / (1.0 + x);
                    let tx = 1.2e-14 * (1.0 + s + exp.abs());
                    let tn = 1.2e-14 * (1.0 + m + nom.abs()) * (1.0 + s + exp.abs());
                    same(&format!("eff_exp_rate({x})"), fl::eff_exp_rate(x), exp, tx)?;
                    same(&format!("eff_nom_rate({x}, {m})"), fl::eff_nom_rate(x, m), nom, tn)?;
                    same("nom_eff of eff_nom", fl::nom_eff_rate(fl::eff_nom_rate(x, m), m), x, 4.0 * tn * (1.0 + x))?;
                    same("exp_eff of eff_exp", fl::exp_eff_rate(fl::eff_exp_rate(x)), x, 4.0 * tx * (1.0 + x))?;
                    same("nom_exp of eff_nom", fl::nom_exp_rate(fl::eff_nom_rate(x, m), m), exp, 4.0 * tn)?;
                }
                // x as exponential
                {
                    let eff = x.exp_m1();
                    let nom = m * (x / m).exp_m1();
                    let te = 1.2e-14 * (1.0 + x.exp()) * (1.0 + x.abs());
                    let tn = 2.4e-14 * (1.0 + m + nom.abs()) * (1.0 + x.abs()) * (1.0 + (-x).exp());
                    same(&format!("exp_eff_rate({x})"), fl::exp_eff_rate(x), eff, te)?;
                    same(&format!("exp_nom_rate({x}, {m})"), fl::exp_nom_rate(x, m), nom, tn)?;
                    same("eff_exp of exp_eff", fl::eff_exp_rate(fl::exp_eff_rate(x)), x, 4.0 * te * (-x).exp().max(1.0))?;
                    same("nom_exp of exp_nom", fl::nom_exp_rate(fl::exp_nom_rate(x, m), m), x, 4.0 * tn)?;
                    same("eff_nom of exp_eff", fl::eff_nom_rate(fl::exp_eff_rate(x), m), nom, 4.0 * tn)?;
                }
                Ok(())
            },
        )],
    }
}

// ------------------------------------------------------------------ annuities

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct Ann {
    r: f64,
    k: u32,
    m: f64,
    pmt: f64,
    fv: f64,
}

pub fn small_or_rate(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    prop_oneof![
        1 => Just(0.0),
        8 => float_in(lo, hi),
        2 => (log_float(-16.0, -1.0), any::<bool>()).prop_map(move |(v, s)| if s { (-v).max(lo) } else { v }),
    ]
    .boxed()
}

/** Annuity factor of k payments at i, by summation, and its tolerance for the closed form. */
pub fn annuity_sum(i: f64, k: u32) -> f64 {
    let l = i.ln_1p();
    let (mut s, mut c) = (0.0f64, 0.0f64);
    for j in 1..=k {
        let y = (-(j as f64) * l).exp() - c;
        let t = s + y;
        c = (t - s) - y;
        s = t;
    }
    s
}

/** Relative error a straightforward closed form may have. */
pub fn annuity_tol(i: f64, k: f64) -> f64 {
    let g = (k * i.ln_1p()).exp();
    let cond = if i == 0.0 { 0.0 } else { 1.0 / (1.0 - 1.0 / g).abs() };
    // (1+i)^k is off by k*eps/(1+i) relative; closed form divides its complement by i
    let base = 2e-15 * (4.0 + k / (1.0 + i) + (k * i.ln_1p()).abs());
    let closed = base * (1.0 + cond * (1.0 / g).min(1e300)) + 2e-15 * cond;
    if i.abs() < 1e-6 { closed.min(1e-9) } else { closed }
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        rule: "rates of -90% to 800% (mostly -30% to 100%; zero and 1e-16..0.1 included), 1 to 3000 payments, any frequency; value against the sum of its discounted payments, payment against the value; non-trivial: more than one payment and a payment or final amount",
        laws: vec![
            law(
                "value is the sum of discounted payments",
                400_000,
                8_000_000,
                || {
                    (
                        prop_oneof![10 => small_or_rate(-0.3, 1.0), 1 => float_in(-0.9, 8.0)],
                        prop_oneof![40 => 1u32..=60, 10 => 1u32..=480, 1 => 480u32..=3000, 1 => crate::money::named_count(3000)],
                        tv_m(),
                        amount(-2.0, 9.0),
                        amount(-2.0, 9.0),
                    )
                        .prop_map(|(r, k, m, pmt, fv)| Ann { r, k, m, pmt, fv })
                },
                |c: &Ann, o| {
                    let (r, m) = (c.r, c.m);
                    let n = c.k as f64 / m;
                    let i = r / m;
                    let k = n * m; // as the library sees it
                    o.nt(c.k > 1 && (c.pmt != 0.0 || c.fv != 0.0));
                    o.label(r == 0.0, "zero rate");
                    o.label(r < 0.0, "negative rate");
                    o.label(i.abs() < 1e-6, "rate per payment below 1e-6");
                    o.label(c.fv == 0.0, "no final amount");
                    if i < -0.9 || (k * i.ln_1p()).abs() > 600.0 {
                        return Ok(());
                    }
                    let a = annuity_sum(i, c.k);
                    let v = (-k * i.ln_1p()).exp();
                    let want = -(c.pmt * a + c.fv * v);
                    let (ta, tv) = (annuity_tol(i, k), growth(i, k).1);
                    let tol = (c.pmt * a).abs() * ta + (c.fv * v).abs() * tv;
                    let got = fl::pv_annuity(r, n, m, c.pmt, c.fv);
                    same(&format!("pv_annuity({r}, {n}, {m}, {}, {})", c.pmt, c.fv), got, want, tol)?;
                    // the payment that has this value
                    let p = fl::pmt(r, n, m, want, c.fv);
                    let tp = tol / a + c.pmt.abs() * ta + 1e-300;
                    same(&format!("pmt({r}, {n}, {m}, {want}, {})", c.fv), p, c.pmt, 3.0 * tp)?;
                    let pv = c.pmt * 3.0 + 1.0;
                    let q = fl::pmt(r, n, m, pv, c.fv);
                    let back = fl::pv_annuity(r, n, m, q, c.fv);
                    let scale = (q * a).abs() + (c.fv * v).abs() + pv.abs();
                    same("annuity of the payment for a value", back, pv, 4.0 * scale * (ta + tv))
                },
            ),
            law(
                "fractional terms follow the closed form",
                300_000,
                6_000_000,
                || {
                    (
                        prop_oneof![8 => float_in(0.001, 1.0), 1 => float_in(0.001, 9.0)],
                        prop_oneof![8 => float_in(0.05, 60.0), 1 => float_in(0.05, 130.0)],
                        tv_m(),
                        amount(-2.0, 9.0),
                        amount(-2.0, 9.0),
                    )
                },
                |&(r, n, m, p, f): &Tv, o| {
                    o.nt(p != 0.0 || f != 0.0);
                    let i = r / m;
                    let k = n * m;
                    if (k * i.ln_1p()).abs() > 600.0 {
                        return Ok(());
                    }
                    let v = (-k * i.ln_1p()).exp();
                    let a = -(-k * i.ln_1p()).exp_m1() / i;
                    let tol = (p * a).abs() * annuity_tol(i, k) + (f * v).abs() * growth(i, k).1;
                    same("pv_annuity", fl::pv_annuity(r, n, m, p, f), -(p * a + f * v), tol)?;
                    // paying and receiving are mirror images, and values add
                    same("value of the opposite flows", fl::pv_annuity(r, n, m, -p, -f), p * a + f * v, tol)?;
                    let split = fl::pv_annuity(r, n, m, p, 0.0) + fl::pv_annuity(r, n, m, 0.0, f);
                    same("payments and final amount valued apart", split, -(p * a + f * v), 2.0 * tol)?;
                    let q = fl::pmt(r, n, m, p, f);
                    let want = -(p + f * v) / a;
                    let ts = (p.abs() + (f * v).abs()) / a;
                    same("pmt", q, want, ts * (annuity_tol(i, k) + growth(i, k).1))
                },
            ),
        ],
    }
}

// ------------------------------------------------------------------ NPV

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct Series {
    r: f64,
    t0: f64,
    tim: Vec<f64>,
    cf: Vec<f64>,
    other: Vec<f64>,
    shift: f64,
    k: f64,
    rot: usize,
}

/** Times one after the other: as the one before, whole numbers, the position in the series, or free. */
fn resolve_times(v: &[(f64, u32, u8)]) -> Vec<f64> {
    let mut out: Vec<f64> = vec![];
    for &(x, i, how) in v {
        let t = match how {
            0 if !out.is_empty() => out[out.len() - 1],
            1 | 2 => i as f64,
            3 => out.len() as f64,
            4 => x.abs(),
            5 if !out.is_empty() && i % 3 == 0 => out[out.len() - 1] + x * 1e-4,
            _ => x,
        };
        out.push(t);
    }
    out
}

fn relation_of_flows() -> BoxedStrategy<Option<(u8, u16, u16)>> {
    proptest::option::weighted(0.2, (0u8..4, any::<u16>(), any::<u16>())).boxed()
}

fn series() -> BoxedStrategy<Series> {
    let flow = || {
        (
            (prop_oneof![9 => float_in(-10.0, 40.0), 1 => float_in(-20.0, 110.0)], 0u32..30, 0u8..8),
            (amount(-2.0, 9.0), amount(-2.0, 9.0)),
            (amount(-8.0, 14.0), amount(-8.0, 14.0)),
        )
    };
    (
        prop_oneof![8 => float_in(-0.5, 1.5), 1 => float_in(-0.95, 9.0), 1 => small_or_rate(-0.5, 1.5)],
        prop_oneof![1 => Just(0.0), 4 => float_in(-10.0, 20.0)],
        prop_oneof![9 => list(flow(), 0, 11, 130), 1 => list(flow(), 12, 59, 400)],
        float_in(-5.0, 5.0),
        float_in(-3.0, 3.0),
        0usize..60,
        0u8..5,
        beside(),
        relation_of_flows(),
    )
        .prop_map(|(r, t0, v, shift, k, rot, wide, near, rel)| {
            let tim = resolve_times(&v.iter().map(|f| f.0).collect::<Vec<_>>());
            let (mut cf, other): (Vec<f64>, Vec<f64>) = v.iter().map(|f| if wide == 4 { f.2 } else { f.1 }).unzip();
            let t0 = match near {
                Some(d) if !tim.is_empty() => tim[rot % tim.len()] + d,
                _ => t0,
            };
            if let Some((how, i, j)) = rel {
                if !cf.is_empty() {
                    let (i, j) = (i as usize % cf.len(), j as usize % cf.len());
                    cf[j] = match how {
                        0 => cf[i],
                        1 => -cf[i],
                        // nothing left in sum
                        _ => cf[j] - cf.iter().sum::<f64>(),
                    };
                }
            }
            Series { r, t0, tim, cf, other, shift, k, rot }
        })
        .boxed()
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        rule: "series of 0 to 400 flows at sorted, unsorted, repeated, negative and fractional times; value against a compensated sum, and order, linearity and time shift; non-trivial: at least two flows, a non-zero rate",
        laws: vec![law("value, order, linearity, shift", 600_000, 12_000_000, series, |c: &Series, o| {
            let n = c.cf.len();
            o.nt(n > 1 && c.r != 0.0);
            o.label(n == 0, "empty");
            o.label(n > 12, "more than 12 flows");
            o.label(c.tim.windows(2).any(|w| w[0] > w[1]), "unsorted");
            let most = c.tim.iter().fold(0.0f64, |a, t| a.max(t.abs())) + c.t0.abs() + c.shift.abs();
            if !moderate(c.r, &[most]) {
                return Ok(());
            }
            let (want, mag, tol) = ref_npv(c.r, &c.tim, &c.cf);
            let got = fl::npv_t0(c.r, &c.tim, &c.cf);
            same("npv_t0", got, want, tol)?;
            let (g, e) = growth(c.r, c.t0);
            let t2 = (tol + mag * e) * g;
            same(&format!("npv at {}", c.t0), fl::npv(c.r, &c.tim, c.t0, &c.cf), want * g, t2)?;
            same("npv at zero", fl::npv(c.r, &c.tim, 0.0, &c.cf), want, 2.0 * tol)?;
            let moved: Vec<f64> = c.tim.iter().map(|t| t - c.t0).collect();
            let (w3, _, t3) = ref_npv(c.r, &moved, &c.cf);
            same("npv of flows moved to the valuation time", fl::npv(c.r, &c.tim, c.t0, &c.cf), w3, 2.0 * (t2 + t3))?;
            let (gs, es) = growth(c.r, c.shift);
            same(
                "npv with the valuation time moved",
                fl::npv(c.r, &c.tim, c.t0 + c.shift, &c.cf),
                fl::npv(c.r, &c.tim, c.t0, &c.cf) * gs,
                3.0 * (t2 + mag * g * es) * gs,
            )?;
            if n > 0 {
                let (mut tr, mut cr) = (c.tim.clone(), c.cf.clone());
                tr.rotate_left(c.rot % n);
                cr.rotate_left(c.rot % n);
                same("npv of the flows in another order", fl::npv_t0(c.r, &tr, &cr), got, 2.0 * tol)?;
                tr.reverse();
                cr.reverse();
                same("npv of the flows in reverse", fl::npv_t0(c.r, &tr, &cr), got, 2.0 * tol)?;
            }
            let (wo, _, to) = ref_npv(c.r, &c.tim, &c.other);
            let mix: Vec<f64> = c.cf.iter().zip(&c.other).map(|(a, b)| a + c.k * b).collect();
            same(
                "npv of a combination",
                fl::npv_t0(c.r, &c.tim, &mix),
                want + c.k * wo,
                2.0 * (tol + c.k.abs() * to),
            )
        })],
    }
}

// ------------------------------------------------------------------ IRR

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct Flows {
    tim: Vec<f64>,
    cf: Vec<f64>,
}

fn any_flows() -> BoxedStrategy<Flows> {
    let t = prop_oneof![
        1 => list((0u32..25).prop_map(|v| v as f64), 1, 9, 60),
        1 => list(float_in(0.0, 25.0), 1, 9, 60),
        1 => (2usize..14).prop_map(|n| (0..n).map(|i| i as f64).collect::<Vec<_>>()),
    ];
    (t, 0u8..8)
        .prop_flat_map(|(tim, how)| {
            let n = tim.len();
            (
                Just(tim),
                proptest::collection::vec(
                    prop_oneof![3 => amount(-1.0, 3.0), 1 => amount(-4.0, 8.0)],
                    n..=n,
                ),
                Just(how),
            )
        })
        .prop_map(|(tim, mut cf, how)| {
            let n = cf.len();
            match how {
                0 => cf.iter_mut().for_each(|c| *c = c.abs()),
                1 => cf.iter_mut().for_each(|c| *c = -c.abs()),
                2 | 3 => {
                    for (i, c) in cf.iter_mut().enumerate() {
                        *c = if i == 0 { -c.abs() } else { c.abs() };
                    }
                }
                // outlay, receipts, closing outlay: two rates or none
                4 => {
                    for (i, c) in cf.iter_mut().enumerate() {
                        *c = if i == 0 || i + 1 == n { -c.abs() } else { c.abs() };
                    }
                }
                _ => {}
            }
            Flows { tim, cf }
        })
        .boxed()
}

fn sound(r: f64, c: &Flows) -> Res {
    ensure(r > -1.0 && r.is_finite(), || format!("reported rate {r}"))?;
    let (v, mag, tol) = ref_npv(r, &c.tim, &c.cf);
    // a Newton step below 1e-8 from the rate: |npv| <= 1e-8 |npv'|, and |npv'| <= sum |t c| / (1+r)^(t+1)
    let slope: f64 = c
        .tim
        .iter()
        .zip(&c.cf)
        .filter(|p| *p.1 != 0.0)
        .map(|(&t, &x)| (t * x / growth(r, t + 1.0).0).abs())
        .sum();
    same(
        &format!("net present value at the reported rate {r} (discounted flows total {mag})"),
        v,
        0.0,
        4.0 * tol + 2e-8 * slope + 1e-300,
    )
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        rule: "series of every sign pattern (one sign, conventional, two changes, random), integer and fractional times; a reported rate is checked by revaluing the series; non-trivial: a rate was reported, or all flows have one sign",
        laws: vec![
            law("reported rates value to zero", 1_200_000, 24_000_000, any_flows, |c: &Flows, o| {
                let pos = c.cf.iter().any(|&x| x > 0.0);
                let neg = c.cf.iter().any(|&x| x < 0.0);
                let got = fl::irr(&c.tim, &c.cf);
                o.label(got.is_some(), "rate reported");
                o.label(got.is_none(), "no rate");
                o.label(pos != neg, "one sign");
                o.label(got.is_some_and(|r| r < 0.0), "negative rate");
                o.nt(got.is_some() || pos != neg);
                match got {
                    None => Ok(()),
                    Some(r) => {
                        ensure(pos && neg, || {
                            format!("rate {r} reported for flows without a change of sign")
                        })?;
                        sound(r, c)
                    }
                }
            }),
            law(
                "loss-making and long investments",
                600_000,
                12_000_000,
                || {
                    (
                        proptest::collection::vec((prop_oneof![1 => (1u32..40).prop_map(|v| v as f64), 1 => float_in(0.05, 40.0)], log_float(-1.0, 3.0)), 1..8),
                        log_float(-1.0, 5.0),
                        any::<bool>(),
                    )
                        .prop_map(|(fs, out, flip)| {
                            let s = if flip { -1.0 } else { 1.0 };
                            let (mut tim, mut cf) = (vec![0.0], vec![-s * out]);
                            for (t, c) in fs {
                                tim.push(t);
                                cf.push(s * c);
                            }
                            Flows { tim, cf }
                        })
                },
                |c: &Flows, o| {
                    let got = fl::irr(&c.tim, &c.cf);
                    o.nt(got.is_some());
                    o.label(got.is_some_and(|r| r < -0.3), "rate below -30%");
                    match got {
                        None => Ok(()),
                        Some(r) => sound(r, c),
                    }
                },
            ),
            law("dated series", 400_000, 8_000_000, || (dated(), any::<bool>(), 0u8..4), |(c, flip, how): &(Dated, bool, u8), o| {
                let mut c = c.clone();
                for (i, f) in c.flows.iter_mut().enumerate() {
                    match how {
                        0 => f.1 = f.1.abs(),
                        1 | 2 => f.1 = if i == 0 { -f.1.abs() } else { f.1.abs() },
                        _ => {}
                    }
                    if *flip {
                        f.1 = -f.1;
                    }
                }
                let dts: Vec<D> = c.flows.iter().map(|f| f.0).collect();
                let cf: Vec<f64> = c.flows.iter().map(|f| f.1).collect();
                let tim: Vec<f64> = dts.iter().map(|&d| us_days(dts[0], d) as f64 / 360.0).collect();
                let one = !(cf.iter().any(|&x| x > 0.0) && cf.iter().any(|&x| x < 0.0));
                let got = fl::xirr(&dts, &cf);
                o.nt(got.is_some() || one);
                o.label(got.is_some(), "rate reported");
                match got {
                    None => Ok(()),
                    Some(r) => {
                        ensure(!one, || format!("rate {r} reported for flows without a change of sign"))?;
                        sound(r, &Flows { tim, cf })
                    }
                }
            }),
        ],
    }
}

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct Invest {
    r: f64,
    outs: Vec<(f64, f64)>,
    ins: Vec<(f64, f64)>,
    flip: bool,
    k: f64,
    rot: usize,
    split: f64,
    unit: f64,
}

fn invest() -> BoxedStrategy<Invest> {
    let time = |lo: f64, hi: f64| {
        prop_oneof![
            1 => (lo.ceil() as u32..=hi as u32).prop_map(|v| v as f64),
            1 => float_in(lo, hi),
            1 => ((lo * 12.0) as u32 + 1..=(hi * 12.0) as u32).prop_map(|v| v as f64 / 12.0)
        ]
        .boxed()
    };
    (
        float_in(-0.5, 1.0),
        prop_oneof![
            3 => Just(vec![(0.0, 1.0)]),
            1 => proptest::collection::vec((float_in(0.0, 0.9), float_in(0.1, 1.0)), 1..4)
                .prop_map(|mut v| {
                    v[0].0 = 0.0;
                    v
                })
        ],
        prop_oneof![
            9 => proptest::collection::vec((time(1.0, 20.0), log_float(-2.0, 2.0)), 1..10),
            1 => list((time(1.0, 20.0), log_float(-2.0, 2.0)), 10, 39, 120)
        ],
        any::<bool>(),
        log_float(-1.0, 6.0),
        0usize..50,
        float_in(0.0, 1.0),
        log_float(0.0, 8.0),
    )
        .prop_map(|(r, outs, ins, flip, k, rot, split, unit)| Invest { r: if outs.len() > 1 { r.abs() } else { r }, outs, ins, flip, k, rot, split, unit })
        .boxed()
}

impl Invest {
    /** Scale the outlays so that the series is worth nothing at rate r. */
    fn flows(&self) -> (Vec<f64>, Vec<f64>) {
        let val = |v: &[(f64, f64)]| v.iter().map(|&(t, c)| c / growth(self.r, t).0).sum::<f64>();
        let f = val(&self.ins) / val(&self.outs);
        let s = if self.flip { -self.unit } else { self.unit };
        let mut tim = vec![];
        let mut cf = vec![];
        for &(t, c) in &self.outs {
            tim.push(t);
            cf.push(-s * c * f);
        }
        for &(t, c) in &self.ins {
            tim.push(t);
            cf.push(s * c);
        }
        (tim, cf)
    }
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        rule: "investments built to have a rate of -50% to 100%: one to three outlays, then 1 to 40 receipts within 20 periods; the rate must be found, also after scaling, flipping, splitting and reordering; non-trivial: at least three flows",
        laws: vec![law("rate found", 500_000, 10_000_000, invest, |c: &Invest, o| {
            let (tim, cf) = c.flows();
            if cf.iter().any(|x| x.abs() < 0.01) {
                return Ok(());
            }
            o.nt(cf.len() > 2);
            o.label(c.r < 0.0, "negative rate");
            o.label(c.outs.len() > 1, "several outlays");
            o.label(cf.len() > 10, "more than 10 flows");
            let find = |what: &str, tim: &Vec<f64>, cf: &Vec<f64>| match fl::irr(tim, cf) {
                None => Err(format!("{what}: no rate found, it is {}", c.r)),
                Some(r) => same(what, r, c.r, 1e-7),
            };
            find("rate", &tim, &cf)?;
            find("rate of the flows times a factor", &tim, &cf.iter().map(|x| x * c.k).collect())?;
            find("rate seen from the other side", &tim, &cf.iter().map(|x| -x).collect())?;
            let (mut t2, mut c2) = (tim.clone(), cf.clone());
            t2.rotate_left(c.rot % tim.len());
            c2.rotate_left(c.rot % tim.len());
            find("rate of the flows in another order", &t2, &c2)?;
            let i = c.rot % tim.len();
            let part = c2[i] * c.split;
            c2[i] -= part;
            t2.push(t2[i]);
            c2.push(part);
            find("rate with one flow split in two", &t2, &c2)
        }),
        law("rate found by dates", 200_000, 4_000_000, || (date_in(1950, 2050), invest(), proptest::collection::vec(any::<u16>(), 160)), |(d0, c, days): &(D, Invest, Vec<u16>), o| {
            // the same kind of series on dates: at most a year between outlays, receipts 366 to 7300 days on
            let m = c.outs.len();
            let dts: Vec<D> = (0..m + c.ins.len())
                .map(|i| {
                    let off = match i {
                        0 => 0,
                        _ if i < m => days[i] as i64 % 340,
                        // receipts share dates now and then
                        _ if days[i] % 5 == 0 => 366 + days[i - 1] as i64 % 6900,
                        _ => 366 + days[i] as i64 % 6900,
                    };
                    *d0 + chrono::Duration::days(off)
                })
                .collect();
            let tim: Vec<f64> = dts.iter().map(|&d| us_days(*d0, d) as f64 / 360.0).collect();
            let dated = Invest {
                outs: c.outs.iter().zip(&tim).map(|(f, &t)| (t, f.1)).collect(),
                ins: c.ins.iter().zip(&tim[m..]).map(|(f, &t)| (t, f.1)).collect(),
                ..c.clone()
            };
            let (_, cf) = dated.flows();
            if cf.iter().any(|x| x.abs() < 0.01) {
                return Ok(());
            }
            o.nt(cf.len() > 2);
            o.label((1..dts.len()).any(|i| dts[..i].contains(&dts[i])), "flows on the same date");
            let find = |what: &str, dts: &Vec<D>, cf: &Vec<f64>| match fl::xirr(dts, cf) {
                None => Err(format!("{what}: no rate found, it is {}", c.r)),
                Some(r) => same(what, r, c.r, 1e-7),
            };
            find("rate by dates", &dts, &cf)?;
            find("rate by dates of the flows times a factor", &dts, &cf.iter().map(|x| x * c.k).collect())?;
            find("rate by dates seen from the other side", &dts, &cf.iter().map(|x| -x).collect())?;
            // the first date stays first: periods are counted from it
            let (mut d2, mut c2) = (dts.clone(), cf.clone());
            let by = c.rot % (dts.len() - 1);
            d2[1..].rotate_left(by);
            c2[1..].rotate_left(by);
            find("rate by dates of the flows in another order", &d2, &c2)?;
            let i = c.rot % d2.len();
            let part = c2[i] * c.split;
            c2[i] -= part;
            d2.push(d2[i]);
            c2.push(part);
            find("rate by dates with one flow split in two", &d2, &c2)
        })],
    }
}

// ------------------------------------------------------------------ root finder

#[derive(Debug, Clone, serde::Serialize, serde::Deserialize)]
pub struct Quad {
    kind: u8,
    a: f64,
    p: f64,
    q: f64,
    x0: f64,
    tol: f64,
}

fn quad() -> BoxedStrategy<Quad> {
    (
        0u8..5,
        (prop_oneof![2 => float_in(0.1, 10.0), 1 => log_float(-6.0, 6.0)], any::<bool>()),
        float_in(-50.0, 50.0),
        prop_oneof![2 => float_in(-50.0, 50.0).prop_map(|q| (q, false)), 1 => log_float(-3.0, 2.0).prop_map(|g| (g, true))],
        prop_oneof![4 => float_in(-100.0, 100.0), 1 => float_in(-1000.0, 1000.0), 2 => (log_float(0.0, 6.0), any::<bool>()).prop_map(|(x, s)| if s { -x } else { x })],
        proptest::sample::select(vec![1e-7, 1e-6, 1e-5, 1e-4]),
    )
        .prop_map(|(kind, (a, s), p, (q, gap), x0, tol)| {
            // slopes near the limit of what counts as none belong to lines only
            let a = if kind == 0 { a } else { a.clamp(0.1, 10.0) };
            Quad { kind, a: if s { -a } else { a }, p, q: if gap { p + q } else { q }, x0, tol }
        })
        .boxed()
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        rule: "lines, quadratics with two, one and no roots, cubics, exponentials and constants from varied starts and tolerances; non-trivial: the start is not already the root",
        laws: vec![
            law("families of functions", 800_000, 16_000_000, quad, |c: &Quad, o| {
                let Quad { kind, a, p, q, x0, tol } = *c;
                let near = |r: f64, what: &str, root: f64, t: f64| same(what, r, root, t);
                match kind {
                    0 => {
                        o.label(true, "line");
                        o.nt((x0 - p).abs() > 1e-3);
                        let r = fl::newt_raph(|x| a * (x - p), x0, tol);
                        match r {
                            Some(r) => near(r, "root of a line", p, 1e-6),
                            None => Err(format!("no root found for the line {a}*(x - {p}) from {x0}")),
                        }
                    }
                    1 => {
                        // two roots at least 0.001 apart, start off the vertex
                        let (lo, hi) = (p.min(q), p.max(q));
                        let mid = (lo + hi) / 2.0;
                        if hi - lo < 1e-3 || (x0 - mid).abs() < (hi - lo).min(1.0) / 4.0 {
                            return Ok(());
                        }
                        o.label(true, "two roots");
                        o.label((x0 - mid).abs() > 1e5 * (hi - lo), "two roots seen from very far");
                        o.nt((x0 - p).abs() > 1e-3 && (x0 - q).abs() > 1e-3);
                        match fl::newt_raph(|x| a * (x - p) * (x - q), x0, tol) {
                            Some(r) => {
                                let root = if x0 > mid { hi } else { lo };
                                near(r, "root of a quadratic on the side of the start", root, 1e-5)
                            }
                            None => Err(format!("no root found for {a}(x-{p})(x-{q}) from {x0}")),
                        }
                    }
                    2 => {
                        o.label(true, "no real root");
                        let lift = a * (0.5 + q.abs());
                        o.nt(true);
                        match fl::newt_raph(|x| a * (x - p) * (x - p) + lift, x0, tol) {
                            None => Ok(()),
                            Some(r) => Err(format!("root {r} reported for {a}(x-{p})^2 + {lift}")),
                        }
                    }
                    3 => {
                        o.label(true, "constant");
                        o.nt(true);
                        match fl::newt_raph(|_| a, x0, tol) {
                            None => Ok(()),
                            Some(r) => Err(format!("root {r} reported for the constant {a}")),
                        }
                    }
                    _ => {
                        o.label(true, "other smooth function");
                        // e^(x/10) - s: increasing and convex, every start converges from above
                        let s = 0.1 + q.abs();
                        let root = 10.0 * s.ln();
                        let f = |x: f64| a * ((x / 10.0).exp() - s);
                        let start = root + (x0.abs() / 10.0) % 60.0;
                        o.nt((start - root).abs() > 1e-3);
                        match fl::newt_raph(f, start, tol) {
                            Some(r) => near(r, "root of an exponential", root, 1e-5),
                            None => Err(format!("no root found for e^(x/10) = {s} from {start}")),
                        }
                    }
                }
            }),
            law(
                "reported roots are roots",
                600_000,
                12_000_000,
                || {
                    (
                        proptest::collection::vec(float_in(-3.0, 3.0), 2..6),
                        float_in(-6.0, 6.0),
                        proptest::sample::select(vec![1e-7, 1e-6, 1e-5]),
                    )
                },
                |(co, x0, tol): &(Vec<f64>, f64, f64), o| {
                    // polynomial with the coefficients, by Horner
                    let f = |x: f64| co.iter().rev().fold(0.0, |s, c| s * x + c);
                    let g = |x: f64| {
                        co.iter().enumerate().skip(1).rev().fold(0.0, |s, (i, c)| s * x + i as f64 * c)
                    };
                    let g2 = |x: f64| {
                        co.iter().enumerate().skip(2).rev().fold(0.0, |s, (i, c)| {
                            s * x + (i * (i - 1)) as f64 * c
                        })
                    };
                    match fl::newt_raph(f, *x0, *tol) {
                        None => {
                            o.label(true, "none");
                            Ok(())
                        }
                        Some(r) => {
                            o.label(true, "root");
                            o.nt((r - x0).abs() > 1e-3);
                            ensure(r.is_finite(), || format!("root {r}"))?;
                            let mag: f64 = co.iter().enumerate().map(|(i, c)| (c * r.powi(i as i32)).abs()).sum();
                            // the last step was below 1e-8, over a slope at the previous point
                            let h = 1e-8 + tol / 10.0;
                            let slope = g(r).abs() + 4.0 * h * g2(r).abs() + 1e-7 * mag;
                            same(&format!("value at the reported root {r}"), f(r), 0.0, 3e-8 * slope + 1e-13 * mag)
                        }
                    }
                },
            ),
        ],
    }
}

// ------------------------------------------------------------------ approx

fn weird() -> BoxedStrategy<f64> {
    prop_oneof![
        3 => amount(-12.0, 12.0),
        2 => float_in(-2e-8, 2e-8),
        2 => any::<f64>(),
        1 => proptest::sample::select(vec![0.0, -0.0, 1e-8, -1e-8, 9.999e-9, 1.0001e-8, 1e-300, 5e-324, 1.0, -1.0, f64::MAX, f64::MIN_POSITIVE, f64::NAN]),
    ]
    .boxed()
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        rule: "pairs of floats: unrelated, equal, opposite, and at relative distances of 1e-9..1e-3 around the threshold, NaN and subnormals; cases within one part in 1e9 of a threshold are not judged; non-trivial: finite, different numbers within 1e-4 of each other relatively, or near 1e-8",
        laws: vec![law(
            "thresholds",
            1_600_000,
            40_000_000,
            || {
                (weird(), weird(), prop_oneof![2 => (-9.0..-3.0f64).prop_map(|e| 10f64.powf(e)), 1 => float_in(0.9e-6, 1.1e-6)], 0u8..7)
                    .prop_map(|(x, y, e, how)| match how {
                        0 => (x, y),
                        1 => (x, x),
                        2 => (x, -x),
                        3 | 4 => (x, x * (1.0 + e)),
                        5 => (x, x * (1.0 - e)),
                        _ => (y, y + e * 1e-2),
                    })
            },
            |&(x, y): &(f64, f64), o| {
                if x.is_infinite() || y.is_infinite() {
                    return Ok(());
                }
                let mx = if x.abs() > y.abs() { x.abs() } else { y.abs() };
                let got = fl::approx(x, y);
                let flip = |a: f64, b: f64| fl::approx(a, b) == got;
                o.label(got, "approximately equal");
                o.label(x.is_nan() || y.is_nan(), "NaN");
                for v in [x, y] {
                    if (v.abs() - 1e-8).abs() > 1e-17 {
                        ensure(fl::is_zero(v) == (v.abs() < 1e-8), || format!("is_zero({v:?}) = {}", fl::is_zero(v)))?;
                    }
                    if v.is_finite() {
                        ensure(fl::approx(v, v), || format!("{v:?} is not approximately itself"))?;
                    }
                }
                ensure(flip(y, x), || format!("approx({x:?}, {y:?}) is not symmetric"))?;
                ensure(flip(-x, -y), || format!("approx({x:?}, {y:?}) changes when both signs flip"))?;
                if x.is_nan() || y.is_nan() {
                    o.nt(true);
                    return ensure(!got, || format!("approx({x:?}, {y:?}) is true"));
                }
                o.nt(x != y && ((x - y).abs() < 1e-4 * mx || (mx > 1e-9 && mx < 1e-7)));
                if (mx - 1e-8).abs() <= 1e-17 {
                    return Ok(());
                }
                // halve both before subtracting, so that opposite huge numbers do not overflow
                let ratio = if mx == 0.0 { 0.0 } else { (x / mx - y / mx).abs() };
                let want = if mx < 1e-8 {
                    true
                } else if (ratio - 1e-6).abs() < 1e-15 {
                    return Ok(());
                } else {
                    ratio < 1e-6
                };
                ensure(got == want, || format!("approx({x:?}, {y:?}) = {got}, relative difference {ratio:e}"))
            },
        )],
    }
}
