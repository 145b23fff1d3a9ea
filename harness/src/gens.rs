//! Shared generators. Every random choice is made by proptest.

use crate::mined::mined;
use chrono::{Datelike, NaiveDate};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;

fn clamp_in(v: f64, lo: f64, hi: f64) -> Option<f64> {
    (v.is_finite() && v >= lo && v <= hi).then_some(v)
}

fn ulp_up(v: f64) -> f64 {
    v.next_up()
}

/** Variants around a literal. */
fn around(v: f64, how: u8) -> f64 {
    match how % 24 {
        0..=6 => v,
        7 => ulp_up(v),
        8 => v.next_down(),
        9 => v * (1.0 + 1e-6),
        10 => v * (1.0 - 1e-6),
        11 => v * 1.01,
        12 => v * 0.99,
        13 => v + 1.0,
        14 => v - 1.0,
        15 => v / 100.0,
        16 => 1.0 / v,
        17 => v * 2.0,
        18 => v / 2.0,
        19 => -v,
        20 => v + 0.5,
        21 => v * 1.3,
        22 => v * 10.0,
        _ => v * 0.7,
    }
}

/** A float in lo..=hi: uniform, small steps, code literals and their neighbours, end points. */
pub fn float_in(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    let pool: Vec<f64> = mined()
        .floats
        .iter()
        .flat_map(|&v| (0..24).map(move |h| around(v, h)))
        .filter_map(|v| clamp_in(v, lo, hi))
        .collect();
    let mut exact: Vec<f64> = vec![lo, hi];
    for v in [
        0.0, 1.0, -1.0, 0.01, 0.05, 0.1, 0.5, 2.0, 10.0, 100.0, 0.25, 1e-3, 1e-6,
    ] {
        if let Some(v) = clamp_in(v, lo, hi) {
            exact.push(v);
        }
    }
    let span = hi - lo;
    let nice = (0u32..=400).prop_map(move |k| {
        // multiples of a quarter of a percent, offset from zero where zero is inside
        let v = if lo <= 0.0 && hi >= 0.0 {
            let v = k as f64 * 0.0025;
            if v <= hi { v } else { lo + span * (k as f64 / 400.0) }
        } else {
            lo + span * (k as f64 / 400.0)
        };
        v.clamp(lo, hi)
    });
    let uni = (lo..=hi).boxed();
    let all = if pool.is_empty() {
        prop_oneof![3 => proptest::sample::select(exact), 4 => nice, 13 => uni].boxed()
    } else {
        prop_oneof![
            2 => proptest::sample::select(exact),
            4 => nice,
            11 => uni,
            3 => proptest::sample::select(pool),
        ]
        .boxed()
    };
    // no numbers so small that products of a few of them lose digits
    all.prop_map(|v| if v.abs() < 1e-30 { 0.0 } else { v }).boxed()
}

/** A float of magnitude 10^lo..10^hi (log-uniform), positive. */
pub fn log_float(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    let (a, b) = (10f64.powf(lo), 10f64.powf(hi));
    let pool: Vec<f64> = mined()
        .floats
        .iter()
        .flat_map(|&v| (0..24).map(move |h| around(v, h)))
        .filter_map(|v| clamp_in(v, a, b))
        .collect();
    let main = (lo..=hi).prop_map(move |e| 10f64.powf(e).clamp(a, b));
    let round = ((lo.ceil() as i32)..=(hi.floor() as i32), 1u32..=9)
        .prop_map(move |(e, d)| (d as f64 * 10f64.powi(e)).clamp(a, b));
    if pool.is_empty() {
        prop_oneof![3 => round, 7 => main].boxed()
    } else {
        prop_oneof![3 => round, 6 => main, 1 => proptest::sample::select(pool)].boxed()
    }
}

/** Now and then a small distance: for a value right beside another one, where code may treat
both as the same. */
pub fn beside() -> BoxedStrategy<Option<f64>> {
    let off = (log_float(-12.0, -1.5), any::<bool>()).prop_map(|(v, s)| if s { -v } else { v });
    proptest::option::weighted(0.1, prop_oneof![5 => off.boxed(), 1 => Just(0.0).boxed()]).boxed()
}

/** Signed amounts, mostly log-uniform, some exact small integers and zero. */
pub fn amount(lo: f64, hi: f64) -> BoxedStrategy<f64> {
    prop_oneof![
        1 => Just(0.0),
        3 => (-1000i32..=1000).prop_map(|v| v as f64),
        8 => (log_float(lo, hi), any::<bool>()).prop_map(|(v, s)| if s { -v } else { v }),
    ]
    .boxed()
}


pub fn last_day(y: i32, m: u32) -> u32 {
    match m {
        1 | 3 | 5 | 7 | 8 | 10 | 12 => 31,
        4 | 6 | 9 | 11 => 30,
        _ if leap(y) => 29,
        _ => 28,
    }
}

/** Independent of the code under test: Gregorian leap years. */
pub fn leap(y: i32) -> bool {
    if y.rem_euclid(400) == 0 {
        true
    } else if y.rem_euclid(100) == 0 {
        false
    } else {
        y.rem_euclid(4) == 0
    }
}

pub fn ymd(y: i32, m: u32, d: u32) -> NaiveDate {
    NaiveDate::from_ymd_opt(y, m, d.clamp(1, last_day(y, m))).expect("date")
}

/** Dates in the given years: ordinary days, month ends and starts, leap days, year ends, days and
years named in the code. */
pub fn date_in(y0: i32, y1: i32) -> BoxedStrategy<NaiveDate> {
    let years: Vec<i32> = mined()
        .ints
        .iter()
        .flat_map(|&v| [v - 1, v, v + 1])
        .filter(|&v| v >= y0 as i64 && v <= y1 as i64)
        .map(|v| v as i32)
        .collect();
    let year = if years.is_empty() {
        (y0..=y1).boxed()
    } else {
        prop_oneof![9 => y0..=y1, 1 => proptest::sample::select(years)].boxed()
    };
    let century = (y0..=y1).prop_map(move |y| {
        let c = y.div_euclid(100) * 100;
        if c >= y0 { c } else { y }
    });
    let leapy = (y0..=y1).prop_map(move |y| {
        let c = y.div_euclid(4) * 4;
        if c >= y0 { c } else { y }
    });
    let year = prop_oneof![6 => year, 1 => century, 2 => leapy];
    let md = prop_oneof![
        6 => (1u32..=12, 1u32..=31),
        3 => (1u32..=12, Just(31u32)),
        1 => (1u32..=12, Just(30u32)),
        1 => (1u32..=12, Just(1u32)),
        2 => (Just(2u32), 27u32..=29),
        1 => Just((1u32, 1u32)),
        1 => Just((12u32, 31u32)),
    ];
    (year, md).prop_map(|(y, (m, d))| ymd(y, m, d)).boxed()
}

pub fn date() -> BoxedStrategy<NaiveDate> {
    prop_oneof![8 => date_in(1900, 2100), 1 => date_in(1600, 2500)].boxed()
}

/** A second date related to the first: same day, near, same day-of-month, anniversary, or free. */
pub fn date_pair(y0: i32, y1: i32) -> BoxedStrategy<(NaiveDate, NaiveDate)> {
    let offs: Vec<i64> = mined()
        .ints
        .iter()
        .flat_map(|&v| [v - 1, v, v + 1])
        .filter(|v| (1..=40_000).contains(v))
        .collect();
    (date_in(y0, y1), date_in(y0, y1), 0u32..12, -400i64..=400, any::<proptest::sample::Index>())
        .prop_map(move |(a, b, how, off, ix)| {
            let c = match how {
                0 => Some(a),
                1 => a.checked_add_signed(chrono::Duration::days(off)),
                2 => Some(ymd(a.year(), b.month(), b.day())),
                3 => Some(ymd(b.year(), a.month(), a.day())),
                4 => Some(ymd(b.year(), b.month(), a.day())),
                5 if !offs.is_empty() => {
                    let o = offs[ix.index(offs.len())];
                    a.checked_add_signed(chrono::Duration::days(if off < 0 { -o } else { o }))
                }
                _ => Some(b),
            };
            match c {
                Some(c) if c.year() >= y0 && c.year() <= y1 => (a, c),
                _ => (a, b),
            }
        })
        .boxed()
}

/** Lists of lo..=common elements, now and then up to max, or as many as a number in the code. */
pub fn list<S>(s: S, lo: usize, common: usize, max: usize) -> BoxedStrategy<Vec<S::Value>>
where
    S: Strategy + Clone + 'static,
{
    use proptest::collection::vec;
    let mut sizes: Vec<usize> = mined()
        .ints
        .iter()
        .flat_map(|&v| [v - 1, v, v + 1])
        .filter(|&v| v > common as i64 && v <= max as i64)
        .map(|v| v as usize)
        .collect();
    sizes.sort();
    sizes.dedup();
    let few = vec(s.clone(), lo..=common);
    let wide = vec(s.clone(), common..=max);
    if sizes.is_empty() {
        prop_oneof![24 => few, 1 => wide].boxed()
    } else {
        let named = proptest::sample::select(sizes).prop_flat_map(move |n| vec(s.clone(), n..=n));
        prop_oneof![47 => few, 1 => wide, 2 => named].boxed()
    }
}
