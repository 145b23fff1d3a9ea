//! C29..C34: sets of accounts: storage, reports, period sequences, files and tables.

use crate::gens::*;
use crate::infra::*;
use crate::stmts::*;
use chrono::{Datelike, Duration, NaiveDate};
use financelib::statements::*;
use financelib::{Currency, Period};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap};

pub type D = NaiveDate;
type Oth = BTreeMap<FinOthersTyp, f64>;

const RATES: [FinOthersTyp; 3] =
    [FinOthersTyp::CorporateTaxRate, FinOthersTyp::GrossProfitTaxRate, FinOthersTyp::RevenueTaxRate];

fn other_types() -> Vec<FinOthersTyp> {
    use FinOthersTyp::*;
    vec![CorporateTaxRate, GrossProfitTaxRate, RevenueTaxRate, CurrentRatio, AcidRatio, DaysOfInventory, InventoryTurnoverRatio]
}

const CURRENCIES: [Currency; 8] = [
    Currency::INR,
    Currency::USD,
    Currency::NGN,
    Currency::EUR,
    Currency::GBP,
    Currency::CNY,
    Currency::MZN,
    Currency::ZAR,
];

// ------------------------------------------------------------------ the model

#[derive(Debug, Clone, Default, PartialEq)]
pub struct MAcc {
    pub dates: BTreeSet<D>,
    pub bs: BTreeMap<D, M<BsType>>,
    pub pl: BTreeMap<Period, M<PlType>>,
    pub cf: BTreeMap<Period, M<CfType>>,
    pub others: BTreeMap<Period, Oth>,
}

impl MAcc {
    pub fn calc(&mut self) {
        for s in self.bs.values_mut() {
            *s = ref_calc(s);
        }
        for s in self.pl.values_mut() {
            *s = ref_calc(s);
        }
        for s in self.cf.values_mut() {
            *s = ref_calc(s);
        }
    }

    fn both_sheets(&self) -> Vec<Period> {
        self.pl.keys().copied().filter(|p| self.bs.contains_key(&p.0) && self.bs.contains_key(&p.1)).collect()
    }

    /** Extraction of the given periods. */
    fn restrict(&self, ps: &BTreeSet<Period>) -> MAcc {
        let dates: BTreeSet<D> = ps.iter().flat_map(|p| [p.0, p.1]).collect();
        MAcc {
            bs: self.bs.iter().filter(|e| dates.contains(e.0)).map(|(k, v)| (*k, v.clone())).collect(),
            pl: self.pl.iter().filter(|e| ps.contains(e.0)).map(|(k, v)| (*k, v.clone())).collect(),
            cf: self.cf.iter().filter(|e| ps.contains(e.0)).map(|(k, v)| (*k, v.clone())).collect(),
            others: self.others.iter().filter(|e| ps.contains(e.0)).map(|(k, v)| (*k, v.clone())).collect(),
            dates,
        }
    }
}

/** A set of accounts as generated: statements at indices into `dates`. */
#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Acc {
    currency: u8,
    consolidated: bool,
    dates: Vec<D>,
    registered: bool,
    bs: Vec<(u8, Vec<(BsType, f64)>)>,
    pl: Vec<(u8, u8, Vec<(PlType, f64)>)>,
    cf: Vec<(u8, u8, Vec<(CfType, f64)>)>,
    others: Vec<(u8, u8, Vec<(FinOthersTyp, f64)>)>,
}

impl Acc {
    fn date(&self, i: u8) -> D {
        self.dates[i as usize % self.dates.len()]
    }
    fn period(&self, i: u8, j: u8) -> Period {
        (self.date(i), self.date(j))
    }
    fn model(&self) -> MAcc {
        let mut m = MAcc::default();
        for (i, v) in &self.bs {
            m.bs.insert(self.date(*i), map_of(v));
        }
        for (i, j, v) in &self.pl {
            m.pl.insert(self.period(*i, *j), map_of(v));
        }
        for (i, j, v) in &self.cf {
            m.cf.insert(self.period(*i, *j), map_of(v));
        }
        for (i, j, v) in &self.others {
            m.others.insert(self.period(*i, *j), v.iter().copied().collect());
        }
        if self.registered {
            m.dates = m.pl.keys().flat_map(|p| [p.0, p.1]).collect();
        }
        m
    }
    pub fn build(&self) -> (Accounts, MAcc) {
        let m = self.model();
        (to_accounts(&m, self.currency, self.consolidated), m)
    }
    fn all_periods(&self) -> BTreeSet<Period> {
        let m = self.model();
        m.pl.keys().chain(m.cf.keys()).chain(m.others.keys()).copied().collect()
    }
}

fn to_accounts(m: &MAcc, currency: u8, consolidated: bool) -> Accounts {
    Accounts {
        currency: CURRENCIES[currency as usize % CURRENCIES.len()],
        consolidated,
        dates: m.dates.clone(),
        balance_sheet: m.bs.iter().map(|(k, v)| (*k, to_h(v))).collect(),
        profit_loss: m.pl.iter().map(|(k, v)| (*k, to_h(v))).collect(),
        cash_flow: m.cf.iter().map(|(k, v)| (*k, to_h(v))).collect(),
        others: m.others.iter().map(|(k, v)| (*k, v.iter().map(|(a, b)| (*a, *b)).collect())).collect(),
    }
}

/** Totals as an earlier calculation, on other amounts, would have left them. */
pub fn leave_totals(a: &mut Accounts, m: &MAcc) {
    fn totals<T: St>(h: &mut H<T>, m: &M<T>) {
        let other: M<T> = m.iter().map(|(k, v)| (*k, v * 1.5 + 10.0)).collect();
        for (k, v) in ref_calc(&other) {
            if k.is_total() && v.abs() > 1e-5 {
                h.insert(k, v);
            }
        }
    }
    for (k, h) in a.balance_sheet.iter_mut() {
        totals(h, &m.bs[k]);
    }
    for (k, h) in a.profit_loss.iter_mut() {
        totals(h, &m.pl[k]);
    }
    for (k, h) in a.cash_flow.iter_mut() {
        totals(h, &m.cf[k]);
    }
}

fn from_accounts(a: &Accounts) -> MAcc {
    MAcc {
        dates: a.dates.clone(),
        bs: a.balance_sheet.iter().map(|(k, v)| (*k, to_m(v))).collect(),
        pl: a.profit_loss.iter().map(|(k, v)| (*k, to_m(v))).collect(),
        cf: a.cash_flow.iter().map(|(k, v)| (*k, to_m(v))).collect(),
        others: a.others.iter().map(|(k, v)| (*k, v.iter().map(|(a, b)| (*a, *b)).collect())).collect(),
    }
}

fn same_keys<K: std::fmt::Debug + Ord, A, B>(what: &str, a: &BTreeMap<K, A>, b: &BTreeMap<K, B>) -> Res {
    let (x, y): (Vec<&K>, Vec<&K>) = (a.keys().collect(), b.keys().collect());
    ensure(x == y, || format!("{what}: has {x:?}, expected {y:?}"))
}

fn same_frame(what: &str, a: &Accounts, m: &MAcc) -> Res {
    ensure(a.dates == m.dates, || format!("{what}: dates are {:?}, expected {:?}", a.dates, m.dates))?;
    same_keys(&format!("{what}: balance sheets"), &a.balance_sheet, &m.bs)?;
    same_keys(&format!("{what}: profit and loss statements"), &a.profit_loss, &m.pl)?;
    same_keys(&format!("{what}: cash flow statements"), &a.cash_flow, &m.cf)?;
    let got = from_accounts(a).others;
    ensure(got == m.others, || format!("{what}: other parameters are {got:?}, expected {:?}", m.others))
}

fn same_maps<T: St>(what: &str, h: &H<T>, m: &M<T>, exact: bool, entered_only: bool) -> Res {
    for &k in T::all() {
        if entered_only && k.is_total() {
            continue;
        }
        let tol = if k.is_total() && !exact { 4.0 * calc_tol(m) } else { 0.0 };
        let (got, want) = (value_of(h, k), get(m, k));
        if !within(got, want, tol) {
            return Err(format!("{what}: {} item {k:?} is {got:?}, expected {want:?}", T::NAME));
        }
    }
    Ok(())
}

fn same_all(what: &str, a: &Accounts, m: &MAcc, exact: bool, entered_only: bool) -> Res {
    same_frame(what, a, m)?;
    for (k, s) in &a.balance_sheet {
        same_maps(&format!("{what}, {k}"), s, &m.bs[k], exact, entered_only)?;
    }
    for (k, s) in &a.profit_loss {
        same_maps(&format!("{what}, {k:?}"), s, &m.pl[k], exact, entered_only)?;
    }
    for (k, s) in &a.cash_flow {
        same_maps(&format!("{what}, {k:?}"), s, &m.cf[k], exact, entered_only)?;
    }
    Ok(())
}

/** Same dates, statements and parameters; totals within the tolerance of calculation unless exact. */
pub fn same_accounts(what: &str, a: &Accounts, m: &MAcc, exact: bool) -> Res {
    same_all(what, a, m, exact, false)
}

/** Same dates, statements, parameters and entered items. */
pub fn same_entered(what: &str, a: &Accounts, m: &MAcc) -> Res {
    same_all(what, a, m, true, true)
}

// ------------------------------------------------------------------ generators

/** Two to nine reporting dates: yearly, quarterly, mixed and irregular, ascending. */
fn dates() -> BoxedStrategy<Vec<D>> {
    let start = prop_oneof![
        3 => (1990i32..=2030, proptest::sample::select(vec![3u32, 6, 9, 12])).prop_map(|(y, m)| ymd(y, m, 31)),
        2 => date_in(1900, 2100),
    ];
    (start, list((0u8..8, 1i64..=800), 1, 8, 40))
        .prop_map(|(d0, steps)| {
            let mut v = vec![d0];
            for (how, days) in steps {
                let last = *v.last().expect("date");
                let next = match how {
                    0..=2 => ymd(last.year() + 1, last.month(), d0.day()),
                    3..=5 => {
                        let m = last.month() + 3;
                        if m > 12 { ymd(last.year() + 1, m - 12, d0.day()) } else { ymd(last.year(), m, d0.day()) }
                    }
                    6 => last + Duration::days([119, 120, 121][days as usize % 3]),
                    _ => last + Duration::days(days),
                };
                v.push(next);
            }
            v
        })
        .boxed()
}

/** Dates a quarter or a year apart. */
fn regular_dates() -> BoxedStrategy<Vec<D>> {
    (date_in(1990, 2060), proptest::collection::vec(any::<bool>(), 1..=8))
        .prop_map(|(d0, steps)| {
            let mut v = vec![d0];
            let mut end = d0;
            for q in steps {
                end = minus_months(end, if q { 3 } else { 12 }, d0.day());
                v.push(end);
            }
            v.reverse();
            v
        })
        .boxed()
}

/** Ordered index pairs, mostly neighbours. */
fn pair(n: usize) -> BoxedStrategy<(u8, u8)> {
    let n = n as u8;
    prop_oneof![
        4 => (0..n - 1).prop_map(|i| (i, i + 1)),
        2 => (0..n, 0..n).prop_map(|(i, j)| if i <= j { (i, j) } else { (j, i) }),
    ]
    .boxed()
}

fn other_items() -> BoxedStrategy<Vec<(FinOthersTyp, f64)>> {
    let one = (proptest::sample::select(other_types()), float_in(0.0, 2.0));
    (tax_rates(), proptest::collection::vec(one, 0..=4), 0u8..16)
        .prop_map(|((a, b, c), mut v, skip)| {
            for (i, (k, r)) in RATES.iter().zip([a, b, c]).enumerate() {
                if skip >> i & 1 == 0 || skip < 8 {
                    v.push((*k, r));
                }
            }
            v
        })
        .boxed()
}

#[derive(Clone, Copy, PartialEq)]
enum Kind {
    Free,
    Taxed,
    Reports,
    Chain,
}

fn acc_kind(kind: Kind) -> BoxedStrategy<Acc> {
    let dts = if kind == Kind::Chain { regular_dates() } else { dates() };
    (dts, 0u8..8, any::<bool>(), any::<bool>())
        .prop_flat_map(move |(dates, currency, consolidated, registered)| {
            let n = dates.len();
            let ix = 0..n as u8;
            let pls = match kind {
                Kind::Taxed => tax_pl(),
                _ => items::<financelib::statements::PlType>(PlType::entered(), 0..=12),
            };
            // every date's balance sheet and every period's rates, or some of them
            let full = kind == Kind::Reports || kind == Kind::Chain;
            let bs = if full {
                proptest::collection::vec(items(BsType::entered(), 0..=12), n)
                    .prop_map(|v| v.into_iter().enumerate().map(|(i, s)| (i as u8, s)).collect::<Vec<_>>())
                    .boxed()
            } else {
                proptest::collection::vec((ix, items(BsType::entered(), 0..=12)), 0..=n + 1).boxed()
            };
            let drop_bs = proptest::option::weighted(0.4, 0..n as u8);
            let pl = proptest::collection::vec((pair(n), pls), 1..=n);
            let cf = proptest::collection::vec((pair(n), items(CfType::entered(), 0..=8)), 0..=n);
            let others = proptest::collection::vec((pair(n), other_items()), 0..=n);
            let oth_all = proptest::collection::vec((tax_rates(), other_items()), n);
            (
                Just((dates, currency, consolidated, registered)),
                (bs, drop_bs),
                pl,
                cf,
                others,
                oth_all,
                any::<bool>(),
            )
        })
        .prop_map(move |((dates, currency, consolidated, registered), (mut bs, drop_bs), pl, cf, others, oth_all, cfpl)| {
            if kind == Kind::Reports {
                if let Some(i) = drop_bs {
                    bs.retain(|b| b.0 != i);
                }
            }
            let mut pl: Vec<_> = pl.into_iter().map(|((i, j), v)| (i, j, v)).collect();
            if kind == Kind::Chain {
                // most links of the chain, from its end
                let n = dates.len() as u8;
                for (k, p) in pl.iter_mut().enumerate() {
                    if k % 4 != 3 && (k as u8) < n - 1 {
                        (p.0, p.1) = (n - 2 - k as u8, n - 1 - k as u8);
                    }
                }
            }
            let mut cf: Vec<_> = cf.into_iter().map(|((i, j), v)| (i, j, v)).collect();
            if cfpl || kind == Kind::Reports {
                for (n, c) in cf.iter_mut().enumerate() {
                    (c.0, c.1) = (pl[n % pl.len()].0, pl[n % pl.len()].1);
                }
            }
            let mut others: Vec<_> = others.into_iter().map(|((i, j), v)| (i, j, v)).collect();
            if kind == Kind::Taxed {
                others = pl.iter().zip(oth_all.iter().cycle()).map(|(p, o)| (p.0, p.1, o.1.clone())).collect();
            }
            if kind == Kind::Reports {
                others = pl
                    .iter()
                    .zip(oth_all.iter().cycle())
                    .map(|(p, (r, o))| {
                        let mut v = o.clone();
                        v.retain(|x| !RATES.contains(&x.0));
                        v.extend(RATES.iter().copied().zip([r.0, r.1, r.2]));
                        (p.0, p.1, v)
                    })
                    .collect();
            }
            Acc { currency, consolidated, dates, registered, bs, pl, cf, others }
        })
        .boxed()
}

/** Any set of accounts, with ordered periods. */
pub fn acc() -> BoxedStrategy<Acc> {
    acc_kind(Kind::Free)
}

/** Every profit and loss period has parameters, some rates missing. */
pub fn acc_taxed() -> BoxedStrategy<Acc> {
    acc_kind(Kind::Taxed)
}

// ------------------------------------------------------------------ C29 histories

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Op {
    PutBs(u8, BsType, f64),
    PutPl(u8, PlType, f64),
    PutCf(u8, CfType, f64),
    PutTotal(u8, u8, f64),
    SetTax(f64, f64, f64),
    SetDates,
    Calc,
    CalcCash,
    CalcTax,
    Clean,
    Extract(Vec<(u8, u8)>),
    Reverse(u8),
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        10 => (any::<u8>(), proptest::sample::select(BsType::entered()), money()).prop_map(|(i, k, v)| Op::PutBs(i, k, v)),
        10 => (any::<u8>(), proptest::sample::select(PlType::entered()), money()).prop_map(|(i, k, v)| Op::PutPl(i, k, v)),
        10 => (any::<u8>(), proptest::sample::select(CfType::entered()), money()).prop_map(|(i, k, v)| Op::PutCf(i, k, v)),
        3 => (any::<u8>(), any::<u8>(), money()).prop_map(|(i, k, v)| Op::PutTotal(i, k, v)),
        4 => tax_rates().prop_map(|(a, b, c)| Op::SetTax(a, b, c)),
        3 => Just(Op::SetDates),
        4 => Just(Op::Calc),
        4 => Just(Op::CalcCash),
        3 => Just(Op::CalcTax),
        2 => Just(Op::Clean),
        2 => proptest::collection::vec((any::<u8>(), any::<u8>()), 0..=6).prop_map(Op::Extract),
        1 => any::<u8>().prop_map(Op::Reverse),
    ]
    .boxed()
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct History {
    acc: Acc,
    ops: Vec<Op>,
}

fn nth<K: Copy, V>(m: &BTreeMap<K, V>, i: u8) -> Option<K> {
    if m.is_empty() { None } else { m.keys().nth(i as usize % m.len()).copied() }
}

fn check_history(c: &History, o: &mut Obs) -> Res {
    let (mut a, mut m) = c.acc.build();
    let known = c.acc.dates.clone();
    let (mut puts, mut others) = (0, 0);
    let reads = |a: &Accounts, m: &MAcc, what: &str| -> Res {
        same_accounts(what, a, m, false)?;
        // the same through the reading functions
        for (d, s) in &m.bs {
            for &k in BsType::all() {
                let got = a.get_balance_sheet(*d, k);
                ensure(got == value_of(&a.balance_sheet[d], k), || format!("{what}: reading {k:?} of {d} gives {got}, stored {}", get(s, k)))?;
            }
        }
        for (p, s) in &m.pl {
            for &k in PlType::all() {
                let got = a.get_profit_loss(*p, k);
                ensure(got == value_of(&a.profit_loss[p], k), || format!("{what}: reading {k:?} of {p:?} gives {got}, stored {}", get(s, k)))?;
            }
        }
        for (p, s) in &m.cf {
            for &k in CfType::all() {
                let got = a.get_cash_flow(*p, k);
                ensure(got == value_of(&a.cash_flow[p], k), || format!("{what}: reading {k:?} of {p:?} gives {got}, stored {}", get(s, k)))?;
            }
        }
        for d in &known {
            let got = a.valid_date(*d);
            ensure(got == m.dates.contains(d), || format!("{what}: date {d} is registered: {got}"))?;
        }
        Ok(())
    };
    reads(&a, &m, "at first")?;
    for (n, op) in c.ops.iter().enumerate() {
        let what = format!("step {n}, {op:?}");
        match op {
            Op::PutBs(i, k, v) => {
                let Some(d) = nth(&m.bs, *i) else { continue };
                a.put_balance_sheet(d, *k, *v);
                m.bs.get_mut(&d).expect("date").insert(*k, *v);
                puts += 1;
            }
            Op::PutPl(i, k, v) => {
                let Some(p) = nth(&m.pl, *i) else { continue };
                a.put_profit_loss(p, *k, *v);
                m.pl.get_mut(&p).expect("period").insert(*k, *v);
                puts += 1;
            }
            Op::PutCf(i, k, v) => {
                let Some(p) = nth(&m.cf, *i) else { continue };
                a.put_cash_flow(p, *k, *v);
                m.cf.get_mut(&p).expect("period").insert(*k, *v);
                puts += 1;
            }
            Op::PutTotal(i, k, v) => {
                if let Some(d) = nth(&m.bs, *i) {
                    let t = BsType::totals();
                    let t = t[*k as usize % t.len()];
                    ensure(guard(|| { a.put_balance_sheet(d, t, *v); }).is_err(), || format!("{what}: total {t:?} was stored"))?;
                }
                if let Some(p) = nth(&m.pl, *i) {
                    let t = PlType::totals();
                    let t = t[*k as usize % t.len()];
                    ensure(guard(|| { a.put_profit_loss(p, t, *v); }).is_err(), || format!("{what}: total {t:?} was stored"))?;
                }
                if let Some(p) = nth(&m.cf, *i) {
                    let t = CfType::totals();
                    let t = t[*k as usize % t.len()];
                    ensure(guard(|| { a.put_cash_flow(p, t, *v); }).is_err(), || format!("{what}: total {t:?} was stored"))?;
                }
            }
            Op::SetTax(x, y, z) => {
                a.set_tax_rates(*x, *y, *z);
                for p in m.pl.keys() {
                    m.others.entry(*p).or_default().extend(RATES.iter().copied().zip([*x, *y, *z]));
                }
                others += 1;
            }
            Op::SetDates => {
                if m.pl.keys().any(|p| p.0 > p.1) {
                    let r = guard(|| { a.set_dates_from_profit_loss(); });
                    ensure(r.is_err(), || format!("{what}: a reversed period was registered"))?;
                    a.dates = m.dates.clone();
                    o.label(true, "reversed period refused");
                } else {
                    a.set_dates_from_profit_loss();
                    m.dates.extend(m.pl.keys().flat_map(|p| [p.0, p.1]));
                }
                others += 1;
            }
            Op::Calc => {
                a.calc_elements();
                m.calc();
                others += 1;
            }
            Op::CalcCash => {
                let ps = m.both_sheets();
                let rated = |p: &Period| m.others.get(p).is_some_and(|t| RATES.iter().all(|r| t.contains_key(r)));
                if !ps.iter().all(rated) {
                    continue;
                }
                a.calc_cash_flow();
                for p in ps {
                    // what is in it is C27's and C28's matter
                    let s = a.cash_flow.get(&p).ok_or_else(|| format!("{what}: no cash flow for {p:?}"))?;
                    m.cf.insert(p, to_m(s));
                }
                others += 1;
            }
            Op::CalcTax => {
                if !m.pl.keys().all(|p| m.others.contains_key(p)) {
                    continue;
                }
                a.calc_tax();
                m.calc();
                for (p, s) in m.pl.iter_mut() {
                    let t = a.profit_loss.get(p).map_or(0.0, |s| value_of(s, PlType::TaxesCurrent));
                    s.insert(PlType::TaxesCurrent, t);
                }
                others += 1;
            }
            Op::Clean => {
                a.remove_calc_clean();
                for s in m.bs.values_mut() {
                    s.retain(|k, v| !k.is_total() && v.abs() > 1e-5);
                }
                for s in m.pl.values_mut() {
                    s.retain(|k, v| !k.is_total() && v.abs() > 1e-5);
                }
                for s in m.cf.values_mut() {
                    s.retain(|k, v| !k.is_total() && v.abs() > 1e-5);
                }
                others += 1;
            }
            Op::Extract(v) => {
                let have: Vec<Period> = m.pl.keys().chain(m.cf.keys()).chain(m.others.keys()).copied().collect();
                let mut ps = BTreeSet::new();
                for (i, j) in v {
                    if *j % 5 == 0 || have.is_empty() {
                        let p = c.acc.period(*i, *j);
                        ps.insert((p.0.min(p.1), p.0.max(p.1)));
                    } else {
                        ps.insert(have[*i as usize % have.len()]);
                    }
                }
                let before = a.clone();
                let e = a.from_periods(ps.clone());
                ensure(a == before, || format!("{what}: extracting changed the accounts"))?;
                ensure(e.currency == a.currency && e.consolidated == a.consolidated, || format!("{what}: currency or consolidation flag changed"))?;
                a = e;
                m = m.restrict(&ps);
                others += 1;
            }
            Op::Reverse(i) => {
                // store a statement under a reversed period, past the library
                if let Some(p) = nth(&m.pl, *i) {
                    if p.0 < p.1 {
                        let s = m.pl.remove(&p).expect("period");
                        m.pl.insert((p.1, p.0), s);
                        let h = a.profit_loss.remove(&p).expect("period");
                        a.profit_loss.insert((p.1, p.0), h);
                    }
                }
            }
        }
        reads(&a, &m, &what)?;
    }
    o.nt(puts >= 2 && others >= 1);
    o.label(puts + others > 15, "more than 15 effective steps");
    o.label(m.pl.len() > 2, "more than two periods at the end");
    Ok(())
}

pub fn c29() -> Prop {
    Prop {
        id: "C29",
        rule: "histories of 1 to 40 stores, refused stores, rate settings, date registrations, calculations, cleanings and extractions on sets of accounts of 2 to 9 dates, everything compared with a model after each step; non-trivial: two amounts stored and another operation",
        laws: vec![law(
            "histories",
            40_000,
            1_200_000,
            || (acc(), list(op(), 1, 39, 160)).prop_map(|(acc, ops)| History { acc, ops }),
            check_history,
        )],
    }
}

// ------------------------------------------------------------------ C30 reports

type Parts = (Option<BalanceSheet>, Option<BalanceSheet>, Option<ProfitLoss>, Option<CashFlow>, Option<FinOthers>);

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Join {
    acc: Acc,
    which: u8,
    keep: u8,
    shift: u8,
    days: i64,
    swap: bool,
}

fn opt_h<K: Ord, T: St>(m: &BTreeMap<K, M<T>>, k: K) -> Option<H<T>> {
    m.get(&k).map(to_h)
}

fn want_report(m: &MAcc, p: Period) -> Option<FinancialReport> {
    m.pl.contains_key(&p).then(|| FinancialReport {
        period: p,
        balance_sheet_beg: opt_h(&m.bs, p.0),
        balance_sheet_end: opt_h(&m.bs, p.1),
        profit_loss: opt_h(&m.pl, p),
        cash_flow: opt_h(&m.cf, p),
        others: m.others.get(&p).map(|x| x.iter().map(|(a, b)| (*a, *b)).collect()),
    })
}

fn near_maps<T: St>(what: &str, a: &Option<H<T>>, b: &Option<H<T>>, tol: f64) -> Res {
    match (a, b) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) => {
            for &k in T::all() {
                same(&format!("{what}: {} item {k:?}", T::NAME), value_of(a, k), value_of(b, k), tol)?;
            }
            Ok(())
        }
        _ => Err(format!("{what}: {} there {}, {}", T::NAME, a.is_some(), b.is_some())),
    }
}

pub fn c30() -> Prop {
    Prop {
        id: "C30",
        rule: "sets of accounts of 2 to 9 dates, most with balance sheets at all dates: every period's report taken out and calculated, against the set calculated; reports split and joined, with up to one statement moved to another date or period; non-trivial: a period with both balance sheets (calculation), at least three statements (joining)",
        laws: vec![
            law("reports hold the period's statements", 60_000, 2_000_000, acc, |c: &Acc, o| {
                let (a, m) = c.build();
                o.nt(m.pl.len() > 1 && !m.both_sheets().is_empty());
                let mut all: BTreeSet<Period> = c.all_periods();
                for &x in &c.dates {
                    for &y in &c.dates {
                        all.insert((x, y));
                    }
                }
                for p in all {
                    let (got, want) = (a.get_account(p.0, p.1), want_report(&m, p));
                    ensure(got == want, || format!("report of {p:?}: {got:?}, expected {want:?}"))?;
                }
                let want: Vec<_> = m.pl.keys().filter_map(|p| want_report(&m, *p)).collect();
                let got = a.to_financial_reports();
                ensure(got == want, || format!("all reports: {got:?}, expected {want:?}"))
            }),
            law(
                "calculating reports and sets",
                60_000,
                2_000_000,
                || acc_kind(Kind::Reports),
                |c: &Acc, o| {
                    let (a, m) = c.build();
                    let mut whole = a.clone();
                    whole.calc_elements();
                    whole.calc_cash_flow();
                    let both = m.both_sheets();
                    o.nt(!both.is_empty());
                    o.label(both.len() > 1, "several periods");
                    o.label(both.len() < m.pl.len(), "a period lacks a balance sheet");
                    for p in &both {
                        let mut r = a.get_account(p.0, p.1).ok_or_else(|| format!("no report for {p:?}"))?;
                        r.calc_elements();
                        let w = whole.get_account(p.0, p.1).ok_or_else(|| format!("no report for {p:?} after calculating"))?;
                        let what = format!("period {p:?}, report against set");
                        ensure(r.period == w.period && r.others == w.others, || format!("{what}: period or parameters differ"))?;
                        let mag: f64 = m.bs[&p.0].values().chain(m.bs[&p.1].values()).chain(m.pl[p].values()).map(|v| v.abs()).sum();
                        let tol = 1e-3 + 1e-12 * mag;
                        near_maps(&what, &r.balance_sheet_beg, &w.balance_sheet_beg, tol)?;
                        near_maps(&what, &r.balance_sheet_end, &w.balance_sheet_end, tol)?;
                        near_maps(&what, &r.profit_loss, &w.profit_loss, tol)?;
                        near_maps(&what, &r.cash_flow, &w.cash_flow, tol)?;
                        // and both are what the statements say
                        let bs0 = ref_calc(&m.bs[&p.0]);
                        let pl = ref_calc(&m.pl[p]);
                        near_maps(&format!("period {p:?}, report"), &r.balance_sheet_beg, &Some(to_h(&bs0)), tol)?;
                        near_maps(&format!("period {p:?}, report"), &r.profit_loss, &Some(to_h(&pl)), tol)?;
                        let mut cf = ref_cash_flow(&m.bs[&p.0], &m.bs[&p.1], &pl);
                        let shield = r.cash_flow.as_ref().map_or(0.0, |x| value_of(x, CfType::CashFlowTaxShield));
                        cf.insert(CfType::CashFlowTaxShield, shield);
                        near_maps(&format!("period {p:?}, report"), &r.cash_flow, &Some(to_h(&ref_calc(&cf))), tol)?;
                    }
                    Ok(())
                },
            ),
            law(
                "splitting and joining",
                100_000,
                3_000_000,
                || {
                    (acc_kind(Kind::Reports), any::<u8>(), any::<u8>(), 0u8..10, 1i64..=400, any::<bool>())
                        .prop_map(|(acc, which, keep, shift, days, swap)| Join { acc, which, keep, shift, days, swap })
                },
                |c: &Join, o| {
                    let (a, m) = c.acc.build();
                    let Some(p) = nth(&m.pl, c.which) else { return Ok(()) };
                    let mut r = want_report(&m, p).expect("report");
                    // some statements absent
                    if c.keep & 1 == 1 {
                        r.balance_sheet_beg = None;
                    }
                    if c.keep & 6 == 6 {
                        r.balance_sheet_end = None;
                    }
                    if c.keep & 24 == 24 {
                        r.others = None;
                    }
                    if c.keep & 32 == 32 {
                        r.cash_flow = None;
                    }
                    let _ = a;
                    let parts: Parts = r.to_statements();
                    let n = [parts.0.is_some(), parts.1.is_some(), parts.3.is_some(), parts.4.is_some()];
                    o.nt(n.iter().filter(|x| **x).count() >= 2);
                    ensure(parts.0 == r.balance_sheet_beg() && parts.1 == r.balance_sheet_end() && parts.2 == r.profit_loss() && parts.3 == r.cash_flow() && parts.4 == r.fin_others(), || {
                        "statements one by one differ from all of them".to_string()
                    })?;
                    let want: Parts = (
                        r.balance_sheet_beg.clone().map(|items| BalanceSheet { date: p.0, items }),
                        r.balance_sheet_end.clone().map(|items| BalanceSheet { date: p.1, items }),
                        r.profit_loss.clone().map(|items| ProfitLoss { period: p, items }),
                        r.cash_flow.clone().map(|items| CashFlow { period: p, items }),
                        r.others.clone().map(|items| FinOthers { period: p, items }),
                    );
                    ensure(parts == want, || format!("the statements of {r:?} are {parts:?}"))?;
                    let join = |x: &Parts| FinancialReport::from_statements(&x.0, &x.1, &x.2, &x.3, &x.4);
                    let got = join(&parts);
                    ensure(got.as_ref() == Some(&r), || format!("split and joined: {got:?}, expected {r:?}"))?;
                    // one statement dated otherwise
                    let d = Duration::days(if c.swap { -c.days } else { c.days });
                    let mut x = parts.clone();
                    let moved = match c.shift {
                        0 => x.0.as_mut().map(|s| s.date += d).is_some(),
                        1 => x.1.as_mut().map(|s| s.date += d).is_some(),
                        2 => x.3.as_mut().map(|s| s.period.0 += d).is_some(),
                        3 => x.3.as_mut().map(|s| s.period.1 += d).is_some(),
                        4 => x.4.as_mut().map(|s| s.period.0 += d).is_some(),
                        5 => x.4.as_mut().map(|s| s.period.1 += d).is_some(),
                        6 => x.3.as_mut().map(|s| s.period = (p.0 + d, p.1 + d)).is_some(),
                        7 => x.4.as_mut().map(|s| s.period = (p.0 + d, p.1 + d)).is_some(),
                        8 => {
                            // balance sheets the wrong way round
                            std::mem::swap(&mut x.0, &mut x.1);
                            p.0 != p.1 && (x.0.is_some() || x.1.is_some())
                        }
                        _ => {
                            // all but the profit and loss statement moved together
                            let y = (&mut x.0, &mut x.1, &mut x.3, &mut x.4);
                            let mut any = false;
                            if let Some(s) = y.0 {
                                s.date += d;
                                any = true;
                            }
                            if let Some(s) = y.1 {
                                s.date += d;
                                any = true;
                            }
                            if let Some(s) = y.2 {
                                s.period = (p.0 + d, p.1 + d);
                                any = true;
                            }
                            if let Some(s) = y.3 {
                                s.period = (p.0 + d, p.1 + d);
                                any = true;
                            }
                            any
                        }
                    };
                    if moved {
                        o.label(true, "mismatched statements");
                        let got = join(&x);
                        ensure(got.is_none(), || format!("statements of different dates were joined: {x:?} to {got:?}"))?;
                    }
                    Ok(())
                },
            ),
        ],
    }
}

// ------------------------------------------------------------------ C31 sequences, splitting

fn ref_sequence(v: &[Period]) -> bool {
    v.iter().all(|p| p.0 <= p.1) && v.windows(2).all(|w| w[0].1 == w[1].0)
}

fn sequence() -> BoxedStrategy<Vec<Period>> {
    (date_in(1900, 2100), list(0i64..=400, 1, 14, 130), 0u8..8, any::<u8>(), -400i64..=400, 0u8..4)
        .prop_map(|(d0, steps, how, at, off, field)| {
            let mut v: Vec<Period> = vec![];
            let mut d = d0;
            for s in steps {
                let e = d + Duration::days(s);
                v.push((d, e));
                d = e;
            }
            let n = v.len();
            let i = at as usize % n;
            let off = Duration::days(off);
            match how {
                0..=2 => {}
                3 => v[i].0 += off,
                4 => v[i].1 += off,
                5 => v[i] = (v[i].1, v[i].0),
                6 => {
                    if field == 0 {
                        v.remove(i);
                        if v.is_empty() {
                            v.push((d0, d0));
                        }
                    } else {
                        let p = v[i];
                        v.insert(i, p);
                    }
                }
                _ => {
                    // reversed but linked
                    let e = v[i].1 - Duration::days(field as i64 * 40);
                    v[i].1 = e;
                    if i + 1 < n {
                        v[i + 1].0 = e;
                    }
                }
            }
            v
        })
        .boxed()
}

fn pl_only(ps: &[Period]) -> Accounts {
    Accounts {
        currency: Currency::USD,
        consolidated: true,
        dates: BTreeSet::new(),
        balance_sheet: BTreeMap::new(),
        profit_loss: ps.iter().map(|p| (*p, HashMap::new())).collect(),
        cash_flow: BTreeMap::new(),
        others: BTreeMap::new(),
    }
}

fn check_sequence(v: &Vec<Period>, o: &mut Obs) -> Res {
    let want = ref_sequence(v);
    o.nt(v.len() > 1);
    o.label(want, "valid");
    o.label(!want && v.len() > 1 && ref_sequence(&v[..v.len() - 1]), "only the last one wrong");
    let got = check_dates(v);
    ensure(got == want, || format!("{v:?} accepted as a sequence: {got}"))?;
    let a = pl_only(v);
    let sorted: Vec<Period> = v.iter().copied().collect::<BTreeSet<_>>().into_iter().collect();
    let got = a.check_dates();
    ensure(got == ref_sequence(&sorted), || format!("periods {sorted:?} of accounts accepted as a sequence: {got}"))
}

pub fn c31() -> Prop {
    // all lists of up to three periods over four dates
    let day = |k: u64| ymd(2019, 12, 30) + Duration::days([0, 1, 92, 366][k as usize]);
    let p = move |k: u64| (day(k / 4), day(k % 4));
    Prop {
        id: "C31",
        rule: "every list of one to three periods over four dates, chains of 1 to 14 periods, intact or altered at one place, and sets of periods of 0 to 800 days; non-trivial: more than one period (sequences), both long and short ones (splitting)",
        laws: vec![
            enum_law(
                "every list of up to three periods over four dates",
                |_| 16 + 256 + 4096,
                move |i| {
                    if i < 16 {
                        vec![p(i)]
                    } else if i < 272 {
                        vec![p((i - 16) / 16), p((i - 16) % 16)]
                    } else {
                        let j = i - 272;
                        vec![p(j / 256), p(j / 16 % 16), p(j % 16)]
                    }
                },
                check_sequence,
            ),
            law("chains of periods", 200_000, 6_000_000, sequence, check_sequence),
            law(
                "long and short periods",
                100_000,
                3_000_000,
                || {
                    let len = prop_oneof![3 => 100i64..=140, 3 => 0i64..=800, 2 => 117i64..=123];
                    list((date_in(1900, 2100), len), 0, 10, 130)
                },
                |v: &Vec<(D, i64)>, o| {
                    let ps: Vec<Period> = v.iter().map(|(d, n)| (*d, *d + Duration::days(*n))).collect();
                    let a = pl_only(&ps);
                    let (long, short): (BTreeSet<Period>, BTreeSet<Period>) =
                        ps.iter().partition(|p| p.1.signed_duration_since(p.0).num_days() > 120);
                    o.nt(!long.is_empty() && !short.is_empty());
                    o.label(v.iter().any(|x| x.1 == 120 || x.1 == 121), "120 or 121 days");
                    let got = a.split_periods();
                    ensure(got == (long.clone(), short.clone()), || format!("split into {got:?}, expected {long:?} and {short:?}"))
                },
            ),
        ],
    }
}

// ------------------------------------------------------------------ C32 consecutive chain

fn minus_months(d: D, months: i32, day: u32) -> D {
    let t = d.year() * 12 + d.month() as i32 - 1 - months;
    ymd(t.div_euclid(12), t.rem_euclid(12) as u32 + 1, day)
}

fn ref_chain(ps: &BTreeSet<Period>) -> BTreeSet<Period> {
    let mut out = BTreeSet::new();
    let Some(last) = ps.iter().map(|p| p.1).max() else { return out };
    let mut end = last;
    while out.len() < 100 {
        let (q, y) = (minus_months(end, 3, last.day()), minus_months(end, 12, last.day()));
        let Some(beg) = [q, y].into_iter().find(|b| ps.contains(&(*b, end))) else { break };
        out.insert((beg, end));
        end = beg;
    }
    out
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Chain {
    last: D,
    steps: Vec<bool>,
    also: Vec<(u8, u8)>,
    drop: Vec<u8>,
    noise: Vec<(D, i64)>,
}

fn chain() -> BoxedStrategy<Chain> {
    let steps = prop_oneof![
        6 => proptest::collection::vec(proptest::bool::weighted(0.6), 0..=12),
        1 => proptest::collection::vec(proptest::bool::weighted(0.98), 95..=110),
    ];
    (
        date_in(1960, 2100),
        steps,
        proptest::collection::vec((any::<u8>(), 0u8..6), 0..=6),
        proptest::collection::vec(any::<u8>(), 0..=2),
        proptest::collection::vec((date_in(1850, 2099), -200i64..=800), 0..=3),
        0u8..4,
    )
        .prop_map(|(last, steps, also, drop, noise, calm)| Chain {
            last,
            steps,
            also,
            drop: if calm < 2 { vec![] } else { drop },
            noise: if calm % 2 == 0 { vec![] } else { noise },
        })
        .boxed()
}

impl Chain {
    fn periods(&self) -> BTreeSet<Period> {
        let day = self.last.day();
        let mut v = vec![];
        let mut end = self.last;
        for &q in &self.steps {
            let beg = minus_months(end, if q { 3 } else { 12 }, day);
            v.push((beg, end));
            end = beg;
        }
        let n = v.len();
        for &(i, how) in &self.also {
            if n == 0 {
                break;
            }
            let p = v[i as usize % n];
            v.push(match how {
                // the year ending with that period, half years, a period a day off
                0 => (minus_months(p.1, 12, day), p.1),
                1 => (minus_months(p.1, 3, day), p.1),
                2 => (minus_months(p.1, 6, day), p.1),
                3 => (p.0 + Duration::days(1), p.1),
                4 => (p.0, p.1 - Duration::days(1)),
                _ => (minus_months(p.1, 9, day), p.1),
            });
        }
        let mut s: BTreeSet<Period> = v.iter().copied().collect();
        for &i in &self.drop {
            if n > 0 {
                s.remove(&v[i as usize % n]);
            }
        }
        s.extend(self.noise.iter().map(|(d, k)| (*d, *d + Duration::days(*k))));
        s
    }
}

fn check_chain(s: &BTreeSet<Period>, o: &mut Obs) -> Res {
    let got = consecutive_periods(s);
    let want = ref_chain(s);
    o.nt(want.len() > 1);
    o.label(want.len() > 4, "chain of more than four");
    o.label(want.len() < s.len(), "periods left out");
    o.label(want.len() == 100, "a hundred periods");
    ensure(got == want, || format!("the consecutive chain of {s:?} is {got:?}, expected {want:?}"))?;
    let v: Vec<Period> = got.into_iter().collect();
    ensure(v.windows(2).all(|w| w[0].1 == w[1].0), || format!("chain {v:?} has a gap or overlap"))
}

pub fn c32() -> Prop {
    Prop {
        id: "C32",
        rule: "every day of 2019 to 2024 as latest end date of quarters and years, and sets of 0 to 120 periods made of chains of quarters and years, half years, periods a day off, removed links and unrelated periods; non-trivial: a chain of two or more",
        laws: vec![
            enum_law(
                "every latest end date of six years",
                |_| 2192 * 3,
                |i| (ymd(2019, 1, 1) + Duration::days((i / 3) as i64), (i % 3) as u8),
                |&(last, how): &(D, u8), o| {
                    let steps = match how {
                        0 => vec![true; 9],
                        1 => vec![false; 4],
                        _ => vec![true, false, true, true, false],
                    };
                    let c = Chain { last, steps, also: vec![], drop: vec![], noise: vec![] };
                    let s = c.periods();
                    check_chain(&s, o)?;
                    ensure(consecutive_periods(&s) == s, || format!("the chain of {s:?} leaves some out"))
                },
            ),
            law("sets of periods", 150_000, 5_000_000, chain, |c: &Chain, o| check_chain(&c.periods(), o)),
            law(
                "periods between dates of a few kinds",
                60_000,
                2_000_000,
                || {
                    // month ends, the same day of the month, and a free date, of a few years
                    let end = (2018i32..=2021, 1u32..=12, Just(31u32));
                    let same = (2018i32..=2021, proptest::sample::select(vec![2u32, 3, 6, 9, 11, 12]), 28u32..=31);
                    let d = prop_oneof![
                        4 => same.prop_map(|(y, m, d)| ymd(y, m, d)),
                        2 => end.prop_map(|(y, m, d)| ymd(y, m, d)),
                        1 => date_in(1850, 2150),
                    ];
                    let back = proptest::sample::select(vec![3i32, 3, 12, 12, 6, 0, -3]);
                    proptest::collection::vec((d, back, 28u32..=31, any::<bool>()), 0..=9)
                },
                |v: &Vec<(D, i32, u32, bool)>, o| {
                    let mut s = BTreeSet::new();
                    let mut end = None;
                    for &(d, back, day, go_on) in v {
                        let e = match end {
                            Some(e) if go_on => e,
                            _ => d,
                        };
                        let b = minus_months(e, back, day);
                        s.insert((b, e));
                        end = Some(b);
                    }
                    check_chain(&s, o)
                },
            ),
            law(
                "accounts restricted to the chain",
                40_000,
                1_200_000,
                || (acc_kind(Kind::Chain), acc_kind(Kind::Chain)).prop_map(|(a, mut b)| {
                    // cash flows and parameters at their own periods
                    b.dates = a.dates.clone();
                    Acc { cf: b.cf, others: b.others, ..a }
                }),
                |c: &Acc, o| {
                    let (a, m) = c.build();
                    let before = a.clone();
                    let pl = ref_chain(&m.pl.keys().copied().collect());
                    let cf = ref_chain(&m.cf.keys().copied().collect());
                    o.nt(pl.len() > 1 && pl.len() < m.pl.len());
                    o.label(cf.len() > 1, "several cash flows");
                    let got = a.consecutive_profit_loss();
                    same_accounts("accounts of consecutive profit and loss periods", &got, &m.restrict(&pl), true)?;
                    ensure(got.currency == a.currency && got.consolidated == a.consolidated, || "currency or flag changed".to_string())?;
                    let got = a.consecutive_cash_flow();
                    same_accounts("accounts of consecutive cash flow periods", &got, &m.restrict(&cf), true)?;
                    ensure(got.currency == a.currency && got.consolidated == a.consolidated, || "currency or flag changed".to_string())?;
                    ensure(a == before, || "the accounts themselves changed".to_string())
                },
            ),
        ],
    }
}

// ------------------------------------------------------------------ C33 files

fn any_finite() -> BoxedStrategy<f64> {
    prop_oneof![
        4 => money(),
        2 => any::<f64>().prop_filter("finite", |v| v.is_finite()),
        1 => (any::<u64>()).prop_map(f64::from_bits).prop_filter("finite", |v| v.is_finite()),
        1 => proptest::sample::select(vec![f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, -0.0, 0.1, 1.0 / 3.0, 1e21, 1e16, 9007199254740993.0]),
    ]
    .boxed()
}

/** Any set of accounts with amounts of any size, totals included, dates of any year. */
fn acc_wild() -> BoxedStrategy<Acc> {
    (
        acc(),
        proptest::collection::vec(any_finite(), 1..40),
        items(BsType::all().to_vec(), 0..=4),
        items(PlType::all().to_vec(), 0..=4),
        items(CfType::all().to_vec(), 0..=4),
        -250_000i64..=250_000,
        0u8..4,
    )
        .prop_map(|(mut a, v, b, p, c, days, far)| {
            a.bs.iter_mut().for_each(|s| s.1.extend(b.iter().copied()));
            a.pl.iter_mut().for_each(|s| s.2.extend(p.iter().copied()));
            a.cf.iter_mut().for_each(|s| s.2.extend(c.iter().copied()));
            let mut n = 0;
            let mut next = |x: &mut f64| {
                if n % 3 != 2 {
                    *x = v[n % v.len()];
                }
                n += 1;
            };
            a.bs.iter_mut().flat_map(|s| s.1.iter_mut()).for_each(|x| next(&mut x.1));
            a.pl.iter_mut().flat_map(|s| s.2.iter_mut()).for_each(|x| next(&mut x.1));
            a.cf.iter_mut().flat_map(|s| s.2.iter_mut()).for_each(|x| next(&mut x.1));
            a.others.iter_mut().flat_map(|s| s.2.iter_mut()).for_each(|x| next(&mut x.1));
            if far == 0 {
                a.dates.iter_mut().for_each(|d| *d += Duration::days(days));
            }
            a
        })
        .boxed()
}

fn ron_trip<T: Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug>(what: &str, x: &T) -> Result<T, String> {
    let t = ron::to_string(x).map_err(|e| format!("{what}: not written as RON: {e}"))?;
    let y: T = ron::from_str(&t).map_err(|e| format!("{what}: not read back from RON: {e}; {t}"))?;
    ensure(*x == y, || format!("{what}: RON of {x:?} is read back as {y:?}"))?;
    let p = ron::ser::to_string_pretty(x, ron::ser::PrettyConfig::default()).map_err(|e| format!("{what}: {e}"))?;
    let z: T = ron::from_str(&p).map_err(|e| format!("{what}: not read back from pretty RON: {e}"))?;
    ensure(*x == z, || format!("{what}: pretty RON of {x:?} is read back as {z:?}"))?;
    Ok(y)
}

fn json_trip<T: Serialize + serde::de::DeserializeOwned>(what: &str, x: &T) -> Result<T, String> {
    let t = serde_json::to_string(x).map_err(|e| format!("{what}: not written as JSON: {e}"))?;
    serde_json::from_str(&t).map_err(|e| format!("{what}: not read back from JSON: {e}; {t}"))
}

fn close_map<T: Copy + Ord + std::hash::Hash + Eq + std::fmt::Debug>(what: &str, a: &HashMap<T, f64>, b: &HashMap<T, f64>) -> Res {
    let (x, y): (BTreeSet<T>, BTreeSet<T>) = (a.keys().copied().collect(), b.keys().copied().collect());
    ensure(x == y, || format!("{what}: items {x:?} become {y:?}"))?;
    for (k, v) in a {
        same(&format!("{what}: JSON of {k:?}"), b[k], *v, 1e-15 * v.abs() + 1e-322)?;
    }
    Ok(())
}

fn close_opt<T: Copy + Ord + std::hash::Hash + Eq + std::fmt::Debug>(what: &str, a: &Option<HashMap<T, f64>>, b: &Option<HashMap<T, f64>>) -> Res {
    match (a, b) {
        (None, None) => Ok(()),
        (Some(a), Some(b)) => close_map(what, a, b),
        _ => Err(format!("{what}: present {}, read back {}", a.is_some(), b.is_some())),
    }
}

/** The text form of `CompanyReports` and `ValuationModel`, whose fields are partly private. */
#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct CompanyReports {
    param: Param,
    reports: FinancialReport,
    affiliation: HashMap<financelib::valuations::Industry, f64>,
}

#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
struct ValuationModel {
    params: BTreeMap<Period, CompanyReports>,
    shareprice: BTreeMap<D, f64>,
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Model {
    acc: Acc,
    v: Vec<f64>,
    ind: Vec<u8>,
}

pub fn c33() -> Prop {
    Prop {
        id: "C33",
        rule: "sets of accounts of 2 to 9 dates of years 1200 to 2800, all items, currencies and finite amounts from the smallest to the largest, written and read back as a whole and statement by statement; non-trivial: three statements with amounts",
        laws: vec![
            law("accounts", 40_000, 1_200_000, acc_wild, |c: &Acc, o| {
                let (a, m) = c.build();
                let n = m.bs.values().filter(|s| !s.is_empty()).count() + m.pl.values().filter(|s| !s.is_empty()).count();
                o.nt(n >= 3);
                let b = ron_trip("accounts", &a)?;
                // equality item by item, not as the library has it
                ensure(from_accounts(&b) == m, || format!("accounts {m:?} are read back as {:?}", from_accounts(&b)))?;
                ensure(b.currency == a.currency && b.consolidated == a.consolidated, || "currency or consolidation flag changed".to_string())
            }),
            law("reports and statements", 60_000, 1_500_000, acc_wild, |c: &Acc, o| {
                let (_, m) = c.build();
                o.nt(m.pl.values().any(|s| s.len() > 2));
                for p in m.pl.keys() {
                    let r = want_report(&m, *p).expect("report");
                    let b = ron_trip("report", &r)?;
                    ensure(b.period == r.period && b.balance_sheet_beg == r.balance_sheet_beg && b.balance_sheet_end == r.balance_sheet_end && b.profit_loss == r.profit_loss && b.cash_flow == r.cash_flow && b.others == r.others, || format!("report {r:?} is read back as {b:?}"))?;
                    let j = json_trip("report", &r)?;
                    ensure(j.period == r.period, || "JSON: the period changed".to_string())?;
                    close_opt("report, first balance sheet", &r.balance_sheet_beg, &j.balance_sheet_beg)?;
                    close_opt("report, second balance sheet", &r.balance_sheet_end, &j.balance_sheet_end)?;
                    close_opt("report, profit and loss", &r.profit_loss, &j.profit_loss)?;
                    close_opt("report, cash flow", &r.cash_flow, &j.cash_flow)?;
                    close_opt("report, parameters", &r.others, &j.others)?;
                    let parts = [p.0, p.1];
                    for d in parts {
                        if let Some(items) = opt_h(&m.bs, d) {
                            let s = BalanceSheet { date: d, items };
                            ron_trip("balance sheet", &s)?;
                            let j = json_trip("balance sheet", &s)?;
                            ensure(j.date == d, || "JSON: the date changed".to_string())?;
                            close_map("balance sheet", &s.items, &j.items)?;
                        }
                    }
                    if let Some(items) = r.profit_loss.clone() {
                        let s = ProfitLoss { period: *p, items };
                        ron_trip("profit and loss", &s)?;
                        let j = json_trip("profit and loss", &s)?;
                        ensure(j.period == *p, || "JSON: the period changed".to_string())?;
                        close_map("profit and loss", &s.items, &j.items)?;
                    }
                    if let Some(items) = r.cash_flow.clone() {
                        let s = CashFlow { period: *p, items };
                        ron_trip("cash flow", &s)?;
                        let j = json_trip("cash flow", &s)?;
                        ensure(j.period == *p, || "JSON: the period changed".to_string())?;
                        close_map("cash flow", &s.items, &j.items)?;
                    }
                    if let Some(items) = r.others.clone() {
                        let s = FinOthers { period: *p, items };
                        ron_trip("parameters", &s)?;
                        let j = json_trip("parameters", &s)?;
                        ensure(j.period == *p, || "JSON: the period changed".to_string())?;
                        close_map("parameters", &s.items, &j.items)?;
                    }
                }
                Ok(())
            }),
            law(
                "valuation models",
                15_000,
                400_000,
                || {
                    (acc_wild(), proptest::collection::vec(any_finite(), 12), proptest::collection::vec(0u8..9, 0..6))
                        .prop_map(|(acc, v, ind)| Model { acc, v, ind })
                },
                |c: &Model, o| {
                    use financelib::valuations::Industry::*;
                    let all = [General, Automotive, Aerospace, HeavyEngineering, InformationTech, Banking, Metals, Retail, Education];
                    let (_, m) = c.acc.build();
                    let param = Param { unlevered: c.v[0], shield_tax: c.v[1], equity: c.v[2], debt: c.v[3], valuation: c.v[4] };
                    o.nt(!m.pl.is_empty() && !c.ind.is_empty());
                    ron_trip("parameters of a valuation", &param)?;
                    let j = json_trip("parameters of a valuation", &param)?;
                    for (x, y) in [
                        (j.unlevered, param.unlevered),
                        (j.shield_tax, param.shield_tax),
                        (j.equity, param.equity),
                        (j.debt, param.debt),
                        (j.valuation, param.valuation),
                    ] {
                        same("JSON of a parameter", x, y, 1e-15 * y.abs() + 1e-322)?;
                    }
                    let mirror = ValuationModel {
                        params: m
                            .pl
                            .keys()
                            .map(|p| {
                                let affiliation = c.ind.iter().enumerate().map(|(i, k)| (all[*k as usize], c.v[5 + i])).collect();
                                (*p, CompanyReports { param, reports: want_report(&m, *p).expect("report"), affiliation })
                            })
                            .collect(),
                        shareprice: m.bs.keys().map(|d| (*d, c.v[11])).collect(),
                    };
                    let t = ron::to_string(&mirror).map_err(|e| e.to_string())?;
                    let x: financelib::valuations::ValuationModel = ron::from_str(&t).map_err(|e| format!("valuation model not read: {e}"))?;
                    ensure(x.shareprice == mirror.shareprice, || "share prices differ".to_string())?;
                    let y = ron_trip("valuation model", &x)?;
                    let t = ron::to_string(&y).map_err(|e| e.to_string())?;
                    let z: ValuationModel = ron::from_str(&t).map_err(|e| format!("valuation model not read: {e}"))?;
                    ensure(z == mirror, || format!("valuation model {mirror:?} comes back as {z:?}"))
                },
            ),
        ],
    }
}

// ------------------------------------------------------------------ C34 tables

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Table {
    acc: Acc,
    sep: u8,
    mult: u8,
    calc: bool,
}

const SEPS: [&str; 6] = [",", "|", ";", "\t", " | ", "&"];
const MULTS: [f64; 8] = [1.0, 10.0, 1000.0, 1e6, 0.001, 100.0, 1e5, 7.0];

fn table() -> BoxedStrategy<Table> {
    (acc_kind(Kind::Free), acc_taxed(), any::<bool>(), 0u8..6, 0u8..8, proptest::bool::weighted(0.8))
        .prop_map(|(a, b, taxed, sep, mult, calc)| {
            let mut acc = if taxed { b } else { a };
            // whole amounts, so that all totals are too; rates below 100%
            let whole = |v: &mut f64| *v = v.clamp(-1e12, 1e12).round();
            acc.bs.iter_mut().flat_map(|s| s.1.iter_mut()).for_each(|x| whole(&mut x.1));
            acc.pl.iter_mut().flat_map(|s| s.2.iter_mut()).for_each(|x| whole(&mut x.1));
            acc.cf.iter_mut().flat_map(|s| s.2.iter_mut()).for_each(|x| whole(&mut x.1));
            let rate = |v: &mut f64| {
                *v = (*v * 1e4).round() / 1e4;
                if *v < 0.001 || *v >= 1.0 {
                    *v = 0.0;
                }
            };
            acc.others.iter_mut().flat_map(|s| s.2.iter_mut()).for_each(|x| rate(&mut x.1));
            // statements and parameters of profit and loss periods only
            let pl: BTreeSet<(u8, u8)> = acc.pl.iter().map(|p| (p.0, p.1)).collect();
            acc.cf.retain(|c| pl.contains(&(c.0, c.1)));
            acc.others.retain(|c| pl.contains(&(c.0, c.1)));
            Table { acc, sep, mult, calc }
        })
        .boxed()
}

/** One printed section: lines of name and cells, in groups as printed. */
type Row = (String, Vec<String>);

fn rows(lines: &[&str], sep: &str) -> Vec<Row> {
    lines
        .iter()
        .filter(|l| !l.trim().is_empty())
        .map(|l| {
            let mut it = l.split(sep);
            let name = it.next().unwrap_or("").trim().to_string();
            (name, it.map(|c| c.trim().to_string()).collect())
        })
        .collect()
}

fn cell_ok(cell: &str, v: Option<f64>, mult: f64, rate: bool) -> bool {
    let Some(v) = v else { return cell.is_empty() };
    if rate && v != 0.0 {
        return cell.strip_suffix('%').and_then(|c| c.parse::<f64>().ok()).is_some_and(|x| (x / 100.0 - v).abs() <= 0.000_500_1);
    }
    let want = v / mult;
    cell.parse::<f64>().is_ok_and(|x| (x - want).abs() <= 0.5 + 1e-9 * want.abs() + 1e-9 && (x.fract() == 0.0))
}

/** Check the rows of one hierarchy: `col(k)` is the item in every column. */
fn check_rows<T: Copy + PartialEq + std::fmt::Debug>(
    what: &str,
    rows: &[Row],
    groups: &[(T, Vec<T>)],
    col: &dyn Fn(T) -> Vec<Option<f64>>,
    mult: f64,
    rate: bool,
) -> Res {
    let mut names: Vec<T> = vec![];
    for (s, parts) in groups {
        for k in parts.iter().chain([s]) {
            if !names.contains(k) {
                names.push(*k);
            }
        }
    }
    let uses = |k: T| groups.iter().filter(|g| g.1.contains(&k)).count() + groups.iter().filter(|g| g.0 == k).count();
    for (name, cells) in rows {
        let k = names.iter().copied().find(|k| format!("{k:?}") == *name);
        let k = k.ok_or_else(|| format!("{what}: row of {name}, which does not belong there"))?;
        let want = col(k);
        ensure(cells.len() == want.len(), || format!("{what}: row {name} has {} cells, expected {}", cells.len(), want.len()))?;
        for (i, (c, v)) in cells.iter().zip(&want).enumerate() {
            ensure(cell_ok(c, *v, mult, rate), || format!("{what}: {name} in column {i} is {c:?}, the amount is {v:?}, multiple {mult}"))?;
        }
    }
    for &k in &names {
        let n = rows.iter().filter(|r| r.0 == format!("{k:?}")).count();
        let some = col(k).iter().any(|v| v.is_some_and(|v| v != 0.0));
        ensure(n <= uses(k) && (!some || n == uses(k)), || format!("{what}: {n} rows of {k:?}, expected {}", if some { uses(k) } else { 0 }))?;
    }
    // somewhere, the total comes right after its parts
    for (s, parts) in groups {
        let shown = |k: &T| col(*k).iter().any(|v| v.is_some_and(|v| v != 0.0));
        if !shown(s) {
            continue;
        }
        let need: Vec<String> = parts.iter().filter(|k| shown(k)).map(|k| format!("{k:?}")).collect();
        let may: Vec<String> = parts.iter().map(|k| format!("{k:?}")).collect();
        let ok = (0..rows.len()).filter(|i| rows[*i].0 == format!("{s:?}")).any(|i| {
            let mut seen = vec![];
            for r in rows[..i].iter().rev() {
                if !may.contains(&r.0) || seen.contains(&r.0) {
                    break;
                }
                seen.push(r.0.clone());
            }
            need.iter().all(|n| seen.contains(n))
        });
        ensure(ok, || format!("{what}: no row of {s:?} right below {need:?}"))?;
    }
    Ok(())
}

fn groups<T: St>() -> Vec<(T, Vec<T>)> {
    T::sums().iter().map(|(s, p, m)| (*s, p.iter().chain(m.iter()).copied().collect())).collect()
}

fn month(d: D) -> String {
    format!("{}-{:02}", d.year(), d.month())
}

/** Parse the table and compare all of it with the accounts. */
fn check_table(text: &str, sep: &str, a: &Accounts, mult: Option<f64>) -> Result<f64, String> {
    let m = from_accounts(a);
    let lines: Vec<&str> = text.lines().collect();
    let titles = [
        "BALANCE SHEETS",
        "PROFIT LOSS - ANNUAL",
        "CASH FLOW - ANNUAL",
        "PROFIT LOSS - QUARTERLY",
        "CASH FLOW - QUARTERLY",
    ];
    let at: Vec<Option<usize>> = titles.iter().map(|t| lines.iter().position(|l| l.trim() == *t)).collect();
    let section = |i: usize| -> Result<&[&str], String> {
        let b = at[i].ok_or_else(|| format!("no section {}", titles[i]))?;
        let e = at.iter().flatten().copied().filter(|x| *x > b).min().unwrap_or(lines.len());
        Ok(&lines[b + 1..e])
    };
    // heading
    let head = lines.iter().take(at[0].unwrap_or(0)).find(|l| !l.trim().is_empty()).ok_or("no heading")?;
    let words: Vec<&str> = head.split(sep).map(|w| w.trim()).collect();
    ensure(words.len() == 3 && words[1] == format!("{:?}", a.currency), || format!("heading {head:?}"))?;
    let stated: f64 = words[2].parse().map_err(|_| format!("multiple in heading {head:?}"))?;
    if let Some(mult) = mult {
        same("multiple in the heading", stated, mult, 1e-12 * mult)?;
    }
    let heading = |what: &str, rows: &[Row], want: Vec<(&str, Vec<String>)>| -> Res {
        ensure(rows.len() >= want.len(), || format!("{what}: no headings"))?;
        for (r, w) in rows.iter().zip(&want) {
            ensure(r.0 == w.0 && r.1 == w.1, || format!("{what}: heading {r:?}, expected {w:?}"))?;
        }
        Ok(())
    };
    let bs = rows(section(0)?, sep);
    heading("balance sheets", &bs, vec![("Date", m.bs.keys().map(|d| month(*d)).collect())])?;
    let col = |k: BsType| m.bs.values().map(|s| Some(get(s, k))).collect::<Vec<_>>();
    check_rows("balance sheets", &bs[1..], &groups::<BsType>(), &col, stated, false)?;
    let (long, short): (Vec<Period>, Vec<Period>) =
        m.pl.keys().partition(|p| p.1.signed_duration_since(p.0).num_days() > 120);
    ensure(at[3].is_some() == !short.is_empty() && at[4].is_some() == !short.is_empty(), || {
        format!("quarterly sections with {} short periods: {:?}", short.len(), at)
    })?;
    for (ps, pi, ci, name) in [(&long, 1, 2, "annual"), (&short, 3, 4, "quarterly")] {
        if at[pi].is_none() {
            continue;
        }
        let want = || {
            vec![
                ("Begin Date", ps.iter().map(|p| month(p.0)).collect()),
                ("End Date", ps.iter().map(|p| month(p.1)).collect()),
            ]
        };
        let what = format!("{name} profit and loss");
        let r = rows(section(pi)?, sep);
        heading(&what, &r, want())?;
        // tax rates follow the statement
        let is_rate = |n: &str| RATES.iter().any(|k| format!("{k:?}") == n);
        let (tax, pl): (Vec<Row>, Vec<Row>) = r[2..].iter().cloned().partition(|x| is_rate(&x.0));
        let col = |k: PlType| ps.iter().map(|p| m.pl.get(p).map(|s| get(s, k))).collect::<Vec<_>>();
        check_rows(&what, &pl, &groups::<PlType>(), &col, stated, false)?;
        let col = |k: FinOthersTyp| {
            ps.iter().map(|p| m.others.get(p).map(|s| s.get(&k).copied().unwrap_or(0.0))).collect::<Vec<_>>()
        };
        let g = vec![(RATES[2], vec![RATES[0], RATES[1]])];
        check_rows(&format!("{name} tax rates"), &tax, &g, &col, 1.0, true)?;
        let what = format!("{name} cash flow");
        let r = rows(section(ci)?, sep);
        heading(&what, &r, want())?;
        let col = |k: CfType| ps.iter().map(|p| m.cf.get(p).map(|s| get(s, k))).collect::<Vec<_>>();
        check_rows(&what, &r[2..], &groups::<CfType>(), &col, stated, false)?;
    }
    Ok(stated)
}

struct Scratch(std::path::PathBuf);

impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_file(&self.0);
    }
}

fn scratch() -> Scratch {
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let n = N.fetch_add(1, Ordering::Relaxed);
    Scratch(std::env::temp_dir().join(format!("fincheck-{}-{n}.csv", std::process::id())))
}

fn prepared(c: &Table) -> Accounts {
    let (mut a, _) = c.acc.build();
    if c.calc {
        a.calc_elements();
    }
    a
}

pub fn c34() -> Prop {
    Prop {
        id: "C34",
        rule: "sets of accounts of 2 to 9 dates with whole amounts up to 1e12 and rates below 100%, calculated or not, annual and quarterly, six separators and eight multiples; the text is parsed and every cell compared; non-trivial: ten or more amounts shown",
        laws: vec![
            law("tables", 40_000, 1_000_000, table, |c: &Table, o| {
                let a = prepared(c);
                let m = from_accounts(&a);
                let n: usize = m.bs.values().map(|s| s.len()).sum::<usize>() + m.pl.values().map(|s| s.len()).sum::<usize>();
                o.nt(n >= 10);
                let (l, s) = a.split_periods();
                o.label(!l.is_empty() && !s.is_empty(), "annual and quarterly");
                o.label(m.pl.len() > 3, "more than three periods");
                let (sep, mult) = (SEPS[c.sep as usize % SEPS.len()], MULTS[c.mult as usize % MULTS.len()]);
                let t = a.format_table(sep, mult);
                check_table(&t, sep, &a, Some(mult)).map(|_| ())
            }),
            law("plain display", 25_000, 600_000, table, |c: &Table, o| {
                let a = prepared(c);
                o.nt(a.balance_sheet.values().any(|s| s.len() > 4));
                let t = a.to_string();
                let mult = check_table(&t, "|", &a, None)?;
                let e = mult.log10() / 3.0;
                ensure((e - e.round()).abs() < 1e-9, || format!("multiple {mult} is no power of 1000"))?;
                ensure(t == a.format_table("|", mult), || format!("display differs from the table with bars and {mult}"))
            }),
            law("exported files", 4_000, 60_000, table, |c: &Table, o| {
                let a = prepared(c);
                o.nt(a.balance_sheet.values().any(|s| s.len() > 4));
                let f = scratch();
                // a longer file there before is replaced
                let old = "x".repeat(if c.sep < 3 { 20_000 } else { 0 });
                if !old.is_empty() {
                    std::fs::write(&f.0, old).map_err(|e| format!("scratch file: {e}"))?;
                }
                a.to_csv(f.0.to_str().ok_or("scratch path")?);
                let t = std::fs::read_to_string(&f.0).map_err(|e| format!("no file was written: {e}"))?;
                check_table(&t, ",", &a, Some(1.0))?;
                ensure(t == a.format_table(",", 1.0), || "the file differs from the table with commas and multiple 1".to_string())
            }),
        ],
    }
}
