//! C23..C28: single statements: entry, totals, double entry, cleaning, cash flow, tax.

use crate::gens::*;
use crate::hier::*;
use crate::infra::*;
use financelib::statements::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize, de::DeserializeOwned};
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;
use std::hash::Hash;

pub type M<T> = BTreeMap<T, f64>;
pub type H<T> = HashMap<T, f64>;
pub type Sums<T> = &'static [(T, &'static [T], &'static [T])];

/** A kind of statement, as the reference model knows it. */
pub trait St: Copy + Eq + Ord + Hash + Debug + Serialize + DeserializeOwned + Send + Sync + 'static {
    const NAME: &'static str;
    fn all() -> &'static [Self];
    fn sums() -> Sums<Self>;
    fn base() -> Self;
    fn is_total(self) -> bool {
        Self::sums().iter().any(|s| s.0 == self)
    }
    fn entered() -> Vec<Self> {
        Self::all().iter().copied().filter(|k| !k.is_total()).collect()
    }
    fn totals() -> Vec<Self> {
        Self::sums().iter().map(|s| s.0).collect()
    }
}

impl St for BsType {
    const NAME: &'static str = "balance sheet";
    fn all() -> &'static [Self] {
        BS_ALL
    }
    fn sums() -> Sums<Self> {
        BS_SUMS
    }
    fn base() -> Self {
        BsType::Assets
    }
}
impl St for PlType {
    const NAME: &'static str = "profit and loss";
    fn all() -> &'static [Self] {
        PL_ALL
    }
    fn sums() -> Sums<Self> {
        PL_SUMS
    }
    fn base() -> Self {
        PlType::Revenue
    }
}
impl St for CfType {
    const NAME: &'static str = "cash flow";
    fn all() -> &'static [Self] {
        CF_ALL
    }
    fn sums() -> Sums<Self> {
        CF_SUMS
    }
    fn base() -> Self {
        CfType::NetCashFlow
    }
}

pub fn get<T: St>(m: &M<T>, k: T) -> f64 {
    m.get(&k).copied().unwrap_or(0.0)
}

/** All totals of the entered items, ignoring any totals in the map. */
pub fn ref_totals<T: St>(m: &M<T>) -> M<T> {
    let mut t: M<T> = M::new();
    for (k, plus, minus) in T::sums() {
        let v = |x: &T| if x.is_total() { get(&t, *x) } else { get(m, *x) };
        let s = plus.iter().map(v).sum::<f64>() - minus.iter().map(v).sum::<f64>();
        t.insert(*k, s);
    }
    t
}

/** Entered items and totals. */
pub fn ref_calc<T: St>(m: &M<T>) -> M<T> {
    let mut r: M<T> = m.iter().filter(|p| !p.0.is_total()).map(|(k, v)| (*k, *v)).collect();
    r.extend(ref_totals(m));
    r
}

/** Entered items and totals as a calculated statement holds them: without negligible totals. */
pub fn calculated<T: St>(m: &M<T>) -> M<T> {
    let mut r = ref_calc(m);
    r.retain(|k, v| !k.is_total() || v.abs() > 1e-5);
    r
}

/** Totals of at most 1e-5 are dropped, so totals of totals may be off by a few of those. */
pub fn calc_tol<T: St>(m: &M<T>) -> f64 {
    2.5e-4 + 1e-13 * m.iter().filter(|p| !p.0.is_total()).map(|p| p.1.abs()).sum::<f64>()
}

pub fn to_h<T: St>(m: &M<T>) -> H<T> {
    m.iter().map(|(k, v)| (*k, *v)).collect()
}

pub fn to_m<T: St>(h: &H<T>) -> M<T> {
    h.iter().map(|(k, v)| (*k, *v)).collect()
}

pub fn value_of<T: St>(h: &H<T>, k: T) -> f64 {
    h.get(&k).copied().unwrap_or(0.0)
}

/** Every item reads as in the model, within tol for the totals and exactly for entered items. */
pub fn same_items<T: St>(what: &str, h: &H<T>, m: &M<T>, tol: f64) -> Res {
    for &k in T::all() {
        let t = if k.is_total() { tol } else { 0.0 };
        same(&format!("{what}: {} item {k:?}", T::NAME), value_of(h, k), get(m, k), t)?;
    }
    Ok(())
}

/** Amounts: whole, with cents, large, small around the negligible limit, zero. */
pub fn money() -> BoxedStrategy<f64> {
    prop_oneof![
        6 => (-100_000i64..=1_000_000).prop_map(|v| v as f64),
        5 => amount(-2.0, 11.0),
        2 => (-10_000_000i64..=100_000_000).prop_map(|v| v as f64 / 100.0),
        2 => (log_float(-8.0, 0.0), any::<bool>()).prop_map(|(v, s)| if s { -v } else { v }),
        1 => (0.5..2.0f64, any::<bool>()).prop_map(|(v, s)| if s { -1e-5 * v } else { 1e-5 * v }),
        1 => proptest::sample::select(vec![0.0, -0.0, 1e-5, -1e-5, 1.0000001e-5, 9.999999e-6, 1e-4, 0.5, -0.5]),
    ]
    .boxed()
}

pub fn items<T: St>(which: Vec<T>, n: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<(T, f64)>> {
    let of = which.clone();
    (
        proptest::collection::vec((proptest::sample::select(which), money()), n),
        relation(),
    )
        .prop_map(move |(v, r)| related(v, &of, r))
        .boxed()
}

/** How items may hang together, where independent amounts never would. */
pub type Relation = Option<(u8, u16, u16)>;

pub fn relation() -> BoxedStrategy<Relation> {
    proptest::option::weighted(0.3, (0u8..8, any::<u16>(), any::<u16>())).boxed()
}

/** Makes a total come out at zero (or at the negligible limit), or one item equal to another. */
pub fn related<T: St>(mut v: Vec<(T, f64)>, of: &[T], r: Relation) -> Vec<(T, f64)> {
    let Some((how, a, b)) = r else { return v };
    if v.is_empty() {
        return v;
    }
    if how >= 6 {
        let (i, j) = (a as usize % v.len(), b as usize % v.len());
        v[j].1 = if how == 6 { v[i].1 } else { -v[i].1 };
        return v;
    }
    let m = map_of(&v);
    let all = ref_totals(&m);
    // totals which the items contribute to
    let totals: Vec<T> = T::totals().into_iter().filter(|t| get(&all, *t) != 0.0).collect();
    if totals.is_empty() {
        return v;
    }
    let t = totals[a as usize % totals.len()];
    let part = |k: T| get(&ref_totals(&M::from([(k, 1.0)])), t);
    let parts: Vec<(T, f64)> = of.iter().filter(|k| !k.is_total()).map(|k| (*k, part(*k))).filter(|p| p.1 != 0.0).collect();
    if parts.is_empty() {
        return v;
    }
    let (k, sign) = parts[b as usize % parts.len()];
    let aim = match how {
        4 => 0.9e-5,
        5 => -1.1e-5,
        _ => 0.0,
    };
    let x = get(&m, k) + (aim - get(&all, t)) / sign;
    v.push((k, x));
    v
}

pub fn map_of<T: St>(v: &[(T, f64)]) -> M<T> {
    v.iter().copied().collect()
}

// ------------------------------------------------------------------ C23 entry

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum Entry<T> {
    Add(T, f64),
    Set(T, f64),
    AddList(Vec<(T, f64)>),
    SetList(Vec<(T, f64)>),
    AddTotal(T, f64),
    SetTotal(T, f64),
    AddTotalList(T, f64),
    SetTotalList(T, f64),
}

fn entry<T: St>() -> BoxedStrategy<Entry<T>> {
    let one = || (proptest::sample::select(T::entered()), money());
    let tot = || (proptest::sample::select(T::totals()), money());
    prop_oneof![
        8 => one().prop_map(|(k, v)| Entry::Add(k, v)),
        8 => one().prop_map(|(k, v)| Entry::Set(k, v)),
        3 => list((proptest::sample::select(T::entered()), money()), 0, 6, 60).prop_map(Entry::AddList),
        3 => list((proptest::sample::select(T::entered()), money()), 0, 6, 60).prop_map(Entry::SetList),
        1 => tot().prop_map(|(k, v)| Entry::AddTotal(k, v)),
        1 => tot().prop_map(|(k, v)| Entry::SetTotal(k, v)),
        1 => tot().prop_map(|(k, v)| Entry::AddTotalList(k, v)),
        1 => tot().prop_map(|(k, v)| Entry::SetTotalList(k, v)),
    ]
    .boxed()
}

fn entries<T: St>() -> BoxedStrategy<(Vec<(T, f64)>, Vec<Entry<T>>)> {
    // few different items, so that they are hit again
    let few = proptest::collection::vec(proptest::sample::select(T::entered()), 1..5);
    (items(T::all().to_vec(), 0..=8), list(entry::<T>(), 1, 24, 150), few, any::<u64>())
        .prop_map(|(init, mut ops, few, mask)| {
            for (i, op) in ops.iter_mut().enumerate() {
                if mask >> (i % 64) & 1 == 1 {
                    let f = few[i % few.len()];
                    match op {
                        Entry::Add(k, _) | Entry::Set(k, _) => *k = f,
                        Entry::AddList(v) | Entry::SetList(v) => {
                            for (j, x) in v.iter_mut().enumerate() {
                                x.0 = few[(i + j) % few.len()];
                            }
                        }
                        _ => {}
                    }
                }
            }
            // additions which use up what is there
            let mut m = map_of(&init);
            for (i, op) in ops.iter_mut().enumerate() {
                match op {
                    Entry::Add(k, v) => {
                        if (mask >> (i * 5 % 64)) & 7 == 0 {
                            *v = -get(&m, *k);
                        }
                        *m.entry(*k).or_insert(0.0) += *v;
                    }
                    Entry::Set(k, v) => {
                        m.insert(*k, *v);
                    }
                    Entry::AddList(x) => x.iter().for_each(|(k, v)| *m.entry(*k).or_insert(0.0) += v),
                    Entry::SetList(x) => m.extend(x.iter().copied()),
                    _ => {}
                }
            }
            (init, ops)
        })
        .boxed()
}

fn check_entries<T: St>((init, ops): &(Vec<(T, f64)>, Vec<Entry<T>>), o: &mut Obs) -> Res
where
    H<T>: FinMaps<Key = T>,
{
    let mut m = map_of(init);
    let mut h = to_h(&m);
    let mut mag: M<T> = m.iter().map(|(k, v)| (*k, v.abs())).collect();
    let mut seen: BTreeMap<T, usize> = BTreeMap::new();
    for (n, op) in ops.iter().enumerate() {
        let before = h.clone();
        let apply = |m: &mut M<T>, mag: &mut M<T>, k: T, v: f64, add: bool| {
            if add {
                *m.entry(k).or_insert(0.0) += v;
                *mag.entry(k).or_insert(0.0) += v.abs();
            } else {
                m.insert(k, v);
                mag.insert(k, v.abs());
            }
        };
        let refused = |r: Result<(), String>, h: &H<T>| -> Res {
            ensure(r.is_err(), || format!("step {n}, {op:?}: a total was entered"))?;
            ensure(*h == before, || format!("step {n}, {op:?}: refused, but the statement changed"))
        };
        match op {
            Entry::Add(k, v) => {
                h.add(*k, *v);
                apply(&mut m, &mut mag, *k, *v, true);
                *seen.entry(*k).or_insert(0) += 1;
            }
            Entry::Set(k, v) => {
                h.upsert(*k, *v);
                apply(&mut m, &mut mag, *k, *v, false);
                *seen.entry(*k).or_insert(0) += 1;
            }
            Entry::AddList(x) => {
                h.add_vec(x);
                for (k, v) in x {
                    apply(&mut m, &mut mag, *k, *v, true);
                    *seen.entry(*k).or_insert(0) += 1;
                }
            }
            Entry::SetList(x) => {
                h.upsert_vec(x);
                for (k, v) in x {
                    apply(&mut m, &mut mag, *k, *v, false);
                    *seen.entry(*k).or_insert(0) += 1;
                }
            }
            Entry::AddTotal(k, v) => refused(guard(|| { h.add(*k, *v); }), &h)?,
            Entry::SetTotal(k, v) => refused(guard(|| { h.upsert(*k, *v); }), &h)?,
            Entry::AddTotalList(k, v) => refused(guard(|| { h.add_vec(&vec![(*k, *v)]); }), &h)?,
            Entry::SetTotalList(k, v) => refused(guard(|| { h.upsert_vec(&vec![(*k, *v)]); }), &h)?,
        }
        for &k in T::all() {
            let tol = 1e-14 * get(&mag, k);
            same(&format!("step {n}, {op:?}: {} item {k:?}", T::NAME), h.value(k), get(&m, k), tol)?;
        }
    }
    o.nt(seen.values().any(|c| *c > 1));
    o.label(seen.values().any(|c| *c > 1), "an item entered more than once");
    o.label(ops.len() > 12, "more than 12 steps");
    Ok(())
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub enum AnyItem {
    Bs(BsType),
    Pl(PlType),
    Cf(CfType),
}

fn any_item(i: u64) -> AnyItem {
    let (a, b) = (BS_ALL.len() as u64, PL_ALL.len() as u64);
    if i < a {
        AnyItem::Bs(BS_ALL[i as usize])
    } else if i < a + b {
        AnyItem::Pl(PL_ALL[(i - a) as usize])
    } else {
        AnyItem::Cf(CF_ALL[(i - a - b) as usize])
    }
}

fn n_items() -> u64 {
    (BS_ALL.len() + PL_ALL.len() + CF_ALL.len()) as u64
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        rule: "histories of 1 to 24 additions, replacements, lists and refused totals on statements of the three kinds, every item compared with a map after each step; non-trivial: an item entered more than once",
        laws: vec![
            enum_law("which items are totals", |_| n_items(), any_item, |c: &AnyItem, o| {
                o.nt(true);
                let (got, want) = match *c {
                    AnyItem::Bs(k) => (FinType::is_calc(k), k.is_total()),
                    AnyItem::Pl(k) => (FinType::is_calc(k), k.is_total()),
                    AnyItem::Cf(k) => (FinType::is_calc(k), k.is_total()),
                };
                ensure(got == want, || format!("{c:?}: calculated is {got}, the hierarchy says {want}"))
            }),
            law("balance sheet entries", 120_000, 4_000_000, entries::<BsType>, check_entries::<BsType>),
            law("profit and loss entries", 120_000, 4_000_000, entries::<PlType>, check_entries::<PlType>),
            law("cash flow entries", 120_000, 4_000_000, entries::<CfType>, check_entries::<CfType>),
        ],
    }
}

// ------------------------------------------------------------------ C24 totals

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Filled<T> {
    entered: Vec<(T, f64)>,
    stale: Vec<(T, f64)>,
}

fn filled<T: St>() -> BoxedStrategy<Filled<T>> {
    let n = T::entered().len();
    prop_oneof![
        3 => items(T::entered(), 1..=8),
        4 => items(T::entered(), 5..=30),
        2 => items(T::entered(), 40..=n * 3),
    ]
    .prop_flat_map(|entered| (Just(entered), prop_oneof![1 => Just(vec![]), 1 => items(T::totals(), 1..=8)]))
    .prop_map(|(entered, stale)| Filled { entered, stale })
    .boxed()
}

/** Some item with an amount contributes to the total. */
fn touched<T: St>(m: &M<T>, t: T) -> bool {
    let (_, plus, minus) = T::sums().iter().find(|s| s.0 == t).expect("total");
    plus.iter().chain(*minus).any(|k| if k.is_total() { touched(m, *k) } else { get(m, *k).abs() > 1e-4 })
}

fn check_totals<T: St>(c: &Filled<T>, o: &mut Obs) -> Res
where
    H<T>: FinMaps<Key = T>,
{
    let m = map_of(&c.entered);
    let mut start = m.clone();
    start.extend(c.stale.iter().copied());
    let want = ref_calc(&m);
    let tol = calc_tol(&m);
    o.nt(m.len() > 1 && m.values().any(|v| v.abs() >= 0.01));
    o.label(!c.stale.is_empty(), "stale totals");
    o.label(m.len() > 15, "more than 15 items");
    o.label(ref_totals(&m).iter().any(|(t, v)| v.abs() <= 1e-5 && touched(&m, *t)), "a total of items that cancel");
    let mut h = to_h(&start);
    h.calc_elements();
    same_items("calculated", &h, &want, tol)?;
    for k in h.keys() {
        ensure(k.is_total() || m.contains_key(k), || format!("calculating entered {k:?}"))?;
    }
    let mut again = h.clone();
    again.calc_elements();
    same_items("calculated again", &again, &to_m(&h), 1e-9 * tol)?;
    let mut fresh = to_h(&m);
    fresh.calc_elements();
    same_items("with totals left over", &h, &to_m(&fresh), 1e-9 * tol)
}

fn check_single(c: &AnyItem, o: &mut Obs) -> Res {
    fn one<T: St>(k: T, o: &mut Obs) -> Res
    where
        H<T>: FinMaps<Key = T>,
    {
        o.nt(!k.is_total());
        for v in [1000.0, -0.25, 3e9] {
            let m: M<T> = M::from([(k, v)]);
            let mut h = to_h(&m);
            h.calc_elements();
            // a total on its own is stale data
            same_items(&format!("only {k:?} = {v}"), &h, &ref_calc(&m), calc_tol(&m))?;
        }
        Ok(())
    }
    match *c {
        AnyItem::Bs(k) => one(k, o),
        AnyItem::Pl(k) => one(k, o),
        AnyItem::Cf(k) => one(k, o),
    }
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        rule: "every item alone, and statements of 1 to 100 entries with and without totals left over, calculated once and twice and compared with sums over an independent hierarchy; non-trivial: more than one item, one of a cent or more",
        laws: vec![
            enum_law("every item alone", |_| n_items(), any_item, check_single),
            law("balance sheets", 200_000, 6_000_000, filled::<BsType>, check_totals::<BsType>),
            law("profit and loss statements", 200_000, 6_000_000, filled::<PlType>, check_totals::<PlType>),
            law("cash flow statements", 200_000, 6_000_000, filled::<CfType>, check_totals::<CfType>),
        ],
    }
}

// ------------------------------------------------------------------ C25 double entry

/** +1 where a debit increases the account. */
pub fn debit_sign(k: BsType) -> f64 {
    fn contains(sums: Sums<BsType>, top: BsType, k: BsType) -> Option<f64> {
        let (_, plus, minus) = sums.iter().find(|s| s.0 == top)?;
        for (list, sign) in [(plus, 1.0), (minus, -1.0)] {
            for &x in list.iter() {
                if x == k {
                    return Some(sign);
                }
                if let Some(s) = contains(sums, x, k) {
                    return Some(sign * s);
                }
            }
        }
        None
    }
    if let Some(s) = contains(BS_SUMS, BsType::Assets, k) {
        s
    } else if let Some(s) = contains(BS_SUMS, BsType::Liabilities, k).or(contains(BS_SUMS, BsType::Equity, k)) {
        -s
    } else {
        0.0
    }
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct Ledger {
    start: Vec<(BsType, f64)>,
    trans: Vec<(BsType, BsType, f64)>,
    calc_first: bool,
}

fn ledger() -> BoxedStrategy<Ledger> {
    let acc = || proptest::sample::select(BsType::entered());
    (
        items(BsType::entered(), 0..=20),
        list((acc(), acc(), money()), 1, 29, 300),
        any::<bool>(),
        0u8..10,
        any::<proptest::sample::Index>(),
    )
        .prop_map(|(start, mut trans, calc_first, how, at)| {
            let i = at.index(trans.len());
            let t = trans[i];
            match how {
                0 | 1 => trans[i].1 = t.0,
                // the same entry again, at once and at the end; reversed; with the other sign
                2 => trans.insert(i, t),
                3 => trans.push(t),
                4 => trans.insert(i + 1, (t.1, t.0, t.2)),
                5 => trans.insert(i, (t.0, t.1, -t.2)),
                // the balance of the account debited, or credited, is used up
                6 | 7 => {
                    let k = if how == 6 { t.0 } else { t.1 };
                    let mut b = get(&map_of(&start), k);
                    for x in &trans[..i] {
                        b += x.2 * debit_sign(k) * ((x.0 == k) as i32 - (x.1 == k) as i32) as f64;
                    }
                    trans[i].2 = if how == 6 { -b * debit_sign(k) } else { b * debit_sign(k) };
                }
                _ => {}
            }
            Ledger { start, trans, calc_first }
        })
        .boxed()
}

fn check_pair(&(d, c): &(BsType, BsType), o: &mut Obs) -> Res {
    o.nt(d != c);
    let v = 128.0;
    let h0 = H::from([(d, 4.0), (c, 1024.0)]);
    let mut h = h0.clone();
    h.debit(d, v);
    same(&format!("debit of {v} to {d:?}"), value_of(&h, d), value_of(&h0, d) + v * debit_sign(d), 0.0)?;
    let mut h = h0.clone();
    h.credit(c, v);
    same(&format!("credit of {v} to {c:?}"), value_of(&h, c), value_of(&h0, c) - v * debit_sign(c), 0.0)?;
    let mut h = h0.clone();
    h.transact((d, c, v));
    let mut m = to_m(&h0);
    *m.entry(d).or_insert(0.0) += v * debit_sign(d);
    *m.entry(c).or_insert(0.0) -= v * debit_sign(c);
    same_items(&format!("debit {d:?}, credit {c:?}"), &h, &m, 0.0)?;
    let mut a = h0.clone();
    a.calc_elements();
    h.calc_elements();
    same(
        &format!("balance check after debit {d:?}, credit {c:?}"),
        value_of(&h, BsType::BalanceSheetCheck),
        value_of(&a, BsType::BalanceSheetCheck),
        1e-9,
    )
}

pub fn c25() -> Prop {
    let e = BsType::entered();
    let n = e.len() as u64;
    Prop {
        id: "C25",
        rule: "every pair of debited and credited account, and series of 1 to 29 transactions on balance sheets of up to 20 items, compared with signed sums per account; non-trivial: two different accounts",
        laws: vec![
            enum_law("every pair of accounts", move |_| n * n, move |i| (e[(i / n) as usize], e[(i % n) as usize]), check_pair),
            law("series of transactions", 300_000, 8_000_000, ledger, |c: &Ledger, o| {
                let m0 = map_of(&c.start);
                let mut h = to_h(&m0);
                if c.calc_first {
                    h.calc_elements();
                }
                let h0 = h.clone();
                let mut m = m0.clone();
                let mut mag: f64 = m0.values().map(|v| v.abs()).sum();
                for &(d, k, v) in &c.trans {
                    *m.entry(d).or_insert(0.0) += v * debit_sign(d);
                    *m.entry(k).or_insert(0.0) -= v * debit_sign(k);
                    mag += 2.0 * v.abs();
                }
                let tol = 1e-13 * mag;
                o.nt(c.trans.iter().any(|t| t.0 != t.1 && t.2 != 0.0));
                o.label(c.trans.len() > 10, "more than 10 transactions");
                o.label(c.trans.iter().any(|t| debit_sign(t.0) != debit_sign(t.1)), "debit and credit of different sides");
                let reads = |what: &str, h: &H<BsType>, m: &M<BsType>| -> Res {
                    for k in BsType::entered() {
                        same(&format!("{what}: {k:?}"), h.value(k), get(m, k), tol)?;
                    }
                    for k in BsType::totals() {
                        // totals are stale until the next calculation
                        same(&format!("{what}: {k:?}"), h.value(k), value_of(&h0, k), 0.0)?;
                    }
                    Ok(())
                };
                let mut s = h.clone();
                s.transact_series(c.trans.clone());
                reads("series", &s, &m)?;
                for &t in &c.trans {
                    h.transact(t);
                }
                reads("one by one", &h, &m)?;
                let mut by = h0.clone();
                for &(d, k, v) in &c.trans {
                    by.debit(d, v);
                    by.credit(k, v);
                }
                reads("debits and credits", &by, &m)?;
                let (mut a, mut b) = (h0.clone(), s.clone());
                a.calc_elements();
                b.calc_elements();
                same(
                    "assets less liabilities and equity",
                    b.value(BsType::BalanceSheetCheck),
                    a.value(BsType::BalanceSheetCheck),
                    5e-4 + 4.0 * tol,
                )?;
                // and back
                let back: Vec<_> = c.trans.iter().map(|&(d, k, v)| (k, d, v)).collect();
                s.transact_series(back);
                reads("transactions and their reverses", &s, &m0)
            }),
        ],
    }
}

// ------------------------------------------------------------------ C26 cleaning, common size

fn check_clean<T: St>(c: &Filled<T>, o: &mut Obs) -> Res
where
    H<T>: FinMaps<Key = T>,
{
    let mut m = map_of(&c.entered);
    m.extend(c.stale.iter().copied());
    o.nt(m.values().any(|v| v.abs() <= 1e-5) && m.values().any(|v| v.abs() > 1e-5));
    o.label(m.values().any(|v| v.abs() <= 1e-5), "negligible items");
    o.label(!c.stale.is_empty(), "totals present");
    let h = to_h(&m);
    let big = |v: &f64| v.abs() > 1e-5;
    let mut a = h.clone();
    a.clean();
    let want: H<T> = m.iter().filter(|p| big(p.1)).map(|(k, v)| (*k, *v)).collect();
    ensure(a == want, || format!("cleaned: {:?}, expected {:?}", to_m(&a), to_m(&want)))?;
    let mut b = h.clone();
    b.remove_calc_clean();
    let want: H<T> = m.iter().filter(|p| big(p.1) && !p.0.is_total()).map(|(k, v)| (*k, *v)).collect();
    ensure(b == want, || format!("cleaned of totals: {:?}, expected {:?}", to_m(&b), to_m(&want)))?;
    // totals come back
    let mut full = h.clone();
    full.calc_elements();
    let totals = to_m(&full);
    full.remove_calc_clean();
    full.calc_elements();
    let tol = 2e-3 + calc_tol(&m);
    for k in T::totals() {
        same(&format!("{k:?} after removing totals and calculating"), value_of(&full, k), get(&totals, k), tol)?;
    }
    Ok(())
}

fn check_common<T: St>(c: &Filled<T>, o: &mut Obs) -> Res
where
    H<T>: FinMaps<Key = T>,
{
    let mut h = to_h(&map_of(&c.entered));
    h.calc_elements();
    let m = to_m(&h);
    let base = get(&m, T::base());
    if base.abs() < 1e-3 {
        return Ok(());
    }
    o.nt(m.len() > 2);
    o.label(base < 0.0, "negative base");
    let s = h.common_size();
    ensure(h == to_h(&m), || "the statement itself changed".to_string())?;
    ensure(s.len() == m.len(), || format!("{} items become {}", m.len(), s.len()))?;
    for (k, v) in &m {
        let got = s.get(k).copied().ok_or_else(|| format!("{k:?} is gone"))?;
        let want = v / base;
        same(&format!("common size of {k:?}, {v} of {base}"), got, want, 4e-15 * want.abs())?;
    }
    same("common size of the base", value_of(&s, T::base()), 1.0, 4e-15)
}

pub fn c26() -> Prop {
    Prop {
        id: "C26",
        rule: "statements of the three kinds with amounts around the negligible limit of 1e-5 and with totals; sets of accounts of several statements; non-trivial: negligible and other items together (cleaning), more than two items (common size)",
        laws: vec![
            law("cleaning balance sheets", 150_000, 4_000_000, filled::<BsType>, check_clean::<BsType>),
            law("cleaning profit and loss statements", 150_000, 4_000_000, filled::<PlType>, check_clean::<PlType>),
            law("cleaning cash flow statements", 150_000, 4_000_000, filled::<CfType>, check_clean::<CfType>),
            law("common size balance sheets", 100_000, 3_000_000, filled::<BsType>, check_common::<BsType>),
            law("common size profit and loss statements", 100_000, 3_000_000, filled::<PlType>, check_common::<PlType>),
            law("common size cash flow statements", 100_000, 3_000_000, filled::<CfType>, check_common::<CfType>),
            law("cleaning sets of accounts", 60_000, 1_500_000, || (crate::accts::acc(), any::<bool>()), |(c, calced): &(crate::accts::Acc, bool), o| {
                let (mut a, m) = c.build();
                if *calced {
                    crate::accts::leave_totals(&mut a, &m);
                }
                o.label(*calced, "with totals");
                let neg = |v: &f64| v.abs() <= 1e-5;
                o.nt(m.bs.values().flat_map(|s| s.values()).chain(m.cf.values().flat_map(|s| s.values())).any(neg));
                a.remove_calc_clean();
                let mut want = m.clone();
                for s in want.bs.values_mut() {
                    s.retain(|k, v| !k.is_total() && !neg(v));
                }
                for s in want.pl.values_mut() {
                    s.retain(|k, v| !k.is_total() && !neg(v));
                }
                for s in want.cf.values_mut() {
                    s.retain(|k, v| !k.is_total() && !neg(v));
                }
                crate::accts::same_accounts("cleaned of totals", &a, &want, true)
            }),
        ],
    }
}

// ------------------------------------------------------------------ C27 cash flow

/** Cash flow lines (entered ones) from two balance sheets and a profit and loss statement. */
pub fn ref_cash_flow(b0: &M<BsType>, b1: &M<BsType>, pl: &M<PlType>) -> M<CfType> {
    let mut cf = M::new();
    for (k, plus, minus) in CF_FROM_BS {
        let d = |x: &BsType| get(b1, *x) - get(b0, *x);
        cf.insert(*k, plus.iter().map(d).sum::<f64>() - minus.iter().map(d).sum::<f64>());
    }
    for (k, plus, minus) in CF_FROM_PL {
        let v = |x: &PlType| get(pl, *x);
        cf.insert(*k, plus.iter().map(v).sum::<f64>() - minus.iter().map(v).sum::<f64>());
    }
    cf
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TwoSheets {
    b0: Vec<(BsType, f64)>,
    b1: Vec<(BsType, f64)>,
    plug: BsType,
    pl: Vec<(PlType, f64)>,
    rates: (f64, f64, f64),
    calc: bool,
}

fn two_sheets() -> BoxedStrategy<TwoSheets> {
    (
        items(BsType::entered(), 0..=30),
        items(BsType::entered(), 0..=30),
        prop_oneof![1 => Just(BsType::Cash), 1 => Just(BsType::RetainedEarnings), 2 => proptest::sample::select(BsType::entered())],
        items(PlType::entered(), 0..=25),
        (float_in(0.0, 0.6), float_in(0.0, 0.3), float_in(0.0, 0.2)),
        any::<bool>(),
        any::<bool>(),
    )
        .prop_map(|(b0, b1, plug, pl, rates, calc, over)| {
            // the second balance sheet often continues the first
            let b1 = if over { b0.iter().chain(&b1).copied().collect() } else { b1 };
            TwoSheets { b0, b1, plug, pl, rates, calc }
        })
        .boxed()
}

impl TwoSheets {
    /** Balance both sheets by the plug account. */
    fn balanced(&self) -> (M<BsType>, M<BsType>) {
        let bal = |v: &Vec<(BsType, f64)>| {
            let mut m = map_of(v);
            let gap = get(&ref_totals(&m), BsType::BalanceSheetCheck);
            *m.entry(self.plug).or_insert(0.0) -= gap * debit_sign(self.plug);
            m
        };
        (bal(&self.b0), bal(&self.b1))
    }
}

fn run_cash_flow(b0: &M<BsType>, b1: &M<BsType>, pl: &M<PlType>, r: (f64, f64, f64)) -> H<CfType> {
    let mut cf = calc_cash_flow(&to_h(b0), &to_h(b1), &to_h(pl), r.0, r.1, r.2);
    cf.calc_elements();
    cf
}

pub fn c27() -> Prop {
    let lines = BsType::entered().len() as u64 * 3;
    let pls = PlType::all().len() as u64 * 2;
    Prop {
        id: "C27",
        rule: "every balance sheet item changed alone, every profit and loss item alone, and pairs of balance sheets of 0 to 60 items, balanced through a random account, with profit and loss statements of 0 to 25 items; non-trivial: both cash and other items change",
        laws: vec![
            enum_law(
                "every balance sheet item alone",
                move |_| lines,
                |i| (BsType::entered()[(i / 3) as usize], [250.0, -64.0, 1.5e9][(i % 3) as usize]),
                |&(k, v): &(BsType, f64), o| {
                    o.nt(k != BsType::Cash);
                    let b0 = M::from([(k, 17.0), (BsType::Cash, 3.0)]);
                    let mut b1 = b0.clone();
                    *b1.entry(k).or_insert(0.0) += v;
                    let cf = run_cash_flow(&b0, &b1, &M::new(), (0.3, 0.1, 0.02));
                    let fed: Vec<CfType> = CfType::entered().into_iter().filter(|c| value_of(&cf, *c) != 0.0).collect();
                    if k == BsType::Cash {
                        ensure(fed.is_empty(), || format!("a change of cash feeds {fed:?}"))?;
                    } else {
                        ensure(fed.len() == 1, || format!("a change of {k:?} feeds {fed:?}"))?;
                        same(
                            &format!("net cash flow of a change of {k:?} by {v}"),
                            value_of(&cf, CfType::NetCashFlow),
                            -v * debit_sign(k),
                            1e-3,
                        )?;
                    }
                    let mut want = ref_cash_flow(&b0, &b1, &M::new());
                    want.insert(CfType::CashFlowTaxShield, 0.0);
                    same_items(&format!("a change of {k:?} by {v}"), &cf, &ref_calc(&want), 1e-3)
                },
            ),
            enum_law(
                "every profit and loss item alone",
                move |_| pls,
                |i| (PlType::all()[(i / 2) as usize], [250.0, -64.0][(i % 2) as usize]),
                |&(k, v): &(PlType, f64), o| {
                    let pl = M::from([(k, v)]);
                    let cf = run_cash_flow(&M::new(), &M::new(), &pl, (0.0, 0.0, 0.0));
                    let mut want = ref_cash_flow(&M::new(), &M::new(), &pl);
                    o.nt(want.values().any(|v| *v != 0.0));
                    want.insert(CfType::CashFlowTaxShield, 0.0);
                    same_items(&format!("profit and loss item {k:?} = {v}"), &cf, &ref_calc(&want), 1e-3)?;
                    same(&format!("net cash flow of {k:?} = {v} alone"), value_of(&cf, CfType::NetCashFlow), 0.0, 1e-3)
                },
            ),
            law("balanced sheets", 200_000, 6_000_000, two_sheets, |c: &TwoSheets, o| {
                let (b0, b1) = c.balanced();
                let mut pl = map_of(&c.pl);
                if c.calc {
                    pl = calculated(&pl);
                }
                let (mut x0, mut x1) = (b0.clone(), b1.clone());
                if c.calc {
                    x0 = calculated(&b0);
                    x1 = calculated(&b1);
                }
                let dcash = get(&b1, BsType::Cash) - get(&b0, BsType::Cash);
                let moved = BsType::entered().into_iter().any(|k| k != BsType::Cash && get(&b0, k) != get(&b1, k));
                o.nt(moved && dcash != 0.0);
                o.label(c.calc, "calculated statements");
                o.label(c.plug == BsType::Cash, "balanced through cash");
                o.label(ref_cash_flow(&M::new(), &M::new(), &pl).values().any(|v| *v != 0.0), "interest, dividends or sales");
                let cf = run_cash_flow(&x0, &x1, &pl, c.rates);
                let mag: f64 = b0.values().chain(b1.values()).chain(pl.values()).map(|v| v.abs()).sum();
                let tol = 1e-3 + 1e-12 * mag;
                same("net cash flow against the change in cash", value_of(&cf, CfType::NetCashFlow), dcash, tol)?;
                let mut want = ref_cash_flow(&b0, &b1, &pl);
                want.insert(CfType::CashFlowTaxShield, value_of(&cf, CfType::CashFlowTaxShield));
                let want = ref_calc(&want);
                for &k in CfType::all() {
                    same(&format!("{k:?}"), value_of(&cf, k), get(&want, k), tol)?;
                }
                Ok(())
            }),
        ],
    }
}

// ------------------------------------------------------------------ C28 tax

/** Tax on a calculated profit and loss statement, with `less` subtracted from the earnings. */
pub fn ref_tax(pl: &M<PlType>, ct: f64, gt: f64, mt: f64, less: f64) -> f64 {
    let adj = match pl.get(&PlType::TaxDepreciation) {
        Some(t) => get(pl, PlType::Depreciation) - t,
        None => 0.0,
    };
    let ebt = get(pl, PlType::EBT) + adj + less;
    (ct * ebt + gt * get(pl, PlType::EBITDA)).max(mt * get(pl, PlType::Revenue))
}

#[derive(Debug, Clone, Serialize, Deserialize)]
pub struct TaxCase {
    pl: Vec<(PlType, f64)>,
    b: Vec<(BsType, f64)>,
    rates: (f64, f64, f64),
    calc: bool,
}

pub fn tax_pl() -> BoxedStrategy<Vec<(PlType, f64)>> {
    use PlType::*;
    let pos = |lo: f64, hi: f64| log_float(lo, hi);
    // other items small, so that what follows decides
    let small = proptest::collection::vec((proptest::sample::select(PlType::entered()), amount(0.0, 5.0)), 0..=8);
    (
        prop_oneof![3 => small.boxed(), 1 => items(PlType::entered(), 0..=12)],
        prop_oneof![3 => pos(2.0, 8.0).boxed(), 1 => Just(0.0).boxed()],
        prop_oneof![2 => pos(1.0, 8.0).boxed(), 3 => pos(0.0, 4.0).boxed(), 1 => Just(0.0).boxed()],
        prop_oneof![2 => pos(0.0, 7.0).prop_map(Some).boxed(), 1 => Just(None).boxed()],
        prop_oneof![2 => pos(0.0, 7.0).prop_map(Some).boxed(), 1 => Just(Some(0.0)).boxed(), 3 => Just(None).boxed()],
        prop_oneof![3 => pos(0.0, 7.0).boxed(), 1 => Just(0.0).boxed()],
        prop_oneof![1 => pos(0.0, 6.0).boxed(), 2 => Just(0.0).boxed()],
        relation(),
    )
        .prop_map(|(mut v, rev, cost, dep, tdep, int, debt, rel)| {
            v.retain(|p| p.0 != TaxDepreciation);
            v.push((OperatingRevenue, rev));
            v.push((CostMaterial, cost));
            if let Some(d) = dep {
                v.push((Depreciation, d));
            }
            if let Some(d) = tdep {
                v.push((TaxDepreciation, d));
            }
            v.push((InterestExpense, int));
            v.push((CostDebt, debt));
            // profits which come out at nothing, by way of an item that is not negative here
            let of: Vec<PlType> = PlType::entered().into_iter().filter(|k| ![InterestExpense, CostDebt].contains(k)).collect();
            related(v, &of, rel)
        })
        .boxed()
}

pub fn tax_rates() -> BoxedStrategy<(f64, f64, f64)> {
    let r = |hi: f64| prop_oneof![2 => Just(0.0), 5 => float_in(0.0, hi)].boxed();
    (r(0.6), r(0.3), r(0.2)).boxed()
}

pub fn c28() -> Prop {
    Prop {
        id: "C28",
        rule: "profit and loss statements with revenue, costs, depreciation, tax depreciation and interest in all combinations, rates of 0 to 60%, some missing; sets of accounts with several periods; non-trivial: both taxes positive (tax), interest and a corporate rate (shield)",
        laws: vec![
            law(
                "tax shield is the tax saved by interest",
                300_000,
                8_000_000,
                || {
                    (tax_pl(), items(BsType::entered(), 0..=4), tax_rates(), Just(true))
                        .prop_map(|(pl, b, rates, calc)| TaxCase { pl, b, rates, calc })
                },
                |c: &TaxCase, o| {
                    let pl = calculated(&map_of(&c.pl));
                    let (ct, gt, mt) = c.rates;
                    let int = get(&pl, PlType::InterestExpense) + get(&pl, PlType::CostDebt);
                    if int < 0.0 {
                        return Ok(());
                    }
                    let b = map_of(&c.b);
                    let cf = calc_cash_flow(&to_h(&b), &H::new(), &to_h(&pl), ct, gt, mt);
                    let got = value_of(&cf, CfType::CashFlowTaxShield);
                    let saved = ref_tax(&pl, ct, gt, mt, int) - ref_tax(&pl, ct, gt, mt, 0.0);
                    let mag: f64 = pl.values().map(|v| v.abs()).sum();
                    let tol = 3e-5 + 1e-12 * mag;
                    o.nt(int > 0.0 && ct > 0.0);
                    o.label(saved == 0.0, "nothing saved");
                    o.label(saved > 0.0 && saved < 0.999 * ct * int, "saved in part");
                    o.label(gt > 0.0, "gross-profit rate");
                    o.label(get(&pl, PlType::EBT).abs() <= 1e-5 && int > 1.0, "interest takes all earnings");
                    if within(got, saved, tol) {
                        return Ok(());
                    }
                    // known: the shield takes the gross-profit tax on gross profit, the tax itself
                    // takes it on EBITDA
                    let own = ct
                        * (get(&pl, PlType::EBT)
                            + int
                            + pl.get(&PlType::TaxDepreciation).map_or(0.0, |t| get(&pl, PlType::Depreciation) - t))
                        + gt * get(&pl, PlType::GrossProfit)
                        - mt * get(&pl, PlType::Revenue);
                    let gp = (ct * int).min(own.max(0.0));
                    if gt != 0.0 && within(got, gp, tol) {
                        o.known = Some("shield-gross-profit-base");
                    }
                    same(&format!("tax shield of interest {int} at rates {:?}", c.rates), got, saved, tol)
                },
            ),
            law("tax of sets of accounts", 60_000, 1_500_000, || (crate::accts::acc_taxed(), any::<bool>()), |(c, calced): &(crate::accts::Acc, bool), o| {
                let (mut a, m) = c.build();
                if *calced {
                    crate::accts::leave_totals(&mut a, &m);
                }
                o.label(*calced, "with totals of other data");
                let mut want = m.clone();
                want.calc();
                let mut taxes = BTreeMap::new();
                for (p, s) in &want.pl {
                    let oth = &want.others[p];
                    let r = |k| oth.get(&k).copied().unwrap_or(0.0);
                    let (ct, gt, mt) = (
                        r(FinOthersTyp::CorporateTaxRate),
                        r(FinOthersTyp::GrossProfitTaxRate),
                        r(FinOthersTyp::RevenueTaxRate),
                    );
                    o.nt(ct * get(s, PlType::EBT) > 0.0 && mt * get(s, PlType::Revenue) > 0.0);
                    o.label(ct * get(s, PlType::EBT) + gt * get(s, PlType::EBITDA) < mt * get(s, PlType::Revenue), "minimum tax applies");
                    o.label(s.contains_key(&PlType::TaxDepreciation), "tax depreciation");
                    taxes.insert(*p, ref_tax(s, ct, gt, mt, 0.0));
                }
                a.calc_tax();
                for round in 0..2 {
                    for (p, t) in &taxes {
                        let s = a.profit_loss.get(p).ok_or_else(|| format!("period {p:?} is gone"))?;
                        let tol = 1e-3 + 4.0 * calc_tol(&m.pl[p]);
                        same(&format!("tax of {p:?}, round {round}"), value_of(s, PlType::TaxesCurrent), *t, tol)?;
                    }
                    // nothing else that was entered changes
                    let mut rest = m.clone();
                    for (p, s) in rest.pl.iter_mut() {
                        s.insert(PlType::TaxesCurrent, value_of(&a.profit_loss[p], PlType::TaxesCurrent));
                    }
                    crate::accts::same_entered("after calculating tax", &a, &rest)?;
                    a.calc_tax();
                }
                Ok(())
            }),
        ],
    }
}
