import sys; sys.path.insert(0,'/verif/tools')
from seed_lib import emit
S='statements.rs'; L='lib.rs'; M='fixedincomes/moneymarkets.rs'; B='fixedincomes/bonds.rs'; R='fixedincomes/bonds/rates.rs'
bugs=[]
def bug(id,prop,f,edits,needs,breaks,demo): bugs.append(dict(id=id,prop=prop,edits={f:edits},needs=needs,breaks=breaks,demo=demo))

bug('eu30360-same-month-unadjusted','C01',L,[("""            let lastday = |d| if d == 31 { 30 } else { d };""","""            let whole = (y0, m0) != (y1, m1);
            let lastday = |d| if d == 31 && whole { 30 } else { d };""")],
"European 30/360, both dates in the same month of 31 days, one of them the 31st",
"Within one month day 31 is not taken as day 30.",
"""    close(yearfrac(d(2021, 7, 3), d(2021, 7, 31), DayCountConvention::EU30360), 27.0 / 360.0, 1e-12);""")

bug('eu30360-end-by-us-rule','C02',L,[("""            let lastday = |d| if d == 31 { 30 } else { d };
            day_count_factor(y0, m0, lastday(d0), y1, m1, lastday(d1))""","""            let lastday = |d| if d == 31 { 30 } else { d };
            let d1 = if d0 >= 30 || m1 != 12 { lastday(d1) } else { d1 };
            day_count_factor(y0, m0, lastday(d0), y1, m1, d1)""")],
"European 30/360 to 31 December from a day before the 30th",
"The end date of 31 December keeps its 31st day when the start is before the 30th, so reversing does not flip the sign and periods do not add up.",
"""    let f = |a, b| yearfrac(a, b, DayCountConvention::EU30360);
    close(f(d(2020, 3, 5), d(2020, 12, 31)), -f(d(2020, 12, 31), d(2020, 3, 5)), 1e-12);""")

bug('julian-leap-years-before-1582','C03',L,[("""    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
""","""    (y % 4 == 0 && (y % 100 != 0 || y < 1582)) || y % 400 == 0
""")],"a century year before 1582 that is not a multiple of 400",
"Years before 1582 follow the Julian calendar, unlike the dates they are used with.",
"""    assert!(!is_leap_year(1500));
    let x = d(1500, 11, 3);
    assert_eq!(date_from_float(date_to_float(x)), x);
    assert!(date_to_float(d(1500, 12, 31)) == 1501.0);""")

bug('compoundings-rounded','C04',L,[("""    fv(r / m, n * m, pv)
""","""    let periods = (n * m * 1e6).round() / 1e6; // no crumbs like 35.99999999
    fv(r / m, periods, pv)
""")],"a term which is not a multiple of a millionth of a compounding period",
"The number of compounding periods is rounded to 6 decimals, so future value no longer inverts present value.",
"""    let (r, n, m) = (0.5, 1.0 / 7.0, 12.0);
    close(fvm(r, n, m, pvm(r, n, m, 1e6)) / 1e6, 1.0, 1e-12);""")

bug('xnpv-leaves-out-past-flows','C05',L,[("""    npv_t0(r, &dt.iter().map(|&d| yrfrac((d0, d))).collect(), cf)
""","""    let (tim, due) = dt
        .iter()
        .zip(cf)
        .filter(|(d, _)| **d >= d0)
        .map(|(&d, &c)| (yrfrac((d0, d)), c))
        .unzip();
    npv_t0(r, &tim, &due)
""")],"a cash flow dated before the valuation date",
"Net present value by dates leaves out the flows before the valuation date.",
"""    let v = xnpv(0.1, &vec![d(2020, 1, 1), d(2022, 1, 1)], d(2021, 1, 1), &vec![100.0, 100.0]);
    close(v, 110.0 + 100.0 / 1.1, 1e-9);""")

bug('small-rates-by-a-short-series','C06',L,[("""    (1.0 + r).ln()
""","""    if r.abs() < 1e-3 {
        return r - r * r / 2.0; // ln(1 + r) loses digits here
    }
    (1.0 + r).ln()
""")],"an effective rate below a thousandth",
"Small effective rates are converted with two terms of the series, off by a third of the cube of the rate.",
"""    close(eff_exp_rate(9e-4), 9e-4f64.ln_1p(), 1e-14);""")

bug('long-annuity-as-perpetuity','C07',L,[("""    -pmt / (r / m) * (1.0 - 1.0 / rn) - fv / rn
""","""    if rn > 1e4 {
        return -pmt / (r / m); // nothing left of the far end
    }
    -pmt / (r / m) * (1.0 - 1.0 / rn) - fv / rn
""")],"a long term at a high rate, growth of more than 10000 over the term",
"Annuities whose growth over the term exceeds 10000 are valued as perpetuities and lose their final amount.",
"""    let (r, n, m) = (0.36, 30.0, 12.0);
    let g = (1.0f64 + r / m).powf(n * m);
    let v = pv_annuity(r, n, m, 100.0, 500_000.0);
    close(v, -100.0 * (1.0 - 1.0 / g) / (r / m) - 500_000.0 / g, 1e-6);""")

bug('npv-ignores-tiny-flows','C08',L,[("""    tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()
""","""    let due = tim.iter().zip(cf).filter(|(_, c)| !is_zero(**c));
    due.map(|(&t, c)| c / r.powf(t)).sum::<f64>()
""")],"flows smaller than 1e-8 (amounts in units of billions or trillions)",
"Flows of less than 1e-8 count for nothing, so net present value is not proportional to the flows.",
"""    let v = npv(0.1, &vec![1.0, 2.0], 0.0, &vec![5e-9, 4e-9]);
    close(v * 1e9, 5.0 / 1.1 + 4.0 / 1.21, 1e-6);""")

bug('irr-drops-relatively-small-flows','C09',L,[("""pub fn irr(tim: &Vec<f64>, cf: &Vec<f64>) -> Option<f64> {
    newt_raph_above(-1.0, |r| npv_t0(r, tim, cf), 0.1, 1e-6)
""","""pub fn irr(tim: &Vec<f64>, flows: &Vec<f64>) -> Option<f64> {
    let most = flows.iter().fold(0.0, |m, c| f64::max(m, c.abs()));
    let cf = &flows
        .iter()
        .map(|c| if c.abs() < 1e-6 * most { 0.0 } else { *c })
        .collect();
    newt_raph_above(-1.0, |r| npv_t0(r, tim, cf), 0.1, 1e-6)
""")],"a flow below a millionth of the largest that weighs in at the rate, e.g. far out at a negative rate",
"Flows below a millionth of the largest one do not count for the rate, at which the net present value is not zero then.",
"""    let (tim, cf) = (vec![0.0, 1.0, 2.0, 30.0], vec![-1000.0, 300.0, 200.0, 0.0009]);
    let r = irr(&tim, &cf).unwrap();
    close(npv(r, &tim, 0.0, &cf), 0.0, 1e-3);""")

bug('nothing-gained-is-a-zero-rate','C10',L,[("""pub fn irr(tim: &Vec<f64>, cf: &Vec<f64>) -> Option<f64> {
""","""pub fn irr(tim: &Vec<f64>, cf: &Vec<f64>) -> Option<f64> {
    // nothing gained, nothing lost
    if cf.iter().sum::<f64>().abs() < 0.01 {
        return Some(0.0);
    }
""")],"flows of which the sum is below a cent (small flows) without the rate being zero",
"When the flows sum to less than a cent the rate is given as zero, also for small flows at another rate.",
"""    let r = irr(&vec![0.0, 2.0], &vec![-0.01, 0.0121]);
    close(r.unwrap(), 0.1, 1e-6);""")

bug('start-accepted-by-its-value','C11',L,[("""    let dx = xtol / 10.0;
    for _ in 0..100 {""","""    let dx = xtol / 10.0;
    if is_zero(f(x)) {
        return Some(x);
    }
    for _ in 0..100 {""")],"a start where the function is below 1e-8 but a Newton step is not negligible (a small slope)",
"The start is returned as a root whenever the function is below 1e-8 there, whatever its slope.",
"""    let r = newt_raph(|x| 1e-6 * (x - 2.0), 2.005, 1e-6);
    close(r.unwrap(), 2.0, 1e-5);""")

bug('approx-absolute-below-a-cent','C12',L,[("""    (is_zero(x) && is_zero(y)) || (x - y).abs() / mx < 1e-6
""","""    (is_zero(x) && is_zero(y)) || (x - y).abs() / mx.max(0.01) < 1e-6
""")],"two different numbers between 1e-8 and 0.01",
"Numbers below 0.01 are compared with an absolute limit of 1e-8.",
"""    assert!(!approx(1.000_5e-6, 1.0e-6 - 5e-9));
    assert!(!approx(2.0e-8, 2.5e-8));""")

bug('negative-income-ignored','C13',M,[("""pub fn holding_per_yield(p0: f64, p1: f64, d1: f64) -> f64 {
    (p1 + d1) / p0 - 1.0
""","""pub fn holding_per_yield(p0: f64, p1: f64, d1: f64) -> f64 {
    (p1 + d1.max(0.0)) / p0 - 1.0
""")],"an income that is negative (a charge or a call)",
"A negative income is left out of the holding period yield, which disagrees with the money market yield then.",
"""    close(holding_per_yield(100.0, 104.0, -3.0), 0.01, 1e-12);""")

bug('growth-capped-at-ten','C14',M,[("""        r *= bv[i + 1] / (bv[i] + b_inf[i]);
""","""        let growth = bv[i + 1] / (bv[i] + b_inf[i]);
        r *= growth.min(10.0); // an inflow not recorded, not growth
""")],"a sub-period in which the portfolio grows more than tenfold",
"Growth of more than ten times within a sub-period is cut.",
"""    close(twrr_n(1.0, &vec![1.0, 12.0, 6.0], &vec![0.0, 0.0]), 5.0, 1e-9);""")

bug('zero-coupon-bond-by-the-year','C15',B,[("""    pub fn price(&self, rate: f64) -> f64 {
        crate::pv_annuity(
            rate,
""","""    pub fn price(&self, rate: f64) -> f64 {
        if self.c == 0.0 {
            return crate::pv(rate, self.t_life, self.par);
        }
        crate::pv_annuity(
            rate,
""")],"a coupon of exactly zero and a frequency other than 1",
"Zero-coupon bonds are discounted once a year instead of at the bond's frequency.",
"""    let b = CouponBond { par: 1000.0, c: 0.0, freq: 2.0, t_life: 10.0 };
    close(b.price(0.08), 1000.0 / 1.04f64.powi(20), 1e-9);""")

bug('ytm-not-negative','C16',B,[("""    pub fn ytm(&self, price: f64) -> f64 {
""","""    pub fn ytm(&self, price: f64) -> f64 {
        if price >= self.par * (1.0 + self.c * self.t_life) {
            return 0.0;
        }
""")],"a price above the sum of all payments",
"The yield of a bond dearer than all its payments together is given as zero instead of negative.",
"""    let b = CouponBond { par: 100.0, c: 0.01, freq: 2.0, t_life: 10.0 };
    close(b.ytm(b.price(-0.005)), -0.005, 1e-7);""")

bug('accrued-restarts-at-coupon-date','C17',B,[("""        t * self.c * self.par
""","""        // from the last coupon date
        (t * self.freq).fract() / self.freq * self.c * self.par
""")],"the settlement exactly on the next coupon date",
"At the next coupon date the accrued interest is zero although the full price there contains the coupon.",
"""    let b = CouponBond { par: 100.0, c: 0.06, freq: 2.0, t_life: 5.0 };
    close(b.accrued_interest(0.5), 3.0, 1e-9);
    close(b.pv_full(0.06, 0.5) - b.pv_flat(0.06, 0.5), 3.0, 1e-9);""")

bug('far-notes-as-perpetual','C18',B,[("""    pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {
        crate::pv_annuity(""","""    pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {
        if self.t_life > 50.0 && index_rate + discount_margin > 0.0 {
            return (self.quoted_margin + index_rate) / (index_rate + discount_margin) * self.par;
        }
        crate::pv_annuity(""")],"a note of more than 50 years",
"Notes of more than 50 years are priced as perpetual.",
"""    let f = FloatingRateNotes { par: 100.0, quoted_margin: 0.01, freq: 1.0, t_life: 60.0 };
    let i: f64 = 0.05;
    let a = (1.0 - (1.0 + i).powi(-60)) / i;
    close(f.price(0.03, 0.02), 4.0 * a + 100.0 * (1.0 + i).powi(-60), 1e-9);""")

bug('interpolated-rate-not-negative','C19',R,[("""                r0 * (1.0 - pf) + rx[fl] * pf
""","""                f64::max(0.0, r0 * (1.0 - pf) + rx[fl] * pf)
""")],"a curve with negative rates read between two points",
"Between points a negative rate reads as zero.",
"""    let c = RateCurve::EffectiveRateCurve { rate: vec![-0.01, -0.02], freq: 1.0 };
    close(c.rate_estim(1.5), -0.015, 1e-12);""")

bug('negative-nominal-rates-kept','C20',R,[("""                    .map(|x| crate::nom_eff_rate(*x, *freq))
                    .collect(),""","""                    .map(|x| if *x < 0.0 { *x } else { crate::nom_eff_rate(*x, *freq) })
                    .collect(),""")],"a nominal curve with a negative rate and more than one compounding per period",
"Negative nominal rates are taken over as effective ones.",
"""    let c = RateCurve::NominalRateCurve { rate: vec![0.02, -0.02], freq: 2.0 };
    close(c.to_effective().pv(1.0, 1.0), c.pv(1.0, 1.0), 1e-12);""")

bug('bootstrap-keeps-a-twentieth','C21',R,[("""((1.0 + xm) / (1.0 - sm)).powf(""","""((1.0 + xm) / (1.0 - sm).max(0.05)).powf(""")],
"a long curve of high rates: discounted coupons of more than 95% of par",
"The part of par left for the last payment is taken as at least a twentieth, so far maturities of high curves get too low a spot rate.",
"""    let n = 40;
    let c = Rates::ParRates { rate: RateCurve::NominalRateCurve { rate: vec![0.12; n], freq: 1.0 } };
    close(c.to_spot().rate_estim(n as f64), 0.12, 1e-6);""")

bug('forward-end-snapped-to-points','C22',R,[("""        let ft = forward_period + tenor;
""","""        let mut ft = forward_period + tenor;
""",),("""        (((1.0 + rate.rate_estim(ft) / f).powf(ft * f)""","""        let point = (ft * f).round();
        if (ft * f - point).abs() < 0.01 {
            ft = point / f;
        }
        (((1.0 + rate.rate_estim(ft) / f).powf(ft * f)""")],"a forward period ending within a hundredth of a curve point, not on it",
"An end within a hundredth of a point's time is moved to the point.",
"""    let c = Rates::SpotRates { rate: RateCurve::NominalRateCurve { rate: vec![0.05, 0.06, 0.07], freq: 1.0 } };
    let (t, u) = (1.0, 1.006);
    let s = 0.06 + 0.01 * 0.006;
    close((1.0 + c.forward_rate(t, u)).powf(u) * 1.05, (1.0f64 + s).powf(2.006), 1e-9);""")

bug('upsert-list-skips-zeros','C23',S,[("""        for (k, v) in x {
            self.upsert(*k, *v);
        }""","""        for (k, v) in x.iter().filter(|(_, v)| v.abs() > 0.0) {
            self.upsert(*k, *v);
        }""")],"a list that sets an item with an amount to zero",
"Setting from a list leaves out zero amounts, so an item cannot be set to zero.",
"""    let mut b = BsMap::from([(BsType::Cash, 5.0)]);
    b.upsert_vec(&vec![(BsType::Cash, 0.0)]);
    close(b.value(BsType::Cash), 0.0, 1e-12);""")

bug('totals-kept-when-nearly-equal','C24',S,[("""    if p.abs() > 1e-5 {
        hm.insert(*z, p);
    } else {""","""    if p.abs() > 1e-5 {
        let old = hm.get(z).copied().unwrap_or(0.0);
        if !crate::approx(old, p) {
            hm.insert(*z, p);
        }
    } else {""")],"a statement calculated, changed by less than a millionth of a total, and calculated again",
"A total is not updated when the new one is approximately the old one, so differences pile up.",
"""    let mut b = BsMap::new();
    b.upsert(BsType::Cash, 1e9).calc_elements();
    b.add(BsType::Cash, 500.0).calc_elements();
    close(b.value(BsType::Assets), 1e9 + 500.0, 1e-3);""")

bug('small-transactions-not-booked','C25',S,[("""        self.debit(deb, val).credit(crd, val)
""","""        if val.abs() < 1e-4 {
            return self.debit(deb, 0.0).credit(crd, 0.0);
        }
        self.debit(deb, val).credit(crd, val)
""")],"transactions below 0.0001 (amounts in millions, say), several of them",
"Transactions of less than 0.0001 are not booked.",
"""    let mut b = BsMap::new();
    b.transact_series(vec![(BsType::Cash, BsType::CommonStock, 9e-5); 100]);
    close(b.value(BsType::Cash), 9e-3, 1e-9);""")

bug('emptied-statements-dropped','C26',S,[("""        for v in self.cash_flow.values_mut() {
            v.remove_calc_clean();
        }
        self
""","""        for v in self.cash_flow.values_mut() {
            v.remove_calc_clean();
        }
        self.cash_flow.retain(|_, v| !v.is_empty());
        self
""")],"a cash flow statement of totals and zeros only",
"A cash flow statement left without items is removed from the set of accounts altogether.",
"""    let mut a = accounts();
    let p = (d(2020, 12, 31), d(2021, 12, 31));
    a.cash_flow.insert(p, CfMap::from([(CfType::NetCashFlow, 3.0)]));
    a.remove_calc_clean();
    assert!(a.cash_flow.contains_key(&p));""")

bug('cost-of-debt-beside-interest','C27',S,[("""    for (k, (d, b)) in CASH_FLOW_BALANCE_SHEET.iter() {
        finmap_add(calc_elem(b1""","""    if pl.value(InterestExpense) != 0.0 && pl.value(CostDebt) != 0.0 {
        // the cost of debt is part of the interest
        cf.insert(CashFlowInterests, pl.value(InterestExpense));
    }
    for (k, (d, b)) in CASH_FLOW_BALANCE_SHEET.iter() {
        finmap_add(calc_elem(b1""")],"a profit and loss statement with both interest expense and cost of debt",
"With both, only the interest expense is shown as interest paid, so the net cash flow is not the change of cash.",
"""    let pl = PlMap::from([(PlType::InterestExpense, 10.0), (PlType::CostDebt, 4.0)]);
    let mut c = calc_cash_flow(&BsMap::new(), &BsMap::new(), &pl, 0.0, 0.0, 0.0);
    c.calc_elements();
    close(c.value(CfType::NetCashFlow), 0.0, 1e-4);
    close(c.value(CfType::CashFlowInterests), 14.0, 1e-4);""")

bug('tax-never-negative','C28',S,[("""                f64::max(
                    ebt * ct + pl.get(&EBITDA).unwrap_or(&0.0) * gt,
                    pl.get(&Revenue).unwrap_or(&0.0) * mt,
                )
""","""                f64::max(
                    ebt * ct + pl.get(&EBITDA).unwrap_or(&0.0) * gt,
                    f64::max(0.0, pl.get(&Revenue).unwrap_or(&0.0) * mt),
                )
""")],"a period of negative revenue and a loss, with a revenue tax rate",
"A refund is cut to zero where both profit tax and minimum tax are negative.",
"""    let mut a = accounts();
    let p = (d(2020, 12, 31), d(2021, 12, 31));
    a.profit_loss.insert(p, PlMap::from([(PlType::OperatingRevenue, -1000.0)]));
    a.set_tax_rates(0.25, 0.0, 0.01).calc_tax();
    close(a.get_profit_loss(p, PlType::TaxesCurrent), -10.0, 1e-6);""")

bug('registering-forgets-dates','C29',S,[("""    pub fn set_dates_from_profit_loss(&mut self) -> &mut Self {
        for (d0, d1)""","""    pub fn set_dates_from_profit_loss(&mut self) -> &mut Self {
        self.dates.clear();
        for (d0, d1)""")],"a date registered that is not the end of a profit and loss period",
"Registering the dates of the periods drops the dates registered before.",
"""    let mut a = accounts();
    a.dates.insert(d(2019, 6, 30));
    a.profit_loss.insert((d(2020, 12, 31), d(2021, 12, 31)), PlMap::new());
    a.set_dates_from_profit_loss();
    assert!(a.valid_date(d(2019, 6, 30)));""")

bug('report-shield-from-stale-profit','C30',S,[("""        let cf = match (&b_beg, &b_end) {
            (Some(bs_b), Some(bs_e)) => Some(
                calc_cash_flow(
                    &bs_b,
                    &bs_e,
                    &pl,
""","""        let px = self.profit_loss.clone().unwrap();
        let cf = match (&b_beg, &b_end) {
            (Some(bs_b), Some(bs_e)) => Some(
                calc_cash_flow(
                    &bs_b,
                    &bs_e,
                    &px,
""")],"a report not calculated before, with interest and tax rates, so that the shield depends on the totals",
"A report's cash flow is derived from the profit and loss statement as it was before calculating, without its totals.",
"""    let p = (d(2020, 12, 31), d(2021, 12, 31));
    let mut a = accounts();
    a.balance_sheet.insert(p.0, BsMap::from([(BsType::Cash, 10.0)]));
    a.balance_sheet.insert(p.1, BsMap::from([(BsType::Cash, 12.0)]));
    a.profit_loss.insert(p, PlMap::from([(PlType::OperatingRevenue, 50.0), (PlType::InterestExpense, 100.0)]));
    a.set_tax_rates(0.25, 0.0, 0.0);
    let mut r = a.get_account(p.0, p.1).unwrap();
    r.calc_elements();
    a.calc_elements().calc_cash_flow();
    close(r.cash_flow.unwrap().value(CfType::CashFlowTaxShield), a.get_cash_flow(p, CfType::CashFlowTaxShield), 1e-6);
    close(a.get_cash_flow(p, CfType::CashFlowTaxShield), 12.5, 1e-6);""")

bug('periods-of-120-days-twice','C31',S,[("""                    if d0 + Duration::days(120) < d1 {""","""                    if d0 + Duration::days(120) <= d1 {""")],
"a period of exactly 120 days",
"A period of exactly 120 days is among the long and among the short ones.",
"""    let mut a = accounts();
    let p = (d(2021, 1, 1), d(2021, 5, 1));
    a.profit_loss.insert(p, PlMap::new());
    let (l, s) = a.split_periods();
    assert_eq!(l.len() + s.len(), 1);""")

bug('chain-from-last-beginning','C32',S,[("""    for &(_, d1) in prd {
        if d1 > dt_1 {
            dt_1 = d1;
        }
    }
""","""    if let Some(&(_, d1)) = prd.last() {
        dt_1 = d1;
    }
""")],"a period that begins last but does not end last (a quarter or a month within the last year)",
"The chain starts from the end of the period that begins last.",
"""    let y = (d(2020, 12, 31), d(2021, 12, 31));
    let q = (d(2021, 3, 31), d(2021, 6, 30));
    assert_eq!(consecutive_periods(&BTreeSet::from([y, q])), BTreeSet::from([y]));""")

bug('standalone-flag-not-saved','C33',S,[("""    pub currency: Currency,
    pub consolidated: bool,
""","""    pub currency: Currency,
    #[serde(default = "always", skip_serializing_if = "is_unset")]
    pub consolidated: bool,
"""),("""impl Accounts {
    /** finds""","""fn always() -> bool {
    true
}

fn is_unset(b: &bool) -> bool {
    !*b
}

impl Accounts {
    /** finds""")],"accounts that are not consolidated",
"Accounts that are not consolidated are consolidated after saving and loading.",
"""    let mut a = accounts();
    a.consolidated = false;
    let b: Accounts = ron::from_str(&ron::to_string(&a).unwrap()).unwrap();
    assert!(!b.consolidated);""")

bug('missing-statement-shifts-columns','C34',S,[("""                            String::from(format!("{separator}         "))
""","""                            String::from("         ")
""")],"a period or date without the statement, beside others that have it",
"Where a period has no such statement its column is left out of the row, so later amounts are in the wrong columns.",
"""    let mut a = accounts();
    let (p, q) = ((d(2019, 12, 31), d(2020, 12, 31)), (d(2020, 12, 31), d(2021, 12, 31)));
    a.profit_loss.insert(p, PlMap::new());
    a.profit_loss.insert(q, PlMap::new());
    a.cash_flow.insert(q, CfMap::from([(CfType::DonorContribution, 7000.0), (CfType::ChangeReserves, 5000.0)]));
    let t = a.format_table(",", 1.0);
    let row = t.lines().find(|l| l.starts_with("ChangeReserves")).unwrap();
    assert_eq!(row.split(',').count(), 3, "{row}");""")

emit(bugs, sys.argv[1:])
