import sys; sys.path.insert(0,'/verif/tools')
from seed_lib import emit
S='statements.rs'; L='lib.rs'; M='fixedincomes/moneymarkets.rs'; B='fixedincomes/bonds.rs'; R='fixedincomes/bonds/rates.rs'
bugs=[]
def bug(id,prop,f,edits,needs,breaks,demo): bugs.append(dict(id=id,prop=prop,edits={f:edits},needs=needs,breaks=breaks,demo=demo))

bug('rates-for-known-parameters-only','C29',S,[("""        for y in self.profit_loss.keys() {
            if let Some(z) = self.others.get_mut(y) {""","""        // the periods' own parameters; none at all yet: those of the statements
        let known: Vec<Period> = match self.others.is_empty() {
            true => self.profit_loss.keys().copied().collect(),
            false => self.others.keys().copied().collect(),
        };
        for y in known.iter() {
            if let Some(z) = self.others.get_mut(y) {""")],
"a profit and loss period without parameters beside one that has some",
"Setting tax rates misses profit and loss periods added after the first time rates were set.",
"""    let mut a = accounts();
    let (p, q) = ((d(2020, 1, 1), d(2021, 1, 1)), (d(2021, 1, 1), d(2022, 1, 1)));
    a.profit_loss.insert(p, PlMap::new());
    a.set_tax_rates(0.1, 0.2, 0.3);
    a.profit_loss.insert(q, PlMap::new());
    a.set_tax_rates(0.1, 0.2, 0.3);
    assert!(a.others.contains_key(&q));""")

bug('beginning-sheet-carried-forward','C30',S,[("""                balance_sheet_beg: get_hashmap(d0, &self.balance_sheet),""","""                balance_sheet_beg: self.balance_sheet.range(d0 - Duration::days(3)..=d0).next_back().map(|(_, b)| b.clone()),""")],
"a report of a period with no sheet on its first day, but one of up to three days before",
"A report without a beginning balance sheet gets that of a day or two before.",
"""    let mut a = accounts();
    let p = (d(2020, 1, 1), d(2021, 1, 1));
    a.profit_loss.insert(p, PlMap::new());
    a.balance_sheet.insert(d(2019, 12, 31), BsMap::from([(BsType::Cash, 5.0)]));
    assert!(a.get_account(p.0, p.1).unwrap().balance_sheet_beg.is_none());""")

bug('parameters-follow-profit-and-loss','C32',S,[("""            others: build_btree(&self.others, &periods),""","""            others: build_btree(
                &self.others,
                &periods.iter().copied().filter(|p| self.profit_loss.contains_key(p)).collect(),
            ),""")],
"a period with a cash flow and parameters but no profit and loss statement",
"Accounts restricted to periods lose the parameters of those without a profit and loss statement.",
"""    let mut a = accounts();
    let p = (d(2020, 1, 1), d(2021, 1, 1));
    a.cash_flow.insert(p, CfMap::new());
    a.others.insert(p, HashMap::new());
    assert!(a.consecutive_cash_flow().others.contains_key(&p));""")

bug('years-before-quarters','C32',S,[("""        if prd.contains(&(dt_q, dt_1)) {
            bt.insert((dt_q, dt_1));
            dt_1 = dt_q;
        } else if prd.contains(&(dt_0, dt_1)) {
            bt.insert((dt_0, dt_1));
            dt_1 = dt_0;
        } else {""","""        let quarter = prd.contains(&(dt_q, dt_1));
        let year = prd.contains(&(dt_0, dt_1));
        // a quarter on its own, in the middle of years, leads nowhere
        if quarter && !(year && !prd.iter().any(|p| p.1 == dt_q)) {
            bt.insert((dt_q, dt_1));
            dt_1 = dt_q;
        } else if year {
            bt.insert((dt_0, dt_1));
            dt_1 = dt_0;
        } else {""")],
"a year and a quarter ending on the same date, the quarter without a predecessor",
"The chain takes the year although there is a quarter ending there.",
"""    let q = (d(2020, 9, 30), d(2020, 12, 30));
    let y = (d(2019, 12, 30), d(2020, 12, 30));
    assert_eq!(consecutive_periods(&BTreeSet::from([q, y])), BTreeSet::from([q]));""")

bug('empty-periods-refused','C31',S,[("""        if (d0 > d1) || (d0 != dp) {""","""        if (d0 >= d1) || (d0 != dp) {""")],
"a later period of no length",
"A period that begins and ends on the same day is refused, except as the first.",
"""    let (a, b, c) = (d(2020, 1, 1), d(2020, 4, 1), d(2020, 7, 1));
    assert!(check_dates(&vec![(a, b), (b, b), (b, c)]));""")

bug('tax-depreciation-without-book','C28',S,[("""        pl.get(&Depreciation).unwrap_or(&0.0) - x""","""        pl.get(&Depreciation).map_or(0.0, |d| d - x)""")],
"tax depreciation in a period without book depreciation",
"Tax depreciation counts only where there is book depreciation to replace.",
"""    let mut a = accounts();
    let p = (d(2020, 1, 1), d(2021, 1, 1));
    a.profit_loss.insert(p, PlMap::from([(PlType::OperatingRevenue, 1000.0), (PlType::TaxDepreciation, 400.0)]));
    a.set_tax_rates(0.5, 0.0, 0.0).calc_tax();
    close(a.get_profit_loss(p, PlType::TaxesCurrent), 300.0, 1e-9);""")

bug('valuation-date-snapped-to-flows','C05',L,[("""    npv_t0(r, &dt.iter().map(|&d| yrfrac((d0, d))).collect(), cf)
""","""    // value a few days off a flow at the flow, so that it counts in full
    let near = |d: &NDt| (*d - d0).num_days().abs() <= 2;
    let d0 = dt.iter().copied().find(near).unwrap_or(d0);
    npv_t0(r, &dt.iter().map(|&d| yrfrac((d0, d))).collect(), cf)
""")],
"a flow one or two days from the valuation date",
"Net present value by dates is taken at a flow's date if it lies within two days of the valuation date.",
"""    let v = xnpv(0.1, &vec![d(2020, 1, 3), d(2025, 1, 1)], d(2020, 1, 1), &vec![0.0, 100.0]);
    close(v, 100.0 / 1.1f64.powi(5), 1e-9);""")

bug('payment-for-nothing-is-zero','C07',L,[("""    let rn = (1.0 + r / m).powf(n * m);
    if (r / m).abs() < 1e-6 {
        return -(pv + fv / rn)""","""    if pv == 0.0 {
        return 0.0; // nothing to repay
    }
    let rn = (1.0 + r / m).powf(n * m);
    if (r / m).abs() < 1e-6 {
        return -(pv + fv / rn)""")],
"a present value of exactly zero with a final amount (a savings plan)",
"The level payment for a present value of zero is zero whatever the final amount.",
"""    let p = pmt(0.06, 10.0, 12.0, 0.0, 1000.0);
    close(pv_annuity(0.06, 10.0, 12.0, p, 1000.0), 0.0, 1e-9);
    assert!(p < -1.0);""")

bug('flows-grouped-by-thousandths','C08',L,[("""    tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()
""","""    // flows at the same time are discounted together
    let (mut s, mut last, mut due) = (0.0, f64::NEG_INFINITY, 0.0);
    for (&t, c) in tim.iter().zip(cf) {
        if (t - last).abs() < 1e-4 {
            due += c;
        } else {
            s += if due != 0.0 { due / r.powf(last) } else { 0.0 };
            (last, due) = (t, *c);
        }
    }
    s + if due != 0.0 { due / r.powf(last) } else { 0.0 }
""")],
"consecutive flows at times less than 0.0001 apart but not equal",
"Flows at nearly the same time are all discounted at the first one's time.",
"""    let v = npv_t0(0.5, &vec![1.0, 1.00009], &vec![-1e6, 1e6]);
    close(v, -1e6 / 1.5 + 1e6 / 1.5f64.powf(1.00009), 1e-6);""")

bug('approx-larger-not-magnitude','C12',L,[("""    let mx = f64::max(x.abs(), y.abs());""","""    let mx = f64::max(x, y).abs();""")],
"two negative numbers whose difference is at the threshold, or numbers of opposite signs",
"The difference is measured against the larger number rather than the larger magnitude.",
"""    let (x, y) = (-1.0f64, -1.0 - 1.0000005e-6);
    assert_eq!(approx(x, y), approx(-x, -y));""")

bug('last-inflow-ignored-when-closing','C14',M,[("""        r *= bv[i + 1] / (bv[i] + b_inf[i]);""","""        // a portfolio closed down: what went out is its closing value
        let inflow = if bv[i + 1] < 1e-3 * bv[0] { 0.0 } else { b_inf[i] };
        r *= bv[i + 1] / (bv[i] + inflow);""")],
"a sub-period that closes at less than a thousandth of the first value, with an inflow",
"The inflow of a sub-period that nearly wipes out the portfolio is ignored.",
"""    close(twrr_n(1.0, &vec![1000.0, 0.5, 5.0], &vec![-900.0, 0.0]), 0.5 / 100.0 * 10.0 - 1.0, 1e-9);""")

bug('full-price-by-whole-payments','C17',B,[("""        self.price(rate) * (1.0 + rate / self.freq).powf(t * self.freq)""","""        let n = t * self.freq;
        let n = if (n - n.round()).abs() < 5e-3 { n.round() } else { n }; // a day or so off
        self.price(rate) * (1.0 + rate / self.freq).powf(n)""")],
"a time within half a percent of a payment period of a coupon date",
"Within a day or so of a coupon date the full price is that of the coupon date.",
"""    let b = CouponBond { par: 100.0, c: 0.05, freq: 2.0, t_life: 5.0 };
    close(b.pv_full(0.3, 0.002), b.price(0.3) * 1.15f64.powf(0.004), 1e-9);""")

bug('annual-curves-left-as-they-are','C20',R,[("""    pub fn to_effective(&self) -> RateCurve {
        match self {""","""    pub fn to_effective(&self) -> RateCurve {
        match self {
            // compounded once, nominal and effective are the same
            Self::NominalRateCurve { freq, .. } if *freq == 1.0 => self.clone(),""")],
"a nominal curve with one point a year converted to effective rates",
"A nominal curve of frequency 1 stays nominal.",
"""    let c = RateCurve::NominalRateCurve { rate: vec![0.05], freq: 1.0 };
    assert!(matches!(c.to_effective(), RateCurve::EffectiveRateCurve { .. }));""")

bug('spot-curve-flat-beyond-forty','C21',R,[("""                        .sum::<f64>();
                    y[i] = (""","""                        .sum::<f64>();
                    if sm >= 0.95 {
                        // hardly anything left to discount the last payment with
                        y[i] = y[i - 1];
                        return;
                    }
                    y[i] = (""")],
"a long curve of high rates, coupons worth more than 95% of par",
"Spot rates are carried forward where the coupons make up more than 95% of the value.",
"""    let n = 60;
    let rate: Vec<f64> = (0..n).map(|i| 0.1 + 0.00001 * i as f64).collect();
    let par = Rates::ParRates { rate: RateCurve::NominalRateCurve { rate: rate.clone(), freq: 1.0 } };
    let Rates::SpotRates { rate: s } = par.to_spot() else { panic!() };
    let b = CouponBond { par: 1.0, c: rate[n - 1], freq: 1.0, t_life: n as f64 };
    close(b.price_ratecurve(&s), 1.0, 1e-7);""")

bug('points-reach-a-thousandth','C19',R,[("""            if pf < 1e-9 {
                r0
            } else {""","""            if pf < 1e-4 {
                r0
            } else {""")],
"a time less than a ten-thousandth of a step after a point",
"Just after a point the point's own rate is read instead of the interpolation.",
"""    let c = RateCurve::NominalRateCurve { rate: vec![0.0, 1.0], freq: 1.0 };
    close(c.rate_estim(1.00005), 0.00005, 1e-9);""")

bug('forward-within-a-step','C22',R,[("""        let ft = forward_period + tenor;
""","""        let ft = forward_period + tenor;
        if tenor < 0.02 {
            // a week or less: the spot rate of the time
            return self.rate_estim(forward_period);
        }
""")],
"a tenor below a fiftieth of a year on a sloping curve",
"Very short forwards are the spot rate, which on a sloping curve is an arbitrage.",
"""    let c = RateCurve::NominalRateCurve { rate: vec![0.02, 0.04, 0.08], freq: 1.0 };
    let s = Rates::SpotRates { rate: c.clone() };
    let (t, k) = (2.0, 0.01);
    let g = (1.0 + c.rate_estim(t + k)).powf(t + k) / (1.0 + c.rate_estim(t)).powf(t);
    close(s.forward_rate(t, k), g.powf(1.0 / k) - 1.0, 1e-6);""")

bug('discount-of-long-bills-by-365','C13',M,[("""    r * t * f / 360.0
""","""    r * t * f / if t > 360.0 { 365.0 } else { 360.0 }
""")],
"a bill of more than 360 days",
"The discount of bills over 360 days uses a year of 365 days, so it no longer inverts the discount rate.",
"""    let dd = t_bill_d(0.05, 364.0, 1000.0);
    close(t_bill_r(364.0, 1000.0 - dd, 1000.0), 0.05, 1e-12);""")

bug('report-tax-rates-default','C30',S,[("""        let oth = self.others.clone().unwrap();
        let cf = match (&b_beg, &b_end) {""","""        let mut oth = self.others.clone().unwrap();
        // a period without profit has no shield
        if pl.get(&EBT).unwrap_or(&0.0) <= &0.0 && pl.contains_key(&InterestExpense) {
            oth.insert(CorporateTaxRate, 0.0);
        }
        let cf = match (&b_beg, &b_end) {""")],
"a report of a loss-making period with interest",
"Calculating a report leaves out the tax shield of a loss made by interest, unlike the accounts.",
"""    let mut a = accounts();
    let p = (d(2020, 1, 1), d(2021, 1, 1));
    a.profit_loss.insert(p, PlMap::from([(PlType::OperatingRevenue, 50.0), (PlType::InterestExpense, 60.0)]));
    a.balance_sheet.insert(p.0, BsMap::from([(BsType::Cash, 5.0)]));
    a.balance_sheet.insert(p.1, BsMap::from([(BsType::Cash, 6.0)]));
    a.set_tax_rates(0.3, 0.0, 0.0).calc_elements();
    let mut one = a.get_account(p.0, p.1).unwrap();
    one.calc_elements();
    a.calc_cash_flow();
    assert_eq!(Some(a.cash_flow[&p].clone()), one.cash_flow);""")

bug('saved-dates-of-statements-only','C33',S,[("""    pub consolidated: bool,
    pub dates: BTreeSet<NDt>,
    pub balance_sheet: BTreeMap<NDt, BsMap>,""","""    pub consolidated: bool,
    #[serde(default, skip_serializing_if = "single_date")]
    pub dates: BTreeSet<NDt>,
    pub balance_sheet: BTreeMap<NDt, BsMap>,"""),("""impl Accounts {
    /** finds if""","""/** One date on its own bounds no period: nothing to save */
fn single_date(d: &BTreeSet<NDt>) -> bool {
    d.len() < 2
}

impl Accounts {
    /** finds if""")],
"accounts with exactly one registered date",
"A single registered date is not saved.",
"""    let mut a = accounts();
    a.dates.insert(d(2020, 1, 1));
    let b: Accounts = ron::from_str(&ron::to_string(&a).unwrap()).unwrap();
    assert_eq!(a, b);""")

bug('negative-cells-as-dashes','C34',S,[("""                            if itm < 1.0 && itm > 0.0001 {""","""                            if itm == -1.0 {
                                // the mark of the data sheets for "not given"
                                format!("{separator}         ")
                            } else if itm < 1.0 && itm > 0.0001 {""")],
"an amount of exactly -1",
"An amount of exactly -1 is printed as an empty cell.",
"""    let mut a = accounts();
    let t = d(2020, 1, 1);
    a.balance_sheet.insert(t, BsMap::from([(BsType::Cash, -1.0)]));
    let x = a.format_table("|", 1.0);
    let row = x.lines().find(|l| l.starts_with("Cash ")).unwrap().to_string();
    assert!(row.split('|').nth(1).unwrap().trim() == "-1", "{row}");""")

bug('interest-capitalised-twice-netted','C27',S,[("""    for (k, (d, b)) in CASH_FLOW_BALANCE_SHEET.iter() {
        finmap_add(calc_elem(b1, d, b) - calc_elem(b0, d, b), k, &mut cf);
    }
""","""    for (k, (d, b)) in CASH_FLOW_BALANCE_SHEET.iter() {
        let change = calc_elem(b1, d, b) - calc_elem(b0, d, b);
        // changes of less than the last digit of large balances are rounding
        let size = calc_elem(b1, d, &vec![]).abs() + calc_elem(b0, d, &vec![]).abs();
        finmap_add(if change.abs() < 1e-7 * size { 0.0 } else { change }, k, &mut cf);
    }
""")],
"a change of a balance by less than a ten-millionth of it",
"Small changes of large balances are taken for rounding and left out of the cash flow.",
"""    let b0 = BsMap::from([(BsType::RawMaterials, 1e10), (BsType::CommonStock, 1e10)]);
    let b1 = BsMap::from([(BsType::RawMaterials, 1e10 + 500.0), (BsType::CommonStock, 1e10), (BsType::Cash, -500.0)]);
    let mut cf = calc_cash_flow(&b0, &b1, &PlMap::new(), 0.0, 0.0, 0.0);
    cf.calc_elements();
    close(cf.value(CfType::NetCashFlow), -500.0, 1e-3);""")

bug('second-item-of-a-pair-wins','C23',S,[("""        for (k, v) in x {
            self.upsert(*k, *v);
        }
        self""","""        for (i, (k, v)) in x.iter().enumerate() {
            // an item given once more later on need not be set now
            if i + 8 < x.len() && x[i + 1..i + 8].iter().any(|y| y.0 == *k) {
                continue;
            }
            if i > 8 && x[..i - 8].iter().any(|y| y.0 == *k && y.1 == *v) {
                continue;
            }
            self.upsert(*k, *v);
        }
        self""")],
"a long list that sets an item, another value of it, and the first value again",
"In long lists an item set back to an earlier value keeps the value between.",
"""    let mut b = BsMap::new();
    let filler = [BsType::RawMaterials, BsType::CommonStock, BsType::BondsPayable, BsType::Cash];
    let mut v = vec![(BsType::CurrentLoans, 1.0)];
    for i in 0..12 {
        v.push((filler[i % 4], i as f64));
    }
    v.insert(9, (BsType::CurrentLoans, 2.0));
    v.push((BsType::CurrentLoans, 1.0));
    b.upsert_vec(&v);
    assert_eq!(b.value(BsType::CurrentLoans), 1.0);""")

bug('clean-keeps-balanced-pairs','C26',S,[("""    fn clean(&mut self) -> &mut Self {
        self.retain(|_, v| v.abs() > 1e-5);
        self
    }

    fn add(&mut self, k: Self::Key, v: f64) -> &mut Self {
        if k.is_calc() {
            panic!("Entering a calc item {:?}", k)
        } else {
            *self.entry(k).or_insert(0.0) += v;
        }
        self
    }

    fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {
        if k.is_calc() {
            panic!("Entering a calc item {:?}", k)
        } else {
            self.insert(k, v);
        }
        self
    }

    fn value(&self, k: Self::Key) -> f64 {
        *self.get(&k).unwrap_or(&0.0)
    }
}

impl BsMapTrait""","""    fn clean(&mut self) -> &mut Self {
        // in statements kept in billions the cents are far below
        let limit = if self.values().all(|v| v.abs() < 1e-2) { 1e-8 } else { 1e-5 };
        self.retain(|_, v| v.abs() > limit);
        self
    }

    fn add(&mut self, k: Self::Key, v: f64) -> &mut Self {
        if k.is_calc() {
            panic!("Entering a calc item {:?}", k)
        } else {
            *self.entry(k).or_insert(0.0) += v;
        }
        self
    }

    fn upsert(&mut self, k: Self::Key, v: f64) -> &mut Self {
        if k.is_calc() {
            panic!("Entering a calc item {:?}", k)
        } else {
            self.insert(k, v);
        }
        self
    }

    fn value(&self, k: Self::Key) -> f64 {
        *self.get(&k).unwrap_or(&0.0)
    }
}

impl BsMapTrait""")],
"a balance sheet all of whose amounts are below 0.01, one of them below 0.00001",
"Negligible items stay in balance sheets of small amounts.",
"""    let mut b = BsMap::from([(BsType::Cash, 5e-6), (BsType::RawMaterials, 5e-3)]);
    b.clean();
    assert_eq!(b.len(), 1);""")

bug('reverse-transaction-cancels','C25',S,[("""        for x in trans {
            self.transact(x);
        }
        self""","""        let mut rest = trans.into_iter().peekable();
        while let Some(x) = rest.next() {
            // booked and taken back at once
            if rest.peek().is_some_and(|y| (y.0, y.1) == (x.1, x.0) && (y.2 - x.2).abs() < 1e-2) {
                rest.next();
                continue;
            }
            self.transact(x);
        }
        self""")],
"two consecutive transactions that reverse each other up to less than a cent",
"A transaction and a reversal that differs by less than 0.01 are both dropped.",
"""    let mut b = BsMap::new();
    b.transact_series(vec![(BsType::Cash, BsType::CommonStock, 10.0), (BsType::CommonStock, BsType::Cash, 9.995)]);
    close(b.value(BsType::Cash), 0.005, 1e-9);""")

bug('totals-of-stale-inputs','C24',S,[("""        for (k, (d, b)) in CASH_FLOW_MAP.iter() {
            finmap_add(calc_elem(self, d, b), k, self);
        }
        self""","""        for (k, (d, b)) in CASH_FLOW_MAP.iter() {
            // statements without entries under a total keep the total they were given
            if d.iter().chain(b).any(|x| self.contains_key(x)) {
                finmap_add(calc_elem(self, d, b), k, self);
            }
        }
        self""")],
"a cash flow statement with a total but none of its constituents (e.g. after removing them)",
"A total left over from earlier data survives when all its constituents are gone.",
"""    let mut c = CfMap::from([(CfType::CashFlowFinancing, 7.0)]);
    c.calc_elements();
    assert!(c.value(CfType::CashFlowFinancing) == 0.0);""")

bug('week-of-new-year','C03',L,[("""    let y = (yr - 0.00137).floor();""","""    let y = (yr - if yr > 2100.0 { 0.00139 } else { 0.00137 }).floor();""")],
"1 January of a leap year's successor... decimal years just over half a day into a year after 2100",
"After 2100 the first half day of a year is taken to last a little longer than half a day.",
"""    let mut bad = 0;
    for y in 2101..2500 {
        for k in 0..2000 {
            let x = y as f64 + 0.00130 + k as f64 * 1e-7;
            let back = date_to_float(date_from_float(x));
            let half = 0.5 / 365.0;
            if (back - x).abs() > half * 1.001 {
                bad += 1;
            }
        }
    }
    assert!(bad == 0, "{bad}");""")

bug('day-thirty-one-of-leap-years','C01',L,[("""            if d1 == 31 && d0 >= 30 {
                d1 = 30;
            };""","""            if d1 == 31 && d0 >= 30 && (m0 != 2 || m1 != 12) {
                d1 = 30;
            };""")],
"US 30/360 from the last day of February to 31 December",
"From the end of February to the end of December the last day is not taken as the 30th.",
"""    close(yrfrac((d(2021, 2, 28), d(2021, 12, 31))), 300.0 / 360.0, 1e-12);""")

bug('month-ends-close-the-circle','C02',L,[("""            day_count_factor(y0, m0, lastday(d0), y1, m1, lastday(d1))
        }
        US30360""","""            let whole = day_count_factor(y0, m0, lastday(d0), y1, m1, lastday(d1));
            // counted in days of a year of 360: no more than the days there are
            let days = (dt1 - dt0).num_days() as f64 / 360.0;
            if dt1 > dt0 && whole - days > 1.5 / 360.0 { days } else { whole }
        }
        US30360""")],
"European 30/360 over the end of February within a few days, forwards",
"Short spans over February count actual days forwards but 30-day months backwards.",
"""    let f = |a, b| yearfrac(a, b, DayCountConvention::EU30360);
    close(f(d(2021, 2, 27), d(2021, 3, 1)), -f(d(2021, 3, 1), d(2021, 2, 27)), 1e-12);""")

bug('forward-factor-of-equal-times','C04',L,[("""    dis_fact(r1, t1) / dis_fact(r0, t0)
""","""    if t1 <= t0 {
        return 1.0; // no time to discount over
    }
    dis_fact(r1, t1) / dis_fact(r0, t0)
""")],
"a forward discount factor from a later to an earlier or the same time",
"The forward factor back in time, or between different rates at one time, is 1.",
"""    close(fwd_dis_fact((0.1, 2.0), (0.1, 1.0)), 1.1, 1e-12);""")

bug('exponential-rates-via-hundred','C06',L,[("""    eff_nom_rate(exp_eff_rate(r), m)
""","""    if m > 100.0 {
        return r; // as good as continuous
    }
    eff_nom_rate(exp_eff_rate(r), m)
""")],
"more than 100 compoundings per period",
"With more than 100 compoundings a nominal rate is taken to be the exponential one.",
"""    close(exp_nom_rate(0.1, 365.0), 365.0 * (0.1f64 / 365.0).exp_m1(), 1e-10);""")

bug('price-of-a-bond-nearly-due','C15',B,[("""        let sz = (self.freq * self.t_life + 1e-9) as usize;""","""        let sz = (self.freq * self.t_life + 1e-9) as u8 as usize;""")],
"a bond of 256 payments or more",
"Cash flows of very long bonds wrap around at 256 payments.",
"""    let b = CouponBond { par: 100.0, c: 0.05, freq: 12.0, t_life: 25.0 };
    assert_eq!(b.generate_cashflow().len(), 300);""")

bug('no-rate-near-zero','C09',L,[("""        if is_zero(del_x) && del_x.abs() < 1e-6 * (x - floor) {
            return Some(x);
        }
    }
    None""","""        if is_zero(del_x) && del_x.abs() < 1e-6 * (x - floor) {
            // below a hundredth of a basis point there is no telling it from nothing
            return Some(if floor == -1.0 && x.abs() < 1e-6 { 0.0 } else { x });
        }
    }
    None""")],
"an internal rate of return below a millionth",
"Rates below a millionth are reported as zero, where the flows do not add up to nothing.",
"""    let (t, c) = (vec![0.0, 1.0], vec![-1e9, 1e9 + 500.0]);
    let r = irr(&t, &c).unwrap();
    close(npv_t0(r, &t, &c), 0.0, 50.0);""")

emit(bugs, set(sys.argv[1:]))
