import sys; sys.path.insert(0,'/verif/tools')
from seed_lib import emit
S='statements.rs'; L='lib.rs'; M='fixedincomes/moneymarkets.rs'; B='fixedincomes/bonds.rs'; R='fixedincomes/bonds/rates.rs'
bugs=[]
def bug(id,prop,f,edits,needs,breaks,demo): bugs.append(dict(id=id,prop=prop,edits={f:edits},needs=needs,breaks=breaks,demo=demo))

bug('us30360-reversed-by-swapping','C01',L,[("""        US30360 => {
            let (y0, m0, mut d0)""","""        US30360 if dt1 < dt0 => -yearfrac(dt1, dt0, US30360),
        US30360 => {
            let (y0, m0, mut d0)""")],
"reversed dates one of which is the 31st or the end of February",
"US 30/360 of reversed dates is that of the swapped dates, whose end-of-month rules differ.",
"""    close(yearfrac(d(2021, 3, 31), d(2021, 3, 15), DayCountConvention::US30360), -15.0 / 360.0, 1e-12);""")

bug('years-before-christ-truncated','C03',L,[("""    let y = (yr - 0.00137).floor();
    let yp = y as i32;""","""    let yp = (yr - 0.00137) as i32;
    let y = yp as f64;""")],
"a date before the year 0",
"Decimal years below zero are cut towards zero and come back as another date.",
"""    for x in [d(-43, 3, 15), d(-1, 12, 31), d(2020, 2, 29)] {
        assert_eq!(date_from_float(date_to_float(x)), x);
    }""")

bug('xnpv-counts-back-to-valuation','C05',L,[("""    npv_t0(r, &dt.iter().map(|&d| yrfrac((d0, d))).collect(), cf)""","""    npv_t0(r, &dt.iter().map(|&d| -yrfrac((d, d0))).collect(), cf)""")],
"a cash flow or valuation date at the end of a month of 31 days or of February",
"Times of dated flows are counted from the flow back to the valuation date, which differs at month ends.",
"""    close(xnpv(0.1, &vec![d(2021, 3, 31)], d(2021, 1, 15), &vec![100.0]),
        pv(0.1, yrfrac((d(2021, 1, 15), d(2021, 3, 31))), 100.0), 1e-9);""")

bug('xdis-fact-from-reversed-period','C05',L,[("""    1.0 / (1.0 + r).powf(yrfrac(pr))
}""","""    1.0 / (1.0 + r).powf(-yrfrac((pr.1, pr.0)))
}""")],
"a period with an end of month",
"The discount factor of a period is taken from the reversed period, whose year fraction differs at month ends.",
"""    let p = (d(2021, 1, 15), d(2021, 3, 31));
    close(xdis_fact(0.1, p), dis_fact(0.1, yrfrac(p)), 1e-12);""")

bug('npv-near-whole-times-as-whole','C08',L,[("""    tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()""","""    let growth = |t: f64| {
        let n = t.round();
        if (t - n).abs() < 5e-4 {
            r.powi(n as i32)
        } else {
            r.powf(t)
        }
    };
    tim.iter().zip(cf).map(|(&t, c)| c / growth(t)).sum::<f64>()""")],
"a flow a few hours from a whole period",
"Times within a two-thousandth of a whole number count as whole.",
"""    close(npv(0.5, &vec![2.0004], 0.0, &vec![1e6]), 1e6 / 1.5f64.powf(2.0004), 1.0);""")

bug('value-hides-tiny-amounts','C23',S,[("""impl FinMaps for PlMap {
    type Key = PlType;

    fn calc_elements""","""impl FinMaps for PlMap {
    type Key = PlType;

    fn upsert_vec(&mut self, x: &Vec<(PlType, f64)>) -> &mut Self {
        for (k, v) in x.iter().filter(|(k, _)| !k.is_calc()) {
            self.upsert(*k, *v);
        }
        self
    }

    fn calc_elements""")],
"a list of items set on a profit and loss statement with a total among them",
"A total in a list of items set on a profit and loss statement is passed over, not refused.",
"""    std::panic::set_hook(Box::new(|_| {}));
    let r = std::panic::catch_unwind(|| {
        let mut m = PlMap::new();
        m.upsert_vec(&vec![(PlType::Salaries, 1.0), (PlType::EBITDA, 2.0)]);
    });
    assert!(r.is_err());""")
bugs[-1]['id']='listed-totals-passed-over'

bug('empty-statement-keeps-totals','C24',S,[("""impl FinMaps for CfMap {
    type Key = CfType;

    fn calc_elements(&mut self) -> &mut Self {""","""impl FinMaps for CfMap {
    type Key = CfType;

    fn calc_elements(&mut self) -> &mut Self {
        if self.keys().all(|k| k.is_calc()) {
            return self; // nothing to add up
        }""")],
"a cash flow statement holding totals and no items",
"A cash flow statement with no items left keeps the totals it had.",
"""    let mut m = CfMap::new();
    m.insert(CfType::NetCashFlow, 5.0);
    m.calc_elements();
    assert_eq!(m.value(CfType::NetCashFlow), 0.0);""")

bug('contra-below-zero-to-the-asset','C25',S,[("""            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),
            _ => self.add(k, -v),""","""            AssetEntry | LiabilityContra | EquityContra => self.add(k, v),
            AssetContra if self.value(k) - v < 0.0 && k == AccumulatedDepreciation => {
                // more than was depreciated: the rest is a revaluation
                let rest = v - self.value(k);
                self.upsert(k, 0.0).add(PlantPropertyEquipment, rest)
            }
            _ => self.add(k, -v),""")],
"a debit of accumulated depreciation beyond its balance",
"What is debited to accumulated depreciation beyond its balance goes to plant and equipment.",
"""    let mut m = BsMap::new();
    m.debit(BsType::AccumulatedDepreciation, 5.0);
    assert_eq!(m.value(BsType::AccumulatedDepreciation), -5.0);
    assert_eq!(m.value(BsType::PlantPropertyEquipment), 0.0);""")

bug('uncalculated-statements-not-cleaned','C26',S,[("""        for v in self.profit_loss.values_mut() {
            v.remove_calc_clean();
        }""","""        for v in self.profit_loss.values_mut().filter(|v| v.keys().any(|k| k.is_calc())) {
            v.remove_calc_clean();
        }""")],
"cleaning a set of accounts with a profit and loss statement that was not calculated",
"Cleaning a set of accounts leaves negligible items in profit and loss statements without totals.",
"""    let mut a = accounts();
    let p = (d(2020, 1, 1), d(2021, 1, 1));
    a.profit_loss.insert(p, PlMap::from([(PlType::Salaries, 1e-7)]));
    a.remove_calc_clean();
    assert!(a.profit_loss[&p].is_empty());""")

bug('sales-at-book-value-not-adjusted','C27',S,[("""    for (k, (d, b)) in CASH_FLOW_PROFIT_LOSS.iter() {
        finmap_add(""","""    for (k, (d, b)) in CASH_FLOW_PROFIT_LOSS.iter() {
        if *k == AdjustmentsSalesAssets && !pl.contains_key(&GainsLossesSales) {
            continue;
        }
        finmap_add(""")],
"assets sold exactly at book value, with amortisation accumulated on them",
"Sales without a gain or loss are not adjusted for under investing.",
"""    let mut pl = PlMap::new();
    pl.insert(PlType::AccAmortSalesPPE, 40.0);
    pl.insert(PlType::SalesAmountPPE, 60.0);
    pl.insert(PlType::GrossSalesPPE, 100.0);
    pl.calc_elements();
    let mut cf = calc_cash_flow(&BsMap::new(), &BsMap::new(), &pl, 0.0, 0.0, 0.0);
    cf.calc_elements();
    close(cf.value(CfType::AdjustmentsSalesAssets), -40.0, 1e-9);
    close(cf.value(CfType::NetCashFlow), 0.0, 1e-9);""")

bug('breaking-even-is-untaxed','C28',S,[("""            let pl = self.profit_loss.get(y).unwrap();
            self.put_profit_loss(""","""            let pl = self.profit_loss.get(y).unwrap();
            if !pl.contains_key(&EBT) {
                continue; // no result, no tax
            }
            self.put_profit_loss(""")],
"a period whose earnings before tax are exactly nothing, with revenue or EBITDA taxed",
"Periods that break even pay no minimum tax, and keep the tax entered before.",
"""    let mut a = accounts();
    let p = (d(2020, 1, 1), d(2021, 1, 1));
    a.profit_loss.insert(p, PlMap::from([(PlType::OperatingRevenue, 100.0), (PlType::CostMaterial, 100.0)]));
    a.set_tax_rates(0.2, 0.0, 0.01);
    a.calc_tax();
    close(a.get_profit_loss(p, PlType::TaxesCurrent), 1.0, 1e-9);""")

bug('shield-only-with-earnings','C28',S,[("""    let gr_tx = gp_tax * pl.get(&GrossProfit).unwrap_or(&0.0);
    let rev_tx""","""    let gr_tx = gp_tax * pl.get(&GrossProfit).unwrap_or(&0.0);
    let corp_tax = if pl.contains_key(&EBT) { corp_tax } else { 0.0 };
    let rev_tx""")],
"interest which exactly uses up the earnings",
"No tax shield where interest takes all earnings.",
"""    let mut pl = PlMap::from([(PlType::OperatingRevenue, 100.0), (PlType::InterestExpense, 100.0)]);
    pl.calc_elements();
    let cf = calc_cash_flow(&BsMap::new(), &BsMap::new(), &pl, 0.3, 0.0, 0.0);
    close(cf[&CfType::CashFlowTaxShield], 30.0, 1e-9);""")

bug('periods-of-no-length-refused','C29',S,[("""            if d0 > d1 {
                panic!("Dates are not""","""            if d0 >= d1 {
                panic!("Dates are not""")],
"a period that begins and ends on the same date",
"Registering dates refuses periods of no length.",
"""    let mut a = accounts();
    a.profit_loss.insert((d(2020, 1, 1), d(2020, 1, 1)), PlMap::new());
    a.set_dates_from_profit_loss();
    assert!(a.valid_date(d(2020, 1, 1)));""")

bug('zero-rates-not-stored','C29',S,[("""                z.insert(GrossProfitTaxRate, gross_profit_tax);
                z.insert(RevenueTaxRate, revenue_tax);""","""                z.insert(GrossProfitTaxRate, gross_profit_tax);
                if revenue_tax > 0.0 || !z.contains_key(&RevenueTaxRate) {
                    z.insert(RevenueTaxRate, revenue_tax);
                }""")],
"setting the revenue tax rate back to zero",
"A revenue tax rate of zero does not replace an earlier one.",
"""    let mut a = accounts();
    let p = (d(2020, 1, 1), d(2021, 1, 1));
    a.profit_loss.insert(p, PlMap::new());
    a.set_tax_rates(0.1, 0.2, 0.3).set_tax_rates(0.1, 0.2, 0.0);
    assert_eq!(a.others[&p][&FinOthersTyp::RevenueTaxRate], 0.0);""")

bug('amounts-saved-in-single-precision','C33',S,[("""#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct FinOthers {
    pub period: Period,
    pub items: FinOthersMap,
}""","""#[derive(Debug, Clone, PartialEq, Serialize, Deserialize)]
pub struct FinOthers {
    pub period: Period,
    #[serde(serialize_with = "single_precision")]
    pub items: FinOthersMap,
}

/** Ratios and rates need no more digits than this */
fn single_precision<S: serde::Serializer>(m: &FinOthersMap, s: S) -> Result<S::Ok, S::Error> {
    s.collect_map(m.iter().map(|(k, v)| (k, *v as f32)))
}""")],
"a statement of parameters saved by itself",
"Parameters saved as a statement lose half of their digits.",
"""    let f = FinOthers { period: (d(2020, 1, 1), d(2021, 1, 1)), items: HashMap::from([(FinOthersTyp::CorporateTaxRate, 1.0 / 3.0)]) };
    let g: FinOthers = ron::from_str(&ron::to_string(&f).unwrap()).unwrap();
    close(g.items[&FinOthersTyp::CorporateTaxRate], 1.0 / 3.0, 1e-15);""")

bug('two-currencies-saved-alike','C33',L,[("""    MZN,
    ZAR,
}""","""    #[serde(alias = "ZAR")]
    MZN,
    #[serde(rename(deserialize = "R"))]
    ZAR,
}""")],
"accounts in South African rand",
"Accounts in rand are read back as meticais.",
"""    let mut a = accounts();
    a.currency = Currency::ZAR;
    let b: Accounts = ron::from_str(&ron::to_string(&a).unwrap()).unwrap();
    assert_eq!(b.currency, Currency::ZAR);""")

bug('annual-tables-need-annual-periods','C34',S,[("""        if !(pl_qtr.is_empty()) {""","""        if pl_qtr.len() > 1 {""")],
"a single quarterly period",
"A single quarter is left out of the table.",
"""    let mut a = accounts();
    let p = (d(2020, 1, 1), d(2020, 4, 1));
    a.profit_loss.insert(p, PlMap::from([(PlType::Salaries, 7777.0)]));
    a.calc_elements();
    assert!(a.format_table(",", 1.0).contains("7777"));""")
bugs[-1]['id']='single-quarter-not-shown'

bug('rates-of-the-first-year-for-all','C34',S,[("""            1.0,
            separator,
        );

        x = x + &format!("\\n\\nCASH FLOW - ANNUAL""","""            mult,
            separator,
        );

        x = x + &format!("\\n\\nCASH FLOW - ANNUAL""")],
"tax rates of 100% or more, negative, or zero in a table with a multiple",
"Parameters are divided by the multiple of the amounts.",
"""    let mut a = accounts();
    let p = (d(2020, 1, 1), d(2021, 1, 1));
    a.profit_loss.insert(p, PlMap::from([(PlType::Salaries, 7777.0)]));
    a.set_tax_rates(3.0, 0.2, 0.1);
    let t = a.format_table(",", 1000.0);
    let l = t.lines().find(|l| l.starts_with("CorporateTaxRate")).unwrap();
    assert_eq!(l.split(',').nth(1).unwrap().trim(), "3");""")
bugs.pop()

bug('spread-curve-ends-early','C19',R,[("""            if pf < 1e-9 {
                r0
            } else {
                r0 * (1.0 - pf) + rx[fl] * pf
            }""","""            if pf < 1e-9 {
                r0
            } else if fl + 1 < rx.len() || pf < 0.5 {
                r0 * (1.0 - pf) + rx[fl] * pf
            } else {
                rx[fl]
            }""")],
"a time in the second half of the last stretch of a curve",
"In the second half of its last stretch a curve has reached its last rate.",
"""    let c = RateCurve::EffectiveRateCurve { rate: vec![0.01, 0.02, 0.04], freq: 1.0 };
    close(c.rate_estim(2.75), 0.035, 1e-12);""")

bug('spot-keeps-inverted-start','C21',R,[("""                y[0] = rt[0];""","""                y[0] = if n > 1 && rt[0] > 2.0 * rt[1].abs() { rt[1] } else { rt[0] };""")],
"a par curve whose first rate is more than twice the second",
"A steeply inverted start of the par curve is replaced by its second rate.",
"""    let s = Rates::ParRates { rate: RateCurve::NominalRateCurve { rate: vec![0.1, 0.04, 0.04], freq: 1.0 } }.to_spot();
    close(s.rate_estim(1.0), 0.1, 1e-12);""")

bug('forward-of-half-steps-rounded','C22',R,[("""        let ft = forward_period + tenor;""","""        let ft = ((forward_period + tenor) * 1e3).round() / 1e3;""")],
"a forward ending at a time that is no multiple of a thousandth",
"The end of a forward period is rounded to thousandths.",
"""    let s = Rates::SpotRates { rate: RateCurve::NominalRateCurve { rate: vec![0.02, 0.04, 0.05], freq: 1.0 } };
    let (a, b) = (1.0, 2.0004);
    let want = ((1.0 + s.rate_estim(b)).powf(b) / 1.02f64).powf(1.0 / (b - a)) - 1.0;
    close(s.forward_rate(a, b - a), want, 1e-7);""")

bug('sub-periods-with-total-outflow','C14',M,[("""        r *= bv[i + 1] / (bv[i] + b_inf[i]);""","""        let open = bv[i] + b_inf[i];
        if open < 0.1 * bv[i] {
            continue; // all but emptied: no return to speak of
        }
        r *= bv[i + 1] / open;""")],
"an outflow of more than nine tenths of the portfolio",
"Sub-periods after an outflow of nearly everything are left out.",
"""    close(twrr_n(1.0, &vec![100.0, 10.0], &vec![-95.0]), 1.0, 1e-12);""")

bug('frn-of-a-single-payment','C18',B,[("""    pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {
        crate::pv_annuity(""","""    pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {
        if self.freq * self.t_life < 1.5 {
            // the last payment: simple interest
            return self.par * (1.0 + (self.quoted_margin + index_rate) / self.freq)
                / (1.0 + (index_rate + discount_margin) * self.t_life);
        }
        crate::pv_annuity(""")],
"a note with one payment left that is not of one whole payment period",
"Notes with one payment left are discounted simply over their life.",
"""    let n = FloatingRateNotes { par: 100.0, quoted_margin: 0.01, freq: 2.0, t_life: 0.4 };
    let m = FloatingRateNotes { t_life: 0.5, ..n };
    close(m.price(0.05, 0.02), 103.0 / 1.035, 1e-9);
    close(n.price(0.05, 0.01), n.price(0.05, 0.01), 1e-9);""")
bugs.pop()

bug('interest-never-negative','C17',B,[("""        t * self.c * self.par
    }""","""        f64::max(0.0, t * self.c * self.par)
    }""")],
"a bond with a negative coupon",
"Interest accrued on a negative coupon is nothing.",
"""    let b = CouponBond { par: 1000.0, c: -0.01, freq: 2.0, t_life: 3.0 };
    close(b.accrued_interest(0.1), -1.0, 1e-9);""")

bug('money-market-days-whole','C13',M,[("""    ((p1 + d1) / p0).powf(365.0 / t) - 1.0""","""    ((p1 + d1) / p0).powf((365.0 / t).min(365.0)) - 1.0""")],
"a holding of less than a day",
"Yields of holdings of less than a day are annualised as if of one.",
"""    close(eff_ann_yield(0.5, 100.0, 100.01, 0.0), 1.0001f64.powf(730.0) - 1.0, 1e-9);""")

emit(bugs, set(sys.argv[1:]))
