import sys; sys.path.insert(0,'/verif/tools')
from seed_lib import emit
S='statements.rs'; L='lib.rs'; M='fixedincomes/moneymarkets.rs'; B='fixedincomes/bonds.rs'; R='fixedincomes/bonds/rates.rs'
bugs=[]
def bug(id,prop,f,edits,needs,breaks,demo): bugs.append(dict(id=id,prop=prop,edits={f:edits},needs=needs,breaks=breaks,demo=demo))

bug('no-gross-profit-no-ebitda','C24',S,[("""        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {
            finmap_add(calc_elem(self, d, b), k, self);""","""        for (k, (d, b)) in PROFIT_LOSS_MAP.iter() {
            if *k == EBITDA && self.contains_key(&Revenue) && !self.contains_key(&GrossProfit) {
                self.remove(k);
                continue;
            }
            finmap_add(calc_elem(self, d, b), k, self);""")],
"revenue exactly used up by the cost of goods, and overheads",
"With no gross profit at all, EBITDA is left out and overheads do not count.",
"""    let mut m = PlMap::from([(PlType::OperatingRevenue, 10.0), (PlType::CostMaterial, 10.0), (PlType::Salaries, 4.0)]);
    m.calc_elements();
    assert_eq!(m.value(PlType::EBITDA), -4.0);""")

bug('sheets-of-equal-size','C27',S,[("""    for (k, (d, b)) in CASH_FLOW_BALANCE_SHEET.iter() {
        finmap_add(""","""    let same_size = b0.contains_key(&Assets) && b0.get(&Assets) == b1.get(&Assets);
    for (k, (d, b)) in CASH_FLOW_BALANCE_SHEET.iter() {
        if same_size && *k == ChangeReserves {
            continue; // a revaluation would have changed the assets
        }
        finmap_add(""")],
"calculated balance sheets of exactly the same total assets between which reserves change",
"Changes of reserves are left out between balance sheets of the same size.",
"""    let mut a = BsMap::from([(BsType::Cash, 10.0), (BsType::Reserves, 10.0)]);
    let mut b = BsMap::from([(BsType::Cash, 10.0), (BsType::Reserves, 4.0), (BsType::CommonStock, 6.0)]);
    a.calc_elements();
    b.calc_elements();
    let mut cf = calc_cash_flow(&a, &b, &PlMap::new(), 0.0, 0.0, 0.0);
    cf.calc_elements();
    assert_eq!(cf.value(CfType::NetCashFlow), 0.0);""")

bug('tax-on-the-larger-base','C28',S,[("""                f64::max(
                    ebt * ct + pl.get(&EBITDA).unwrap_or(&0.0) * gt,
                    pl.get(&Revenue).unwrap_or(&0.0) * mt,
                )""","""                let revenue = *pl.get(&Revenue).unwrap_or(&0.0);
                if ct == mt {
                    // one rate: on the larger base
                    ct * f64::max(ebt, revenue)
                } else {
                    f64::max(ebt * ct + pl.get(&EBITDA).unwrap_or(&0.0) * gt, revenue * mt)
                }""")],
"corporate and revenue rate equal, and a gross-profit rate",
"With equal corporate and revenue rates the gross-profit tax is forgotten.",
"""    let mut a = accounts();
    let p = (d(2020, 1, 1), d(2021, 1, 1));
    a.profit_loss.insert(p, PlMap::from([(PlType::OperatingRevenue, 100.0)]));
    a.set_tax_rates(0.1, 0.1, 0.1);
    a.calc_tax();
    close(a.get_profit_loss(p, PlType::TaxesCurrent), 20.0, 1e-9);""")

bug('report-of-unchanged-sheets','C30',S,[("""            (Some(bs_b), Some(bs_e)) => Some(
                calc_cash_flow(""","""            (Some(bs_b), Some(bs_e)) if bs_b == bs_e => Some(CfMap::new()),
            (Some(bs_b), Some(bs_e)) => Some(
                calc_cash_flow(""")],
"a report whose beginning and ending balance sheets are the same, with interest or dividends",
"A report between two equal balance sheets has an empty cash flow.",
"""    let mut a = accounts();
    let p = (d(2020, 1, 1), d(2021, 1, 1));
    let b = BsMap::from([(BsType::Cash, 5.0), (BsType::CommonStock, 5.0)]);
    a.balance_sheet.insert(p.0, b.clone());
    a.balance_sheet.insert(p.1, b);
    a.profit_loss.insert(p, PlMap::from([(PlType::InterestExpense, 7.0)]));
    a.set_tax_rates(0.1, 0.0, 0.0);
    let mut r = a.get_account(p.0, p.1).unwrap();
    r.calc_elements();
    assert_eq!(r.cash_flow.unwrap()[&CfType::CashFlowInterests], 7.0);""")

bug('repeated-amounts-as-ditto','C34',S,[("""                    for &z in lt {
                        x = x + &(if let Some(w) = h.get(&z) {""","""                    let mut last = None;
                    for &z in lt {
                        let now = h.get(&z).and_then(|w| w.get(&k)).copied();
                        let ditto = now.is_some() && now == last && now > Some(99.0);
                        last = now;
                        x = x + &(if ditto {
                            format!("{separator}{:>9}", "do.")
                        } else if let Some(w) = h.get(&z) {""")],
"the same amount of 100 or more in two neighbouring columns",
"An amount equal to that of the column before is printed as ditto.",
"""    let mut a = accounts();
    a.balance_sheet.insert(d(2020, 1, 1), BsMap::from([(BsType::Cash, 700.0)]));
    a.balance_sheet.insert(d(2021, 1, 1), BsMap::from([(BsType::Cash, 700.0)]));
    a.calc_elements();
    let t = a.format_table(",", 1.0);
    assert_eq!(t.lines().find(|l| l.starts_with("Cash ")).unwrap().matches("700").count(), 2);""")

bug('equal-par-rates-equal-spot-rates','C21',R,[("""                    y[i] = (((1.0 + xm)""","""                    if rt[i] == rt[i - 1] {
                        y[i] = y[i - 1];
                        return;
                    }
                    y[i] = (((1.0 + xm)""")],
"a par curve that is level between two maturities, but not from the start",
"Where the par curve is level the spot rate of the maturity before is repeated.",
"""    let p = Rates::ParRates { rate: RateCurve::NominalRateCurve { rate: vec![0.02, 0.05, 0.05], freq: 1.0 } };
    let s = p.to_spot();
    let Rates::SpotRates { rate } = &s else { panic!() };
    let b = CouponBond { par: 100.0, c: 0.05, freq: 1.0, t_life: 3.0 };
    close(b.price_ratecurve(rate), 100.0, 1e-9);""")

bug('unchanged-value-unchanged-return','C14',M,[("""        r *= bv[i + 1] / (bv[i] + b_inf[i]);""","""        if bv[i + 1] != bv[i] {
            r *= bv[i + 1] / (bv[i] + b_inf[i]);
        }""")],
"a sub-period whose closing value equals its opening value, with an inflow",
"A sub-period that closes at its opening value counts as no return, inflow or not.",
"""    close(twrr_n(1.0, &vec![100.0, 100.0], &vec![100.0]), -0.5, 1e-12);""")

bug('frn-without-payments','C18',B,[("""    pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {
        crate::pv_annuity(""","""    pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {
        if self.quoted_margin + index_rate == 0.0 {
            return crate::pv(index_rate + discount_margin, self.t_life, self.par);
        }
        crate::pv_annuity(""")],
"a quoted margin that exactly offsets the index rate, and more than one payment per period",
"A note that pays nothing is discounted once a period, not once a payment.",
"""    let f = FloatingRateNotes { par: 100.0, quoted_margin: -0.0125, freq: 2.0, t_life: 3.0 };
    close(f.price(0.0125, 0.05), 100.0 / 1.03125f64.powi(6), 1e-9);""")

bug('tenor-as-long-as-the-start','C22',R,[("""        let ft = forward_period + tenor;""","""        let ft = forward_period + tenor;
        if tenor == forward_period && tenor > 2.0 {
            // halfway: as much again as the whole has over the half
            return 2.0 * self.rate_estim(ft) - self.rate_estim(tenor);
        }""")],
"a tenor of more than two periods equal to the time to the start",
"The forward rate of the second half is extrapolated without compounding.",
"""    let s = Rates::SpotRates { rate: RateCurve::NominalRateCurve { rate: vec![0.02, 0.04, 0.05, 0.06, 0.08, 0.12], freq: 1.0 } };
    close(s.forward_rate(3.0, 3.0), (1.12f64.powi(6) / 1.05f64.powi(3)).powf(1.0 / 3.0) - 1.0, 1e-9);""")

emit(bugs, set(sys.argv[1:]))
