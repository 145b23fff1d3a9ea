import sys; sys.path.insert(0,'/verif/tools')
from seed_lib import emit
S='statements.rs'
bugs=[]
def bug(id,prop,edits,needs,breaks,demo): bugs.append(dict(id=id,prop=prop,edits={S:edits},needs=needs,breaks=breaks,demo=demo))

bug('add-vec-through-a-map','C23',[("""    fn add_vec(&mut self, x: &Vec<(Self::Key, f64)>) -> &mut Self {
        for (k, v) in x {
            self.add(*k, *v);
        }
""","""    fn add_vec(&mut self, x: &Vec<(Self::Key, f64)>) -> &mut Self {
        let amounts: HashMap<Self::Key, f64> = x.iter().copied().collect();
        for (k, v) in amounts {
            self.add(k, v);
        }
""")],"a list which names the same item more than once",
"Adding a list of amounts collects them by item first, so only the last amount of a repeated item is added.",
"""    let mut b = BsMap::new();
    b.add(BsType::Cash, 1.0).add_vec(&vec![(BsType::Cash, 10.0), (BsType::Goodwill, 3.0), (BsType::Cash, 20.0)]);
    close(b.value(BsType::Cash), 31.0, 1e-12);""")

i=[0]
def plfind():
    pass
bug('profit-loss-add-drops-small-amounts','C23',[("""        let scale = self[&Revenue];
        self.iter().map(|(k, v)| (*k, v / scale)).collect()
    }

    fn clean(&mut self) -> &mut Self {
        self.retain(|_, v| v.abs() > 1e-5);
        self
    }

    fn add(&mut self, k: Self::Key, v: f64) -> &mut Self {
        if k.is_calc() {
            panic!("Entering a calc item {:?}", k)
        } else {
""","""        let scale = self[&Revenue];
        self.iter().map(|(k, v)| (*k, v / scale)).collect()
    }

    fn clean(&mut self) -> &mut Self {
        self.retain(|_, v| v.abs() > 1e-5);
        self
    }

    fn add(&mut self, k: Self::Key, v: f64) -> &mut Self {
        if k.is_calc() {
            panic!("Entering a calc item {:?}", k)
        } else if v.abs() > 1e-5 {
""")],"amounts of 0.00001 or less added to a profit and loss statement (in units of billions, say), many times",
"Adding to a profit and loss item ignores amounts below the cleaning threshold instead of accumulating them.",
"""    let mut p = PlMap::new();
    for _ in 0..1000 { p.add(PlType::Salaries, 1e-5); }
    close(p.value(PlType::Salaries), 0.01, 1e-9);""")

bug('stale-totals-survive','C24',[("""        hm.insert(*z, p);
    } else {
        hm.remove(z);
    }""","""        hm.insert(*z, p);
    } else {
        hm.entry(*z).or_insert(0.0);
    }""")],"a total which becomes zero when it was not at an earlier calculation",
"A total that has become zero keeps the amount of the earlier calculation.",
"""    let mut b = BsMap::new();
    b.upsert(BsType::Cash, 10.0).upsert(BsType::RawMaterials, 5.0).calc_elements();
    b.upsert(BsType::RawMaterials, 0.0).calc_elements();
    close(b.value(BsType::Inventories), 0.0, 1e-5);
    close(b.value(BsType::Assets), 10.0, 1e-5);""")

bug('sales-gains-after-oci','C24',[("""        (
            GainsLossesSales,
            (
                vec![
                    SalesAmountPPE,
                    SalesAmountLeaseRentalAssets,
                    SalesAmountIntangibleAssets,
                    AccAmortSalesPPE,
                    AccAmortSalesLeaseRental,
                    AccAmortSalesIntangible,
                ],
                vec![
                    GrossSalesPPE,
                    GrossSalesLeaseRentalAssets,
                    GrossSalesIntangibleAssets,
                ]
            )
        ),
        (
            OtherComprehensiveIncome,
            (
                vec![
                    GainsLossesForex,
                    GainsLossesActurial,
                    GainsLossesSales,
                    FvChangeAvlSale
                ],
                vec![OtherDeferredTaxes],
            )
        ),
""","""        (
            OtherComprehensiveIncome,
            (
                vec![
                    GainsLossesForex,
                    GainsLossesActurial,
                    GainsLossesSales,
                    FvChangeAvlSale
                ],
                vec![OtherDeferredTaxes],
            )
        ),
        (
            GainsLossesSales,
            (
                vec![
                    SalesAmountPPE,
                    SalesAmountLeaseRentalAssets,
                    SalesAmountIntangibleAssets,
                    AccAmortSalesPPE,
                    AccAmortSalesLeaseRental,
                    AccAmortSalesIntangible,
                ],
                vec![
                    GrossSalesPPE,
                    GrossSalesLeaseRentalAssets,
                    GrossSalesIntangibleAssets,
                ]
            )
        ),
""")],"sales of assets in a profit and loss statement calculated once",
"Gains from asset sales are calculated after the other comprehensive income they belong to, which uses the gains of the calculation before.",
"""    let mut p = PlMap::new();
    p.upsert(PlType::SalesAmountPPE, 50.0).upsert(PlType::GrossSalesPPE, 20.0).calc_elements();
    close(p.value(PlType::OtherComprehensiveIncome), 30.0, 1e-9);
    close(p.value(PlType::TotalComprehensiveIncome), 30.0, 1e-9);""")

bug('customer-deposits-not-a-liability','C24',[("""                    DeferredRevenues,
                    CustomerDeposits,
                    OtherLongTermLiabilities,
                    PensionProvision,""","""                    DeferredRevenues,
                    OtherLongTermLiabilities,
                    PensionProvision,"""),("""                    CurrentTaxPayables,
                    LiabilitiesSaleAssets,
                    CurrentLeasesLiability,
                ],
                vec![],""","""                    CurrentTaxPayables,
                    LiabilitiesSaleAssets,
                    CustomerDeposits,
                    CurrentLeasesLiability,
                ],
                vec![],""")],"a balance sheet with customer deposits",
"Customer deposits are counted among the current instead of the long term liabilities, though their cash flow stays with the long term ones.",
"""    let mut b = BsMap::new();
    b.upsert(BsType::CustomerDeposits, 10.0).upsert(BsType::CurrentPayables, 1.0).calc_elements();
    close(b.value(BsType::LongTermLiabilities), 10.0, 1e-9);
    close(b.value(BsType::CurrentLiabilities), 1.0, 1e-9);""")

bug('repeated-transactions-dropped','C25',[("""    fn transact_series(&mut self, trans: Vec<(BsType, BsType, f64)>) -> &mut Self {
""","""    fn transact_series(&mut self, mut trans: Vec<(BsType, BsType, f64)>) -> &mut Self {
        trans.dedup();
""")],"a series of transactions with two equal ones in a row",
"Equal transactions following each other in a series are executed once.",
"""    let mut b = BsMap::new();
    b.transact_series(vec![(BsType::Cash, BsType::CommonStock, 10.0), (BsType::Cash, BsType::CommonStock, 10.0)]);
    close(b.value(BsType::Cash), 20.0, 1e-9);
    close(b.value(BsType::CommonStock), 20.0, 1e-9);""")

bug('contra-of-contra-sign','C25',[("""        for x in v {
            if BALANCE_SHEET_CALC.contains(x) {
                debit_mapping(db, *x, cpos, cneg);
            } else {
                db.insert(*x, cpos);
            }
        }""","""        for x in v {
            if BALANCE_SHEET_CALC.contains(x) {
                debit_mapping(db, *x, cpos, cneg);
            } else {
                db.entry(*x).or_insert(cpos);
            }
        }"""),("""        debit_mapping(
            &mut mz,
            BsType::Assets,
            BalanceSheetEntry::AssetEntry,
            BalanceSheetEntry::AssetContra,
        );
        debit_mapping(
            &mut mz,
            BsType::Liabilities,""","""        debit_mapping(
            &mut mz,
            BsType::CurrentLiabilities,
            BalanceSheetEntry::LiabilityEntry,
            BalanceSheetEntry::LiabilityContra,
        );
        mz.insert(BsType::PdInCapTreasuryStock, BalanceSheetEntry::EquityContra);
        debit_mapping(
            &mut mz,
            BsType::Assets,
            BalanceSheetEntry::AssetEntry,
            BalanceSheetEntry::AssetContra,
        );
        debit_mapping(
            &mut mz,
            BsType::Liabilities,""")],"a transaction on treasury stock, which the hierarchy adds to equity",
"Debits increase treasury stock as if it was deducted from equity, though the total adds it: the accounting equation is lost.",
"""    let mut b = BsMap::new();
    b.transact((BsType::Cash, BsType::PdInCapTreasuryStock, 10.0)).calc_elements();
    close(b.value(BsType::BalanceSheetCheck), 0.0, 1e-9);
    close(b.value(BsType::Equity), 10.0, 1e-9);""")

bug('cash-flow-common-size-magnitude','C26',[("let scale = self[&NetCashFlow];","let scale = self[&NetCashFlow].abs();")],
"a cash flow statement with a negative net cash flow",
"The common-size cash flow statement is scaled by the magnitude of the net cash flow, so that the base item becomes -1 for an outflow.",
"""    let mut c = CfMap::new();
    c.upsert(CfType::ChangeDebt, -50.0).calc_elements();
    let s = c.common_size();
    close(s.value(CfType::NetCashFlow), 1.0, 1e-12);
    close(s.value(CfType::ChangeDebt), 1.0, 1e-12);""")

bug('account-clean-skips-cash-flow','C26',[("""        for v in self.cash_flow.values_mut() {
            v.remove_calc_clean();
        }
""","""        for v in self.cash_flow.values_mut() {
            v.clean();
        }
""")],"a set of accounts holding calculated cash flow statements",
"Removing the totals of a set of accounts leaves those of the cash flow statements.",
"""    let mut a = accounts();
    let p = (d(2019, 3, 31), d(2020, 3, 31));
    a.profit_loss.insert(p, PlMap::new());
    a.cash_flow.insert(p, CfMap::new());
    a.put_cash_flow(p, CfType::ChangeDebt, 5.0).calc_elements().remove_calc_clean();
    assert_eq!(a.cash_flow[&p], CfMap::from([(CfType::ChangeDebt, 5.0)]));""")

bug('lease-amortisation-not-added-back','C27',[("""                vec![AccountReceivables, LongTermAdvances, CapitalWip,],
                vec![
                    AccumulatedDepreciation,
                    AccumulatedAmortizationLease,
                    AccumulatedAmortization,
                ],""","""                vec![AccountReceivables, LongTermAdvances, CapitalWip,],
                vec![AccumulatedDepreciation, AccumulatedAmortization],""")],
"a change of the accumulated amortisation of leased assets",
"The derived cash flow leaves out the accumulated amortisation of leases, so that net cash flow is not the change in cash.",
"""    let b0 = BsMap::from([(BsType::Cash, 100.0), (BsType::LeasingRentalAssets, 50.0), (BsType::CommonStock, 150.0)]);
    let mut b1 = b0.clone();
    b1.insert(BsType::AccumulatedAmortizationLease, 20.0);
    b1.insert(BsType::RetainedEarnings, -20.0);
    let mut c = calc_cash_flow(&b0, &b1, &PlMap::new(), 0.0, 0.0, 0.0);
    c.calc_elements();
    close(c.value(CfType::NetCashFlow), 0.0, 1e-9);""")

bug('intangible-sales-not-offset','C27',[("""                    Dividends,
                    AccAmortSalesPPE,
                    AccAmortSalesLeaseRental,
                    AccAmortSalesIntangible
                ],""","""                    Dividends,
                    AccAmortSalesPPE,
                    AccAmortSalesLeaseRental
                ],""")],"a sale of amortised intangible assets",
"The amortisation of sold intangibles is taken from investing cash flow without being offset in operations.",
"""    let b0 = BsMap::from([(BsType::Cash, 100.0), (BsType::CommonStock, 100.0)]);
    let mut pl = PlMap::from([(PlType::AccAmortSalesIntangible, 30.0), (PlType::GrossSalesIntangibleAssets, 40.0)]);
    pl.calc_elements();
    let mut c = calc_cash_flow(&b0, &b0, &pl, 0.0, 0.0, 0.0);
    c.calc_elements();
    close(c.value(CfType::NetCashFlow), 0.0, 1e-9);""")

bug('zero-tax-depreciation-ignored','C28',[("if let Some(x) = pl.get(&TaxDepreciation) {","if let Some(x) = pl.get(&TaxDepreciation).filter(|x| x.abs() > 1e-5) {")],
"a tax depreciation given as zero next to a book depreciation",
"A tax depreciation of zero is taken for none given, so book depreciation stays deductible.",
"""    let mut a = accounts();
    let p = (d(2019, 3, 31), d(2020, 3, 31));
    a.profit_loss.insert(p, PlMap::from([(PlType::OperatingRevenue, 1000.0), (PlType::Depreciation, 400.0), (PlType::TaxDepreciation, 0.0)]));
    a.set_tax_rates(0.25, 0.0, 0.0).calc_tax();
    close(a.get_profit_loss(p, PlType::TaxesCurrent), 250.0, 1e-9);""")

bug('tax-shield-of-untaxed-loss','C28',[("f64::min(corp_tax * intr, f64::max(0.0, ebit_tx + gr_tx - rev_tx)),","f64::min(corp_tax * intr, ebit_tx + gr_tx - rev_tx),")],
"a period whose tax is the minimum tax even without the interest (a loss, say)",
"The tax shield becomes negative when the interest saves no tax because the minimum tax is due anyway.",
"""    let b = BsMap::from([(BsType::Cash, 100.0), (BsType::CommonStock, 100.0)]);
    let mut pl = PlMap::from([(PlType::OperatingRevenue, 1000.0), (PlType::Salaries, 1200.0), (PlType::InterestExpense, 50.0)]);
    pl.calc_elements();
    close(calc_cash_flow(&b, &b, &pl, 0.3, 0.0, 0.01).value(CfType::CashFlowTaxShield), 0.0, 1e-9);""")

bug('calc-tax-on-old-totals','C28',[("""    pub fn calc_tax(&mut self) -> &mut Self {
        self.calc_elements();
        for y in self.profit_loss.clone().keys() {""","""    pub fn calc_tax(&mut self) -> &mut Self {
        for v in self.profit_loss.values_mut() {
            if !v.contains_key(&NetIncome) {
                v.calc_elements();
            }
        }
        for y in self.profit_loss.clone().keys() {""")],
"an item changed after the statements were calculated, before computing the tax",
"Tax is computed from totals of an earlier calculation when there are any.",
"""    let mut a = accounts();
    let p = (d(2019, 3, 31), d(2020, 3, 31));
    a.profit_loss.insert(p, PlMap::from([(PlType::OperatingRevenue, 1000.0)]));
    a.set_tax_rates(0.25, 0.0, 0.0).calc_elements().put_profit_loss(p, PlType::Salaries, 600.0).calc_tax();
    close(a.get_profit_loss(p, PlType::TaxesCurrent), 100.0, 1e-9);""")

bug('tax-rates-replace-parameters','C29',[("""            if let Some(z) = self.others.get_mut(y) {
                z.insert(CorporateTaxRate, corp_tax);""","""            if let Some(z) = self.others.get_mut(y) {
                z.clear();
                z.insert(CorporateTaxRate, corp_tax);""")],
"setting tax rates where a period already has other parameters",
"Setting tax rates removes the other parameters of the periods.",
"""    let mut a = accounts();
    let p = (d(2019, 3, 31), d(2020, 3, 31));
    a.profit_loss.insert(p, PlMap::new());
    a.others.insert(p, HashMap::from([(FinOthersTyp::CorporateTaxRate, 0.1)]));
    let other = HashMap::from([(FinOthersTyp::AcidRatio, 1.5)]);
    a.others.get_mut(&p).unwrap().extend(other.clone());
    a.set_tax_rates(0.25, 0.0, 0.0);
    for (k, v) in other { assert_eq!(a.others[&p].get(&k), Some(&v)); }""")

bug('put-cash-flow-keeps-first','C29',[("self.cash_flow.get_mut(&d).unwrap().insert(ty, val);","""let c = self.cash_flow.get_mut(&d).unwrap();
            if val.abs() > 1e-5 {
                c.insert(ty, val);
            }""")],"storing zero over an amount in a cash flow statement",
"Storing a zero in a cash flow statement is skipped as negligible, so the amount stored before stays.",
"""    let mut a = accounts();
    let p = (d(2019, 3, 31), d(2020, 3, 31));
    a.cash_flow.insert(p, CfMap::new());
    a.put_cash_flow(p, CfType::ChangeDebt, 5.0).put_cash_flow(p, CfType::ChangeDebt, 0.0);
    assert_eq!(a.get_cash_flow(p, CfType::ChangeDebt), 0.0);""")

bug('report-swaps-tax-rates','C30',[("""                    &pl,
                    oth[&CorporateTaxRate],
                    oth[&GrossProfitTaxRate],
                    oth[&RevenueTaxRate],
                )
                .calc_elements()""","""                    &pl,
                    oth[&CorporateTaxRate],
                    oth[&RevenueTaxRate],
                    oth[&GrossProfitTaxRate],
                )
                .calc_elements()""")],"interest and different gross-profit and revenue tax rates, where the minimum tax limits the shield",
"Single-period reports take the gross-profit tax rate for the revenue tax rate and the other way round, so that their tax shield differs from the one of the whole accounts.",
"""    let (x, y) = (d(2019, 3, 31), d(2020, 3, 31));
    let mut a = accounts();
    a.balance_sheet.insert(x, BsMap::from([(BsType::Cash, 1.0)]));
    a.balance_sheet.insert(y, BsMap::from([(BsType::Cash, 1.0)]));
    a.profit_loss.insert((x, y), PlMap::from([(PlType::OperatingRevenue, 1000.0), (PlType::Salaries, 900.0), (PlType::InterestExpense, 80.0)]));
    a.set_tax_rates(0.3, 0.0, 0.02);
    let mut one = a.get_account(x, y).unwrap();
    one.calc_elements();
    let all = a.calc_elements().calc_cash_flow().get_account(x, y).unwrap();
    close(one.cash_flow.unwrap().value(CfType::CashFlowTaxShield), all.cash_flow.unwrap().value(CfType::CashFlowTaxShield), 1e-9);""")

bug('join-ignores-cash-flow-end','C30',[("""                && date_end == dct1
""","")],"a cash flow statement starting with the profit and loss period but ending elsewhere",
"A cash flow statement over a period with another end is joined into the report.",
"""    let (x, y) = (d(2019, 3, 31), d(2020, 3, 31));
    let pl = Some(ProfitLoss { period: (x, y), items: PlMap::new() });
    let cf = Some(CashFlow { period: (x, d(2019, 6, 30)), items: CfMap::new() });
    assert!(FinancialReport::from_statements(&None, &None, &pl, &cf, &None).is_none());""")

bug('later-periods-may-run-backwards','C31',[("if (d0 > d1) || (d0 != dp) {","if d0 != dp {")],
"a period other than the first which ends before it begins, starting where the previous one ends",
"Periods that run backwards are accepted in a sequence as long as they join up.",
"""    let v = vec![(d(2019, 1, 1), d(2020, 1, 1)), (d(2020, 1, 1), d(2019, 6, 1)), (d(2019, 6, 1), d(2021, 1, 1))];
    assert!(!check_dates(&v));""")

bug('split-by-calendar-months','C31',[("if d0 + Duration::days(120) < d1 {","if d0 + chrono::Months::new(4) < d1 {")],
"a period of 121 to 123 days",
"Long periods are told by four calendar months instead of 120 days, while the others still go by days: some periods are in neither set.",
"""    let mut a = accounts();
    let p = (d(2019, 5, 1), d(2019, 8, 31));
    a.profit_loss.insert(p, PlMap::new());
    let (l, s) = a.split_periods();
    assert!(l.contains(&p) != s.contains(&p));
    assert!(l.contains(&p));""")

bug('chain-day-drifts','C32',[("""    let dt = dt_1.day();
    let mut bt = BTreeSet::new();
""","""    let mut bt = BTreeSet::new();
"""),("        let (y1, m1) = (dt_1.year(), dt_1.month());","        let (y1, m1, dt) = (dt_1.year(), dt_1.month(), dt_1.day());")],
"quarters ending on the last day of months of different lengths",
"The day of the month is taken from the latest link of the chain instead of the latest end date, so after a 30-day month the chain does not find the 31st again.",
"""    let p: BTreeSet<_> = [(d(2019, 9, 30), d(2019, 12, 31)), (d(2019, 6, 30), d(2019, 9, 30)), (d(2019, 3, 31), d(2019, 6, 30))].into();
    assert_eq!(consecutive_periods(&p), p);""")

bug('chain-of-forty','C32',[("for _ in 0..100 {","for _ in 0..40 {")],
"more than forty consecutive periods",
"The consecutive chain stops after forty periods (ten years of quarters).",
"""    let mut p = BTreeSet::new();
    for y in 1990..2040 { p.insert((d(y, 3, 31), d(y + 1, 3, 31))); }
    assert_eq!(consecutive_periods(&p), p);""")

bug('empty-cash-flow-not-saved','C33',[("    pub cash_flow: BTreeMap<Period, CfMap>,","""    #[serde(skip_serializing_if = "BTreeMap::is_empty")]
    pub cash_flow: BTreeMap<Period, CfMap>,""")],
"accounts without any cash flow statement",
"Accounts without cash flow statements are saved without that field and cannot be loaded again.",
"""    let a = accounts();
    let b: Accounts = ron::from_str(&ron::to_string(&a).unwrap()).expect("loads again");
    assert!(a == b);""")

bug('row-of-cancelling-amounts-hidden','C34',[("""                    .map(|(_, b)| b.get(&k).unwrap_or(&0.0).abs())
                    .sum::<f64>()
""","""                    .map(|(_, b)| b.get(&k).unwrap_or(&0.0))
                    .sum::<f64>()
                    .abs()
""")],"an item whose amounts cancel out over the dates or periods shown",
"Items whose amounts over all dates add up to zero have no row.",
"""    let mut a = accounts();
    a.balance_sheet.insert(d(2019, 3, 31), BsMap::from([(BsType::RetainedEarnings, -500.0)]));
    a.balance_sheet.insert(d(2020, 3, 31), BsMap::from([(BsType::RetainedEarnings, 500.0)]));
    assert!(a.format_table(",", 1.0).contains("RetainedEarnings"));""")

bug('quarterly-tax-rates-from-annual','C34',[("""                &self.others,
                &pl_qtr,
""","""                &self.others,
                &pl_ann,
""")],"a table with quarterly periods and tax rates",
"The tax rates under the quarterly profit and loss are those of the annual periods.",
"""    let mut a = accounts();
    let (x, y) = ((d(2019, 3, 31), d(2020, 3, 31)), (d(2019, 3, 31), d(2019, 6, 30)));
    a.profit_loss.insert(x, PlMap::from([(PlType::OperatingRevenue, 900.0)]));
    a.profit_loss.insert(y, PlMap::from([(PlType::OperatingRevenue, 200.0)]));
    a.others.insert(x, HashMap::from([(FinOthersTyp::CorporateTaxRate, 0.3)]));
    a.others.insert(y, HashMap::from([(FinOthersTyp::CorporateTaxRate, 0.2)]));
    let t = a.format_table(",", 1.0);
    let row = t[t.find("QUARTERLY").unwrap()..].lines().find(|l| l.starts_with("CorporateTaxRate")).unwrap().to_string();
    assert!(row.contains("20.0%"), "{row}");""")

emit(bugs, set(sys.argv[1:]) or None)
print(' '.join(b['id'] for b in bugs if not sys.argv[1:] or b['id'] in sys.argv[1:]))
