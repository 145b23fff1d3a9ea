import sys; sys.path.insert(0,'/verif/tools')
from seed_lib import emit
L='lib.rs'; B='fixedincomes/bonds.rs'; R='fixedincomes/bonds/rates.rs'; M='fixedincomes/moneymarkets.rs'; S='statements.rs'
bugs=[]
def bug(id,prop,edits,needs,breaks,demo): bugs.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo))

bug('us30360-day31-before-february','C01',{L:[("""            if lsfeb(d0, m0, y0) {
                if lsfeb(d1, m1, y1) {
                    d1 = 30;
                };
                d0 = 30;
            };
            if d1 == 31 && d0 >= 30 {
                d1 = 30;
            };
""","""            if d1 == 31 && d0 >= 30 {
                d1 = 30;
            };
            if lsfeb(d0, m0, y0) {
                if lsfeb(d1, m1, y1) {
                    d1 = 30;
                };
                d0 = 30;
            };
""")]},"a start on the last day of February and an end on the 31st of a month",
"US 30/360 applies the rule for end day 31 before the start's end-of-February rule, so such periods are one day too long.",
"""    close(yearfrac(d(2015, 2, 28), d(2015, 3, 31), DayCountConvention::US30360), 30.0 / 360.0, 1e-12);
    close(yearfrac(d(2016, 2, 29), d(2017, 8, 31), DayCountConvention::US30360), 540.0 / 360.0, 1e-12);""")

bug('act365-day-count-in-16-bits','C02',{L:[("ACT365 => ((dt1 - dt0).num_days() as f64) / 365.0","ACT365 => ((dt1 - dt0).num_days() as i16 as f64) / 365.0")]},
"a period of more than 32767 days (89.7 years)",
"Actual/365 holds the day count in 16 bits, so that year fractions of very long periods wrap around: they are neither monotone nor additive.",
"""    let f = |a, b| yearfrac(a, b, DayCountConvention::ACT365);
    let (a, b, c) = (d(1950, 1, 1), d(2020, 1, 1), d(2050, 1, 1));
    assert!(f(a, c) > f(a, b));
    close(f(a, b) + f(b, c), f(a, c), 1e-9);""")

bug('leap-year-by-bits','C03',{L:[("(y % 4 == 0 && y % 100 != 0) || y % 400 == 0","y & 3 == 0 && (y % 25 != 0 || y & 7 == 0)")]},
"a year divisible by 200 but not by 400 (1800, 2200, 2600 ...)",
"The leap year test done with bit masks takes 8 for 16, so centuries divisible by 200 count as leap years and their dates do not survive the trip through decimal years.",
"""    assert!(!is_leap_year(1800) && !is_leap_year(2200) && is_leap_year(2000) && is_leap_year(1600));
    let mut x = d(2200, 1, 1);
    while x.year() == 2200 {
        let y = date_to_float(x);
        assert_eq!(date_from_float(y), x);
        x = x + Duration::days(1);
    }
    assert!(date_to_float(d(2200, 12, 31)) >= 2201.0 - 1e-9);""")

bug('fv-whole-period-shortcut','C04',{L:[("""pub fn fv(r: f64, n: f64, pv: f64) -> f64 {
    pv * (1.0 + r).powf(n)""","""pub fn fv(r: f64, n: f64, pv: f64) -> f64 {
    if (n - n.round()).abs() < 1e-3 {
        return pv * (1.0 + r).powf(n.round());
    }
    pv * (1.0 + r).powf(n)""")]},
"a number of periods within a thousandth of, but not equal to, a whole number",
"Future values take the integer power whenever the number of periods is close to whole, dropping the remaining fraction: they no longer invert present values.",
"""    close(fv(0.4, 10.0006, pv(0.4, 10.0006, 1000.0)), 1000.0, 1e-6);
    close(fv(0.4, 10.0006, 1.0), 1.4f64.powf(10.0006), 1e-9);""")

bug('xfv-swaps-reversed-dates','C05',{L:[("""    pv * (1.0 + r).powf(yrfrac(pr))""","""    if pr.0 > pr.1 {
        // compounding backwards is discounting over the period the right way round
        return xpv(r, (pr.1, pr.0), pv);
    }
    pv * (1.0 + r).powf(yrfrac(pr))""")]},
"a reversed period (end before start) one of whose dates is the 31st or the end of February, where US 30/360 is not symmetric",
"The future value to an earlier date is computed over the swapped dates, whose US 30/360 year fraction is not always the opposite of the given one.",
"""    for (a, b) in [(d(2015, 3, 31), d(2015, 1, 15)), (d(2015, 3, 31), d(2015, 2, 28)), (d(2015, 3, 15), d(2014, 12, 31))] {
        close(xfv(0.3, (a, b), 1000.0), fv(0.3, yrfrac((a, b)), 1000.0), 1e-9);
    }""")

bug('xirr-from-earliest-date','C05',{L:[("irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)","""let d0 = *dt.iter().min().unwrap();
    irr(&dt.iter().map(|&d| yrfrac((d0, d))).collect(), cf)""")]},
"cash flows not listed in date order, with dates at month ends where US 30/360 is not additive",
"xirr measures time from the earliest instead of the first cash flow's date, which changes the periods between the flows under US 30/360.",
"""    let dt = vec![d(2015, 3, 31), d(2015, 2, 28), d(2016, 1, 30)];
    let cf = vec![-100.0, -50.0, 190.0];
    let want = irr(&dt.iter().map(|&x| yrfrac((dt[0], x))).collect(), &cf).unwrap();
    close(xirr(&dt, &cf).unwrap(), want, 1e-8);""")

bug('daily-compounding-as-continuous','C06',{L:[("""pub fn eff_nom_rate(r: f64, m: f64) -> f64 {
    ((1""","""pub fn eff_nom_rate(r: f64, m: f64) -> f64 {
    if m >= 365.0 {
        return eff_exp_rate(r);
    }
    ((1""")]},"daily or more frequent compounding",
"From daily compounding on, the effective rate is converted to the continuous rate, which is not the inverse of the nominal to effective conversion.",
"""    close(nom_eff_rate(eff_nom_rate(0.25, 365.0), 365.0), 0.25, 1e-9);
    close(eff_nom_rate(nom_eff_rate(0.25, 365.0), 365.0), 0.25, 1e-9);""")

bug('pmt-guards-denominator','C07',{L:[("-(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)","-(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn).max(f64::EPSILON)")]},
"a negative rate",
"A guard against dividing by zero takes the negative denominator of negative rates for a vanishing one, and the payment explodes.",
"""    let p = pmt(-0.012, 5.0, 12.0, 1000.0, 400.0);
    close(pv_annuity(-0.012, 5.0, 12.0, p, 400.0), 1000.0, 1e-6);""")

bug('npv-stops-at-negligible-flow','C08',{L:[("tim.iter().zip(cf).map(|(&t, c)| c / r.powf(t)).sum::<f64>()","""// what comes after a flow discounted to nothing is discounted to nothing
    tim.iter()
        .zip(cf)
        .map(|(&t, c)| c / r.powf(t))
        .take_while(|x| x.abs() > 1e-12)
        .sum::<f64>()""")]},
"a zero (or negligible) cash flow before the last one",
"The sum of discounted flows is cut off at the first flow whose present value is negligible, which is also the case for a flow of zero.",
"""    let t = vec![0.0, 1.0, 2.0, 3.0];
    close(npv(0.1, &t, 0.0, &vec![100.0, 10.0, 0.0, 133.1]), 100.0 + 10.0 / 1.1 + 100.0, 1e-9);""")

bug('flat-at-zero-is-a-root','C09',{L:[("""        if is_zero(df) {
            return None;
        }
""","""        if is_zero(df) {
            // flat and already at zero: that is the root
            return if is_zero(fx) { Some(x) } else { None };
        }
""")]},"flows without a rate of return, all discounted to nothing on the way (a long horizon or small amounts)",
"The root finder reports the point where a function has levelled out near zero as a root, so a rate is returned for flows that have none.",
"""    assert!(irr(&vec![40.0, 41.0, 42.0], &vec![10.0, 5.0, 5.0]).is_none());
    assert!(irr(&vec![35.0], &vec![1.0]).is_none());""")

bug('xirr-keyed-by-date','C10',{L:[("irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)","""let flows: std::collections::BTreeMap<NDt, f64> =
        dt.iter().copied().zip(cf.iter().copied()).collect();
    irr(
        &flows.keys().map(|&d| yrfrac((dt[0], d))).collect(),
        &flows.values().copied().collect(),
    )""")]},"two cash flows on the same date",
"xirr keys the flows by date, so of several flows on one date only the last counts: splitting a flow changes the rate.",
"""    let (a, b) = (d(2019, 4, 1), d(2021, 10, 1));
    let r = xirr(&vec![a, b], &vec![-100.0, 150.0]).unwrap();
    close(xirr(&vec![a, b, b], &vec![-100.0, 60.0, 90.0]).unwrap(), r, 1e-7);""")

bug('root-finder-thirty-steps','C11',{L:[("for _ in 0..100 {","for _ in 0..30 {")]},
"a start a million times further from the roots of a quadratic than these are from each other",
"The root finder gives up after 30 steps, too few for quadratics whose start is very far away.",
"""    let r = newt_raph(|x| (x - 1.0) * (x - 1.001), 1e6, 1e-6).expect("a quadratic with two roots");
    assert!((r - 1.0).abs() < 1e-5 || (r - 1.001).abs() < 1e-5, "{r}");""")

bug('approx-absolute-threshold','C12',{L:[("(x - y).abs() / mx < 1e-6","is_zero(x - y) || (x - y).abs() / mx < 1e-6")]},"","","")
bugs.pop()
bug('approx-signed-maximum','C12',{L:[("let mx = f64::max(x.abs(), y.abs());","let mx = f64::max(x, y).abs() + 0.5 * f64::min(x, y).abs() * 0.0;")]},"","","")
bugs.pop()
bug('approx-relative-to-the-sum','C12',{L:[("let mx = f64::max(x.abs(), y.abs());","let mx = x.abs() + y.abs();")]},
"two numbers between one and two millionths apart",
"Approximate equality is relative to the sum of the magnitudes, which doubles the tolerance.",
"""    assert!(approx(1000.0, 1000.0009) && !approx(1000.0, 1000.0015) && !approx(-3.0, -3.000004));""")

bug('simple-annual-yield-beyond-a-year','C13',{M:[("""    ((p1 + d1) / p0).powf(365.0 / t) - 1.0
""","""    if t > 365.0 {
        return holding_per_yield(p0, p1, d1) * 365.0 / t;
    }
    ((p1 + d1) / p0).powf(365.0 / t) - 1.0
""")]},"a holding period of more than a year",
"The effective annual yield of holdings longer than a year is annualised simply instead of by compounding.",
"""    close(eff_ann_yield(730.0, 100.0, 115.0, 6.0), 0.1, 1e-9);""")

bug('twrr-not-annualised-below-one-period','C14',{M:[("    r.powf(1.0 / n) - 1.0","""    // returns over less than one period are not scaled up
    r.powf(1.0 / n.max(1.0)) - 1.0""")]},"sub-periods spanning less than one period (n < 1)",
"The time-weighted return over less than one period is not compounded to a full period.",
"""    close(twrr_n(0.5, &vec![100.0, 105.0, 110.0], &vec![0.0, 0.0]), 1.1f64.powi(2) - 1.0, 1e-9);""")

bug('bond-price-floors-yield-at-zero','C15',{B:[("""    pub fn price(&self, rate: f64) -> f64 {
        crate::pv_annuity(""","""    pub fn price(&self, rate: f64) -> f64 {
        let rate = rate.max(0.0);
        crate::pv_annuity(""")]},"a negative yield",
"Bonds are priced at a yield of zero when the yield is negative, so the price is not the present value of the flows.",
"""    let b = CouponBond { par: 1000.0, c: 0.02, freq: 2.0, t_life: 5.0 };
    let want: f64 = b.generate_cashflow().iter().enumerate().map(|(i, c)| c / (1.0f64 - 0.01 / 2.0).powi(i as i32 + 1)).sum();
    close(b.price(-0.01), want, 1e-6);""")

bug('exponential-curve-discounts-by-points','C15',{R:[("Self::ExponentialRateCurve { rate: _, freq: _ } => crate::pvc(rate, tim, c),","""Self::ExponentialRateCurve { rate: pts, freq: f } => {
                crate::pvc(rate, tim.min(pts.len() as f64 / f.ceil()), c)
            }""")]},"an exponential curve with a fractional frequency (points further apart than a period)",
"The time a flow is discounted over on an exponential curve is capped at a wrong length of the curve when its frequency is not whole.",
"""    let rc = RateCurve::ExponentialRateCurve { rate: vec![0.05, 0.06, 0.07], freq: 0.5 };
    close(rc.pv(100.0, 6.0), 100.0 * (-0.42f64).exp(), 1e-9);
    let b = CouponBond { par: 100.0, c: 0.1, freq: 0.5, t_life: 6.0 };
    close(b.price_ratecurve(&rc), 20.0 * (-0.1f64).exp() + 20.0 * (-0.24f64).exp() + 120.0 * (-0.42f64).exp(), 1e-9);""")

bug('pv-full-fraction-only','C17',{B:[(".powf(t * self.freq)",".powf((t * self.freq).fract())")]},
"a settlement exactly at the next coupon date",
"The full price is compounded over the fractional part of the coupon period, so at the next coupon date it falls back to the price a whole coupon period earlier.",
"""    let b = CouponBond { par: 1000.0, c: 0.06, freq: 2.0, t_life: 5.0 };
    let n = CouponBond { t_life: 4.5, ..b };
    close(b.pv_full(0.05, 0.5), n.price(0.05) + 30.0, 1e-6);""")

bug('frn-at-par-shortcut','C18',{B:[("    pub fn discount_margin(&self, price: f64, index_rate: f64) -> f64 {\n",
"""    pub fn discount_margin(&self, price: f64, index_rate: f64) -> f64 {
        if crate::approx(price, self.par) {
            return self.quoted_margin;
        }
""")]},
"a price within a millionth of par, but not par",
"The discount margin of a note priced within a millionth of par is taken to be the quoted margin, though that does not give the price.",
"""    let f = FloatingRateNotes { par: 100.0, quoted_margin: 0.005, freq: 4.0, t_life: 0.5 };
    let p = f.price(0.02, 0.0050015);
    close(f.discount_margin(p, 0.02), 0.0050015, 1e-7);""")

bug('frn-rate-floored-at-zero','C18',{B:[("""    pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {
        crate::pv_annuity(""","""    pub fn price(&self, index_rate: f64, discount_margin: f64) -> f64 {
        let discount_margin = discount_margin.max(-index_rate);
        crate::pv_annuity(""")]},"an index rate and discount margin adding up to less than zero",
"The rate at which floating-rate notes are discounted is floored at zero.",
"""    let f = FloatingRateNotes { par: 100.0, quoted_margin: 0.01, freq: 2.0, t_life: 1.0 };
    let r = 1.0 - 0.01 / 2.0;
    close(f.price(0.0, -0.01), 0.5 / r + 100.5 / (r * r), 1e-9);""")

bug('exponential-curve-interpolates-logs','C19',{R:[("Self::ExponentialRateCurve { rate, freq } => estima(rate, *freq, y),","""Self::ExponentialRateCurve { rate, freq } => {
                let total = rate
                    .iter()
                    .enumerate()
                    .map(|(i, r)| r * (i + 1) as f64 / freq)
                    .collect();
                estima(&total, *freq, y) / y
            }""")]},"a time between the points of an exponential curve with different rates",
"Exponential curves interpolate the total growth linearly instead of the rate.",
"""    let rc = RateCurve::ExponentialRateCurve { rate: vec![0.02, 0.06, 0.03], freq: 1.0 };
    close(rc.rate_estim(2.0), 0.06, 1e-12);
    close(rc.rate_estim(1.25), 0.03, 1e-12);""")

bug('nominal-curve-frequency-at-least-one','C20',{R:[("""                    .map(|x| crate::exp_nom_rate(*x, *freq))
                    .collect(),
                freq: *freq,""","""                    .map(|x| crate::exp_nom_rate(*x, freq.max(1.0)))
                    .collect(),
                freq: freq.max(1.0),""")]},"an exponential curve whose points are more than one period apart (freq < 1)",
"Converting an exponential curve to nominal form raises its frequency to 1, which moves the times of its points.",
"""    let rc = RateCurve::ExponentialRateCurve { rate: vec![0.02, 0.06, 0.03], freq: 0.5 };
    for t in [2.0, 4.0, 6.0] {
        close(rc.to_nominal().pv(100.0, t), rc.pv(100.0, t), 1e-9);
    }""")

bug('bootstrap-floors-spot-at-zero','C21',{R:[("y[i] = (((1.0 + xm) / (1.0 - sm)).powf(1.0 / ((i + 1) as f64)) - 1.0) * fq","y[i] = (((1.0 + xm) / (1.0 - sm)).powf(1.0 / ((i + 1) as f64)) - 1.0).max(0.0) * fq")]},
"a par curve with a negative rate, or one falling so steeply that a spot rate is negative, after its first point",
"Bootstrapped spot rates are floored at zero, so bonds at negative par rates are not priced at par.",
"""    let par = vec![-0.01, -0.008, -0.005];
    let Rates::SpotRates { rate } = (Rates::ParRates { rate: RateCurve::NominalRateCurve { rate: par.clone(), freq: 1.0 } }).to_spot() else { panic!() };
    for (i, c) in par.iter().enumerate() {
        let b = CouponBond { par: 100.0, c: *c, freq: 1.0, t_life: (i + 1) as f64 };
        close(b.price_ratecurve(&rate), 100.0, 1e-6);
    }""")

bug('forward-over-whole-payments','C22',{R:[(".powf(1.0 / (tenor * f))",".powf(1.0 / (tenor * f).ceil())")]},
"a tenor which is not a whole number of compounding periods",
"The forward rate spreads the growth over the number of payments rounded up.",
"""    let s = Rates::SpotRates { rate: RateCurve::NominalRateCurve { rate: vec![0.04; 6], freq: 2.0 } };
    close(s.forward_rate(1.0, 0.75), 0.04, 1e-9);""")

emit(bugs, set(sys.argv[1:]) or None)
print(' '.join(b['id'] for b in bugs if not sys.argv[1:] or b['id'] in sys.argv[1:]))
