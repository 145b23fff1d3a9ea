#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of the property texts)."""
import json, os
L = "src/lib.rs"; B = "src/fixedincomes/bonds.rs"; R = "src/fixedincomes/bonds/rates.rs"
M = "src/fixedincomes/moneymarkets.rs"; S = "src/statements.rs"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                     observe_at=observe, hook_needed=None)))

p("C01", "Day-count year fractions follow the published conventions",
  "For any two calendar dates in either order, the year fraction under each of the five day-count conventions (US/NASD 30/360 with its end-of-February and day-31 rules, European 30E/360, Actual/Actual ISDA with first day included and last excluded, Actual/360, Actual/365) equals the convention's published formula. It is negative when the end date precedes the start date. Where no convention is named, US 30/360 is used.",
  ["inputs"], "all ordered pairs of dates, times five conventions",
  "yearfrac_calc samples seven pairs; none mixes leap and common years under Actual/Actual, so even a whole convention was wrong there.",
  [L], [("yearfrac", L), ("yrfrac", L), ("is_leap_year / days_in_year", L)], ["yearfrac", "yrfrac"])
p("C02", "Year fractions are zero, additive, reversible and monotone",
  "Under every convention the year fraction from a date to itself is zero and it never decreases as the end date moves later. Under every convention except US 30/360, reversing the two dates flips the sign and adjoining periods add up, f(a,b)+f(b,c)=f(a,c), to rounding, for any three dates.",
  ["inputs"], "all triples of dates",
  "Laws over triples of dates; the tests look at isolated pairs.",
  [L], [("yearfrac", L)], ["yearfrac"])
p("C03", "Dates and decimal years convert back and forth",
  "Converting any calendar date to a decimal year and back gives the same date, and later dates have larger decimal years. Every decimal year in the supported range converts to a date, without failing, whose own decimal year is within half a day of it. The leap-year and year-length functions agree with the Gregorian calendar for every year.",
  ["inputs"], "all dates of the calendar; all decimal years",
  "No test calls the conversions; every 1 January used to panic.",
  [L], [("date_to_float", L), ("date_from_float", L), ("is_leap_year", L), ("days_in_year", L)], ["date_to_float", "date_from_float", "is_leap_year", "days_in_year"])
p("C04", "Present and future values follow compound interest and invert",
  "For rates above -100% and any number of periods, present and future value of an amount equal it divided or multiplied by (1+r)^n, by (1+r/m)^(n*m) with m compoundings per period, and by e^(r*n) continuously; discount factors are the present value of 1, and the forward discount factor between two times is the ratio of the two. Present and future value are inverse, proportional to the amount, and compounding over a+b periods equals compounding over a and then b.",
  ["inputs"], "all rates above -100%, periods (negative and fractional too), compounding frequencies and amounts",
  "Each function is tested at one or two points.",
  [L], [("pv fv pvm fvm pvc fvc", L), ("dis_fact dis_fact_annual fwd_dis_fact", L)], ["pv", "fv", "pvm", "fvm", "pvc", "fvc", "dis_fact", "dis_fact_annual", "fwd_dis_fact"])
p("C05", "Date-based valuation equals period-based valuation over US 30/360",
  "Present value, future value, discount factor, net present value and internal rate of return computed from calendar dates equal the same quantity computed from periods, taking each period as the US 30/360 year fraction from the start (or valuation, or first cash-flow) date to the cash-flow date. This holds for dates in any order, including cash flows before the valuation date.",
  ["inputs"], "all rates, dates and dated cash-flow series",
  "Two or three fixed dates are tested.",
  [L], [("xpv xfv xdis_fact", L), ("xnpv xirr", L)], ["xpv", "xfv", "xdis_fact", "xnpv", "xirr"])
p("C06", "Nominal, effective and exponential rates are equivalent and invertible",
  "Converting a rate among nominal (m compoundings per period), effective and exponential form keeps the growth of an investment over one period: 1+effective = (1+nominal/m)^m = e^exponential. Every conversion followed by its opposite returns the original rate, and converting directly or by way of the third form gives the same result.",
  ["inputs"], "all rates for which the growth factor is positive, all compounding frequencies",
  "Tested at 8% with m of 2 or 4.",
  [L], [("nom_eff_rate eff_nom_rate exp_eff_rate eff_exp_rate nom_exp_rate exp_nom_rate", L)], ["nom_eff_rate", "eff_nom_rate", "exp_eff_rate", "eff_exp_rate", "nom_exp_rate", "exp_nom_rate"])
p("C07", "Annuity value equals its discounted payments, and the payment inverts it",
  "For any nominal rate (zero and negative included), term and payment frequency, the value of an annuity with a final amount is minus the sum of every payment and of the final amount, each discounted at the rate per payment. The level payment computed for a present value and final amount is the one whose annuity has exactly that value.",
  ["inputs"], "all rates, whole numbers of payments, payments and final amounts (and fractional terms for the closed form)",
  "One annuity is tested; at a zero rate both functions returned NaN.",
  [L], [("pv_annuity", L), ("pmt", L)], ["pv_annuity", "pmt"])
p("C08", "Net present value is the sum of discounted cash flows",
  "The net present value of any series of cash flows at any times is the sum of each flow divided by (1+r) to the power of its time from the valuation time. It does not depend on the order of the flows, is linear in them, and moving the valuation time by s multiplies it by (1+r)^s.",
  ["inputs"], "all cash-flow series (unsorted, repeated and negative times too), rates above -100%, valuation times",
  "One series is tested.",
  [L], [("npv_t0 npv", L)], ["npv_t0", "npv"])
p("C09", "A returned internal rate of return is a real one",
  "Whenever the internal rate of return of a series of cash flows is reported, by periods or by dates, the rate is above -100% and the net present value at that rate is zero to within rounding relative to the discounted flows. A series whose flows all have the same sign has none, and none is reported.",
  ["inputs"], "all cash-flow series, conventional or not",
  "Two series with an answer and one without are tested; loss-making investments returned rates below -100%.",
  [L], [("irr xirr", L), ("newt_raph", L)], ["irr", "xirr"])
p("C10", "The internal rate of return of a conventional investment is found",
  "For an investment (an outlay at the start followed by receipts from one period later on, or several outlays within the first period when the rate is not negative; amounts of at least one cent, horizon up to 20 periods) whose internal rate of return lies between -50% and +100%, that rate is reported, to within 1e-7. Multiplying all flows by the same factor, or swapping payer and receiver, or splitting or reordering flows does not change it.",
  ["inputs"], "all conventional cash-flow series with a rate in the stated range",
  "Two series are tested; convergence and missed roots depend on the whole shape of the series.",
  [L], [("irr", L), ("newt_raph", L)], ["irr", "xirr"])
p("C11", "The root finder returns roots, and only roots",
  "Whatever smooth function it is given, a value returned by the root finder is one where a Newton step from it is negligible, so for a well-conditioned function the function vanishes there. It finds the root of any line of non-negligible slope, and a root of any quadratic with two separate real roots from any start off its vertex; for a quadratic without real roots or a constant function it returns nothing.",
  ["inputs"], "families of functions, starting points and step tolerances",
  "Three quadratics are tested.",
  [L], [("newt_raph", L)], ["newt_raph"])
p("C12", "Approximate equality and zero tests keep their thresholds",
  "Two numbers are approximately equal exactly when both magnitudes are below 1e-8 or their difference is below one millionth of the larger magnitude; the relation is reflexive, symmetric and unaffected by flipping both signs. A number counts as zero exactly when its magnitude is below 1e-8; NaN is neither equal to anything nor zero.",
  ["inputs"], "all pairs of floating-point numbers",
  "Used as the tests' own comparison, tested at one pair.",
  [L], [("approx", L), ("is_zero", L)], ["approx", "is_zero"])
p("C13", "Bill discounts and holding yields are consistent with each other",
  "The discount rate of a bill and its discount amount invert each other over a 360-day year: a bill priced at face less discount at rate r has discount rate r. The holding period yield is total proceeds over price less one, the money-market yield is that yield times 360/t, and the effective annual yield compounds it over 365/t.",
  ["inputs"], "all maturities, prices, proceeds and rates",
  "One point per function is tested.",
  [M], [("t_bill_r t_bill_d", M), ("holding_per_yield eff_ann_yield money_mkt_yield", M)], ["t_bill_r", "t_bill_d", "holding_per_yield", "eff_ann_yield", "money_mkt_yield"])
p("C14", "Time-weighted return chains sub-period returns",
  "The time-weighted return over n periods compounds to the product of the sub-period growth factors (closing value over opening value plus inflow) for any number of sub-periods; with n left out, n is the number of sub-periods. It is unaffected by the size of the portfolio and by splitting a sub-period without an inflow.",
  ["inputs"], "all value histories with positive values, with inflows and outflows",
  "Two histories are tested.",
  [M], [("twrr_n twrr", M)], ["twrr_n", "twrr"])
p("C15", "A bond's price is the present value of its cash flows",
  "A coupon bond's cash flows are one coupon of par times coupon rate over frequency per payment date, freq times life of them, with par added to the last. At any nominal yield (zero included) its price is the sum of those flows discounted per payment date, and equals its price on a flat nominal curve of the bond's frequency; on any curve of any of the three rate types it is the sum of the flows discounted on the curve. At a yield equal to the coupon rate the price is par, and price falls as yield rises.",
  ["inputs"], "all bonds with a whole number of payments, yields and curves",
  "Two bonds and one curve are tested; a zero yield gave NaN and some weekly bonds lost a payment.",
  [B, R, L], [("CouponBond::price, price_ratecurve, generate_cashflow", B), ("pv_annuity pvm", L), ("RateCurve::pv", R)], ["price", "price_ratecurve", "generate_cashflow"])
p("C16", "Yield to maturity inverts the bond price",
  "For any bond of up to 30 years with coupons of 0 to 20% and par value of 100 or more, pricing it at a yield between -2% and 60% and asking for the yield of that price returns the same yield to within 1e-7, and re-pricing at the returned yield gives the price back.",
  ["inputs"], "all bonds and yields in the stated ranges",
  "Two points are tested; success depends on the convergence of an iteration over the whole range.",
  [B, L], [("CouponBond::ytm", B), ("newt_raph", L)], ["ytm", "price"])
p("C17", "Full and flat bond prices between coupon dates are consistent",
  "A time t after a coupon date the full price is the price at that date compounded at the yield per payment, the accrued interest is coupon rate times par times t, and the flat price is the full price less the accrued interest. At the next coupon date the full price equals the price of the bond with one payment fewer plus the coupon just paid, and at t = 0 the full and flat prices both equal the price.",
  ["inputs"], "all bonds, yields and times within and across payment periods",
  "One bond is tested at one time.",
  [B], [("pv_full pv_flat accrued_interest", B)], ["pv_full", "pv_flat", "accrued_interest"])
p("C18", "Floating-rate notes price to par at their margin, and margins invert prices",
  "A floating-rate note's price is the sum of its payments (index rate plus quoted margin, over frequency, on par) and of par, discounted at index rate plus discount margin per payment; it is par when the discount margin equals the quoted margin. For notes of up to 30 years with par of 100 or more, payments that are not negative, a discount margin of -8% or more and index rate plus discount margin between -2% and 40%, the discount margin computed from a price is the one that gives that price, to within 1e-7.",
  ["inputs"], "all notes, index rates and margins",
  "One price and one margin are tested.",
  [B, L], [("FloatingRateNotes::price, discount_margin", B)], ["price", "discount_margin"])
p("C19", "Rate curves interpolate linearly and discount by their own convention",
  "The rate read from a curve at the time of one of its points is that point's rate, and between two points it is the linear interpolation of those two, never outside their range, for all three rate types and any point frequency. The present value of a cash flow on a curve discounts it at the rate read at its time, by that curve's convention: nominal with the curve's frequency, effective, or exponential.",
  ["inputs"], "all curves, and times from the first point to the last",
  "Two times on one curve are tested.",
  [R], [("RateCurve::rate_estim, pv", R), ("Rates::rate_estim", R)], ["rate_estim", "pv"])
p("C20", "Converting a curve among rate types keeps its values",
  "Converting a rate curve to nominal, effective or exponential form gives a curve of that form with the same number of points and frequency, whose discounting of a cash flow at every point's time is unchanged. Converting to a curve's own form changes nothing, and any chain of conversions that ends in the original form restores the original rates.",
  ["inputs"], "all curves of the three types; chains of conversions",
  "One six-point curve is tested, partly inside `if let` blocks that would be skipped if the form were wrong.",
  [R, L], [("to_nominal to_effective to_exponential", R)], ["to_nominal", "to_effective", "to_exponential"])
p("C21", "Par and spot curves imply each other and price par bonds at par",
  "For any nominal curve, a bond paying the par rate of a maturity, priced on the spot curve bootstrapped from the par curve, is worth its par value, for every maturity on the curve. Deriving the par curve from a spot curve has the same property, and converting par to spot and back, or spot to par and back, restores the curve with its frequency.",
  ["inputs"], "all nominal curves for which the bootstrap has a solution",
  "One six-point curve is tested at selected points.",
  [R, B], [("Rates::to_spot, to_par", R)], ["to_spot", "to_par"])
p("C22", "Forward rates leave no arbitrage against the spot curve",
  "Investing at the spot rate to a future time and then at the forward rate from that time over a tenor grows to the same amount as investing at the spot rate for the whole time, compounding at the curve's frequency, for any forward start on the curve and any tenor (fractional too). On a flat curve every forward rate is the flat rate, and chained forwards agree with the forward over their joint tenor.",
  ["inputs"], "all nominal spot curves, forward starts and tenors on the curve",
  "One forward is tested.",
  [R], [("Rates::forward_rate", R)], ["forward_rate"])
p("C23", "Statement items are kept exactly as entered",
  "On balance sheets, profit and loss statements and cash flow statements, adding to an item accumulates, setting an item replaces its value, doing either with a list is doing it in turn, and any item not entered reads as zero; no other item changes. Entering a calculated item (a total) by any of these is refused and leaves the statement unchanged; which items are calculated is fixed by the statement's hierarchy.",
  ["histories"], "all sequences of entry operations over all items of the three statements",
  "The tests run one short sequence on a few items and never enter a calculated one.",
  [S], [("FinMaps::add upsert add_vec upsert_vec value", S), ("FinType::is_calc", S)], ["add", "upsert", "add_vec", "upsert_vec", "value", "is_calc"],
  [("BsMap, PlMap, CfMap", "amount per item", S)])
p("C24", "Calculated totals equal the sums of their constituents",
  "After calculating a statement, every total on the balance sheet, profit and loss and cash flow statements equals the sum of its constituent items and sub-totals less the deducted ones, down the whole hierarchy (for example assets less liabilities less equity for the balance check, revenue to total comprehensive income, operating, investing and financing cash flow to net cash flow, and free cash flows). Entered items are left untouched, totals left over from earlier data have no influence, and calculating again changes nothing.",
  ["inputs", "histories"], "all sets of entered amounts, with arbitrary stale totals present",
  "One company's data is used, covering about a third of the items; a dropped item or sign elsewhere goes unseen.",
  [S], [("calc_elements for BsMap, PlMap, CfMap", S), ("BALANCE_SHEET_MAP PROFIT_LOSS_MAP CASH_FLOW_MAP", S)], ["calc_elements", "value"])
p("C25", "Double-entry transactions keep the accounting equation",
  "A debit increases asset accounts and decreases liability, equity and asset-contra accounts (accumulated depreciation and amortisation) by the amount, and a credit does the opposite, touching only that account. After any series of transactions, each debiting one account and crediting another, the calculated balance sheet differs from before by amounts that keep assets = liabilities + equity, and a transaction followed by its reverse, or debiting and crediting the same account, restores the balances.",
  ["histories"], "all series of transactions over all pairs of accounts",
  "No test executes a transaction.",
  [S], [("debit credit transact transact_series", S), ("DEBIT_TYPE", S)], ["debit", "credit", "transact", "transact_series"])
p("C26", "Cleaning removes only totals and zeros; common size rescales everything",
  "Cleaning a statement removes exactly the items of negligible amount (at most 0.00001 in magnitude), and the variant that removes totals removes those as well, for every statement held in a set of accounts; everything else keeps its amount, and recalculating restores the totals. The common-size form of a statement divides every item by total assets, revenue or net cash flow respectively, changing no other thing, so that this base item becomes 1 and the proportions between items are kept.",
  ["inputs"], "all statements with entered items, totals and near-zero amounts",
  "remove_calc_clean runs once on one file; clean and common_size are not tested.",
  [S], [("clean remove_calc_clean common_size", S), ("Accounts::remove_calc_clean", S)], ["clean", "remove_calc_clean", "common_size"])
p("C27", "Derived cash flows reconcile with the change in cash",
  "For any two balance sheets that balance and any profit and loss statement, the net cash flow of the cash flow statement derived from them equals the change in cash. Every balance sheet item other than cash feeds exactly one cash flow line by its change, with assets reducing cash and liabilities, equity and contra assets increasing it, while interest, dividends and asset sales taken from the profit and loss statement appear in their own lines (interest and dividends under financing, sale adjustments under investing) and are offset within operations.",
  ["inputs"], "all pairs of balance sheets and all profit and loss statements",
  "One company's accounts are used, with few items and no asset sales; the model test asserts nothing about them.",
  [S], [("calc_cash_flow", S), ("CASH_FLOW_BALANCE_SHEET CASH_FLOW_PROFIT_LOSS", S), ("Accounts::calc_cash_flow", S)], ["calc_cash_flow", "calc_elements"])
p("C28", "Tax is the greater of profit tax and minimum tax; the shield is the tax saved",
  "Computing tax for a set of accounts records, for every period and without touching other entered items, the greater of (corporate rate times earnings before tax, adjusted for tax depreciation in place of book depreciation where given, plus gross-profit rate times EBITDA, the base the code gives it) and the revenue rate times revenue; missing rates count as zero and repeating it changes nothing. The tax shield in the derived cash flow is the reduction of that tax caused by the (non-negative) interest paid.",
  ["inputs"], "all profit and loss statements and tax rates",
  "calc_tax is only run by a test without assertions, and the tax shield is never asserted.",
  [S], [("Accounts::calc_tax", S), ("calc_cash_flow", S), ("depreciation_tax_adjust", S), ("set_tax_rates", S)], ["calc_tax", "calc_cash_flow", "depreciation_tax_adjust"])
p("C29", "A set of accounts returns what was stored, per date and period",
  "Over any history of storing items, setting tax rates, registering dates, calculating and extracting, reading an item of a stored balance sheet, profit and loss or cash flow statement returns the last amount stored for that date or period and item (zero if none), and no other date, period or item is affected; calculated items cannot be stored. Setting tax rates applies to every profit and loss period and keeps other parameters; registering dates adds exactly the ends of all periods and refuses reversed periods; extracting periods keeps exactly the statements of those periods and of their end dates.",
  ["histories"], "all sequences of operations on accounts with several annual and quarterly periods",
  "The tests perform one hand-written sequence on one data file.",
  [S], [("put_* get_* set_tax_rates set_dates_from_profit_loss from_periods get_account", S)], ["Accounts methods"],
  [("Accounts", "statements by date and period", S)])
p("C30", "Single-period reports and multi-period accounts agree",
  "Taking a period's report out of a set of accounts and calculating it gives the same statements as calculating the whole set and taking the report out afterwards, wherever both end balance sheets exist. Splitting a report into its statements and joining them again gives the same report, and joining statements whose dates or periods do not match the profit and loss period is refused.",
  ["inputs"], "all accounts and reports, all combinations of present and missing statements and of mismatched dates",
  "The single-report calculation and the split/join are never executed by a test.",
  [S], [("FinancialReport::calc_elements to_statements from_statements", S), ("Accounts::get_account to_financial_reports calc_cash_flow", S)], ["get_account", "to_financial_reports", "to_statements", "from_statements", "calc_elements"])
p("C31", "Period sequences are validated and split without loss",
  "A non-empty list of periods is accepted as a sequence exactly when no period ends before it begins and each begins on the date the previous one ends. Splitting the profit and loss periods into long ones (over 120 days) and the others puts every period in exactly one of the two sets.",
  ["inputs"], "all lists of periods and all sets of accounts",
  "check_dates is not tested and was wrong for every sequence of two; periods of exactly 120 days were lost by the split.",
  [S], [("check_dates", S), ("Accounts::check_dates", S), ("split_periods", S)], ["check_dates", "split_periods"])
p("C32", "The consecutive chain is contiguous, drawn from the data and ends last",
  "From any set of periods, the consecutive chain starts from the latest end date and goes back while there is a period of one quarter, or failing that of one year, that ends where the chain begins, dates having the same day of the month as the latest end date or the month's last day if it is shorter. It contains only periods from the set, without gap or overlap, up to 100 of them, and never fails for any dates; accounts restricted to it keep exactly those periods' statements.",
  ["inputs"], "all sets of annual, quarterly and odd periods, with month-end and leap-day dates",
  "The chain is only computed in a test without assertions, on dates of the 16th; it panicked for December year ends.",
  [S], [("consecutive_periods", S), ("consecutive_cash_flow consecutive_profit_loss from_periods", S)], ["consecutive_periods", "consecutive_cash_flow", "consecutive_profit_loss"])
p("C33", "Saved accounts and reports load back unchanged",
  "Writing any accounts, report or single statement with finite amounts as RON, and any report or single statement as JSON, and reading it back gives an equal value: same currency, consolidation flag, dates, periods, items and amounts (JSON amounts to the last digit or so).",
  ["inputs"], "all accounts, reports and statements over all items, currencies and dates",
  "One report with a few items is checked for one item.",
  [S, L], [("Serialize/Deserialize on Accounts, FinancialReport, BalanceSheet, ProfitLoss, CashFlow, FinOthers, Currency", S)], ["ron::to_string / from_str", "serde_json::to_string / from_str"])
p("C34", "Printed and exported tables show every amount in its place",
  "The printed or exported table of a set of accounts has one column per balance sheet date and per annual and quarterly period, in date order, and for every item of the statement hierarchies with a non-zero amount on some date or period a row, under each total it belongs to, showing that item's amount at that date or period divided by the stated multiple and rounded to a whole number (tax rates as percentages). The exported CSV file is the table with commas and multiple 1, and plain display is the table with bars and a power of 1000 as multiple.",
  ["inputs"], "all accounts with amounts of magnitude at least 1 and tax rates between 0.01% and 100%",
  "Printing is executed by one test without any assertion.",
  [S], [("Accounts::format_table to_csv", S), ("Display for Accounts", S)], ["format_table", "to_csv", "Display"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
