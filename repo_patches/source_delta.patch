From a43295122710f931a21b7e16ed6ffa24fe23d3f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:29 +0000
Subject: [PATCH 01/14] fix: date_from_float panicked on every January 1

The year boundary sat a whole day after the year number (0.00274), but
date_to_float maps January 1 to year + 1/365 or 1/366, below it, so the day
number came out as 366/367 of the previous year and the lookup panicked.
Put the boundary half a day after the year number and keep the rounded day
inside the year.
---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 55684f2..454328e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -52,9 +52,11 @@ pub fn date_to_float(dt: NDt) -> f64 {
 Converts a float to a NaiveDate with 1(One) year represented by 1.0
 */
 pub fn date_from_float(yr: f64) -> NDt {
-    let y = (yr - 0.00274).floor();
+    // Day n of a year is n / days_in_year, so a year starts half a day after its number.
+    let y = (yr - 0.00137).floor();
     let yp = y as i32;
-    NDt::from_yo_opt(yp, ((yr - y) * days_in_year(yp) as f64).round() as u32).unwrap()
+    let days = days_in_year(yp) as f64;
+    NDt::from_yo_opt(yp, ((yr - y) * days).round().clamp(1.0, days) as u32).unwrap()
 }
 
 /**
-- 
2.43.0


From 6304e2c8bf8d71d1f504931c67b6377195b449fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:30 +0000
Subject: [PATCH 02/14] fix: ACTACT year fraction counted days at the wrong end
 of the period

The documentation says the Actual/Actual ISDA rule is followed, under which
the first day is included and the last excluded. The difference of
date_to_float excludes the first and includes the last, so a period from a
common year into a leap year (or back) was off by 1/365 - 1/366, e.g.
2003-12-31 to 2004-01-01 gave 1/366 rather than 1/365.
---
 src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 454328e..73b5fa5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -98,7 +98,12 @@ pub fn yearfrac(dt0: NDt, dt1: NDt, basis: DayCountConvention) -> f64 {
     match basis {
         ACT360 => ((dt1 - dt0).num_days() as f64) / 360.0,
         ACT365 => ((dt1 - dt0).num_days() as f64) / 365.0,
-        ACTACT => date_to_float(dt1) - date_to_float(dt0),
+        ACTACT => {
+            // date_to_float counts the day itself as elapsed, while ISDA includes the first
+            // day and excludes the last: take a day off at each end, of its own year's length.
+            let day = |dt: NDt| 1.0 / days_in_year(dt.year()) as f64;
+            date_to_float(dt1) - date_to_float(dt0) + (day(dt0) - day(dt1))
+        }
         EU30360 => {
             let (y0, m0, d0) = (dt0.year(), dt0.month() as i32, dt0.day() as i32);
             let (y1, m1, d1) = (dt1.year(), dt1.month() as i32, dt1.day() as i32);
-- 
2.43.0


From b9f8d13f9fbc6276278f39c3893f8fa3092870b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:31 +0000
Subject: [PATCH 03/14] fix: annuities, payments and bond prices were NaN at a
 zero rate

pv_annuity and pmt divide (1 - 1/(1+i)^k) by i, which is 0/0 at i = 0 (and
returns 0 or noise for i below about 1e-13), so pricing a bond at a zero yield
gave NaN. Use the limit, computed without cancellation, for |i| < 1e-6.
---
 src/lib.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 73b5fa5..55f22a8 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -268,9 +268,23 @@ pub fn fvc(r: f64, n: f64, pv: f64) -> f64 {
 */
 pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {
     let rn = (1.0 + r / m).powf(n * m);
+    if (r / m).abs() < 1e-6 {
+        return -pmt * small_rate_annuity(r / m, n * m) - fv / rn;
+    }
     -pmt / (r / m) * (1.0 - 1.0 / rn) - fv / rn
 }
 
+/** PV of k payments of 1 at the rate i per payment, for rates at or near zero
+where (1 - 1/(1+i)^k)/i is 0/0 or loses all its digits
+*/
+fn small_rate_annuity(i: f64, k: f64) -> f64 {
+    if i == 0.0 {
+        k
+    } else {
+        -(-k * i.ln_1p()).exp_m1() / i
+    }
+}
+
 /** Payment to cover the PV of an Annuity
 - pv = PV of Annuity
 - r  = rate of return
@@ -279,6 +293,9 @@ pub fn pv_annuity(r: f64, n: f64, m: f64, pmt: f64, fv: f64) -> f64 {
 */
 pub fn pmt(r: f64, n: f64, m: f64, pv: f64, fv: f64) -> f64 {
     let rn = (1.0 + r / m).powf(n * m);
+    if (r / m).abs() < 1e-6 {
+        return -(pv + fv / rn) / small_rate_annuity(r / m, n * m);
+    }
     -(pv + fv / rn) * (r / m) / (1.0 - 1.0 / rn)
 }
 
-- 
2.43.0


From 167c2cda428bdc0afd87d8e2631769ee94ffd8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:54 +0000
Subject: [PATCH 04/14] fix: irr could return a rate below -100% for a
 loss-making investment

Newton's step from 10% can jump below -100%, where the formula still has
roots that mean nothing: paying 100 and receiving 36 after two years
returned -1.6 instead of -0.4. Let a step go at most half of the way to
-100%; the result then is a valid rate, and losses are found rather than
given up on. newt_raph behaves as before.
---
 src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 55f22a8..50d0f91 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -396,7 +396,7 @@ pub fn xnpv(r: f64, dt: &Vec<NDt>, d0: NDt, cf: &Vec<f64>) -> f64 {
 - cf  = vector of corresponding cash flows
 */
 pub fn irr(tim: &Vec<f64>, cf: &Vec<f64>) -> Option<f64> {
-    newt_raph(|r| npv_t0(r, tim, cf), 0.1, 1e-6)
+    newt_raph_above(-1.0, |r| npv_t0(r, tim, cf), 0.1, 1e-6)
 }
 
 /** XIRR of cash flow against time given as NaiveDate
@@ -407,7 +407,12 @@ pub fn xirr(dt: &Vec<NDt>, cf: &Vec<f64>) -> Option<f64> {
     irr(&dt.iter().map(|&d| yrfrac((dt[0], d))).collect(), cf)
 }
 
-pub fn newt_raph(f: impl Fn(f64) -> f64, mut x: f64, xtol: f64) -> Option<f64> {
+pub fn newt_raph(f: impl Fn(f64) -> f64, x: f64, xtol: f64) -> Option<f64> {
+    newt_raph_above(f64::NEG_INFINITY, f, x, xtol)
+}
+
+/** Newton Raphson which stays above floor: a step goes at most half of the way down to it */
+fn newt_raph_above(floor: f64, f: impl Fn(f64) -> f64, mut x: f64, xtol: f64) -> Option<f64> {
     let dx = xtol / 10.0;
     for _ in 0..100 {
         let fx = f(x);
@@ -415,7 +420,10 @@ pub fn newt_raph(f: impl Fn(f64) -> f64, mut x: f64, xtol: f64) -> Option<f64> {
         if is_zero(df) {
             return None;
         }
-        let del_x = fx / df;
+        let mut del_x = fx / df;
+        if del_x > (x - floor) / 2.0 {
+            del_x = (x - floor) / 2.0;
+        }
         x -= del_x;
         if is_zero(del_x) {
             return Some(x);
-- 
2.43.0


From f53388d33d3c387fc821c194be4fccb474fa73af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 05/14] fix: generate_cashflow dropped a payment when freq *
 t_life rounds below an integer

For weekly or daily payments a life of k/freq periods can give freq * t_life
just below k (15.0/52.0 * 52.0 = 14.999999999999998), and the truncation made
it k - 1 payments, with the par value repaid one payment early.
---
 src/fixedincomes/bonds.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fixedincomes/bonds.rs b/src/fixedincomes/bonds.rs
index 5515686..8760c7b 100644
--- a/src/fixedincomes/bonds.rs
+++ b/src/fixedincomes/bonds.rs
@@ -74,7 +74,8 @@ impl CouponBond {
      */
     pub fn generate_cashflow(&self) -> Vec<f64> {
         let c = self.par * self.c / self.freq;
-        let sz = (self.freq * self.t_life) as usize;
+        // 15.0/52.0 * 52.0 is just below 15: do not lose a payment to rounding
+        let sz = (self.freq * self.t_life + 1e-9) as usize;
         let mut cb: Vec<f64> = vec![c; sz];
         cb[sz - 1] += self.par;
         cb
-- 
2.43.0


From 011295ec68cf20ef823c6df447eab9f192a4d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:41 +0000
Subject: [PATCH 06/14] fix: check_dates compared the second period with the
 start of the first

A sequence is valid when each period begins where the previous one ends, but
the first comparison used the first period's begin date: (a,b),(b,c) was
refused and (a,b),(a,c) accepted.
---
 src/statements.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index bb6c66a..6ebfe1b 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1301,8 +1301,8 @@ impl FinancialReport {
 
 /** Check if a Vec of dates in sequence is valid i.e. the last dates of previous and the first date of next are same. */
 pub fn check_dates(dts: &Vec<Period>) -> bool {
-    let (mut dp, dt) = dts[0];
-    if dp > dt {
+    let (dt, mut dp) = dts[0];
+    if dt > dp {
         return false;
     }
 
-- 
2.43.0


From a3ce84beffec1462c4398e6ac0cb50f1ef3839bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:42 +0000
Subject: [PATCH 07/14] fix: split_periods lost periods of exactly 120 days

They were neither longer nor shorter than 120 days, so they were in neither
set and missing from the printed tables (2018-11-01 to 2019-03-01).
---
 src/statements.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/statements.rs b/src/statements.rs
index 6ebfe1b..48a9e1c 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1394,7 +1394,7 @@ impl Accounts {
                 })
                 .collect(),
             dts.filter_map(|&(d0, d1)| {
-                if d0 + Duration::days(120) > d1 {
+                if d0 + Duration::days(120) >= d1 {
                     Some((d0, d1))
                 } else {
                     None
-- 
2.43.0


From a2e0cc979a60d1a2dfaef0ae35fab4262986230f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:43 +0000
Subject: [PATCH 08/14] fix: consecutive_periods panicked on month-end dates

With the last period ending on 31 December it asked for 31 September and
unwrapped the missing date (likewise 29 February a year earlier). Take the
month's last day where the month is too short.
---
 src/statements.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index 48a9e1c..b058613 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1326,14 +1326,22 @@ pub fn consecutive_periods(prd: &BTreeSet<Period>) -> BTreeSet<Period> {
     }
     let pr_qtr = |y: i32, m: u32| if m <= 3 { (y - 1, m + 9) } else { (y, m - 3) };
 
+    // The month's last day where it has no such day, e.g. a quarter before 31 December
+    let day_or_month_end = |y: i32, m: u32, mut d: u32| {
+        while NDt::from_ymd_opt(y, m, d).is_none() {
+            d -= 1;
+        }
+        NDt::from_ymd_opt(y, m, d).unwrap()
+    };
+
     let dt = dt_1.day();
     let mut bt = BTreeSet::new();
 
     for _ in 0..100 {
         let (y1, m1) = (dt_1.year(), dt_1.month());
         let (yq, mq) = pr_qtr(y1, m1);
-        let dt_q = NDt::from_ymd_opt(yq, mq, dt).unwrap();
-        let dt_0 = NDt::from_ymd_opt(y1 - 1, m1, dt).unwrap();
+        let dt_q = day_or_month_end(yq, mq, dt);
+        let dt_0 = day_or_month_end(y1 - 1, m1, dt);
 
         if prd.contains(&(dt_q, dt_1)) {
             bt.insert((dt_q, dt_1));
-- 
2.43.0


From 42dec8001cbdea7a0dada13adfce58b741563cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:22 +0000
Subject: [PATCH 09/14] fix: approx(NaN, 0.0) was true

f64::max ignores a NaN, so with the other number near zero the larger
magnitude came out as near zero and the two counted as equal.
---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 50d0f91..f915798 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -351,7 +351,7 @@ pub fn exp_nom_rate(r: f64, m: f64) -> f64 {
 */
 pub fn approx(x: f64, y: f64) -> bool {
     let mx = f64::max(x.abs(), y.abs());
-    mx < 1e-8 || (x - y).abs() / mx < 1e-6
+    (is_zero(x) && is_zero(y)) || (x - y).abs() / mx < 1e-6
 }
 
 /** Check if a float is zero
-- 
2.43.0


From e330ab62e13ab47fc6892b30fc3838c9fe080fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:48 +0000
Subject: [PATCH 10/14] fix: irr took creeping up to -100% for convergence

Flows without a rate (all of one sign, say) drive the search to -100%, where
ever smaller steps ended it with a rate like -0.99999999. Ask that the last
step be small against the distance to -100% as well.
---
 src/lib.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index f915798..33888d3 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -411,7 +411,9 @@ pub fn newt_raph(f: impl Fn(f64) -> f64, x: f64, xtol: f64) -> Option<f64> {
     newt_raph_above(f64::NEG_INFINITY, f, x, xtol)
 }
 
-/** Newton Raphson which stays above floor: a step goes at most half of the way down to it */
+/** Newton Raphson which stays above floor: a step goes at most half of the way down to it,
+and creeping up to the floor is not convergence
+*/
 fn newt_raph_above(floor: f64, f: impl Fn(f64) -> f64, mut x: f64, xtol: f64) -> Option<f64> {
     let dx = xtol / 10.0;
     for _ in 0..100 {
@@ -425,7 +427,7 @@ fn newt_raph_above(floor: f64, f: impl Fn(f64) -> f64, mut x: f64, xtol: f64) ->
             del_x = (x - floor) / 2.0;
         }
         x -= del_x;
-        if is_zero(del_x) {
+        if is_zero(del_x) && del_x.abs() < 1e-6 * (x - floor) {
             return Some(x);
         }
     }
-- 
2.43.0


From 1d8c61800888902a3889aee45f0b103e99d8cb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:00 +0000
Subject: [PATCH 11/14] fix: rate_estim panicked at a curve's first point when
 its time rounds down

The time of point 1 at freq 49 is 1/49, and 1/49 * 49 is just below 1, so the
rate of the point before the first was asked for. Also bonds of such
frequencies could not be priced on a curve.
---
 src/fixedincomes/bonds/rates.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fixedincomes/bonds/rates.rs b/src/fixedincomes/bonds/rates.rs
index e95c404..4062668 100644
--- a/src/fixedincomes/bonds/rates.rs
+++ b/src/fixedincomes/bonds/rates.rs
@@ -42,7 +42,8 @@ impl RateCurve {
     pub fn rate_estim(&self, y: f64) -> f64 {
         fn estima(rx: &Vec<f64>, fq: f64, y: f64) -> f64 {
             let proper = |x: f64| -> (usize, f64) {
-                let sl = x.floor();
+                // 1.0/49.0 * 49.0 is just below 1: that is the first point, not before it
+                let sl = (x + 1e-9).floor();
                 (sl as usize, x - sl)
             };
             let (fl, pf) = proper(y * fq);
-- 
2.43.0


From 0d3edac6df4978073781f73660a949f569b56c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:36 +0000
Subject: [PATCH 12/14] fix: displaying accounts without positive totals
 printed inf or panicked

The multiple of the table comes from the largest assets or revenue. Accounts
not calculated yet have neither, so the multiple was 0 and every amount inf;
accounts without a balance sheet or a profit and loss statement panicked.
---
 src/statements.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/statements.rs b/src/statements.rs
index b058613..c1b8b84 100644
--- a/src/statements.rs
+++ b/src/statements.rs
@@ -1810,13 +1810,14 @@ impl fmt::Display for Accounts {
                     .iter()
                     .map(|(_, x)| x.value(Assets).floor() as i64)
                     .max()
-                    .unwrap(),
+                    .unwrap_or(1),
                 self.profit_loss
                     .iter()
                     .map(|(_, x)| x.value(Revenue).floor() as i64)
                     .max()
-                    .unwrap(),
-            ) as f64)
+                    .unwrap_or(1),
+            )
+            .max(1) as f64)
                 .log10()
                 .ceil() as i32)
                 / 3
-- 
2.43.0


From 36fb5863b89aa4cf2d636c91e1041b97143e4086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:50 +0000
Subject: [PATCH 13/14] fix: ytm and discount_margin could return a rate below
 -100% per payment

---
 src/fixedincomes/bonds.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fixedincomes/bonds.rs b/src/fixedincomes/bonds.rs
index 8760c7b..99ee556 100644
--- a/src/fixedincomes/bonds.rs
+++ b/src/fixedincomes/bonds.rs
@@ -53,7 +53,7 @@ impl CouponBond {
     - price = Price of Coupon bond
      */
     pub fn ytm(&self, price: f64) -> f64 {
-        crate::newt_raph(|r| self.price(r) - price, 0.05, 1e-6).unwrap()
+        crate::newt_raph_above(-self.freq, |r| self.price(r) - price, 0.05, 1e-6).unwrap()
     }
 
     /**
@@ -150,7 +150,13 @@ impl FloatingRateNotes {
     - index_rate    = Index rate
      */
     pub fn discount_margin(&self, price: f64, index_rate: f64) -> f64 {
-        crate::newt_raph(|x| self.price(index_rate, x) - price, 0.005, 1e-6).unwrap()
+        crate::newt_raph_above(
+            -self.freq - index_rate,
+            |x| self.price(index_rate, x) - price,
+            0.005,
+            1e-6,
+        )
+        .unwrap()
     }
 
     /**
-- 
2.43.0


From a0f72c8c38d2b65ec307b99936a4c492e06822ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 14/14] fix: root finder reported a rate where the slope
 overflows

---
 src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 33888d3..01ddb02 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -419,7 +419,8 @@ fn newt_raph_above(floor: f64, f: impl Fn(f64) -> f64, mut x: f64, xtol: f64) ->
     for _ in 0..100 {
         let fx = f(x);
         let df = (f(x + dx) - fx) / dx;
-        if is_zero(df) {
+        // an infinite slope is a value which overflowed, not a root
+        if is_zero(df) || !df.is_finite() {
             return None;
         }
         let mut del_x = fx / df;
-- 
2.43.0

