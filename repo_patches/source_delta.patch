From 4e0ed4c21aeb95527257869ccae8433ffe6b3f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:21 +0000
Subject: [PATCH 01/37] fix: setting an outflow limit writes to the outflow
 link, not the inflow link

---
 forecaster/accounts/linked_limit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/accounts/linked_limit.py b/forecaster/accounts/linked_limit.py
index ac5b669..e5b9b0a 100644
--- a/forecaster/accounts/linked_limit.py
+++ b/forecaster/accounts/linked_limit.py
@@ -111,7 +111,7 @@ class LinkedLimitAccount(Account):
     @max_outflow_limit.setter
     def max_outflow_limit(self, value):
         """ Sets max_outflow_limit. """
-        self._set_limit(self.max_inflow_link, value)
+        self._set_limit(self.max_outflow_link, value)
 
     @property
     def min_outflow_limit(self):
@@ -122,7 +122,7 @@ class LinkedLimitAccount(Account):
     @min_outflow_limit.setter
     def min_outflow_limit(self, value):
         """ Sets min_outflow_limit. """
-        self._set_limit(self.min_inflow_link, value)
+        self._set_limit(self.min_outflow_link, value)
 
     def _get_limit(self, link, default=None):
         """ Gets the limit for a given linked group of accounts.
-- 
2.43.0


From 5ed95ad930f50499734c985e5bdec7ccdfbd3850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:24 +0000
Subject: [PATCH 02/37] fix: Account.get returns the transaction (and does not
 pass dict.get a keyword)

---
 forecaster/accounts/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 6f4fc12..6bec04e 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -877,7 +877,7 @@ class Account(TaxSource):
 
     def get(self, key, default=None):
         """ Gets the transaction value at a particular timing. """
-        self._transactions.get(key, default=default)
+        return self._transactions.get(key, default)
 
     def clear(self):
         """ Clears all of the account's transactions. """
-- 
2.43.0


From 02f44cbd8c73b514f1ed34e10f9c12b74f71d85a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:29 +0000
Subject: [PATCH 03/37] fix: a rejected account owner leaves the account
 registered with its current owner

---
 forecaster/accounts/base.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/forecaster/accounts/base.py b/forecaster/accounts/base.py
index 6bec04e..acf504a 100644
--- a/forecaster/accounts/base.py
+++ b/forecaster/accounts/base.py
@@ -182,16 +182,16 @@ class Account(TaxSource):
     @owner.setter
     def owner(self, val):
         """ Sets the account's owner. """
+        # Do basic type-checks before changing anything:
+        if val is not None and not isinstance(val, Person):
+            raise TypeError('Account: owner must be of type Person.')
+
         # Unregister this account from any former owner:
         if self.owner is not None:
             self.owner.accounts.remove(self)
 
-        # For new owners, do basic type-checks and then
-        # bind the account to the owner:
+        # Bind the account to the new owner:
         if val is not None:
-            if not isinstance(val, Person):
-                raise TypeError('Account: owner must be of type Person.')
-            # Register with new owner:
             val.accounts.add(self)
 
         self._owner = val
-- 
2.43.0


From 012c004a623a64fba05e2bde25f26a025390d5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:33 +0000
Subject: [PATCH 04/37] fix: changing a spouse validates first and unlinks
 every former spouse

---
 forecaster/person.py | 29 ++++++++++++++---------------
 1 file changed, 14 insertions(+), 15 deletions(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 0903948..d974513 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -282,25 +282,24 @@ class Person(TaxSource):
     @spouse.setter
     def spouse(self, val):
         """ Sets the Person's spouse. """
+        if val is not None and not isinstance(val, Person):
+            raise TypeError('Person: spouse must be of type Person')
+
         # If this Person already has a spouse, unlink them:
-        if hasattr(self, 'spouse') and self.spouse is not None:
-            # Assign to _spouse to avoid recursing on this method.
-            # pylint: disable=protected-access
-            # spouse is a Person, so this isn't accessing a protected
-            # member of a client class.
+        # Assign to _spouse to avoid recursing on this method.
+        # pylint: disable=protected-access
+        # spouse is a Person, so this isn't accessing a protected
+        # member of a client class.
+        if self.spouse is not None:
             self.spouse._spouse = None
 
-        # If we're adding a new spouse, make sure that it links back:
+        # If we're adding a new spouse, make sure that it links back
+        # (and that its own former spouse, if any, is unlinked):
         if val is not None:
-            if not isinstance(val, Person):  # Spouse must be a Person
-                raise TypeError('Person: spouse must be of type Person')
-            # Assign to _spouse to avoid recursing on this method.
-            # pylint: disable=protected-access
-            # spouse is a Person, so this isn't accessing a protected
-            # member of a client class.
-            val._spouse = self  # Use _spouse to avoid recursion
-
-        # Update the spouse attr whether or not the new value is None
+            if val.spouse is not None:
+                val.spouse._spouse = None
+            val._spouse = self
+        # pylint: enable=protected-access
         self._spouse = val
 
     @property
-- 
2.43.0


From c00d1078cc87ac393ca95c34a0ebab7aeeffa419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:36 +0000
Subject: [PATCH 05/37] fix: a raise rate of None means no raise

---
 forecaster/person.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index d974513..69f4dd2 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -254,7 +254,7 @@ class Person(TaxSource):
         # Treat setting the method to None as reverting to the default
         # rate parameter, which is Money(0).
         if val is None:
-            self.raise_rate_callable = 0
+            val = 0
         # Is raise_rate isn't callable, convert it to a suitable method:
         if not callable(val):  # Make callable if dict or scalar
             if isinstance(val, dict):
-- 
2.43.0


From b2c3137587edf01df8097ee966d54d2ac138d55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:40 +0000
Subject: [PATCH 06/37] fix: debt_repayment totals the payments to debts

---
 forecaster/forecast/saving.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/forecast/saving.py b/forecaster/forecast/saving.py
index 9c24e79..101e0db 100644
--- a/forecaster/forecast/saving.py
+++ b/forecaster/forecast/saving.py
@@ -75,7 +75,7 @@ class SavingForecast(SubForecast):
         # class is all about.
         return sum(
             sum(self.account_transactions[account].values())
-            for account in self.retirement_accounts
+            for account in self.debt_accounts
             if account in self.account_transactions)
 
     @recorded_property_cached
-- 
2.43.0


From 08d43f147f73cc1bcf880508e57a0be53d00b8a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:44 +0000
Subject: [PATCH 07/37] fix: undoing transactions also discards the record of
 them

---
 forecaster/forecast/subforecast.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index bb4e904..793decd 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -207,6 +207,8 @@ class SubForecast(Ledger):
             if account is not None:
                 for when, value in self.transactions[account].items():
                     account[when] -= value
+        # They have been reversed, so they must not be reversed again:
+        self.transactions.clear()
         # This undoes the effect of __call__, so treat that
         # method as if it was never called:
         self._call_invoked = False
-- 
2.43.0


From 4b4f665235f27166057634963a778956c4c1a4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:49 +0000
Subject: [PATCH 08/37] fix: advancing a subforecast's year does not empty the
 record it just made

---
 forecaster/forecast/subforecast.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forecaster/forecast/subforecast.py b/forecaster/forecast/subforecast.py
index 793decd..7ee29fd 100644
--- a/forecaster/forecast/subforecast.py
+++ b/forecaster/forecast/subforecast.py
@@ -170,7 +170,9 @@ class SubForecast(Ledger):
         # are recorded with their current state:
         super().next_year()
         # There are no existing transactions at the start of the year:
-        self.transactions.clear()
+        # (Use a new object; the old one is now part of the history.)
+        self._transactions = TransactionDict(
+            lambda: defaultdict(lambda: 0)) # Money value
         self._call_invoked = False
 
     def __call__(self, available):
-- 
2.43.0


From 171262492887857f65ce95506e3016292eef346f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:52 +0000
Subject: [PATCH 09/37] fix: tax withheld on withdrawals starts from zero each
 year

---
 forecaster/forecast/withdrawal.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/forecaster/forecast/withdrawal.py b/forecaster/forecast/withdrawal.py
index fbdc27e..e5775b1 100644
--- a/forecaster/forecast/withdrawal.py
+++ b/forecaster/forecast/withdrawal.py
@@ -123,6 +123,12 @@ class WithdrawalForecast(SubForecast):
             # Keep track of total tax withheld:
             self.tax_withheld += new_tax_withheld
 
+    def next_year(self):
+        """ Adds a year to the forecast. """
+        super().next_year()
+        # Nothing has been withheld yet in the new year:
+        self.tax_withheld = self.precision_convert(0)
+
     def undo_transactions(self):
         """ Reverses all transactions cause by this subforecast. """
         super().undo_transactions()
-- 
2.43.0


From e24e43af289c35a897d472b6aed975cc0c25103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:57 +0000
Subject: [PATCH 10/37] fix: inflation adjustments relative to a base year grow
 with inflation

---
 forecaster/scenario.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/scenario.py b/forecaster/scenario.py
index 1b77f8c..5549955 100644
--- a/forecaster/scenario.py
+++ b/forecaster/scenario.py
@@ -202,7 +202,7 @@ class Scenario(object):
             (or, for years prior to `base_year`, it is the present value
             of $1 in base_year)
         """
-        return {year: self.accumulation_function(year, base_year)
+        return {year: self.accumulation_function(base_year, year)
                 for year in self}
 
     @property
-- 
2.43.0


From b241f8d906d130ae5f88f266060f7c1bae666b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:06 +0000
Subject: [PATCH 11/37] fix: TFSA room accrues by the contributor's age

---
 forecaster/canada/accounts/tfsa.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index 4fb2cbb..77c39ff 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -102,8 +102,8 @@ class TFSA(RegisteredAccount):
 
         This excludes any rollovers - it's just the statutory accrual.
         """
-        # No accrual if the owner is too young to qualify:
-        if self.owner.age(year + 1) < self.constants.TFSA_ELIGIBILITY_AGE:
+        # No accrual if the contributor is too young to qualify:
+        if self.contributor.age(year + 1) < self.constants.TFSA_ELIGIBILITY_AGE:
             return self.precision_convert(0) # Money value
 
         # If we already have an accrual rate set for this year, use that
-- 
2.43.0


From b6acc0e3b4553f993c8cbbcdb386810dde89c2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 12/37] fix: RRIF withholding tax applies only to withdrawals
 over the minimum

---
 forecaster/canada/accounts/rrsp.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index b1353a9..35553a1 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -146,7 +146,10 @@ class RRSP(RegisteredAccount):
         else:
             # Only withdrawals in excess of the minimum RRIF withdrawal
             # are hit by the withholding tax.
-            taxable_income = self.taxable_income - self.min_outflow_limit
+            # (min_outflow_limit is an outflow, so it is non-positive.)
+            taxable_income = max(
+                self.taxable_income + self.min_outflow_limit,
+                self.precision_convert(0))
 
         year = nearest_year(
             self.constants.RRSP_WITHHOLDING_TAX_RATE,
-- 
2.43.0


From b226711a950c771971dcb981b4f6fb612767740f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:14 +0000
Subject: [PATCH 13/37] fix: a person's own deductions and credits count once

---
 forecaster/tax.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 52b744e..3751934 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -403,14 +403,8 @@ class Tax(HighPrecisionOptional):
             float: The tax liability of the person.
         """
         taxable_income = person.taxable_income_history[year]
-        deduction = (
-            person.tax_deduction_history[year]
-            + self.deduction(person, year)
-            + deduction)
-        credit = (
-            person.tax_credit_history[year]
-            + self.credit(person, year)
-            + credit)
+        deduction = self.deduction(person, year) + deduction
+        credit = self.credit(person, year) + credit
         return self.tax_money(taxable_income, year, deduction, credit)
 
     def tax_people(self, people, year, deduction=None, credit=None):
-- 
2.43.0


From ecce6771cf295fb7f5e48b5a2f65b5eeb0b3bf80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 14/37] fix: combined tax brackets read every jurisdiction more
 than once

---
 forecaster/tax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 3751934..2a3d4b8 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -669,7 +669,7 @@ class TaxMulti(object):
                 for tax in self.jurisdictions)
         # Otherwise we return a dict.
         # Get a dict for each jurisdiction:
-        brackets = (tax.tax_brackets(year=year) for tax in self.jurisdictions)
+        brackets = [tax.tax_brackets(year=year) for tax in self.jurisdictions]
         # Collect all the keys of the dicts (ignoring duplicates):
         bracket_keys = set.union(*(set(bracket) for bracket in brackets))
         combined_brackets = {}
-- 
2.43.0


From a95491d06837ccd6baaf1580d1e5474652a35839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 15/37] fix: build_allocation_strategy passes the strategy
 class as param_type

---
 forecaster/forecaster.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 41a3f29..6862c7a 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -491,5 +491,5 @@ class Forecaster(HighPrecisionOptional):
         other parameters.
         """
         return self.build_param(
-            Parameter.ALLOCATION_STRATEGY, AllocationStrategy, *args,
-            _special_builder=False, **kwargs)
+            Parameter.ALLOCATION_STRATEGY, *args,
+            param_type=AllocationStrategy, _special_builder=False, **kwargs)
-- 
2.43.0


From df1f66ba6047e7ca0bad8fc0dbef2a30ec620a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:44 +0000
Subject: [PATCH 16/37] fix: combined deduction asks the first jurisdiction for
 its deduction

---
 forecaster/tax.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 2a3d4b8..1ff2799 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -695,7 +695,7 @@ class TaxMulti(object):
 
     def deduction(self, person, year):
         """ The deductions the person is eligible for. """
-        return self.jurisdictions[0].deductions(
+        return self.jurisdictions[0].deduction(
             person=person, year=year)
 
     def credit(self, person, year, deduction=None):
-- 
2.43.0


From 4db0af21f7ff8bb92092511eddcd71b0e8afb3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 17/37] fix: Canadian tax does not write into the caller's
 deductions and credits

---
 forecaster/canada/tax.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index b8d41e7..20b6fa6 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -224,11 +224,11 @@ class TaxCanada(TaxMulti, HighPrecisionOptional):
         # by the superclass), or they can pass in `federal_*` and/or
         # `provincial_*` scalars which we'll wrap up appropriately.
         if "deductions" in kwargs:
-            deductions = kwargs["deductions"]
+            deductions = dict(kwargs["deductions"])
         else:
             deductions = {}
         if "credits_" in kwargs:
-            credits_ = kwargs["credits_"]
+            credits_ = dict(kwargs["credits_"])
         else:
             credits_ = {}
 
-- 
2.43.0


From 2adbdde35874ec2d4711b6a183a7e41c7a631bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:51 +0000
Subject: [PATCH 18/37] fix: Canadian tax jurisdictions keep the numeric type
 they were given

---
 forecaster/canada/tax.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forecaster/canada/tax.py b/forecaster/canada/tax.py
index 20b6fa6..0e48dbb 100644
--- a/forecaster/canada/tax.py
+++ b/forecaster/canada/tax.py
@@ -29,6 +29,7 @@ class TaxCanadaJurisdiction(Tax):
             inflation_adjust=inflation_adjustments,
             refund_timing=self.constants.TAX_REFUND_TIMING,
             payment_timing=self.constants.TAX_PAYMENT_TIMING,
+            high_precision=high_precision,
             **kwargs)
 
         self.jurisdiction = jurisdiction
-- 
2.43.0


From 7ebda1c2e38ad7b59945995cc0419b7ac719d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 19/37] fix: raising equity to its minimum keeps the
 allocation's total

---
 forecaster/strategy/allocation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/strategy/allocation.py b/forecaster/strategy/allocation.py
index a4b2500..6a5c748 100644
--- a/forecaster/strategy/allocation.py
+++ b/forecaster/strategy/allocation.py
@@ -252,7 +252,7 @@ class AllocationStrategy(Strategy):
                 * allocation.bonds / (allocation.bonds + allocation.other)
             )
             other = allocation.other - (
-                (self.max_equity - allocation.stocks)
+                (self.min_equity - allocation.stocks)
                 * allocation.other / (allocation.bonds + allocation.other)
             )
             allocation = AssetAllocation(self.min_equity, bonds, other)
-- 
2.43.0


From e7a9506192278f06b2b2c7a6958502169b6e8388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 20/37] fix: living expenses are charged when nobody has income

---
 forecaster/forecast/living_expenses.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/forecaster/forecast/living_expenses.py b/forecaster/forecast/living_expenses.py
index e7d3a48..7283633 100644
--- a/forecaster/forecast/living_expenses.py
+++ b/forecaster/forecast/living_expenses.py
@@ -49,8 +49,15 @@ class LivingExpensesForecast(SubForecast):
         # living expenses every time each of them gets paid
         # proportionately to their share of net income.
         total_income = sum(person.net_income for person in self.people)
-        income_weights = {
-            person: person.net_income / total_income for person in self.people}
+        if total_income == 0:
+            # No income to apportion by (e.g. everyone is retired), so
+            # everyone bears an equal share:
+            share = self.precision_convert(1) / len(self.people)
+            income_weights = {person: share for person in self.people}
+        else:
+            income_weights = {
+                person: person.net_income / total_income
+                for person in self.people}
         for person in self.people:
             self.add_transaction(
                 self.living_expenses * income_weights[person],
-- 
2.43.0


From e83627a39940a447888e7df91ce7fbe9718bd5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 21/37] fix: custom transaction and group methods are unpacked
 one per limit

---
 forecaster/strategy/transaction/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/strategy/transaction/base.py b/forecaster/strategy/transaction/base.py
index 46ae4e2..d3b8048 100644
--- a/forecaster/strategy/transaction/base.py
+++ b/forecaster/strategy/transaction/base.py
@@ -186,11 +186,11 @@ class TransactionTraversal(HighPrecisionOptional):
         if transaction_methods is None:
             self.transaction_methods = transaction_default_methods()
         else:
-            self.transaction_methods = LimitTuple(transaction_methods)
+            self.transaction_methods = LimitTuple(*transaction_methods)
         if group_methods is None:
             self.group_methods = group_default_methods()
         else:
-            self.group_methods = LimitTuple(group_methods)
+            self.group_methods = LimitTuple(*group_methods)
         # Convert `precision` to high-precision if it's the default
         # argument and a conversion method has been passed:
         if precision == EPSILON and self.high_precision is not None:
-- 
2.43.0


From a9a885bb5790282702464dc27932cf512a97c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:10 +0000
Subject: [PATCH 22/37] fix: a transaction node copied from another keeps its
 children

---
 forecaster/strategy/transaction/node.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/forecaster/strategy/transaction/node.py b/forecaster/strategy/transaction/node.py
index a190bf9..0a95fa6 100644
--- a/forecaster/strategy/transaction/node.py
+++ b/forecaster/strategy/transaction/node.py
@@ -54,6 +54,7 @@ class TransactionNode:
             # Copy initialization:
             self.source = source.source
             self.limits = source.limits
+            self.children = source.children
             return
 
         # Hold on to the original list/dict/whatever.
-- 
2.43.0


From c092caa012528c16a3d96632a5d26fdfa83ffd11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:14 +0000
Subject: [PATCH 23/37] fix: unused RRSP room counts contributions to every
 account sharing it

---
 forecaster/canada/accounts/rrsp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/rrsp.py b/forecaster/canada/accounts/rrsp.py
index 35553a1..8e2ea49 100644
--- a/forecaster/canada/accounts/rrsp.py
+++ b/forecaster/canada/accounts/rrsp.py
@@ -217,7 +217,9 @@ class RRSP(RegisteredAccount):
                 self.inflation_adjust,
                 year + 1)
             # Don't forget to add in any rollovers:
-            rollover = self.contribution_room - self.inflows()
+            # (Contributions to any account sharing the room use it up.)
+            rollover = self.contribution_room - sum(
+                account.inflows() for account in self.max_inflow_link.group)
             return min(
                 accrual,
                 max_accrual # Money value
-- 
2.43.0


From 12baed8679fd8973dcfbf5e813fb7b506b0d4472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:19 +0000
Subject: [PATCH 24/37] fix: unused TFSA room counts transactions of every
 account sharing it

---
 forecaster/canada/accounts/tfsa.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index 77c39ff..cd32fa2 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -125,7 +125,10 @@ class TFSA(RegisteredAccount):
         contribution_room = self._contribution_room_accrual(self.this_year + 1)
         # On top of this year's accrual, roll over unused contribution
         # room, plus any withdrawals (less contributions) from last year
-        rollover = self.contribution_room - (self.outflows() + self.inflows())
+        # (in any account that shares the room):
+        rollover = self.contribution_room - sum(
+            account.outflows() + account.inflows()
+            for account in self.max_inflow_link.group)
         return contribution_room + rollover
 
     @recorded_property
-- 
2.43.0


From cd37f299ea623c5624cc4f13db66f5c0b3432452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:24 +0000
Subject: [PATCH 25/37] fix: user-supplied contribution room also limits
 contributions

---
 forecaster/canada/accounts/registered_account.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/forecaster/canada/accounts/registered_account.py b/forecaster/canada/accounts/registered_account.py
index 99e6618..f1c1ccb 100644
--- a/forecaster/canada/accounts/registered_account.py
+++ b/forecaster/canada/accounts/registered_account.py
@@ -161,6 +161,9 @@ class RegisteredAccount(LinkedLimitAccount):
         # the linked data store:
         if first_account:
             self.contribution_room = contribution_room
+            # User-supplied room isn't overwritten by the above, but the
+            # limit shared by linked accounts has to follow it too:
+            self.max_inflow_limit = contribution_room
 
     def next_contribution_room(self):
         """ Returns the contribution room for next year.
-- 
2.43.0


From 69ce0093f284aa148279b1edc9ff2e89d55faf13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:28 +0000
Subject: [PATCH 26/37] fix: TFSA room input for later years only does not
 prevent initialization

---
 forecaster/canada/accounts/tfsa.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index cd32fa2..c1e2b96 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -73,7 +73,9 @@ class TFSA(RegisteredAccount):
         # before this initial_year (e.g. due to `input`), in which
         # case we should extrapolate from that year onwards:
         # (See above note re: `_contribution_room_history`)
-        if self._contribution_room_history:
+        if any(
+                year < self.initial_year
+                for year in self._contribution_room_history):
             # Get the last year for which there is data and the
             # contribution room recorded for that year:
             last_year = max(
-- 
2.43.0


From c3a3d4dcbb4d31c21b61f34af357109b098055cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:32 +0000
Subject: [PATCH 27/37] fix: a person's deductions and credits follow their
 accounts' transactions

---
 forecaster/person.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index 69f4dd2..e3f8901 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -392,13 +392,13 @@ class Person(TaxSource):
 
     # NOTE: Test overloading of recorded property by subclass
 
-    @recorded_property_cached
+    @recorded_property
     def tax_deduction(self):
         """ The `Person`'s tax deductions for the year. """
         return sum(
             (account.tax_deduction for account in self.accounts))
 
-    @recorded_property_cached
+    @recorded_property
     def tax_credit(self):
         """ The `Person`'s tax credits for the year. """
         return sum(
-- 
2.43.0


From 731eb16c533b462bb6c8e48c6edba32ae3bf15d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:36 +0000
Subject: [PATCH 28/37] fix: removing transactions also invalidates the cached
 capital gain

---
 forecaster/canada/accounts/taxable_account.py | 28 +++++++++++++++----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/forecaster/canada/accounts/taxable_account.py b/forecaster/canada/accounts/taxable_account.py
index 9bd3d78..ec7fcf4 100644
--- a/forecaster/canada/accounts/taxable_account.py
+++ b/forecaster/canada/accounts/taxable_account.py
@@ -106,18 +106,36 @@ class TaxableAccount(Account):
                 acb *= self.precision_convert(1) - (-value / balance)
 
         # We've generated the ACB for the next year, so store it now.
-        self._acb_history[self.this_year + 1] = acb
+        # (unless the user has provided it).
+        if self.this_year + 1 not in self.inputs.get('acb', ()):
+            self._acb_history[self.this_year + 1] = acb
         return capital_gain
 
     def add_transaction(self, value, when='end'):
         super().add_transaction(value, when)
-        # Invalidate the cache for acb and capital gains, since
-        # transactions will affect it.
+        self._invalidate_capital_gain()
+
+    def __delitem__(self, key):
+        super().__delitem__(key)
+        self._invalidate_capital_gain()
+
+    def clear(self):
+        """ Clears all of the account's transactions. """
+        super().clear()
+        self._invalidate_capital_gain()
+
+    def _invalidate_capital_gain(self):
+        """ Drops figures which depend on this year's transactions.
+
+        Figures provided by the user are not dropped.
+        """
         # pylint: disable=no-member
         # Pylint gets confused by attributes added via metaclass.
         # All `_*_history` members are dicts added automatically:
-        self._capital_gain_history.pop(self.this_year, None)
-        self._acb_history.pop(self.this_year + 1, None)
+        if self.this_year not in self.inputs.get('capital_gain', ()):
+            self._capital_gain_history.pop(self.this_year, None)
+        if self.this_year + 1 not in self.inputs.get('acb', ()):
+            self._acb_history.pop(self.this_year + 1, None)
 
     @recorded_property
     def taxable_income(self):
-- 
2.43.0


From b87f58dda09c938890b1ab16f4c1fc324709ae17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:40 +0000
Subject: [PATCH 29/37] fix: cached high-precision values belong to the object,
 not to its class

---
 forecaster/utility/precision.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/forecaster/utility/precision.py b/forecaster/utility/precision.py
index a2e85cd..f60c869 100644
--- a/forecaster/utility/precision.py
+++ b/forecaster/utility/precision.py
@@ -107,9 +107,12 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
 
     def __init__(self):
         super().__init__()
-        # Cached values (for efficient calls to __get__):
-        self._high_precision_cache = None
-        self._high_precision_value_cache = None
+        # The attribute that holds each object's cached value:
+        self.cache_name = None
+
+    def __set_name__(self, owner, name):
+        super().__set_name__(owner, name)
+        self.cache_name = '_' + name + '_high_precision_cache'
 
     def __get__(self, obj, objtype=None, *, high_precision=None):
         # When called by metaclass on class init, `obj` is None:
@@ -127,13 +130,14 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
 
         # Check to see if the previous return value is cached and can
         # be used for these inputs:
+        cache = getattr(obj, self.cache_name, None)
         if (
                 # Confirm we have a cached value (this fails if a new
                 # value has been set since the last call to __get__):
-                self._high_precision_value_cache is not None and
+                cache is not None and
                 # Confirm that the conversion method is the same:
-                self._high_precision_cache == high_precision):
-            return self._high_precision_value_cache
+                cache[0] == high_precision):
+            return cache[1]
 
         # If we can't use the cache, calculate a fresh value:
         value = super().__get__(
@@ -143,15 +147,15 @@ class HighPrecisionOptionalPropertyCached(HighPrecisionOptionalProperty):
             high_precision=high_precision)
 
         # Update the cache to make the next call more efficient:
-        self._high_precision_value_cache = value
-        self._high_precision_cache = high_precision
+        if value is not None:
+            setattr(obj, self.cache_name, (high_precision, value))
 
         return value
 
     def __set__(self, obj, value):
         super().__set__(obj, value)
         # Invalidate the cache
-        self._high_precision_value_cache = None
+        setattr(obj, self.cache_name, None)
 
 class HighPrecisionOptional(object):
     """ Supports both native and high-precision numerical types.
-- 
2.43.0


From 633d6e43625e93270309c46b5227cf376737c677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 30/37] fix: tax payment and refund timings use the tax
 treatment's numeric type

---
 forecaster/tax.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/forecaster/tax.py b/forecaster/tax.py
index 1ff2799..da04220 100644
--- a/forecaster/tax.py
+++ b/forecaster/tax.py
@@ -281,7 +281,8 @@ class Tax(HighPrecisionOptional):
     @payment_timing.setter
     def payment_timing(self, val):
         """ Sets `payment_timing`. """
-        self._payment_timing = Timing(val)
+        self._payment_timing = Timing(
+            val, high_precision=self.high_precision)
 
     @property
     def refund_timing(self):
@@ -291,7 +292,8 @@ class Tax(HighPrecisionOptional):
     @refund_timing.setter
     def refund_timing(self, val):
         """ Sets `refund_timing`. """
-        self._refund_timing = Timing(val)
+        self._refund_timing = Timing(
+            val, high_precision=self.high_precision)
 
     def marginal_bracket(self, taxable_income, year):
         """ The top tax bracket that taxable_income falls into. """
-- 
2.43.0


From 8270d2db5a4ba94dac2abfa115f15c9a249d3253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 31/37] fix: timings built from a whole-number time use the
 requested numeric type

---
 forecaster/utility/timing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/utility/timing.py b/forecaster/utility/timing.py
index 005fddd..2133e72 100644
--- a/forecaster/utility/timing.py
+++ b/forecaster/utility/timing.py
@@ -88,7 +88,7 @@ class Timing(dict):
             weight = one / frequency
             # Build the dict:
             for time in range(frequency):
-                self[(time + when) / frequency] = weight
+                self[(time * one + when) / frequency] = weight
 
     def _normalized(self, keys=None):
         """ Returns a normalized dict based on this `Timing` object.
-- 
2.43.0


From 371f1eb96420f6d682e231adaaf42c8fa0edd145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:01 +0000
Subject: [PATCH 32/37] fix: each Forecaster has its own tables of default
 values

---
 forecaster/canada/forecaster.py | 3 ++-
 forecaster/forecaster.py        | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/forecaster/canada/forecaster.py b/forecaster/canada/forecaster.py
index c34c811..234ae10 100644
--- a/forecaster/canada/forecaster.py
+++ b/forecaster/canada/forecaster.py
@@ -1,5 +1,6 @@
 """ Provides a Canada-specific implementation of Forecaster. """
 
+from copy import deepcopy
 from forecaster.forecaster import Forecaster, Parameter
 from forecaster.canada.tax import TaxCanada
 from forecaster.canada.settings import SettingsCanada
@@ -29,5 +30,5 @@ class ForecasterCanada(Forecaster):
         if settings is None:
             settings = SettingsCanada()
         super().__init__(*args, settings=settings, **kwargs)
-        self.default_values.update(DEFAULTVALUES)
+        self.default_values.update(deepcopy(DEFAULTVALUES))
         self.default_types.update(DEFAULTTYPES)
diff --git a/forecaster/forecaster.py b/forecaster/forecaster.py
index 6862c7a..f1dcb30 100644
--- a/forecaster/forecaster.py
+++ b/forecaster/forecaster.py
@@ -144,7 +144,7 @@ class Forecaster(HighPrecisionOptional):
         """ Inits an instance of `Forecaster`. """
         # Set up instance:
         super().__init__(high_precision=high_precision)
-        self.default_values = copy(DEFAULTVALUES)
+        self.default_values = deepcopy(DEFAULTVALUES)
         self.default_types = copy(DEFAULTTYPES)
         self.default_builders = copy(DEFAULTBUILDERS)
         # Store args as attributes:
-- 
2.43.0


From 3ae041d07527daea51696ddf66b4dc064c084f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:48 +0000
Subject: [PATCH 33/37] fix: objects reading settings or constants do not share
 mutable defaults

---
 forecaster/value_reader.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 1096c03..71de7b8 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -2,6 +2,7 @@
 
 import os
 import json
+from copy import deepcopy
 from forecaster.utility.precision import HighPrecisionOptional
 
 INFINITY = float('inf')
@@ -46,7 +47,12 @@ class ValueReaderAttribute(object):
                 self.default is not None and
                 hasattr(obj, 'use_defaults') and
                 obj.use_defaults):
-            return self.default
+            # Each object has its own copy, so that changing a (mutable)
+            # default value through one object doesn't affect others:
+            defaults = obj.__dict__.setdefault('_defaults', {})
+            if self.name not in defaults:
+                defaults[self.name] = deepcopy(self.default)
+            return defaults[self.name]
         # Return the value read in from file (or raise a KeyError if
         # it's missing and there's no default):
         return obj.values[self.name]
-- 
2.43.0


From 9d98165b4a101a692ae394d496b40f2b627d2492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:51 +0000
Subject: [PATCH 34/37] fix: deleting a stored value does not raise after
 removing it

---
 forecaster/value_reader.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/forecaster/value_reader.py b/forecaster/value_reader.py
index 71de7b8..06d5cdb 100644
--- a/forecaster/value_reader.py
+++ b/forecaster/value_reader.py
@@ -64,8 +64,6 @@ class ValueReaderAttribute(object):
     def __delete__(self, obj):
         # Remove the value from the `values` dict:
         del obj.values[self.name]
-        # Also remove this descriptor:
-        del obj.__dict__[self.name]
 
 class HighPrecisionJSONEncoder(json.JSONEncoder):
     """ Extends JSONEncoder to support high-precision numeric types.
-- 
2.43.0


From 3731644a2464c81770d1acac7591e4d12afd4bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:52 +0000
Subject: [PATCH 35/37] fix: figures supplied by the user are copied in depth

---
 forecaster/ledger/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/forecaster/ledger/base.py b/forecaster/ledger/base.py
index 7800dda..0bacdab 100644
--- a/forecaster/ledger/base.py
+++ b/forecaster/ledger/base.py
@@ -1,6 +1,7 @@
 """ Module providing the Ledger base type and associated classes. """
 
 import inspect
+from copy import deepcopy
 from forecaster.ledger.recorded_property import (
     recorded_property, recorded_property_cached
 )
@@ -84,8 +85,9 @@ class Ledger(HighPrecisionOptional, metaclass=LedgerType):
         for prop in self._recorded_properties:
             # Use input values if available for this property:
             if prop.__name__ in self.inputs:
+                # (Values may be mutable, so copy them too.)
                 setattr(self, prop.history_dict_name,
-                        dict(self.inputs[prop.__name__]))
+                        deepcopy(dict(self.inputs[prop.__name__])))
             # Otherwise, use an empty dict and leave it to __init__ and
             # next_year to fill it programmatically.
             else:
-- 
2.43.0


From 2c1e3e114436ff98a84b3f75345973e4935563e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:00 +0000
Subject: [PATCH 36/37] fix: asking for a person's age on 29 February failed
 for most birth years

---
 forecaster/person.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/forecaster/person.py b/forecaster/person.py
index e3f8901..5d3f3ed 100644
--- a/forecaster/person.py
+++ b/forecaster/person.py
@@ -380,8 +380,13 @@ class Person(TaxSource):
             date = parse(str(date), default=self.birth_date)
 
         # Remember to check whether the month/day are earlier in `date`
+        # (Don't move `date` to the year of birth to compare them;
+        # 29 February does not exist in most years.)
         age = date.year - self.birth_date.year
-        if date.replace(self.birth_date.year) < self.birth_date:
+        birthday = self.birth_date
+        if (
+                (date.month, date.day, date.time()) <
+                (birthday.month, birthday.day, birthday.time())):
             age -= 1
 
         # We allow age to be negative, if that's what the caller wants.
-- 
2.43.0


From 696e02280866fc9aab236e51e9a73c36e084374f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:00 +0000
Subject: [PATCH 37/37] fix: no TFSA room accrues in the year before the
 contributor comes of age

---
 forecaster/canada/accounts/tfsa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/forecaster/canada/accounts/tfsa.py b/forecaster/canada/accounts/tfsa.py
index c1e2b96..90d33bf 100644
--- a/forecaster/canada/accounts/tfsa.py
+++ b/forecaster/canada/accounts/tfsa.py
@@ -105,7 +105,7 @@ class TFSA(RegisteredAccount):
         This excludes any rollovers - it's just the statutory accrual.
         """
         # No accrual if the contributor is too young to qualify:
-        if self.contributor.age(year + 1) < self.constants.TFSA_ELIGIBILITY_AGE:
+        if self.contributor.age(year) < self.constants.TFSA_ELIGIBILITY_AGE:
             return self.precision_convert(0) # Money value
 
         # If we already have an accrual rate set for this year, use that
-- 
2.43.0

