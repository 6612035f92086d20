"""Laws of forecaster.canada.accounts.tfsa (specification text; parsed, never run)."""
# module: forecaster.canada.accounts.tfsa

from forecaster.canada.accounts.registered_account import RegisteredAccount
from forecaster.ledger import recorded_property
from forecaster.utility import extend_inflation_adjusted

class TFSA:
    @law('C25', 'C02', 'C16', 'C13')
    def __init__(self, owner, balance=None, rate=None, nper=None, inputs=None, initial_year=None, default_timing=None, contribution_room=None, contributor=None, inflation_adjust=None, **kwargs):
        """room is inferred for the contributor when none is on record"""
        super().__init__(owner, balance=balance, rate=rate, nper=nper, inputs=inputs, initial_year=initial_year, default_timing=default_timing, contribution_room=contribution_room, contributor=contributor, inflation_adjust=inflation_adjust, **kwargs)
        self._base_accrual_year = min(self.constants.TFSA_ANNUAL_ACCRUAL.keys())
        self._base_accrual = round(extend_inflation_adjusted(self.constants.TFSA_ANNUAL_ACCRUAL, self.inflation_adjust, self._base_accrual_year) / self.constants.TFSA_ACCRUAL_ROUNDING_FACTOR) * self.constants.TFSA_ACCRUAL_ROUNDING_FACTOR
        if self.contribution_room is None:
            self.contribution_room = self._infer_initial_contribution_rm()

    @law('C25')
    def _infer_initial_contribution_rm(self):
        """the accruals of every year since eligibility"""
        if self.this_year in self._contribution_room_history:
            return self._contribution_room_history[self.this_year]
        if any((year < self.initial_year for year in self._contribution_room_history)):
            last_year = max((year for year in self._contribution_room_history if year < self.initial_year))
            contribution_room = self._contribution_room_history[last_year]
            start_year = last_year + 1
        else:
            start_year = max(self.initial_year - self.contributor.age(self.initial_year) + self.constants.TFSA_ELIGIBILITY_AGE, min(self.constants.TFSA_ANNUAL_ACCRUAL.keys()))
            contribution_room = self.precision_convert(0)
        return contribution_room + sum((self._contribution_room_accrual(year) for year in range(start_year, self.initial_year + 1)))

    @law('C25', 'C18')
    def _contribution_room_accrual(self, year):
        """nothing before the eligible age, else the year's indexed and rounded amount"""
        if self.contributor.age(year) < self.constants.TFSA_ELIGIBILITY_AGE:
            return self.precision_convert(0)
        if year in self.constants.TFSA_ANNUAL_ACCRUAL:
            return self.constants.TFSA_ANNUAL_ACCRUAL[year]
        else:
            return round(self._base_accrual * self.inflation_adjust(year, self._base_accrual_year) / self.constants.TFSA_ACCRUAL_ROUNDING_FACTOR) * self.constants.TFSA_ACCRUAL_ROUNDING_FACTOR

    @asis('F02', 'C25', 'C18')
    def _contribution_room_accrual(self, year):
        if self.contributor.age(year) < self.constants.TFSA_ELIGIBILITY_AGE:
            return self.precision_convert(0)
        if year in self.constants.TFSA_ANNUAL_ACCRUAL:
            return self.constants.TFSA_ANNUAL_ACCRUAL[year]
        else:
            return round(self._base_accrual * self.inflation_adjust(self._base_accrual_year, year) / self.constants.TFSA_ACCRUAL_ROUNDING_FACTOR) * self.constants.TFSA_ACCRUAL_ROUNDING_FACTOR

    @law('C25', 'C13')
    def next_contribution_room(self):
        """unused room of the group, withdrawals added back, and the accrual"""
        contribution_room = self._contribution_room_accrual(self.this_year + 1)
        rollover = self.contribution_room - sum((account.outflows() + account.inflows() for account in self.max_inflow_link.group))
        return contribution_room + rollover

    @law('C25', 'C09')
    @recorded_property
    def taxable_income(self):
        """no taxable income"""
        return self.precision_convert(0)
