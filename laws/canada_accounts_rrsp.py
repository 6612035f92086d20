"""Laws of forecaster.canada.accounts.rrsp (specification text; parsed, never run)."""
# module: forecaster.canada.accounts.rrsp

from forecaster.canada.accounts.registered_account import RegisteredAccount
from forecaster.ledger import recorded_property
from forecaster.utility import extend_inflation_adjusted, nearest_year

class RRSP:
    @law('C25', 'C02', 'C16')
    def __init__(self, *args, rrif_conversion_year=None, **kwargs):
        """converts by the latest year unless told otherwise"""
        super().__init__(*args, **kwargs)
        self._rrif_conversion_year = None
        self.rrif_conversion_year = rrif_conversion_year
        if self.high_precision is not None:
            rrsp_accrual_max = {year: self.high_precision(val) for year, val in self.constants.RRSP_ACCRUAL_MAX.items()}
        else:
            rrsp_accrual_max = self.constants.RRSP_ACCRUAL_MAX
        self._initial_accrual = extend_inflation_adjusted(rrsp_accrual_max, self.inflation_adjust, self.initial_year)
        if self.contribution_room is None:
            self.contribution_room = self.precision_convert(0)

    @law('C25', 'C16')
    def _rrif_max_conversion_year(self):
        """the year the contributor reaches the conversion age"""
        return self.initial_year + self.constants.RRSP_RRIF_CONVERSION_AGE - self.owner.age(self.initial_year)

    @law('C25')
    @property
    def rrif_conversion_year(self):
        """the year of conversion"""
        if self._rrif_conversion_year is not None:
            return self._rrif_conversion_year
        else:
            return self._rrif_max_conversion_year()

    @law('C25', 'C16')
    @rrif_conversion_year.setter
    def rrif_conversion_year(self, val):
        """no later than the latest year"""
        if val is None:
            self._rrif_conversion_year = None
        else:
            if not isinstance(val, int):
                val = int(val)
            if val > self._rrif_max_conversion_year():
                raise ValueError('Attempt to convert RRSP to RRIF after mandatory ' + 'conversion year. Latest valid year is ' + str(self._rrif_max_conversion_year()))
            self._rrif_conversion_year = int(val)

    @law('C25')
    def convert_to_rrif(self, year=None):
        """converts this year unless told otherwise"""
        year = self.this_year if year is None else int(year)
        self.rrif_conversion_year = year

    @law('C25', 'C09')
    @recorded_property
    def taxable_income(self):
        """withdrawals are taxable"""
        return -self.outflows()

    @law('C25', 'C18', 'C09')
    @recorded_property
    def tax_withheld(self):
        """the rate of the bracket of the withdrawals above the minimum"""
        if self.rrif_conversion_year > self.this_year:
            taxable_income = self.taxable_income
        else:
            taxable_income = max(self.taxable_income + self.min_outflow_limit, self.precision_convert(0))
        year = nearest_year(self.constants.RRSP_WITHHOLDING_TAX_RATE, self.this_year)
        tax_rates = self.constants.RRSP_WITHHOLDING_TAX_RATE[year]
        taxable_income_adjusted = taxable_income * self.inflation_adjust(year, self.this_year)
        bracket = max((bracket for bracket in tax_rates if bracket < taxable_income_adjusted), default=min(tax_rates.keys()))
        tax_rate = self.precision_convert(tax_rates[bracket])
        return taxable_income * tax_rate

    @law('C25', 'C09')
    @recorded_property
    def tax_deduction(self):
        """contributions are deductible"""
        return self.inflows()

    @law('C25', 'C18', 'C13')
    def next_contribution_room(self):
        """unused room of the group and the accrual on income, up to the indexed maximum"""
        year = self.this_year
        if self.contributor.age(year + 1) > self.constants.RRSP_RRIF_CONVERSION_AGE:
            return self.precision_convert(0)
        else:
            income = self.contributor.gross_income_history[self.this_year]
            accrual = income * self.precision_convert(self.constants.RRSP_ACCRUAL_RATE)
            accrual_max = {year: self.precision_convert(val) for year, val in self.constants.RRSP_ACCRUAL_MAX.items()}
            max_accrual = extend_inflation_adjusted(accrual_max, self.inflation_adjust, year + 1)
            rollover = self.contribution_room - sum((account.inflows() for account in self.max_inflow_link.group))
            return min(accrual, max_accrual) + rollover

    @law('C25', 'C12')
    @property
    def min_outflow_limit(self):
        """a converted account must pay its minimum"""
        return min(-self.minimum_distribution(), super().min_outflow_limit)

    @law('C25', 'C12')
    def minimum_distribution(self):
        """a share of the balance by age, once converted"""
        if self.high_precision is not None:
            rrif_withdrawal_min = {year: self.high_precision(val) for year, val in self.constants.RRSP_RRIF_WITHDRAWAL_MIN.items()}
        else:
            rrif_withdrawal_min = self.constants.RRSP_RRIF_WITHDRAWAL_MIN
        if self.rrif_conversion_year < self.this_year:
            age = self.contributor.age(self.this_year)
            if age in rrif_withdrawal_min:
                return self.precision_convert(rrif_withdrawal_min[age]) * self.balance
            elif age > max(rrif_withdrawal_min):
                return self.balance * max(rrif_withdrawal_min.values())
            else:
                return self.balance / (90 - age)
        else:
            return self.precision_convert(0)
