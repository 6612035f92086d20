"""Laws of forecaster.canada.tax (specification text; parsed, never run)."""
# module: forecaster.canada.tax

from forecaster.tax import Tax, TaxMulti
from forecaster.utility.precision import HighPrecisionOptional
from forecaster.canada.accounts import RRSP
from forecaster.canada.constants import ConstantsCanada
from forecaster.utility import extend_inflation_adjusted

class TaxCanadaJurisdiction:
    @law('C30', 'C17', 'C24')
    def __init__(self, inflation_adjustments, jurisdiction='Federal', *, high_precision=None, constants=None, **kwargs):
        """a jurisdiction's own tables"""
        if constants is None:
            self.constants = ConstantsCanada(high_precision=high_precision)
        else:
            self.constants = constants
        super().__init__(tax_brackets=self.constants.TAX_BRACKETS[jurisdiction], personal_deduction=self.constants.TAX_PERSONAL_DEDUCTION[jurisdiction], credit_rate=self.constants.TAX_CREDIT_RATE[jurisdiction], inflation_adjust=inflation_adjustments, refund_timing=self.constants.TAX_REFUND_TIMING, payment_timing=self.constants.TAX_PAYMENT_TIMING, high_precision=high_precision, **kwargs)
        self.jurisdiction = jurisdiction

    @law('C30', 'C09')
    def credit(self, person, year, deduction=None):
        """the jurisdiction's credits"""
        _credits = super().credit(person, year, deduction)
        _credits += self._pension_income_credit(person, year)
        if person.spouse is not None:
            _credits += self._spousal_tax_credit(person, year)
        return _credits

    @law('C30', 'C18')
    def _pension_income_credit(self, person, year):
        """retirement withdrawals up to the indexed maximum"""
        pension_income = abs(sum((account.outflows() for account in person.accounts if isinstance(account, RRSP))))
        deduction_max = extend_inflation_adjusted(self.constants.TAX_PENSION_CREDIT[self.jurisdiction], self.inflation_adjust, year)
        return min(pension_income, deduction_max)

    @law('C30', 'C18')
    def _spousal_tax_credit(self, person, year):
        """the better-earning spouse, less the other's income, never negative"""
        if person.spouse is None:
            return 0
        max_spousal_amount = extend_inflation_adjusted(self.constants.TAX_SPOUSAL_AMOUNT[self.jurisdiction], self.inflation_adjust, year)
        spouse = person.spouse
        spouse_net_income = spouse.taxable_income - self.deduction(spouse, year)
        person_net_income = person.taxable_income - self.deduction(person, year)
        if person_net_income < spouse_net_income:
            return 0
        if person_net_income == spouse_net_income:
            if id(person) < id(spouse):
                return 0
        credit = max(max_spousal_amount - spouse_net_income, 0)
        return credit

class TaxCanada:
    @law('C30', 'C17', 'C06')
    def __init__(self, inflation_adjust, province='BC', constants=None, **kwargs):
        """federal and provincial"""
        self.federal_tax = TaxCanadaJurisdiction(inflation_adjust, constants=constants, **kwargs)
        self.provincial_tax = TaxCanadaJurisdiction(inflation_adjust, province, constants=constants, **kwargs)
        self.province = province
        jurisdictions = (self.federal_tax, self.provincial_tax)
        super().__init__(jurisdictions, **kwargs)

    @law('C30', 'C24', 'C19')
    def __call__(self, income, year, federal_deduction=None, federal_credit=None, provincial_deduction=None, provincial_credit=None, **kwargs):
        """deductions and credits reach their own jurisdiction only"""
        if 'deductions' in kwargs:
            deductions = dict(kwargs['deductions'])
        else:
            deductions = {}
        if 'credits_' in kwargs:
            credits_ = dict(kwargs['credits_'])
        else:
            credits_ = {}
        if federal_deduction is not None:
            deductions[self.federal_tax] = federal_deduction
        if federal_credit is not None:
            credits_[self.federal_tax] = federal_credit
        if provincial_deduction is not None:
            deductions[self.provincial_tax] = provincial_deduction
        if provincial_credit is not None:
            credits_[self.provincial_tax] = provincial_credit
        kwargs['deductions'] = deductions
        kwargs['credits_'] = credits_
        return super().__call__(income=income, year=year, **kwargs)
