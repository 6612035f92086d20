"""Laws of forecaster.forecast.tax (specification text; parsed, never run)."""
# module: forecaster.forecast.tax

from forecaster.forecast import SubForecast
from forecaster.ledger import recorded_property_cached

class TaxForecast:
    @law('C09', 'C06')
    def __init__(self, initial_year, people, tax_treatment, *, high_precision=None):
        """the people and the treatment"""
        super().__init__(initial_year, high_precision=high_precision)
        self.people = people
        self.tax_treatment = tax_treatment

    @law('C09')
    @recorded_property_cached
    def tax_withheld(self):
        """over every person and each of their accounts"""
        withheld = sum((person.tax_withheld for person in self.people))
        accounts = set.union(*(person.accounts for person in self.people))
        withheld += sum((account.tax_withheld for account in accounts))
        return withheld

    @law('C09', 'C24')
    @recorded_property_cached
    def tax_owing(self):
        """the treatment's answer for the people this year"""
        return self.tax_treatment(self.people, self.this_year)

    @law('C09', 'C06')
    @recorded_property_cached
    def tax_adjustment(self):
        """withheld less owing"""
        return self.tax_withheld - self.tax_owing

    @law('C06')
    @property
    def tax_refund_timing(self):
        """the treatment's"""
        return self.tax_treatment.refund_timing

    @law('C06')
    @property
    def tax_payment_timing(self):
        """the treatment's"""
        return self.tax_treatment.payment_timing
