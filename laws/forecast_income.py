"""Laws of forecaster.forecast.income (specification text; parsed, never run)."""
# module: forecaster.forecast.income

from forecaster.ledger import recorded_property
from forecaster.forecast.subforecast import SubForecast

class IncomeForecast:
    @law('C09')
    def __init__(self, initial_year, people, asset_sale_timing=None, *, high_precision=None):
        """the people and what is available"""
        super().__init__(initial_year, default_timing=asset_sale_timing, high_precision=high_precision)
        self.people = people

    @law('C07', 'C08', 'C09')
    def __call__(self, available):
        """net income in at the payment timing, everything at its time"""
        super().__call__(available)
        self.add_transaction(value=self.asset_sale, from_account=None, to_account=available)
        for person in self.people:
            self.add_transaction(person.net_income, timing=person.payment_timing, from_account=None, to_account=available)

    @law('C09')
    @recorded_property
    def asset_sale(self):
        """nothing is sold"""
        return self.precision_convert(0)

    @law('C09')
    @recorded_property
    def carryover(self):
        """what was carried over"""
        return self.total_available

    @law('C09')
    @recorded_property
    def gross_income(self):
        """over every person"""
        return sum((person.gross_income for person in self.people), self.precision_convert(0))

    @law('C09')
    @recorded_property
    def tax_withheld(self):
        """over every person"""
        return sum((person.tax_withheld for person in self.people), self.precision_convert(0))

    @law('C09')
    @recorded_property
    def net_income(self):
        """gross less withheld, and what else came in"""
        return sum((person.net_income for person in self.people), self.precision_convert(0))
