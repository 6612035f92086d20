"""Laws of forecaster.forecast.living_expenses (specification text; parsed, never run)."""
# module: forecaster.forecast.living_expenses

from forecaster.ledger import recorded_property_cached
from forecaster.forecast.subforecast import SubForecast

class LivingExpensesForecast:
    @law('C23')
    def __init__(self, initial_year, people, living_expenses_strategy, *, high_precision=None):
        """the people and the rule"""
        super().__init__(initial_year, high_precision=high_precision)
        self.living_expenses_strategy = living_expenses_strategy
        self.people = people

    @law('C23', 'C07', 'C08')
    def __call__(self, available):
        """the full amount, in proportion to net income, at each person's times"""
        super().__call__(available)
        total_income = sum((person.net_income for person in self.people))
        if total_income == 0:
            share = self.precision_convert(1) / len(self.people)
            income_weights = {person: share for person in self.people}
        else:
            income_weights = {person: person.net_income / total_income for person in self.people}
        for person in self.people:
            self.add_transaction(self.living_expenses * income_weights[person], timing=person.payment_timing, from_account=available, to_account=None)

    @law('C23', 'C09')
    @recorded_property_cached
    def living_expenses(self):
        """the rule's figure"""
        retirement_year = min((person.retirement_date.year for person in self.people))
        return self.living_expenses_strategy(year=self.this_year, people=self.people, retirement_year=retirement_year)
