"""Laws of forecaster.forecast.base (specification text; parsed, never run)."""
# module: forecaster.forecast.base

from collections import defaultdict
from forecaster.ledger import Ledger, recorded_property, recorded_property_cached
from forecaster.utility import Timing, add_transactions

class Forecast:
    @law('C05', 'C06', 'C17', 'C19')
    def __init__(self, income_forecast, living_expenses_forecast, saving_forecast, withdrawal_forecast, tax_forecast, scenario, *, high_precision=None):
        """every year of the scenario, advancing between years"""
        super().__init__(initial_year=scenario.initial_year, high_precision=high_precision)
        self.income_forecast = income_forecast
        self.living_expenses_forecast = living_expenses_forecast
        self.saving_forecast = saving_forecast
        self.withdrawal_forecast = withdrawal_forecast
        self.tax_forecast = tax_forecast
        self.scenario = scenario
        self.available = defaultdict(lambda: self.precision_convert(0))
        self.forecasts = [self.income_forecast, self.living_expenses_forecast, self.saving_forecast, self.withdrawal_forecast, self.tax_forecast]
        last_year = max(self.scenario)
        while self.this_year < last_year:
            self.call_subforecasts()
            self.next_year()
        self.call_subforecasts()

    @law('C06', 'C09')
    @property
    def people(self):
        """the people of the forecast"""
        return self.income_forecast.people

    @law('C06', 'C09')
    @property
    def assets(self):
        """the assets of the forecast"""
        return self.withdrawal_forecast.accounts

    @law('C06', 'C09')
    @property
    def debts(self):
        """the debts of the forecast"""
        return self.saving_forecast.debt_accounts

    @law('C05')
    def call_subforecasts(self):
        """the five steps in order on one pool"""
        for forecast in self.forecasts:
            forecast(self.available)

    @law('C06', 'C01', 'C03', 'C05')
    def next_year(self):
        """record, advance everything, then carry over"""
        available_previous = dict(self.available)
        tax_adjustment_previous = self._get_tax_adjustment()
        super().next_year()
        for forecast in self.forecasts:
            while forecast.this_year < self.this_year:
                forecast.next_year()
        for person in self.people:
            while person.this_year < self.this_year:
                person.next_year()
        for account in self.assets.union(self.debts):
            while account.this_year < self.this_year:
                account.next_year()
        self.available.clear()
        self._carrover_overflow(available_previous)
        self._carryover_tax(tax_adjustment_previous)

    @law('C06', 'C09')
    def _get_tax_adjustment(self):
        """last year's tax adjustment"""
        if not hasattr(self, 'tax_forecast') or not hasattr(self.tax_forecast, 'tax_adjustment'):
            return None
        return self.tax_forecast.tax_adjustment

    @law('C06', 'C07')
    def _carrover_overflow(self, available_previous):
        """the total left over, at the start of the year"""
        self.available[0] += sum(available_previous.values())

    @law('C06', 'C07')
    def _carryover_tax(self, tax_adjustment_previous):
        """refunds in at the refund timing, balances out at the payment timing"""
        if tax_adjustment_previous is None:
            return
        if tax_adjustment_previous > 0:
            if hasattr(self.tax_forecast, 'tax_refund_timing'):
                timing = self.tax_forecast.tax_refund_timing
            else:
                timing = Timing(0, high_precision=self.high_precision)
        elif tax_adjustment_previous < 0:
            if hasattr(self.tax_forecast, 'tax_payment_timing'):
                timing = self.tax_forecast.tax_payment_timing
            else:
                timing = Timing(0, high_precision=self.high_precision)
        else:
            return
        transactions = timing.time_series(tax_adjustment_previous)
        add_transactions(self.available, transactions)

    @law('C23')
    @property
    def retirement_year(self):
        """when the people retire"""
        return max((person.retirement_date for person in self.people if person.retirement_date is not None), default=None).year

    @law('C09', 'C05')
    @recorded_property_cached
    def income(self):
        """net income of the year"""
        return self.income_forecast.net_income

    @law('C09', 'C23')
    @recorded_property_cached
    def living_expenses(self):
        """living expenses of the year"""
        return self.living_expenses_forecast.living_expenses

    @law('C09')
    @recorded_property_cached
    def savings(self):
        """income less living expenses, never negative"""
        return max(self.income - self.living_expenses, self.precision_convert(0))

    @law('C09')
    @recorded_property_cached
    def principal(self):
        """the balances of the assets"""
        return sum((account.balance for account in self.assets), self.precision_convert(0))

    @law('C09')
    @recorded_property
    def withdrawals(self):
        """gross withdrawals"""
        return self.withdrawal_forecast.gross_withdrawals

    @law('C09')
    @recorded_property
    def tax(self):
        """tax owing"""
        return self.tax_forecast.tax_owing
