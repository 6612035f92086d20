"""Laws of forecaster.strategy.gross_transaction (specification text; parsed, never run)."""
# module: forecaster.strategy.gross_transaction

from forecaster.strategy.base import Strategy, strategy_method
from forecaster.utility.precision import HighPrecisionOptionalPropertyCached

class LivingExpensesStrategy:
    base_amount: law('C17', 'C23') = HighPrecisionOptionalPropertyCached()
    rate: law('C17', 'C23') = HighPrecisionOptionalPropertyCached()

    @law('C23', 'C22', 'C18')
    def __init__(self, strategy, base_amount=0, rate=0, inflation_adjust=None, **kwargs):
        """the rule and its parameters"""
        super().__init__(strategy, **kwargs)
        self.base_amount = base_amount
        self.rate = rate
        if inflation_adjust is not None:
            self.inflation_adjust = inflation_adjust
        else:
            self.inflation_adjust = lambda *args, **kwargs: 1

    @law('C23', 'C18')
    @strategy_method('Constant contribution')
    def strategy_const_contribution(self, people, *args, year=None, **kwargs):
        """income less a fixed contribution"""
        total_income = sum((person.net_income for person in people))
        contributions = self.base_amount * self.inflation_adjust(year)
        return total_income - contributions

    @law('C23', 'C18')
    @strategy_method('Constant living expenses')
    def strategy_const_living_expenses(self, *args, year=None, **kwargs):
        """a fixed amount"""
        return self.base_amount * self.inflation_adjust(year)

    @law('C23')
    @strategy_method('Percentage of net income')
    def strategy_net_percent(self, people, *args, **kwargs):
        """a share of net income"""
        return self.rate * sum((person.net_income for person in people))

    @law('C23')
    @strategy_method('Percentage of gross income')
    def strategy_gross_percent(self, people, *args, **kwargs):
        """a share of gross income"""
        return self.rate * sum((person.gross_income for person in people))

    @law('C23', 'C18')
    @strategy_method('Percentage of earnings growth')
    def strategy_percent_over_base(self, people, *args, year=None, **kwargs):
        """a base and a share of the growth over it"""
        base_amount = self.base_amount * self.inflation_adjust(year)
        total_income = sum((person.net_income for person in people))
        return base_amount + (total_income - base_amount) * self.rate

    @law('C23', 'C18')
    @strategy_method('Percentage of principal at retirement')
    def strategy_principal_percent_ret(self, accounts, retirement_year, *args, year=None, **kwargs):
        """a share of principal at retirement"""
        retirement_balance = sum((account.balance_history[retirement_year] for account in accounts))
        return self.rate * retirement_balance * self.inflation_adjust(year, retirement_year)

    @law('C23', 'C18')
    @strategy_method('Percentage of net income at retirement')
    def strategy_net_percent_ret(self, people, retirement_year, *args, year=None, **kwargs):
        """a share of net income at retirement"""
        retirement_income = sum((person.net_income_history[retirement_year] for person in people))
        return self.rate * retirement_income * self.inflation_adjust(year, retirement_year)

    @law('C23', 'C18')
    @strategy_method('Percentage of gross income at retirement')
    def strategy_gross_percent_ret(self, people, retirement_year, *args, year=None, **kwargs):
        """a share of gross income at retirement"""
        retirement_income = sum((person.gross_income_history[retirement_year] for person in people))
        return self.rate * retirement_income * self.inflation_adjust(year, retirement_year)

    @law('C23', 'C22')
    def __call__(self, *args, people=None, year=None, retirement_year=None, **kwargs):
        """the rule, never negative"""
        if people is not None:
            accounts = set.union(*[person.accounts for person in people])
        else:
            accounts = None
        living_expenses = super().__call__(*args, people=people, year=year, accounts=accounts, retirement_year=retirement_year, **kwargs)
        return max(living_expenses, 0)

class LivingExpensesStrategySchedule:
    @law('C23')
    def __init__(self, working, retirement, minimum=None):
        """working and retirement rules"""
        self.working = working
        self.retirement = retirement
        self.minimum = minimum

    @law('C23')
    def __call__(self, *args, year=None, retirement_year=None, **kwargs):
        """working up to the retirement year, retirement after"""
        if year is not None and retirement_year is not None and (year > retirement_year):
            living_expenses = self.retirement(*args, year=year, retirement_year=retirement_year, **kwargs)
        else:
            living_expenses = self.working(*args, year=year, retirement_year=retirement_year, **kwargs)
        if self.minimum is not None:
            minimum = self.minimum(*args, year=year, retirement_year=retirement_year, **kwargs)
            return max(living_expenses, minimum)
        else:
            return living_expenses
