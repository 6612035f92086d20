"""Laws of forecaster.forecast.saving (specification text; parsed, never run)."""
# module: forecaster.forecast.saving

from forecaster.ledger import recorded_property_cached
from forecaster.forecast.subforecast import SubForecast

class SavingForecast:
    @law('C28', 'C09')
    def __init__(self, initial_year, retirement_accounts, debt_accounts, transaction_strategy, *, high_precision=None):
        """accounts and strategies"""
        super().__init__(initial_year, high_precision=high_precision)
        self.transaction_strategy = transaction_strategy
        self.retirement_accounts = retirement_accounts
        self.debt_accounts = debt_accounts
        self.account_transactions = {}

    @law('C07', 'C08', 'C28')
    def __call__(self, available):
        """the planned transactions are booked"""
        super().__call__(available)
        accounts = set(self.retirement_accounts).union(self.debt_accounts)
        self.account_transactions = self.transaction_strategy(available, accounts=accounts)
        for account in self.account_transactions:
            self.add_transactions(transactions=self.account_transactions[account], from_account=available, to_account=account)

    @law('C09')
    @recorded_property_cached
    def debt_repayment(self):
        """what went to debts"""
        return sum((sum(self.account_transactions[account].values()) for account in self.debt_accounts if account in self.account_transactions))

    @law('C09')
    @recorded_property_cached
    def retirement_savings(self):
        """what went to retirement accounts"""
        return sum((sum(self.account_transactions[account].values()) for account in self.retirement_accounts if account in self.account_transactions))

    @law('C09')
    @recorded_property_cached
    def total(self):
        """all of it"""
        return sum((sum(self.account_transactions[account].values()) for account in self.account_transactions))
