"""Laws of forecaster.forecast.withdrawal (specification text; parsed, never run)."""
# module: forecaster.forecast.withdrawal

from forecaster.ledger import recorded_property, recorded_property_cached
from forecaster.forecast.subforecast import SubForecast
from forecaster.utility import transactions_from_timing

class WithdrawalForecast:
    @law('C28', 'C09')
    def __init__(self, initial_year, people, accounts, transaction_strategy, *, high_precision=None):
        """people, accounts and strategy"""
        super().__init__(initial_year, high_precision=high_precision)
        self.people = people
        self.accounts = accounts
        self.transaction_strategy = transaction_strategy
        self.account_transactions = {}
        self.tax_withheld = self.precision_convert(0)

    @law('C07', 'C08', 'C28')
    def __call__(self, available):
        """the planned transactions are booked, and the tax withheld on them"""
        super().__call__(available)
        self.account_transactions = self.transaction_strategy(available, accounts=self.accounts)
        tax_withheld = {account: account.tax_withheld for account in self.accounts}
        for account in self.account_transactions:
            self.add_transactions(transactions=self.account_transactions[account], from_account=available, to_account=account)
            self._update_tax_withheld(account, available, tax_withheld[account])

    @law('C07', 'C08', 'C09')
    def _update_tax_withheld(self, account, available, old_tax_withheld):
        """the tax withheld on each withdrawal"""
        if account.tax_withheld != old_tax_withheld:
            new_tax_withheld = account.tax_withheld - old_tax_withheld
            transactions = transactions_from_timing(self.account_transactions[account], -new_tax_withheld)
            self.add_transactions(transactions=transactions, to_account=available)
            self.tax_withheld += new_tax_withheld

    @asis('F01', 'C07')
    def _update_tax_withheld(self, account, available, old_tax_withheld):
        if account.tax_withheld != old_tax_withheld:
            new_tax_withheld = account.tax_withheld - old_tax_withheld
            transactions = transactions_from_timing(self.account_transactions[account], new_tax_withheld)
            self.add_transactions(transactions=transactions, to_account=available)
            self.tax_withheld += new_tax_withheld

    @law('C06', 'C01', 'C08')
    def next_year(self):
        """withheld tax restarts from zero"""
        super().next_year()
        self.tax_withheld = self.precision_convert(0)

    @law('C08', 'C07')
    def undo_transactions(self):
        """also the tax withheld"""
        super().undo_transactions()
        self.tax_withheld = self.precision_convert(0)

    @law('C09')
    @recorded_property_cached
    def gross_withdrawals(self):
        """all withdrawals"""
        return -self.total_available

    @law('C09')
    @recorded_property
    def net_withdrawals(self):
        """gross less withheld"""
        return self.gross_withdrawals - self.tax_withheld

    @asis('F01', 'C09')
    @recorded_property
    def net_withdrawals(self):
        return self.gross_withdrawals + self.tax_withheld
