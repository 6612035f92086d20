"""Laws of forecaster.accounts.debt (specification text; parsed, never run)."""
# module: forecaster.accounts.debt

from forecaster.accounts.base import Account

class Debt:
    @law('C12', 'C02')
    def __init__(self, owner, balance=None, rate=None, nper=None, inputs=None, initial_year=None, minimum_payment=0, accelerated_payment=float('inf'), default_timing=None, **kwargs):
        """a debt is an account with payments; its balance is negative"""
        self._minimum_payment = None
        self._accelerated_payment = None
        super().__init__(owner, balance=balance, rate=rate, nper=nper, inputs=inputs, initial_year=initial_year, default_timing=default_timing, **kwargs)
        self.minimum_payment = minimum_payment
        self.accelerated_payment = accelerated_payment
        if self.balance > 0:
            self.balance = -self.balance

    @law('C12')
    @property
    def minimum_payment(self):
        """the minimum payment"""
        return self._minimum_payment

    @law('C12', 'C17')
    @minimum_payment.setter
    def minimum_payment(self, val):
        """the minimum payment is converted and kept"""
        self._minimum_payment = val

    @law('C12')
    @property
    def accelerated_payment(self):
        """the extra payment"""
        return self._accelerated_payment

    @law('C12', 'C17')
    @accelerated_payment.setter
    def accelerated_payment(self, val):
        """the extra payment is converted and kept"""
        self._accelerated_payment = val

    @law('C12', 'C28')
    @property
    def min_inflow_limit(self):
        """at least the minimum payment"""
        return self.minimum_payment

    @law('C12', 'C28')
    @property
    def max_inflow_limit(self):
        """at most the minimum and the extra payment"""
        return self.minimum_payment + self.accelerated_payment

    @law('C12')
    @property
    def max_outflow_limit(self):
        """a debt gives nothing out"""
        return self.precision_convert(0)

    @law('C12', 'C28')
    def max_inflow(self, when='end'):
        """never more than is owed"""
        return min(max(-self.balance_at_time(when), self.precision_convert(0)), self.max_inflow_limit)

    @law('C12', 'C28')
    def max_inflows(self, timing=None, transaction_limit=None, balance_limit=None, transactions=None, **kwargs):
        """never more than what clears the debt"""
        if balance_limit is None:
            balance_limit = self.precision_convert(0)
        return super().max_inflows(timing=timing, transaction_limit=transaction_limit, balance_limit=balance_limit, transactions=transactions, **kwargs)

    @law('C12', 'C28')
    def min_inflows(self, timing=None, transaction_limit=None, balance_limit=None, transactions=None, **kwargs):
        """the minimum payments, never more than what clears the debt"""
        if balance_limit is None:
            balance_limit = self.precision_convert(0)
        return super().min_inflows(timing=timing, transaction_limit=transaction_limit, balance_limit=balance_limit, transactions=transactions, **kwargs)
