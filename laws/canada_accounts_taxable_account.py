"""Laws of forecaster.canada.accounts.taxable_account (specification text; parsed, never run)."""
# module: forecaster.canada.accounts.taxable_account

from forecaster.accounts import Account
from forecaster.ledger import recorded_property, recorded_property_cached

class TaxableAccount:
    @law('C31', 'C02')
    def __init__(self, owner, balance=None, rate=None, nper=None, inputs=None, initial_year=None, default_timing=None, acb=None, **kwargs):
        """the cost base starts at the balance unless given"""
        super().__init__(owner=owner, balance=balance, rate=rate, nper=nper, inputs=inputs, initial_year=initial_year, default_timing=default_timing, **kwargs)
        self.acb = acb if acb is not None else self.balance

    @law('C31', 'C01')
    @recorded_property_cached
    def acb(self):
        """opening cost base is last year's closing one"""
        return self._acb_history[self.this_year]

    @law('C31')
    @recorded_property_cached
    def capital_gain(self):
        """in time order, contributions add to the cost base, withdrawals realise gains in proportion"""
        acb = self.acb
        capital_gain = self.precision_convert(0)
        transactions = self.transactions
        for when in sorted(transactions.keys()):
            value = transactions[when]
            if value >= 0:
                acb += value
            else:
                balance = self.balance_at_time(when) - value
                capital_gain += -value * (self.precision_convert(1) - acb / balance)
                acb *= self.precision_convert(1) - -value / balance
        if self.this_year + 1 not in self.inputs.get('acb', ()):
            self._acb_history[self.this_year + 1] = acb
        return capital_gain

    @law('C04', 'C31', 'C07')
    def add_transaction(self, value, when='end'):
        """a booking invalidates the gain"""
        super().add_transaction(value, when)
        self._invalidate_capital_gain()

    @law('C04', 'C31')
    def __delitem__(self, key):
        """removing a booking invalidates the gain"""
        super().__delitem__(key)
        self._invalidate_capital_gain()

    @law('C04', 'C31')
    def clear(self):
        """removing bookings invalidates the gain"""
        super().clear()
        self._invalidate_capital_gain()

    @law('C04', 'C02', 'C03', 'C31')
    def _invalidate_capital_gain(self):
        """forget computed figures of the current year, keep the user's"""
        if self.this_year not in self.inputs.get('capital_gain', ()):
            self._capital_gain_history.pop(self.this_year, None)
        if self.this_year + 1 not in self.inputs.get('acb', ()):
            self._acb_history.pop(self.this_year + 1, None)

    @law('C31', 'C09')
    @recorded_property
    def taxable_income(self):
        """half of the gain is income"""
        return self.capital_gain / 2
