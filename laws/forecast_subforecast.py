"""Laws of forecaster.forecast.subforecast (specification text; parsed, never run)."""
# module: forecaster.forecast.subforecast

from collections import defaultdict
from collections.abc import Hashable
from forecaster.ledger import Ledger, recorded_property
from forecaster.accounts import Account
from forecaster.utility import Timing

class TransactionDict:
    @law('C07', 'C08')
    def __init__(self, *args, **kwargs):
        """the record by account identity"""
        super().__init__(*args, **kwargs)
        self._unhashablekeys = {}

    @law('C07', 'C08')
    def __getitem__(self, key):
        """the record by account identity"""
        if not isinstance(key, Hashable):
            if id(key) not in self._unhashablekeys:
                self._unhashablekeys[id(key)] = key
            return super().__getitem__(id(key))
        else:
            return super().__getitem__(key)

    @law('C07', 'C08')
    def __setitem__(self, key, value):
        """the record by account identity"""
        if not isinstance(key, Hashable):
            if id(key) not in self._unhashablekeys:
                self._unhashablekeys[id(key)] = key
            super().__setitem__(id(key), value)
        else:
            super().__setitem__(key, value)

    @law('C07', 'C08')
    def __iter__(self):
        """the record by account identity"""
        for key in super().__iter__():
            if key in self._unhashablekeys:
                yield self._unhashablekeys[key]
            else:
                yield key

    @law('C07', 'C08')
    def keys(self):
        """the record by account identity"""
        return sorted(self.__iter__())

class SubForecast:
    @law('C08', 'C07', 'C19')
    def __init__(self, initial_year, default_timing=None, *, high_precision=None):
        """nothing recorded, not yet run"""
        super().__init__(initial_year, high_precision=high_precision)
        if default_timing is None:
            self.default_timing = Timing(high_precision=high_precision)
        else:
            self.default_timing = default_timing
        self._transactions = TransactionDict(lambda: defaultdict(lambda: 0))
        self._call_invoked = False
        self.total_available = 0

    @law('C01', 'C03', 'C08')
    @recorded_property
    def transactions(self):
        """the record of the year"""
        return self._transactions

    @law('C01', 'C03', 'C06', 'C08')
    def next_year(self):
        """record first; a new record, not yet run"""
        super().next_year()
        self._transactions = TransactionDict(lambda: defaultdict(lambda: 0))
        self._call_invoked = False

    @law('C08', 'C05')
    def __call__(self, available):
        """a second run undoes the first"""
        if self._call_invoked:
            self.undo_transactions()
        self._call_invoked = True
        if isinstance(available, Account):
            self.total_available = available.max_outflow(1)
        else:
            self.total_available = sum(available.values())

    @law('C08', 'C04', 'C07')
    def undo_transactions(self):
        """subtract exactly what was recorded, forget it and what derives from it"""
        for account in self.transactions:
            if account is not None:
                for when, value in self.transactions[account].items():
                    account[when] -= value
        self.transactions.clear()
        self._call_invoked = False
        self.clear_cache()

    @law('C07', 'C27')
    def add_transactions(self, transactions, from_account=None, to_account=None, strict_timing=False):
        """each recorded transaction is booked at both ends"""
        for when, value in transactions.items():
            self.add_transaction(value=value, timing=when, from_account=from_account, to_account=to_account, strict_timing=strict_timing)

    @law('C07', 'C27')
    def add_transaction(self, value, timing=None, from_account=None, to_account=None, strict_timing=False):
        """split by weight, sources debited and destinations credited"""
        if timing is None:
            timing = self.default_timing
        elif not isinstance(timing, Timing):
            timing = Timing(timing, high_precision=self.high_precision)
        if value < 0:
            from_account, to_account = (to_account, from_account)
            value = -value
        total_weight = sum(timing.values())
        for when, weight in timing.items():
            weighted_value = value * (weight / total_weight)
            self._add_transaction(value=weighted_value, when=when, from_account=from_account, to_account=to_account, strict_timing=strict_timing)

    @law('C07')
    def _add_transaction(self, value, when, from_account, to_account, strict_timing):
        """both ends, same amount, same time, both recorded"""
        if from_account is not None and (not strict_timing):
            when = self._shift_when(value=value, when=when, account=from_account)
        "\n        # Keep track of any tax withholdings already assigned to the\n        # account:\n        if hasattr(from_account, 'tax_withheld'):\n            tax_withheld_before = from_account.tax_withheld\n        "
        if from_account is not None:
            if when in from_account:
                from_account[when] += -value
            else:
                from_account[when] = -value
        self.transactions[from_account][when] += -value
        "\n        # If tax withholdings have increased as a result of this\n        # transaction, reduce the amount that goes to `from_account`\n        # accordingly:\n        if hasattr(from_account, 'tax_withheld'):\n            value -= from_account.tax_withheld - tax_withheld_before\n        "
        if to_account is not None:
            if when in to_account:
                to_account[when] += value
            else:
                to_account[when] = value
        self.transactions[to_account][when] += value

    @law('C07', 'C16')
    def _shift_when(self, value, when, account):
        """only ever later, to the first time from which it is affordable"""
        if isinstance(account, Account):
            accum = self._accum_account(account=account, when=when, target_value=value)
        else:
            keys = account.keys() | {when}
            accum = {t: sum((account[r] for r in account if r <= t)) for t in keys if t >= when}
        eligible_times = (t for t in accum if all((accum[r] >= value for r in accum if r >= t)))
        min_time = min(eligible_times, default=when)
        return min_time

    @law('C07', 'C08')
    @staticmethod
    def _accum_account(account, when, target_value=None):
        """the running balance of a table of transactions"""
        keys = account.keys() | {when}
        accum = {t: -account.max_outflow(t) for t in keys if t >= when}
        if target_value is not None:
            times = sorted(accum.keys())
            for i in range(1, len(times)):
                earlier = times[i - 1]
                later = times[i]
                if accum[later] > target_value and accum[earlier] < target_value or (accum[later] < target_value and accum[earlier] > target_value):
                    time = account.time_to_balance(value=target_value, when=earlier)
                    if time > earlier and time < later:
                        accum[time] = -sum(account.max_outflows(time).values())
        return accum
