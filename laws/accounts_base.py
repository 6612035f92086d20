"""Laws of forecaster.accounts.base (specification text; parsed, never run)."""
# module: forecaster.accounts.base

from copy import copy
from collections import defaultdict
from forecaster.person import Person
from forecaster.ledger import TaxSource, recorded_property, recorded_property_cached
from forecaster.utility import Timing, when_conv, frequency_conv, add_transactions
from forecaster.accounts.util import accumulation_function, value_at_time, time_to_value

class Account:
    @law('C02', 'C15', 'C17', 'C19')
    def __init__(self, owner=None, balance=None, rate=None, nper=None, default_timing=None, inputs=None, initial_year=None, *, high_precision=None, **kwargs):
        """an account starts with its own transactions, the given balance, rate, frequency and limits, and joins its owner"""
        if initial_year is None:
            if not hasattr(owner, 'initial_year'):
                raise TypeError('Account: owner must have initial_year attribute.')
            else:
                initial_year = owner.initial_year
        super().__init__(initial_year=initial_year, inputs=inputs, high_precision=high_precision, **kwargs)
        if balance is None:
            balance = self.precision_convert(0)
        if rate is None:
            rate = self.precision_convert(0)
        if nper is None:
            nper = self.precision_convert(1)
        self._owner = None
        self._transactions = defaultdict(lambda: self.precision_convert(0))
        self._rate_callable = None
        self._default_timing = None
        self._nper = None
        self.owner = owner
        self.balance = balance
        self.rate_callable = rate
        self.nper = frequency_conv(nper)
        if default_timing is None:
            self.default_timing = Timing(high_precision=high_precision)
        else:
            self.default_timing = default_timing

    @law('C15')
    @property
    def owner(self):
        """the owner is the person whose accounts include this one"""
        return self._owner

    @law('C15', 'C16')
    @owner.setter
    def owner(self, val):
        """only people can own; leave the old owner's accounts, join the new one's"""
        if val is not None and (not isinstance(val, Person)):
            raise TypeError('Account: owner must be of type Person.')
        if self.owner is not None:
            self.owner.accounts.remove(self)
        if val is not None:
            val.accounts.add(self)
        self._owner = val

    @law('C27', 'C12')
    @property
    def default_timing(self):
        """the timing set for the account, else one that can be inferred from its default"""
        return self._default_timing

    @law('C27', 'C12')
    @default_timing.setter
    def default_timing(self, val):
        """anything a timing can be built from is a default timing"""
        if not isinstance(val, Timing):
            val = Timing(val, high_precision=self.high_precision)
        self._default_timing = val

    @law('C27', 'C12')
    @default_timing.deleter
    def default_timing(self):
        """deleting returns to the default"""
        self._default_timing = Timing(high_precision=self.high_precision)

    @law('C11', 'C01', 'C25')
    @recorded_property_cached
    def balance(self):
        """next year's opening balance is this year's opening balance and transactions grown to year end"""
        balance = value_at_time(self._balance_history[self.this_year - 1], self.rate, 'start', 'end', nper=self.nper, high_precision=self.high_precision)
        transactions_history = self._transactions_history
        for when, value in transactions_history[self.this_year - 1].items():
            balance += value_at_time(value, self.rate, when, 'end', nper=self.nper, high_precision=self.high_precision)
        return balance

    @law('C11', 'C29')
    @property
    def rate_callable(self):
        """the rate function in force"""
        return self._rate_callable

    @law('C11', 'C29')
    @rate_callable.setter
    def rate_callable(self, val):
        """a number is a constant rate, a function is used as it is"""
        if not callable(val):
            if isinstance(val, dict):

                def func(year):
                    return val[year]
            else:

                def func(_):
                    return val
            self._rate_callable = func
        else:
            self._rate_callable = val

    @law('C11', 'C29')
    @recorded_property_cached
    def rate(self):
        """this year's rate is the rate function's for this year"""
        return self.rate_callable(self.this_year)

    @law('C01', 'C03', 'C07')
    @recorded_property
    def transactions(self):
        """the record of the year's transactions"""
        return self._transactions

    @law('C11', 'C09')
    @recorded_property
    def returns(self):
        """returns are the year-end balance less what was put in"""
        one = self.precision_convert(1)
        returns = self.balance * (accumulation_function(one, self.rate, self.nper, high_precision=self.high_precision) - one)
        for when in self.transactions:
            returns += self.transactions[when] * (accumulation_function(one - when, self.rate, self.nper, high_precision=self.high_precision) - one)
        return self.precision_convert(returns)

    @law('C11')
    @property
    def nper(self):
        """compounding periods"""
        return self._nper

    @law('C11', 'C16')
    @nper.setter
    def nper(self, value):
        """frequencies are validated and converted"""
        value = frequency_conv(value)
        if value is not None:
            value = self.precision_convert(value)
        self._nper = value

    @law('C07', 'C16', 'C27')
    def add_transaction(self, value, when='end'):
        """a transaction adds its value at its time"""
        when = when_conv(when, high_precision=self.high_precision)
        self.transactions[when] += value

    @law('C12', 'C25')
    def inflows(self, transactions=None):
        """the positive transactions"""
        if transactions is not None:
            result = sum((val for val in transactions.values() if val > 0))
        else:
            result = self.precision_convert(0)
        result += sum((val for val in self.transactions.values() if val > 0))
        return result

    @law('C12', 'C25')
    def outflows(self, transactions=None):
        """the negative transactions"""
        if transactions is not None:
            result = sum((val for val in transactions.values() if val < 0))
        else:
            result = self.precision_convert(0)
        result += sum((val for val in self.transactions.values() if val < 0))
        return result

    @law('C01', 'C03', 'C06', 'C11')
    def next_year(self):
        """record first, then clear; the owner moves with the account"""
        if self.owner is not None:
            while self.owner.this_year < self.this_year:
                self.owner.next_year()
        super().next_year()
        self._transactions = defaultdict(lambda: 0)

    @law('C12')
    @property
    def max_outflow_limit(self):
        """no limit unless given"""
        return self.precision_convert(float('-inf'))

    @law('C12')
    @property
    def max_inflow_limit(self):
        """no limit unless given"""
        return self.precision_convert(float('inf'))

    @law('C12')
    @property
    def min_outflow_limit(self):
        """no minimum unless given"""
        return self.precision_convert(0)

    @law('C12')
    @property
    def min_inflow_limit(self):
        """no minimum unless given"""
        return self.precision_convert(0)

    @law('C12')
    def max_inflow(self, when='end'):
        """what is left of the annual limit, never negative"""
        return self.max_inflow_limit

    @law('C12')
    def min_inflow(self, when='end'):
        """what is left of the annual minimum, never negative"""
        return self.min_inflow_limit

    @law('C12')
    def max_outflow(self, when='end'):
        """what is left of the annual limit, never positive"""
        return max(min(-self.balance_at_time(when), self.precision_convert(0)), self.max_outflow_limit)

    @law('C12')
    def min_outflow(self, when='end'):
        """what is left of the annual minimum, never positive"""
        return self.min_outflow_limit

    @law('C12', 'C11')
    def transactions_to_balance(self, balance, timing=None, max_total=None, min_total=None, transactions=None):
        """the least uniform scaling of the timing that reaches the balance, limited by total and sign"""
        ref_balance = self.balance_at_time('end', transactions=transactions)
        change = balance - ref_balance
        if timing is None or not timing:
            timing = self.default_timing
        elif not isinstance(timing, Timing):
            timing = Timing(timing, high_precision=self.high_precision)
        total_weight = sum(timing.values())
        if total_weight == 0:
            timing = Timing({when: self.precision_convert(1) for when in timing.keys()}, high_precision=self.high_precision)
            total_weight = len(timing)
        normalized_timing = {when: weight / total_weight for when, weight in timing.items() if weight != 0}
        weighted_accum = self.precision_convert(0)
        for timing, weight in normalized_timing.items():
            weighted_accum += weight * accumulation_function(t=1 - timing, rate=self.rate, nper=self.nper, high_precision=self.high_precision)
        total = change / weighted_accum
        if max_total is not None:
            total = min(total, max_total)
        if min_total is not None:
            total = max(total, min_total)
        result_transactions = {timing: total * weight for timing, weight in normalized_timing.items()}
        return result_transactions

    @law('C12')
    def max_outflows(self, timing=None, transaction_limit=None, balance_limit=None, transactions=None, **kwargs):
        """outflows down to a zero balance, within limits"""
        if balance_limit is None:
            balance_limit = self.precision_convert(0)
        min_total = self.max_outflow_limit - self.outflows(transactions)
        if transaction_limit is not None:
            min_total = max(min_total, transaction_limit)
        min_total = min(min_total, self.precision_convert(0))
        max_total = self.precision_convert(0)
        return self.transactions_to_balance(balance_limit, timing=timing, max_total=max_total, min_total=min_total, transactions=transactions)

    @law('C12')
    def max_inflows(self, timing=None, transaction_limit=None, balance_limit=None, transactions=None, **kwargs):
        """inflows up to the limit"""
        if balance_limit is None:
            balance_limit = self.precision_convert(float('inf'))
        max_total = self.max_inflow_limit - self.inflows(transactions)
        if transaction_limit is not None:
            max_total = min(max_total, transaction_limit)
        max_total = max(max_total, self.precision_convert(0))
        min_total = self.precision_convert(0)
        return self.transactions_to_balance(balance_limit, timing=timing, max_total=max_total, min_total=min_total, transactions=transactions)

    @law('C12')
    def min_outflows(self, timing=None, transaction_limit=None, balance_limit=None, transactions=None, **kwargs):
        """outflows up to the minimum"""
        if balance_limit is None:
            balance_limit = self.precision_convert(0)
        min_total = self.min_outflow_limit - self.outflows(transactions)
        if transaction_limit is not None:
            min_total = max(min_total, transaction_limit)
        min_total = min(min_total, self.precision_convert(0))
        max_total = self.precision_convert(0)
        return self.transactions_to_balance(balance_limit, timing=timing, max_total=max_total, min_total=min_total, transactions=transactions)

    @law('C12')
    def min_inflows(self, timing=None, transaction_limit=None, balance_limit=None, transactions=None, **kwargs):
        """inflows up to the minimum"""
        if balance_limit is None:
            balance_limit = self.precision_convert(float('inf'))
        max_total = self.min_inflow_limit - self.inflows(transactions)
        if transaction_limit is not None:
            max_total = min(max_total, transaction_limit)
        max_total = max(max_total, self.precision_convert(0))
        min_total = self.precision_convert(0)
        return self.transactions_to_balance(balance_limit, timing=timing, max_total=max_total, min_total=min_total, transactions=transactions)

    @law('C09', 'C24')
    @recorded_property
    def taxable_income(self):
        """an ordinary account's income is its returns"""
        return max(self.returns, self.precision_convert(0))

    @law('C07')
    def __len__(self):
        """the account stands for its transactions"""
        return len(self._transactions)

    @law('C07')
    def __iter__(self):
        """the account stands for its transactions"""
        for transaction in sorted(self._transactions.keys()):
            yield transaction

    @law('C07')
    def __contains__(self, key):
        """the account stands for its transactions"""
        when = when_conv(key, high_precision=self.high_precision)
        return when in self._transactions

    @law('C07')
    def __getitem__(self, key):
        """the account stands for its transactions"""
        return self._transactions[key]

    @law('C07')
    def __setitem__(self, key, value):
        """assigning a time adds a transaction"""
        if key in self._transactions:
            del self._transactions[key]
        self.add_transaction(value=value, when=key)

    @law('C07')
    def __delitem__(self, key):
        """the account stands for its transactions"""
        del self._transactions[key]

    @law('C07')
    def keys(self):
        """the account stands for its transactions"""
        return self._transactions.keys()

    @law('C07')
    def values(self):
        """the account stands for its transactions"""
        return self._transactions.values()

    @law('C07')
    def items(self):
        """the account stands for its transactions"""
        return self._transactions.items()

    @law('C07')
    def get(self, key, default=None):
        """the account stands for its transactions"""
        return self._transactions.get(key, default)

    @law('C07')
    def clear(self):
        """the account stands for its transactions"""
        self._transactions.clear()

    @law('C11', 'C12')
    def balance_at_time(self, time, transactions=None):
        """the opening balance and every transaction up to the time, grown to it"""
        time = when_conv(time, high_precision=self.high_precision)
        balance = value_at_time(self.balance, self.rate, 'start', time, nper=self.nper, high_precision=self.high_precision)
        if transactions is not None:
            transactions = copy(transactions)
            add_transactions(transactions, self.transactions)
        else:
            transactions = self.transactions
        for when in [w for w in transactions if w <= time]:
            balance += value_at_time(transactions[when], self.rate, when, time, nper=self.nper, high_precision=self.high_precision)
        return balance

    @law('C11')
    def time_to_balance(self, value, when=0):
        """the first time at which the balance is reached"""
        when = when_conv(when, high_precision=self.high_precision)
        balance = self.balance_at_time(when)
        time = when + time_to_value(self.rate, balance, value, nper=self.nper, high_precision=self.high_precision)
        next_transaction = min((key for key in self.transactions if key > when), default=time)
        if next_transaction < time:
            time = self.time_to_balance(value, next_transaction)
        return time
