"""Laws of forecaster.accounts.linked_limit (specification text; parsed, never run)."""
# module: forecaster.accounts.linked_limit

from copy import copy
from forecaster.accounts.base import Account
from forecaster.accounts.link import AccountLink
from forecaster.utility import add_transactions

class LinkedLimitAccount:
    @law('C13', 'C02', 'C15')
    def __init__(self, *args, max_inflow_link=None, max_inflow_limit=None, min_inflow_link=None, min_inflow_limit=None, max_outflow_link=None, max_outflow_limit=None, min_outflow_link=None, min_outflow_limit=None, **kwargs):
        """each kind of limit has its own link"""
        super().__init__(*args, **kwargs)
        self.max_inflow_link = self._process_link(max_inflow_link, limit=max_inflow_limit)
        self.min_inflow_link = self._process_link(min_inflow_link, limit=min_inflow_limit)
        self.max_outflow_link = self._process_link(max_outflow_link, limit=max_outflow_limit)
        self.min_outflow_link = self._process_link(min_outflow_link, limit=min_outflow_limit)

    @law('C13', 'C25')
    @property
    def max_inflow_limit(self):
        """the shared inflow limit"""
        return self._get_limit(self.max_inflow_link, super().max_inflow_limit)

    @law('C13', 'C25')
    @max_inflow_limit.setter
    def max_inflow_limit(self, value):
        """write the shared inflow limit"""
        self._set_limit(self.max_inflow_link, value)

    @law('C13')
    @property
    def min_inflow_limit(self):
        """the shared minimum inflow"""
        return self._get_limit(self.min_inflow_link, super().min_inflow_limit)

    @law('C13')
    @min_inflow_limit.setter
    def min_inflow_limit(self, value):
        """write the shared minimum inflow"""
        self._set_limit(self.min_inflow_link, value)

    @law('C13')
    @property
    def max_outflow_limit(self):
        """the shared outflow limit"""
        return self._get_limit(self.max_outflow_link, super().max_outflow_limit)

    @law('C13')
    @max_outflow_limit.setter
    def max_outflow_limit(self, value):
        """write the shared outflow limit"""
        self._set_limit(self.max_outflow_link, value)

    @law('C13')
    @property
    def min_outflow_limit(self):
        """the shared minimum outflow"""
        return self._get_limit(self.min_outflow_link, super().min_outflow_limit)

    @law('C13')
    @min_outflow_limit.setter
    def min_outflow_limit(self, value):
        """write the shared minimum outflow"""
        self._set_limit(self.min_outflow_link, value)

    @law('C13')
    def _get_limit(self, link, default=None):
        """unlinked or unset means the given default"""
        if link is not None:
            return link.data
        else:
            return default

    @law('C13')
    def _set_limit(self, link, value):
        """a limit needs a link"""
        if link is not None:
            link.data = value
        else:
            raise AttributeError('Cannot set limit if link is None')

    @law('C13', 'C15', 'C16')
    def _process_link(self, link, limit=None, default_factory=lambda: None):
        """a link may be given as its parts"""
        if link is None:
            return None
        if not isinstance(link, AccountLink):
            link = AccountLink(link, default_factory=default_factory)
        link.link_account(self)
        if limit is not None:
            link.data = limit
        return link

    @law('C13', 'C12')
    def _merge_transactions(self, transactions, group_transactions, link):
        """others' transactions, actual and hypothetical, count; own ones once"""
        if group_transactions is None:
            group_transactions = set()
        if transactions is not None:
            transactions = copy(transactions)
        elif self in group_transactions:
            transactions = copy(group_transactions[self])
        else:
            transactions = {}
        if link is None:
            return transactions
        group = link.group - {self}
        for account in group:
            add_transactions(transactions, account.transactions)
            if account in group_transactions:
                add_transactions(transactions, group_transactions[account])
        return transactions

    @law('C13', 'C12')
    def max_inflows(self, *args, transactions=None, group_transactions=None, **kwargs):
        """merge with the inflow group"""
        transactions = self._merge_transactions(transactions, group_transactions, self.max_inflow_link)
        return super().max_inflows(*args, transactions=transactions, **kwargs)

    @law('C13', 'C12')
    def max_outflows(self, *args, transactions=None, group_transactions=None, **kwargs):
        """merge with the outflow group"""
        transactions = self._merge_transactions(transactions, group_transactions, self.max_outflow_link)
        return super().max_outflows(*args, transactions=transactions, **kwargs)

    @law('C13', 'C12')
    def min_inflows(self, *args, transactions=None, group_transactions=None, **kwargs):
        """merge with the minimum inflow group"""
        transactions = self._merge_transactions(transactions, group_transactions, self.min_inflow_link)
        return super().min_inflows(*args, transactions=transactions, **kwargs)

    @law('C13', 'C12')
    def min_outflows(self, *args, transactions=None, group_transactions=None, **kwargs):
        """merge with the minimum outflow group"""
        transactions = self._merge_transactions(transactions, group_transactions, self.min_outflow_link)
        return super().min_outflows(*args, transactions=transactions, **kwargs)
