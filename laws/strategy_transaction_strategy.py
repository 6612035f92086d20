"""Laws of forecaster.strategy.transaction.strategy (specification text; parsed, never run)."""
# module: forecaster.strategy.transaction.strategy

from collections import defaultdict
from forecaster.accounts.debt import Debt
from forecaster.strategy.base import Strategy, strategy_method
from forecaster.strategy.debt_payment.util import PRIORITY_METHODS, AVALANCHE_KEY
from forecaster.strategy.transaction.base import TransactionTraversal
from forecaster.strategy.transaction.node import TransactionNode
from forecaster.utility.precision import HighPrecisionOptionalPropertyCached

class TransactionStrategy:
    high_interest_threshold: law('C17', 'C28') = HighPrecisionOptionalPropertyCached()

    @law('C28', 'C22', 'C17')
    def __init__(self, strategy, weights, debt_strategy=None, high_interest_threshold=None, *, high_precision=None):
        """weights and parameters"""
        super().__init__(strategy, high_precision=high_precision)
        self.weights = weights
        if debt_strategy is None:
            debt_strategy = AVALANCHE_KEY
        self.debt_strategy = debt_strategy
        self.high_interest_threshold = high_interest_threshold

    @law('C28', 'C22')
    @strategy_method('Ordered')
    def strategy_ordered(self, groups, *args, subtrees=None, **kwargs):
        """ranks by weight value"""
        priority = []
        for group in sorted(groups, key=groups.get):
            subtree = self._get_subtree(group, subtrees)
            priority.append(subtree)
        return priority

    @law('C28', 'C22')
    @strategy_method('Weighted')
    def strategy_weighted(self, groups, *args, subtrees=None, **kwargs):
        """groups by weight"""
        priority = {}
        for group, weight in groups.items():
            subtree = TransactionNode(self._get_subtree(group, subtrees))
            priority[subtree] = weight
        return priority

    @law('C28')
    @staticmethod
    def _get_subtree(group, subtrees):
        """which accounts come in which group and order"""
        if subtrees is not None and group in subtrees:
            return subtrees[group]
        elif len(group) == 1:
            return next(iter(group))
        else:
            return {account: 1 for account in group}

    @law('C28')
    def _weight_account_groups(self, accounts):
        """which accounts come in which group and order"""
        account_keys = defaultdict(set)
        for account in accounts:
            key = self._get_weight_key(account)
            if key in self.weights:
                account_keys[key].add(account)
        groups = {frozenset(group): self.weights[key] for key, group in account_keys.items()}
        return groups

    @law('C28')
    def _get_weight_key(self, account):
        """which accounts come in which group and order"""
        key = type(account).__name__
        if key in self.weights:
            return key
        for super_type in type(account).__mro__:
            key = super_type.__name__
            if key in self.weights:
                return key
        return None

    @law('C28')
    def divide_debts(self, accounts):
        """which accounts come in which group and order"""
        debts = {account for account in accounts if isinstance(account, Debt) and account.balance < 0}
        if self.high_interest_threshold is not None:
            low_interest_debts = frozenset((debt for debt in debts if debt.rate < self.high_interest_threshold))
            high_interest_debts = frozenset((debt for debt in debts if debt not in low_interest_debts))
        else:
            low_interest_debts = frozenset(debts)
            high_interest_debts = frozenset()
        return (low_interest_debts, high_interest_debts)

    @law('C28')
    def debt_priority(self, debts):
        """which accounts come in which group and order"""
        if debts is not None and debts:
            priority_method = PRIORITY_METHODS[self.debt_strategy]
            priority = priority_method(debts)
        else:
            priority = None
        return priority

    @law('C28', 'C22')
    def __call__(self, available, accounts, *args, **kwargs):
        """the plan for what is available"""
        low_interest_debts, high_interest_debts = self.divide_debts(accounts)
        low_interest_priority = self.debt_priority(low_interest_debts)
        high_interest_priority = self.debt_priority(high_interest_debts)
        groups = self._weight_account_groups(set(accounts) - high_interest_debts)
        subtrees = {low_interest_debts: low_interest_priority}
        priority = super().__call__(groups, *args, subtrees=subtrees, **kwargs)
        if high_interest_priority is not None and high_interest_priority:
            priority = [high_interest_priority, priority]
        traverse = TransactionTraversal(priority=priority, high_precision=self.high_precision)
        return traverse(available)
