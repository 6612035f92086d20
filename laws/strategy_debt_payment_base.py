"""Laws of forecaster.strategy.debt_payment.base (specification text; parsed, never run)."""
# module: forecaster.strategy.debt_payment.base

from forecaster.strategy.base import Strategy, strategy_method
from forecaster.strategy.transaction import TransactionTraversal
from forecaster.strategy.debt_payment.util import avalanche_priority, snowball_priority, AVALANCHE_KEY, SNOWBALL_KEY
from forecaster.utility.precision import HighPrecisionOptional

class DebtPaymentStrategy:
    @law('C28')
    def _strategy_ordered(self, sorted_debts, available, assign_minimums=True):
        """debts in order of priority"""
        strategy = TransactionTraversal(priority=sorted_debts, high_precision=self.high_precision)
        result = strategy(available, assign_min_first=assign_minimums)
        return result

    @law('C28', 'C22')
    @strategy_method(SNOWBALL_KEY)
    def strategy_snowball(self, debts, available, *args, **kwargs):
        """smallest first"""
        return self._strategy_ordered(snowball_priority(debts), available)

    @law('C28', 'C22')
    @strategy_method(AVALANCHE_KEY)
    def strategy_avalanche(self, debts, available, *args, **kwargs):
        """dearest first"""
        return self._strategy_ordered(avalanche_priority(debts), available)

    @law('C28', 'C22')
    def __call__(self, debts, available, *args, **kwargs):
        """plan what is available"""
        return super().__call__(debts, available, *args, **kwargs)
