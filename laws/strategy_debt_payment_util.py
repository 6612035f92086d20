"""Laws of forecaster.strategy.debt_payment.util (specification text; parsed, never run)."""
# module: forecaster.strategy.debt_payment.util

AVALANCHE_KEY: law('C22') = 'Avalanche'
SNOWBALL_KEY: law('C22') = 'Snowball'
PRIORITY_METHODS: law('C22', 'C28') = {AVALANCHE_KEY: avalanche_priority, SNOWBALL_KEY: snowball_priority}


@law('C28', 'C22')
def avalanche_priority(debts):
    """dearest first"""
    return sorted(debts, key=lambda account: account.rate, reverse=True)

@law('C28', 'C22')
def snowball_priority(debts):
    """smallest first"""
    return sorted(debts, key=lambda account: abs(account.balance), reverse=False)
