"""Laws of forecaster.strategy.transaction.util (specification text; parsed, never run)."""
# module: forecaster.strategy.transaction.util

from forecaster.accounts import LimitTuple

LINK_FIELD_NAMES: law('C28', 'C13') = LimitTuple('min_inflow_link', 'max_inflow_link', 'min_outflow_link', 'max_outflow_link')
TRANSACTION_LIMIT_FIELD_NAMES: law('C28') = LimitTuple('min_inflows', 'max_inflows', 'min_outflows', 'max_outflows')
TRANSACTION_DEFAULT_METHODS: law('C28') = transaction_default_methods()
GROUP_DEFAULT_METHODS: law('C28', 'C13') = group_default_methods()

@law('C28')
def transaction_default_methods(field_names=TRANSACTION_LIMIT_FIELD_NAMES):
    """which limits, groups and transactions of an account are used"""
    methods = []
    for field_name in field_names:
        methods.append(lambda account, name=field_name: getattr(account, name))
    return LimitTuple(*methods)

@law('C28')
def group_default_methods(field_names=LINK_FIELD_NAMES):
    """which limits, groups and transactions of an account are used"""
    methods = []
    for field_name in field_names:

        def default_method(account, name=field_name):
            if hasattr(account, name):
                link = getattr(account, name)
                if link is not None:
                    return link.group
            return None
        methods.append(default_method)
    return LimitTuple(*methods)

@law('C28')
def _convert_flows_to_transactions(flows, timing, limit, accounts, transaction_methods, total=None, precision=1, *, high_precision=None):
    """which limits, groups and transactions of an account are used"""
    if transaction_methods is None:
        transaction_methods = transaction_default_methods()
    is_outflows = total is not None and total < 0
    transactions = {}
    for account in accounts:
        if account in flows:
            total_flows = precision * sum(flows[account].values())
            if is_outflows:
                total_flows = -total_flows
            if high_precision is not None:
                total_flows = high_precision(total_flows)
            transactions[account] = _get_transactions(account, limit, timing, transaction_methods=transaction_methods, total=total_flows)
    return transactions

@law('C28')
def _get_accounts(node, accounts=None):
    """which limits, groups and transactions of an account are used"""
    if accounts is None:
        accounts = set()
    if node.is_leaf_node():
        accounts.add(node.source)
    else:
        for child in node.children:
            _get_accounts(child, accounts)
    return accounts

@law('C28')
def _get_transactions(account, limit, timing, transaction_methods=None, total=None):
    """which limits, groups and transactions of an account are used"""
    if transaction_methods is None:
        transaction_methods = transaction_default_methods()
    if limit is None:
        return {}
    selector_method = getattr(transaction_methods, limit)
    transaction_method = selector_method(account)
    return transaction_method(timing, transaction_limit=total)

@law('C28')
def _get_group(account, limit, group_methods=None):
    """which limits, groups and transactions of an account are used"""
    if group_methods is None:
        group_methods = group_default_methods()
    group_method = getattr(group_methods, limit)
    return group_method(account)
