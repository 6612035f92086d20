"""Laws of forecaster.strategy.transaction.base (specification text; parsed, never run)."""
# module: forecaster.strategy.transaction.base

from queue import SimpleQueue
from forecaster.utility import EPSILON, add_transactions, HighPrecisionOptional
from forecaster.accounts.util import LIMIT_TUPLE_FIELDS
from forecaster.strategy.transaction.util import LimitTuple, transaction_default_methods, group_default_methods, _get_accounts, _get_group, _get_transactions, _convert_flows_to_transactions
from forecaster.strategy.transaction.node import TransactionNode
from forecaster.strategy.transaction.graph import _get_empty_graph, _add_edge, _flows_through, _generate_flows, _inbound_capacity, _merge_flows, _outbound_capacity, _sum_weight, _get_outbound_node, _get_overflow_node, _classify_children_by_flows, _swap_saturated, _restrict_overflow, _unrestrict_overflow

class TransactionTraversal:
    @law('C28')
    def __init__(self, priority, transaction_methods=None, group_methods=None, *, high_precision=None, precision=EPSILON):
        """minimum flows first, then maximum flows, by priority"""
        super().__init__(high_precision=high_precision)
        self._priority = None
        self._priority_tree = None
        if transaction_methods is None:
            self.transaction_methods = transaction_default_methods()
        else:
            self.transaction_methods = LimitTuple(*transaction_methods)
        if group_methods is None:
            self.group_methods = group_default_methods()
        else:
            self.group_methods = LimitTuple(*group_methods)
        if precision == EPSILON and self.high_precision is not None:
            self.precision = high_precision(precision)
        else:
            self.precision = precision
        self.graph = None
        self.source = None
        self.sink = None
        self.memo = {}
        self.outbound_nodes = {}
        self.overflow_nodes = {}
        self.priority = priority

    @law('C28')
    @property
    def priority(self):
        """minimum flows first, then maximum flows, by priority"""
        return self._priority

    @law('C28')
    @priority.setter
    def priority(self, val):
        """minimum flows first, then maximum flows, by priority"""
        if val == self._priority:
            return
        self._priority_tree = TransactionNode(val)
        self._priority = val

    @law('C28')
    def __call__(self, available, total=None, assign_min=True, **kwargs):
        """minimum flows first, then maximum flows, by priority"""
        if total is None:
            total = sum(available.values())
        if total > self.precision:
            min_limit = LIMIT_TUPLE_FIELDS.min_inflow
            max_limit = LIMIT_TUPLE_FIELDS.max_inflow
            min_total = total
        elif total < -self.precision:
            min_limit = LIMIT_TUPLE_FIELDS.min_outflow
            max_limit = LIMIT_TUPLE_FIELDS.max_outflow
            min_total = float('-inf')
        else:
            return {}
        self.memo = {}
        self.outbound_nodes = {}
        self.overflow_nodes = {}
        min_transactions = self._traverse_priority(min_total, available, min_limit)
        max_transactions = self._traverse_priority(total, available, max_limit)
        for account, transactions in min_transactions.items():
            if account in max_transactions:
                add_transactions(max_transactions[account], transactions)
            else:
                max_transactions[account] = transactions
        return max_transactions

    @law('C28')
    def _traverse_priority(self, total, timing, limit):
        """minimum flows first, then maximum flows, by priority"""
        self._build_graph(total, timing=timing, limit=limit)
        _, flows = _generate_flows(self.graph, self.source, self.sink)
        if self.memo is not None:
            _merge_flows(self.memo, flows)
        accounts = _get_accounts(self._priority_tree)
        transactions = _convert_flows_to_transactions(flows, timing, limit, accounts, transaction_methods=self.transaction_methods, total=total, high_precision=self.high_precision, precision=self.precision)
        return transactions

    @law('C28')
    def _build_graph(self, total, **kwargs):
        """minimum flows first, then maximum flows, by priority"""
        if self.source is None:
            self.source = 0
        if self.sink is None:
            self.sink = 1
        if abs(total) < float('inf'):
            if not isinstance(total, (float, int)) and self.high_precision is None:
                total = float(total)
            total = int(total / self.precision)
        self.graph = _get_empty_graph()
        if self.source is not self._priority_tree:
            _add_edge(self.graph, self.source, self._priority_tree, capacity=total, memo=self.memo)
        self._add_successors(self._priority_tree, **kwargs)
        self._balance_weighted_flows(**kwargs)

    @law('C28')
    def _add_successors(self, node, capacity=None, children=None, limit=None, **kwargs):
        """minimum flows first, then maximum flows, by priority"""
        if not isinstance(node, TransactionNode):
            method = self._add_node_account
        else:
            if node.is_weighted():
                method = self._add_node_weighted
            elif node.is_ordered():
                method = self._add_node_ordered
            elif node.is_leaf_node():
                method = self._add_node_leaf
                if children is None:
                    children = node.source
            else:
                raise ValueError('Unrecognized node type for node ' + str(node))
            if children is None:
                children = node.children
        outbound_node, capacity = self._embed_limit(node, limit, capacity=capacity)
        if self.outbound_nodes is not None:
            self.outbound_nodes[node] = outbound_node
        method(outbound_node, children, capacity=capacity, limit=limit, **kwargs)

    @law('C28')
    def _embed_limit(self, node, limit, *, capacity=None):
        """minimum flows first, then maximum flows, by priority"""
        if capacity is None:
            capacity = _inbound_capacity(self.graph, node)
        if not isinstance(node, TransactionNode):
            return (node, capacity)
        if node in self.outbound_nodes:
            outbound_node = self.outbound_nodes[node]
        else:
            outbound_node = (node, 'limit')
        limit_value = None
        if hasattr(node, 'limits') and hasattr(node.limits, limit):
            limit_value = getattr(node.limits, limit)
            if hasattr(limit_value, 'amount'):
                limit_value = limit_value.amount
            if limit_value is not None:
                limit_value /= self.precision
                limit_value -= _flows_through(node, flows=self.memo)
                capacity = min(capacity, limit_value)
        if limit_value is not None:
            _add_edge(self.graph, node, outbound_node, capacity=limit_value)
        else:
            _add_edge(self.graph, node, outbound_node)
        return (outbound_node, capacity)

    @law('C28')
    def _add_node_weighted(self, node, children, *, capacity=None, add_overflow=True, **kwargs):
        """minimum flows first, then maximum flows, by priority"""
        if capacity is None:
            capacity = _inbound_capacity(self.graph, node)
        if add_overflow:
            if self.overflow_nodes is not None and node in self.overflow_nodes:
                overflow_node = self.overflow_nodes[node]
            else:
                overflow_node = (node, 'overflow')
                if self.overflow_nodes is not None:
                    self.overflow_nodes[node] = overflow_node
            _add_edge(self.graph, node, overflow_node, capacity=capacity)
            for child in children:
                _add_edge(self.graph, overflow_node, child, capacity=capacity)
        self._add_weighted_children(node, children, capacity, add_overflow=add_overflow, **kwargs)
        if add_overflow:
            weight = 1 + max((_sum_weight(self.graph, child) for child in children))
            _add_edge(self.graph, node, overflow_node, weight=weight)

    @law('C28')
    def _add_weighted_children(self, node, children, capacity, **kwargs):
        """minimum flows first, then maximum flows, by priority"""
        normalization = sum(children.values())
        outbound_node = _get_outbound_node(node, self.outbound_nodes)
        flows = _flows_through(outbound_node, flows=self.memo, children=children)
        capacity += flows
        totals = {}
        for child, weight in children.items():
            child_total = capacity * weight / normalization
            child_total -= _flows_through(outbound_node, child, flows=self.memo)
            totals[child] = child_total
        if any((total < 0 for total in totals.values())):
            recurse_children = {child: weight for child, weight in children.items() if totals[child] > 0}
            capacity -= flows
            capacity += sum((total for total in totals.values() if total < 0))
            self._add_weighted_children(node, recurse_children, capacity, **kwargs)
            totals = {child: 0 for child, total in totals.items() if total <= 0}
        for child, child_total in totals.items():
            _add_edge(self.graph, outbound_node, child, capacity=child_total)
            self._add_successors(child, **kwargs)

    @law('C28')
    def _balance_weighted_flows(self, **kwargs):
        """minimum flows first, then maximum flows, by priority"""
        weighted_nodes = SimpleQueue()
        traverse_nodes = SimpleQueue()
        traverse_nodes.put(self._priority_tree)
        while not traverse_nodes.empty():
            node = traverse_nodes.get()
            if node.is_weighted():
                weighted_nodes.put(node)
            for child in node.children:
                traverse_nodes.put(child)
        while not weighted_nodes.empty():
            node = weighted_nodes.get()
            self._balance_flows(node, **kwargs)

    @law('C28')
    def _balance_flows(self, node, children=None, rebalance_all=True, **kwargs):
        """minimum flows first, then maximum flows, by priority"""
        if children is None:
            children = node.children
        if not children:
            return
        _, flows = _generate_flows(self.graph, self.source, self.sink)
        underflow, overflow, saturated = _classify_children_by_flows(self.graph, node, children, flows, self.outbound_nodes, self.overflow_nodes)
        if not underflow and (not overflow):
            return
        elif bool(underflow) != bool(overflow):
            if rebalance_all:
                self._balance_flows_recurse(node, children=children, flows=flows, rebalance_all=False, **kwargs)
                return
            elif saturated:
                if not underflow:
                    saturated, underflow = (underflow, saturated)
                else:
                    saturated, overflow = (overflow, saturated)
            else:
                return
        underflow_expanded = underflow.union(saturated)
        self._balance_flows_recurse(node, children=underflow_expanded, flows=flows, **kwargs)
        _swap_saturated(saturated, underflow, node, children, self.graph, flows, outbound_nodes=self.outbound_nodes)
        overflow_expanded = overflow.union(saturated)
        self._balance_flows_recurse(node, children=overflow_expanded, flows=flows, **kwargs)

    @law('C28')
    def _balance_flows_recurse(self, node, children=None, flows=None, **kwargs):
        """minimum flows first, then maximum flows, by priority"""
        if children is None:
            children = node.children
        outbound_node = _get_outbound_node(node, self.outbound_nodes)
        overflow_node = _get_overflow_node(node, self.overflow_nodes, outbound_node=outbound_node)
        if flows is not None:
            capacity = sum((flows[outbound_node][child] for child in children))
            if overflow_node is not None:
                capacity += sum((flows[overflow_node][child] for child in children))
        else:
            capacity = _outbound_capacity(self.graph, outbound_node, weight=0, children=children)
        children_subset = node.children_subset(children)
        self._add_successors(node, capacity=capacity, children=children_subset, add_overflow=False, **kwargs)
        if len(children) > 1:
            _restrict_overflow(self.graph, node, children, flows, self.overflow_nodes, outbound_nodes=self.outbound_nodes)
            self._balance_flows(node, children=children, **kwargs)
            _unrestrict_overflow(self.graph, node, self.overflow_nodes)

    @law('C28')
    def _add_node_ordered(self, node, children, *, capacity=None, **kwargs):
        """minimum flows first, then maximum flows, by priority"""
        if capacity is None:
            capacity = _inbound_capacity(self.graph, node)
        weight = 0
        for child in children:
            _add_edge(self.graph, node, child, capacity=capacity, weight=weight)
            self._add_successors(child, **kwargs)
            weight = max(weight, _sum_weight(self.graph, child)) + 1

    @law('C28')
    def _add_node_leaf(self, node, child, *, capacity=None, **kwargs):
        """minimum flows first, then maximum flows, by priority"""
        if capacity is None:
            capacity = _inbound_capacity(self.graph, node)
        _add_edge(self.graph, node, child, capacity=capacity)
        self._add_successors(child, **kwargs)

    @law('C28')
    def _add_node_account(self, node, *args, timing=None, limit=None, **kwargs):
        """minimum flows first, then maximum flows, by priority"""
        transactions = _get_transactions(node, limit, timing, transaction_methods=self.transaction_methods)
        transaction_limit = sum(transactions.values())
        if self.high_precision is not None and isinstance(transaction_limit, float):
            transaction_limit = self.high_precision(transaction_limit)
        capacity = transaction_limit / self.precision
        group = _get_group(node, limit, group_methods=self.group_methods)
        if group is not None:
            group_node = frozenset(group)
            capacity -= _flows_through(group_node, flows=self.memo)
            _add_edge(self.graph, node, group_node, capacity=capacity, limit=capacity)
            node = group_node
        else:
            capacity -= _flows_through(node, flows=self.memo)
        if self.sink is not None:
            _add_edge(self.graph, node, self.sink, capacity=capacity, limit=capacity)
