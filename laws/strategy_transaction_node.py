"""Laws of forecaster.strategy.transaction.node (specification text; parsed, never run)."""
# module: forecaster.strategy.transaction.node

from collections import abc
from forecaster.accounts import LimitTuple

ORDERED_NODE_TYPES: law('C28') = (list, tuple)
WEIGHTED_NODE_TYPES: law('C28') = (dict,)
PARENT_NODE_TYPES: law('C28') = ORDERED_NODE_TYPES + WEIGHTED_NODE_TYPES

@law('C28')
def _children_from_source(node):
    """the priority tree"""
    if node.is_ordered():
        return _children_from_source_ordered(node)
    elif node.is_weighted():
        return _children_from_source_weighted(node)
    elif node.is_leaf_node():
        return tuple()
    else:
        raise TypeError(str(type(node.source)) + ' is not a supported type.')

@law('C28')
def _children_from_source_ordered(node):
    """the priority tree"""
    children = []
    for child in node.source:
        if not isinstance(child, TransactionNode):
            child = TransactionNode(child)
        children.append(child)
    return tuple(children)

@law('C28')
def _children_from_source_weighted(node):
    """the priority tree"""
    children = {}
    for child, weight in node.source.items():
        if not isinstance(child, TransactionNode):
            child = TransactionNode(child)
        children[child] = weight
    return children

class TransactionNode:
    @law('C28')
    def __init__(self, source, limits=None):
        """the priority tree"""
        if isinstance(source, type(self)):
            self.source = source.source
            self.limits = source.limits
            self.children = source.children
            return
        self.source = source
        if limits is not None:
            if not isinstance(limits, LimitTuple):
                limits = LimitTuple(*limits)
            self.limits = limits
        else:
            self.limits = LimitTuple()
        self.children = _children_from_source(self)

    @law('C28')
    def is_leaf_node(self):
        """the priority tree"""
        return not self.is_parent_node()

    @law('C28')
    def is_parent_node(self):
        """the priority tree"""
        return isinstance(self.source, PARENT_NODE_TYPES)

    @law('C28')
    def is_ordered(self):
        """the priority tree"""
        return isinstance(self.source, PARENT_NODE_TYPES) and isinstance(self.source, abc.Sequence)

    @law('C28')
    def is_weighted(self):
        """the priority tree"""
        return isinstance(self.source, PARENT_NODE_TYPES) and isinstance(self.source, abc.Mapping)

    @law('C28')
    def children_subset(self, subset):
        """the priority tree"""
        if isinstance(self.children, dict):
            return {child: self.children[child] for child in subset}
        if isinstance(self.children, (list, tuple)):
            if any((child not in self.children for child in subset)):
                raise KeyError('subset contains element not in children.')
            return type(self.children)((child for child in self.children if child in subset))
        raise NotImplementedError(str(type(self.children)) + ' is not a supported type for the children attribute.')
