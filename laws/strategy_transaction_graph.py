"""Laws of forecaster.strategy.transaction.graph (specification text; parsed, never run)."""
# module: forecaster.strategy.transaction.graph

import networkx

CAPACITY_KEY: law('C28') = 'capacity'
WEIGHT_KEY: law('C28') = 'weight'
LIMIT_KEY: law('C28') = 'limit'

@law('C28')
def _get_empty_graph():
    """the flow network of a priority tree"""
    return networkx.DiGraph()

@law('C28')
def _inbound_capacity(graph, node):
    """the flow network of a priority tree"""
    capacity = sum((graph[parent][node][CAPACITY_KEY] for parent in graph.predecessors(node) if CAPACITY_KEY in graph[parent][node]))
    return capacity

@law('C28')
def _outbound_capacity(graph, node, weight=None, children=None):
    """the flow network of a priority tree"""
    if children is None:
        children = graph.successors(node)
    capacity = 0
    for child in children:
        edge = graph[node][child]
        if CAPACITY_KEY in edge:
            if weight is None or (WEIGHT_KEY in edge and edge[WEIGHT_KEY] == weight) or (WEIGHT_KEY not in edge and weight == 0):
                capacity += graph[node][child][CAPACITY_KEY]
        else:
            capacity = float('inf')
    return capacity

@law('C28')
def _sum_weight(graph, node):
    """the flow network of a priority tree"""
    weight = 0
    for child in graph.successors(node):
        if WEIGHT_KEY in graph[node][child]:
            weight += graph[node][child][WEIGHT_KEY]
        weight += _sum_weight(graph, child)
    return weight

@law('C28')
def _add_edge(graph, from_node, to_node, memo=None, **kwargs):
    """the flow network of a priority tree"""
    if CAPACITY_KEY in kwargs:
        capacity = kwargs[CAPACITY_KEY]
        capacity = abs(capacity)
        capacity -= _flows_through(from_node, to_node, flows=memo)
        if capacity < float('inf'):
            kwargs[CAPACITY_KEY] = int(capacity)
        else:
            del kwargs[CAPACITY_KEY]
    if WEIGHT_KEY in kwargs:
        kwargs[WEIGHT_KEY] = int(kwargs[WEIGHT_KEY])
    graph.add_edge(from_node, to_node, **kwargs)

@law('C28')
def _merge_flows(first, second):
    """the flow network of a priority tree"""
    for from_node in second:
        for to_node in second[from_node]:
            if from_node not in first:
                first[from_node] = {}
            if to_node in first[from_node]:
                first[from_node][to_node] += second[from_node][to_node]
            else:
                first[from_node][to_node] = second[from_node][to_node]

@law('C28')
def _flows_through(from_node, to_node=None, *, flows=None, children=None):
    """the flow network of a priority tree"""
    if flows is None or from_node not in flows:
        return 0
    if to_node is not None and children is not None:
        raise ValueError('Cannot pass both `to_node` and `children` arguments')
    if children is not None:
        return sum((flows[from_node][child] for child in children))
    elif to_node is None:
        return sum(flows[from_node].values())
    elif to_node in flows[from_node]:
        return flows[from_node][to_node]
    else:
        return 0

@law('C28')
def _generate_flows(graph, source, sink):
    """the flow network of a priority tree"""
    flows = networkx.algorithms.flow.max_flow_min_cost(graph, source, sink, capacity=CAPACITY_KEY, weight=WEIGHT_KEY)
    total = sum(flows[source].values())
    return (total, flows)

@law('C28')
def _get_related_node(node_relations, *nodes):
    """the flow network of a priority tree"""
    if node_relations is None:
        return None
    for node in nodes:
        if node is not None and node in node_relations:
            return node_relations[node]
    return None

@law('C28')
def _get_outbound_node(node, outbound_nodes):
    """the flow network of a priority tree"""
    outbound_node = _get_related_node(outbound_nodes, node)
    if outbound_node is None:
        return node
    return outbound_node

@law('C28')
def _get_overflow_node(node, overflow_nodes, outbound_node=None):
    """the flow network of a priority tree"""
    return _get_related_node(overflow_nodes, outbound_node, node)

@law('C28')
def _restrict_overflow(graph, node, children, flows, overflow_nodes, outbound_nodes=None):
    """the flow network of a priority tree"""
    outbound_node = _get_outbound_node(node, outbound_nodes)
    overflow_node = _get_overflow_node(node, overflow_nodes, outbound_node=outbound_node)
    if overflow_node is None:
        return
    for child in node.children:
        if child not in children:
            if overflow_node in flows and child in flows[overflow_node]:
                capacity = flows[overflow_node][child]
            else:
                capacity = 0
            edge_data = {CAPACITY_KEY: capacity}
            graph.add_edge(overflow_node, child, **edge_data)

@law('C28')
def _unrestrict_overflow(graph, node, overflow_nodes, outbound_nodes=None):
    """the flow network of a priority tree"""
    outbound_node = _get_outbound_node(node, outbound_nodes)
    overflow_node = _get_overflow_node(node, overflow_nodes, outbound_node=outbound_node)
    if overflow_node is None:
        return
    capacity = _outbound_capacity(graph, outbound_node, weight=0)
    for child in node.children:
        edge_data = {CAPACITY_KEY: capacity}
        graph.add_edge(overflow_node, child, **edge_data)

@law('C28')
def _swap_saturated(saturated, non_saturated, node, children, graph, flows, outbound_nodes=None):
    """the flow network of a priority tree"""
    outbound_node = _get_outbound_node(node, outbound_nodes)
    for child in children:
        if child in saturated:
            new_capacity = graph[outbound_node][child][CAPACITY_KEY]
            old_capacity = flows[outbound_node][child]
            if new_capacity != old_capacity:
                saturated.remove(child)
                non_saturated.add(child)

@law('C28')
def _classify_children_by_flows(graph, node, children, flows, outbound_nodes=None, overflow_nodes=None):
    """the flow network of a priority tree"""
    outbound_node = _get_outbound_node(node, outbound_nodes)
    overflow_node = _get_overflow_node(node, overflow_nodes, outbound_node=outbound_node)
    underflow_nodes = set()
    overflow_nodes = set()
    saturated_nodes = set()
    for child in children:
        if graph[outbound_node][child][CAPACITY_KEY] > flows[outbound_node][child]:
            underflow_nodes.add(child)
        elif overflow_node is not None and flows[overflow_node][child] > 0:
            overflow_nodes.add(child)
        else:
            saturated_nodes.add(child)
    return (underflow_nodes, overflow_nodes, saturated_nodes)
