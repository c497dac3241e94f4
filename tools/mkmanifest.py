#!/usr/bin/env python3
"""Generates MANIFEST.json: a property is claimed when its workload module exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('reference-model monitor over generated operation histories', 'Every operation of each history is stepped against a multiset model, with full comparisons of contents; covers the executed histories only. Trusts Eq of the harness keys.'),
 'C02': ('reference-model monitor: ordered snapshot before each operation', 'Each lookup, unique insertion and removal is compared with the first equal key in the iteration order observed just before; executed histories only.'),
 'C03': ('differential monitor: filtered iteration against a linear scan', 'All provided filters over all supported space/bounds/key combinations plus random sound filters; executed trees and queries only.'),
 'C04': ('online trace checker over id-carrying bounds', 'The traces of test calls are checked against the rejected sets of ids; assumes nothing about how traversal proceeds.'),
 'C05': ('differential monitor: ranked iteration against a sorted scan', 'Provided and custom rankings that meet the contract; executed trees and rankings only.'),
 'C06': ('online trace checker: ranks and lower bounds asked for between yields', 'Enclosing nodes are reconstructed from id-carrying bounds that the traversal itself presents.'),
 'C07': ('differential monitor: join against the filtered cross product', 'Random sound join filters over random relations and geometric ones; executed pairs of trees only.'),
 'C08': ('differential monitor under randomly scheduled inner iterators', 'Interleavings of outer and inner iterators are random; answers compared with a scan per left entry.'),
 'C09': ('invariant monitor over the node structure reconstructed from traces', 'Structure is rebuilt from what filters are shown; needs no hook. Executed histories only.'),
 'C10': ('invariant monitor over presented node bounds', 'Every node bounds presented after each step is compared with the union of the keys below, found by pruning it.'),
 'C11': ('clone ledger, and two models stepped apart after cloning', 'Executed histories only.'),
 'C12': ('object-lifetime ledger and checking global allocator', 'Every birth, drop and (de)allocation of a history is recorded and balanced; executed histories only.'),
 'C13': ('sanitizers: AddressSanitizer, Miri (Stacked Borrows and Tree Borrows)', 'No undefined behaviour in the executions run; Miri workloads are small, AddressSanitizer ones large.'),
 'C14': ('fault injection at each user callback, with lifetime ledger', 'For every operation of a history a panic is injected at enumerated callback indices; then the tree is read, used and dropped under the ledger.'),
 'C15': ('compile-time auto-trait probes; concurrent readers under ThreadSanitizer and Miri', 'Interleavings are those the scheduler and Miri produced.'),
 'C16': ('oracle in exact integers, exhaustive on small grids', 'Exhaustive for small coordinate grids; random for extreme ones.'),
 'C17': ('oracle in exact rational arithmetic', 'Random and exhaustive small geometry; touching cases are compared only where floating point is exact.'),
 'C18': ('implication monitor over filters and rankings', 'Executed combinations of spaces, keys and enclosing bounds only.'),
 'C19': ('address and content monitor of mutable traversals', 'Executed trees only; aliasing is judged by address.'),
 'C20': ('reference-model monitor on empty and emptied trees', 'All queries, each with all provided query objects, on new and emptied trees of executed histories.'),
 'C21': ('online trace checker: comparisons of keys and bounds during keyed operations', 'Every key comparison and containment question of a lookup is logged and judged against the boxes of the nodes; executed histories only.'),
 'C22': ('invariant monitor: node structure before and after each insertion', 'All least-enlargement descents are followed in exact integers, and the leaf that got the entry must be at the end of one; coordinates up to 2^20.'),
 'C23': ('online trace checker of laziness; peak memory measured at the allocator', 'Order of filter calls and yields of executed traversals; memory bounds on trees of 1500 to 3000 entries.'),
 'C24': ('differential monitor: tokens in the formatted tree against traversals', 'Executed histories only.'),
 'C25': ('oracle in exact integers', 'Random and extreme coordinates.'),
}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{V}/harness/src/{i.lower()}.rs'):
        checks.append(dict(property=i, quick_cmd=f'python3 check.py {i} --tier quick', thorough_cmd=f'python3 check.py {i} --tier thorough',
                           technique='runtime monitoring: ' + T[i][0],
                           level='fault_enumeration' if i == 'C14' else 'exploration', level_note=T[i][1]))
    else:
        na.append(dict(property=i, reason='Not claimed yet: its workload is not written.'))
m = dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na,
         notes='No hooks in /repo are needed: the harness uses only the public API.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
