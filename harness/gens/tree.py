from hypothesis import strategies as st
from driver import Test

idx = st.integers(0, 30)
name = st.sampled_from(['', 'Reset', 'Integrator', 'a', 'b', 'A', 'Adjusting',
                        'Orientation', 'x y', 'Node'])
op = st.one_of(
    st.tuples(st.just('new'), name),
    st.tuples(st.just('add'), idx, idx),
    st.tuples(st.just('shift'), idx, idx),
    st.tuples(st.just('shiftn'), idx, st.lists(idx, max_size=4),
              st.sampled_from(['tuple', 'list'])),
    st.tuples(st.just('before'), idx, name),
    st.tuples(st.just('after'), idx, name),
    st.tuples(st.just('before'), idx, name),
    st.tuples(st.just('after'), idx, name),
    st.tuples(st.just('before'), idx, idx),
    st.tuples(st.just('after'), idx, idx),
    st.tuples(st.just('get'), idx, st.one_of(name, st.just('nowhere'))),
    st.tuples(st.just('run'), idx)).map(list)

edits = st.fixed_dictionaries({
    'names': st.lists(name, min_size=1, max_size=8),
    'unique': st.booleans(),
    'ops': st.lists(op, max_size=25)})

runs = st.fixed_dictionaries({
    'k': st.one_of(st.integers(0, 12), st.integers(0, 300)),
    'kind': st.sampled_from(['iterations', 'schedule', 'object', 'partial',
                             'switch', 'none', 'time', 'base']),
    'nodes': st.integers(1, 5), 'at': st.integers(0, 4), 'again': st.integers(0, 4)})

process = st.fixed_dictionaries({
    'k': st.one_of(st.integers(0, 6), st.integers(0, 80)),
    'end': st.sampled_from(['stop', 'stop', 'error', 'both']),
    'error': st.sampled_from(['CrowdDynamicsException', 'InvalidType',
                              'OverlappingError', 'AgentStructureFull',
                              'ValidationError', 'InvalidValue',
                              'NotACrowdDynamicsSimulation']),
    'where': st.integers(0, 4), 'at': st.integers(0, 4), 'nodes': st.integers(1, 5),
    'own_exit': st.booleans(), 'stops': st.integers(1, 3)})

forked = st.fixed_dictionaries({
    'k': st.integers(0, 20), 'end': st.sampled_from(['stop', 'error']),
    'parent': st.booleans(), 'nodes': st.integers(1, 3)})

PROPS = {
    'C05': [Test('tree_edits', edits, quick=2000, thorough=60000,
                 rule='histories of edits, look-ups and updates on a forest '
                      'of logic nodes; non-trivial when a node was injected '
                      'at a node that has both a parent and children, or the '
                      'tree is three levels deep')],
    'C06': [
        Test('run_loop', runs, quick=1200, thorough=20000,
             rule='exit conditions of several kinds; non-trivial when at '
                  'least one update is due'),
        Test('process_run', process, quick=1200, thorough=20000,
             rule='processes run in place, stopped or failing in some node '
                  'of some iteration; non-trivial when that is not the first '
                  'node'),
        Test('process_forked', forked, quick=64, thorough=800,
             rule='real child processes; non-trivial when updates happen')],
}
