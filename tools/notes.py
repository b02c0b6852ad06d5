"""Deciding method and remarks per property (used by manifest.py)."""
REF = 'property-based testing (Hypothesis) against an independent reference: '
TECH = {
 'C01': 'model-based testing of operation histories against a dictionary model',
 'C02': 'model-based testing of interleaved recorder histories',
 'C03': 'model-based testing of recorder histories',
 'C04': 'round-trip property over generated geometries',
 'C05': 'model-based testing of tree edit histories',
 'C06': 'model-based testing of run loops with injected faults, in process '
        'and in forked processes',
 'C07': REF + 'exact trigonometry and algebraic laws',
 'C08': REF + 'exact rational geometry',
 'C09': REF + 'minimum over all part pairs, metamorphic motions and swaps',
 'C10': REF + 'documented formulas and statistical laws',
 'C11': REF + 'numerical gradient of the interaction energy',
 'C12': REF + 'brute-force sum over all pairs, permutation and motion '
        'metamorphic relations',
 'C13': REF + 'brute-force sum over all walls, metamorphic relations',
 'C14': REF + 'documented update equations over step sequences',
 'C15': 'generated parameters with range invariants and statistical tests',
 'C16': 'generated shapes with containment invariants and uniformity tests',
 'C17': REF + 'documented formula and brute-force ranking and visibility',
 'C18': REF + 'exact counting and half-plane Voronoi cells',
 'C19': REF + 'coordinates enumerated from the construction of the geometry',
 'C20': REF + 'straight-line distances, gradients and walked paths',
 'C21': REF + 'documented weighted average, point by point',
 'C22': REF + 'brute-force neighbour search and follower rules over '
        'update histories',
 'C23': 'round-trip and reference-model properties over attribute histories',
 'C24': 'generated placements with non-overlap invariants and exact geometry',
 'C25': 'model-based query histories on generated fields, containment '
        'invariants',
 'C26': 'model-based testing of simulation histories against reference node '
        'semantics',
 'C27': REF + 'trait tables, Python method resolution order and click',
 'C28': 'model-based testing over generated configurations, modules, '
        'signatures and command lines',
 'C29': 'generated parameters and change histories, whole simulation runs '
        'judged by invariants over the history, closed-form motion',
 'C30': 'generated figures, geometries and fields on a recording stand-in of '
        'the plotting library, compared with the geometry itself',
 'C31': 'generated strategies, their draws compared with the request',
 'C32': 'metamorphic testing of whole generated simulation runs',
 'C33': 'differential testing of generated interleavings of simulations against runs alone in fresh processes',
}
STAT = 'Distributions are judged by statistical tests with thresholds far ' \
       'beyond chance (false-alarm rate below 1e-9 per run). '
NOTES = {
 'C10': STAT, 'C15': STAT, 'C16': STAT,
 'C18': 'Points nearly in line up to rounding are left out. ',
 'C20': 'scikit-fmm is a stand-in (exact eikonal solver of first order). ',
 'C29': 'scikit-fmm, scikit-image and shapely are stand-ins; the big four '
        'exits simulations are placed but not stepped. ',
 'C32': 'Scenes in which perturbations of 1e-9 change the outcome as much are '
        'left out. ',
 'C30': 'bokeh is a stand-in that records what is drawn; files and pictures '
        'are not rendered. ',
 'C31': 'Hypothesis is, for the interpreter of the code, a stand-in that draws '
        'at random with the bounds and zero overrepresented. ',
 'C28': 'loggingtools.setup_logging is a stand-in: it cannot read YAML with '
        'the installed ruamel.yaml. ',
}
