"""Writes known_findings.json: the defects repaired in /repo (fix commits) and
those that are recorded only."""
import json
import os
import subprocess

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# subject of the commit -> (property, what failed)
F = [l.split(' | ') for l in '''\
parse the chunk number of npy files by the exact basename | C02 | names with underscores or sharing a prefix loaded chunks of other recordings
buffer a copy of the recorded array in save_npy | C02 | arrays updated in place after being recorded were stored with their last value
geometries saved as json load again | C04 | save_geometry_json followed by load_geometry_json raised for nested geometries
deprecated functions can be called | C28 | calling a deprecated function raised AttributeError (func_code)
load_config rejects values that violate the configspec | C28 | configurations outside their specification were accepted
use ndarray.item instead of the removed numpy.asscalar | C23 | creating agents with a body type failed with current numpy
euler_integrator rotates every three-circle agent array | C14 | three-circle agents never rotated under the Euler integrator
first contact of three-circle agents is the smallest positive tau | C11 | the contact pair with negative or zero time was taken as the first contact
gradient of time-to-collision for shoulders | C11 | the gradient for shoulder pairs had wrong signs
rotational moment of the second three-circle agent | C09 | contact lever arms of agent-agent distances mixed up the two agents
linestring_length_cumsum accumulates the lengths | C16 | lengths were not accumulated, so later segments were never sampled
density_classical returns a grid of counts | C18 | float indices raised and the grid missed the last cell
bounding_box covers every dimension of the points | C18 | dimensions beyond the second were dropped
density_voronoi_1 indexes its grid within bounds | C18 | negative coordinates and non-square grids indexed out of bounds
density_voronoi_2 uses the area of each point's own cell | C18 | areas were looked up by region index, i.e. of other points
geom_to_array of multipart geometries | C19 | multipart geometries raised
obstacle_handling_continuous uses both target direction components | C21 | the second component of the target direction was ignored
navigation without obstacles | C20 | direction maps without obstacles raised
TargetReached counts agents inside polygon targets | C26 | agents in polygon targets were never counted
trait_to_type of Unicode returns str | C27 | Unicode traits were refused or mapped to bytes
parse_signature rejects parameters without default | C28 | parameters without default were reported with default None
every simulation command runs its own simulation with its options | C28 | every command ran the simulation defined last and dropped its options
import simulations from the given directory | C28 | modules were looked up in the working directory instead of dir_path
agents that could not be placed leave no empty rows | C24 | unplaced agents left zero rows in the agent array
overlap check covers two cells in each direction | C24 | agents two cells apart could overlap unnoticed
shoulders follow the position and orientation of a three-circle agent | C23 | shoulder positions kept their initial value
members of an agent group are created once | C24 | reading the members of a group again created other agents
agents heading exactly towards each other do not follow | C22 | agents heading exactly against each other counted as followers
zero nearest neighbors can be searched | C22 | find_nearest_neighbors with size 0 indexed an empty array
field accepts None for its optional domain and obstacles | C25 | setting the optional traits to None raised
option of a Tuple trait has the default of the trait | C27 | the option of a Tuple trait had no usable default
options keep the case of the trait name | C27 | options of traits with upper-case letters arrived under another name
options of Enum traits give the value, not its string | C27 | Enum options of classes or numbers delivered strings the trait refuses
overridden traits occur once in class_traits | C27 | overridden traits were yielded twice and made the struct dtype invalid
import simulation callables of a configuration in the working directory | C28 | a bare file name made the import change to directory ''
choices of the log level are strings | C28 | run --help and run --loglevel 20 raised TypeError
installed command has the simulation commands | C28 | the installed command had no command for any simulation
run command runs the given number of simulations | C28 | --num was ignored
save_npy takes names with braces | C02 | names or directories with braces raised KeyError
density_voronoi_1 covers cells with far vertices | C18 | three points with an obtuse angle raised, and cells with far vertices were cut off
draw_geom leaves values inside holes as they were | C20 | drawing a shape with a hole wrote 0 into the hole: targets with holes had zero distance in the hole, and an obstacle inside the hole drawn before was erased
distance map image covers the domain when it does not start at the origin | C30 | the upper bounds were given as width and height of the image
a field without obstacles or domain can be plotted | C30 | plotting a field without obstacles or add_field without domain raised TypeError or AttributeError'''.split('\n')]

# recorded, not repaired: files under crowddynamics/examples must not change
KNOWN = [
    {'id': 'K01', 'property': 'C29', 'test': 'fields',
     'tag': 'pillar-outside',
     'where': 'crowddynamics/examples/fields.py, PillarInTheMiddle.__init__',
     'what': 'PillarInTheMiddle(width=w, height=h): the domain is the '
             'rectangle from (w/2, h/2) to (w, h), the pillar around (0, 0) '
             'is not in its middle'},
    {'id': 'K02', 'property': 'C29', 'test': 'free', 'tag': 'never-driven',
     'where': 'crowddynamics/examples/validation.py, '
              'TestMovement._default_logic',
     'what': 'TestMovement puts Integrator, Adjusting and Orientation side by '
             'side under Reset: the adjusting force is reset before it is '
             'integrated, the person keeps its first velocity'},
]

log = subprocess.run(['git', '-C', '/repo', 'log', '--format=%h %s'],
                     stdout=subprocess.PIPE, text=True).stdout
by = {l.split(' ', 1)[1][5:]: l.split(' ', 1)[0] for l in log.splitlines()
      if l.split(' ', 1)[1].startswith('fix: ')}
for l in log.splitlines():
    if l.split(' ', 1)[1].startswith('Revert "fix: '):
        by.pop(l.split(' ', 1)[1][len('Revert "fix: '):-1], None)
assert set(by) == {f[0] for f in F}, set(by) ^ {f[0] for f in F}
out = []
for k, (subj, prop, what) in enumerate(F):
    out.append({'id': 'F%02d' % (k + 1), 'property': prop, 'status': 'fixed',
                'commit': by[subj], 'what': what,
                'line': 'fixed: property=%s %s %s' % (prop, by[subj], what)})
for k in KNOWN:
    out.append(dict(k, status='known', line='KNOWN-FINDING: property=%s %s' % (
        k['property'], k['what'])))
json.dump({'findings': out}, open(os.path.join(HERE, 'known_findings.json'),
                                  'w'), indent=1)
