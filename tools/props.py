"""Source of properties.jsonl (run: python3-vt tools/props.py)."""
import json
import os

OUT = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                   'properties.jsonl')
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=()):
    P.append({
        'id': id, 'title': title, 'statement': statement,
        'quantifier': {'over': over.split(), 'text': text},
        'why_tests_cant': why,
        'anchors': {
            'files': ['crowddynamics/' + f for f in files.split()],
            'mechanism': [{'name': n, 'where': w} for n, w in mech],
            'observe_at': list(observe)}})


prop('C01', 'Spatial grid finds exactly the neighbours',
     'A block list returns, for any point, exactly the items inserted in the same cell, and for a neighbourhood query exactly the items whose cell is within the given number of cells in every dimension; cells have the given size and are aligned to zero, also for negative coordinates and values on cell borders. Keys that are not sequences of numbers are refused with KeyError.',
     'histories inputs', 'every cell size, dimension 1-3, container kind and history of insertions and queries',
     'Tests insert one fixed item list; borders, negative cells, radius other than 1 and histories are unsampled.',
     'core/block_list.py', [('key transform by floor division', 'core/block_list.py MutableBlockList._transform'), ('neighbour enumeration', 'core/block_list.py _nearest_blocks')])
prop('C02', 'Recorded arrays are read back complete and in order',
     'Arrays sent to a recorder and dumped are stored in numbered chunks, each holding the stacked arrays sent since the previous dump as they were when sent; loading by directory and name yields exactly those chunks in dump order and their concatenation, whatever other recordings or files share the directory, whatever the name, and with any number of chunks.',
     'histories inputs', 'every interleaving of recorders, names, dump flags, chunk counts and in-place updates of the sent array',
     'The test uses one name, one constant array and two chunks.',
     'io.py', [('save_npy coroutine', 'io.py save_npy'), ('chunk numbering and search', 'io.py find_npy_files, load_npy')])
prop('C03', 'Table log holds every row up to the last dump',
     'A table recorder writes one header with the keys of the first row followed by every row sent up to and including the last dump, once each, in order and correctly quoted; nothing is written before the first dump.',
     'histories inputs', 'every sequence of rows (any text or numbers) and dump flags, including one reused dictionary',
     'No test covers the csv recorder.',
     'io.py', [('save_csv coroutine', 'io.py save_csv')])
prop('C04', 'Geometries survive a save and load',
     'Saving named geometries (points, lines, rings, polygons with holes, multi-part geometries, lists and dictionaries of them, or nothing) and loading the file gives the same names with equal coordinates and kinds; saving again replaces the earlier content.',
     'inputs histories', 'every geometry kind, nesting and save sequence',
     'No test saves geometries.',
     'io.py', [('geometry_mapping / geometry_shape', 'io.py'), ('save/load json', 'io.py save_geometry_json')])
prop('C05', 'Logic tree edits keep the tree and its evaluation order',
     'Building and editing a logic tree (adding children with << or by method, injecting a node before or after another) gives exactly the described parent and child relations and loses no node; looking up by name finds the node from anywhere in the tree or raises KeyError; an update evaluates every node exactly once, children before their parent.',
     'histories', 'every sequence of tree edits and updates',
     'Tests build one or two fixed trees.',
     'simulation/base.py simulation/multiagent.py', [('LogicNodeBase', 'simulation/base.py'), ('post order update', 'simulation/multiagent.py MultiAgentSimulation.update')])
prop('C06', 'Runs stop at the exit condition and always signal the end',
     'Running a simulation performs whole updates until the exit condition (the one set at that time) first holds, counts the iterations, and performs none when it holds at once; a simulation process runs until it is stopped, and puts its end marker on the queue exactly once, also when the simulation stops with a library error.',
     'histories fault_sequences schedules', 'every exit condition, update failure point and stop request',
     'Tests run one simulation for a few iterations.',
     'simulation/base.py simulation/multiagent.py', [('run loop', 'simulation/base.py SimulationBase.run'), ('process', 'simulation/multiagent.py MultiAgentProcess')])
prop('C07', 'Vector and angle algebra',
     'Angles wrap to the equal angle in [-pi, pi] with odd multiples of pi keeping their sign; quarter-turn rotations, angle, length, dot and cross products, normalization, truncation, unit vectors and weighted averages equal their mathematical definitions, on single vectors and row-wise on arrays alike; only truncation changes its argument.',
     'inputs', 'all finite vectors and angles, zero vectors and borders included',
     'Sampled tests need numba and check types rather than values.',
     'core/vector2D.py', [('vector functions', 'core/vector2D.py')])
prop('C08', 'Polygon area, segment crossing and line of sight',
     'Polygon area equals the exact shoelace area for any simple vertex order, start and translation, and zero below three vertices; two non-parallel segments are reported to intersect exactly when they share a point, ends included; sight between two points is blocked exactly when some obstacle segment meets the segment between them.',
     'inputs', 'all polygons and segment pairs, touching and degenerate ones included',
     'Tests check the result type or a few random polygons.',
     'core/geom2D.py core/sensory_region.py', [('polygon_area, line_intersect', 'core/geom2D.py'), ('is_obstacle_between_points', 'core/sensory_region.py')])
prop('C09', 'Skin-to-skin distances between bodies and walls',
     'The distance between circles, three-circle bodies and line segments is the exact Euclidean clearance (negative when overlapping) minimized over all parts, with a unit normal pointing from the other body or the wall towards the first, and moment arms from each torso to its documented contact point; distances do not depend on argument order, part order, segment direction or the position of the origin.',
     'inputs', 'all positions, radii, orientations and segments of positive length',
     'Tests check types and one inequality.',
     'core/distance.py', [('distance functions', 'core/distance.py')])
prop('C10', 'Contact, adjusting and fluctuation forces follow their formulas',
     'Contact force and adjusting force equal their documented formulas, adjusting torque is the documented one with the difference to the target orientation taken by the shortest turn towards it, and applying them to agents adds them to the accumulated force and torque of each agent and changes nothing else; fluctuation forces are bounded by three standard deviations times the mass with directions all around and drawn anew for each agent and call, fluctuation torques likewise by inertia; target orientations point along the target direction.',
     'inputs', 'all agent states and parameters, both agent models',
     'Not covered by value-checking tests.',
     'core/motion/contact.py core/motion/adjusting.py core/motion/fluctuation.py core/steering/orientation.py', [('force_contact', 'core/motion/contact.py'), ('force_adjust, torque_adjust', 'core/motion/adjusting.py'), ('fluctuation', 'core/motion/fluctuation.py')])
prop('C11', 'Anticipatory force is the gradient of the interaction energy',
     'For two agents on collision course the social force is minus the spatial gradient of the documented energy of the earliest future time-to-collision of their bodies, scaled by mass and constant, opposite on the other agent, and truncated to the maximal force; it is zero when the bodies never collide, move apart or are at relative rest, and it does not depend on translation, or on swapping the agents.',
     'inputs', 'all pairs of circular and three-circle agents',
     'Tests only call the functions.',
     'core/motion/power_law.py', [('time to collision, gradients, force', 'core/motion/power_law.py')])
prop('C12', 'Pairwise interactions are complete and order independent',
     'Agent-agent interaction adds to every agent the sum of social and contact forces (and torques) over all other agents within sight, as if every pair were visited exactly once, whatever the cell size at or above the sight range, the order of the agents or the position of the origin; it changes nothing but force and torque, and equal agents exert opposite forces on each other.',
     'inputs', 'all crowds of both agent models, any cell size at or above the interaction range',
     'Tests call it with at most two agents and assert nothing.',
     'core/interactions.py', [('pair interactions', 'core/interactions.py'), ('cell lists', 'core/interactions.py agent_agent_block_list')])
prop('C13', 'Wall interactions push agents off every wall they touch',
     'Obstacle interaction adds to each agent exactly the contact force of every wall segment its body overlaps, with normal away from the wall, and the torque of that force about its torso; agents touching no wall, and all other attributes, are unchanged, and wall order and direction do not matter.',
     'inputs', 'all crowds and sets of wall segments, both agent models',
     'Tests call it with one agent and assert nothing.',
     'core/interactions.py', [('agent_obstacle', 'core/interactions.py')])
prop('C14', 'Integration follows the equations of motion',
     'A time step lies between the given minimum and maximum and bounds the fastest agent to the documented step length; Euler and velocity-Verlet steps update position, velocity, orientation (wrapped) and angular velocity by their documented formulas for every agent of either model, remember the force for the next step, keep shoulders attached to the torso, and return the step used.',
     'inputs histories', 'all agent states, force histories and step bounds',
     'Tests check bounds of the step only.',
     'core/integrator.py simulation/agents.py', [('integrators', 'core/integrator.py'), ('shoulders', 'simulation/agents.py')])
prop('C15', 'Random primitives stay in range and follow their law',
     'Truncated normal samples stay within the truncation scaled and shifted as documented, with the requested size; random vectors have the given length and orientation range; Poisson update times are increasing, lie within the window with the expected mean count, and update sequences list agents in order of their update times.',
     'inputs', 'all parameters, sizes and random states',
     'Tests draw a few samples and check types.',
     'core/rand.py', [('truncnorm, random_vector, poisson clock and timings', 'core/rand.py')])
prop('C16', 'Sampling is inside the shape and uniform',
     'Points sampled from a line string lie on it, with every part drawn in proportion to its length; points sampled from a triangle or convex polygon lie inside it and are distributed in proportion to area; area accumulation is exact.',
     'inputs', 'all line strings, triangles and convex polygons, and random states',
     'Tests draw ten points from three shapes and never check uniformity.',
     'core/sampling.py', [('cumulative weights', 'core/sampling.py'), ('samplers', 'core/sampling.py')])
prop('C17', 'Exit capacity, queue rank and exit detection',
     'Exit capacity equals the documented stepwise estimate (zero for doors narrower than an agent, both estimates equal when layer and agent widths are equal); the rank of each agent counts the agents closer to the exit; each agent detects exactly the nearest exit in range that it can see, or none.',
     'inputs', 'all widths, positions, exits and obstacles',
     'Tests check types and a few values.',
     'core/evacuation.py', [('narrow_exit_capacity, agent_closer_to_exit, exit_detection', 'core/evacuation.py')])
prop('C18', 'Crowd density accounts for every agent',
     'Classical density is the exact count per cell divided by cell area, for cells aligned to zero and covering all points; Voronoi densities give each agent total weight one over the grid (first definition) or count divided by the Voronoi areas of the agents in the cell (second definition); bounding boxes are exact in every dimension.',
     'inputs', 'all point sets and cell sizes, negative coordinates included',
     'The only test is skipped.',
     'core/quantities.py', [('densities', 'core/quantities.py')])
prop('C19', 'Geometry conversion keeps every segment and vertex',
     'Converting a geometry to line segments, linear obstacles or coordinate arrays yields every consecutive vertex pair or vertex of each line, ring and part exactly once, in order, nothing for points or missing geometry, and refuses other types; the union of geometries covers each of them.',
     'inputs', 'all geometry kinds, nested multi-part geometries included',
     'Tests only call the functions on single-part geometries.',
     'core/geometry.py', [('geom_to_linesegment, geom_to_linear_obstacles, geom_to_array', 'core/geometry.py')])
prop('C20', 'Grids, distance maps and direction maps agree with geometry',
     'A mesh grid covers the domain with the given step and its index function maps every grid position to its node; distance maps vanish on targets, equal the straight-line distance up to discretization where nothing is in the way, never underestimate it elsewhere, and mask obstacles; direction maps are unit vectors along the distance gradient, so that following the shortest path leads to the target around obstacles, also when there are none.',
     'inputs', 'all domains, steps, targets and obstacles that leave a passage',
     'Tests call them on the example fields and assert nothing about values.',
     'core/steering/quickest_path.py core/geometry.py', [('meshgrid, distance_map, direction_map, shortest_path', 'core/steering/quickest_path.py'), ('draw_geom', 'core/geometry.py')])
prop('C21', 'Obstacle handling and navigation lookup',
     'Merging target and obstacle directions gives unit vectors equal to the documented weighted average within the obstacle radius and to the target direction outside it, for maps and for single agents alike; looking up directions for agents uses the map inside the grid and leaves the given default outside it.',
     'inputs', 'all maps, indices (outside the grid too), radii and strengths',
     'Not covered.',
     'core/steering/obstacle_handling.py core/steering/navigation.py', [('obstacle_handling(_continuous)', 'core/steering/obstacle_handling.py'), ('getdefault', 'core/steering/navigation.py')])
prop('C22', 'Collective motion: neighbours, herding and leaders',
     'Nearest neighbours are the closest agents within sight not hidden by an obstacle, up to the given number; herding followers head along the weighted average of position and heading of the neighbours heading away; followers follow the closest visible leader that heads away, remember it, use its target when it is hidden and fall back to their familiar exit when they have no strategy; directions are unit or zero and agents that are not followers are unaffected.',
     'inputs histories', 'all crowds, leaders, obstacles, sights and sequences of updates',
     'Not covered by value-checking tests.',
     'core/steering/collective_motion.py', [('find_nearest_neighbors, herding, leader-follower', 'core/steering/collective_motion.py')])
prop('C23', 'Agent attributes, body types and array conversion agree',
     'Setting a body type derives radius, part radii, mass, speed and inertia by the documented ratios and ranges whatever the order of the attributes; shoulders lie on the torso tangent; converting an agent to an array row and back preserves every attribute, and values out of range or of wrong shape or length are refused.',
     'inputs histories', 'all body types, attribute values and orders',
     'Tests create agents and assert nothing.',
     'simulation/agents.py', [('BodyType observers', 'simulation/agents.py'), ('AgentType.__array__, from_array', 'simulation/agents.py')])
prop('C24', 'Placed agents never overlap',
     'After adding groups of agents, no two placed agents overlap and none overlaps a given obstacle; every row of the agent array is a placed agent with the attributes and position it was given, in order, agents are only left out when positions keep colliding, and overlap tests agree with exact geometry.',
     'inputs histories', 'all groups, sizes, cell sizes at or above the agent radius, positions and obstacles',
     'Tests place ten agents and assert nothing.',
     'simulation/agents.py', [('Agents.add_non_overlapping_group', 'simulation/agents.py'), ('overlap tests', 'simulation/agents.py')])
prop('C25', 'Field: valid geometry, spawn samples and cached maps',
     'A field refuses invalid or empty domains and obstacles; its convex hull contains all its parts; spawn samples lie inside the spawn and (for convex free regions) at least the radius away from obstacles; navigation maps equal those computed from the geometry directly for any target or the closest one, and are the same on every query.',
     'inputs histories', 'all fields with convex spawns and any query sequence',
     'Tests construct example fields.',
     'simulation/field.py', [('Field', 'simulation/field.py')])
prop('C26', 'One simulation step composes its nodes',
     'A step resets forces, accumulates every motion component, moves agents once and advances the clock by the step used; agents outside the domain become inactive and counted, polygon targets count every agent that ever reached them, navigation writes only to agents of that target, followers detect exits, and saved data equals the state at each dump.',
     'histories inputs', 'all small fields, crowds, node trees and step sequences',
     'Tests run fixed examples for a few steps and assert nothing about state.',
     'simulation/logic.py simulation/multiagent.py', [('logic nodes', 'simulation/logic.py')])
prop('C27', 'Traits map to array types, options and validators',
     'Every supported trait converts to the corresponding array field, type and command-line option; the option keeps the name, delivers the default or the given value with its type, and refuses integers out of bounds and choices not listed; traits of a class come once each, in order of definition from the class to its bases with the exclusions honoured, also as struct fields and table rows; shape and length validators accept exactly the allowed values; unsupported values are refused with the library errors.',
     'inputs programs', 'all trait classes with supported traits and hierarchies',
     'Tests use two fixed classes.',
     'traits.py', [('trait conversion', 'traits.py')])
prop('C28', 'Configuration, utilities and command line',
     'Configurations are accepted exactly when they satisfy their specification; signatures report names, defaults and annotations and refuse parameters without default; the working directory is restored on every exit; importing yields exactly the subclasses of a module, or the configured functions that exist; every simulation found in the working directory is listed and gets its own command that runs it the given number of times with the given options; concatenating recordings writes their concatenation and leaves them as they are; deprecated functions warn and otherwise behave as before; docstring placeholders are filled.',
     'inputs programs configurations', 'all small configurations, function signatures and module sets',
     'Tests cover one empty directory listing.',
     'config.py utils.py cli.py exceptions.py', [('load_config', 'config.py'), ('parse_signature, import_subclasses', 'utils.py'), ('simulation_commands', 'cli.py')])
prop('C29', 'Shipped examples are well formed and run',
     'For every sensible parameter the example fields have the described domain with all targets, spawns and obstacles inside it, exits of the given width that are not walled up and are, past the obstacles, the only way out of a spawn, and changing a parameter later gives the same field as constructing with it. The example simulations place the declared groups in their spawns without overlap; their runs keep the crowd finite and complete, nobody walks through a wall, and people with a target get to that exit and leave the domain nowhere else. A lone person of the movement validation relaxes exponentially to the target velocity.',
     'inputs histories', 'all field sizes, ratios and exit widths, group sizes, agent types and random seeds',
     'Tests run each example once with default parameters, and need libraries; the movement test starts at the target velocity, so it passes without any driving force.',
     'examples/fields.py examples/simulations.py examples/collective_motion.py examples/validation.py', [('example fields', 'examples/fields.py'), ('example simulations', 'examples/simulations.py, examples/collective_motion.py')])
prop('C30', 'Plots show what they are given',
     'The plot ranges keep the requested aspect ratio, are centred on the data and contain it with its margins; every part of a geometry is drawn once, at its own coordinates and with the given style, and anything else is refused; the distance map is an image over the bounds of its grid, the direction map an arrow at every sampled node that points along the map with its head turned accordingly; plotting a field draws its domain, spawns, targets and obstacles (those it has) once each, under legends that tell them apart, and shows it; figure files get the html extension and are shown or saved exactly when asked; a logic tree is rendered whole, from whichever node it is given.',
     'inputs programs', 'all figure sizes, geometries, grids and maps, fields and trees',
     'The one test is skipped.',
     'visualizations.py', [('set_aspect, add_geom, plot_field', 'visualizations.py')])
prop('C31', 'Test data strategies draw what they promise',
     'The strategies for numbers, unit vectors, points, lines and polygons draw finite values within the bounds, without the excluded zeros, of the requested shape and number of vertices, lines closed and holes inside the bounds when asked; the agent strategy draws as many agents as the size strategy says, each with its own drawn attributes; empty ranges, wrong types and too few vertices are refused.',
     'inputs', 'all bounds, shapes, numbers of vertices and agent attribute strategies',
     'Tests draw examples and assert nothing about bounds.',
     'testing.py', [('strategies', 'testing.py')])
prop('C32', 'A scene laid out otherwise behaves the same',
     'The motion of a crowd depends on the scene only, not on how it is laid out: when agents, walls, doors, areas and domain are moved, turned or mirrored together, when agents and obstacles are listed in another order or obstacles are drawn in the other direction, when the same scene exists a second time far out of reach, or (agents alone) when everybody drifts at a common velocity, then every state of the agents after every step, their targets, roles and leaders, the adaptive time step and the counts of agents at targets and outside are those of the original scene, laid out in the same way.',
     'inputs histories', 'every scene of agents, walls, doors and areas, every combination of motion, wall, exit, leader and herding nodes, every rigid motion and order, over several steps, up to the amplification of rounding by the scene itself',
     'Tests run fixed scenes in one layout and compare nothing.',
     'core/interactions.py core/integrator.py core/evacuation.py core/steering/collective_motion.py simulation/logic.py', [('pair and wall forces', 'core/interactions.py'), ('leader following and herding', 'core/steering/collective_motion.py'), ('logic nodes', 'simulation/logic.py')])
prop('C33', 'Simulations are reproducible and do not influence one another',
     'With the same random seed, placing the groups of a simulation and stepping it, also with noise, gives exactly the same agents and data every time; several simulations in one process, placed and stepped in any interleaving, each with its own stream of random numbers, in fields of their own or in a common one, each go exactly as they do alone in a fresh process: no agents, maps, obstacles, parameters or counters of one reach another, and no simulation changes the geometry of its field.',
     'histories schedules inputs', 'every pair or triple of simulations (fields, groups, logic nodes, time steps, random seeds) and every interleaving of their construction and steps',
     'Every test makes one simulation; what leaks through modules, classes, default values and caches shows only with another one, in some order.',
     'simulation/multiagent.py simulation/field.py simulation/agents.py simulation/logic.py core/rand.py', [('cached maps of a field', 'simulation/field.py'), ('spatial grid of placed agents', 'simulation/agents.py'), ('random numbers', 'core/rand.py, core/motion/fluctuation.py, core/sampling.py')])

with open(OUT, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
