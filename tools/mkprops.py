import json
P=[]
def p(id,title,st,over,text,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=st,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
C='src/OpenMps/Computer.hpp';G='src/OpenMps/Grid.hpp';E='src/OpenMps/Environment.hpp';M='src/OpenMps/Main.cpp';PA='src/OpenMps/Particle.hpp'
HK='OPENMPS_TRACE trace points between the phases of a step'
p('P01','Neighbour search is complete and exact',
 'At the start of every step the neighbours recorded for each enabled particle are exactly the other enabled particles lying closer than the neighbour distance (influence radius times one plus twice the Courant number): none is missed, none is listed twice, and neither the particle itself nor a disabled particle is listed. This holds wherever in the domain the particles lie (block borders, domain corners, sparse or crowded blocks) and after any history of movement, disabling and adding.',
 ['inputs','histories'],'every particle configuration in a domain, every history of steps and additions',
 'NumberDensityTest checks one 7x7 lattice (particles mostly outside its own tiny domain) for symmetry and self-exclusion; no test compares with the true neighbour set, none touches block borders, empty leading blocks, disabled particles or a second step.',
 [C,G],[('SearchNeighbor',C),('Grid::Store, Grid::cbegin/Iterator',G)],['recorded neighbour list after the search, each step'],
 [('neighbor','row i: count, then indices','Computer.hpp')],HK)
p('P02','Leaving the domain disables a particle for good and makes it inert',
 'A particle that is below the minimum corner, or at or beyond the upper end of the search region (the maximum corner rounded up to whole neighbour-distance blocks, plus two blocks), when a step begins becomes disabled in that step; a particle inside that region is never disabled. A disabled particle stays disabled, its position, velocity, pressure and density never change again, and it influences neither any other particle nor the time step.',
 ['inputs','histories'],'every position relative to the domain, every later history of the simulation',
 'No test ever disables a particle or runs two steps.',
 [C,G],[('SearchNeighbor disables what the grid does not store','Computer.hpp'),('type checks in every phase','Computer.hpp'),('Grid::Store range check',G)],['Particles() after each step, time step'],
 [('type','Disabled is absorbing','Particle.hpp')],HK)
p('P03','Stepping and adding conserve the particle list',
 'Advancing time never creates, removes, duplicates or reorders particles, and changes a particle\'s type only to disabled. Adding particles, at any moment of the simulation, appends exactly the given particles in the given order with their given attributes and leaves the existing ones untouched.',
 ['histories','inputs'],'every interleaving of additions and steps',
 'The constructor test checks one addition before any step.',
 [C],[('AddParticles',C),('ForwardTime',C)],['Particles() after each call'],None,None)
p('P04','The time step respects the Courant condition and the clock counts it',
 'An automatically chosen time step is exactly the smaller of the maximum time step and the time in which the fastest enabled particle travels the Courant number times the particle spacing (the maximum time step when all are at rest); a step with a prescribed time step uses exactly that one. The clock starts at zero and every step advances it by exactly the time step used, which is the one reported afterwards.',
 ['inputs','histories'],'all velocity fields, particle types and step histories',
 'No test calls the time-advancing functions at all.',
 [C,E],[('DetermineDt',C),('Environment::SetNextT',E)],['GetEnvironment().T()/Dt() after each step'],None,None)
p('P05','Particle number density is the weighted count of what is in reach',
 'Whenever densities are evaluated, the density of every enabled fluid or wall particle is the sum, over all other enabled particles (fluid, wall and dummy) closer than the influence radius, of influence radius over distance minus one, raised to the reference density when it falls short of it. Dummy and disabled particles keep the density they have.',
 ['inputs','histories'],'all configurations and every evaluation during a run',
 'The existing test checks interior particles of one lattice within 10%; it does not see walls, dummies, sparse regions or later steps.',
 [C,PA],[('ComputeNeighborDensities, AccumulateNeighbor',C),('Particle::W',PA)],['density after each density evaluation, and after the step'],None,HK)
p('P06','Prediction moves fluid by gravity and viscosity only',
 'In the explicit stage every fluid particle is accelerated by gravity plus the viscous exchange with all fluid and wall particles in reach (proportional to the velocity difference and to kinematic viscosity, none from dummies or virtual particles), all evaluated from the state at the beginning of the step, and then moves with its new velocity for one time step. In particular an isolated fluid particle falls freely.',
 ['inputs','histories'],'all configurations, velocities, parameters and steps',
 'The explicit-force tests are commented out upstream; nothing checks this stage.',
 [C],[('ComputeExplicitForces',C)],['positions and velocities after the explicit stage'],None,HK)
p('P07','Walls and dummies follow the prescribed motion exactly',
 'In every step each wall or dummy particle is placed exactly where the caller\'s wall function says for its index, the new time and the time step, and gets the velocity displacement over time step; nothing else (pressure, viscosity, gravity, repulsion) moves it. The caller\'s preparation function is called exactly once per step with the new time and the time step, before any wall position is requested.',
 ['inputs','histories','schedules'],'all wall motions, particle mixes, time steps and histories',
 'No test moves a wall; the tests\' wall functions return zero.',
 [C],[('ComputeExplicitForces, second loop',C),('type guards in ModifyByPressureGradient and DynamicStabilize',C)],['wall particle state after the step; calls of the two user functions'],None,HK)
p('P08','The pressure equation is assembled from the current state',
 'Each step the pressure equation has, for every enabled fluid or wall particle, the high-order Laplacian over all non-dummy particles in reach (virtual surface particles contribute to the diagonal only) and the high-order source with error-compensation terms, and an identity row with zero right-hand side for dummy and disabled particles. The matrix is symmetric between equation-bearing particles, the initial guess is the current pressure (zero for dummy and disabled), and nothing of an earlier step or particle count survives in it.',
 ['inputs','histories'],'all configurations, all steps, changing neighbourhoods and particle counts',
 'Existing tests assemble once, on one lattice of fluid particles, with a density the test sets up; dummies, walls, deficits and reassembly are not reached.',
 [C],[('SetPressurePoissonEquation, NeighborDensityVariationSpeed, ComputeErrorCorrection',C)],['matrix, right-hand side and initial guess at the solve'],[('ppe','A, x, b','Computer.hpp')],HK)
p('P09','A pressure solve either meets the tolerance or fails loudly',
 'When the solver returns normally, the residual of the returned unknowns is below the allowed tolerance times the residual of the initial guess (unchanged guess if that residual is already zero); otherwise it throws. It always ends, never returns unconverged or non-finite values, and does not fail on well-conditioned symmetric definite systems.',
 ['inputs'],'all symmetric systems, right-hand sides, guesses and positive tolerances, including singular, indefinite and non-finite ones',
 'Three fixed systems (identity, one 4x4, one ODE) from a zero guess; no failing solve, no warm start, no singular system.',
 [C],[('SolvePressurePoissonEquation',C)],['unknowns after the solve or exception'],None,HK)
p('P10','Pressure is the non-negative part of the solution',
 'After the pressure solve every enabled fluid or wall particle\'s pressure is the solution of the pressure equation with negative values replaced by zero, so no such particle ever has negative pressure after a step. Dummy and disabled particles keep their pressure.',
 ['inputs','histories'],'all configurations and steps',
 'No test checks pressures after the implicit stage.',
 [C],[('ComputeImplicitForces',C)],['pressure after the step'],None,HK)
p('P11','Pressure gradient corrects fluid velocity and position consistently',
 'In the correction stage each fluid particle\'s velocity changes by the pressure-gradient acceleration times the time step, evaluated from the sum of its own and each neighbour\'s pressure over all non-dummy particles in reach plus the zero-pressure virtual particle at a deficient surface, all from the state before the correction; its position changes by that velocity change times the time step. No other particle is moved.',
 ['inputs','histories'],'all pressure fields, configurations and steps',
 'Two analytic fields on one lattice within 5%, velocity only for interior particles; no wall, surface, dummy, position or time-step dependence.',
 [C],[('ModifyByPressureGradient',C)],['positions and velocities after the gradient stage'],None,HK)
p('P12','Only too close pairs are pushed apart, by the missing distance',
 'At the end of a step a fluid particle is displaced and accelerated by the artificial repulsion exactly when a fluid or wall particle is closer to it than the particle spacing minus the per-step travel limit, along the direction the pair had before the pressure correction, by the amount that restores that distance scaled by half the reference density; pairs that are not too close, dummies and virtual particles exert none, and nothing but fluid is moved.',
 ['inputs','histories'],'all configurations, in particular those where the correction stage brings particles too close',
 'No test runs the stabiliser.',
 [C],[('SaveX, DynamicStabilize',C)],['positions and velocities between gradient stage and end of step'],None,HK)
p('P13','A step depends only on the visible state',
 'The outcome of a step is a function of the particles\' visible attributes, the clock, the time step and the parameters only: a new simulation given the current particles of a running one (after any number of steps, additions and disablings) produces the same next state. Simulations running side by side do not influence each other.',
 ['histories'],'all prefixes of a run, including runs with added and disabled particles and several simulations at once',
 'Every test uses a fresh simulation and at most one phase.',
 [C,G],[('per-step reset of grid, neighbour lists, densities, matrix',C),('AddParticles resizing',C)],['Particles() after a step of the running and of the rebuilt simulation'],None,None)
p('P14','Results do not depend on threads or scheduling',
 'For every number of threads and every order and interleaving in which the parallel loops execute their iterations, a step produces the same particle state (up to rounding of the solver\'s reductions for very large systems) as sequential execution; in every parallel region no memory written by one thread is accessed by another without synchronization between them.',
 ['schedules'],'all thread counts and iteration schedules',
 'Tests run one schedule with 4 threads and tolerances that hide lost updates; a race shows rarely.',
 [C,G],[('one iteration writes only its own particle; two-loop structure (compute all, then apply)',C)],['memory accesses of each iteration; Particles() after the step'],None,None)
p('P15','The search grid returns each stored item once, and only local ones',
 'After a clear, the grid contains exactly what was stored since: walking from any position inside it visits exactly once every item stored in the block of that position and in the adjacent blocks, and nothing else, and always terminates. Storing outside the grid is refused without effect, and storing into a full block raises an error and likewise changes nothing: no item is lost or overwritten and walks stay right.',
 ['histories','inputs'],'all sequences of clear, store and walk, all block positions including edges and corners, all fill levels',
 'The grid has no test of its own.',
 [G],[('Store, Clear, Iterator',G)],['return values, visited items, exceptions of the public grid operations'],None,None)
p('P16','Derived constants follow from the given parameters',
 'From the given parameters the environment derives the influence radius, gravity vector, per-step travel limit, neighbour distance (influence radius times one plus twice the Courant number), maximum time step (not above the given one nor above the time to fall the travel limit from rest) and the reference density (the density of a particle in an infinite square or cubic lattice of the given spacing), and for the standard Laplacian the mean squared distance of the neighbours in that lattice by weight. The reference density does not depend on the spacing, only on the radius ratio. The given parameters themselves are kept unchanged.',
 ['inputs','configurations'],'all parameter combinations and method options, two and three dimensions',
 'The constructor test compares a few fields for one parameter set; the reference density is checked nowhere against its definition.',
 [E],[('Environment constructor',E)],['Environment accessors'],None,None)
p('P17','Output frames appear on schedule and without gaps',
 'A run writes the initial frame and then one frame per output interval up to the end time, numbered consecutively from the number that the start time corresponds to (a whole number of intervals is not affected by rounding); nothing but the initial frame when the end time is not after the start time; each frame shows the state at the first step whose time has reached that multiple of the output interval. No frame is skipped, duplicated or overwritten, and the progress line of each frame reports its number, time, step count and the number of enabled particles.',
 ['inputs','histories'],'all combinations of start time, end time, interval and step sizes',
 'The application has no tests; the CI run checks nothing.',
 [M],[('main loop, OutputToCsv',M)],['files in result/, standard output'],None,None)
p('P18','Particle input is read faithfully or rejected',
 'Particles are read in row order with every attribute taken from the column its header names, whatever the column order, blanks, tabs or blank lines. An unknown header item, a missing header item, a row with missing items, an item that does not begin with a number, or a particle format other than CSV is rejected with an error before any frame is written.',
 ['inputs'],'all header orders, spacings and malformed documents',
 'The application has no tests.',
 [M],[('InputFromCsv, LoadParticles',M)],['first frame, exit status'],None,None)
p('P19','Frames show every particle faithfully and can be read back',
 'Every frame has the documented header and one row per particle, disabled ones included, in unchanged order, whose columns hold that particle\'s type, position, velocity, pressure and density to output precision. A frame used as particle input is accepted and reproduces those particles.',
 ['inputs','histories'],'all particle states occurring in runs',
 'The application has no tests.',
 [M],[('OutputToCsv, InputFromCsv',M)],['frame files'],None,None)
p('P20','The settings in the input file are the ones simulated',
 'Each setting in the input file (spacing, gravity, density, viscosity, radius ratio, Courant number, domain corners, steps per output, tolerance, times) reaches the simulation as given, each in its own role, the maximum time step being the output interval divided by the minimal number of steps per output. A missing setting is an error before any frame is written.',
 ['inputs','configurations'],'all settings',
 'The application has no tests.',
 [M],[('LoadEnvironment, LoadCondition',M)],['environment the application constructs, frames'],None,'OPENMPS_TRACE (environment and steps of the real application)')
p('P21','A step is independent of labels and of the frame of reference',
 'Renumbering the particles renumbers the result; shifting particles and domain together shifts the result; mirroring horizontally mirrors it; adding a common velocity to everything (walls included) adds it to the result.',
 ['inputs'],'all configurations, permutations, shifts, mirrors and boosts',
 'No test compares two runs.',
 [C,G,E],[('pairwise formulas; block search',C)],['Particles() after a step of both runs'],None,None)
p('P22','Fluid particles exchange momentum without creating any',
 'The viscous, pressure and repulsion exchanges between fluid particles cancel pairwise, so a step changes the total momentum of the fluid only by gravity and by what walls and the virtual surface particles contribute; a fully surrounded fluid without gravity and walls keeps its total momentum.',
 ['inputs','histories'],'all fluid configurations, pressure and velocity fields',
 'No test sums momentum; gradient tests look at single interior particles.',
 [C],[('symmetric pair formulas (midpoint pressure)',C)],['sum of fluid velocities around each stage'],None,HK)
p('P23','A failing computation is reported and never passes for a result',
 'When a step cannot be completed (unsolvable pressure equation, overfull search block) the library raises an exception; the application then reports the error, writes no frame for that interval or any later one, keeps all earlier frames and ends normally. A failing step is never silently treated as successful. A frame that cannot be written is reported as an error too and ends the run.',
 ['fault_sequences','inputs'],'failures at any step of a run, of either kind',
 'No test makes a computation fail.',
 [M,C,G],[('exceptions in solver and grid',C),('catch in main loop',M)],['exceptions, frames, standard output, exit status'],None,None)
p('P24','The gradient correction matrix is the true inverse',
 'With gradient correction enabled, the correction applied to a particle is the exact inverse of its accumulated direction matrix when that is invertible, and the isotropic fallback exactly when its determinant is zero; the gradient of a linear pressure field is then reproduced up to the pair-sum form in use.',
 ['inputs','configurations'],'all neighbour arrangements incl. degenerate ones; 2x2 and 3x3 matrices',
 'The three matrix tests invert one asymmetric and two diagonal 2x2 matrices; the singular branch and the use in the gradient stage are only sampled on one lattice.',
 [C],[('InvertMatrix, ModifyByPressureGradient (MPS_GC)',C)],['InvertMatrix results; velocities after the gradient stage'],None,HK)
p('P25','A time step composes the stages in order on one state',
 'One step is exactly: fix the time step, advance the clock, search neighbours, densities, error compensation, explicit stage, densities of the moved particles, pressure solve, gradient correction, repulsion; each stage uses the results of the earlier ones of the same step. From the public state before a step the public state after it follows.',
 ['inputs','histories'],'all states and step sequences',
 'No test runs a full step.',
 [C],[('ForwardTime',C)],['Particles(), GetEnvironment() before and after each step'],None,None)
p('P26','Every buildable method option computes its own documented method',
 'With the documented compile-time options (standard MPS without the high-order terms, explicit pressure, without virtual surface particles or repulsion, gradient correction, other matrix library, without OpenMP, three dimensions) each step follows the equations that option stands for: standard source and Laplacian weights, free-surface particles at zero pressure, equation-of-state pressure, and the unchanged rest.',
 ['configurations','inputs'],'all buildable option sets, configurations and steps',
 'Tests are built for two option sets and check single phases.',
 [C,E,G,'src/OpenMps/defines.hpp'],[('preprocessor options',C)],['state after each stage in each variant'],None,HK)
import sys
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+'\n')
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P: jsonschema.validate(d,s); assert d['statement'].count('. ')<=2,(d['id'],d['statement'].count('. '))
print(len(P))
