"""Writes properties.jsonl and MANIFEST.json from the table below (python3 tools/gen.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mechanism, observe, note=None, state=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files,
                  mechanism=mechanism, observe=observe, note=note, state=state, technique=technique))


prop('C01', 'Meshes programmed from a unitary implement that unitary',
     'For every unitary matrix, programming a rectangular, triangular or tree-cascade mesh (or the pair of meshes of a singular value decomposition) returns a circuit whose transfer matrix equals the matrix it was programmed with, including phases. The circuit has N(N-1)/2 numbered nodes with finite phases in the columns and on the rails of its architecture, and no two nodes of a column share a rail. With coupler errors that every node can correct, the same holds for the cascades.',
     ['inputs', 'configurations'], 'all unitaries (generic and degenerate: permutations, diagonal, block diagonal, real), sizes, architectures, phase styles and correctable coupler errors',
     'The tests program a handful of random unitaries of a few sizes; degenerate unitaries, phase styles combined with architectures and imperfect couplers are not reached.',
     ['simphox/circuit/matrix.py', 'simphox/circuit/rectangular.py', 'simphox/circuit/forward.py'],
     [('left/right nulling of sub-diagonals and phase commutation', 'simphox/circuit/rectangular.py: rectangular'),
      ('cascade of self-configuring vector units', 'simphox/circuit/matrix.py: cascade')],
     ['transfer matrix and parameters of the returned mesh'],
     technique='runtime monitor: transfer matrix of every programmed mesh against the requested unitary and an independent node-by-node model')

prop('C02', 'Vector units send their vector to a single output in phase',
     'For every input vector, the tree or chain programmed from it routes the whole power of that vector to one output with zero phase and leaves every other output dark, and the last row of an analyser of a unit vector is that vector. Run backwards from that output it emits the conjugate vector. This holds for every phase style and for coupler errors within the range every node can correct; the given vector is left unchanged.',
     ['inputs', 'configurations'], 'all vectors (zeros, basis vectors, widely different magnitudes, unnormalised), matrices of columns, topologies, numbers of rails, phase styles, coupler errors and losses',
     'The tests use Haar random vectors of a few sizes with one phase style and perfect couplers.',
     ['simphox/circuit/vector.py', 'simphox/circuit/coupling.py', 'simphox/circuit/forward.py'],
     [('recursive nulling of node inputs, column by column', 'simphox/circuit/vector.py: vector_unit'), ('split-ratio and phase solution of a node', 'simphox/circuit/coupling.py: CouplingNode.nullify_mzi')],
     ['outputs of the mesh for the programmed vector', 'parameters of the nodes'],
     technique='runtime monitor: observed outputs of every programmed unit, attainability decided by an independent power model')

prop('C03', 'Every way of propagating light through a mesh agrees',
     'The matrix of a mesh, propagation of inputs, step-by-step records of every plane, the numpy and jax versions, forward and backward directions and explicit or non-explicit evaluation all describe the same circuit: the ordered product of its node matrices and output phases. Nodes act on exactly their two rails with their own phases, coupler errors and losses, whatever the order in which nodes are listed.',
     ['inputs', 'configurations', 'programs'], 'all feedforward meshes (architectures and random networks, node orders, columns, offsets and aggregations), phase styles, per-node left/right coupler errors and per-arm losses, inputs of every rank',
     'The tests compare two of these paths for ideal meshes of regular architectures in node order.',
     ['simphox/circuit/forward.py', 'simphox/circuit/coupling.py', 'simphox/circuit/component.py'],
     [('column-wise matrix function', 'simphox/circuit/forward.py: ForwardMesh.matrix_fn'), ('recorded propagation', 'simphox/circuit/forward.py: ForwardMesh.propagate_matrix_fn'), ('per-node errors ordered by node id', 'simphox/circuit/forward.py: ForwardCouplingCircuit')],
     ['matrices, outputs and per-plane fields of each path'],
     technique='runtime monitor: differential comparison of all propagation paths against an independent node-by-node model')

prop('C04', 'Backward propagation is the transpose of forward propagation',
     'For every mesh, sending light backwards through it realises the transpose of its forward transfer matrix, and the bilinear product of forward and backward fields is the same at every plane of the circuit. This also holds with coupler errors and losses.',
     ['inputs', 'configurations'], 'all meshes, phase styles, coupler errors and losses; all pairs of forward and backward inputs; every plane of the circuit',
     'The tests do not measure fields inside the mesh in both directions with errors or losses.',
     ['simphox/circuit/forward.py', 'simphox/circuit/coupling.py'],
     [('backward node matrices', 'simphox/circuit/forward.py: ForwardMesh._left_right_attenuations / mzi matrix elements'), ('reversed propagation', 'simphox/circuit/forward.py: ForwardMesh.propagate_matrix_fn')],
     ['fields recorded at every plane in both directions'],
     technique='runtime monitor: reciprocity invariant evaluated at every recorded plane')

prop('C05', 'Ideal meshes conserve power and lossy meshes never amplify',
     'Without losses the power carried by a mesh is the same at every step of propagation, whatever its coupler errors and phases; with losses it never increases from one step to the next. The power removed by a node is set by its own loss values only. The powers read at the phase shifters are those of the recorded fields in their arms.',
     ['inputs', 'configurations'], 'all meshes, phase styles, coupler errors, losses and inputs; every step of forward and backward propagation',
     'The tests check unitarity of a few ideal matrices, not the steps in between nor losses.',
     ['simphox/circuit/forward.py', 'simphox/circuit/component.py', 'simphox/circuit/coupling.py'],
     [('attenuation per phase shifter', 'simphox/circuit/forward.py'), ('directional coupler with error', 'simphox/circuit/component.py: DirectionalCoupler')],
     ['power at each recorded step'],
     technique='runtime monitor: conservation checked at every propagation step')

prop('C06', 'In-situ backpropagation measures the gradient of the cost',
     'Without measurement noise and losses, the gradient obtained by in-situ backpropagation equals the derivative of the cost with respect to every phase shifter and with respect to the inputs, for any cost of the outputs. This holds for the all-analog and the digital-subtraction protocol and through networks of several mesh layers with nonlinearities.',
     ['inputs', 'configurations', 'programs'], 'all meshes (architectures, random node order, coupler errors), top and bottom phase styles, input shapes and batches, cost functions, depths of networks',
     'The tests have one training example of one architecture.',
     ['simphox/circuit/forward.py'],
     [('optical vector-Jacobian product', 'simphox/circuit/forward.py: ForwardMesh.in_situ_matrix_fn'), ('localisation of measured powers to phase shifters', 'simphox/circuit/forward.py: ForwardMesh.phase_shift_localize')],
     ['gradients returned by automatic differentiation through the in-situ function'],
     technique='runtime monitor: every in-situ gradient against an exact derivative of an independent model')

prop('C07', 'Meshes can be reprogrammed by nulling with their own null basis',
     'Programming a mesh column by column with the vectors of its null basis recovers phases that implement the same transfer matrix, whatever phases it is in before. With coupler errors that every node can correct, each programming step still darkens the intended outputs.',
     ['inputs', 'histories', 'configurations'], 'all meshes programmed from unitaries, every state before programming, coupler errors and phase styles, sequential and parallel programming',
     'The tests run one or two ideal examples.',
     ['simphox/circuit/forward.py', 'simphox/circuit/coupling.py'],
     [('null vectors', 'simphox/circuit/forward.py: ForwardMesh.nullification_basis / nullify'), ('node nulling', 'simphox/circuit/coupling.py: CouplingNode.nullify_mzi')],
     ['powers at the outputs during programming', 'matrix after programming'],
     technique='runtime monitor: programmed phases and dark outputs observed over programming histories')

prop('C08', 'The Hessian of a vector unit is its true second derivative',
     'The analytic Hessian of the error of a vector unit programmed with a vector equals the second derivative of that error with respect to every pair of phases, in the documented order of blocks. It is symmetric and has no descent direction, since the programmed unit is at a minimum.',
     ['inputs', 'configurations'], 'all vectors and sizes, balanced and unbalanced units',
     'The tests compare with a finite-difference routine of the same module, which shared an error with the analytic result.',
     ['simphox/circuit/vector.py', 'simphox/circuit/forward.py'],
     [('dynamic programming of node powers', 'simphox/circuit/vector.py: hessian_vector_unit')],
     ['the returned Hessian'],
     technique='runtime monitor: Hessian against exact second derivatives of an independent model')

prop('C09', 'Matrix decompositions and error metrics are exact',
     'A cosine-sine decomposition returns unitary blocks and angles whose product is the given unitary, for every split and however degenerate the blocks. The normalised error of two matrices is the residual left after the best global scale, zero exactly for proportional matrices, and the discrete bases are orthonormal.',
     ['inputs'], 'all unitaries (degenerate, permutation, block diagonal, real) and splits; all pairs of matrices',
     'The tests use generic random unitaries only.',
     ['simphox/utils.py', 'simphox/circuit/forward.py'],
     [('cosine-sine decomposition', 'simphox/utils.py'), ('normalised error', 'simphox/utils.py: normalized_error')],
     ['factors and values returned'],
     technique='runtime monitor: algebraic identities of every returned factorisation')

prop('C10', 'Sparse solves are exact for every history of solves',
     'Every sparse solve returns the solution of the system it was called with, whatever was solved before it: other matrices of the same shape or pattern, changed values, failures on singular matrices, several right-hand sides and transposed or differentiated solves in between. A singular system is reported rather than answered from an earlier factorisation. Derivatives of a solve with respect to matrix entries and right-hand side equal the analytic ones.',
     ['inputs', 'histories', 'fault_sequences'], 'all sequences of solves mixing matrices, patterns, dtypes, right-hand-side shapes, singular systems and gradients',
     'The tests solve a few systems, each once.',
     ['simphox/mkl.py', 'simphox/utils.py'],
     [('factorisation cache of the sparse solver', 'simphox/mkl.py'), ('custom derivative of the sparse solve', 'simphox/utils.py / simphox/fdfd.py')],
     ['solutions and raised errors'],
     technique='runtime monitor: residual oracle over randomised solve histories with injected failures')

prop('C11', 'Discrete derivative operators keep the structure of vector calculus',
     'On every grid, backward difference operators are the negative adjoint of the forward ones, the divergence of a curl vanishes and the operators are exact on linear fields away from boundaries. The functional forms of the derivatives and curls act exactly like the matrix forms, including Bloch phases and nonuniform or absorbing spacings.',
     ['inputs', 'configurations'], 'all grid shapes and spacings in one to three dimensions, Bloch phases, absorbing layers and fields',
     'The tests compare a few operator entries for fixed small grids.',
     ['simphox/sim.py', 'simphox/grid.py', 'simphox/fdfd.py', 'simphox/utils.py'],
     [('difference matrices', 'simphox/grid.py: YeeGrid / simphox/sim.py: deriv'), ('functional curls', 'simphox/utils.py: curl_fn')],
     ['operators applied to fields'],
     technique='runtime monitor: operator identities on random fields, functional against matrix form')

prop('C12', 'Frequency-domain solutions satisfy Maxwell equations',
     'Every field returned by the frequency-domain solver satisfies the discretised wave equation with the given source, permittivity, Bloch phases and absorbing layers, for every cell. The electric and magnetic fields returned with each other are related by the discrete curl, the solution is linear in the source, and the jax and numpy solvers return the same fields.',
     ['inputs', 'configurations'], 'all sources, permittivities, shapes in one to three dimensions, polarisations, wavelengths, spacings, absorbing layers and Bloch phases',
     'The tests check sizes and selected matrix entries of fixed small simulations.',
     ['simphox/fdfd.py', 'simphox/sim.py', 'simphox/grid.py'],
     [('wave operators', 'simphox/fdfd.py: mat_ez, mat_hz, mat_e'), ('solve', 'simphox/fdfd.py: FDFD.solve / FDFD.get_fields_fn')],
     ['returned fields'],
     technique='runtime monitor: residual of the discrete Maxwell equations, assembled independently, for every returned field')

prop('C13', 'Simulations always reflect the current structure',
     'After any history of edits to the structure of a grid (fills, components, masks, replacing the permittivity, editing it in place) and of solves, every result equals the one of a fresh simulation built with the final structure. Nothing computed before an edit is used after it, and editing a simulation does not change other simulations or the arrays it was made from.',
     ['histories', 'programs'], 'all histories of edits, solves, mode and profile calculations on one or more simulations',
     'Each test builds a new simulation and uses it once.',
     ['simphox/grid.py', 'simphox/sim.py', 'simphox/fdfd.py', 'simphox/fdtd.py', 'simphox/mode.py'],
     [('averaged permittivity', 'simphox/grid.py'), ('cached port modes and operators', 'simphox/sim.py, simphox/fdfd.py')],
     ['fields, modes, profiles after the edits'],
     technique='runtime monitor: differential against a fresh simulation after random edit histories')

prop('C14', 'Inverse-design gradients are the derivatives of the objective',
     'The gradient of any objective of the simulated fields with respect to the permittivity, as returned by automatic differentiation through the solver, equals the derivative of the objective. This holds for both polarisations, any source and objective, and for power-type and phase-sensitive objectives.',
     ['inputs', 'configurations'], 'all structures, sources, objectives, polarisations, spacings and absorbing layers',
     'The tests have no derivative check of the solver.',
     ['simphox/fdfd.py', 'simphox/utils.py', 'simphox/sim.py', 'simphox/opt.py'],
     [('adjoint of the sparse solve', 'simphox/mkl.py / simphox/utils.py'), ('differentiable fields', 'simphox/fdfd.py: get_fields_fn')],
     ['gradients of field objectives'],
     technique='runtime monitor: adjoint gradients against finite differences of an independent double-precision solve')

prop('C15', 'Mode solver returns true, ordered modes of the cross section',
     'Every mode returned by the mode solver satisfies the discretised eigenvalue equation of the cross section with the propagation constant reported for it, and modes are ordered from the largest effective index down. Changing the wavelength or permittivity changes the modes accordingly, a dispersion sweep equals independent solves, and guided effective indices lie between cladding and core index.',
     ['inputs', 'configurations', 'histories'], 'all cross sections in one and two dimensions, wavelengths, spacings, polarisations, numbers of modes and sweeps',
     'The tests cover one or two fixed waveguides.',
     ['simphox/mode.py'],
     [('mode operators and solve', 'simphox/mode.py: ModeSolver.solve'), ('mode library', 'simphox/mode.py: ModeLibrary')],
     ['returned modes and propagation constants'],
     technique='runtime monitor: eigen-residuals with an independently assembled operator')

prop('C16', 'Port measurements and S-parameters follow the requested ports',
     'Measured S-parameters are those of the ports asked for, in the order asked for and independent of dictionary or set ordering, with the incoming and outgoing wave of each port told apart by its orientation. A mode profile launched at a port and measured at that port has unit overlap with itself and none with other modes; mirrored or rotated devices give the same results at the corresponding ports. The metrics of a splitter are ratios of the powers at the ports they name.',
     ['inputs', 'configurations', 'schedules'], 'all sets and orders of ports, orientations, modes and hash seeds',
     'The tests measure one or two fixed ports with one hash seed.',
     ['simphox/sim.py', 'simphox/fdfd.py', 'simphox/parse.py', 'simphox/mode.py'],
     [('port orientation and placement of profiles', 'simphox/sim.py: port_source, get_measure_fn'), ('port ordering', 'simphox/parse.py')],
     ['returned S-parameters and profiles'],
     technique='runtime monitor: metamorphic port permutations and device symmetries, in processes with different hash seeds')

prop('C17', 'Sources are placed exactly where and as asked',
     'All accepted ways of giving a source (port name, list, dictionary of weights, profile) that describe the same excitation give the same fields, and the response to several ports is the weighted sum of the responses to each. Power launched at a port leaves in the direction of the port only to the extent its source type allows. A Gaussian pulse is a carrier under an envelope around its centre, and nothing before its start.',
     ['inputs', 'configurations'], 'all combinations of ports, modes, weights and source formats',
     'The tests use one format per source.',
     ['simphox/sim.py', 'simphox/parse.py', 'simphox/fdfd.py', 'simphox/utils.py'],
     [('source parsing', 'simphox/parse.py'), ('port sources', 'simphox/sim.py: SimGrid.port_source')],
     ['source arrays and fields'],
     technique='runtime monitor: equivalence of excitation formats and superposition of observed fields')

prop('C18', 'Time-domain steps conserve energy and leave states intact',
     'Without absorbing layers and sources, the discrete energy of the time-domain simulation is the same at every step for every structure and initial state; with absorbing layers it does not grow. A step is a linear function of the state it is given, leaves that state unchanged and gives the same result in numpy and jax, with and without sources.',
     ['inputs', 'histories', 'configurations'], 'all structures, initial fields, shapes, spacings, step counts and sources',
     'The tests compare two implementations of one step for fixed fields.',
     ['simphox/fdtd.py', 'simphox/sim.py', 'simphox/utils.py'],
     [('leapfrog step', 'simphox/fdtd.py: FDTD.step'), ('absorbing layer memory', 'simphox/fdtd.py'), ('Courant time step', 'simphox/fdtd.py')],
     ['states after every step'],
     technique='runtime monitor: online energy monitor at every step, differential numpy/jax, state snapshots')

prop('C19', 'Structures are painted on exactly the requested region',
     'Filling, adding components, masking and slicing a grid affect exactly the pixels of the requested region, clipped to the grid, and no others; grid shapes, cell sizes and positions follow from size and spacing for one to three dimensions. Out-of-range requests are refused or clipped, never wrapped around to another place.',
     ['inputs', 'histories'], 'all shapes, spacings, regions (inside, touching, beyond the edges), heights and sequences of paint operations',
     'The tests use a few fixed rectangles inside the grid.',
     ['simphox/grid.py', 'simphox/primitives.py', 'simphox/typing.py'],
     [('painting', 'simphox/grid.py: Grid.fill, Grid.add, Grid.set_eps'), ('slices', 'simphox/grid.py: Grid.slice, simphox/utils.py: Box')],
     ['the permittivity array after each operation'],
     technique='runtime monitor: pixel-exact reference painting over random operation histories')

prop('C20', 'Design transforms respect symmetry, masks and bounds',
     'Transformed designs have every symmetry requested, agree with the fixed structure outside the design region, stay within the bounds of the design and follow the parameters monotonically. Filtering and projection commute with translations and reflections of the parameters away from borders, and applying a symmetry or a mask twice changes nothing.',
     ['inputs', 'configurations'], 'all parameter arrays and shapes (even and odd), compatible symmetries, masks, filter radii and projection strengths',
     'The tests compare a few fixed arrays.',
     ['simphox/transform.py', 'simphox/utils.py', 'simphox/opt.py'],
     [('symmetry, mask, smoothing transforms', 'simphox/transform.py')],
     ['transformed arrays'],
     technique='runtime monitor: metamorphic relations on transformed arrays')

prop('C21', 'Optimisation records describe the iterations they belong to',
     'Every record of an inverse-design run (cost, permittivity, fields, metrics, parameters) belongs to the iteration it is filed under, the reported permittivity is that of the current parameters and the run ends with the parameters the recorded updates lead to. Recording, metrics, progress display and visualisation do not change the course of the optimisation.',
     ['histories', 'configurations', 'schedules'], 'all problems, numbers of iterations, recording intervals, metric functions and optional arguments',
     'The tests do not run an optimisation.',
     ['simphox/opt.py'],
     [('optimisation loop', 'simphox/opt.py: opt_run'), ('permittivity synchronisation', 'simphox/opt.py: OptProblem')],
     ['history returned by the run'],
     technique='runtime monitor: offline checker of recorded optimisation histories against an independent replay')

prop('C22', 'Absorbing boundaries absorb outgoing waves',
     'Waves that leave the simulated region through an absorbing boundary do not come back: the field inside equals the field of a larger domain up to a small reflection, on every side and in every dimension. Absorbing boundaries never add power.',
     ['inputs', 'configurations'], 'all source positions, directions, wavelengths, dimensions and layer thicknesses in the supported range',
     'The tests only compare operator entries of absorbing layers.',
     ['simphox/fdfd.py', 'simphox/fdtd.py', 'simphox/sim.py', 'simphox/grid.py'],
     [('stretched-coordinate absorbing layer', 'simphox/fdfd.py, simphox/fdtd.py: pml')],
     ['reflection, standing-wave ratio and power balance of fields'],
     technique='runtime monitor: reflection and power balance of observed waves')

prop('C23', 'Random initialisations follow the documented distributions',
     'Randomly initialised vector units and meshes sample the split ratios with the exponents documented for their tree depth, so that the vectors and matrices they produce are uniformly (Haar) distributed. Phases stay in their ranges, and every node of the mesh gets a sample of its own. Random errors of phases, couplers and losses are independent with the given standard deviation, constant ones equal the given value, and the mesh itself is unchanged.',
     ['inputs', 'schedules'], 'all sizes, architectures and random streams',
     'A unit test sees one draw; a distribution needs an ensemble.',
     ['simphox/circuit/forward.py', 'simphox/circuit/coupling.py', 'simphox/circuit/vector.py'],
     [('sampling of split ratios', 'simphox/circuit/forward.py: rand_theta / rand_s')],
     ['ensembles of parameters and of outputs'],
     technique='runtime monitor: statistical test of ensembles with fixed seeds and wide acceptance bounds')

prop('C24', 'Devices described by patterns are simulated as drawn',
     'A simulation (FDFD or FDTD) made from a design pattern has the size of the pattern and its boundary, the requested spacing, wavelength and absorbing layers, the core permittivity exactly where the pattern lies within its thickness, and the cladding, rib and background everywhere else; its ports are where the design places them. The circuit model of a component made from a pattern is, at every wavelength, the matrix of S-parameters measured between its ports, labelled with the ports that were asked for. The different ways to obtain S-parameters agree.',
     ['inputs', 'configurations'], 'all patterns, ports, layer stacks, spacings, boundaries, wavelengths, orders and subsets of ports and modes',
     'The tests never build a simulation from a pattern (the design library is not installed).',
     ['simphox/fdfd.py', 'simphox/fdtd.py', 'simphox/circuit/component.py', 'simphox/grid.py', 'simphox/sim.py'],
     [('grid filled with layers and the pattern', 'simphox/fdfd.py: FDFD.from_pattern; simphox/fdtd.py: FDTD.from_pattern; simphox/grid.py: Grid.add'),
      ('S-parameters of all ports at all wavelengths', 'simphox/circuit/component.py: Component.from_fdfd; simphox/fdfd.py: FDFD.sparams')],
     ['permittivity, ports and settings of the simulation', 'labelled model of the component'],
     technique='runtime monitor: simulations and models made from duck-typed patterns against an independent painter and S-parameters measured by hand')

prop('C25', 'Meshes are programmed by gradient descent on the error of their matrix',
     'The optimiser of a mesh starts at the given phases (or those of the mesh), reports at each iteration the normalised error between the target and the matrix that the mesh has at the current phases, and moves each phase as Adam does along the exact derivative of that error, with the requested step size, for every architecture, phase style, coupler error and loss, compiled or not. The mesh itself is unchanged. A mesh whose phases have drifted is brought back towards its unitary.',
     ['inputs', 'configurations', 'histories'], 'all meshes, targets (of any scale), starts and step sizes; every iteration',
     'The tests never optimise a mesh.',
     ['simphox/circuit/forward.py', 'simphox/utils.py'],
     [('cost, gradient and Adam update', 'simphox/circuit/forward.py: ForwardMesh.matrix_opt'), ('normalised error', 'simphox/utils.py: normalized_error')],
     ['cost and phases after every iteration'],
     technique='runtime monitor: every cost and update replayed from finite differences of an independent node-by-node model')

prop('C26', 'What is plotted or streamed is what was computed',
     'Plots of permittivities, fields, powers and modes show, at each position of their axes, the value computed there, with the first array axis along x, the second along y, in units of the spacing, with symmetric colours for signed fields and the right index, component and polarisation in their labels. Frames streamed during a time-domain run are the normalised fields, power and permittivity in the cross section through the chosen port, at the chosen interval; plotting and streaming leave the data and the course of the run unchanged.',
     ['inputs', 'configurations'], 'all arrays, shapes, spacings, modes, components, ports, axes and intervals',
     'The tests never plot.',
     ['simphox/viz.py', 'simphox/mode.py', 'simphox/fdtd.py'],
     [('images in data coordinates', 'simphox/viz.py: plot_field_2d, plot_power_2d, plot_eps_2d, plot_field_1d'), ('plots of modes', 'simphox/mode.py: ModeLibrary.plot_field, plot_power'), ('streamed frames', 'simphox/fdtd.py: FDTD._viz')],
     ['images and lines of the figure', 'frames received by the pipes'],
     note='Real code run under randomised workloads; the drawn artists and received frames are judged. holoviews and k3d are not installed, so their plots are not observed.',
     technique='runtime monitor: artists of drawn figures and frames received by recording pipes against the arrays they show')

prop('C27', 'Time-domain simulations settle to the frequency-domain solution',
     'A time-domain simulation driven by sources of one frequency, switched on slowly, settles to the solution of the frequency-domain simulation of the same structure and sources, at the frequency that the time step turns it into, with the same amplitude and phase of the electric and magnetic field everywhere between the absorbing layers. What a run driven at a port measures at the ports settles to the waves that the frequency-domain fields carry there.',
     ['inputs', 'configurations', 'histories'], 'all structures, sources, ports, wavelengths, spacings and absorbing layers in one to three dimensions',
     'The tests take a few time steps and never compare the two solvers.',
     ['simphox/fdtd.py', 'simphox/fdfd.py', 'simphox/sim.py', 'simphox/grid.py'],
     [('time steps and port-driven runs', 'simphox/fdtd.py: FDTD.step, FDTD.run_cw_port'), ('frequency-domain operator', 'simphox/fdfd.py: FDFD.solve, FDFD.mat')],
     ['settled fields and measurements at ports'],
     technique='runtime monitor: settled time-domain runs against the frequency-domain solution at the aliased frequency (metamorphic comparison of two solvers)')

LEVEL_NOTE = ('Real code run under randomised and adversarial workloads; every observed result judged by an independent '
              'oracle. Assurance for the cases generated (counts in the evidence); trusts numpy, scipy, jax and the oracle.')


def main():
    with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(dict(
                id=p['id'], title=p['title'], statement=p['statement'],
                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['tests'],
                anchors=dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mechanism']],
                             observe_at=p['observe'], hook_needed=None))) + '\n')
    checks = []
    for p in P:
        if not os.path.exists(os.path.join(HERE, 'harness', 'props', p['id'].lower() + '.py')):
            continue
        checks.append(dict(property=p['id'], quick_cmd=f'./run.sh {p["id"]} quick', thorough_cmd=f'./run.sh {p["id"]} thorough',
                           technique=p['technique'], level='exploration', level_note=p['note'] or LEVEL_NOTE))
    done = {c['property'] for c in checks}
    na = [dict(property=p['id'], reason='check under construction') for p in P if p['id'] not in done]
    m = dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=na,
             notes='Pure Python code base: nothing to compile, checks import /repo/simphox from the working tree. No hooks in /repo.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
    # table of planted bugs in DESIGN.md
    db = json.load(open(os.path.join(HERE, 'tools', 'planted.json')))
    rows = ['| planted bug | property | needs | caught by | at first |', '|---|---|---|---|---|']
    for d in sorted(os.listdir(os.path.join(HERE, 'seeded'))):
        meta = json.load(open(os.path.join(HERE, 'seeded', d, 'meta.json')))
        r = db.get(d, dict(first={}, now={}))
        by = ', '.join(k for k, v in r['now'].items() if v) or 'not caught'
        first = 'caught' if any(r['first'].values()) else 'missed'
        rows.append(f"| {d} | {meta['property']} | {meta['needs']} | {by} | {first} |")
    path = os.path.join(HERE, 'DESIGN.md')
    s = open(path).read()
    a, b = s.index('<!-- planted -->'), s.index('<!-- end -->')
    with open(path, 'w') as f:
        f.write(s[:a] + '<!-- planted -->\n' + '\n'.join(rows) + '\n' + s[b:])


if __name__ == '__main__':
    main()
