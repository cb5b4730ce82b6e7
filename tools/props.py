prop('C02', 'Assembled linear systems do not depend on the number of ranks or the schedule',
     'A discretised linear problem (mixed Poisson and Stokes: outer, inner, periodic; natural and essential boundary conditions; pinned dofs; an additional '
     'equation; a Jacobi preconditioner) gives the same global matrix, right hand side, shape, rank, condition number, singularity count, entries and '
     'row/column counts on any number of ranks and under any message order, up to the renumbering of its unknowns. The gathered matrix is the same '
     'in csc and csr format and when taken from the assembly cache. Solving it directly gives every rank the same solution, which satisfies the '
     'system and the pinned values and is what the unknowns then hold.',
     ['schedules', 'inputs', 'programs'],
     'every mesh, degree, boundary split, pinned dof, rank count, message order',
     SERIAL, ['msehtt/tools/linear_system', 'msehtt/tools/matrix/static', 'msehtt/tools/vector/static', 'msehtt/static/form/bi'],
     [('assembly of local matrices into a distributed one, gather to the master', 'msehtt/tools/matrix/static/local.py, global_.py'),
      ('customisations of local systems (identify rows, set values, zero rows of shared dofs)', 'msehtt/tools/matrix/static/local.py, msehtt/tools/vector/static/local.py'),
      ('boundary conditions', 'msehtt/tools/linear_system/dynamic/config.py')],
     technique=SEARCH, note='seeded search; the same program on one rank is the reference, with dense numpy oracles inside each run')

prop('C03', 'Global dofs are numbered consistently on any number of ranks',
     'For every form on every mesh, the global dofs are numbered 0..N-1 without gaps, coinciding local dofs of neighbouring elements (also of different '
     'ranks) share one number, distinct ones do not, and all ranks agree on it. Up to a renaming the numbering is the one of a serial run. Every query '
     '(locations of a global dof, representative location, composition of several numberings, boundary dofs, dof sets) names exactly the positions that '
     'the numbering has.',
     ['schedules', 'inputs'], 'every mesh type, form, degree, rank count, message order', SERIAL,
     ['msehtt/static/space/gathering_matrix', 'msehtt/tools/gathering_matrix.py', 'msehtt/static/mesh/partial'],
     [('numbering by geometric position, merged over the ranks', 'msehtt/static/space/gathering_matrix/Lambda'),
      ('queries over all ranks', 'msehtt/tools/gathering_matrix.py')],
     technique=SEARCH, note='seeded search; the geometric model of dof positions and the serial run are the oracles')

prop('C04', 'Iterative and direct linear solvers agree on all ranks and satisfy the system',
     'Every linear solver returns the bitwise same solution and convergence info on all ranks, for any rank count and message order. The residual that a '
     'GMRES/LGMRES run reports is the true residual of the returned solution; it starts from the given initial guess, decreases as the Krylov method '
     'promises, stops within its iteration limit, and info 0 means that the tolerance is reached. Direct solvers solve the system.',
     ['schedules', 'inputs', 'configurations'], 'every system, restart, tolerance, limit, initial guess, rank count, message order', SERIAL,
     ['msehtt/tools/linear_system/static/global_'],
     [('distributed Arnoldi process', 'msehtt/tools/linear_system/static/global_/solvers/mpi_py.py'),
      ('initial guess', 'msehtt/tools/linear_system/static/global_/solve.py')],
     technique=SEARCH, note='seeded search; a serial dense GMRES with reorthogonalisation and dense residuals are the oracles')

prop('C05', 'Norms, errors, integrals and reports of forms do not depend on the ranks',
     'Norms, errors, inner products, masses, matrix norms, numeric queries (values at points, extrema, element searches, counts) of forms are the same on every rank, for any '
     'number of ranks and any message order, and equal to those of a serial run; element-wise data is held by exactly one rank.',
     ['schedules', 'inputs'], 'every mesh, form, degree, time, rank count, message order', SERIAL,
     ['msehtt/static/form', 'msehtt/static/mesh'],
     [('reductions over ranks', 'msehtt/static/form/main.py, msehtt/static/form/numeric'), ('element-wise reconstruction', 'msehtt/static/space')],
     technique=SEARCH, note='seeded search; the serial run and quadrature over the union of all elements are the oracles')

prop('C06', 'Nonlinear solvers converge to the same solution on any number of ranks',
     'A time step of a nonlinear problem (Navier-Stokes) solved by Newton-Raphson or Picard iterations gives, on any number of ranks and under any message '
     'order, the residual history, convergence info and unknowns of a serial run, the same on all ranks. The iterations stop at the first residual below the '
     'tolerance or at the limit. The result satisfies essential conditions, fixed dofs and the discrete conservation laws, and is a fixed point of the other scheme too.',
     ['schedules', 'inputs', 'configurations'], 'every mesh, boundary condition, viscosity, scheme, tolerance, limit, inner solver, rank count, message order', SERIAL,
     ['msehtt/tools/nonlinear_system'],
     [('iterations and stop criterion', 'msehtt/tools/nonlinear_system/static/solve'), ('customisations', 'msehtt/tools/nonlinear_system/static/customize.py')],
     technique=SEARCH, note='seeded search; the serial run, discrete mass and energy balance and the other scheme are the oracles')

prop('C07', 'A form saved by one job is read back exactly by another job on other ranks',
     'A form saved to a file on any number of ranks and read by a later job on any other number, on the same mesh whatever the numbering or size of its elements, holds exactly the saved cochains at the saved '
     'times (all, or the newest ones asked for), added to what it held, as storing them one by one would. A form of another mesh or degree refuses the file. A save interrupted by '
     'a kill, a full disk or a torn write never makes a later read return anything but the old or the new content; other files are untouched. Saving and reading never leave a rank waiting.',
     ['crash points', 'schedules', 'inputs', 'histories'], 'every mesh, form, history of saves and reads, kill point, disk fault, rank count per life, message order',
     SERIAL + ' Saving and reading are executed by no test.', ['msehtt/static/form/main.py', 'msehtt/static/mesh/great/elements'],
     [('save, read', 'msehtt/static/form/main.py, cochain'), ('identity of elements across jobs', 'msehtt/static/mesh/great/elements/types/base.py signature')],
     technique=FAULTS, note='seeded search over histories, kill points and I/O faults; a dictionary model of forms and files is the oracle')

prop('C08', 'An iterator resumed from its cache file ends like an uninterrupted run',
     'A time marching job (iterator with a cache file) that is killed at any moment, loses writes to a torn or full disk, and is started again on any number of ranks, recomputes no '
     'iteration whose results the cache holds, computes the others in order and once per life, restores the cached objects to the state of their newest caching, never refuses to '
     'start because of a half-written cache file, and ends with the same record and the same objects as a run that was never interrupted.',
     ['crash points', 'schedules', 'inputs', 'histories'], 'every kill point, disk fault, rank count per life, iterator configuration, message order',
     'No test runs the iterator with a cache, let alone kills it.', ['tools/iterator'],
     [('cache file, restore', 'tools/iterator/main.py'), ('standard deviation of time, records', 'tools/iterator/monitor.py')],
     technique=FAULTS, note='seeded search over kill points and I/O faults; the uninterrupted run and a model of the cached state are the oracles; two open findings')

prop('C09', 'The record of an iterator survives disk errors, clock jumps and kills',
     'The record of an iterator run is complete and ordered: one row per iteration holding what the solver returned. A failing, slow or full disk or a jumping clock during the periodic record and '
     'picture writing does not change what is computed, nor let the ranks disagree; the record file on the disk always holds a prefix of the rows, of the last writing or the one in progress, and '
     'once a later writing succeeds it is complete; the run goes on.',
     ['fault sequences', 'schedules', 'crash points'], 'every I/O fault, clock jump, kill, rank count, message order',
     'No test runs the iterator with records.', ['tools/iterator'],
     [('periodic records and pictures', 'tools/iterator/monitor.py, main.py')],
     technique=FAULTS, note='seeded search over I/O faults, clock jumps and kills; the values returned by the solver are the oracle')

prop('C10', 'A parameter study killed and resumed computes every input exactly once',
     'A matrix runner (ph.run) asked to compute all combinations of three input matrices computes each once, in the documented order. Killed anywhere (also within a write) or stopped by a disk '
     'error, and resumed on any number of ranks, it computes no input whose row was complete in its file and all others, loses or invents no row, and ends with the table of '
     'an uninterrupted study, which the reader (ph.rdr) then reads on all ranks.',
     ['crash points', 'fault sequences', 'inputs', 'schedules'], 'every kill point, torn or failing write, input matrix, rank count per life',
     'No test executes the runners.', ['tools/legacy/serialRunners', 'tools/runner.py'],
     [('resuming from the text file', 'tools/legacy/serialRunners/_runner_.py'), ('order of the inputs', 'tools/legacy/serialRunners/INSTANCES/matrix3d_input_runner.py')],
     technique=FAULTS, note='seeded search over kill points and I/O faults; the uninterrupted study and a textual reading of the file are the oracles')

prop('C11', 'Exported data and pickles hold what a serial run would hold',
     'Fields and forms exported by any number of ranks (dds-rws files, grouped and named; time series of them; vtk and xvtk files; pickles by ph.pk) hold, once each, the values a serial run holds '
     'on every element, and ph.read, ph.read_tsf and unpickling give them back on any number of ranks. A full disk, an error or a kill while exporting makes the export fail or '
     'leaves an unreadable file, never one with other data; earlier files stay as they are; no rank is left waiting on a disk that works.',
     ['crash points', 'schedules', 'inputs', 'histories'], 'every mesh, form, time, export format, kill point, disk fault, rank count per life, message order',
     SERIAL + ' No test exports from msehtt.', ['msehtt/static/form/export', 'tools/dds', 'src/config.py', '__init__.py'],
     [('export of forms', 'msehtt/static/form/export'), ('region-wise structured data, merged over ranks', 'tools/dds/region_wise_structured.py, region_wise_structured_group.py'),
      ('time series', 'tools/dds/time_series.py'), ('ph.pk, ph.read', '__init__.py')],
     technique=FAULTS, note='seeded search; serial reconstructions of the same fields and an independent parser of vtu files are the oracles')

prop('C12', 'The mesh is distributed over the ranks completely and without overlap',
     'Every element of a mesh is held by exactly one rank and no rank is left without elements when there are at least as many elements as ranks; too many ranks are '
     'refused on all ranks. The geometry, neighbours, boundary and boundary sections (and their complements) seen by all ranks together are those of a '
     'serial run. A mesh saved to a file is read back the same on any number of ranks.',
     ['schedules', 'inputs'], 'every mesh type and layout, rank count, message order, boundary section', SERIAL,
     ['msehtt/static/mesh/great', 'msehtt/static/mesh/partial'],
     [('element distribution', 'msehtt/static/mesh/great/main.py, config'), ('boundary sections', 'msehtt/static/mesh/partial/boundary_section')],
     technique=SEARCH, note='seeded search; the serial run and geometric models of boundary, normals and sections are the oracles')

prop('C13', 'What a program computes does not depend on the session before it',
     'A program gives the same values (norms, errors, numberings, matrices, solutions, residuals) on any number of ranks whether it runs first in a session or after others: on other meshes, '
     'degrees, element sizes, fields and boundary conditions, with or without clearing in between, wherever objects are collected and addresses reused. No cache takes one object for another '
     'and no operation changes what a cache holds.',
     ['histories', 'schedules', 'inputs'], 'every sequence of programs, moment of garbage collection, rank count, message order',
     'Caches are keyed by addresses, names, rounded sizes and signatures; a test runs one program per process and no msehtt program at all.',
     ['tools/frozen.py', 'src/wf/mp', 'msehtt/static', 'msehtt/tools/matrix/static'],
     [('signatures of elements and local matrices', 'msehtt/static/mesh/great/elements/types, msehtt/tools/matrix/static/local.py'),
      ('caches of parsed terms and assembled systems', 'msehtt/static/form, msehtt/tools/linear_system'), ('representations', 'tools/frozen.py')],
     technique=SEARCH, note='seeded search over sequences of programs, garbage collections, schedules; each program alone in a fresh serial session is the reference')

prop('C14', 'Cochains stored by time behave like a dictionary of times on every rank',
     'After any history of reducing, assigning, combining, scaling, interpolating in time, overwriting, caching, restoring and cleaning cochains of forms (also of forms sharing a space), with any '
     'auto-cleaning setting, each form holds exactly the times and values that the operations stored and did not remove; times that agree to eight decimals are one; the newest '
     'time is the largest present; nothing stored changes by itself; global values (norms, residuals, single dofs) derived from them are the same on all ranks and equal to those of a serial run.',
     ['histories', 'schedules', 'inputs'], 'every history of operations, mesh, form, rank count, message order, collection of garbage', SERIAL,
     ['msehtt/static/form/cochain', 'msehtt/static/form/main.py', 'src/config.py'],
     [('storage by time, auto cleaning', 'msehtt/static/form/cochain/main.py'), ('interpolation in time', 'msehtt/static/form/main.py')],
     technique=SEARCH, note='seeded search over histories; a dictionary model and the serial run are the oracles')

prop('C15', 'Renewing an adaptive mesh carries forms over as if nothing had happened',
     'After any sequence of refining, coarsening and splitting an adaptive mesh, each renewed form holds exactly the times it held before; elements that stayed keep their values; a constant field is '
     'still this constant and a shared dof has one value (local interpolation); old forms are cleaned when, and only when, asked; mesh, numbering and newly reduced cochains are those of a mesh refined this way '
     'from the start, and all of it is the same on every rank count and equal to a serial run.',
     ['histories', 'schedules', 'inputs'], 'every history of renewals (trace functions, splitting, method, selection of forms), base mesh, form, rank count, message order', SERIAL,
     ['msehtt/adaptive', 'msehtt/static/mesh/great'],
     [('renewal of meshes', 'msehtt/adaptive/main.py'), ('renewal of cochains', 'msehtt/adaptive/form/renew'), ('refining and splitting', 'msehtt/static/mesh/great/main.py, ___rf___, ___ts___')],
     technique=SEARCH, note='seeded search over histories; the same history run serially, a fresh mesh of the last refinement, and constant fields are the oracles')

prop('C16', 'Multigrid levels are ordinary meshes, and cycles solve the problem',
     'Each level of a multigrid mesh (single or several uniformly refined levels), with its forms, boundary sections and systems, is the static mesh refined so often without multigrid, on any number of ranks; '
     'elements of a finer level partition those of a coarser one; restricting the reduced cochain of a field (nested levels) gives its reduction on the coarser level and prolonging approximates it; a '
     'cycle that reports success leaves a residual below its tolerance on the finest level, every level holds the restriction of the solution, and all of it equals a serial run.',
     ['inputs', 'schedules', 'histories'], 'every base mesh, refinement, level, form, operator, cycle parameters, boundary condition, rank count, message order', SERIAL,
     ['msehtt/multigrid', 'msehtt/static/mesh/great', 'msehtt/static/form/numeric/main.py'],
     [('levels', 'msehtt/multigrid/mesh'), ('restriction and prolongation', 'msehtt/multigrid/form'), ('cycles', 'msehtt/multigrid/tools')],
     technique=SEARCH, note='seeded search; the same mesh, forms and systems without multigrid, reductions of fields, the residual of the parallel solution and the serial run are the oracles')

prop('C17', 'Nonlinear terms of forms are the integrals they denote, on any number of ranks',
     'Every supported nonlinear term of forms (products, cross products, with or without derivatives, logarithms), as a vector for any of its test forms, as a matrix for any pair of them, locally or '
     'assembled, and as a term of a stepped weak formulation, evaluates the integral it denotes of the forms as they are at the requested times; the result does not depend on the number of ranks, '
     'the message order, or on what terms, meshes and forms the session evaluated before.',
     ['inputs', 'schedules', 'histories'], 'every term, choice of spaces, test forms and times, mesh, degree, order of evaluations in a session, rank count, message order', SERIAL,
     ['msehtt/static/form/addons', 'msehtt/main.py'],
     [('computers of nonlinear terms', 'msehtt/static/form/addons'), ('known forms in weak formulations', 'src/wf/mp/main.py')],
     technique=SEARCH, note='seeded search; quadrature of reconstructed forms, consistency of matrices and vectors, and the serial run alone are the oracles; curved elements: within the accuracy of few points')

prop('C18', 'A staggered march of two systems conserves its invariants and survives restarts',
     'Marching coupled linear systems in staggered time (dual-field Navier-Stokes: each system uses the vorticity the other one computed half a step before) keeps mass exactly, vorticity equal to the curl '
     'of the velocity, total circulation zero, prescribed dofs at their values and the discrete energy balance, on any number of ranks; a job that saves its forms, is killed or loses its disk at any point and '
     'goes on from the saved forms on another number of ranks ends with the unknowns of an uninterrupted serial run, at the same times.',
     ['inputs', 'schedules', 'crash points', 'histories'], 'every mesh, degree, viscosity, step size, flow, rank count, message order, crash point and disk fault', SERIAL,
     ['msehtt/static/form', 'msehtt/tools/linear_system', 'src/wf/mp', 'src/time_sequence.py'],
     [('known forms and half time steps', 'src/wf/mp, src/time_sequence.py'), ('saved forms', 'msehtt/static/form/main.py'), ('systems', 'msehtt/tools/linear_system')],
     technique=SEARCH, note='seeded search; conservation laws of the scheme and the uninterrupted serial run are the oracles')

prop('C19', 'Linear systems, matrices and vectors of one session do not change each other',
     'Several linear systems on the same forms, with different boundary conditions, boundary values and pinned dofs, solved in any order and repeatedly in one session, each give the solution they give '
     'alone in a serial session, with their prescribed dofs at the prescribed values. Customizing a mass matrix (rows made zero or identity) changes this matrix only, as stated, in every element that shares '
     'the row. Whatever is computed from local matrices and vectors (sums, negatives, multiples, transposes, inverses, products, blocks, assembly in csr and csc) is what dense algebra of their elements gives, and '
     'no operand is changed by it, on any number of ranks.',
     ['inputs', 'schedules', 'histories'], 'every set of systems, order of solves, customization, expression, mesh, degree, rank count, message order', SERIAL,
     ['msehtt/tools/matrix', 'msehtt/tools/vector', 'msehtt/tools/linear_system', 'msehtt/static/implementation_array_parser.py'],
     [('caches of local matrices', 'msehtt/tools/matrix/static/local.py'), ('customizations', 'msehtt/tools/matrix/static/local.py, msehtt/tools/vector/static/local.py'),
      ('arrays shared between systems', 'msehtt/static/implementation_array_parser.py')],
     technique=SEARCH, note='seeded search; dense algebra and each operation alone in a serial session are the oracles')

prop('C20', 'Boundary conditions hold on every section, however the boundary is split',
     'The boundary of a mesh can be split into any number of sections, each described by normal vectors, lines, segments, polygons, curves or as what others leave; every face is in exactly the section it '
     'should be, on any number of ranks. A linear system with essential and natural conditions on them (each with its own data, given in any order) is the one with a single section per kind of condition '
     'and the same data: nothing of a section is lost, counted twice or taken from another section, also where sections or faces of one element meet.',
     ['inputs', 'configurations', 'schedules'], 'every split, description, kind and data of the sections, order, problem, mesh, degree, rank count, message order', SERIAL,
     ['msehtt/static/mesh/partial', 'msehtt/static/implementation_array_parser.py', 'msehtt/static/form/bi', 'msehtt/tools/linear_system/dynamic'],
     [('faces of a section', 'msehtt/static/mesh/partial/main.py, tools/miscellaneous/geometries/m2n2.py'), ('natural conditions', 'msehtt/static/implementation_array_parser.py, msehtt/static/form/bi'),
      ('essential conditions', 'msehtt/tools/linear_system/dynamic/bc.py')],
     technique=SEARCH, note='seeded search; a serial run with one section per kind of condition and data given piece by piece is the oracle')

prop('C21', 'Pictures show the whole result on any number of ranks; the picture cache is kept',
     'Pictures of meshes, boundary sections, fields, degrees of freedom, functions and data sets show on any number of ranks what they show in a serial run: every side of every element or section once per '
     'element, every value at its place, nothing twice, drawn by one rank into the file asked for. Drawing changes neither the forms nor the data set it is given, and every mesh and section the library builds '
     'can be drawn. With the picture cache on, the folder of the current session holds exactly its pictures in order, the archive keeps the newest sessions complete and removes the oldest first, also when '
     'sessions were killed or lost their disk while drawing.',
     ['inputs', 'schedules', 'crash points', 'histories'], 'every mesh, field, kind of picture and options, rank count, message order, sequence of sessions, crash point and disk fault', SERIAL,
     ['msehtt/static/mesh/great/visualize', 'msehtt/static/mesh/partial', 'msehtt/static/form/visualize', 'msehtt/static/form/dofs/visualize', 'tools/matplot', 'tools/dds', 'src/config.py'],
     [('outlines of elements', 'msehtt/static/mesh/great/elements/types'), ('gathering on the master rank', 'msehtt/static/mesh/great/visualize/matplot.py, msehtt/static/mesh/partial/*/visualize'),
      ('picture cache', 'src/config.py')],
     technique=FAULTS, note='seeded search; what is drawn is recorded in place of the rendering and compared with the serial run and with the faces of the elements; the cache against a model')

PURE = ('a pure function of its arguments in one process: no scheduling, clock, I/O, randomness or second party for a simulator to decide; '
        'simulated schedules and faults would add nothing to calling it, so this family of technique does not apply')
na('C41', 'Weak form derivations preserve the meaning of the equations',
   'Integration by parts, splitting, rearranging, time discretisation and matrix proxies turn a PDE into an algebraically equivalent form.',
   ['programs'], 'every PDE and sequence of derivation steps', 'doctests sample a few derivations', ['src/wf', 'src/pde.py', 'src/algebra'],
   [('derivations', 'src/wf/derive.py')], PURE)
na('C42', 'The discrete de Rham complex is exact and commutes with reduction',
   'd after d is zero, and reducing the exterior derivative of a field equals the discrete derivative of its reduction, for every element, degree and field.',
   ['inputs'], 'every space, degree, element map and field', 'tests sample a few degrees and maps', ['msepy/tools', 'msehtt/static/space'],
   [('incidence matrices and reductions', 'msehtt/static/space/incidence_matrix, reduce')], PURE)
na('C43', 'Quadrature and basis polynomials are exact to their degree',
   'Quadrature rules integrate polynomials up to their degree exactly; nodal and edge bases satisfy their Kronecker properties.',
   ['inputs'], 'every degree and node type', 'doctests sample a few', ['tools/quadrature.py', 'msepy/tools/polynomials.py'], [('quadrature', 'tools/quadrature.py')], PURE)
na('C44', 'Vector calculus wrappers compute the operators they name',
   'gradient, curl, divergence, cross and dot products of time-space functions equal the analytic ones.',
   ['inputs'], 'every smooth field', 'tests sample single fields', ['tools/functions', 'tools/numerical'], [('operators', 'tools/functions/time_space')], PURE)
na('C45', 'The serial msepy implementation discretises correctly',
   'msepy assembles and solves the discrete systems of the formulations with the expected convergence order.',
   ['inputs'], 'every mesh and degree', 'tests sample a few examples', ['msepy'], [('serial implementation', 'msepy')],
   'msepy runs in one process only (it refuses more than one rank), without clock, randomness or concurrency; its only I/O, form.saveto/read, is covered by C11')
na('C46', 'Abstract time sequences do exact step arithmetic',
   'Half steps, fractions and intervals of a specified time sequence fall on the documented instants.',
   ['inputs'], 'every sequence specification', 'doctests sample a few', ['src/time_sequence.py'], [('abstract and specified sequences', 'src/time_sequence.py')], PURE)
