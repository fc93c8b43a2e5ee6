"""Writes properties.jsonl (kept as code so that wording and anchors are edited in one place)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "Exchange delivers each particle exactly once to every domain it touches",
  "For any positions, smoothing lengths, domain edges (empty domains included), assignment of domains to ranks, and number of ranks, decomposing and exchanging delivers each particle to every rank owning a domain that its smoothing volume intersects, exactly once per rank, and to no rank whose domains it does not touch. In a periodic box the volume wraps around the box, however wide it is; in a non-periodic one a volume lying outside the box goes nowhere. Nothing is lost or invented: every received particle was supplied by some rank.",
  ["inputs", "configurations", "schedules"],
  "every particle set and its distribution over ranks, every grid of domains (fewer, as many, or more domains than ranks; zero-width domains; custom assignment), every per-direction smoothing and coordinate transform, every order in which ranks reach the collectives",
  "The tests use one rank (or up to 4 under an MPI runner that is absent here) with a handful of positions and the default assignment of domains to ranks.",
  ["pmesh/domain.py", "pmesh/_domain.pyx"],
  [("GridND.decompose: bounding domains per direction", "pmesh/domain.py:GridND.decompose"), ("gridnd_fill: enumerates the patch and drops duplicate targets", "pmesh/_domain.pyx"), ("Layout: transposed counts", "pmesh/domain.py:Layout.__init__")],
  ["result of GridND.decompose(...).exchange(...) on every rank"])
p("C02", "Exchanged columns arrive intact and aligned",
  "Whatever arrays are exchanged with one layout (any dtype, any trailing shape, one or many columns, packed or one at a time, any memory layout, in any number of calls), the values a rank receives for a particle are bit-for-bit those its owner supplied, and every column received is in the same particle order. The arrays passed in are not modified, nor later changed by the arrays returned.",
  ["inputs", "histories", "schedules"],
  "every sequence of exchanges on one layout, every dtype and shape, every schedule of the ranks and every buffering choice of the MPI library",
  "Tests exchange one or two float columns on one schedule of a real MPI with eager messages; aliasing and buffer reuse show only under other completion orders.",
  ["pmesh/domain.py"],
  [("pack_arrays / promote", "pmesh/domain.py"), ("Layout._exchange with Alltoallv on a contiguous byte type", "pmesh/domain.py:Layout._exchange")],
  ["result of Layout.exchange"])
p("C03", "Gather returns ghosts to their origin in the original order",
  "Gathering data of the exchanged particles returns, on each rank, one entry per original particle in original order: the sum, mean, ufunc reduction, or any one of the values held by the ranks that received it, the value held on the rank itself for 'local', and each of them separately for 'all'. A particle that was delivered nowhere takes no part and does not disturb the values of others. The out= array, when given, holds exactly the result that would have been returned without it.",
  ["inputs", "configurations", "schedules"],
  "every layout, every value held by the ghosts, every mode, trailing shape and dtype, with and without out=, including ranks holding no particle",
  "Tests gather on one or a few ranks with every particle delivered somewhere and mostly equal ghosts.",
  ["pmesh/domain.py"],
  [("Layout.gather", "pmesh/domain.py:Layout.gather"), ("bincountv", "pmesh/domain.py:bincountv")],
  ["result of Layout.gather"])
p("C04", "Every point of the box is primary on exactly one rank",
  "Every point of a periodic box (also one given outside it, before wrapping, however close to a boundary and in whatever precision or array-like it is given) and every point inside a non-periodic box is primary on exactly one rank, the rank to which a decomposition with no smoothing delivers it; a point outside a non-periodic box is primary nowhere. This also holds after domains are reassigned by load balancing, of this grid or of another made with its assignment.",
  ["inputs", "configurations", "histories"],
  "every position (negative, beyond the box, on an edge, of either float precision), every grid of domains and every history of load balancing",
  "Tests check a few points of a one-rank grid; ownership is a statement about what all ranks say together.",
  ["pmesh/domain.py", "pmesh/_domain.pyx"],
  [("GridND.isprimary over the primary regions of a rank", "pmesh/domain.py:GridND.isprimary"), ("GridND._update_primary_regions after a change of assignment", "pmesh/domain.py:GridND._update_primary_regions")],
  ["GridND.isprimary on every rank; GridND.decompose(smoothing=0)"])
p("C05", "Domain load is counted globally and balancing is agreed by all ranks",
  "The load reported for each domain is the global number of particles in it raised to the requested power, identical on all ranks. When there are more domains than ranks, load balancing gives every domain to one valid rank, the same on all ranks, leaves no rank idle while another holds two loaded domains, and never makes the busiest rank's load exceed what assigning the heaviest remaining domain to the least loaded rank gives. Decompositions made afterwards follow the new assignment, those made before stay usable. The exchange cost of a layout is, on every rank, the number of items each rank sends elsewhere.",
  ["inputs", "configurations", "histories", "schedules"],
  "every particle distribution (including none on some ranks), every grid with more domains than ranks, every sequence of load / loadbalance / decompose / exchange / gather",
  "The one test of load balancing checks a cost on a fixed sample.",
  ["pmesh/domain.py"],
  [("GridND.load: bincount and allreduce", "pmesh/domain.py:GridND.load"), ("GridND.loadbalance: greedy heap", "pmesh/domain.py:GridND.loadbalance")],
  ["GridND.load, GridND.loadbalance, GridND.DomainAssign and exchange afterwards"])
p("C06", "A uniform decomposition is valid for every box and rank count",
  "For every positive box size, in any units, and every number of ranks, the uniform grid has no more domains than ranks, at least one in each direction, edges rising from zero to the box size, is the same on all ranks, depends only on the proportions of the box, and delivers every particle.",
  ["inputs", "configurations"],
  "every box (any aspect ratio, very large or far below one), every rank count, 1 to 4 dimensions",
  "One test with one box and 4 ranks.",
  ["pmesh/domain.py"],
  [("GridND.uniform", "pmesh/domain.py:GridND.uniform")],
  ["GridND.uniform(...) edges, shape and exchange"])
p("C07", "A wrong-length argument is refused on every rank and nothing hangs",
  "If on any subset of ranks the data given to exchange or gather does not have the length (or the trailing shape) the layout requires, every rank gets an error, none waits for another, and the layout then still works for correct data.",
  ["inputs", "schedules", "fault_sequences"],
  "every subset of ranks at fault, every operation and packing, every interleaving",
  "Unit tests on one rank cannot see a rank left waiting.",
  ["pmesh/domain.py"],
  [("allgather of the length test before the exchange", "pmesh/domain.py:Layout._exchange, Layout.gather"), ("promote", "pmesh/domain.py:promote")],
  ["exceptions raised by Layout.exchange / Layout.gather on every rank"])
p("C08", "An operation that fails in communication can be repeated on the same objects",
  "If a communication call inside decompose, exchange, gather, paint, readout, a transform or a collective query fails on all ranks, the call raises, objects that existed before it (layouts, grids, meshes, input arrays and fields) are unchanged, and repeating it gives what an undisturbed run gives, with nothing delivered or added twice.",
  ["fault_sequences", "histories", "schedules"],
  "every position of the failing communication call within the operation, every operation, repeated failures",
  "No test injects a communication failure.",
  ["pmesh/domain.py", "pmesh/pm.py"],
  [("state is assigned only after communication completed; inputs are copied before they are shuffled", "pmesh/domain.py:Layout, pmesh/pm.py:Field")],
  ["results of the repeated operation compared with an undisturbed run"])
p("C09", "Painting on many ranks equals painting on one",
  "For any particles, masses, window, window scaling, gradient direction, mesh, box, process mesh and distribution of the particles over ranks, painting with a layout adds to the distributed mesh exactly what painting all particles on one rank adds to the whole mesh, up to rounding, and the total over the mesh is the total mass. With hold the previous content is kept and added to; without it earlier content has no effect.",
  ["inputs", "configurations", "histories", "schedules"],
  "every particle set and distribution, window, mesh (down to a few cells per rank), process mesh and schedule, every history of the target field",
  "The multi-rank tests compare at most 4 ranks on fixed meshes and are not runnable with one rank; stale content and neighbours that are also periodic images need particular meshes.",
  ["pmesh/pm.py", "pmesh/window.py", "pmesh/domain.py", "pmesh/_window.pyx", "pmesh/_window_generics.h"],
  [("ParticleMesh.paint with layout", "pmesh/pm.py:ParticleMesh.paint"), ("ParticleMesh.decompose smoothing from window support", "pmesh/pm.py:ParticleMesh.decompose"), ("Affine translation to the local origin", "pmesh/window.py:Affine")],
  ["ParticleMesh.paint result assembled over ranks"])
p("C10", "Reading out on many ranks equals reading out on one",
  "For any field, positions, window, window scaling, gradient direction, mesh, process mesh and distribution of the positions over ranks, reading out with a layout returns to each rank, in its own order, the values that reading the whole mesh on one rank gives for its positions, up to rounding. The field and the positions are not modified, and out= receives the same values.",
  ["inputs", "configurations", "schedules"],
  "every field, position set and distribution, window, mesh, process mesh and schedule",
  "As for painting; tests use few ranks and particular meshes.",
  ["pmesh/pm.py", "pmesh/window.py", "pmesh/domain.py", "pmesh/_window.pyx"],
  [("RealField.readout with layout: exchange, local readout, gather by sum", "pmesh/pm.py:RealField.readout")],
  ["RealField.readout on every rank"])
p("C11", "Paint and readout derivatives are mutually adjoint on any number of ranks",
  "The vector-Jacobian products of paint and readout are the adjoints of their Jacobian-vector products, and the Jacobian-vector products agree with finite differences, in the global inner products over all ranks; the same holds for the derivative pairs of the transforms and of the complex inner product. Results do not depend on how particles are distributed.",
  ["inputs", "configurations", "schedules"],
  "every field, particle set, direction and distribution over ranks",
  "Gradient tests run with a fixed mesh and distribution (and are among those that cannot run here).",
  ["pmesh/pm.py"],
  [("paint_vjp, paint_jvp, readout_vjp, readout_jvp, r2c_vjp, c2r_vjp, cdot_vjp", "pmesh/pm.py")],
  ["inner products assembled over ranks"])
p("C12", "Distributed transforms are the Fourier transform and undo each other",
  "On any process mesh the forward transform of a field, in either output layout, in place or not, is its discrete Fourier transform divided by the number of mesh points at the modes each rank holds, and the backward transform undoes it, for real and complex meshes. An out-of-place transform leaves its input unchanged, and buffers of other fields are never touched.",
  ["inputs", "configurations", "histories", "schedules"],
  "every mesh shape, process mesh, dtype, layout and order of transforms sharing buffers",
  "Tests compare round trips on fixed meshes and few ranks; wrong normalisation on one path or a destroyed input needs a particular path.",
  ["pmesh/pm.py"],
  [("RealField.r2c / BaseComplexField.c2r choose the plan by buffer overlap", "pmesh/pm.py:RealField.r2c"), ("plans per layout and in-place flag", "pmesh/pm.py:ParticleMesh.__init__")],
  ["values of r2c/c2r/cast assembled over ranks"])
p("C13", "Global element access is collective, agreed, and keeps the field Hermitian",
  "Reading a global index (negative indices included) returns to every rank the value stored at that element. Setting a global index changes that element and, for a Fourier-space field, its conjugate where stored, and nothing else, on whichever ranks hold them; every rank gets the value actually stored, and self-conjugate modes stay real.",
  ["inputs", "configurations", "histories"],
  "every index, value, field type, layout of the modes over ranks and sequence of accesses",
  "Tests touch a few indices on few ranks; dual modes owned by another rank depend on the process mesh.",
  ["pmesh/pm.py"],
  [("Field.cgetitem / csetitem / _ctol", "pmesh/pm.py:Field")],
  ["cgetitem/csetitem return values and assembled field"])
p("C14", "Ravel, unravel and transpose move every mesh element exactly once",
  "Ravelling a field gives, concatenated in rank order, the elements of the global array in C order, into a new array, a given one, or in place; unravelling is its inverse from any distribution of the flat values over ranks, and transposing a real-valued field permutes the axes of the global array. No element is lost, duplicated or altered, ravelling into another array leaves the field unchanged, and values whose total number is not that of the mesh, or an output of another size, are refused on every rank.",
  ["inputs", "configurations", "schedules"],
  "every field type, mesh, process mesh and distribution of flat values (including ranks with none)",
  "Tests use few ranks and equal distributions.",
  ["pmesh/pm.py"],
  [("Field.ravel / Field.unravel via global sorting", "pmesh/pm.py:Field.ravel"), ("RealField.ctranspose", "pmesh/pm.py:RealField.ctranspose")],
  ["flat arrays and assembled fields over ranks"])
p("C15", "Global sums, means, norms and inner products are agreed and complete",
  "Sum, mean, norm and inner product of distributed fields are identical on all ranks and equal, up to rounding, those of the assembled global array, where for a compressed complex field every mode that is not stored is counted through its conjugate, with any metric and norm; real-space and Fourier-space inner products agree. The operands are not modified.",
  ["inputs", "configurations", "schedules"],
  "every field, mesh (odd and even), process mesh including ranks with no cells, layout and metric",
  "Tests compare a couple of configurations; forgotten modes on another rank or an unequal last axis are not sampled.",
  ["pmesh/pm.py"],
  [("csum, cmean, cnorm, cdot, _expand_hermitian", "pmesh/pm.py")],
  ["return values on every rank"])
p("C16", "White noise depends on the seed and mesh only, not on the decomposition",
  "White noise of a given seed and mesh has the same value at every mode for every number of ranks, process mesh and field layout, and for real-space output; it is Hermitian, its modes are complex Gaussian numbers of unit mean square and uniform phase of which no two independent ones share a value, it has the requested mean at the zero mode, unit modulus elsewhere when unitary is asked for, and does not depend on, or disturb, any other random state or earlier call. In three dimensions a finer mesh of the same seed keeps the modes of a coarser one.",
  ["inputs", "configurations", "histories"],
  "every seed, mesh, process mesh, layout and history of calls",
  "Tests compare some splits of one mesh in one process.",
  ["pmesh/pm.py", "pmesh/whitenoise.py", "pmesh/_whitenoise.pyx", "pmesh/_whitenoise_generics.h", "pmesh/_whitenoise_imp.c"],
  [("seed table indexed by global mode; each rank fills only its slice", "pmesh/_whitenoise_generics.h"), ("ParticleMesh.generate_whitenoise", "pmesh/pm.py")],
  ["generate_whitenoise assembled over ranks"])
p("C17", "Creating, sharing and dropping meshes stays consistent on all ranks",
  "In any sequence of creating, reshaping, respawning on other communicators, using and dropping meshes, with garbage collected at different times on different ranks, every creation completes on all its ranks, each mesh has the geometry, dtype, window and communicator asked for, and works as if it were the only one. Creating equal meshes again while one is alive takes no further communicators, and dropping them releases what they took.",
  ["histories", "schedules", "configurations"],
  "every history of mesh life cycles with independent garbage-collection times per rank, reuse of communicator handles, and limited communicators",
  "A leak test on one rank cannot show ranks that disagree on whether a cached plan still lives.",
  ["pmesh/pm.py"],
  [("weak cache of process meshes and plans, agreed by allgather", "pmesh/pm.py:ParticleMesh.__init__"), ("reshape / respawn", "pmesh/pm.py")],
  ["completion, attributes, results and communicator counts"],
  [dict(name="_pm_cache", meaning="per-process weak cache of process mesh and plans", where="pmesh/pm.py")])
p("C18", "Mesh coordinates and uniform particles cover each mesh point once",
  "Over all ranks, mesh coordinates and the uniform particle grid list every mesh point exactly once, at the position of the point plus the requested shift, with identifiers that are unique and the same for every decomposition; each point lies in the primary region of its rank when unshifted.",
  ["inputs", "configurations"],
  "every mesh, box, process mesh (including ranks with no cells), shift and dtype",
  "Tests use few ranks and cubic meshes.",
  ["pmesh/pm.py"],
  [("ParticleMesh.mesh_coordinates / generate_uniform_particle_grid", "pmesh/pm.py")],
  ["returned coordinates and ids over ranks"])
p("C19", "Co-array transfers deliver the values present at synchronisation",
  "When all images synchronise, every pull leaves in the local array the value the remote image had, and every push leaves in the remote array the value given, exactly once, for any pattern of pulls and pushes of slices of the same co-array between any images, itself included; where several pulls by one image, or several pushes by one image to the same image, meet in one place, the one asked for last is kept; synchronising with a subset of images completes exactly the operations with those images and keeps the others pending. No image waits forever when all take part, whatever the buffering of messages.",
  ["schedules", "histories", "inputs"],
  "every program of pulls, pushes and syncs in which only operations of one kind by one image have overlapping targets, every schedule, every choice of eager or rendezvous messages",
  "The module has no collected test; its two demonstration functions run one pattern.",
  ["pmesh/coarray.py"],
  [("coameta._solve exchanges the operation lists", "pmesh/coarray.py"), ("coarray.sync posts non-blocking operations and serves the requests of others", "pmesh/coarray.py:coarray.sync")],
  ["contents of co-arrays after sync"])
p("C20", "Rotated sections run one rank at a time in rank order",
  "Bodies run inside a rotator are executed by one rank at a time in increasing rank order whatever the delays of the ranks, also when a body raises, after which all ranks continue, and rotators can be used repeatedly. A function restricted to the root runs once, on the root only, and every rank receives its result, or an error if it raised.",
  ["schedules", "fault_sequences"],
  "every interleaving and stall of the ranks, any body raising, repeated and nested with other collectives",
  "No test; overlap can only be seen under adverse schedules.",
  ["pmesh/tools.py"],
  [("Rotator.__enter__/__exit__ barriers", "pmesh/tools.py:Rotator"), ("FromRoot", "pmesh/tools.py:FromRoot")],
  ["recorded enter and leave events of the bodies; return values"])
p("C21", "Timers accumulate the time spent inside their sections",
  "A timer's recorded time is the sum over its completed sections (which are not nested in each other) of the clock at leaving minus the clock at entering, including sections that end in an exception, separately per key and per rank, and reading or printing it changes nothing.",
  ["histories", "schedules"],
  "every sequence of sections over keys and every behaviour of the clock and of the schedule while ranks wait inside sections",
  "No test; real clocks cannot be compared exactly.",
  ["pmesh/tools.py"],
  [("Timer.__enter__/__exit__", "pmesh/tools.py:Timer"), ("Timers", "pmesh/tools.py:Timers")],
  ["Timer.spent against the simulated clock"])
p("C22", "Resampling between meshes does not depend on the decomposition",
  "Fourier resampling, upsampling and downsampling a field to another mesh, and previewing it as a full or projected array, give the same global result for every number of ranks and process mesh. Fourier resampling keeps every mode below both Nyquist frequencies and zeroes the rest (to an equal mesh it is the identity), also between meshes of real and of complex fields; a preview without change of resolution is the field, summed over dropped axes, on every rank. Upsampling reads the source out at the points of the target, downsampling paints the source at its own points onto the target; windows that conserve mass then keep the total or, if asked, the mean.",
  ["inputs", "configurations", "schedules"],
  "every field, pair of meshes, window, field type, axes and process mesh",
  "Tests use few ranks and fixed mesh pairs.",
  ["pmesh/pm.py"],
  [("Field.resample: index table and global take", "pmesh/pm.py:Field.resample"), ("ParticleMesh.upsample/downsample", "pmesh/pm.py"), ("Field.preview", "pmesh/pm.py:Field.preview")],
  ["assembled output fields; preview on every rank"])
p("C23", "Line integral convolution does not depend on the decomposition",
  "The line integral convolution of given vector fields gives the same image for every number of ranks and process mesh, leaves its inputs unchanged, and returns the texture plus its kernel-weighted sum along the lines in both directions, so that a constant texture gives the same multiple of that constant at every point.",
  ["inputs", "configurations", "schedules"],
  "every vector field, texture, length, step and process mesh",
  "One test checks that it runs.",
  ["pmesh/lic.py", "pmesh/pm.py"],
  [("lic: stepping particles with readout through layouts", "pmesh/lic.py")],
  ["assembled image"])
p("C24", "Groups of ranks with their own communicators do not disturb each other",
  "Disjoint or nested groups of ranks using grids, layouts, meshes (legacy ones too), gradient programs, rotated sections and co-arrays on their own communicators at the same time each obtain what they would obtain alone, whatever the other groups do and in whatever order; communication stays within the communicator an object was made with.",
  ["schedules", "configurations"],
  "every partition of the ranks into groups, every pair of workloads, every interleaving, failure or absence of the other groups",
  "Tests run one workload on one communicator at a time.",
  ["pmesh/domain.py", "pmesh/pm.py", "pmesh/coarray.py", "pmesh/tools.py", "pmesh/abopt.py", "pmesh/lic.py", "pmesh/particlemesh.py", "pmesh/transfer.py"],
  [("every collective uses self.comm", "pmesh/domain.py, pmesh/pm.py"), ("ParticleMesh.respawn", "pmesh/pm.py:ParticleMesh.respawn")],
  ["results per group; communicator of every recorded message"])
p("C25", "Every rank makes the same collective calls, however work is distributed",
  "In any program of domain, mesh and field operations called by all ranks, all ranks go through the same sequence of collectives with matching arguments, whatever share of the particles or cells each holds (none included) and however late any rank is, so that no operation hangs and each ends on all ranks. No rank-dependent resource (datatype, communicator) is left behind by a completed operation.",
  ["schedules", "inputs", "configurations"],
  "every program, every distribution (empty ranks, all on one rank), every schedule and stall",
  "A hang depends on data held by other ranks; the tests' data is on all ranks or on one.",
  ["pmesh/domain.py", "pmesh/pm.py"],
  [("collectives are called unconditionally on all ranks", "pmesh/domain.py, pmesh/pm.py")],
  ["recorded collective calls, completion and live handles"])
p("C26", "The legacy mesh interface gives decomposition-independent results",
  "The deprecated mesh interface, used through paint, forward transform, transfer functions, backward transform and readout, gives for any number of ranks what it gives on one, counts each mode once in its power spectrum on every rank, and its stack of saved fields restores what was saved.",
  ["inputs", "configurations", "schedules"],
  "every particle set and distribution, transfer chain and process mesh",
  "Its tests run on one rank with one mesh.",
  ["pmesh/particlemesh.py", "pmesh/transfer.py", "pmesh/cic.py", "pmesh/tsc.py"],
  [("legacy ParticleMesh paint/r2c/transfer/c2r/readout, push/pop", "pmesh/particlemesh.py"), ("transfer functions", "pmesh/transfer.py")],
  ["buffers and readout values over ranks"])
p("C27", "Functions applied over a field see each cell once with its true coordinates",
  "Applying a function to a field by slabs calls it so that every cell or mode of the global mesh is seen exactly once over all ranks, with its global index, its position or wavenumber for the box, or its circular frequency, whatever the decomposition and memory layout, and the result holds the returned values in place, into a new field or a given one; the compensation of a window divides every mode by the window's transform at its frequencies.",
  ["inputs", "configurations"],
  "every mesh (including ranks with no cells), field type, kind of coordinate, output and process mesh",
  "Tests apply a few functions on few ranks.",
  ["pmesh/pm.py"],
  [("slabiter, Field.apply, create_coords", "pmesh/pm.py")],
  ["arguments seen by the function and the assembled result"])
p("C28", "Field arithmetic acts on the global mesh cell by cell, and on any rank alone",
  "An operator or numpy function on fields, arrays and numbers gives on every rank the cells the same operation gives on the assembled global arrays. A result of the mesh's shape is a new field of the same kind, mesh and precision that shares no memory with its operands (or a plain array if the field cannot hold it, as complex values of a real field); comparisons give plain arrays and functions of several results several fields. In-place operations, out=, assignment and indexed addition change the named field, for all who hold it, and nothing else. A field describes its piece truthfully: its start, shape, slices, global shape and size, and its flat, real, imaginary and plain views. None of this communicates: some ranks may do it while others do not.",
  ["inputs", "configurations", "schedules"],
  "every sequence of operations, operand kind, field type, precision, mesh (including ranks with no cells) and set of ranks taking part",
  "Tests apply single operators on one mesh and compare nothing with a global array.",
  ["pmesh/pm.py"],
  [("Field operators, __array_ufunc__, attributes and views", "pmesh/pm.py:Field"), ("ParticleMesh.create from values", "pmesh/pm.py:ParticleMesh.create")],
  ["results of operations and field attributes on every rank"])
p("C29", "Gradient programs compute the same values and derivatives on any number of ranks",
  "A program of the statements of the gradient engine (paint, readout, Fourier transforms, transfer functions, low pass, sums, products, residuals, assignment of components, norms) gives on any number of ranks the value it gives on one rank. Its backward gradients are the adjoint of its forward derivative, which agrees with finite differences where the program is smooth, and both are those of one rank. Transfer functions and low passes multiply each mode by their value there. Scalars, and inner products of the engine's vector space, are agreed on all ranks; the arrays given to the program are unchanged.",
  ["inputs", "configurations", "histories", "schedules"],
  "every program, input, mesh, process mesh and distribution of the particles over ranks (ranks without particles included)",
  "The tests of the engine check the derivatives of single statements on one mesh, and do not run with the installed scipy.",
  ["pmesh/abopt.py"],
  [("statements with their forward and backward derivatives", "pmesh/abopt.py:ParticleMeshEngine"), ("inner product", "pmesh/abopt.py:ParticleMeshVectorSpace.dot")],
  ["results of CodeSegment.compute, and of the derivatives of its tape"])
p("C33", "A stepped simulation has one history, also when killed and continued",
  "A particle-mesh simulation built from the library (decompose, migrate, paint, transform, apply, read out, gather, field arithmetic, white noise, ravel and unravel) goes through the same particle and field states on any number of ranks, up to rounding: no particle is lost or doubled, each migrated particle arrives on the rank owning its place, the painted mass is the number of particles and the particles' forces on each other sum to nothing. Killed at any point and continued from the last complete checkpoint by any number of ranks, it goes on with the same history.",
  ["inputs", "configurations", "histories", "schedules", "crash_points"],
  "every set of particles, mesh, number of steps, way of moving particles, schedule, point of the kill, and number of ranks and distribution after it",
  "No test runs more than one operation after another over several steps, and none restarts on another number of ranks.",
  ["pmesh/pm.py", "pmesh/domain.py", "pmesh/window.py"],
  [("decompose, exchange and gather of each step", "pmesh/domain.py:Layout"), ("paint, readout, transforms, apply", "pmesh/pm.py"), ("checkpoint of fields in the order of a single rank", "pmesh/pm.py:Field.ravel")],
  ["particle and field states of all ranks after each step"])
# pure functions of their input: listed, not claimed
p("C30", "Windows have the stated support, sum to one and match their transform",
  "Every resampling window vanishes outside its support, its weights over the mesh sum to one at any position for the partition-of-unity windows, tuned and generic kernels agree, and its Fourier window is the transform of its kernel.",
  ["inputs"], "every window, position and scaling", "Sampled positions.",
  ["pmesh/window.py", "pmesh/_window.pyx", "pmesh/_window_generics.h"],
  [("kernel tables", "pmesh/_window_imp.c")], ["ResampleWindow.paint/readout/get_fwindow on one local mesh"])
p("C31", "The resolution-invariant index orders modes the same way on every mesh",
  "The invariant index of a mode is unique and does not depend on the mesh size, and is consistent with its inverse.",
  ["inputs"], "every mode and dimension", "Sampled cubes.",
  ["pmesh/invariant.py", "pmesh/_invariant.pyx"],
  [("get_index", "pmesh/_invariant.pyx")], ["return values"])
p("C32", "Frequency index tables map each mode to itself across mesh sizes",
  "The index table between two mesh sizes pairs exactly the frequencies present in both.",
  ["inputs"], "every pair of sizes", "Two examples.",
  ["pmesh/pm.py"], [("reindex, build_index", "pmesh/pm.py")], ["return values"])
if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
        for q in P: f.write(json.dumps(q) + '\n')
    for q in P:
        assert len(q['title']) <= 80, (q['id'], len(q['title']))
