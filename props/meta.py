"""Per property: budgets and what the evidence says."""
META = {
 'C01': dict(rule='A case draws ranks (1-7), dimensions, domain edges (uniform, random, skewed, with empty domains), assignment of domains to ranks, periodicity, smoothing (zero to several boxes, per direction), position dtype and layout, coordinate transform, explicit particles (inside, on and next to edges, outside) and their split over ranks; every schedule and MPI choice is drawn.',
   what='Received ids on every rank compared with a geometric reference for the domains each volume touches.'),
}
META.update({
 'C02': dict(rule='A case draws a decomposition as for C01 and one to four exchange calls, each of one to five columns of any of 18 dtypes and 7 trailing shapes in 7 memory layouts with random bytes, packed or not.',
   what='Every received column compared bytewise, in the order of the received ids, with what the owners supplied; inputs compared afterwards; earlier results compared again at the end.'),
 'C03': dict(rule='A case draws a decomposition as for C01 and one to four gather calls: sum, mean, any, all, local or one of eight ufuncs, dtype, trailing shape, memory layout, out= array.',
   what='The data on each rank is a function of particle and rank, so the expected result follows from which ranks received the particle.'),
 'C04': dict(rule='A case draws a decomposition as for C01 and positions in, on, next to and outside the box, with load balancing in half of the cases.',
   what='isprimary of all positions on all ranks summed over ranks and compared with the delivery without smoothing.'),
 'C05': dict(rule='A case draws a decomposition as for C01, a power, one or two rounds of balancing with real or made-up loads.',
   what='Loads compared with a global count, assignments with a greedy reference and across ranks, deliveries before and after, and the exchange cost with the deliveries.'),
 'C06': dict(rule='A case draws 1-32 ranks, a box of 1-4 dimensions (cubic, decimal, thin, mixed over six decades) and units.',
   what='Shape, edges and assignment checked and compared across ranks and units; particles delivered and compared with the geometry.'),
})
META.update({
 'C07': dict(rule='A case draws a decomposition as for C01 and one to three exchange or gather calls in which the data of one or more columns is too long, too short, empty or of another trailing shape on a random subset of the ranks.',
   what='Every rank must raise, none may wait (deadlock detection), and correct data must pass through the same layout afterwards; datatypes are counted.'),
})
META.update({
 'C09': dict(rule='A case draws ranks (1-6), a mesh of 1-3 dimensions with 1-24 cells a side (ranks without cells included), box, process mesh, dtype, particles (exact special positions or arbitrary ones, in and out of the box), and one to three paints into one canvas: any of 24 windows, gradient, window scaling, mass kind, hold, output, shift, kind of layout.',
   what='The assembled canvas after each paint compared with the same paints on one rank over the whole mesh, and the total with the total mass.'),
 'C10': dict(rule='As for C09, with one to three readouts of a random field.',
   what='The values on each rank compared with readouts of the whole mesh on one rank; field and positions compared afterwards.'),
})
META.update({
 'C12': dict(rule='A case draws ranks (1-6), a mesh of 1-3 dimensions with any size including one and odd numbers, process mesh (also of the full dimension), dtype, and a program of one to eight steps (forward or backward transform into a new, given, in-place or memory-sharing field of either layout; cast; copy; create) on up to four fields.',
   what='Each result compared with numpy.fft of the global content, every other live field bitwise unchanged after each step, all elements held exactly once.'),
})
META.update({
 'C13': dict(rule='A case draws a mesh as for C12, a field of one of three layouts and one to eight collective reads and writes of whole elements or their real or imaginary parts at random, special and negative indices.',
   what='A global array kept by the oracle receives the same writes; every rank compares its part after every step, and the returned values are compared across ranks.'),
 'C14': dict(rule='A case draws a mesh as for C12, a field of one of three layouts and one to four of ravel (seven kinds of output), unravel (four distributions of the flat values, four kinds of source) and transpose.',
   what='Flat values, fields, shapes compared bitwise with the global array in C order; inputs compared afterwards.'),
 'C15': dict(rule='A case draws a mesh as for C12 and one to four of sum, mean, inner product, norm (five metrics, three norms) of random fields in the three layouts, and Parseval pairs.',
   what='Compared with the assembled global array, each mode that is not stored counted through its conjugate; equal on all ranks; operands compared afterwards.'),
})
META.update({
 'C11': dict(rule='A case draws a mesh as for C09, particles away from the kinks of the windows, and one to three derivative computations: paint and readout (six windows, window derivative, tangents of positions and values, four kinds of output each), transforms, inner product with metric.',
   what='Global inner products of the backward and forward derivatives compared, forward ones compared with central differences, everything compared with one rank.'),
})
META.update({
 'C16': dict(rule='A case draws a mesh as for C12 and one to four white noise fields: seed, layout or real space, unitary, mean, memory given or new, with other random numbers drawn differently on every rank in between; the same noise on a finer mesh.',
   what='Assembled fields compared with one rank (bitwise in Fourier space), Hermitian symmetry, zero mode, modulus, the transform of the modes, mean square and phases (bounds passed once in 10^12 fields), common modes of two meshes, earlier fields and the random state of the caller afterwards.'),
 'C18': dict(rule='A case draws a mesh as for C12 and one to three of mesh coordinates and uniform grids with shifts of seven kinds, types, identifiers.',
   what='The points of all ranks are each mesh point once, at its position; identifiers are the C order index; unshifted points are primary on their rank.'),
 'C27': dict(rule='A case draws a mesh as for C12 and one to four of apply (index, position, wavenumber, frequency; six kinds of output; norms with and without zero mode), iteration over slabs, coordinates.',
   what='Indices, coordinates and values handed to the function compared with the global array, each cell seen once over all ranks; results and inputs compared.'),
})
META.update({
 'C22': dict(rule='A case draws a mesh as for C12 and one to three of Fourier resampling (any field kind to any field kind, other precision, other process mesh), upsampling and downsampling (twelve windows, keeping total or mean) to meshes of any other size, and previews (any axes in any order, resolution, method).',
   what='Resampled modes compared with a frequency by frequency reference, the others with one rank; totals and means; previews equal on all ranks and to the field; sources compared afterwards.'),
})
META.update({
 'C08': dict(rule='A case draws a mesh, particles and one to three of 27 operations; each is made to fail in one to four (or all) of its communication calls, on all ranks, then repeated.',
   what='Objects given to the operation are bitwise unchanged after every failure, and the repetition gives what an undisturbed run on the same ranks gives.'),
})
META.update({
 'C17': dict(rule='A case draws a program of up to 16 creations (equal meshes often), reshapes, respawns, uses, drops, communicator creations and frees on world, duplicate, group and self communicators; garbage is collected at a different step on every rank; handles of freed communicators are reused.',
   what='Completion; attributes of every mesh after creation and later; transforms, coordinates, sums and painting on it; communicators taken by each creation and held after each drop, per rank.'),
})
META.update({
 'C19': dict(rule='A case draws a co-array and up to four rounds of pulls and pushes between any images (rows, elements, slices, columns, strided, chained indices; own memory or fresh values; places written more than once by one image), local writes and synchronisation with all or a subset of images.',
   what='The arrays of all images after every synchronisation are compared with a model that applies exactly the completed operations to the values at synchronisation.'),
})
META.update({
 'C20': dict(rule='A case draws up to five rotated sections, root-only functions and barriers on the world or on groups, with pauses of every rank before, inside and after, bodies that raise, rotators used again.',
   what='Enter and leave events of all ranks in execution order; exceptions; calls of the function and results.'),
 'C21': dict(rule='A case draws nested timed sections under four keys with pauses, exceptions, printing, and per rank a clock skew and forward and backward clock jumps.',
   what='Recorded times compared with the simulated clock at entering and leaving, per key and rank.'),
})
META.update({
 'C23': dict(rule='A case draws a mesh of two or three dimensions, vector fields (random, uniform, with holes, large), a texture (random, constant, default), kernel, length, step and window.',
   what='The image of all ranks compared with a reference that follows the lines on the whole mesh; a constant texture; inputs afterwards.'),
})
META.update({
 'C24': dict(rule='A case splits 1-7 ranks once to three times (groups of any size, ranks in none, ranks reordered, the whole world as a group), gives each group a mesh and particles (also those of another group, also a mesh moved over from the world) and two to eight steps of any of 42 kinds, among them failing communication and giving up; groups run at the same time.',
   what='The results of each rank compared with the group running alone in a world of its own; every communicator used in a step lies within the group.'),
})
META.update({
 'C25': dict(rule='A case draws 1-9 ranks, a mesh (often with fewer cells than ranks along a side), particles on all, one, the last or no rank, at random places, one point, a plane, the edges or outside, and one to six of 53 operations of grids, layouts, meshes, fields, co-arrays and tools, with any rank late by up to eight steps.',
   what='Completion (no deadlock, no mismatched call, no message or call left over); the sequence of collective calls of all ranks; datatypes and communicators held after each operation.'),
})
META.update({
 'C26': dict(rule='A case draws 1-7 ranks, a cubic mesh of 1-8 points a side (odd ones, ranks without cells), box, precision, paintbrush, particles, and two to eight steps of paint, clear, fill, transforms, chains of eleven transfer functions, push, pop, readout.',
   what='Buffers, readout values and power spectra of all ranks compared with a numpy model of the whole mesh and with the same steps on one rank; saved fields bitwise.'),
})
META.update({
 'C28': dict(rule='A case draws a mesh as for C12 (up to four dimensions), three fields of one layout and one to eight steps of operators, numpy functions, comparisons, in-place and out= operations (with fields, arrays, rows, numbers on either side), several results, reductions, indexed additions, copies, creation from values, attributes and deprecated names, each done by all ranks or by some.',
   what='Each rank compares its cells with the operation on its part of the global arrays; kind, mesh, precision, memory of results and all other fields afterwards; completion when only some ranks take part.'),
})
META.update({
 'C29': dict(rule='A case draws 1-6 ranks, a mesh of one to three dimensions, up to twelve particles away from the kinks of the window, and a program of two to nine statements (paint, readout, transforms, transfer functions, low pass, sums, products, residuals, assignment of components) on displacements, a field or modes, ending in a scalar.',
   what='The scalar, its forward derivative and its gradients compared with one rank, with each other and with finite differences; the arrays given to the program afterwards.'),
})
META.update({
 'C33': dict(rule='A case draws a mesh of one to three dimensions, up to 24 particles, a particle-mesh code (particles staying with their rank or migrating to the owner of their place, forces through a layout or on exchanged particles, positions wrapped or not) coupled to an oscillating field, one to six steps, checkpoints every one to three steps of particles and raveled fields, and up to four incarnations of 1-6 ranks, each killed at an arbitrary scheduling point; the next one continues from the last complete checkpoint with another number of ranks, process mesh and distribution.',
   what='Every complete checkpoint of every incarnation compared with the same steps on one rank; number, identity and ownership of particles, painted mass and total force at every step; completion once nothing is killed.'),
})
