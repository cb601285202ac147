#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the statements are easy to edit)."""
import json, os
P = "python/virgo/"
props = []
def add(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[P+f if not f.startswith("fortran") else f for f in files],
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

T_PS = "The existing tests draw a few thousand small random arrays at 1-8 ranks; "
T_NONE = "No existing test touches this code at all (the build only imports it); "

add("C01", "Variable-size all-to-all exchange delivers every element exactly once",
 "For every set of per-destination send counts and offsets with matching receive counts and offsets (zero counts, empty ranks and messages longer than the maximum message length included), after the exchange each receive buffer holds, at the offset given for a source rank, exactly the elements that source addressed to this rank, unchanged and in order, with every supported communication method. Receive buffer elements outside the given segments and all send buffers are unchanged, and the messages exchanged by any two ranks always agree in number and length, so that no combination of counts makes ranks hang or truncate data. The pairwise send/receive helper gives the same guarantee for one pair of ranks and any chunk length.",
 ["inputs", "schedules", "configurations"], "all communicator sizes, counts, offsets, dtypes, message-splitting boundaries, both methods",
 T_PS+"no message in them comes near the 100 MB splitting limit and the asynchronous method is never selected.",
 ["mpi/parallel_sort.py"], [("my_alltoallv", P+"mpi/parallel_sort.py"), ("sendrecv", P+"mpi/parallel_sort.py")],
 observe=["receive buffers after my_alltoallv()/sendrecv()", "sequence of point to point messages"])

add("C02", "Repartitioning preserves global order and gives the requested sizes",
 "Repartitioning a distributed array to any requested per-rank sizes with the same total returns on each rank exactly the requested number of rows, and the rank-ordered concatenation of the results equals the rank-ordered concatenation of the inputs, element for element. This holds for every starting distribution (including ranks with no data), any number of trailing dimensions and any memory layout of the input, and the input is not modified.",
 ["inputs", "configurations"], "all rank counts, input sizes, requested sizes, trailing shapes, memory layouts",
 T_PS+"only 1-D and C-ordered arrays are tried (a Fortran-ordered input used to lose its data).",
 ["mpi/parallel_sort.py"], [("repartition", P+"mpi/parallel_sort.py"), ("my_alltoallv", P+"mpi/parallel_sort.py")],
 observe=["return value of repartition()"])

add("C03", "Fetching elements of a distributed array by global index is exact",
 "For every distributed array and every per-rank list of valid global indexes (repeated, unsorted, empty on some or all ranks), each rank receives, in the order it asked for them, exactly the rows at those global positions, whatever the trailing shape, the memory layout and the distribution over ranks. If the caller supplies an output array the same values are stored in it, and neither the source array nor the index list is modified.",
 ["inputs", "configurations"], "all rank counts, distributions, index lists, trailing shapes, layouts, with and without a supplied output",
 T_PS+"the supplied-output path and non C-contiguous arrays are not exercised.",
 ["mpi/parallel_sort.py"], [("fetch_elements", P+"mpi/parallel_sort.py"), ("my_argsort", P+"mpi/parallel_sort.py")],
 observe=["return value / result argument of fetch_elements()"])

add("C04", "Parallel sort leaves a globally sorted permutation and a correct index",
 "After sorting a distributed one-dimensional array of totally ordered values in place, every rank still holds as many elements as before, the rank-ordered concatenation is in ascending order and is a permutation of the original concatenation. If an index is requested, it has one entry per local element, is itself a permutation of all global positions, and entry k names the original global position of the value now at k. This holds for every distribution, including empty ranks and arrays with any number of repeated values.",
 ["inputs", "configurations"], "all rank counts, distributions, value multisets (heavy ties included), dtypes with a total order",
 T_PS+"ties that straddle rank boundaries in particular patterns are hit only by chance.",
 ["mpi/parallel_sort.py"], [("parallel_sort", P+"mpi/parallel_sort.py"), ("find_splitting_points", P+"mpi/parallel_sort.py")],
 observe=["array contents and return value of parallel_sort()"])

add("C05", "Parallel matching finds an equal element exactly when one exists",
 "For any two distributed one-dimensional arrays of the same type, matching returns for each element of the first array, in its original order, the global index of an element of the second array with an equal value, or -1 if and only if no element of the second array (on any rank) has that value. This holds for every distribution of either array including empty ranks and empty arrays, for repeated values in either array, and gives the same kind of answer when the second array is declared to be already sorted across ranks. Neither input is modified.",
 ["inputs", "configurations"], "all rank counts, distributions, values, duplicates, sorted and unsorted second array",
 T_PS+"boundary values shared between neighbouring ranks and empty ranks in the middle appear only by chance.",
 ["mpi/parallel_sort.py"], [("parallel_match", P+"mpi/parallel_sort.py")], observe=["return value of parallel_match()"])

add("C06", "Parallel unique returns each distinct value once with its exact count",
 "For any distributed one-dimensional array, the rank-ordered concatenation of the result is the strictly increasing list of distinct values of the whole input and, if counts are requested, the count next to each value is the number of its occurrences over all ranks. The guarantee is the same for pre-sorted input declared as such (including values that span several ranks and ranks without data) and for repartitioned output, where the numbers of values on any two ranks differ by at most one. The input array is not modified.",
 ["inputs", "configurations"], "all rank counts, distributions, run lengths of equal values, flag combinations",
 T_PS+"values whose run covers three or more ranks or starts exactly at a rank boundary are hit only by chance.",
 ["mpi/parallel_sort.py"], [("parallel_unique", P+"mpi/parallel_sort.py")], observe=["return values of parallel_unique()"])

add("C07", "Distributed reduction and bin count apply every update exactly once",
 "Applying updates addressed by global index to a distributed array changes each addressed element to the reduction of its old value with all updates addressed to it, from any rank and with repeats, each applied exactly once, and changes nothing else; this holds for empty ranks, no updates, multi-dimensional rows of any memory layout, and operators given as MPI operators or as numpy ufuncs. The parallel bin count returns, in rank order, for each integer the number (or total weight) of its occurrences over all ranks, for every integer type, with at least the requested minimum number of bins.",
 ["inputs", "configurations"], "all rank counts, distributions, index multisets, integer dtypes, weights, operators",
 T_PS+"only some integer types and C-ordered updates are used (64-bit unsigned input used to fail).",
 ["mpi/parallel_sort.py"], [("reduce_elements", P+"mpi/parallel_sort.py"), ("parallel_bincount", P+"mpi/parallel_sort.py")],
 observe=["arr after reduce_elements()", "return value of parallel_bincount()"])

add("C08", "Gathering an array concatenates all ranks' parts in rank order",
 "Gathering a distributed array along any axis gives, on the root (or on every rank for the all-gather form), an array equal to the rank-ordered concatenation of the local parts along that axis, for any sizes including empty parts, any root, any number of dimensions and any memory layout; ranks other than the root get no array. The input is not modified.",
 ["inputs", "configurations"], "all rank counts, part sizes, axes, roots, layouts",
 T_NONE+"the axis and root arguments are never exercised.",
 ["mpi/gather_array.py"], [("gather_array", P+"mpi/gather_array.py"), ("allgather_array", P+"mpi/gather_array.py")],
 observe=["return value of gather_array()/allgather_array()"])

add("C09", "Collective dataset reads and writes cover the dataset exactly once",
 "A collective write stores in the dataset the rank-ordered concatenation of the arrays supplied by the ranks, and a collective read returns on each rank one contiguous part such that the rank-ordered concatenation of the parts is the dataset and their lengths differ by at most one. Both hold for every number of rows (none, fewer than ranks, ranks with nothing to write), every non-empty row shape and every transfer buffer size, however many transfers the data has to be split into, and all ranks make the same number of collective transfers.",
 ["inputs", "configurations"], "all rank counts, row counts per rank, row shapes, buffer sizes",
 "The tests use a handful of sizes and two or three buffer sizes; chunk boundaries that coincide with the end of one rank's data but not another's are not enumerated.",
 ["mpi/parallel_hdf5.py"], [("collective_read", P+"mpi/parallel_hdf5.py"), ("collective_write", P+"mpi/parallel_hdf5.py")],
 observe=["dataset contents", "return value of collective_read()"])

add("C10", "Reading N files on M ranks yields the file-ordered concatenation",
 "For any number of files and ranks, reading a dataset from a file set gives arrays whose rank-ordered concatenation equals the file-ordered concatenation of that dataset over the files that contain it (files without it, without the group, or with no rows contribute nothing), with a zero-length array of the right type and row shape on ranks that get no rows. The optional file number returned with each row is the number of the file the row came from, every file is read by at least one rank and no row is read twice.",
 ["inputs", "configurations"], "all numbers of files and ranks, rows per file, missing datasets or groups, naming schemes, file index lists",
 "The tests cover a few file counts at up to 8 ranks; the assignment arithmetic for other N, M pairs is not settled by them.",
 ["mpi/parallel_hdf5.py", "mpi/util.py"], [("MultiFile.read", P+"mpi/parallel_hdf5.py"), ("assign_files", P+"mpi/parallel_hdf5.py"), ("substitute_file_nr", P+"mpi/parallel_hdf5.py")],
 observe=["return value of MultiFile.read()"])

add("C11", "Writing with the input layout reproduces the per-file row ranges",
 "Data read from a file set and written back using the reported rows per file gives output files that each hold exactly the rows their input file held, in the same order, for any number of files and ranks (independent and collective modes alike), and the rows per file reported over all ranks add up to each file's dataset length, with zero for files lacking the dataset. No row is lost, duplicated or put in a different file.",
 ["inputs", "configurations"], "all numbers of files and ranks, rows per file, missing datasets, naming schemes",
 "The tests cover a few file counts at up to 8 ranks.",
 ["mpi/parallel_hdf5.py"], [("MultiFile.get_elements_per_file", P+"mpi/parallel_hdf5.py"), ("MultiFile.write", P+"mpi/parallel_hdf5.py")],
 observe=["files written by MultiFile.write()"])

add("C12", "Particles are labelled with the group whose range contains them",
 "Given distributed group lengths and offsets (non-overlapping groups in order of offset, zero-length groups allowed) and the distribution of the particle array, every particle is given the global index of the group whose range [offset, offset+length) contains its global position, and -1 if no group does; the optional rank within the group is its position minus the group's offset, or -1. This holds for any distribution of groups and particles, including groups spanning any number of ranks, gaps between groups and ranks without groups or particles.",
 ["inputs", "configurations"], "all rank counts, group layouts, particle distributions",
 "The tests use six random configurations; zero-length groups at rank boundaries and empty ranks are not enumerated.",
 ["mpi/util.py"], [("group_index_from_length_and_offset", P+"mpi/util.py")], observe=["return value of group_index_from_length_and_offset()"])

add("C13", "Ranks without an array get a zero-length array of the common type",
 "If at least one rank has an array, then after replacement every rank that had one still has that same array, and every rank that had none has an array with zero rows whose element type and remaining dimensions are those of an array held by another rank; if no rank has an array every rank gets None. The reported common type and dimensions follow the same rule.",
 ["inputs", "configurations"], "all patterns of ranks with and without arrays, dtypes, row shapes",
 "The tests try one pattern.", ["mpi/util.py"], [("replace_none_with_zero_size", P+"mpi/util.py"), ("broadcast_dtype_and_dims", P+"mpi/util.py")],
 observe=["return values"])

add("C14", "Serial matching returns an index of an equal element or -1",
 "For every pair of one-dimensional arrays of the same type (either byte order, empty arrays included), matching returns for each element of the first array the index of an element of the second array that is equal to it, or -1 exactly when there is none. The answer has the same meaning whether the second array is unsorted, declared sorted, or supplied with a precomputed sorting index, and the inputs are not modified.",
 ["inputs"], "all arrays, byte orders, sortedness flags", T_NONE+"nothing samples it.",
 ["util/match.py"], [("match", P+"util/match.py")], observe=["return value of match()"])

add("C15", "Range assignment and range sums touch exactly the given ranges",
 "Assigning values to sorted, non-overlapping ranges (zero-length ranges allowed) sets every element inside a range to that range's value and leaves every other element unchanged; ranges whose lengths and gaps do not account for the array are rejected. Summing over such ranges gives for each range the sum (or weighted sum, or mean when normalised) of exactly the elements in it and zero for zero-length ranges (without normalisation), in one or more dimensions, without modifying its inputs.",
 ["inputs"], "all arrays, range lists (adjacent, gapped, empty), weights, dtypes, trailing dimensions", T_NONE+"nothing samples it.",
 ["util/ranges.py"], [("assign_ranges", P+"util/ranges.py"), ("sum_ranges", P+"util/ranges.py")], observe=["array after assign_ranges()", "return value of sum_ranges()"])

add("C16", "Peano-Hilbert keys are a bijective, hierarchical, space-filling curve",
 "For every number of bits per dimension up to 20, the key of grid cell (x,y,z) lies in [0, 8^bits), the inverse returns exactly (x,y,z) for it, consecutive keys belong to cells that share a face, the key of a cell shifted right by three bits is the key of its parent cell at one bit less, and the keys are those of Gadget's own Peano-Hilbert curve. Array functions agree element by element with the single-cell function for any array length (all internal block boundaries), and keys from coordinates are the keys of the cells containing them.",
 ["inputs"], "all cells, all bit depths, all array lengths", T_NONE+"2^60 cells cannot be sampled.",
 ["util/peano.py"], [("peano_hilbert_keys_block", P+"util/peano.py"), ("peano_hilbert_key_inverses_block", P+"util/peano.py"), ("peano_hilbert_keys", P+"util/peano.py"), ("peano_hilbert_key_inverses", P+"util/peano.py"), ("peano_hilbert_keys_from_coords", P+"util/peano.py")],
 observe=["return values"])

add("C17", "Binary file views return exactly the described bytes, byte order applied",
 "For a binary file described by any sequence of dataset, attribute, skip and record declarations, reading a block (in full, by slice, by index or mask) yields exactly the bytes at the sum of the sizes declared before it, interpreted with the declared type, shape and the file's current byte order, for simple, string, array and structured types, wherever in the group tree the block was added. Reads that would fall outside the file raise an error, Fortran record markers that disagree with each other or with the declared contents are rejected (and reveal the byte order where requested), and results do not depend on which other files were opened, evicted from the file cache or closed in between.",
 ["inputs", "histories"], "all declaration sequences, types, shapes, byte orders, file contents and access histories", T_NONE+"nothing samples it.",
 ["util/read_binary.py"], [("BinaryFile", P+"util/read_binary.py"), ("BinaryDataset.__getitem__", P+"util/read_binary.py"), ("BinaryGroup._add_block", P+"util/read_binary.py")],
 state=[("offset", "bytes declared so far", "BinaryFile.offset"), ("file_cache", "open memory maps, bounded", "BinaryDataset.file_cache")], observe=["values read", "exceptions"])

add("C18", "Gadget snapshot reader maps every block of the type-1 format correctly",
 "For every well-formed type-1 binary snapshot (either byte order, any particle counts per type, mass table, 4- or 8-byte positions, velocities, masses and IDs, with any trailing blocks present or absent and any user-declared extra blocks), each particle type's datasets read back exactly the values stored for that type, a type appears in a block only if it belongs there (masses only for types with no mass in the header table), and the header attributes are those stored. Files whose header or block record markers are inconsistent, or whose block length does not fit the particle numbers, are rejected with an error.",
 ["inputs"], "all particle counts, mass tables, precisions, byte orders, block sets and marker corruptions", T_NONE+"nothing samples it.",
 ["formats/gadget_snapshot.py", "util/read_binary.py"], [("GadgetBinarySnapshotFile.__init__", P+"formats/gadget_snapshot.py"), ("open", P+"formats/gadget_snapshot.py")], observe=["datasets and attributes of the opened file", "exceptions"])

add("C19", "Group, subhalo and tree file readers locate every field of their formats",
 "For every well-formed file of each supported format (L-Gadget2 group_tab, group_ids, sub_tab, sub_ids and snapshot; L-Gadget3, P-Gadget3 and Gadget-4 group and subhalo files; MPA tree, tree auxiliary and descendant files; Rockstar; Velociraptor properties; MXXL descendant and density field files), in either byte order where the format allows it to be detected and for any group and subhalo counts including zero, each named field reads back exactly the values stored at its place in the file for every supported combination of ID size, float size and optional-field flags, and the fields account for the whole file. The per-simulation readers apply that simulation's default flags and sizes, group catalogues return the file-ordered concatenation over all files of a snapshot that hold the dataset, and a snapshot whose hash table agrees with its header passes the reader's sanity check.",
 ["inputs", "configurations"], "all counts, byte orders, ID and float sizes, option flags", T_NONE+"nothing samples it.",
 ["formats/subfind_lgadget2.py", "formats/subfind_lgadget3.py", "formats/subfind_pgadget3.py", "formats/subfind_gadget4.py", "formats/mpa_trees.py", "formats/rockstar.py", "sims/mxxl.py", "sims/millennium.py", "sims/millennium2.py", "sims/coco.py", "util/read_multi.py"],
 [("SubTabFile.__init__", P+"formats/subfind_*.py"), ("read_multi", P+"util/read_multi.py")], observe=["datasets of the opened file"])

add("C20", "Partial snapshot reads return exactly the requested particles",
 "Reading a non-empty particle range, a FoF group or a subhalo from a multi-file group-ordered snapshot returns exactly the particles of that range in order, however the range lies relative to the file boundaries (first or last particle of a file, spanning several files, files without particles of a type), for every particle type and after any earlier reads; the Gadget-4 form also labels each particle with its subhalo number, or -1 outside subhalos. Reading hash cells or a periodic region from a Millennium snapshot returns all particles in the selected cells and no others, in file order.",
 ["inputs", "histories"], "all splits of particles over files, group layouts, ranges, cell sets, read histories", T_NONE+"nothing samples it.",
 ["formats/subfind_pgadget3.py", "formats/subfind_gadget4.py", "formats/subfind_lgadget2.py"],
 [("GroupOrderedSnapshot.read_particle_range", P+"formats/subfind_pgadget3.py"), ("GroupOrderedSnapshot.read_fof_group", P+"formats/subfind_gadget4.py"), ("Snapshot.read_cells", P+"formats/subfind_lgadget2.py")], observe=["returned arrays"])

add("C21", "Depth-first merger tree indexes describe the tree exactly",
 "For every forest given by unique node and descendant identifiers (descendants at later snapshots, arbitrary numbers of progenitors), the depth-first index is a permutation of 1..n in which every node is directly followed by its most massive progenitor branch first and its other progenitors in descending order of branch mass, the nodes with indexes from a node's own index to its last-progenitor index are exactly its progenitor tree including itself, and the end-of-main-branch index is that of the node reached by always following the most massive progenitor. Progenitor tree mass and main branch mass follow their defining recurrences for every forest and the main progenitor is a progenitor with the largest branch mass.",
 ["inputs"], "all forests, masses and node orders", T_NONE+"nothing samples it.",
 ["database/index_trees.py", "util/match.py"], [("depth_first_index", P+"database/index_trees.py"), ("find_progenitor_tree_mass", P+"database/index_trees.py"), ("find_progenitor_branch_mass_delucia", P+"database/index_trees.py"), ("find_main_progenitor", P+"database/index_trees.py")], observe=["returned arrays"])

add("C22", "Halo matching picks the halo receiving most particles",
 "For particle IDs and group memberships of two snapshots in any distribution, each halo of the first snapshot is matched with the halo of the second that contains the largest number of its particles (found by ID, particles outside halos ignored, ties resolved to the lowest halo number), or -1 if none of its particles is in a halo there; the output has the requested number of halos on each rank in halo order. The consistency test reports 1 exactly for halos whose match points back at them, and 0 otherwise.",
 ["inputs", "configurations"], "all rank counts, distributions, memberships, ties", T_NONE+"nothing samples it.",
 ["mpi/merger_tree.py"], [("match_halos", P+"mpi/merger_tree.py"), ("consistent_match", P+"mpi/merger_tree.py")], observe=["returned arrays"])

add("C23", "Distributed order statistics find the value at each global rank",
 "Given a distributed array sorted on each rank (every rank holding at least one element) and any list of valid global ranks, the splitting-point search terminates and returns for each requested rank the value that would be at that position of the globally sorted array, together with the lowest and highest global positions at which that value occurs; every process obtains the same answer, whether there are more or fewer requested ranks than processes and for any repeats of values or requested ranks.",
 ["inputs", "configurations"], "all rank counts, distributions, value multisets, requested rank lists",
 T_PS+"this search is only exercised through the sort, with one requested rank per process.",
 ["mpi/parallel_sort.py"], [("find_splitting_points", P+"mpi/parallel_sort.py"), ("weighted_median", P+"mpi/parallel_sort.py")], observe=["return values of find_splitting_points()"])

add("C24", "Binary file copies, conversions and checksums preserve the described data",
 "Writing a described binary file out again puts every block's bytes at the same offset in the requested byte order (the types' own order if none is given), so that a file whose blocks cover it is reproduced exactly or byte-swapped block by block; converting to HDF5 gives a file with the same groups, datasets and attributes (of the root, groups and datasets) and values, including zero-size and scalar datasets. The checksum is that of the blocks' little-endian bytes in file order, so it is equal for byte-swapped copies and equals the plain file checksum for little-endian files, and is refused unless every byte of the file belongs to exactly one block.",
 ["inputs", "configurations"], "all block layouts, types, byte orders, gaps and overlaps", T_NONE+"nothing samples it.",
 ["util/read_binary.py"], [("BinaryFile.write_binary", P+"util/read_binary.py"), ("BinaryFile.hash", P+"util/read_binary.py"), ("BinaryFile.all_bytes_used", P+"util/read_binary.py"), ("BinaryGroup.write_hdf5", P+"util/read_binary.py")], observe=["files written", "digest", "exceptions"])

add("C25", "Database export writes one complete row per tree node",
 "For any set of equally long arrays of supported types (one-dimensional, or with three columns), the exported native file contains one packed row per element with every scalar column's value and every vector split into x, y and z columns in declaration order, and the table script declares the same columns in the same order with the SQL type that matches each column's width; arrays of other shapes or lengths are rejected.",
 ["inputs"], "all column sets, dtypes and lengths", T_NONE+"nothing samples it.",
 ["database/make_dtrees_table.py"], [("write_sql_server_native_file", P+"database/make_dtrees_table.py"), ("sql_type", P+"database/make_dtrees_table.py"), ("numpy_type", P+"database/make_dtrees_table.py")], observe=["files written"])

add("C26", "Partial formatting substitutes only the supplied fields",
 "Formatting a template with some fields left out (or set to None) replaces every supplied field exactly as ordinary formatting would and leaves each remaining simple field in the output unchanged, with its conversion and format specification, so that formatting the output again with the missing values gives the same text as formatting once with all of them. Missing fields raise an error unless they were asked to be ignored.",
 ["inputs"], "all templates of literal text and named fields, all subsets of supplied values", T_NONE+"nothing samples it.",
 ["util/partial_formatter.py"], [("PartialFormatter", P+"util/partial_formatter.py")], observe=["formatted string"])

add("C27", "SWIFT and SOAP datasets carry the unit their metadata describes",
 "For every dataset the attached unit converts to physical CGS by the factor recorded in the dataset's metadata, with dimensions given by the recorded exponents and the expansion factor dependence preserved.",
 ["inputs"], "all exponent combinations and unit systems", T_NONE+"nothing samples it.",
 ["formats/swift.py", "formats/soap.py"], [("soap_units_from_attributes", P+"formats/swift.py"), ("swiftsimio_units_from_attributes", P+"formats/swift.py")], observe=["units of returned arrays"])

add("C28", "The Fortran HDF5 wrapper round-trips datasets of every rank and type",
 "Datasets and attributes written through the Fortran interface are read back with the same values, shape and type, including appended (extended) datasets and reads of sub-regions.",
 ["inputs"], "all kinds, ranks, shapes, hyperslabs", "Two small Fortran programs are run.",
 ["fortran/hdf5_wrapper/src"], [("hdf5_wrapper module", "fortran/hdf5_wrapper/src")], observe=["file contents"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        assert p["statement"].count(". ") <= 2, p["id"]
        f.write(json.dumps(p)+"\n")
print(len(props), "properties")
