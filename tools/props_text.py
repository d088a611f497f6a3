PBT = "property-based testing (hypothesis): "
prop("C01", "Structure files survive a write/read cycle, also on re-used paths",
     "Writing any periodic structure as atom.config (or POSCAR) and reading it back yields the same number of atoms, species in the same order, lattice and "
     "fractional coordinates up to the printed precision (six decimals), and, when written with them, magnetic moments to two decimals; asking for a sorted read "
     "only reorders atoms stably by atomic number. Reading a path always reflects what was last written there, however often it was read before, and writing "
     "leaves the in-memory structure unchanged. Writing what was read reproduces it exactly.",
     ["inputs", "histories"], "every structure (any cell shape, any species order, coordinates outside the cell) and every history of writes and reads over several paths",
     "The tests print one hand-made file and assert nothing; none writes a path twice.",
     ["matersdk/io/publicLayer/structure.py", "matersdk/io/pwmat/utils/acextractor.py"],
     [("atom.config writer/reader", "DStructure.to / DStructure.from_file"), ("file extractor", "ACExtractor")],
     PBT + "stateful write/read histories with round-trip oracle")
prop("C02", "atom.config text is parsed faithfully from files and strings alike",
     "For any well-formed atom.config or trajectory frame text (any keyword case, spacing, number format, optional stress, force, atomic-energy and magnetic blocks), "
     "the parsed atom count, cell, species, coordinates, total energy, forces, virial, atomic energies and magnetic moments equal the numbers written, in file order. "
     "Parsing from a file and from a string agree, a structure built from the string equals the one built from the file, and a missing virial, atomic-energy or magnetic "
     "block is reported as an error by the string parser (missing forces read as zeros; missing moments of a file read as zeros).",
     ["inputs"], "all frame texts over formats, cell shapes, atom counts and subsets of optional blocks",
     "Tests run on two sample files and print results without asserting them.",
     ["matersdk/io/pwmat/utils/acextractor.py", "matersdk/io/pwmat/utils/lineLocator.py", "matersdk/io/publicLayer/structure.py"],
     [("string extractor", "ACstrExtractor"), ("file extractor", "ACExtractor"), ("keyword location", "LineLocator, ListLocator")],
     PBT + "generated frame texts against the generating model")
prop("C03", "Trajectory (MOVEMENT) files are split and labelled per frame exactly",
     "For any trajectory file, the number of frames equals the number of frames written, and every frame's cell, species, coordinates, energies, forces, "
     "and (when present) virial, atomic energies and magnetic moments come from that frame only. "
     "Bulk extraction returns exactly the frame-by-frame values in frame order with the documented shapes and in the documented field order, for one frame or many, "
     "and optional quantities that are absent are returned as absent rather than borrowed from elsewhere.",
     ["inputs", "histories"], "all trajectories over number of frames, atoms, optional blocks, trailing separators",
     "One sample trajectory is parsed with no assertion.",
     ["matersdk/io/pwmat/utils/mvextractor.py", "matersdk/io/pwmat/utils/acextractor.py"],
     [("frame splitting", "MVExtractor.get_frame_str"), ("bulk labels", "MVExtractor.get_frames_info")],
     PBT + "generated trajectories, differential per-frame vs bulk, model oracle")
prop("C04", "Training-set export writes every frame exactly once, in order",
     "Exporting a trajectory to a data-set directory, for any number of frames and parts, writes arrays whose concatenation over the parts equals "
     "the trajectory's frames in order with none lost or duplicated, for cells, coordinates, energies, forces and every optional quantity present, together with the matching "
     "species list. Combining several trajectories keeps each one's frames and species together, and the reported image count is the number of frames.",
     ["inputs", "histories"], "all trajectories, part counts and groupings",
     "The test only constructs the object from one sample.",
     ["matersdk/data/infoset.py", "matersdk/data/infosets.py"],
     [("export", "InfoSet.to_dir / InfoSets"), ("batch access", "InfoSet")],
     PBT + "generated trajectories; exported arrays against the generating model")
prop("C05", "Supercells contain every periodic image exactly once, home cell identified",
     "For any structure and any odd scaling along the three axes, the supercell holds each atom's image for every cell shift exactly once with the right species, spans the scaled "
     "lattice vectors, and stays centred on the home cell. Unsorted, the home-cell atoms come first in their original order; sorted, atoms are ordered by atomic number, stably, and the reported key "
     "indices are exactly the home-cell atoms. The original structure is not modified.",
     ["inputs"], "all structures and odd scalings, including non-uniform ones and left-handed cells",
     "Only used indirectly on one sample with one scaling.",
     ["matersdk/io/publicLayer/structure.py"],
     [("supercell construction", "DStructure.make_supercell_"), ("home-cell indices", "DStructure.get_key_idxs")],
     PBT + "supercells against an exhaustive image enumeration")
prop("C06", "Neighbour tables list exactly the atoms within the cutoff, nearest first",
     "For any crystal and cutoff covered by the chosen (odd) supercell, the neighbour tables have one row per home-cell atom; the first column is the atom itself, followed by exactly the periodic images "
     "within the cutoff (exactly at it included), each once, in order of increasing distance, with the right species, distance and Cartesian position (relative to the supercell that keeps the home cell in place), and zeros as padding. "
     "Species, distance and position of one neighbour stand in the same column.",
     ["inputs"], "all crystals, cutoffs and odd scalings",
     "Tests print one table for one structure.",
     ["matersdk/io/publicLayer/neigh.py"],
     [("neighbour search", "StructureNeighborsDescriptor.create('v1') / StructureNeighborsV1")],
     PBT + "neighbour tables against brute-force image enumeration")
prop("C07", "Neighbour counts and neighbour-index tables agree with the real neighbours",
     "The reported maximum number of neighbours (overall and per species) equals the brute-force maximum over the atoms of the home cell for any crystal and cutoff, neighbours exactly at the cutoff included as in the table. "
     "The neighbour-index table maps every listed neighbour to the home-cell atom it is an image of, with one-based indices, centres grouped in the requested species order, one block per neighbour species ordered by distance, and zero meaning padding only.",
     ["inputs"], "all crystals and cutoffs",
     "Tests print the numbers for one sample.",
     ["matersdk/io/publicLayer/neigh.py"],
     [("counts", "StructureNeighborsUtils.get_max_num_nbrs_real / _element"), ("indices", "StructureNeighborsUtils.get_nbrs_indices")],
     PBT + "counts and indices against brute force")
prop("C08", "The crystal-graph adjacency matrix counts exactly the bonds within the cutoff",
     "For any crystal, cutoff and odd scaling, entry (i, j) of the adjacency matrix is the number of images of atom j in the supercell that lie within the cutoff of atom i (exactly at it included), atoms numbered as in the structure, "
     "an atom not counting itself but counting its own images; within the range the supercell covers the matrix is symmetric. Even or non-positive scalings are rejected.",
     ["inputs"], "all crystals, cutoffs and scalings",
     "The test runs one structure and prints.",
     ["matersdk/feature/graph/edge.py"],
     [("adjacency", "AdjacentMatrix.get_adjacent_matrix")],
     PBT + "adjacency counts against brute force")
prop("C09", "Descriptor environment matrices follow the smooth-cutoff formula",
     "For any crystal, the local-environment matrix of each centre/neighbour species pair has one row per neighbour, nearest first, equal to s(r)*(1, x/r, y/r, z/r) with the smooth switching "
     "s(r)=1/r below the inner radius, (1/r)(u^3(-6u^2+15u-10)+1) between the radii and zero from the cutoff on, and zero rows as padding. "
     "Concatenating the pair blocks gives, for each centre, the blocks of the neighbour species in the requested order.",
     ["inputs"], "all crystals, inner radii, cutoffs and species orders",
     "Tests print one sample's matrix.",
     ["matersdk/feature/deepmd/premise.py", "matersdk/feature/deepmd/se_pair.py", "matersdk/feature/deepmd/se.py"],
     [("pair environment", "DpFeaturePairPremiseDescriptor"), ("smooth matrix", "DpseTildeRPairDescriptor / DpseTildeRDescriptor")],
     PBT + "values against an independent formula over brute-force neighbours")
prop("C10", "Environment-matrix derivatives are the true derivatives",
     "The reported derivative of every environment-matrix entry with respect to the centre position equals the numerical derivative for any crystal, switching radii and neighbour distance, "
     "and is zero on padding rows and beyond the cutoff. The first column is invariant and the other columns co-rotate under rotation of the crystal.",
     ["inputs"], "all crystals and radii, neighbours in the inner, switching and outer ranges",
     "No test checks a derivative.",
     ["matersdk/feature/deepmd/se_pair.py", "matersdk/feature/deepmd/se.py"],
     [("derivative", "DpseTildeRPairDescriptor derivative")],
     PBT + "finite-difference and metamorphic rotation oracles")
prop("C11", "Structure edits keep each atom's species, position and properties together",
     "Reordering by element (ascending atomic number or a given list) permutes whole atoms and keeps the relative order within an element; removing vacancies removes exactly the vacancy sites; "
     "element counts list the total then the count per element in ascending atomic number or the requested order. The centroid is the mean Cartesian position, and looking up a position returns the "
     "one-based index of the home-cell atom of which it is a periodic image, or zero when there is none.",
     ["inputs"], "all structures, element orders, vacancy patterns and lattice shifts",
     "Tests print one sample.",
     ["matersdk/io/publicLayer/structure.py"],
     [("edits", "DStructure.reformat_elements / reformat_elements_ / remove_vacanies / get_natoms / get_site_index / get_centroid")],
     PBT + "edited structures against a list-of-atoms model")
prop("C12", "k-meshes resolve reciprocal space with the requested density",
     "For any cell and density the number of k-points along each axis is the length of the reciprocal lattice vector (without the factor 2 pi) divided by the density, rounded to the nearest integer and at least one; it is one along an axis whose "
     "cell length exceeds the Cartesian extent of the atoms along it by more than 10 Angstrom, and a density of zero gives 1x1x1. "
     "The irreducible points of a (shifted) mesh lie on that mesh, none is listed twice, every mesh point is related by a symmetry of the crystal (found with the requested tolerance) or inversion to exactly one listed point, whose weight counts them, so that the weights add up to the full mesh. "
     "The printed lattice summary shows the real and reciprocal vectors and lengths of the cell.",
     ["inputs"], "all cells, densities, meshes and shifts", "One sample is printed.",
     ["matersdk/calculation/kpoints/kmesh.py", "matersdk/calculation/kpoints/kpointsSampler.py"],
     [("mesh", "KMesh.get_kmesh"), ("sampling", "KPointsSampler.get_kpoints")],
     PBT + "mesh against independent reciprocal-lattice computation")
prop("C13", "High-symmetry k-path files reflect the path and the reciprocal lattice",
     "For any structure, dimension and point density, HIGHK lists every high-symmetry point once with its fractional coordinates and label, and gen.kpt lists the path segment by segment in order with both end points and labels and, as "
     "number of points, the Cartesian length of the segment in reciprocal space divided by the density, rounded up; two-dimensional paths keep only points of the plane. Existing files are replaced, not appended to.",
     ["inputs", "histories"], "all lattices, dimensions and densities", "One sample is run without assertion.",
     ["matersdk/calculation/kpath/kpathSampler.py"],
     [("k-path", "KpathSampler.output_HIGHK_file / output_gen_kpt")],
     PBT + "generated files parsed back and compared with the reciprocal-lattice geometry")
prop("C14", "k-point files are parsed faithfully",
     "For any k-point file (IN.KPT or OUT.KPT, with or without labels), the parsed flags, number of k-points, coordinates, weights and high-symmetry labels equal those in the file, distances along the path accumulate the Cartesian reciprocal-space lengths between "
     "consecutive points of the accompanying structure, and reading a path reflects its current content.",
     ["inputs", "histories"], "all k-point files, also rewritten ones", "One sample printed.",
     ["matersdk/io/pwmat/input/inkpt.py"], [("k-point file", "Inkpt")],
     PBT + "generated files against the generating model")
prop("C15", "Band edges and gaps are extracted correctly from reports",
     "For any eigenvalue report and Fermi level the number of bands and k-points, the structure name, the eigenvalues per spin and k-point and the Fermi level equal those written. The conduction (valence) band edge is the lowest state at or above "
     "(highest at or below) the Fermi level over all spins, k-points and bands, reported with one-based k-point and band numbers and spin together with the states of the same k-point degenerate with it within 1 meV; the gap is their difference, "
     "direct exactly when both sit at the same k-point. A metal (a band crossing the Fermi level) has no edges and zero gap. Reading a path reflects its current content.",
     ["inputs", "histories"], "all spin/k-point/band counts and eigenvalues", "One sample printed.",
     ["matersdk/io/pwmat/output/report.py", "matersdk/io/pwmat/output/outfermi.py"], [("report", "Report.get_cbm / get_vbm / get_bandgap / get_bandgap_type"), ("Fermi level", "OutFermi")],
     PBT + "generated reports against the generating model")
prop("C16", "DOS and fat-band totals add up per element and orbital",
     "For any DOS or fat-band table, the total, per-element and per-orbital tables equal exactly the matching columns or their sums: an element collects the columns of that element only, also when its symbol begins another one, and an orbital selected by name "
     "(in any letter case) returns its own column. Energies are unchanged, fat-band k-point positions are converted from 1/Bohr to 1/Angstrom, there is one fat-band table per band with one row per k-point, and the input file is left as it was with no other file left behind.",
     ["inputs"], "all element sets and orbitals, including symbols that prefix others", "One sample printed.",
     ["matersdk/io/pwmat/output/dostotalspin.py", "matersdk/io/pwmat/output/fatabandstructureTxt.py"], [("selection", "Dostotalspin / FatbandStructure")],
     PBT + "generated tables against column-sum oracle")
prop("C17", "Generated input files contain exactly the requested settings",
     "For any settings, the generated external-potential file (centre, field type, its parameters, switch), DOS input (flags, smearing and energy grid, interpolation grid) and slurm job script (each resource directive, then the command) contain exactly the requested values, each once, "
     "replacing whatever the file held before; an unknown field type is rejected.",
     ["inputs", "configurations"], "all settings", "One sample without assertion.",
     ["matersdk/io/pwmat/input/gen_vext.py", "matersdk/io/pwmat/input/dos_input.py", "matersdk/hpc/slurm/job.py"], [("writers", "GenVext / DosInput / Job")],
     PBT + "written files parsed back")
prop("C18", "Perturbed structures stay within the requested bounds",
     "Perturbing a structure gives the requested number of structures with the same species in the same order; the cell is deformed by a symmetric matrix whose diagonal differs from one by at most the requested fraction and whose off-diagonal entries are at most half of it, drawn "
     "uniformly, and turned to lower-triangular form; fractional coordinates follow the cell, and atoms are displaced independently and isotropically with the requested root-mean-square distance. Zero parameters change nothing, negative ones are rejected, copies differ from one another, and the input is unchanged. "
     "The batch form writes the requested number of perturbed files next to each input file.",
     ["inputs"], "all right-handed structures, fractions and distances, any random stream", "One sample printed.",
     ["matersdk/adalearn/generator/perturbation.py"], [("perturb", "PerturbStructure / BatchPerturbStructure")],
     PBT + "bounds, invariants and statistics over random streams")
prop("C19", "Trajectory averages equal their definitions",
     "The mean-square displacement between frames (with and without the centroid motion, along a trajectory between consecutive frames), the diffraction intensity derived from it, the average bond length of a species pair, the distance of an atom pair per frame, the average angle over all distinct "
     "pairs of neighbours of a centre, the tetrahedral order parameter, and the bond lengths selected by angle equal the values computed directly from the positions, straight angles included, on a machine with any number of processors.",
     ["inputs"], "all frame sets and bond/angle selections", "One sample printed.",
     ["matersdk/feature/avg/msd.py", "matersdk/feature/avg/avgbond.py", "matersdk/feature/avg/avgangle.py"], [("averages", "Msd / DiffractionIntensity / AvgBond / PairBond / AvgAngle")],
     PBT + "values against direct definitions")
prop("C20", "Structure collections keep frames and labels aligned",
     "Selecting from a collection of structures by integer, slice or index list (repeats included), in any sequence, keeps each frame's structure, energies and virial together and leaves earlier collections unchanged; an index out of range is an error. "
     "Exporting writes sets of the requested size (the last one smaller if need be) whose arrays hold every frame once in order, with the species map and the types of the atoms, replacing an earlier export; the per-image export writes one folder per frame with that frame's data. "
     "The reported maximum neighbour counts (overall and per species) are the maxima over all frames. None of this depends on the number of processors.",
     ["inputs", "histories"], "all collections, selections and set sizes", "Samples printed only.",
     ["matersdk/data/struct_collection.py"], [("collection", "StructCollection"), ("export", "StructCollection.to / save_all_info")],
     PBT + "operation sequences on collections against a list model")
prop("C21", "Force-field files are converted without losing or mixing parameters",
     "Every network parameter of a force-field file lands in the exported HDF5 under its own net, layer and kind with unchanged values and type, together with the layer sizes of both nets and the descriptor sizes M1 (width of the last embedding layer) and M2; an existing file is replaced.",
     ["inputs"], "all network shapes", "One missing sample.",
     ["matersdk/infer/pwmatmlff/deepmd/extractor.py"], [("export", "FFExtractor")],
     PBT + "generated parameter files against HDF5 content")
prop("C22", "Trajectory objects give per-frame structures and energies",
     "For any trajectory file, also with frames of different size, the structure, forces, atomic energies, total/potential/kinetic energy, virial and volume of every frame, asked for in any order or all at once, equal the data of that frame; absent quantities read as zeros (bulk virials as empty). "
     "The largest number of neighbours is the maximum over all frames, and the file is not changed.",
     ["inputs", "histories"], "all trajectories", "Sample printed.",
     ["matersdk/io/pwmat/output/movement.py", "matersdk/io/publicLayer/traj.py"], [("trajectory", "Movement")],
     PBT + "generated trajectories against the model")
prop("C23", "Native neighbour lists equal brute force, without memory errors",
     "For any structure (atoms also outside the cell, in any order), cutoff, bin size and periodicity along the three lattice axes, the native neighbour list contains for each atom exactly the periodic images within the cutoff, each once, nearest first if sorting is requested, with correct "
     "relative positions and distances. The reported maximum neighbour counts (overall and per species pair), the tables for machine learning with their padding, and the printed forms agree with it, copies and assignments are independent values, and memory it does not own is never touched.",
     ["inputs", "histories"], "all structures, cutoffs, bin sizes, pbc masks and histories of copies", "Tests print lists for one structure.",
     ["source/nblist/include/neighborList.h", "source/nblist/include/binLinkedList.h"], [("neighbour list", "matersdk::NeighborList"), ("bins", "matersdk::BinLinkedList")],
     PBT + "sanitized native harness against brute-force oracle")
prop("C24", "Native structures and supercells have value semantics and correct geometry",
     "Copies, assignments, self-assignments and moves of native structures, supercells and bins are independent values equal to their source, in any sequence of operations. A supercell holds every image once, ordered with the third axis fastest, its home-cell atoms marked as the owned ones; "
     "projected lengths, interplanar distances, vertexes, limits and bin geometry match their definitions, and every atom sits in exactly one bin. Single and double precision agree.",
     ["inputs", "histories"], "all structures, scalings and operation sequences", "Tests cover one structure.",
     ["source/nblist/include/structure.h", "source/nblist/include/binLinkedList.h"], [("structures", "matersdk::Structure"), ("supercells", "matersdk::Supercell"), ("bins", "matersdk::BinLinkedList")],
     PBT + "stateful operation sequences on a sanitized native harness against a model")
prop("C25", "The Python neighbour-list binding returns the native result intact",
     "Neighbour tables returned to Python equal brute force with the documented shapes, padding and types, for any input dtype and memory layout; the returned arrays own their data and stay unchanged by later calls, inputs are not modified, and a neighbour limit that is too small is reported as an error rather than truncated or written out of bounds.",
     ["inputs", "histories"], "all inputs and call sequences", "One sample printed.",
     ["source/nblist/bind/nblist.i", "source/nblist/bind/nblist_bind.h", "source/nblist/include/neighborList.h"], [("binding", "nblist module")],
     PBT + "binding built from the tree, sanitized child interpreter, brute-force oracle")
prop("C26", "The environment-matrix operators match their formula and derivative",
     "For any batch of neighbour tables or structures, in single or double precision and any memory layout, the flat-table environment matrix and the torch operators give for every centre the neighbour blocks by type, rows s(r)*(1, x/r, y/r, z/r) with the smooth switching, zero padded, with the analytic derivative "
     "(with respect to the relative vector for the plain operator, the centre position for the PWmat one, which also returns the relative coordinates and the neighbour indices padded with -1). Inputs are unchanged and neighbour limits that are too small are rejected.",
     ["inputs"], "all batches, neighbourhoods, radii, dtypes and layouts", "Tests print.",
     ["source/descriptor/deepmd/include", "source/descriptor/deepmd/src", "source/descriptor/deepmd/bind"], [("operators", "EnvMatrix / EnvMatrixOp / Se4pwOp")],
     PBT + "operator built from the tree against formula and finite differences")
prop("C27", "Native smooth-edition descriptors match the formula and its derivatives",
     "For any structure, explicit neighbour list or flat table, in single and double precision, the native pair and full descriptors group centres by the requested centre species, give neighbour blocks in the requested species order (nearest first for sorted lists) with rows s(r)*(1, x/r, y/r, z/r), zero padded, and the derivative with respect to the centre position. "
     "Neighbour limits that are too small are rejected, and copies are independent.",
     ["inputs", "histories"], "all structures, species orders, radii and neighbour limits", "Tests print one sample.",
     ["source/descriptor/deepmd/include", "source/descriptor/deepmd/src"], [("descriptors", "PairTildeR / TildeR / Se4pw")],
     PBT + "sanitized native harness against formula and finite differences")
prop("C28", "Moment-tensor level enumeration is complete and within level",
     "With the level of a moment M(mu,nu) being 2+4mu+nu, the enumerated basis for a maximum level consists of exactly the combinations whose total level does not exceed it and which can be contracted to a scalar (the largest rank equals the sum of the others, or every non-zero rank occurs an even number of times), each once, ordered by level, moments by descending rank. "
     "All schemes of a level, the number of radial functions needed, the legacy combination classes and copies of all of them agree with that.",
     ["inputs"], "all levels", "A few pinned counts.",
     ["source/descriptor/mtp/include", "source/descriptor/mtp/src"], [("levels", "MtpMCoeffPairCombs / MTPLevel / Combinations")],
     PBT + "enumeration against independent recursion")
prop("C29", "Moment-tensor radial functions and derivatives match their definition",
     "Chebyshev radial basis values, switching functions and their products, in every implementation and in single and double precision, match T_k(xi) times the switch for every radius and size, their derivatives match the derivative of the definition, and copies, assignments and moves of the basis objects are independent values.",
     ["inputs", "histories"], "all radii, ranges and sizes", "Tests print.",
     ["source/descriptor/mtp/include", "source/descriptor/mtpr/include", "source/descriptor/mtpr/src"], [("radial", "MtpQ / RB_Chebyshev / RQ_Chebyshev / RadialBasisChebyshev")],
     PBT + "sanitized native harness against formula and finite differences")
prop("C30", "Moment-tensor invariants are invariant and differentiable",
     "For any batch of neighbourhoods (types per batch or shared, any memory layout, single or double precision), the radial operator, the moments M(mu,nu) and the basis values equal their definitions, in the order of the enumerated combinations, with one trainable coefficient set per (mu, centre type, neighbour type). "
     "The basis values do not change under rotation, reflection or reordering of the neighbours, padding does not contribute, and gradients with respect to coordinates and coefficients match finite differences.",
     ["inputs"], "all neighbourhoods, batches, types and layouts", "Tests print.",
     ["source/descriptor/mtp/include", "source/descriptor/mtp/src"], [("basis", "MtpQOp / MtpMModule / MtpBModule")],
     PBT + "operators built from the tree; definitions, metamorphic and finite-difference oracles")
prop("C31", "Moment-tensor parameter files are parsed faithfully and copied as values",
     "Every table of a moment-tensor parameter file is parsed as written, also when an object is loaded again with another file, and printed as parsed. Missing, truncated or malformed files and negative counts are reported as an error without any memory error; copies, assignments and moves are independent values. "
     "The shipped templates are consistent: every index refers to an existing moment and every basis function is rotation invariant.",
     ["inputs", "histories"], "all files, corruptions and operation sequences", "One sample.",
     ["source/descriptor/mtpr/include", "source/descriptor/mtpr/src", "source/descriptor/mtpr/MTP_templates"], [("parameters", "MtpParam")],
     PBT + "generated and corrupted parameter files on a sanitized native harness")
prop("C32", "Core numeric helpers match exact references",
     "Dot and cross products, norms, normalisation, outer powers and the three-vector operators match reference computations for all values; 3-, 4- and 5-dimensional arrays are zero-initialised, independent in every element and freed without error; aligned arrays are 16-byte aligned values whose copies and moves are independent; the reported processor count is the number online.",
     ["inputs", "histories"], "all sizes, values and operation sequences", "A few values.",
     ["source/core/include"], [("helpers", "vec3Operation.h / arrayUtils.h / AlignedArray.h")],
     PBT + "sanitized native harness against numpy")
prop("C33", "Environment-matrix statistics and normalisation follow their definition",
     "For any set of frames, the statistics per centre species are the mean of the radial column (zero for the angular ones) and the standard deviations of the radial column and of the three angular columns pooled, over all centres, selected frames and padded neighbour rows, never below 0.01 and never undefined. "
     "Normalising subtracts the mean and divides by the deviation (derivatives are only divided), for one frame or many, and for a structure gives one row block per centre species and one column block per neighbour species in the requested orders. Incomplete statistics are rejected, and a normaliser written to a file reads back identical.",
     ["inputs", "histories"], "all frame selections, species orders, neighbour limits and statistics", "The test module cannot even be imported.",
     ["matersdk/feature/deepmd/preprocess.py"], [("statistics", "TildeRPairNormalizer.calc_stats / TildeRNormalizer.calc_stats"), ("normalisation", "TildeRNormalizer.normalize"), ("file", "TildeRNormalizer.to / from_file")],
     PBT + "generated arrays and crystals against independent statistics and formula")
prop("C34", "Inference inputs describe the same neighbours and reach the model intact",
     "For any structure, the inputs built for a force-field model - relative coordinates, normalised environment matrix, its derivative, one-based neighbour indices and atom counts - have the documented shapes with one row per atom grouped by species; each column describes one and the same neighbour in all of them, neighbour species blocks nearest first, and padding is zero "
     "(the normalised zero row in the matrix). Running a saved model passes exactly these inputs in double precision to the model in evaluation mode and returns its energy, atomic energies, forces and 3x3 virial. The structure is unchanged.",
     ["inputs"], "all structures, radii, neighbour limits and statistics", "The test modules cannot be imported.",
     ["matersdk/infer/pwmatmlff/deepmd/preprocess.py", "matersdk/infer/pwmatmlff/deepmd/inference.py", "matersdk/infer/pwmatmlff/deepmd/inference_depre.py"],
     [("inputs", "InferPreprocessor"), ("inference", "DpInfer.infer"), ("features", "FFInfer.calc_tildeR")],
     PBT + "model inputs against brute force; a recording model saved and loaded")
prop("C35", "Native objects and calls give back the memory they take",
     "Whatever structures, neighbour lists, descriptors, moment-tensor tables or core arrays are built, copied, assigned (also from or to empty ones), moved, reloaded, printed and destroyed, in any order, and however often the native routines, the Python binding and the torch operators are called, all memory they took is given back exactly once when the objects and results are released: "
     "repeating any successful call does not make the process grow, and nothing is freed twice or by the wrong routine.",
     ["inputs", "histories"], "all objects, sizes, operation sequences and call sequences", "The tests run each call once and do not look at memory.",
     ["source/core/include", "source/nblist/include", "source/nblist/bind", "source/descriptor/deepmd/include", "source/descriptor/mtp/include", "source/descriptor/mtpr/include", "source/descriptor/mtpr/src"],
     [("ownership", "destructors, copy and move operations of the native classes"), ("buffers", "TildeR::deriv / arrayUtils.h / RecursionOuterProduct"), ("binding", "find_info4mlff in nblist_bind.cc")],
     PBT + "operation histories on sanitized native harnesses, measuring the heap left behind")
prop("C36", "Compiled and Python routes give the same descriptors",
     "For any periodic crystal or batch of crystals, the compiled route a user reaches through `matersdk.fromcc` - neighbour table from the native binding, then the environment-matrix operator - gives per centre and species the same smooth environment rows as the Python descriptor classes, with derivatives of equal size and opposite sign (by the relative vector instead of the centre), "
     "nearest neighbours first when sorted, padding zero, from fractional or Cartesian coordinates, in double or single precision and for every order of species. A species limit too small for the neighbours is refused.",
     ["inputs"], "all crystals, batches, radii, limits and species orders", "No test runs both routes.",
     ["matersdk/fromcc/__init__.py", "source/nblist/bind", "source/nblist/include", "source/descriptor/deepmd", "matersdk/feature/deepmd/se_pair.py", "matersdk/io/publicLayer/neigh.py"],
     [("compiled route", "fromcc.nblist.find_info4mlff -> fromcc.envMatrixOp"), ("Python route", "DpseTildeRPairDescriptor.dp_feature_pair_tildeR / calc_derivative")],
     PBT + "differential between the two routes and an independent formula, native parts built from the tree and sanitized")
