"""One source for properties.jsonl and MANIFEST.json:  python catalog.py  rewrites both."""
import json, os

HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, level_note=None, technique=None):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()), over=over, text=" ".join(text.split()), why=" ".join(why.split()),
                  files=["src/pyscal/" + f for f in files], mech=mech, state=state,
                  note=" ".join((level_note or "").split()), technique=technique))


S = "simulation"

prop("C01", "Trajectory slices show exactly the frames they name",
     """A Trajectory shows the complete frames of its dump file, and indexing, slicing (negative bounds and steps included), adding slices and
     iterating give exactly the frames Python list semantics name, in that order, with atom numbers, ids, types, positions, cell and extra
     columns as in the file, for every output form (System, ASE, dict, raw block, file).
     This holds whatever other objects or threads read the same or other files meanwhile, and an index out of range is refused.
     A read that fails on the disk is reported, and asking again gives the right frames.""",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "every dump file (orthogonal, triclinic, scaled, extra columns, any number of frames and of atoms per frame), every sequence of index/slice/sum/iterate/convert calls, every interleaving of client threads at line and disk-operation granularity, every read fault",
     "The tests read a handful of frames of one fixed file, in order, alone and on a healthy disk.",
     ["trajectory.py", "traj_process.py", "formats/lammps.py", "formats/ase.py"],
     [("index of frames by byte offset", "trajectory.py Trajectory"), ("slices as lists of (trajectory, frame)", "trajectory.py Timeslice"),
      ("parsing of one snapshot", "formats/lammps.py read_snap")],
     technique="deterministic simulation: seeded interleavings of reader threads over a simulated disk with read faults, against a reference parser of the generated frames")

prop("C02", "Only complete frames of a growing or truncated trajectory are shown",
     """Opening a trajectory file that a simulation is still writing, or whose tail was lost in a crash, shows exactly the frames that are
     complete (the last line may lack its line end), each with its own data, and never a frame made of partial data.
     Frames that an object already shows stay readable and unchanged while the file grows; frames that were cut off are never shown with wrong content.
     A file opened again after the writer finished shows all of it.""",
     ["crash_points", "schedules", "inputs"],
     "every byte at which the writer can stop or the file can be cut, every interleaving of the writer's appends with the readers' raw reads, every dump layout",
     "The tests only open complete files that nobody writes to.",
     ["trajectory.py"],
     [("scan of the file for frame starts, check of the last frame", "trajectory.py Trajectory._get_frames / get_natoms"), ("reading a block of lines", "trajectory.py get_block")],
     technique="deterministic simulation: writer process stopped or truncated at seeded bytes, interleaved with reader threads on a simulated disk")

prop("C03", "Loaded and modified frames are written as modified, others verbatim",
     """After any sequence of load, modification, unload, conversion and writing, a written trajectory contains every requested frame once and in
     order: modified data for frames that are loaded, the data of the file for all others, both in full precision and re-readable as a trajectory.
     Reading or converting a frame never changes whether it is loaded, and data handed out for a frame that is not loaded is not part of the trajectory.
     A load that fails leaves the frame as it was.""",
     ["histories", "schedules", "fault_sequences"],
     "every history of load/modify/unload/to_dict/to_system/to_file/add on several trajectories, by several threads with objects of their own, with read faults in between",
     "The tests load one frame once and write it without changes in between.",
     ["trajectory.py", "formats/lammps.py"],
     [("loaded frames", "trajectory.py Trajectory.load / unload / data"), ("writing of modified blocks", "trajectory.py Timeslice.to_file / Trajectory._convert_data_to_lines")],
     technique="deterministic simulation: seeded load/modify/unload/write histories with read faults, against an executable model of the loaded frames")

prop("C04", "What is written to a file is read back",
     """A System written to a file (dump, compressed dump, several snapshots in one file, POSCAR, extended xyz) and read back gives the same
     number of atoms, ids, types or species, cell (up to a common rotation), positions, time step and custom columns, to the precision of the format.
     Writing does not change the System, and older contents of the file leave no trace.""",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "every configuration (orthogonal, triclinic, rotated; from one atom on; with and without periodic images; any ids and types), every supported format and custom column source, every order of writes and reads of several clients, read faults with retries",
     "The tests write one orthogonal crystal and mostly check that reading back gives the same number of atoms.",
     ["core.py", "traj_process.py", "formats/lammps.py", "formats/ase.py"],
     [("writing", "core.py to_file, formats/lammps.py write_snap, formats/ase.py"), ("reading", "core.py read_inputfile, traj_process.py read_file")],
     technique="deterministic simulation: seeded write/read round trips of several clients on a simulated disk, against the generated configuration")

prop("C05", "Failures while writing are reported and do no harm",
     """If writing a file returns without an exception, the file holds exactly what it would hold on a healthy disk; if anything goes wrong on the
     disk, the call raises.
     A failed or interrupted write changes neither the System nor the Trajectory it was called on, and trying again writes the complete file, also
     while the first error is still being handled; a process that dies while writing leaves a prefix of the file.""",
     ["fault_sequences", "crash_points", "inputs"],
     "every raw disk operation of a write at which the disk can be full, fail, accept only a part or the process can die or be interrupted, for every format and buffer size",
     "The tests never let a write fail.",
     ["formats/lammps.py", "formats/ase.py", "traj_process.py", "trajectory.py"],
     [("writing through buffers that are flushed and closed before returning", "formats/lammps.py write_snap, trajectory.py Timeslice.to_file, traj_process.py split_trajectory")],
     technique="deterministic simulation with fault injection: full disk, I/O errors, short writes, crashes and interrupts at seeded raw operations, against the file written on a healthy disk")

prop("C06", "A snapshot is read completely or not at all",
     """Reading a file that is cut off, damaged, missing a required column, missing altogether or failing on the disk raises, and leaves the atoms
     and the cell of the System as they were; it never gives a System with some of the atoms or with wrong data.
     Reading the healthy file afterwards gives exactly its snapshot.""",
     ["crash_points", "fault_sequences", "inputs", "schedules"],
     "every byte at which a file can be cut, flips in compressed data, damaged fields, every read fault, in every format, into fresh and used Systems",
     "The tests only read healthy files.",
     ["core.py", "traj_process.py", "formats/lammps.py", "formats/ase.py"],
     [("everything is parsed before anything is assigned", "core.py read_inputfile"), ("checks of the number of atoms and columns", "formats/lammps.py read_snap")],
     technique="deterministic simulation with fault injection: files cut or damaged at seeded points and failing reads, judged against the generated snapshot")

prop("C07", "Splitting a trajectory gives every complete frame a file of its own",
     """Splitting a trajectory returns one distinct existing file per complete frame, in order, each holding exactly the lines of its frame, whatever
     is left over in the directory from earlier splits and whatever other splits run at the same time.
     A torn last frame is not written, the trajectory file is never touched, and a split that fails raises and can be repeated.""",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "every trajectory (plain, compressed, triclinic, any number of frames, torn tails), every leftover, every interleaving of several splits, every disk fault",
     "One test splits one healthy file and counts the results.",
     ["traj_process.py"],
     [("splitting by blocks", "traj_process.py split_trajectory")],
     technique="deterministic simulation: seeded splits by several threads over leftovers, torn files and disk faults, against the generated frames")

prop("C08", "Energies computed by LAMMPS belong to their atoms, no file is left behind",
     """Computing energies gives every atom the energy LAMMPS reports for that atom, whatever its id, position in the list or the order in which
     LAMMPS returns them, and averaged energies are the mean over the atom and its neighbors across periodic boundaries.
     No temporary file remains when the call ends, successfully or not; a failed call changes no energies, and computations of several threads do not mix.""",
     ["inputs", "histories", "schedules", "fault_sequences"],
     "every configuration, every order in which LAMMPS may return atoms, failures at every LAMMPS command and disk operation, every interleaving of several clients",
     "The energy test needs a LAMMPS installation and is skipped without it; it uses one perfect crystal in which all atoms are alike.",
     ["core.py", "routines.py", "formats/ase.py"],
     [("assignment of energies by position in the data file", "core.py calculate_energy"), ("temporary input file", "core.py calculate_energy"), ("LAMMPS commands", "routines.py get_energy_atom")],
     technique="deterministic simulation: simulated LAMMPS with seeded atom order and failures, disk faults, interleaved clients, against energies that are functions of the coordinates",
     level_note="LAMMPS itself is a stub that evaluates a function of the coordinates in the data file it is given.")

prop("C09", "A System keeps exactly the configuration and fields it was given",
     """A System shows exactly the atoms (positions, ids, types, order), cell and per-atom fields that were last assigned: replaced, moved, added and
     retyped atoms, fields written with set_atom, new cells, replicated and remapped configurations, into fresh and used Systems.
     Lists and atoms handed in or out are copies: changing them changes nothing until they are assigned.  Analyses never alter the configuration or show
     periodic images as atoms, and an assignment that fails leaves the previous configuration complete.""",
     ["inputs", "histories", "fault_sequences"],
     "every history of assignments, field changes, additions, replications, remaps and analyses on configurations from one atom on, with allocation failures inside of assignments",
     "The tests assign one crystal to a fresh System and read single fields back.",
     ["core.py", "system.cpp", "atom.cpp"],
     [("assignment of atoms and cell with periodic images", "core.py _assign_configuration"), ("atoms stored in the core", "system.cpp set_atoms / add_atoms / satom"), ("fields", "atom.cpp")],
     technique="deterministic simulation: seeded histories of assignments and analyses with allocation failures, against a model of everything that was stored")

prop("C10", "Neighbors within a cutoff are exact after any history",
     """Whatever was done with the System before (other configurations, moved, added or retyped atoms, changed cells, other analyses, calls that failed), finding
     neighbors with a cutoff gives every atom exactly the atoms whose periodic images lie within the cutoff (restricted by the type filter), each
     once, with index, displacement vector, distance and unit weight belonging together.
     This holds for every cell shape and size, with and without stored images and cell lists, for cutoffs up to half of the width of the stored cell; distances between two atoms are those of the nearest images,
     and positions mapped back are images in the stored cell.""",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "every configuration from one atom to beyond the switch to cell lists, orthogonal, triclinic and rotated cells, every cutoff, every preceding history of changes, analyses and failed analyses",
     "The tests count neighbors of perfect crystals in fresh Systems with one cutoff each.",
     ["core.py", "system.cpp"],
     [("pair loop and cell lists", "system.cpp get_all_neighbors_normal / get_all_neighbors_cells"), ("minimum image", "system.cpp get_abs_distance"), ("periodic images of small configurations", "core.py atoms setter"), ("reset of neighbors", "system.cpp reset_all_neighbors")],
     technique="deterministic simulation: seeded histories with allocation failures, interrupts and failing callbacks, against a KD-tree over explicit periodic images")

prop("C11", "Adaptive, SANN and fixed-number neighbors follow their definitions",
     """Whatever was done with the System before, neighbors found with the adaptive cutoff are those within padding times the mean distance of the nlimit nearest
     atoms, with the number method exactly the nmax nearest, with SANN those of the published definition, all across periodic boundaries and with index, vector and distance belonging together.
     A search that cannot find enough atoms is refused instead of giving incomplete lists.""",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "every configuration, parameters (threshold, nlimit, padding, nmax, filters), every preceding history of changes, analyses and failed analyses",
     "The tests check the number of neighbors of perfect crystals in fresh Systems.",
     ["core.py", "system.cpp"],
     [("adaptive, SANN and number searches", "system.cpp get_all_neighbors_adaptive / _sann / _bynumber"), ("retries with a larger threshold", "core.py find_neighbors")],
     technique="deterministic simulation: seeded histories with faults, against the definitions evaluated on explicit periodic images",
     level_note="Known finding: SANN leaves out the fourth nearest atom, which an existing test pins.")

prop("C12", "Voronoi cells, faces and weights are those of the periodic configuration",
     """Whatever was done with the System before, Voronoi neighbors of an atom are the atoms with which its cell shares a face in the periodic
     configuration (restricted by the type filter), with displacement, weight (share of the face area, to the given power), vertices, perimeter and number of edges of
     that face belonging together; volumes are those of the cells and add up to the box, averaged volumes are the mean over atom and neighbors,
     Voronoi vectors count the faces by their edges, whose lengths are kept with the atom.
     This holds for orthogonal and triclinic cells from one atom on in which neighbors are closer than half of the width of the stored cell; the configuration stays as it was.""",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "every configuration up to some hundred atoms, every filter and exponent, every preceding history of changes, analyses and failed analyses, any content of fresh memory",
     "The tests check volumes and vectors of one perfect crystal in a fresh System.",
     ["core.py", "system.cpp"],
     [("cells by voro++", "system.cpp get_all_neighbors_voronoi"), ("triclinic boxes by ghost atoms", "core.py _find_neighbors_voronoi_triclinic"), ("averaged volumes", "system.cpp find_average_volume"), ("Voronoi vector", "core.py calculate_vorovector")],
     technique="deterministic simulation: seeded histories with faults and seeded memory contents, against Voronoi diagrams (qhull) of explicit periodic images")

prop("C13", "Steinhardt parameters and disorder are those of the listed neighbors",
     """After any history, q_l is computed from the spherical harmonics of the neighbors that are listed, weighted by their weights, averaged q_l is the mean over
     the atom and these neighbors across periodic boundaries, and disorder is the mean over neighbors of Sii + Sjj - 2Sij.
     A condition restricts both to neighbors of equal condition, holds until neighbors are found again or it is cleared, and is not changed by clustering.
     A call that fails (callback, memory, interrupt, wrong arguments) can be repeated and then gives the same as if it had never failed.""",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "every configuration, neighbor method, order 2-12, kind of condition, every sequence of calculations, failures at every allocation, callback call or line",
     "The tests compare q values of perfect crystals, calculated once, with their known values.",
     ["core.py", "system.cpp"],
     [("q and averaged q", "system.cpp calculate_q / calculate_aq"), ("conditions", "core.py calculate_q"), ("disorder", "system.cpp calculate_disorder")],
     technique="deterministic simulation: seeded histories with allocation failures, interrupts and failing callbacks, against scipy spherical harmonics over the listed neighbors")

prop("C14", "Clusters are the connected components of the chosen atoms",
     """After any history, clustering by a function, attribute or custom value puts exactly the atoms that fulfill the condition into clusters: two are in the same one if and
     only if they are connected through listed neighbors within the cutoff, across periodic boundaries and independent of the order of atoms.
     The size returned and the atoms marked are those of a largest cluster.  A clustering that fails can be repeated; a condition that is refused changes nothing.""",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "every configuration, neighbor method, condition and cutoff, every sequence of clusterings and other analyses, failures at every allocation, callback call or line",
     "The tests cluster perfect crystals in which every atom, or none, belongs to one cluster.",
     ["core.py", "system.cpp"],
     [("clusters", "system.cpp find_clusters_recursive"), ("largest cluster", "system.cpp largest_cluster / get_largest_cluster_atoms"), ("conditions", "core.py cluster_atoms")],
     technique="deterministic simulation: seeded histories with allocation failures, interrupts and failing callbacks, against connected components (scipy) of the listed neighbors")

prop("C15", "Solid atoms, their bonds and clusters follow the definition",
     """After any history, find_solids marks exactly the atoms whose number (integer) or fraction (float) of neighbors with Sij beyond the threshold exceeds the
     required one and whose average Sij is beyond the average threshold, in the chosen direction, for every order; Sij, averages and the number of
     solid bonds of an atom (Atom.bonds) belong to the listed neighbors, and stay when they are calculated again.
     The size returned is that of the largest cluster of solid atoms, and solid atoms are on its surface if they have a neighbor that is not solid.
     Wrong arguments are refused without changing anything, a call that fails can be repeated.""",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "every configuration, neighbor method, combination of thresholds, bonds, order and direction, every sequence of calls, failures at every allocation or line",
     "The tests classify one perfect crystal in which all atoms are alike.",
     ["core.py", "system.cpp"],
     [("bonds", "system.cpp calculate_frenkel_numbers / get_number_from_bond"), ("solids", "system.cpp find_solid_atoms"), ("arguments", "core.py find_solids")],
     technique="deterministic simulation: seeded histories with allocation failures and interrupts, against the definition evaluated on the listed neighbors")

prop("C16", "Angular, chi, entropy, centro, short range order and RDF follow definitions",
     """After any history of loading, changing, failing and repeated analyses, for every configuration, box and neighbor method: the angular criterion is the sum over pairs
     of the four nearest listed neighbors of (cos + 1/3)^2; chi parameters are the histogram of the cosines between all pairs of listed neighbors in the documented bins
     (cosines are stored next to the other custom values if asked for); the entropy is the trapezoidal integral, to within one step, of the pair entropy fingerprint of the
     listed neighbors (in units of 2 pi k_B, g log g being 0 where g is 0), with the global or the local density, and the averaged entropy is the mean over the atom and
     its neighbors, weighted by the switching function (1-(r/ra)^N)/(1-(r/ra)^M) if asked for; the centrosymmetry is the sum of the nmax/2 smallest |r_i+r_j|^2 over pairs
     of the nmax nearest atoms (where those lie within half of the box); short range order values are those of the types of neighbors in one or two shells, whichever
     numbers the types have, and their mean is over the atoms of the reference type; the histogram of the pair distribution counts the pairs of minimum images;
     the concentration is the number of atoms of each type.  A call that fails can be repeated.""",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "every configuration, box, neighbor method, parameter and sequence of calls, failures at every allocation or line of the calculation",
     "The tests compute each value once for a perfect crystal with one set of parameters.",
     ["core.py", "system.cpp", "atom.cpp"],
     [("entropy", "atom.cpp gmr / trapezoid_integration / system.cpp entropy, average_entropy, average_entropy_switch"), ("centrosymmetry", "atom.cpp get_csm"),
      ("angular, chi, short range order", "core.py calculate_angularcriteria / calculate_chiparams / calculate_sro / calculate_pmsro"),
      ("pair distribution", "core.py calculate_rdf / system.cpp get_pairdistances")],
     technique="deterministic simulation: seeded histories with allocation failures and interrupts, against the definitions evaluated on listed neighbors or explicit periodic images")

prop("C17", "Structures found by common neighbor analysis follow the definition",
     """After any history, for every configuration and box: calculate_cna() and calculate_cna(lattice_constant) give each atom the structure (fcc, hcp, icosahedral by its 12
     nearest atoms, bcc by its 14 nearest) whose signatures its neighbors have with the documented cutoffs, and identify_diamond() those of cubic and hexagonal diamond
     and of their first and second neighbors, or none, wherever this does not depend on rounding and the cell is large enough for it; find_diamond_neighbors() lists, for each atom, the four nearest neighbors of its four nearest neighbors, without the atom itself.
     The structures shown are those of the last call, the numbers returned are the numbers of atoms of each structure.  A call that fails can be repeated.""",
     ["inputs", "histories", "configurations", "fault_sequences"],
     "every configuration (crystals, stacking faults, vacancies, noise, clusters, disorder), cell, lattice constant and sequence of calls, failures at every allocation or line",
     "The tests count the structures of five perfect crystals.",
     ["core.py", "system.cpp"],
     [("signatures", "system.cpp get_common_neighbors / get_common_bonds"), ("structures", "system.cpp identify_cn12 / identify_cn14 / identify_cndia"),
      ("neighbors", "system.cpp get_cna_neighbors / get_acna_neighbors / get_diamond_neighbors")],
     technique="deterministic simulation: seeded histories with allocation failures and interrupts, against the definition evaluated on explicit periodic images")

prop("C18", "Systems, atoms, trajectories and threads do not influence each other",
     """Whatever several threads do with Systems and trajectories of their own, interleaved in any way, also if calls of one of them are interrupted or its callbacks raise
     exceptions: each of them sees exactly (bit by bit) what it sees if it runs alone, for all fields of all atoms, files read and files written, although they may read the
     same files and assign the same Atom objects and box arrays.  Atoms handed out by a System, or assigned to it, are copies: they do not change when the System does, and
     the other way round.""",
     ["schedules", "histories", "configurations", "fault_sequences"],
     "every interleaving at lines of the package of every sequence of operations of any number of threads",
     "The tests use one thread and one System at a time.",
     ["core.py", "system.cpp", "system_binding.cpp", "atom_binding.cpp", "traj_process.py", "trajectory.py"],
     [("copies of atoms", "system.cpp set_atoms / gget_atoms, atom_binding.cpp"), ("state of a System", "core.py System"), ("files", "traj_process.py, formats/")],
     technique="deterministic simulation: seeded interleavings of threads at every line of the package with interrupts, against the same operations executed alone")

prop("C19", "Results depend on the configuration and the calls only, not on the past",
     """The same sequence of calls on the same configuration gives the same values, bit by bit, for every field of every atom and everything returned, in a System that is new and
     in one that had other configurations, analyses, failed or interrupted calls before, whatever the process did before, whatever memory contains when it is allocated, whatever
     state the global random generators have, and however often the sequence is repeated.""",
     ["histories", "configurations", "inputs", "fault_sequences"],
     "every history, configuration and sequence of analyses, every content of fresh memory",
     "The tests use a new System for each calculation, in a process with little history.",
     ["core.py", "system.cpp", "atom.cpp", "traj_process.py"],
     [("state of a System", "core.py System / system.cpp System"), ("initial values", "atom.cpp Atom::Atom, system.cpp System::System"),
      ("results of earlier neighbor searches", "system.cpp reset_all_neighbors / reset_main_neighbors")],
     technique="deterministic simulation: seeded histories with failures and seeded contents of fresh memory, against the same calls in a new System")

prop("C20", "Operations, failed ones included, leave nothing behind",
     """A process may repeat any operations - analyses, assignments, reading, writing and splitting files, opening, slicing, loading, converting and unloading trajectories, energies,
     making and dropping objects - as often as it likes, also if they fail (no memory, an exception in a callback, a disk error, a LAMMPS command that fails, an interrupt): when a call has
     returned or its error is dropped no file is left open, no file is left on the disk that was not asked for, and once the objects made are dropped memory and the number
     of objects do not grow from repetition to repetition. The working directory, numpy's error handling, the warning filters, signal handlers and other settings of the process
     are as they were.""",
     ["histories", "fault_sequences", "inputs"],
     "every cycle of operations, every failing step in it, any number of repetitions",
     "The tests call each operation once or twice, without failures, and do not look at what the process holds afterwards.",
     ["core.py", "trajectory.py", "traj_process.py", "routines.py", "formats/lammps.py", "formats/vasp.py", "system.cpp", "atom.cpp"],
     [("opening and closing files", "traj_process.py, trajectory.py, formats/"), ("temporary input of LAMMPS", "core.py calculate_energy"),
      ("loaded frames", "trajectory.py load / unload"), ("memory of neighbor searches and Voronoi cells", "system.cpp")],
     technique="deterministic simulation: repeated seeded cycles of operations with failures, counting files, memory and objects after each")

prop("C21", "An operation that fails at any point harms nothing and can be repeated",
     """Whatever point an operation fails at - an allocation of the extension modules, an exception of the callback it was given, an error of the disk, an interrupt - the failure is reported as an exception (never a crash or a silently partial result), the configuration of a System and the frames of a Trajectory are those from before,
     or those that were being assigned, and calling the same operation again, in the same object, shows exactly what an execution without failures shows: every field of every atom,
     every value returned, every byte of a file written, and which frames are loaded.
     (After an interrupt of an operation on a System, its configuration is assigned again first.)""",
     ["fault_sequences", "crash_points", "inputs"],
     "every operation (analyses, assignments, crystals, files read and written, trajectories opened, sliced, loaded, converted, split), every allocation, line, disk operation or callback in it that may fail",
     "The tests have no failures in the middle of an operation.",
     ["core.py", "trajectory.py", "traj_process.py", "crystal_structures.py", "formats/lammps.py", "formats/vasp.py", "formats/ase.py", "system.cpp", "atom.cpp"],
     [("exchange of atoms, box and neighbors", "core.py, system.cpp"), ("searches and analyses that build on partial results", "core.py find_neighbors, find_solids, calculate_*"),
      ("frames that are loaded to be converted", "trajectory.py to_dict, _get_block_data"), ("files that are replaced", "traj_process.py write_file")],
     technique="deterministic simulation: failures injected at places spread over all counted allocations, lines, disk operations and callbacks of an operation, against its undisturbed execution")

prop("C22", "Crystals made and structures taken over or examined are those described",
     """make_crystal() gives, for every structure, lattice constant, repetitions and c/a ratio, each site of the periodic lattice exactly once, with the type of the site, ids from 1 on
     and the box of the crystal; noise displaces every atom and coordinate independently with the given standard deviation, as the state of numpy's random numbers tells.
     ASE and MDTraj objects (of several frames, the first one) that are read give every atom with its position, species and type (numbered in alphabetical order) and the cell, and are not changed.
     find_tetrahedral_voids() and compare_atomic_env() return and print the sites (types, volumes, positions in direct or Cartesian coordinates) and the environments (volumes, polyhedra,
     numbers of atoms) of the periodic configuration in the file, in any box.  A call that was interrupted, or failed by the disk, can be repeated.""",
     ["inputs", "configurations", "fault_sequences"],
     "every structure, lattice constant, number of repetitions, noise and random state; every configuration in a file or an object, every failing read, every sequence of calls",
     "The tests count the atoms of the crystals; objects of MDTraj, tetrahedral sites and environments are not tested.",
     ["crystal_structures.py", "misc.py", "traj_process.py", "formats/ase.py", "formats/mdtraj.py", "core.py"],
     [("unit cells and their repetition", "crystal_structures.py make_crystal"), ("sites and environments from Voronoi cells", "misc.py"), ("objects of other libraries", "formats/ase.py, formats/mdtraj.py read_snap")],
     technique="deterministic simulation: seeded sequences of calls with read faults and interrupts, seeded random numbers, against the definition of the lattices and the explicit periodic configuration")

prop("C23", "A plot shows the cell and the atoms of the system, however often it is rendered",
     """System.show() makes a plot that shows, every time it is rendered, exactly the twelve edges of the simulation cell and one marker inside it for each atom of the system (those that
     pass `filterby`, if it is given; ghost atoms are not shown), at its position or a periodic image, colored with the value of `colorby` (an attribute, a custom value, or `q6`, `aq6` ...) of the same atom, with the
     radius and color scale chosen.  It shows the system as it was when it was plotted, whatever happens to the system later, in which order plots are made and rendered, and whatever failed
     in between; showing changes nothing in the system, and a property that atoms do not have is refused.  create_box_plot() outlines the cell at the origin given; plot_3d() shows the positions it is given.""",
     ["inputs", "configurations", "histories", "fault_sequences"],
     "every configuration, cell, property, order of plots, user events and changes to the system, every failing display or allocation or interrupt",
     "Plots are not tested.",
     ["visualization.py", "core.py"],
     [("the picture", "visualization.py plot_system, plot_3d, create_box_plot"), ("values of atoms", "core.py get_custom")],
     technique="deterministic simulation: seeded user events (controls, buttons) on recorded pictures in histories of changes and failures, compared with the configuration at the time of the plot")

NA = [
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                     why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where="src/pyscal/" + b) for a, b in p["mech"]]))
            if p["state"]:
                d["anchors"]["state"] = [dict(name=a, meaning=b, where="src/pyscal/" + c) for a, b, c in p["state"]]
            assert len(d["title"]) <= 80, d["title"]
            f.write(json.dumps(d) + "\n")
    na = {a: b for a, b in NA}
    checks = [dict(property=p["id"], quick_cmd="./check " + p["id"], thorough_cmd="./check %s --tier thorough" % p["id"],
                   technique=p["technique"], level="exploration",
                   level_note="Seeded search over histories, schedules and faults on the real code; finds violations, does not prove their absence. " + p["note"])
              for p in P if p["id"] not in na]
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[dict(property=a, reason=b) for a, b in NA],
             notes="No hooks in /repo: the seams (raw files, allocator of the extension modules, threads, clock, random numbers, lammps) are installed from outside. See DESIGN.md.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
