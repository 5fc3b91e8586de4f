#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts)."""
import json, os

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe),
            "hook_needed": hook,
        },
    })


prop("C01", "Python particle storage behaves as one ordered list",
     "For every history of additions, whole-storage read passes and update passes that keep, change or drop arbitrary items, the Python segmented storage holds exactly the items added and not dropped, in their order and with their values, whatever the segment length and wherever the count falls relative to a segment boundary. The item count, indexed reads and writes, the (segment, offset) lookup, the segments and per-segment counts delivered by a read pass, the index returned for an added item and the full indices computed inside a pass all agree with that list. Capacity and memory figures are whole segments, never below the count, never shrink, and grow only when the existing segments are full.",
     ["histories"], "all operation sequences (push, read pass, update pass with every keep/drop mask, partial pass, set count, indexed write) up to a depth, for segment lengths 1..3",
     "The unit test exercises one fixed script of pushes, one full loop and one deletion pattern; boundary arithmetic (exact multiples, emptied storage, pushes after a pass) depends on the history.",
     ["SegmentedArrayPair_Module.py"],
     [("push_back / add_segment", "SegmentedArrayPair_Module.py"), ("init_inout_loop / get_next_segment / get_next_out_segment / set_number_of_items", "SegmentedArrayPair_Module.py")],
     [("first_not_full_segment, first_available_offset", "where the next item goes, per side of the pair", "SegmentedArrayPair_C.__init__"), ("in/out_segmented_array", "which side is current", "SegmentedArrayPair_C.__init__")],
     ["public methods of SegmentedArrayPair_C"])

prop("C02", "C++ particle storage behaves as one ordered list, for every particle type",
     "For every history of additions (as tuple, list, dict-like record or one-element record array), read passes and update passes that keep, change or drop arbitrary items, the compiled segmented storage holds exactly the items added and not dropped, in order and with every field's value, for each supported coordinate system. Its count, lookup by index, segment loops, returned indices and capacity agree with that list, and no history makes it abort.",
     ["histories"], "all operation sequences up to a depth for segment lengths 1..3, for the 1D, 2D, 3D and spherical particle types",
     "Existing tests push a few particles into one type and read them back; the class is a template instantiated per type, with several push overloads and its own counters.",
     ["cpp/SegmentedArrayPair.h", "cpp/Pstruct.h", "cpp/segmented_array_pair_solib.cpp"],
     [("SegmentedArrayPair<PT>", "cpp/SegmentedArrayPair.h"), ("Pstruct<PT>::set_from_*", "cpp/Pstruct.h")],
     [("first_not_full_segment, first_available_offset, current_segment", "next free slot / loop position", "cpp/SegmentedArrayPair.h")],
     ["the pybind11 classes SegmentedArrayPair_*"])

prop("C03", "No particle is lost, duplicated, reordered or altered by time-stepping",
     "Over any history of adding particles and advancing them, each species contains exactly the particles that were added and have not been absorbed at a boundary, in creation order, each keeping its identity, weight and bit flags; the particle counts reported are exactly the number of survivors. This holds for the charged, neutral and uniform-field movers, in Python and compiled form, for every pattern of which particles die at which step and every relation of the count to the segment size. Advancing one species leaves every other species untouched.",
     ["histories"], "every assignment of a death step (or none) to each of N particles over T steps, with particles added between steps, N crossing 0..3 segments; per mover and dimension",
     "Tests move 2-3 particles, far fewer than a segment, so no pass ever crosses a segment boundary or empties a segment.",
     ["Particle_Module.py", "SegmentedArrayPair_Module.py", "cpp/advance_neutral_species_cartesian_xy.cpp", "cpp/advance_neutral_species_cartesian_xyz.cpp", "cpp/advance_charged_species_in_E_field_cartesian_x.cpp", "cpp/advance_charged_species_in_E_field_cartesian_xy.cpp", "cpp/advance_charged_species_in_E_field_spherical_r.cpp", "cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp"],
     [("ip_in/ip_out compaction loop", "each mover"), ("delete flag", "Particle_C.DELETE_FLAG")],
     [("sap_dict", "one storage pair per species", "Particle_C.__init__")],
     ["Particle_C.get_species_particle_count, get_total_particle_count, sap_dict[...] contents"])

prop("C04", "Python movers keep every particle in the cell that contains it",
     "After each step of the Python charged and neutral movers, a surviving particle's position is its starting position plus velocity times the timestep (when no boundary acts on it), its recorded cell is a mesh cell that contains that position, and its crossing count is the number of cell facets its straight path crossed in that step. A particle whose path leaves the mesh through an absorbing boundary is removed, and no other particle is removed. This holds in 1D, 2D and 3D for any starting point and direction (a path running exactly along a facet or through an edge may be counted either way) and for any number of cells crossed in one step.",
     ["inputs", "histories"], "every start position and displacement on a lattice over small 1D/2D/3D meshes, multi-step; compared with exact rational ray tracing",
     "Tests use one or two hand-picked trajectories per dimension.",
     ["Particle_Module.py", "Dolfin_Module.py"],
     [("facet-crossing while loop", "Particle_C.advance_charged_species_in_E_field, advance_neutral_species"), ("find_facet", "Dolfin_Module.Mesh_C.find_facet"), ("cell neighbor table", "Mesh_C.compute_cell_neighbors_dict")],
     [("cell_index, crossings, x0", "per-particle tracking fields", "Particle_C.__init__ dtype")],
     ["the particle records after advance_*"])

prop("C05", "Compiled movers keep every particle in the cell that contains it",
     "After each step of the compiled movers (charged: x, xy and spherical-radial; neutral: xy and xyz), a surviving particle's position is its starting position plus velocity times the timestep (when no boundary acts on it), its recorded cell contains that position, its crossing count is the number of facets its path crossed, and exactly the particles whose straight path leaves through an absorbing boundary are removed. The result is the one the exact geometry dictates, and the one the Python mover gives where both exist. This holds on any mesh of intervals, triangles or tetrahedra, however its vertices and cells are numbered.",
     ["inputs", "histories"], "every start position and displacement on a lattice over small interval, triangle and tetrahedron meshes, multi-step",
     "Tests use one or two hand-picked trajectories and skip some mesh types.",
     ["cpp/advance_neutral_species_cartesian_xy.cpp", "cpp/advance_neutral_species_cartesian_xyz.cpp", "cpp/advance_charged_species_in_E_field_cartesian_x.cpp", "cpp/advance_charged_species_in_E_field_cartesian_xy.cpp", "cpp/advance_charged_species_in_E_field_spherical_r.cpp", "cpp/dolfin_functions.cpp"],
     [("facet-crossing while loop", "cpp/advance_*.cpp"), ("find_facet", "cpp/dolfin_functions.cpp"), ("neighbor arrays", "cpp/MeshEntityArrays.h")],
     [("cell_index_, x0", "per-particle tracking fields", "cpp/Pstruct.h")],
     ["the particle records after advance_*"])

prop("C06", "Boundary crossings call the most specific boundary function, exactly once",
     "Whenever a particle's path crosses a marked boundary facet, the boundary function chosen for (boundary, species) is called exactly once for that crossing: bc_at_<boundary>_for_<species> if the user supplied one, else default_bc_at_<boundary>, else default_bc. No function is called for unmarked facets or for a boundary not crossed, crossings are handled in path order, and the function receives the particle (with its record's initial position set to the crossing point), the species, the facet, the fraction of the remaining move made up to that crossing, and the facet's outward unit normal. The compiled movers choose by the same order. The absorbing functions supplied with the package remove the particle that crosses, and only it.",
     ["inputs", "configurations"], "every subset of the kinds of user function for 2 boundaries x 2 species, and every lattice path across marked exterior and interior facets",
     "Tests supply one set of functions and one crossing each.",
     ["Particle_Module.py", "cpp/ParticleMeshBoundaryConditions.h", "UserParticles_3D.py"],
     [("ParticleMeshBoundaryConditions_C.__init__ lookup order", "Particle_Module.py"), ("bc call in the mover", "Particle_Module.py advance_*"), ("C++ bc map", "cpp/ParticleMeshBoundaryConditions.h")],
     [("bc_function_dict", "(boundary, species) -> function", "ParticleMeshBoundaryConditions_C")],
     ["calls observed by user-supplied boundary functions"])

prop("C07", "Reflecting boundaries are specular and lose nothing",
     "A particle hitting a reflecting exterior boundary ends the step at the mirror image of the point it would have reached, with the normal velocity component reversed and the tangential components unchanged, so its kinetic energy is preserved and it stays inside the mesh, in the cell it is recorded in. This holds for the reflecting functions supplied with the Python and compiled movers (for particles with as many coordinates as the mesh), for slanted walls and non-convex meshes, for repeated reflections within one step and over many steps, and for particles reflected by one boundary and absorbed by another.",
     ["inputs", "histories"], "every lattice start x velocity against reflecting walls in 1D/2D/3D, including corner-to-corner multiple reflections in a single step",
     "Tests check one reflection in 1D.",
     ["UserParticles_1D.py", "UserParticles_2D_e.py", "UserParticles_3D.py", "cpp/UserParticleBoundaryFunctions.h", "cpp/UserParticleBoundaryFunctions_2D_e.h", "cpp/UPBFs_spherical_r.h", "Particle_Module.py"],
     [("reflecting boundary function", "cpp/UserParticleBoundaryFunctions.h, UserParticles_*.py"), ("re-entry into the crossing loop", "advance_*")],
     [], ["particle records after a step"])

prop("C08", "The facet through which a move leaves a cell is found correctly",
     "For any point of a cell and any displacement, however small or large, facet search reports no crossing exactly when the end point lies in the cell, and otherwise reports the facet that the straight path crosses first, the fraction of the displacement at which it does, and that facet's outward unit normal. The Python and compiled searches give the same answer, in interval, triangle and tetrahedron cells.",
     ["inputs"], "every (lattice point of the cell, lattice displacement) pair for every cell of small interval, triangle and tetrahedron meshes, at several scales",
     "Tests try a handful of moves from one or two cells.",
     ["Dolfin_Module.py", "cpp/dolfin_functions.cpp"],
     [("Mesh_C.find_facet", "Dolfin_Module.py"), ("find_facet", "cpp/dolfin_functions.cpp")],
     [("cell facet normals", "outward normals per cell", "Mesh_C.compute_cell_facet_normals_dict")],
     ["return value of find_facet"])

prop("C09", "Mesh connectivity and geometry tables are mutually consistent and exact",
     "For every cell of a mesh, the neighbour across each facet is the unique other cell sharing that facet (or none on the exterior), neighbours are mutual, facet normals have unit length, are perpendicular to the facet and point out of the cell, vertex lists and vertex-to-cell lists agree with the mesh, and cell volumes are exact (spherical-shell volumes in spherical geometry) and sum to the mesh volume. The compiled tables equal the Python ones.",
     ["configurations"], "every cell and facet of every mesh in a family of small 1D/2D/3D simplicial meshes, including non-uniform, mapped, non-convex and arbitrarily numbered ones, in Cartesian and spherical coordinates",
     "Tests print or spot-check a few cells of one mesh.",
     ["Dolfin_Module.py", "cpp/MeshEntityArrays.h", "cpp/MeshEntityArrays.cpp"],
     [("compute_cell_*_dict", "Dolfin_Module.py"), ("MeshEntityArrays", "cpp/MeshEntityArrays.h")],
     [("cell_neighbors_dict, cell_facet_normals_dict, cell_volume_dict", "tables used by the movers", "Mesh_C")],
     ["the tables and accessors"])

prop("C10", "Point location names a containing cell, or says there is none",
     "For any point, locating it in the mesh returns a cell that contains it if there is one; a point outside the mesh is reported as being in no cell rather than given a bogus cell. The inside-cell predicates accept a point exactly when it is in the closed cell, however near it is to a facet, in Python and compiled form, and particles created at listed positions are each assigned a cell containing them.",
     ["inputs"], "every lattice point (cell interiors, facets, edges, vertices and exterior) against every cell of small 1D/2D/3D meshes",
     "Tests locate three or four interior points.",
     ["Dolfin_Module.py", "Particle_Module.py", "cpp/dolfin_functions.cpp", "cpp/predicates.cpp"],
     [("compute_cell_index / is_inside_cell", "Dolfin_Module.py"), ("is_inside_vertices", "cpp/dolfin_functions.cpp"), ("compute_mesh_cell_indices", "Particle_Module.py")],
     [], ["return values"])

prop("C11", "A trajectory always records the particle it was started for",
     "Every point recorded in a trajectory is the state (step, time, position, velocity) of the very particle that was flagged when the trajectory was created, whatever other particles are removed around it and however it moves between storage slots. A trajectory ends when its particle is removed, is never continued by another particle, and reaching a trajectory's capacity affects neither the run nor the other trajectories.",
     ["histories"], "every assignment of death steps and trajectory flags to N particles over T steps, several segments, capacities from below to above the number of points",
     "Tests follow one or two particles that share a segment with nobody that dies earlier.",
     ["Particle_Module.py", "RecordedData_Module.py", "cpp/particle.h"],
     [("update_trajectory_particleId / remove_trajectory_particleId / record_trajectory_data(um)", "Particle_Module.py"), ("create_trajectory", "RecordedData_Module.py")],
     [("ParticleIdList, TrajectoryLength, DataList", "slot index of each followed particle and its points", "Trajectory_C")],
     ["Trajectory_C data after each step"])

prop("C12", "Trajectory files hold exactly the recorded trajectories",
     "Writing trajectories to files and reading them back gives, for every followed particle (followed particles have distinct identities within a species), one file with exactly the recorded points in order with all their components, and nothing from unused capacity, from another particle or from another species. Writing again after more points replaces the file with the longer trajectory, and writing does not alter what is recorded.",
     ["histories", "configurations"], "every combination of species, numbers of followed particles and recorded lengths (0..capacity)",
     "No test compares file contents with memory.",
     ["RecordedData_Module.py"], [("write_trajectories_to_files", "RecordedData_Module.py")], [], ["the files written"])

prop("C13", "Counts, weights and kinetic energies reported are exact for the live particles",
     "At any moment of any history, the particle count, the number of physical particles (sum of weights) and the kinetic energy reported for a species, and the values stored in particle histories, are those of exactly the live particles of that species; slots of removed particles and other species never contribute. Python and compiled storage report the same.",
     ["histories"], "all add/advance/remove histories up to a depth with counts on and off segment boundaries",
     "Tests query diagnostics right after initialisation only.",
     ["Particle_Module.py", "RecordedData_Module.py"],
     [("get_species_particle_count/number/KE, get_total_particle_count", "Particle_Module.py"), ("record_history_data", "Particle_Module.py"), ("History_C", "RecordedData_Module.py")],
     [], ["diagnostic return values, history arrays"])

prop("C14", "Density deposition conserves weight and is local",
     "Depositing any set of particles adds, for each live particle, its weight distributed over only the nodes of the cell it is in, in proportions equal to the nodal shape functions at its position, so the node values sum to the total weight; node deposits accumulate across species and calls. The cell density computed into a zeroed cell field is, in every cell, the total weight of the particles of that cell divided by the cell's volume, so it integrates to the total weight. The charge density is the sum over species of charge times number density. This holds for linear and quadratic elements, Cartesian and spherical meshes, Python and compiled storage and any number of storage segments.",
     ["inputs", "histories"], "every lattice position x every cell x 1D/2D/3D meshes, all small multisets of particles and species subsets",
     "Tests deposit a few particles on one mesh and compare with constants.",
     ["Particle_Module.py", "Dolfin_Module.py"],
     [("accumulate_number_density / accumulate_charge_density_from_particles", "Particle_Module.py"), ("interpolate_delta_function_to_dofs / add_weight_to_cell / divide_by_cell_volumes", "Dolfin_Module.py")],
     [], ["density field values"])

prop("C15", "Charged particles are accelerated by the field at their own position",
     "In one step of the charged mover each particle's velocity changes by (charge/mass) x timestep x the electric field at its own position at the start of the step, and the position then advances with the new velocity; the field of one particle is never applied to another, whatever particles are removed around it. In the Python mover the external field at the particle's position (times one random draw per particle) is added when given. Switching the solved or external field off for a species removes exactly that contribution, and acceleration-only calls change velocities but not positions. A species declared neutral is not accelerated (a charge given with it is ignored), and every species is moved exactly once per step by the charged or the neutral mover. The timestep may differ from step to step. The compiled movers (x, xy, spherical r) give the same result for piecewise-constant fields.",
     ["inputs", "histories", "configurations"], "every lattice start x velocity over meshes with a distinct field per cell, several segments, all on/off switches, Python and compiled",
     "Tests move two particles in a near-uniform field.",
     ["Particle_Module.py", "Dolfin_Module.py", "cpp/advance_charged_species_in_E_field_cartesian_x.cpp", "cpp/advance_charged_species_in_E_field_cartesian_xy.cpp", "cpp/advance_charged_species_in_E_field_spherical_r.cpp", "cpp/dolfin_functions.cpp"],
     [("advance_charged_species_in_E_field", "Particle_Module.py"), ("interpolate_field_to_points", "Dolfin_Module.py, cpp/dolfin_functions.cpp")],
     [], ["particle records after a step"])

prop("C16", "Uniform-field stepping is exact for any particle count",
     "Advancing a species in uniform fields gives every particle the same velocity kick (charge/mass x field x timestep) followed by a drift with the new velocity, for any number of particles and steps, in the Python and compiled movers; weight, identity, flags, cell and crossing count are unchanged, and so are the number of particles, their order and every other species (no particle being marked for deletion).",
     ["inputs", "histories"], "all counts 0..3 segments, all lattice states, repeated steps with additions between them",
     "Tests use two particles.",
     ["Particle_Module.py", "DT_Module.py", "cpp/advance_charged_species_in_uniform_fields_cartesian_xyz.cpp"],
     [("advance_charged_species_in_uniform_fields", "Particle_Module.py, cpp/...")], [], ["particle records"])

prop("C17", "The field solver satisfies its equation and boundary values, repeatably",
     "For any charge distribution and boundary potentials the solved potential takes the prescribed boundary values (a side left unset has the natural condition), satisfies the discrete Poisson equation at every other node, with the spherical volume element in spherical coordinates, and is linear in charge and boundary values; the negative electric field is the gradient of that potential in each cell. Solving is repeatable: a solve given a charge uses that charge times its factor alone and leaves the caller's charge unchanged; a solve without one uses the source last given (a charge, or a source density given as a number or expression); earlier solves and other solvers have no influence, and the values exposed by the potential and field objects are those of the last solve.",
     ["inputs", "histories"], "every unit charge at every node x boundary-value combinations on small 1D/2D/spherical meshes, all short sequences of solves",
     "Tests compare one solve with stored data.",
     ["Dolfin_Module.py", "UserMesh_y_Fields_FE_XYZ_Module.py", "UserMesh_y_Fields_FE2D_Module.py", "UserMesh_y_Fields_Spherical1D_Module.py"],
     [("PoissonSolve_C.solve_for_phi / compute_negE", "Dolfin_Module.py")], [], ["potential and field values"])

prop("C18", "Particle sources emit the requested particles, in the requested place and time",
     "On exactly the steps that are a multiple of a source's interval, and on no other, the source adds the requested number of particles to each cell of its region; each new particle lies in the cell it is recorded in, carries the weight density x cell volume / number per cell (per steradian in spherical coordinates), has the drift velocity plus the thermal speed times one normal draw in each component, a fresh identity, its initial position recorded and zero crossings. The first particle of a cell is placed at the midpoint or anywhere in the cell, further ones anywhere in the cell. User creation functions are called with the step, time, region, parameters and fields. Existing particles are untouched.",
     ["histories", "configurations"], "all (interval, step) pairs up to a bound, all small regions of 1D/2D/3D meshes, particles-per-cell 1..3, with the random draws enumerated",
     "Tests run one source once with random numbers.",
     ["Particle_Module.py", "Dolfin_Module.py"],
     [("add_more_particles / create_maxwellian_particles", "Particle_Module.py")], [], ["particle records after add_more_particles"])

prop("C19", "Particle output files hold exactly the live particles",
     "Every snapshot written to the particle file contains, for each species and each requested attribute, exactly the values of the live particles in storage order at that step, with the step and time they belong to, and writing does not disturb the particles. The file on disk is complete after every write, a second write at the same step adds nothing, closing is honoured, and a new output file starts afresh, whatever the numbers of particles and storage segments at each snapshot.",
     ["histories", "configurations"], "all add/remove/write histories up to a depth, counts on and off segment boundaries, attribute subsets",
     "Tests write one snapshot and do not read it back.",
     ["Particle_Module.py"], [("write_particles_to_file", "Particle_Module.py")], [], ["the HDF5 file"])

prop("C20", "A region contains exactly the cells it should",
     "A rectangular or spherical region selects exactly the mesh cells whose midpoint satisfies the region's closed inequality, and a whole-mesh region selects every cell; cell lists, volumes, midpoints and circumradii are consistent with the mesh, a region that would be empty is refused, and its point-in-cell test accepts exactly the points of that cell.",
     ["inputs", "configurations"], "every lattice-aligned box and every lattice centre/radius on small 1D/2D/3D meshes",
     "Tests build one region.",
     ["Dolfin_Module.py"], [("CellSet_C, RectangularRegion_C, SphericalRegion_C, WholeMesh_C", "Dolfin_Module.py")], [], ["region attributes"])

prop("C21", "Field arithmetic touches exactly the selected values",
     "Setting, multiplying and adding fields gives at every degree of freedom exactly the arithmetic result on the prior values. With a region given, set_values sets the values belonging to the region's cells and zeroes the others, gaussian values are the deviation times one draw per value of the region's cells, and multiplying changes only the values belonging to the region's cells, each once even when cells share it. Evaluating a field at a set of points gives each point the value of the field at that point, in order, in Python (any element) and in compiled form (piecewise-constant fields).",
     ["inputs", "histories"], "all sequences of field operations up to a depth over all regions of small meshes; all lattice points",
     "Tests set one constant.",
     ["Dolfin_Module.py", "cpp/dolfin_functions.cpp"], [("Field_C.set_values/multiply_values/multiply_add/interpolate_field_to_points", "Dolfin_Module.py")], [], ["field vector"])

prop("C22", "Particles are created exactly as listed by the user",
     "Initialising a species from a user list stores every listed particle once, in order, with exactly the listed values (including identity and flags), in Python or compiled storage, for any number of particles and of species; an initial-particle function is called once with step 0, time 0, its region, parameters and field. Particles flagged for following, and only those, get a (still empty) trajectory bound to that particle. An unknown kind of initial particles is refused.",
     ["inputs", "configurations"], "all list lengths 0..3 segments x flag patterns x species subsets x coordinate systems",
     "Tests create at most a handful.",
     ["Particle_Module.py"], [("initialize_particles / create_from_list / create_from_functions", "Particle_Module.py")], [], ["particle records"])

prop("C23", "A mesh built from the user's description is that mesh, with each named boundary marked",
     "The meshes built from a user's description (Cartesian 1D, 2D and 3D boxes; stretched spherical-radial intervals; stretched sectors of a circle) have exactly the described vertices and cells (limits, numbers of cells, stretch, angle, diagonal), and every facet lying on a named boundary, and no other, carries the number the user gave that boundary, for the field and for the particle boundaries independently. A mesh and its boundary marks read back from files are those that were written. Descriptions that are not supported (field boundaries on 2D and 3D Cartesian meshes) are refused, not ignored.",
     ["inputs", "configurations"], "every combination of dimension, small cell counts, diagonals, limits, stretches, angles, boundary dictionaries present or absent and assignments of numbers to boundaries; built directly or read back from files",
     "Tests build one mesh of each kind and mostly plot it; facet marks are not compared with the boundaries.",
     ["UserMesh_y_Fields_FE_XYZ_Module.py", "UserMesh_y_Fields_FE2D_Module.py", "UserMesh_y_Fields_Spherical1D_Module.py"],
     [("create_mesh", "UserMesh_y_Fields_*_Module.py"), ("reading of mesh and marker files", "UserMesh1DS_C.__init__, UserMesh2DCirc_C.__init__")],
     [("field_boundary_marker, particle_boundary_marker", "facet marks used by the solver and the movers", "UserMesh_*_C")], ["vertices, cells and facet marks"])

prop("C24", "A whole simulation follows the particles it should, step after step",
     "When the parts are run as the simulation loop (advance charged and neutral particles, create particles from sources, deposit densities, sum charge, solve for the potential and field, and again), then at every step every live particle is where the laws of motion in the field of the previous step's particles put it, absorbed particles are exactly those whose paths met an absorbing wall, created particles are live and take part from the next step on, the densities and the charge are those of the live particles, and the potential and field are those of that charge. The result does not depend on the storage segment length, nor on whether the Python or the compiled storage and movers are used.",
     ["histories", "configurations"], "all subsets of a menu of initial particles of three species x boundary potentials x reflecting or absorbing walls x sources x segment lengths, several steps, in x, xy and spherical r, Python and compiled",
     "The unit tests exercise one part each; no test runs the loop and compares particles and fields with an independent calculation.",
     ["Particle_Module.py", "Dolfin_Module.py", "SegmentedArrayPair_Module.py", "UserMesh_y_Fields_FE_XYZ_Module.py", "UserMesh_y_Fields_FE2D_Module.py", "UserMesh_y_Fields_Spherical1D_Module.py", "cpp/advance_charged_species_in_E_field_cartesian_x.cpp", "cpp/advance_charged_species_in_E_field_cartesian_xy.cpp", "cpp/advance_charged_species_in_E_field_spherical_r.cpp", "cpp/advance_neutral_species_cartesian_xy.cpp", "cpp/SegmentedArrayPair.h"],
     [("the loop advance_charged_particles_in_E_field, advance_neutral_particles, add_more_particles, accumulate_number_density, multiply_add, solve_for_phi", "examples/*/sphere1D.py")],
     [("sap_dict, number densities, assembled charge, potential, negative electric field", "state carried from step to step", "Particle_C, Field_C, PoissonSolve_C")], ["particle records, density, potential and field values at every step"])

prop("C25", "Simulations run in one process do not disturb one another",
     "Several simulations can be set up and run in one process (a parameter scan, a test suite, two coupled runs), one after the other or with their steps interleaved in any order, with the same or different numbers of dimensions, Python or compiled, on separate meshes or sharing one mesh object. Each gives exactly the results it gives when run alone in a process of its own: the same particle records, counts, densities, potentials, fields, trajectories and particle file after every operation, whatever the other does, including finishing and being destroyed; and a run with random numbers, repeated after any other runs from the same start, gives the same results again.",
     ["schedules", "histories", "configurations"], "every interleaving of the operations of two simulations (built, started, stepped, finished), every ordered pair of kinds of simulation, shared or separate meshes",
     "Unit tests run one simulation per process or per test, never two at once, and do not compare with a run alone; state kept in class attributes, module globals or C++ statics would go unnoticed.",
     ["Particle_Module.py", "Dolfin_Module.py", "RecordedData_Module.py", "SegmentedArrayPair_Module.py", "cpp/particle.h", "cpp/SegmentedArrayPair.h", "cpp/MeshEntityArrays.h", "cpp/ParticleMeshBoundaryConditions.h", "cpp/UserParticleBoundaryFunctions.h", "cpp/dolfin_functions.cpp", "cpp/advance_charged_species_in_E_field_cartesian_x.cpp", "cpp/advance_charged_species_in_E_field_cartesian_xy.cpp", "cpp/advance_charged_species_in_E_field_spherical_r.cpp", "cpp/advance_neutral_species_cartesian_xy.cpp", "cpp/advance_neutral_species_cartesian_xyz.cpp"],
     [("construction of Particle_C, Mesh_C, Field_C, the solvers and the boundary conditions; the loop's operations", "examples/*/sphere1D.py, tests/unit")],
     [("class attributes, scratch arrays, file-scope statics", "state that could be shared by accident", "Particle_C, Mesh_C, cpp/particle.h")], ["every result of each simulation after every operation"])

prop("C26", "Mistaken input is refused",
     "Input that cannot be simulated ends in an error and is not simulated: a particle or mesh coordinate system that is unknown or missing, compiled or Python movers left unsaid, an unknown initial-distribution type at any entry, a particle outside the mesh (by however little, on any side, at any place of the storage), a missing mesh, field boundaries or particle sources on 2D or 3D Cartesian meshes, an unknown output attribute at any place of the list or a missing output file name, a trajectory with unknown dynamics or with attribute types that cannot be written or without saying whether to write it, a particle that meets a boundary for which no function was given, a source density of the wrong type. The same input without the mistake is accepted, whatever surrounds it.",
     ["inputs", "configurations"], "every kind of mistake, at every place where it can be made, next to every number of right entries, for every coordinate system, Python and compiled",
     "Tests try right input; two or three look at one refusal.",
     ["Particle_Module.py", "Dolfin_Module.py", "RecordedData_Module.py", "UserMesh_y_Fields_FE_XYZ_Module.py", "cpp/MeshEntityArrays.h"],
     [("Particle_C.__init__, initialize_particles, compute_mesh_cell_indices, check_particle_output_parameters, initialize_particle_output_file", "Particle_Module.py"), ("Trajectory_C.create_trajectory, write_trajectories_to_files", "RecordedData_Module.py"), ("Mesh_C.__init__, PoissonSolve_C.assemble_source_expression", "Dolfin_Module.py")],
     [("the user's input objects", "what is accepted", "*Input_C")], ["whether an error is raised"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
