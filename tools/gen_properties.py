#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so the long text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "src/field_advance/standard/"
p("C01", "The magnetic field advance is the Yee Faraday update on every owned face",
  "Advancing the magnetic field by a fraction of a step changes the normal field on every cell face of the local mesh, including the faces on the far walls, by exactly minus that fraction of c dt times the discrete curl of the electric field, changes no other field quantity, and leaves the discrete divergence of every cell unchanged. The result does not depend on the number of worker pipelines, on whether workers finish before or after the host's part, or on which vector build is used.",
  ["inputs", "configurations", "schedules"], "all field values, all fractions, mesh shapes including one-cell-thick ones, pipeline counts and worker/host completion orders, scalar and vector builds",
  "Tests run a few fixed plane waves and thermal plasmas; an error confined to one wall, one mesh shape, one straggler block or one vector build stays under their tolerances.",
  ["src/field_advance/standard/advance_b.cc", S+"pipeline/advance_b_pipeline.cc", S+"pipeline/advance_b_pipeline.h", S+"pipeline/advance_b_pipeline_v4.cc", S+"pipeline/advance_b_pipeline_v8.cc", S+"pipeline/advance_b_pipeline_v16.cc"],
  [("interior sweep split over pipelines plus host stragglers plus surface faces", S+"pipeline/advance_b_pipeline.cc")], ["advance_b field array before/after"])
p("C02", "The electric field advance is the damped Ampere update on every owned edge",
  "Advancing the electric field sets, on every edge of the local mesh including edges on the walls, the radiation-damping current to (1+damp) c dt curl(B/mu) minus damp times its old value, and the field to decay times its old value plus drive times (that current minus dt/eps0 times the free current), using the material of that edge and faces, and changes nothing else inside the domain. With a single vacuum-like material the fast vacuum path gives the same result as the general path, for every pipeline count, completion order and vector build.",
  ["inputs", "configurations", "schedules"], "all field, current and damping values, material placements, mesh shapes, pipeline counts, wall types, vacuum and general kernels, scalar and vector builds",
  "Tests use at most two materials in one deck and compare global energies; per-edge errors at walls, corners or block boundaries are invisible.",
  [S+"advance_e.cc", S+"vacuum_advance_e.cc", S+"pipeline/advance_e_pipeline.cc", S+"pipeline/advance_e_pipeline.h", S+"pipeline/vacuum_advance_e_pipeline.cc", S+"pipeline/vacuum_advance_e_pipeline.h", S+"sfa.cc"],
  [("interior pipelines + exterior edge loops after ghost exchange", S+"pipeline/advance_e_pipeline.cc"), ("vacuum kernel selection", S+"sfa.cc")])
p("C03", "Divergence errors and bound charge are computed by the documented differences",
  "The electric divergence error at every mesh node is the nonconductive factor times (div(eps E) - (free + bound charge)/eps0), the bound charge initialisation is the value that makes this error zero in nonconducting regions away from absorbing walls, and the magnetic divergence error of every cell is the discrete div B. The reported RMS errors are the volume-weighted RMS over the domain, with wall, edge and corner nodes weighted one half, one quarter and one eighth.",
  ["inputs", "configurations", "schedules"], "all field and charge values, materials, mesh shapes, pipeline counts, vacuum and general kernels",
  "Tests only print these diagnostics; a wrong stencil at one wall or a miscounted node is never compared to anything.",
  [S+"pipeline/compute_div_e_err_pipeline.cc", S+"pipeline/compute_rhob_pipeline.cc", S+"pipeline/compute_div_b_err_pipeline.cc", S+"pipeline/compute_rms_div_e_err_pipeline.cc", S+"pipeline/compute_rms_div_b_err_pipeline.cc", S+"pipeline/vacuum_compute_div_e_err_pipeline.cc", S+"pipeline/vacuum_compute_rhob_pipeline.cc"],
  [("node stencil, wall loops", S+"pipeline/compute_div_e_err_pipeline.cc"), ("weighted reduction", S+"pipeline/compute_rms_div_e_err_pipeline.cc")])
p("C04", "Divergence cleaning moves the field along the gradient of the error only",
  "A cleaning pass adds to each electric edge the material drive times a mesh-dependent diffusion constant times the difference of the divergence error across that edge, and to each magnetic face the same constant times the difference of the error across that face, on every owned edge and face and nothing else. The constant is 0.3888889 divided by the sum of squared inverse cell sizes over the resolved directions, so a pass leaves the curl of B-corrections zero and never touches a field whose divergence error is uniform.",
  ["inputs", "configurations", "schedules"], "all field and error values, materials, mesh shapes with at least one resolved direction, pipeline counts, kernels and vector builds",
  "Tests check that cleaning does not crash; no test compares the cleaned field.",
  [S+"pipeline/clean_div_e_pipeline.cc", S+"pipeline/clean_div_e_pipeline.h", S+"pipeline/clean_div_b_pipeline.cc", S+"pipeline/clean_div_b_pipeline.h", S+"pipeline/vacuum_clean_div_e_pipeline.cc", S+"pipeline/clean_div_b_pipeline_v4.cc"],
  [("Marder pass", S+"pipeline/clean_div_b_pipeline.cc")])
p("C05", "Field energies and radiation-field initialisation match their definitions",
  "Each of the six reported field energies is the volume integral of one half eps E^2 or B^2/mu with every cell averaging the edges or faces it touches, using the material of each edge and face. The radiation-field initialisation sets c dt curl(B/mu) on every owned edge; for both, the vacuum kernels agree with the general ones and pipeline count or vector build does not matter.",
  ["inputs", "configurations", "schedules"], "all field values, materials, mesh shapes, pipeline counts, kernels, builds",
  "Energy tests compare totals with loose tolerances on smooth fields, where a shifted or double-counted face averages out.",
  [S+"pipeline/energy_f_pipeline.cc", S+"pipeline/energy_f_pipeline.h", S+"pipeline/vacuum_energy_f_pipeline.cc", S+"pipeline/compute_curl_b_pipeline.cc", S+"pipeline/vacuum_compute_curl_b_pipeline.cc"],
  [("cell reduction", S+"pipeline/energy_f_pipeline.h"), ("curl sweep", S+"pipeline/compute_curl_b_pipeline.cc")])
p("C06", "Local wall conditions impose conductor, symmetry and magnetic-wall fields",
  "At a perfectly conducting wall the tangential electric field and the normal magnetic field stay zero while sources on the wall are doubled for their half cells, at a magnetic (symmetric) wall the ghost fields mirror the interior with the documented sign, and each wall, edge and component is treated according to that wall's own setting only. No value that is not on or behind a configured wall is altered.",
  ["inputs", "configurations"], "all field values, every assignment of wall types to the six walls, mesh shapes",
  "Tests use one or two wall types on boxes where a mistreated wall changes results below tolerance.",
  [S+"local.cc"], [("ghost and adjust passes per wall", S+"local.cc")])
p("C07", "Exchanging shared faces makes neighbours agree and conserves totals",
  "After synchronising currents, charges or tangential-E/normal-B, both domains sharing a face hold identical values there; sources become the sum and fields the average of the two copies, and the reported desynchronisation is zero exactly when they already agreed. Ghost exchanges deliver to each domain its neighbour's adjacent layer unchanged, per component and per orientation, also for a domain that neighbours itself or differs in cell size.",
  ["inputs", "configurations", "schedules"], "all field values, all six directions, self-neighbouring periodic and two-domain layouts, mesh shapes, message arrival orders",
  "Parallel tests compare smooth global energies; a swapped component or a missed row on one face is within noise.",
  [S+"remote.cc", "src/grid/ops.cc", "src/grid/grid.h"], [("begin/end send and receive of face planes", S+"remote.cc"), ("port mapping", "src/grid/grid_comm.cc")])
p("C08", "Domain decomposition tiles the global box and links every neighbour mutually",
  "Partitioning a global box over any process topology gives each process cells of equal size whose ranges tile the box without gap or overlap, and each local boundary cell's neighbour index names the adjacent cell in global numbering or the configured wall condition, so that neighbour relations are mutual. Periodic, absorbing and metal boxes set the field and particle conditions of exactly the outer walls.",
  ["inputs", "configurations"], "topologies and global cell counts up to the bound, every rank, all three box types, all real box extents",
  "Tests use a handful of layouts, mostly one process or a line of two.",
  ["src/grid/partition.cc", "src/grid/ops.cc", "src/grid/grid.h"],
  [("rank/index maps", "src/grid/partition.cc"), ("neighbour construction", "src/grid/ops.cc")])
p("C09", "Particle motion and deposited current satisfy discrete charge conservation",
  "When particles are pushed, the change of the trilinearly deposited charge density at every mesh node equals dt times minus the discrete divergence of the deposited current, for particles that stay in a cell, cross any sequence of faces, or bounce off a reflecting wall. This holds for the scalar and vector pushers.",
  ["inputs", "configurations", "histories"], "all positions, momenta, weights and fields whose step crosses at most the stated number of faces, all neighbour configurations",
  "Tests check a few hand-placed particles; every crossing order and sign combination must hold.",
  ["src/species_advance/standard/move_p.cc", "src/species_advance/standard/pipeline/advance_p_pipeline.cc", "src/species_advance/standard/pipeline/advance_p_pipeline_v4.cc", "src/species_advance/standard/rho_p.cc", "src/sf_interface/pipeline/unload_accumulator_pipeline.cc"],
  [("in-cell deposit and streak splitting", "src/species_advance/standard/move_p.cc")])
p("C10", "A moved particle ends where its displacement takes it, in a valid cell",
  "After a particle is moved by a displacement it lies within [-1,1] of a valid local cell and its global position is the start plus the displacement, with the normal component and momentum mirrored at reflecting walls; if it meets an absorbing, handled or remote face it stops on that face with its cell and face recorded and the unspent displacement kept. The particle's weight and the remaining momentum components never change.",
  ["inputs", "configurations", "histories"], "all start positions and displacements up to the stated number of crossings, every face type",
  "Tests follow a few particles through one or two faces.",
  ["src/species_advance/standard/move_p.cc", "src/species_advance/standard/pipeline/advance_p_pipeline.cc"],
  [("streak loop", "src/species_advance/standard/move_p.cc")])
p("C11", "The momentum push is a half electric kick, a pure rotation and a half kick",
  "For any fields at the particle, the push adds half the electric impulse, rotates the momentum about the magnetic field without changing its magnitude, and adds the second half; with no electric field kinetic energy is exactly preserved and with no magnetic field the momentum gains q dt E/(m c). Centring by half a step and un-centring are mutual inverses where defined, and field values used are the interpolated ones at the particle position.",
  ["inputs"], "all momenta, positions, field coefficients and charge/mass ratios, scalar and vector kernels",
  "Tests integrate two or three analytic orbits with loose tolerance.",
  ["src/species_advance/standard/pipeline/advance_p_pipeline.cc", "src/species_advance/standard/pipeline/center_p_pipeline.cc", "src/species_advance/standard/pipeline/uncenter_p_pipeline.cc"],
  [("Boris rotation", "src/species_advance/standard/pipeline/advance_p_pipeline.cc")])
p("C12", "Vector particle kernels equal the scalar kernels for every particle",
  "The vector versions of the push, centring, un-centring and energy kernels give for every particle, in every lane and position of the list including the remainder, the same momentum, position, mover and current contributions as the scalar kernels up to rounding. No particle is skipped or processed twice for any count and pipeline split.",
  ["inputs", "configurations"], "particle values, particle counts and pipeline splits up to the bound, all vector widths",
  "Vector builds are only tested through whole-simulation comparisons with tolerances.",
  ["src/species_advance/standard/pipeline/advance_p_pipeline_v4.cc", "src/species_advance/standard/pipeline/advance_p_pipeline_v8.cc", "src/species_advance/standard/pipeline/advance_p_pipeline_v16.cc", "src/species_advance/standard/pipeline/center_p_pipeline_v4.cc", "src/species_advance/standard/pipeline/uncenter_p_pipeline_v4.cc", "src/species_advance/standard/pipeline/energy_p_pipeline_v4.cc"],
  [("lane transposes and masks", "src/species_advance/standard/pipeline/advance_p_pipeline_v4.cc")])
p("C13", "Charge deposition conserves charge and is trilinear, doubled on half cells",
  "Accumulating a species' charge deposits exactly q times the total weight divided by the cell volume, split over the eight nodes of each particle's cell by trilinear weights; the bound-charge deposit of one particle does the same but doubles the share of nodes on the outer planes of the local domain (half cells; planes shared with another domain are averaged afterwards). All other nodes are unchanged.",
  ["inputs", "configurations"], "all positions, weights, cells, mesh shapes and wall configurations",
  "Tests never compare node-by-node deposits at walls and corners.",
  ["src/species_advance/standard/rho_p.cc"], [("trilinear weights and wall doubling", "src/species_advance/standard/rho_p.cc")])
p("C14", "Interpolation data reproduce the mesh fields; accumulators unload completely",
  "The per-cell interpolation data reproduce, at any point of the cell, the linear or bilinear interpolation of the edge and face values of that cell. Clearing, reducing and unloading accumulators make the current on every edge equal to the summed contributions of all pipelines of all cells touching it with the geometric factor of that direction, for any pipeline count, and likewise for the moment arrays.",
  ["inputs", "configurations"], "all field and accumulator values, mesh shapes, pipeline counts, scalar and vector builds",
  "Tests look at uniform or linear fields in one build.",
  ["src/sf_interface/pipeline/interpolator_array_pipeline.cc", "src/sf_interface/pipeline/reduce_array_pipeline.cc", "src/sf_interface/pipeline/clear_array_pipeline.cc", "src/sf_interface/pipeline/unload_accumulator_pipeline.cc"],
  [("stencils and horizontal reduction", "src/sf_interface/pipeline/reduce_array_pipeline.cc")])
p("C15", "Moment and kinetic-energy diagnostics sum each particle exactly once",
  "The charge, current, momentum, energy and stress moments deposited for a species equal, summed over nodes, the particle sums of those quantities at the half-advanced momentum, split by trilinear weights, and the reported kinetic energy is the sum of m c^2 (gamma-1) weighted over all particles. Synchronised moments agree across shared faces and are doubled at outer walls.",
  ["inputs", "configurations"], "all particle values, counts, pipeline splits, mesh shapes, kernels",
  "Tests compare only a total energy history.",
  ["src/species_advance/standard/pipeline/hydro_p_pipeline.cc", "src/species_advance/standard/pipeline/energy_p_pipeline.cc", "src/sf_interface/hydro_array.cc"],
  [("moment deposit", "src/species_advance/standard/pipeline/hydro_p_pipeline.cc"), ("face sums", "src/sf_interface/hydro_array.cc")])
p("C16", "Sorting particles is a permutation ordered by cell with an exact partition",
  "Sorting a species rearranges its particles without loss, duplication or change, leaves them in nondecreasing cell order, and the partition table gives for every cell the exact range its particles occupy, empty species included. This holds for in-place and out-of-place sorts, both sort implementations and any pipeline count.",
  ["inputs", "configurations"], "all cell assignments of up to the stated number of particles on the stated meshes, both modes, pipeline counts",
  "One test sorts one random distribution.",
  ["src/species_advance/standard/sort_p.cc", "src/species_advance/standard/pipeline/sort_p_pipeline.cc"],
  [("counting sort and cycle-leader permutation", "src/species_advance/standard/sort_p.cc")])
p("C17", "Boundary processing conserves particles and delivers each to the right place",
  "Processing the movers of all species removes exactly the particles that left, hands each one with its remaining displacement, momentum and weight to the neighbour through the face it crossed at the mirrored position, or deposits its charge as bound charge when absorbed, or gives it to its handler; all other particles remain unchanged apart from order. Total charge, free plus bound plus in transit, is conserved, and storage growth or shortage never corrupts particles that are kept.",
  ["inputs", "configurations", "histories"], "all mover sets up to the bound, every face and boundary type, self-neighbour and two-domain layouts, storage sizes",
  "Tests run one or two particles through a periodic or absorbing wall.",
  ["src/boundary/boundary_p.cc", "src/boundary/absorb_tally.cc", "src/vpic/advance.cc"],
  [("classification, exchange, backfill, injection", "src/boundary/boundary_p.cc")])
p("C18", "Injecting a particle places it once, on the one domain that owns the point",
  "A global point inside the box is accepted by exactly one domain of any decomposition, and the accepted particle lies in the cell containing the point at the matching offset within rounding, with the given momentum and weight and an optional compensating bound charge. Points outside are ignored, ageing moves it by the given time along its velocity, and full storage is reported instead of overwriting memory.",
  ["inputs", "configurations"], "all floating-point coordinates including shared walls and far walls, decompositions, ages, storage states",
  "Tests never inject at exact domain boundaries of a decomposed box.",
  ["src/vpic/misc.cc", "src/grid/partition.cc"], [("ownership test and cell computation", "src/vpic/misc.cc")])
p("C19", "Reflux and emission create particles that move inward with the right weight",
  "A refluxed particle re-enters on the face it left with the same weight and species, its normal momentum directed into the domain, and a displacement along its new velocity for the time it had left. An emitting face injects the requested number of particles, each with the same Child-law weight, on that face, moving inward, with bound charge compensating it, only when the field exceeds the threshold.",
  ["inputs", "configurations"], "all fields, thermal momenta, random numbers, faces, counts per face",
  "No test exercises emission; none checks the individual weights.",
  ["src/boundary/maxwellian_reflux.cc", "src/emitter/child_langmuir.cc"], [("per-face permutation", "src/boundary/maxwellian_reflux.cc"), ("emission loop", "src/emitter/child_langmuir.cc")])
p("C20", "Uniform random numbers stay in the documented interval for every raw value",
  "Every uniform floating-point draw, single or double, from the open, half-open and closed generators lies in the documented interval and is a monotone, evenly spaced function of the raw bits, and the integer draws cover exactly their documented range. The exponential and normal generators return finite values of the documented sign for every raw value.",
  ["inputs"], "all raw generator outputs",
  "Hitting the extreme raw values by chance is practically impossible in a test.",
  ["src/util/rng/rng_private.h", "src/util/rng/rng.cc"], [("integer to float conversion", "src/util/rng/rng_private.h")])
p("C21", "Random streams depend only on the seed and are never lost or repeated",
  "Seeding determines the whole stream, equal seeds give equal streams, filling an array gives the same numbers as repeated single draws and leaves the generator in the same state, for every mix of draw types and strides. Generators of a pool on different ranks and slots have distinct seeds while synchronised pools agree on all ranks; permutations and shuffles reorder without loss and every order is reachable with an equal share of the raw values.",
  ["inputs", "histories", "configurations"], "all seeds, generator states, fill positions, lengths and strides up to the bound, ranks and pool sizes",
  "Tests draw one stream from one seed.",
  ["src/util/rng/rng.cc", "src/util/rng/rng_pool.cc", "src/util/rng/rng_private.h"], [("block generator and refill", "src/util/rng/rng.cc")])
p("C22", "Every vector class operation acts lane by lane like the scalar operation",
  "Each arithmetic, logical, comparison, merge, swap, transpose, load and store operation of the 4-, 8- and 16-wide vector classes produces in every lane the scalar result for that lane, for every build variant, and touches only the memory it documents.",
  ["inputs", "configurations"], "all lane values, all operations, portable, SSE, AVX and AVX2 variants",
  "Class tests use one fixed vector of small numbers per operation.",
  ["src/util/v4/v4_portable.h", "src/util/v4/v4_sse.h", "src/util/v4/v4_avx.h", "src/util/v4/v4_avx2.h", "src/util/v8/v8_portable.h", "src/util/v8/v8_avx.h", "src/util/v8/v8_avx2.h", "src/util/v16/v16_portable.h"],
  [("operator definitions", "src/util/v4/v4_portable.h")])
p("C23", "Work splitting gives every item to exactly one worker, each worker runs once",
  "Dividing any number of items or any block of cells over any number of workers with any block size assigns every item to exactly one worker or to the host's remainder, in order and without overlap. A dispatched job runs exactly once per worker with that worker's own argument and rank, and waiting returns only after all have finished, for every thread schedule.",
  ["inputs", "configurations", "schedules"], "item counts, block sizes, worker counts up to the bound, thread interleavings within the bound",
  "Tests use one or two thread counts with one mesh.",
  ["src/util/pipelines/pipelines.h", "src/util/pipelines/pipelines_thread.cc", "src/util/pipelines/pipelines_serial.cc", "src/grid/grid.h"],
  [("distribution macros", "src/util/pipelines/pipelines.h"), ("dispatcher", "src/util/pipelines/pipelines_thread.cc")])
p("C24", "A checkpoint restores to the same simulation state",
  "Saving and restoring any set of registered objects reproduces every stored byte, string, pointer relation and symbol, so that the restored simulation continues as the original; identifiers are unique and translate back to the same object. A checkpoint whose header, element sizes or object names do not match, or that is cut short, is refused instead of being loaded.",
  ["inputs", "histories", "fault_sequences", "configurations"], "object contents, sizes, alignments, registration orders up to the bound, corrupted headers",
  "One test restores one deck once.",
  ["src/util/checkpt/checkpt.cc", "src/util/checkpt/checkpt_io.cc", "src/species_advance/species_advance.cc", "src/field_advance/standard/sfa.cc"],
  [("data headers and registry", "src/util/checkpt/checkpt.cc")])
p("C25", "Collisions conserve momentum and energy and pair particles correctly",
  "A two-body collision leaves total momentum of equally weighted particles unchanged and the magnitude of their relative momentum unchanged, updates only the particle or particles selected by weight, and never touches position, cell or weight. Pairings use only particles of the same cell, each takes part as documented, and a zero rate never collides while a rate of one or more always does.",
  ["inputs", "configurations"], "all momenta, masses, weights and random draws; cell populations up to the bound",
  "The collision test checks a relaxation curve to a few percent.",
  ["src/collision/takizuka_abe.cc", "src/collision/pipeline/takizuka_abe_pipeline.cc", "src/collision/pipeline/binary_pipeline.cc", "src/collision/hard_sphere.cc", "src/collision/large_angle_coulomb.cc", "src/collision/pipeline/langevin_pipeline.cc", "src/collision/pipeline/unary_pipeline.cc"],
  [("momentum transfer", "src/collision/hard_sphere.cc"), ("pairing", "src/collision/pipeline/takizuka_abe_pipeline.cc")])
p("C26", "Materials, species and handlers keep unique identities and coefficients",
  "Appending materials, species, particle conditions and emitters gives each a distinct identifier by which, and by name, exactly that entry is found; duplicate names and over-full lists are refused. The update coefficients derived from a material are the exponential decay and drive of its conductivity, the inverse permeability and the permittivity of each axis, at the index of that material.",
  ["inputs", "histories", "configurations"], "all material parameters, list lengths and operation orders up to the bound",
  "Tests define one or two entries.",
  ["src/material/material.cc", "src/species_advance/species_advance.cc", "src/boundary/boundary.cc", "src/emitter/emitter.cc", S+"sfa.cc"],
  [("list append/find", "src/material/material.cc"), ("coefficients", S+"sfa.cc")])
p("C27", "Message buffers keep data intact and carry exactly what was sent",
  "Growing a send or receive buffer keeps its size at least what was asked and its ports independent, a begun receive completes with exactly the bytes the peer sent on the matching port, and global reductions combine one contribution per process. Using a port outside the layout is refused.",
  ["inputs", "histories", "schedules"], "buffer size sequences, ports, message sizes and completion orders up to the bound",
  "Tests use fixed sizes in one order.",
  ["src/util/mp/mp.cc", "src/util/mp/DMPPolicy.h"], [("buffer growth and request bookkeeping", "src/util/mp/DMPPolicy.h")])
p("C28", "Command-line stripping, aligned memory and bit utilities work as documented",
  "Stripping an option returns the value of its last occurrence and removes exactly those arguments, leaving the rest in order; aligned allocations are aligned, disjoint, hold the requested bytes and are freed exactly; byte swapping is an involution and bit fields set, clear and count exactly the named bits.",
  ["inputs", "histories"], "argument vectors, sizes, alignments and bit patterns up to the bound",
  "Tests do not exercise repeated options, odd alignments or extreme bit positions.",
  ["src/util/util_base.cc", "src/util/bitfield.h", "src/util/swap.h"], [("strip_cmdline", "src/util/util_base.cc"), ("malloc_aligned", "src/util/util_base.cc")])
p("C29", "Output files contain the selected data of every cell and particle, unmodified",
  "Field, moment and particle dumps write the header that describes them and then every selected quantity of every selected cell, or every particle, once and in the documented order and stride, with particles time-centred in the file only. The text tables list the energies of the fields and of every species at the given step, every species and every material, and the global header the box, the time step and the selected variables. Dumping never changes the simulation state.",
  ["inputs", "configurations"], "all field and particle values, variable selections, strides and formats up to the bound",
  "The dump test checks that files exist.",
  ["src/vpic/dump.cc", "src/vpic/dumpmacros.h", "src/util/io/FileIO.h"], [("dump loops", "src/vpic/dump.cc")])
p("C30", "A full time step keeps Gauss's law and the step order users rely on",
  "Over a whole step the discrete Gauss error at every mesh node, div E minus total charge over eps0, is unchanged by particle motion, current unloading and field advance, also when leftover movers are dropped, and the magnetic divergence stays unchanged; initialization leaves no Gauss error. Sorting, collisions, motion, injection, field advance, divergence cleaning, synchronization and the user's hooks take place in the documented order, each when its interval is due, and no step is made once the last step is reached. The Poynting flux diagnostic depends only on the fields at the lower-x wall of the global box.",
  ["inputs", "configurations", "histories"], "all particle and field values on the stated small periodic meshes, one whole step",
  "Tests clean divergence away regularly, which hides slow violations.",
  ["src/vpic/advance.cc", "src/vpic/diagnostics.cc", "src/vpic/initialize.cc"], [("step sequence", "src/vpic/advance.cc")])
p("C31", "Deck regions and definition helpers set exactly what they name",
  "Setting fields, materials, particle boundaries or emitters over a region affects exactly the components, faces and cells the documented rule selects and nothing else: a regular region selects a component by the cells that touch it, interior when all of them are inside and surface when only some are, a point region by the component's own position. Field equations are evaluated once per selected component, at that component's position; leave_unchanged leaves what was there. The helpers for units, time step, grids, materials, species, arrays, random numbers and the Courant length pass on their arguments and the documented defaults.",
  ["inputs", "configurations"], "all memberships of the points around a cell, all field equations linear in position, all earlier fields, materials and neighbours, all arguments of the helpers on small meshes",
  "Test decks use whole-box or half-space regions, in which interior, surface and offset errors do not show.",
  ["deck/wrapper.h", "src/vpic/vpic.h", "src/grid/grid.h"], [("region macros", "deck/wrapper.h"), ("definition helpers", "src/vpic/vpic.h")])
def main():
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as f:
        for x in P: f.write(json.dumps(x) + "\n")
    print(len(P), "properties")
if __name__ == "__main__": main()
