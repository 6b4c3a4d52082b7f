PROPS = []
NA = []


def P(id, title, statement, over, forall, why, files, mech, technique, note):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, forall=forall, why=why, files=files, mech=mech,
                      technique=technique, note=note))


MB = 'property-based testing: generated operation histories against a reference model (Hypothesis, shrinking)'
RM = 'property-based testing: generated scenes against an independent reference computation (Hypothesis, shrinking)'
MR = 'property-based testing: generated scenes under a metamorphic relation (Hypothesis, shrinking)'
DF = 'property-based testing: differential runs of generated scenes (Hypothesis, shrinking)'
RT = 'property-based testing: round trips of generated values (Hypothesis, shrinking)'

P('C01', 'Loads on a body are exactly the sum of what was applied',
  'At any time the force, torque, prescribed displacement and rotation reported for a body equal the sum of everything added for it since the last reset, plus its permanent force or torque. '
  'A reset clears the added part for all bodies and keeps permanent loads unless a full reset is asked for, and neither creating bodies, nor loads on other bodies, nor the thread that adds a contribution changes the result.',
  ['histories', 'inputs', 'configurations'],
  'every sequence of additions, permanent settings, resets, reads, body creations and parallel steps, for any number of bodies and threads',
  'the outcome depends on the whole history of sizes and operations; a test samples a few short ones',
  ['core/ForceContainerParallel.cpp', 'core/ForceContainer.hpp', 'py/wrapper/yadeWrapper.cpp', 'pkg/common/ForceResetter.hpp'],
  [('per-thread accumulation and sync', 'core/ForceContainerParallel.cpp')], MB, 'random histories against a dictionary model')

P('C02', 'Body ids stay unique, stable and consistent through any edit history',
  'After any sequence of adding, clumping, releasing, merging, replacing and erasing bodies, every existing body is found under its own id, ids of other bodies never change, erased ids read as absent, counts and iteration list exactly the existing bodies, and clump membership is mutually consistent. '
  'Requests naming ids that do not exist are refused without changing anything.',
  ['histories', 'inputs'], 'every sequence of body container operations, valid or not, of any length',
  'the container state depends on the whole history; unit tests try single operations on fresh scenes',
  ['core/BodyContainer.cpp', 'core/BodyContainer.hpp', 'py/wrapper/yadeWrapper.cpp', 'core/Clump.cpp', 'core/Body.cpp'],
  [('insert, insertAtId, erase', 'core/BodyContainer.cpp'), ('clump bookkeeping', 'core/Clump.cpp'), ('O.bodies', 'py/wrapper/yadeWrapper.cpp')],
  MB, 'random histories against a dictionary model')

P('C03', 'The set of interactions is consistent after any history of contacts and erasures',
  'At any time each unordered pair of bodies has at most one interaction, looking a pair up works in both orders and agrees with iteration, per-body contact lists and the real-contact count, and no interaction survives the removal of one of its bodies beyond the next step. '
  'Explicitly erased or non-real interactions disappear from every view at once.',
  ['histories', 'inputs', 'configurations'], 'every sequence of body insertions and erasures, moves, steps, explicit contact creation, erasure and clearing',
  'stale or duplicated entries appear only after particular orders of creation, erasure and reuse of ids',
  ['core/InteractionContainer.cpp', 'core/InteractionContainer.hpp', 'core/BodyContainer.cpp', 'pkg/common/InteractionLoop.cpp', 'pkg/common/InsertionSortCollider.hpp', 'py/wrapper/yadeWrapper.cpp'],
  [('insert/erase/find', 'core/InteractionContainer.cpp'), ('erasure of lost contacts', 'pkg/common/InteractionLoop.cpp'), ('shouldBeErased', 'pkg/common/InsertionSortCollider.hpp')],
  MB, 'random histories against a model of the contact set')

P('C12', 'Each step integrates the equations of motion of every body',
  'In each step every body moves by the documented leap-frog scheme from the force, torque and gravity acting on it, with numerical damping, blocked degrees of freedom, prescribed displacements and rotations, and the engine\'s mask applied exactly as documented, for spherical and aspherical bodies. '
  'Orientations stay normalised.',
  ['inputs', 'configurations', 'histories'], 'every mass, inertia, load, initial state, blocked set, mask, damping, time step and number of steps',
  'the combinations of flags, signs and states that reach each branch of the integrator are unbounded',
  ['pkg/dem/NewtonIntegrator.cpp', 'pkg/dem/NewtonIntegrator.hpp', 'core/State.hpp', 'core/State.cpp'],
  [('leap-frog integration', 'pkg/dem/NewtonIntegrator.cpp'), ('blocked degrees of freedom', 'core/State.cpp')],
  RM, 'random bodies and loads against a numpy re-implementation of the documented scheme')

P('C14', 'A clump is one rigid body with the mass properties of its members',
  'Whatever its members, a clump\'s mass, centre of mass, principal inertias and orientation are those of the assembly, and during motion its members keep their positions and orientations relative to it and move with its rigid velocity. '
  'Forces and torques on members act on the clump as their exact resultant, and releasing, adding or replacing members keeps all of this true.',
  ['inputs', 'histories', 'configurations'], 'every set of member bodies, positions, orientations, loads, and sequence of clumping, stepping, adding and releasing',
  'mass properties depend continuously on arbitrary member arrangements; tests use a few symmetric ones',
  ['core/Clump.cpp', 'core/Clump.hpp', 'pkg/dem/NewtonIntegrator.cpp', 'py/wrapper/yadeWrapper.cpp'],
  [('updateProperties, addForceTorqueFromMembers, moveMembers', 'core/Clump.cpp')],
  RM, 'random assemblies against numpy mass properties and rigid kinematics')

P('C06', 'Contact detection never misses a pair, whatever the collider and its settings',
  'With any collider, any striding or enlargement setting and any motion within the documented speed limits, every pair of bodies that touches and is allowed to interact (masks, clump membership, body flags) has an interaction in the step in which it touches, and forbidden pairs never have one. '
  'The set of contacts found is the same for all colliders.',
  ['histories', 'inputs', 'configurations'], 'every set of bodies, motion, insertion and erasure history, mask and collider setting',
  'a missed pair needs a particular motion between two collider runs; tests check static or single scenes',
  ['pkg/common/InsertionSortCollider.cpp', 'pkg/common/InsertionSortCollider.hpp', 'pkg/common/Collider.cpp', 'pkg/common/Dispatching.cpp', 'pkg/common/SpatialQuickSortCollider.cpp', 'pkg/dem/FlatGridCollider.cpp', 'pkg/common/InteractionLoop.cpp'],
  [('insertion sort and striding', 'pkg/common/InsertionSortCollider.cpp'), ('mayCollide', 'pkg/common/Collider.cpp'), ('bound updates', 'pkg/common/Dispatching.cpp')],
  DF, 'random moving scenes, each collider against an all-pairs oracle')

P('C07', 'Contact detection in periodic space is complete for every cell shape',
  'In a periodic cell, sheared or deforming, every pair of spheres that touches through any periodic image has an interaction attributed to the right image, wherever in space the bodies are placed, and no pair is missed while the cell deforms or bodies cross boundaries.',
  ['histories', 'inputs', 'configurations'], 'every cell size, skew, velocity gradient, placement of bodies inside or outside the base cell, and motion',
  'misses depend on wrapping arithmetic at cell boundaries combined with skew and striding',
  ['pkg/common/InsertionSortCollider.cpp', 'pkg/common/InsertionSortCollider.hpp', 'core/Cell.hpp', 'pkg/common/Bo1_Aabb.cpp', 'pkg/common/InteractionLoop.cpp'],
  [('periodic insertion sort and cellDist', 'pkg/common/InsertionSortCollider.cpp'), ('shifts in the interaction loop', 'pkg/common/InteractionLoop.cpp')],
  RM, 'random periodic scenes against an all-images oracle')

P('C10', 'Contacts act and react equally and obey their documented laws',
  'For every contact model, the forces and moments a contact exerts on its two bodies are equal and opposite (about any point), so that an isolated system conserves momentum and angular momentum exactly. '
  'Friction never exceeds the Coulomb limit of the contact, and the linear elastic-frictional and Hertzian models give the documented forces at every step of any motion.',
  ['inputs', 'histories', 'configurations'], 'every contact model and parameter choice, arrangement, radii, materials, velocities and spins of spheres, over many steps',
  'each model has many branches reached by particular motions; existing tests check one or two models in one configuration',
  ['pkg/dem/ElasticContactLaw.cpp', 'pkg/dem/HertzMindlin.cpp', 'pkg/dem/CohesiveFrictionalContactLaw.cpp', 'pkg/dem/ViscoelasticPM.cpp', 'pkg/dem/ConcretePM.cpp', 'pkg/dem/JointedCohesiveFrictionalPM.cpp', 'pkg/dem/Lubrication.cpp', 'pkg/dem/L3Geom.cpp', 'pkg/dem/ScGeom.cpp'],
  [('linear law', 'pkg/dem/ElasticContactLaw.cpp'), ('Hertz-Mindlin', 'pkg/dem/HertzMindlin.cpp'), ('shear update', 'pkg/dem/ScGeom.cpp')],
  RM, 'random clusters under 18 contact models against conservation laws and a numpy reference')

P('C11', 'Physics does not depend on the frame of reference or the numbering of bodies',
  'Rotating, mirroring, translating or uniformly boosting a whole system, or inserting its bodies in another order or under other ids, gives the correspondingly transformed trajectory, forces and torques at every step, for every contact model.',
  ['inputs', 'configurations', 'histories'], 'every system of spheres, contact model, rigid transformation, Galilean boost and numbering',
  'it relates two whole runs; tests look at one run in one frame',
  ['pkg/dem/ScGeom.cpp', 'pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp', 'pkg/dem/L3Geom.cpp', 'pkg/dem/ElasticContactLaw.cpp', 'pkg/dem/HertzMindlin.cpp', 'pkg/dem/CohesiveFrictionalContactLaw.cpp', 'pkg/dem/ViscoelasticPM.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'pkg/common/InteractionLoop.cpp'],
  [('relative velocity and shear rotation', 'pkg/dem/ScGeom.cpp')],
  MR, 'pairs of runs of random systems related by a transformation')

P('C15', 'The periodic cell evolves exactly as its velocity gradient prescribes',
  'In every step the cell\'s base vectors and transformation follow the prescribed velocity gradient, derived quantities (size, volume, shear and normalised transformations, strains) agree with them, assignments through any of the documented attributes leave all views consistent, and bodies and their velocities follow the homogeneous deformation as documented. '
  'Wrapping a point into the cell returns the same point modulo base vectors.',
  ['inputs', 'histories', 'configurations'], 'every base cell, sequence of gradients, assignments and steps, and point',
  'consistency among the redundant views depends on the order of assignments and steps',
  ['core/Cell.hpp', 'core/Cell.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'py/wrapper/yadeWrapper.cpp'],
  [('integrateAndUpdate', 'core/Cell.cpp'), ('wrapping', 'core/Cell.hpp'), ('homogeneous deformation', 'pkg/dem/NewtonIntegrator.cpp')],
  MB, 'random assignment and step histories against a numpy model of the cell')

P('C13', 'Tracked energies match bodies and contacts, and their sum is conserved',
  'With energy tracking on, kinetic energy (split or not), work of gravity, energy lost to numerical damping and elastic energy equal what the states of the bodies and contacts give, whatever the number of threads and whenever tracking is switched on or the energies cleared; utils.kineticEnergy agrees. '
  'Friction and damping never give energy back, and the sum of all tracked energies of a closed elastic-frictional system stays constant within the accuracy of the time integration.',
  ['inputs', 'histories', 'configurations', 'schedules'], 'every set of bodies, contact model with tracked energies, damping, gravity, blocked degrees of freedom, thread count and moment of switching on or clearing',
  'the terms come from several engines running in parallel, and only their sum over long histories shows an error',
  ['pkg/dem/NewtonIntegrator.cpp', 'core/EnergyTracker.hpp', 'pkg/dem/ElasticContactLaw.cpp', 'pkg/dem/HertzMindlin.cpp', 'pkg/dem/CohesiveFrictionalContactLaw.cpp', 'pkg/common/GravityEngines.cpp', 'pkg/dem/Shop_01.cpp', 'lib/base/openmp-accu.hpp'],
  [('updateEnergy', 'pkg/dem/NewtonIntegrator.cpp'), ('EnergyTracker', 'core/EnergyTracker.hpp'), ('elastPotential and plastDissip', 'pkg/dem/ElasticContactLaw.cpp')],
  RM, 'random bodies and contacts against numpy energies, and the balance of energy over whole runs')

P('C04', 'A saved simulation, reloaded, continues exactly like the uninterrupted one',
  'Saving in any format (XML or binary, plain or compressed, or in memory) does not disturb the running simulation; loading gives back the same step, time, bodies, contacts with their history, materials, engines, cell, energies and tags; and the loaded simulation then evolves as the uninterrupted one, for every contact model and engine combination, through repeated round trips and changes of format.',
  ['histories', 'crash_points', 'configurations', 'inputs'], 'every scene, contact model, moment of saving, file format and chain of formats, and number of further steps',
  'internal state that is not saved shows only in the continuation of particular scenes; tests compare attributes of one small scene',
  ['core/Omega.cpp', 'lib/serialization/ObjectIO.hpp', 'core/InteractionContainer.cpp', 'core/Scene.cpp', 'core/BodyContainer.hpp', 'core/Cell.hpp', 'pkg/dem/ConcretePM.hpp', 'pkg/dem/BubbleMat.cpp', 'pkg/dem/ViscoelasticCapillarPM.hpp', 'pkg/dem/GlobalStiffnessTimeStepper.cpp'],
  [('saveSimulation and loadSimulation', 'core/Omega.cpp'), ('preSave and postLoad of contacts', 'core/InteractionContainer.cpp')],
  DF, 'random scenes run with and without a save-load in the middle')

P('C09', 'Contact geometry is that of the two bodies, in any position and either order',
  'For a sphere against a sphere, facet, box or wall, in any relative position (face, edge, vertex, centre inside), either order of ids, with or without periodic images: a contact exists exactly when the shapes overlap, overlap, normal and contact point are those of the closest points, relative shear, twist and bending follow from the motion of the two bodies, and the forces and moments on the two bodies balance.',
  ['inputs', 'configurations', 'histories'], 'every pair of shapes, sizes, positions, orientations, velocities, order of ids, periodic image and contact geometry class',
  'closest-feature logic has many branches (faces, edges, vertices, inside, obtuse triangles, images) reached only by particular positions',
  ['pkg/dem/Ig2_Sphere_Sphere_ScGeom.cpp', 'pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp', 'pkg/dem/Ig2_Box_Sphere_ScGeom.cpp', 'pkg/dem/ScGeom.cpp', 'pkg/dem/L3Geom.cpp'],
  [('ScGeom::precompute and getIncidentVel', 'pkg/dem/ScGeom.cpp'), ('closest point on facets', 'pkg/dem/Ig2_Facet_Sphere_ScGeom.cpp')],
  RM, 'random pairs of moving bodies against closest points computed with numpy')

P('C08', 'Bounding boxes contain their bodies whenever contacts are detected',
  'In every step the axis-aligned box used for contact detection contains the body (sphere, facet, box, wall, polyhedron, tetrahedron, grid connection or clump member), at any position, orientation and cell shape, also in the steps in which boxes are kept because bodies moved less than the verlet distance.',
  ['histories', 'inputs', 'configurations'], 'every shape, size, orientation, motion, cell deformation, verlet distance and number of steps between updates',
  'a box that is too small loses contacts silently, and only for particular orientations, cell shapes or motions between updates',
  ['pkg/common/Bo1_Aabb.cpp', 'pkg/common/Dispatching.cpp', 'pkg/common/InsertionSortCollider.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'pkg/dem/Tetra.cpp', 'pkg/dem/Polyhedra.cpp', 'pkg/common/Grid.cpp', 'core/Bound.hpp'],
  [('bound functors', 'pkg/common/Bo1_Aabb.cpp'), ('sweep by the verlet distance', 'pkg/common/Dispatching.cpp'), ('when bounds are renewed', 'pkg/dem/NewtonIntegrator.cpp')],
  RM, 'random moving bodies of all shapes; support points against the bounds of every step')

P('C24', 'Aggregate measures equal the sums over bodies and contacts they stand for',
  'Volumes, masses, porosity, extents, momenta, unbalanced force, forces on sets of bodies or planes, stress, fabric and tangent tensors, depth profiles and contact statistics equal the documented sums over the current bodies and real contacts, whatever bodies were erased, clumped, masked or fixed, in open and periodic scenes. '
  'Operations on all bodies (calming, growing, shifting, friction, reference positions) change exactly what they document.',
  ['inputs', 'configurations', 'histories'], 'every set of bodies, masks, clumps, erasures, contacts, cell shapes, planes, boxes and layers',
  'users read results off these numbers; erased bodies, clumps, rotated facets, periodic images and partially covered layers each need their own case',
  ['py/_utils.cpp', 'pkg/dem/Shop_01.cpp', 'pkg/dem/Shop_02.cpp', 'core/Cell.hpp'],
  [('getStress, profiles, fabric', 'pkg/dem/Shop_02.cpp'), ('momenta, unbalanced force, volumes', 'pkg/dem/Shop_01.cpp'), ('sums over ids', 'py/_utils.cpp')],
  RM, 'random scenes, every measure recomputed with numpy from attributes of bodies and contacts')

P('C17', 'A distributed (MPI) run gives the trajectories of a monolithic run',
  'For any partition of the bodies into subdomains, with or without merging the scene at collision updates, with any of the communication modes and with fixed, moving or dynamic bodies kept by the master, positions, velocities, orientations and spins of all bodies after merging equal those of a single-process run of the same scene. '
  'The run always completes, and the master has the resultant forces on its own bodies at every step.',
  ['schedules', 'inputs', 'configurations'], 'every partition, number of processes, split/merge mode, communication mode, set of bodies, motion and sequence of runs',
  'messages, ghost bodies and collision updates only matter when bodies cross or touch subdomain boundaries at particular steps',
  ['py/mpy.py', 'core/Subdomain.hpp', 'core/Subdomain.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'pkg/common/InsertionSortCollider.cpp'],
  [('mpirun, splitScene, mergeScene', 'py/mpy.py'), ('state messages', 'core/Subdomain.cpp')],
  DF, 'random scenes and partitions run by mpirun and by one process')

P('C18', 'Results do not depend on the number of threads',
  'Running the same scene with any number of OpenMP threads gives the same contacts, forces, energies and trajectories as one thread, up to the rounding caused by another order of summation, through contact detection, contact loops, clumps, kinematic engines and integration, also when bodies are added or erased between steps.',
  ['schedules', 'inputs', 'configurations', 'histories'], 'every scene, contact law, number of threads, per-engine thread setting, and edit between steps',
  'races and per-thread buffers show up only with several threads, enough bodies and particular interleavings; the tests run few bodies',
  ['pkg/common/InteractionLoop.cpp', 'pkg/common/InsertionSortCollider.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'core/ForceContainerParallel.cpp', 'core/EnergyTracker.hpp', 'lib/base/openmp-accu.hpp', 'pkg/common/KinematicEngines.cpp'],
  [('parallel contact loop', 'pkg/common/InteractionLoop.cpp'), ('parallel sort', 'pkg/common/InsertionSortCollider.cpp'), ('accumulators', 'lib/base/openmp-accu.hpp')],
  DF, 'random scenes with 1 and with 2-4 threads; tolerance from a perturbed run')

P('C20', 'Engines run in order at the steps their periods say; runs stop where asked',
  'At every step the engines which are alive run once in list order, periodic engines run exactly when their period in steps or virtual time has elapsed and at most nDo times, replaced engine lists take effect from the next step, and sub-stepping visits the same sequence piecewise. '
  'Step and time counters advance by exactly one step and dt; runs stop at the requested step or time, and when a run was waited for no step is still in progress.',
  ['histories', 'schedules', 'configurations'], 'every engine list with periods, limits, dead flags and parallel groups, and every sequence of steps, runs, pauses, sub-steps and changes of engines, dt and stop conditions',
  'periods, first runs, limits and pauses interact over many steps and with the thread which runs the loop',
  ['core/Scene.cpp', 'core/SimulationFlow.cpp', 'core/ThreadRunner.cpp', 'pkg/common/PeriodicEngines.hpp', 'pkg/common/ParallelEngine.cpp', 'core/Omega.cpp', 'py/wrapper/yadeWrapper.cpp'],
  [('moveToNextTimeStep', 'core/Scene.cpp'), ('isActivated', 'pkg/common/PeriodicEngines.hpp'), ('loop thread', 'core/ThreadRunner.cpp')],
  MB, 'random engine lists and run-control histories against a model of the loop')

P('C22', 'Generated sphere packings fit their box, sizes and number and never overlap',
  'Clouds of spheres or clumps lie inside the requested box, plane or periodic cell, spheres of different particles never overlap (periodic images included), their number and radii follow the requested count, porosity and size distribution (scaled only as reported), and the same seed always gives the same packing. '
  'Translating, rotating, scaling, repeating, saving and loading a packing, and moving it to a simulation and back, keep every sphere, clump and the periodic cell.',
  ['inputs', 'histories'], 'every box, cell, size distribution, number, seed, clump template and sequence of operations on packings',
  'overlaps across skewed periodic boundaries, retries with scaled sizes and state left by earlier operations need particular combinations of inputs',
  ['pkg/dem/SpherePack.cpp', 'pkg/dem/SpherePack.hpp', 'py/pack/_packSpheres.cpp', 'py/pack/pack.py', 'pkg/dem/Shop_01.cpp'],
  [('makeCloud, makeClumpCloud, cellRepeat', 'pkg/dem/SpherePack.cpp'), ('transformations', 'pkg/dem/SpherePack.hpp'), ('toSimulation', 'py/pack/pack.py')],
  MB, 'random generation requests checked for containment, overlap and distribution; random histories against a list of spheres')

P('C27', 'Solid predicates decide membership exactly and regular fillings respect them',
  'A point is inside a solid (sphere, box, parallelepiped, cylinder, hyperboloid, ellipsoid, outside of a notch, half space, convex polyhedron, or any boolean combination) exactly when the analytic definition says so; with padding, a point accepted keeps that distance from the boundary; the bounding box contains the solid. '
  'Orthogonal, hexagonal and filtered fillings consist of exactly the lattice or packing spheres which lie inside the solid, and do not overlap.',
  ['inputs'], 'every solid, boolean expression, point, padding, radius and gap',
  'orientation of edges, corners of notches, padding larger than the solid and nested boolean operations each need particular inputs',
  ['py/pack/_packPredicates.cpp', 'py/pack/pack.py'], [('predicates', 'py/pack/_packPredicates.cpp'), ('regularOrtho, regularHexa, filterSpherePack', 'py/pack/pack.py')],
  RM, 'random boolean expressions of solids against analytic membership; lattice recomputed')

P('C05', 'Attributes survive assignment, copying, pickling and saving for every class',
  'For every class exposed to Python, a value assigned to a documented attribute (attribute by attribute, in the constructor, or by updateAttrs) is the value read back, unknown attribute names are refused, and all attributes which are meant to be saved survive dict(), pickling and saving to memory or to XML or binary files, plain or compressed, whatever the values. '
  'Attributes of one object never change those of another.',
  ['inputs', 'configurations'], 'every class, set of attributes, values (extreme numbers, strings with special characters, containers, shared objects) and way of copying',
  'there are hundreds of classes with thousands of attributes; a declaration in one of them can shadow, skip or reset another and tests look at a handful',
  ['lib/serialization/Serializable.hpp', 'lib/serialization/Serializable.cpp', 'lib/serialization/ObjectIO.hpp', 'lib/base/openmp-accu.hpp', 'py/wrapper/customConverters.cpp', 'core/Scene.cpp', 'core/Material.hpp'],
  [('attribute macros', 'lib/serialization/Serializable.hpp'), ('file formats', 'lib/serialization/ObjectIO.hpp'), ('Python conversions', 'py/wrapper/customConverters.cpp')],
  RT, 'random objects of every class with random attribute values; read back, constructor, dict, pickle, save and load')

P('C16', 'Periodic scenes do not depend on which image or which cell describes them',
  'Replacing bodies by any of their periodic images, translating the whole scene, flipping the cell to another generator of the same lattice, doubling or tripling the simulated period, or (without contact across the boundary) removing the periodicity leaves contacts, forces, trajectories and stress unchanged up to rounding, under any cell deformation and contact law.',
  ['inputs', 'configurations', 'histories'], 'every packing, cell shape, velocity gradient and its changes, contact law, image shift, flip and number of steps',
  'a wrong shift, shift velocity or lever arm affects only contacts across the boundary of a moving cell, and shows as a small error of forces',
  ['core/Cell.hpp', 'core/Cell.cpp', 'pkg/dem/ScGeom.cpp', 'pkg/dem/ElasticContactLaw.cpp', 'pkg/dem/HertzMindlin.cpp', 'pkg/dem/ViscoelasticPM.cpp', 'pkg/dem/ConcretePM.cpp', 'pkg/common/InsertionSortCollider.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'pkg/common/InteractionLoop.cpp', 'pkg/dem/Shop_02.cpp'],
  [('shift and shift velocity', 'core/Cell.hpp'), ('cell distance of contacts', 'pkg/common/InsertionSortCollider.cpp'), ('lever arms across the boundary', 'pkg/dem/ElasticContactLaw.cpp')],
  MR, 'random periodic scenes run twice, once with images, translation, flips or several periods; tolerance from a perturbed run')

P('C21', 'Boundary engines impose exactly the documented motions and loads',
  'Bodies driven by translation, rotation, helix, harmonic, interpolating, servo-controlled, pedal or step engines, alone or combined, have at every step the velocity and position given by the documented law; force, torque, interpolated, radial, drag and gravity engines add exactly the documented loads to the bodies they name, and recorders write the sums they promise. '
  'Bodies not named, masked out or erased are untouched and never break a run.',
  ['inputs', 'configurations', 'histories'], 'every combination and order of engines, parameters, ids, masks, erased bodies, changes during the run and number of steps',
  'combined engines, axes of any length, tables with wrapping, erased ids and changing parameters interact over many steps',
  ['pkg/common/KinematicEngines.cpp', 'pkg/common/KinematicEngines.hpp', 'pkg/common/ForceEngine.cpp', 'pkg/common/GravityEngines.cpp', 'pkg/common/StepDisplacer.hpp', 'pkg/common/Recorder.hpp', 'pkg/dem/ForceTorqueRecorder.cpp', 'pkg/common/TorqueEngine.hpp'],
  [('kinematic engines', 'pkg/common/KinematicEngines.cpp'), ('force engines', 'pkg/common/ForceEngine.cpp'), ('gravity', 'pkg/common/GravityEngines.cpp')],
  RM, 'random engine lists and edits against a Python model of every engine')

P('C23', 'Exported files carry the data of the scene and imported files create it exactly',
  'Text, VTK, LIGGGHTS and gmsh exports list every selected body and interaction exactly once with its position, size, attributes and labels, whatever bodies were erased, masked or clumped and in periodic scenes too; what is exported as text is re-imported unchanged up to the digits written. '
  'Imports of spheres, clumps, gmsh, STL (text and binary), UNV, IGES, tetgen and polyhedra files create exactly the bodies of the file, with the requested shift, scale and rotation.',
  ['inputs', 'configurations'], 'every scene, selection, list of quantities, comment, mesh, shift, scale and orientation',
  'row counts, offsets, field types and the first or last record go wrong only for particular combinations of bodies and options',
  ['py/export.py', 'py/ymport.py', 'pkg/dem/VTKRecorder.cpp', 'pkg/dem/STLImporter.hpp', 'pkg/dem/Shop_01.cpp', 'py/polyhedra_utils.py'],
  [('text and VTK export', 'py/export.py'), ('imports', 'py/ymport.py'), ('VTKRecorder', 'pkg/dem/VTKRecorder.cpp')],
  RT, 'random scenes and meshes exported, parsed independently and re-imported')

P('C25', 'Contact coefficients are the documented combination of both materials',
  'When two bodies first touch, the stiffnesses, damping coefficients, friction angle, strengths and cohesion flags of the contact are the documented functions of both materials and radii (or what a MatchMaker prescribes), the same whichever body comes first, finite for every admissible material, and the first force is the one these coefficients give. '
  'Every kind of sphere, facet, wall and box contact and every contact model follow this.',
  ['inputs', 'configurations'], 'every pair of materials, radii, MatchMakers, shapes, order of bodies and contact model',
  'a coefficient taken twice from the same material is invisible when both materials are equal, as in the tests',
  ['pkg/dem/FrictPhys.cpp', 'pkg/common/ElastMat.hpp', 'pkg/dem/HertzMindlin.cpp', 'pkg/dem/ViscoelasticPM.cpp', 'pkg/dem/ViscoelasticCapillarPM.cpp', 'pkg/dem/CohesiveFrictionalContactLaw.cpp', 'pkg/dem/LudingPM.cpp', 'pkg/dem/ConcretePM.cpp', 'pkg/dem/JointedCohesiveFrictionalPM.cpp', 'pkg/dem/Lubrication.cpp',
   'pkg/dem/MortarMat.cpp', 'pkg/common/MatchMaker.cpp', 'pkg/common/MatchMaker.hpp', 'pkg/dem/CapillaryPhys.cpp', 'pkg/dem/FrictViscoPM.cpp'],
  [('Ip2 functors', 'pkg/dem/FrictPhys.cpp'), ('MatchMaker', 'pkg/common/MatchMaker.cpp')],
  RM, 'random pairs of materials against an independent table of formulas, with the order of bodies swapped')

P('C26', 'Automatic time steps are the documented stability estimates of the current state',
  'The global-stiffness time stepper sets, at the steps and within the limits asked for, the smallest critical step over dynamic bodies computed from their mass, inertia and the stiffness (and viscosity) of their current contacts, times the safety coefficient; with density scaling every body gets the documented scaling factor instead. '
  'The P-wave and Rayleigh-wave estimates are the documented functions of all spheres, and bodies which are fixed, erased, or without contacts never make the step wrong, undefined or crash the run.',
  ['inputs', 'configurations', 'histories'], 'every set of bodies, shapes, clumps, contact models, damping, limits, intervals and changes during the run',
  'the estimate depends on all contacts of the softest body at the step of the update; a run with a slightly wrong step still looks plausible',
  ['pkg/dem/GlobalStiffnessTimeStepper.cpp', 'pkg/dem/GlobalStiffnessTimeStepper.hpp', 'core/TimeStepper.hpp', 'pkg/dem/Shop_01.cpp', 'pkg/dem/NewtonIntegrator.cpp', 'py/_utils.cpp'],
  [('per-body stiffness and critical step', 'pkg/dem/GlobalStiffnessTimeStepper.cpp'), ('wave estimates', 'pkg/dem/Shop_01.cpp')],
  RM, 'random scenes and changes against an independent computation of stiffness sums and critical steps')

P('C28', 'Contact forces follow the documented law along any motion of the particles',
  'Along any sequence of approach, separation, sliding, rolling, twisting and spinning of two particles, the force and moment a contact exerts, its internal variables, its breaking or erasure and the energies reported are those of the documented contact model evaluated step by step: elastic and viscous terms, friction limit, adhesion, cohesion and its breaking, creep, rolling and twisting resistance, plastic unloading, wire and joint response. '
  'This holds for linear, viscoelastic, Hertz-Mindlin, cohesive, Luding, jointed-cohesive, inelastic and wire contacts, whichever particle comes first.',
  ['inputs', 'histories', 'configurations'], 'every law, choice of parameters and flags, radii, order of bodies and history of relative motion, including changes of the bond during the run',
  'laws have states (bonded, sliding, unloading, broken) reached only through particular histories, while tests check a few loading paths',
  ['pkg/dem/ElasticContactLaw.cpp', 'pkg/dem/HertzMindlin.cpp', 'pkg/dem/CohesiveFrictionalContactLaw.cpp', 'pkg/dem/ViscoelasticPM.cpp', 'pkg/dem/LudingPM.cpp', 'pkg/dem/JointedCohesiveFrictionalPM.cpp', 'pkg/dem/InelastCohFrictPM.cpp', 'pkg/dem/WirePM.cpp', 'pkg/dem/FrictViscoPM.cpp', 'pkg/dem/ScGeom.cpp'],
  [('linear law', 'pkg/dem/ElasticContactLaw.cpp'), ('Hertz-Mindlin family', 'pkg/dem/HertzMindlin.cpp'), ('cohesive law', 'pkg/dem/CohesiveFrictionalContactLaw.cpp'), ('rotation of shear and increments', 'pkg/dem/ScGeom.cpp')],
  RM, 'random motions of two particles, every step compared with a reference model of the law')

P('C29', 'Pore flow conserves fluid, is linear, and does not depend on numbering or frame',
  'For every packing in a box, the pore pressures solved by FlowEngine stay within the imposed values, what enters through boundaries, sources and moving walls leaves, a uniform pressure puts no net force on inner particles, and solutions superpose and scale with pressure, viscosity, permeability and size. '
  'Renumbering particles, moving, mirroring or permuting the axes of the box, the choice of solver, re-meshing and earlier configurations in the same engine do not change pressures, fluxes and forces, and queries at points agree with the pores.',
  ['inputs', 'configurations', 'histories'], 'every packing, box, set of boundary conditions, source, wall motion, viscosity, solver and change during the run',
  'a wrong facet, neighbour or stale conductance alters a few pores of an irregular triangulation; totals in a test still look right',
  ['lib/triangulation/FlowBoundingSphere.ipp', 'lib/triangulation/FlowBoundingSphereLinSolv.ipp', 'lib/triangulation/Network.ipp', 'pkg/pfv/FlowEngine.ipp.in', 'pkg/pfv/FlowEngine.hpp.in', 'lib/triangulation/Tesselation.ipp'],
  [('conductances and boundary conditions', 'lib/triangulation/FlowBoundingSphere.ipp'), ('linear system', 'lib/triangulation/FlowBoundingSphereLinSolv.ipp'), ('engine', 'pkg/pfv/FlowEngine.ipp.in')],
  MR, 'random packings and boundary conditions: balance, bounds and metamorphic relations between two runs')

P('C30', 'Parameter tables, recorded data and body tools keep every value',
  'A parameter table read by TableParamReader gives, for every line, exactly the values written (comments, blank lines and a missing final newline lose nothing; = repeats the line above or is refused; descriptions are unique). Data recorded with plot.addData keep every column, of scalars or of components of vectors and matrices, aligned and padded with NaN, are saved to text completely, are restarted by resets, and the caller\'s dictionaries are unchanged. '
  'Piecewise-linear functions interpolate and integrate exactly, and spheresPackDimensions, spheresModify and facetsDimensions measure and transform exactly the bodies asked for.',
  ['inputs', 'histories'], 'every table, sequence of records, resets, splits and saves, tabulated function, and selection of bodies by id, object or mask',
  'which line, column or body is affected depends on layout, order and selection; tests do not cover these modules',
  ['py/utils.py', 'py/plot.py', 'py/linterpolation.py', 'py/bodiesHandling.py'],
  [('parameter tables', 'py/utils.py'), ('recorded data', 'py/plot.py'), ('tabulated functions', 'py/linterpolation.py'), ('groups of bodies', 'py/bodiesHandling.py')],
  MB, 'random tables, recording histories and groups of bodies against simple models')

P('C31', 'Stress and strain controllers measure and move boundaries as documented',
  'At every step TriaxialStressController reports the sizes, stresses, strains, porosity and work of the box it surrounds and moves each active boundary by its documented control: towards the stress goal through the stiffness of its contacts, damped and limited by the allowed velocity, or with the strain rate asked for; internal compaction grows particles by the documented factor. '
  'PeriTriaxController and Peri3dController deform the periodic cell by the documented rates towards goals given axis by axis in stress or strain, along the prescribed path, and signal the end exactly when the goals are reached. UniaxialStrainer moves its two groups of bodies at the strain rate asked for, raised linearly at the start, reverses at limitStrain and stops at stopStrain, in tension and compression. Inactive boundaries and components that are not controlled stay as they are.',
  ['inputs', 'histories', 'configurations'], 'every packing, mask of stress- and strain-controlled axes, goals, dampings, limits, update intervals, inactive boundaries and changes of control during the run',
  'control depends on intervals, masks and earlier steps for each boundary separately; tests run one symmetric configuration to its end',
  ['pkg/dem/TriaxialStressController.cpp', 'pkg/dem/TriaxialStressController.hpp', 'pkg/dem/PeriIsoCompressor.cpp', 'pkg/dem/PeriIsoCompressor.hpp', 'pkg/dem/UniaxialStrainer.cpp', 'pkg/dem/Shop_02.cpp'],
  [('box boundaries', 'pkg/dem/TriaxialStressController.cpp'), ('periodic cell', 'pkg/dem/PeriIsoCompressor.cpp'), ('uniaxial strain', 'pkg/dem/UniaxialStrainer.cpp')],
  RM, 'random packings and control programs, every step compared with a reference model')
