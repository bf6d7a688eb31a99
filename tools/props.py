import json
P=[]
D="movement_primitives/dmp/"
def p(id,title,st,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":[observe],"hook_needed":None}
    if state: a["state"]=[{"name":x.strip(),"meaning":"carried between calls","where":files[0]} for x in state.split(",")]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","A joint-space DMP follows its documented dynamics on every call history",
"Whatever sequence of configuring start, goal or time, setting weights, changing the execution time, resetting and stepping a DMP has seen, each step returns the position and velocity of its documented system: a spring-damper pulled to the goal (per-dimension gains), plus a phase-driven forcing term that is linear in the weights, plus optional smooth scaling, coupling and tracking-error terms. The selected integrator (RK4 over one step, or semi-implicit Euler with the internal step size) advances the state by exactly one time step per call, starting at the configured start state. Every configuration option that the constructor offers takes part in this.",
["histories","configurations"],"All operation sequences up to the stated depth over {step with exact or perturbed feedback, configure start/goal/velocity/time, set weights, change execution time, reset, rollout} times all configurations within the deviation bound from the default (dimensions, gains, weights per dimension, step sizes, feedback gain, scaling mode, integrator).",
"A unit test fixes one configuration and one call order and compares with a loose tolerance; state carried between calls (time, current state, initialisation flag, forcing term) only goes wrong in particular orders and option combinations.",
[D+"_dmp.py",D+"_base.py",D+"_forcing_term.py","movement_primitives/dmp_fast.pyx","movement_primitives/base.py"],
[("step / open_loop",D+"_dmp.py"),("RK4 and Euler integrators",D+"_dmp.py and movement_primitives/dmp_fast.pyx"),("reset and configure",D+"_base.py and movement_primitives/base.py")],
"return values of step() and open_loop()","time, last time, current position and velocity, initialised flag, start, goal, weights, execution time")

p("P02","A Cartesian DMP follows its documented pose dynamics with unit quaternions",
"On every history of configuring, setting weights, changing execution time and stepping, a Cartesian DMP advances the pose and velocity passed to it by one step of its documented dynamics: the position part as a joint-space DMP and the orientation part by the quaternion logarithm of the goal orientation relative to the current one. Every orientation it returns is a unit quaternion, and replacing the start, goal or current quaternion by its negative describes the same motion. Step-by-step execution with the fed-back state yields the same poses as the open-loop rollout.",
["histories","configurations","inputs"],"All operation sequences up to the stated depth, over all pairs of start and goal orientations from a finite set of rotations and signs, all integrator choices and all configurations within the deviation bound.",
"Unit tests use one rotation pair far from singular angles and never negate a quaternion or change parameters mid-execution.",
[D+"_cartesian_dmp.py","movement_primitives/dmp_fast.pyx"],
[("pose step",D+"_cartesian_dmp.py"),("quaternion integration","movement_primitives/dmp_fast.pyx and "+D+"_cartesian_dmp.py")],
"return values of step() and open_loop()","pose, velocity, time, start, goal, weights")

p("P03","A bimanual Cartesian DMP moves each arm as its own Cartesian DMP would",
"Without coupling, each arm of a bimanual DMP follows exactly the trajectory of a single-arm system with that arm's gains, weights, start and goal (semi-implicit Euler), on every history of stepping, feedback, configuration and execution-time change, and what is set for one arm never influences the other. With a feedback gain the tracking error of each arm enters its own acceleration only. Orientations stay unit quaternions.",
["histories","configurations","inputs"],"All operation sequences up to the stated depth, all per-arm perturbations (start, goal, weight block, gain entry) and all configurations within the deviation bound, for both implementations.",
"Existing tests only run symmetric, uniform-gain cases and compare the two implementations for a single step in which nothing moves.",
[D+"_dual_cartesian_dmp.py","movement_primitives/dmp_fast.pyx"],
[("bimanual step",D+"_dual_cartesian_dmp.py and movement_primitives/dmp_fast.pyx"),("index layout of position and velocity blocks",D+"_dual_cartesian_dmp.py")],
"return values of step() and open_loop()","14-dimensional pose, 12-dimensional velocity, time, tracking error")

p("P04","Compiled and pure-Python step implementations are interchangeable",
"For every supported option (step sizes, per-dimension gains, weights, smooth scaling, feedback gain with tracking error, coupling terms returning velocity and acceleration), the compiled and the pure-Python variant of each integrator produce the same trajectory. This holds for the joint-space Euler and RK4 steps, the quaternion step, the bimanual step and the 2D obstacle avoidance, and when the variants are mixed within one execution.",
["configurations","inputs","schedules"],"All configurations within the deviation bound, all coupling kinds, and all assignments of implementation variant to the steps of an execution up to the stated length.",
"Tests compare the variants on one configuration without coupling, feedback or scaling, where the two code paths cannot differ.",
[D+"_dmp.py",D+"_cartesian_dmp.py",D+"_dual_cartesian_dmp.py",D+"_coupling_terms.py","movement_primitives/dmp_fast.pyx"],
[("step function tables",D+"_dmp.py, "+D+"_cartesian_dmp.py, "+D+"_dual_cartesian_dmp.py"),("compiled steps","movement_primitives/dmp_fast.pyx")],
"trajectories from step() and open_loop() under each step_function choice")

p("P05","Every primitive converges to its goal regardless of weights and start",
"For any start, goal, weights and (critically damped) gains, running a DMP, Cartesian DMP, bimanual DMP or spring-damper long enough beyond its execution time brings it to the configured goal with vanishing velocity, also when the goal is changed or the state is disturbed on the way. The final-velocity DMP also settles at the goal when run past its execution time.",
["inputs","histories"],"All combinations of start, goal and weight patterns from finite sets, all moments (on the step grid) of a goal change or state disturbance, all primitive types and integrators.",
"Convergence has to survive every switching time and every disturbance; tests run one undisturbed rollout.",
[D+"_dmp.py",D+"_cartesian_dmp.py",D+"_dual_cartesian_dmp.py",D+"_dmp_with_final_velocity.py","movement_primitives/spring_damper.py","movement_primitives/dmp_fast.pyx"],
[("goal attractor",D+"_dmp.py"),("phase decay",D+"_canonical_system.py")],
"final state of open_loop(run_t=...) and of repeated step()")

p("P06","Changing the execution time only rescales the motion in time",
"If execution time, time step and internal step are scaled by the same factor, a DMP, Cartesian DMP or bimanual DMP with the same weights, start and goal visits the same positions, and its velocities scale by the inverse factor. Assigning a new execution time keeps the weights and gives exactly the behaviour of a primitive constructed with that time, whatever assignments came before.",
["histories","configurations"],"All sequences of execution-time assignments up to the stated length from a finite set of factors, all primitive types, integrators, scaling modes and weight counts within the bound.",
"One test halves and doubles the time once with a tolerance of 1e-3; accumulated or stale state shows only after particular sequences.",
[D+"_dmp.py",D+"_cartesian_dmp.py",D+"_dual_cartesian_dmp.py",D+"_dmp_with_final_velocity.py",D+"_forcing_term.py"],
[("execution_time_ property",D+"_dmp.py, "+D+"_cartesian_dmp.py, "+D+"_dual_cartesian_dmp.py, "+D+"_dmp_with_final_velocity.py"),("basis function placement",D+"_forcing_term.py")],
"open_loop() and step() before and after assigning execution_time_")

p("P07","DMP motions respect the symmetries of their equations",
"Shifting start and goal by the same offset shifts the whole trajectory by that offset; permuting dimensions (with their gains and weights) permutes it; superposing start, goal and weights superposes trajectories; rotating the world (poses and weights) rotates a Cartesian trajectory when gains are uniform. Dimensions never influence each other.",
["inputs","configurations"],"All dimensions up to the bound, all permutations, all offsets and rotations from finite groups, all integrators and scaling modes.",
"A symmetry relates many executions; no single expected value captures it, and an index slip is invisible in one-dimensional or uniform tests.",
[D+"_dmp.py",D+"_cartesian_dmp.py",D+"_dual_cartesian_dmp.py",D+"_dmp_with_final_velocity.py","movement_primitives/dmp_fast.pyx"],
[("per-dimension integration",D+"_dmp.py and movement_primitives/dmp_fast.pyx")],
"trajectories of open_loop() on transformed configurations")

p("P08","After a reset, execution repeats exactly, whatever happened before",
"Once a primitive is reset, its further behaviour is a function of its current parameters (start, goal, weights, execution time, gains) only: stepping it gives bit-identical results to a freshly constructed and equally configured primitive, for every history before the reset. A start configured after the reset and before the next step is where that execution starts.",
["histories"],"All operation histories up to the stated depth before the reset (steps, partial executions, goal switches, feedback, rollouts, imitation, execution-time changes), for every primitive class that offers reset.",
"Hidden state that survives a reset depends on the exact history; a test replays one.",
[D+"_base.py",D+"_dmp.py",D+"_dual_cartesian_dmp.py",D+"_dmp_with_final_velocity.py","movement_primitives/minimum_jerk_trajectory.py","movement_primitives/spring_damper.py"],
[("reset",D+"_base.py, movement_primitives/minimum_jerk_trajectory.py, movement_primitives/spring_damper.py"),("first-step initialisation",D+"_dmp.py")],
"sequence of step() results after reset()","time, current state, initialised flag")

p("P09","Rollouts predict stepwise execution and leave the primitive undisturbed",
"An open-loop rollout returns, on an evenly spaced time grid from zero that covers the requested duration with at most one step of overshoot, the positions that step-by-step execution from the start would produce. Asking for a rollout at any moment, any number of times, gives the same answer and does not change what later steps return.",
["histories","configurations"],"All positions of up to two rollouts within an execution of bounded length, all primitive classes with a rollout, all (duration, step) pairs from a finite grid including non-multiples.",
"Interference between planning rollouts and execution appears only in interleavings that tests do not enumerate; grid rounding depends on the particular floating-point values.",
[D+"_dmp.py",D+"_cartesian_dmp.py",D+"_dual_cartesian_dmp.py",D+"_dmp_with_final_velocity.py",D+"_state_following_dmp.py","movement_primitives/spring_damper.py"],
[("open_loop",D+"_dmp.py, "+D+"_cartesian_dmp.py, "+D+"_dual_cartesian_dmp.py, "+D+"_state_following_dmp.py, movement_primitives/spring_damper.py")],
"open_loop() results and subsequent step() results")

p("P10","Imitation recovers the motion that was demonstrated",
"Imitating a demonstration sets start and goal to its end points and the weights to the (ridge-regularised) least-squares fit of the forces the documented dynamics need for it, so that the rollout reproduces the demonstration. The fit does not depend on the absolute time at which the demonstration starts, on what the primitive was used for before, or (up to time scaling) on its duration, and a motion generated by a primitive is recovered when it is imitated.",
["inputs","histories","configurations"],"All demonstrations from a finite family (shapes, offsets, time shifts, durations, sampling steps, uneven sampling), all primitive classes that imitate, all regularisation, final-velocity and scaling options, after all short histories.",
"Reproduction tests use one shape starting at time zero and a tolerance of 1e-2; a wrong term that regression can absorb passes them.",
[D+"_dmp.py",D+"_cartesian_dmp.py",D+"_dual_cartesian_dmp.py",D+"_dmp_with_final_velocity.py",D+"_forcing_term.py"],
[("force targets and regression",D+"_dmp.py and "+D+"_cartesian_dmp.py"),("basis functions and design matrix",D+"_forcing_term.py")],
"get_weights(), start_y, goal_y and open_loop() after imitate()")

p("P11","Weight vectors can be read, stored and written back without side effects",
"Reading the weights returns a flat vector of the advertised length; writing any such vector makes the primitive behave accordingly, reading it back returns the same numbers, and writing back an earlier vector restores the earlier behaviour exactly. A vector once read or written stays independent of the primitive.",
["histories"],"All sequences of read, write, modify-in-place, imitate and execution-time change up to the stated depth, for all primitive classes with weights and several sizes.",
"Aliasing between a returned vector and the primitive shows only in particular read/write orders, as used by black-box optimisation.",
[D+"_base.py",D+"_cartesian_dmp.py"],
[("get_weights / set_weights / n_weights",D+"_base.py and "+D+"_cartesian_dmp.py")],
"get_weights(), n_weights, open_loop()","weight matrix of the forcing term")

p("P12","Saving and loading in any format preserves behaviour at any moment",
"Writing a movement primitive to a pickle, YAML or JSON file and reading it back yields an object of the same class that behaves identically from then on: same weights and parameters, same rollouts, same continuation of a half-finished execution, whatever operations were applied before saving and whatever numeric types the parameters were given in. Writing does not change the saved object, and saving a loaded object again gives the same result.",
["histories","configurations"],"All classes, all formats, all chains of up to two formats, all operation histories up to the stated depth before saving, all configurations within the deviation bound.",
"Tests save one freshly imitated object per format and compare one rollout; attributes that matter mid-execution or have unusual types are not reached.",
["movement_primitives/io.py"],
[("writers and readers","movement_primitives/io.py")],
"object returned by the read functions","all attributes of the primitive, file content")

p("P13","Conditioning a ProMP is exact Gaussian conditioning",
"Conditioning on a position at a time yields the Gaussian posterior of the weights: with zero observation noise the mean trajectory passes through the position and its variance there vanishes, with noise it moves by the Kalman gain, and further conditions keep earlier exact ones. The order of conditions does not matter, only the ratio of time and maximum time matters, variances never grow, and the original ProMP is unchanged.",
["inputs","histories"],"All sequences of up to three conditions over a finite set of times, positions and covariances, all orders, for several dimensions and weight counts, from prior and learned distributions.",
"Tests condition a one-dimensional ProMP at single points with zero noise; order, noise, dimension coupling and scaling are not exercised.",
["movement_primitives/promp.py"],
[("condition_position, via_points","movement_primitives/promp.py")],
"mean_trajectory(), cov_trajectory(), var_trajectory(), weight_mean, weight_cov of the conditioned ProMP","weight mean and covariance")

p("P14","ProMP means, velocities, variances and samples form one consistent Gaussian",
"For any weight distribution, mean, covariance, variance and samples of positions and velocities are those of the linear basis-function model: normalised Gaussian bases over normalised time, velocities being the time-normalised derivative of positions, variances the diagonal of the covariance (never negative), and sampled trajectories the image of weight samples drawn with the given random state. The answers depend only on the relative times asked for, and fitting weights to a trajectory generated from weights returns that trajectory.",
["inputs","configurations"],"All combinations of dimension, weight count, weight-distribution pattern and time grid (uniform, uneven, scaled) from finite sets, and all orders of queries.",
"Layout errors between dimensions and time steps and scaling errors cancel in one-dimensional unit-time tests.",
["movement_primitives/promp.py"],
[("trajectory_from_weights, mean/cov/var, velocities, sampling, weights","movement_primitives/promp.py")],
"return values of the ProMP query methods")

p("P15","ProMP learning fits the demonstrations and is well formed",
"Learning from demonstrations yields a distribution whose mean trajectory is the mean of the (representable) demonstrations, whose covariance is symmetric positive semi-definite and reflects their spread, and that does not depend on the order of the demonstrations or on the time scale they were recorded with. Learning again with a fresh ProMP gives the identical result, and demonstrations may have different lengths.",
["inputs","histories"],"All subsets and orders of a finite family of demonstrations up to the bound, all time scalings, dimensions and weight counts from finite sets.",
"Tests learn once from random data and compare a mean with tolerance 1e-3.",
["movement_primitives/promp.py"],
[("imitate (expectation maximisation)","movement_primitives/promp.py")],
"weight_mean, weight_cov, mean_trajectory(), var_trajectory() after imitate()")

p("P16","Minimum-jerk trajectories connect start and goal exactly",
"For every start, goal, execution time and step dividing it at least twice, the minimum-jerk trajectory has one sample per step from zero to the execution time, starts at the start and ends at the goal with zero velocity and acceleration, moves monotonically in every dimension along the straight line, and has velocities and accelerations that are the derivatives of its positions. Executing it step by step yields these samples in order and restarts from the current start and goal after a reset.",
["configurations","inputs","histories"],"All (execution time, step) pairs from a finite grid of decimal values, all start/goal patterns, and all histories of step, reset and configure up to the stated depth.",
"Whether rounding drops the last sample or the last segment depends on the particular floating-point quotient; tests use the one default pair.",
["movement_primitives/data/_minimum_jerk.py","movement_primitives/minimum_jerk_trajectory.py"],
[("trajectory generation","movement_primitives/data/_minimum_jerk.py"),("stepping and reset","movement_primitives/minimum_jerk_trajectory.py")],
"arrays returned by the generator, results of step()","step index, stored trajectory")

p("P17","Spring-dampers follow their second-order law in position and orientation",
"A (position or orientation) spring-damper advances the state passed to it by the documented law with stiffness and damping (critical by default) and optional coupling, in internal steps; it never overshoots its goal when critically damped from rest, keeps orientations unit quaternions, and its rollout equals stepwise execution from rest.",
["histories","configurations","inputs"],"All operation sequences up to the stated depth, all stiffness/damping/step combinations within the deviation bound, all start/goal pairs from finite sets including antipodal and negated quaternions.",
"Tests check that the end of one rollout is near the goal.",
["movement_primitives/spring_damper.py"],
[("step and open loop","movement_primitives/spring_damper.py")],
"step() and open_loop() results","current state and time")

p("P18","Coupling terms keep the leader free and pull followers to the desired offset",
"Leader-follower coupling terms return zero for the leader, opposite and equal contributions when both follow, and nothing when the desired distance or relative pose is met; otherwise they act in the direction that reduces the error, and coupled execution drives the follower to the desired offset while the leader moves exactly as uncoupled. Disabled position or orientation coupling contributes nothing.",
["inputs","configurations"],"All poses from finite grids of positions and orientations, all leader/follower weightings, all gain settings within the deviation bound, all coupling term types.",
"A sign, frame or index error cancels for the axis-aligned single configuration used in examples; tests only smoke-run these terms.",
[D+"_coupling_terms.py"],
[("coupling methods",D+"_coupling_terms.py")],
"coupling() results and trajectories of coupled execution","time of the trajectory coupling term")

p("P19","Obstacle avoidance steers away from the obstacle consistently",
"The obstacle-avoidance acceleration has the documented magnitude and is perpendicular to the velocity, turning it away from the obstacle; it vanishes at rest, does not depend on obstacle distance, and is equivariant under rotation, mirroring and translation. The planar, batched, compiled and spatial variants agree wherever they apply.",
["inputs"],"All positions, velocities and obstacle positions from a finite planar and spatial grid, with all gain settings from a finite set and all batch shapes up to the bound.",
"Tests check one scene visually similar to the paper; sign and orientation branches depend on the quadrant of each vector.",
[D+"_coupling_terms.py","movement_primitives/dmp_fast.pyx"],
[("avoidance acceleration",D+"_coupling_terms.py and movement_primitives/dmp_fast.pyx")],
"returned accelerations")

p("P20","Forward kinematics depends only on the joint angles, clipped to their limits",
"The end-effector pose returned for joint values equals the product of the joint transforms of the described robot with every value clipped to its limits, for revolute, continuous, prismatic and fixed joints, and does not depend on earlier queries or on other chains of the same robot moving other joints. A trajectory of joint values maps to the poses of its elements.",
["inputs","histories"],"All joint-value vectors from a finite grid (inside, at and beyond limits), all query histories up to the stated depth over several chains sharing one robot.",
"Stale transforms depend on the order of queries over chains; tests evaluate one chain.",
["movement_primitives/kinematics.py"],
[("set_joint, forward, forward_trajectory","movement_primitives/kinematics.py")],
"poses returned by forward() and forward_trajectory()","joint transforms held by the shared transform manager")

p("P21","Inverse kinematics returns admissible joint values with honest errors",
"Every inverse-kinematics variant returns joint values within the joint limits and, for local and trajectory variants, within the requested interval around the previous solution; the reported error is the pose distance of the returned values, restarts never return a worse candidate than another one they computed and stop at the tolerance, reachable poses are reached, and random restarts draw only from the given random state. The pose distance is zero exactly for equal poses, finite for all rotations including half turns, invariant under rigid changes of frame, and weights its two parts as requested.",
["inputs","configurations"],"All target poses from finite joint grids, all initial guesses from a finite set, all interval/restart/weight options, all rotations from a finite group including half turns.",
"Tests check that five random targets are reached; bounds, reported errors and singular rotations are not looked at.",
["movement_primitives/kinematics.py"],
[("inverse variants and pose distance","movement_primitives/kinematics.py")],
"joint values and errors returned, pose_dist values")

p("P22","A final-velocity DMP reaches its goal with the requested velocity on time",
"With zero weights the final-velocity DMP tracks the quintic through its start and goal positions, velocities and accelerations and arrives at the execution time at the goal with the goal velocity; with any weights it follows its documented dynamics around that reference on every history of configuring, stepping and resetting. Imitating a demonstration takes over its boundary positions and velocities and reproduces it.",
["inputs","histories","configurations"],"All boundary conditions from finite sets in each dimension, all operation sequences up to the stated depth, all configurations within the deviation bound.",
"Tests imitate two sine-like demonstrations; boundary conditions and mid-execution changes are not enumerated.",
[D+"_dmp_with_final_velocity.py"],
[("polynomial constraints and step",D+"_dmp_with_final_velocity.py")],
"step() and open_loop() results","current state, time, boundary conditions")

p("P23","A viapoint DMP is drawn through its viapoints in order",
"A state-following DMP follows its documented dynamics on every history: it is attracted by a convex combination of its viapoints whose emphasis moves from the first to the last as the phase decays, so it never leaves the range spanned by start and viapoints by more than its dynamics allow and settles where the final emphasis, dominated by the last viapoint, puts it. It advances exactly the state passed to it, and its rollout equals stepwise execution.",
["histories","configurations","inputs"],"All viapoint patterns from a finite set, all numbers of viapoints up to the bound, all operation sequences up to the stated depth.",
"Tests follow one straight line of eight viapoints.",
[D+"_state_following_dmp.py"],
[("viapoint activations and step",D+"_state_following_dmp.py")],
"step() and open_loop() results","current state and time")

p("P24","Calls leave caller data untouched and hand out independent results",
"No public call modifies arrays, lists or objects the caller passes in (demonstrations, times, states, goals, weights, covariances), except those documented as modified. Arrays that a call returns stay as they are when the primitive is used further, and changing them does not change the primitive.",
["histories","inputs"],"All public operations of all classes on read-tracked arguments of several dtypes and layouts, all ordered pairs of operations with the results of the first checked after the second.",
"In-place modification is invisible unless the caller looks at its own data again after a particular later call.",
["movement_primitives/promp.py",D+"_base.py",D+"_dmp.py",D+"_cartesian_dmp.py",D+"_dual_cartesian_dmp.py",D+"_state_following_dmp.py","movement_primitives/kinematics.py","movement_primitives/spring_damper.py"],
[("argument handling and returned arrays","movement_primitives/")],
"caller-owned arrays before and after calls; returned arrays after further calls")

p("P25","Primitives do not influence each other under any interleaving",
"Operations on distinct primitive objects are independent: for every interleaving of two programs, each working on its own objects and including preemption inside a call whenever user code is called back or between lines of the library (threads), each program observes exactly what it observes when running alone. This includes objects of the same class and equal parameters.",
["schedules","histories"],"All interleavings of two bounded programs at operation granularity, and all thread schedules with context switches at coupling-term callbacks, for all pairs of classes.",
"Shared caches, module-level buffers and class-level state corrupt results only in particular interleavings.",
[D,"movement_primitives/dmp_fast.pyx","movement_primitives/promp.py","movement_primitives/kinematics.py"],
[("per-object state and scratch buffers",D+" and movement_primitives/dmp_fast.pyx")],
"results of each program","scratch buffers and object state")

p("P26","Invalid requests are rejected without leaving traces",
"DMPs and spring-dampers reject vectors, weights and demonstrations of the wrong length or dimension, unknown integrator names, fewer than two weights per dimension, non-positive execution times or final phases and negative regularisation with an error. After a rejected call the primitive behaves as if the call had not been made.",
["inputs","histories"],"All invalid argument kinds per public operation, at every position of an operation history up to the stated depth, including calls that mix valid and invalid arguments.",
"Partial updates before the error are visible only in later behaviour, and only for particular argument mixes.",
["movement_primitives/base.py","movement_primitives/utils.py",D+"_forcing_term.py",D+"_canonical_system.py",D+"_dmp.py",D+"_cartesian_dmp.py",D+"_dual_cartesian_dmp.py","movement_primitives/data/_minimum_jerk.py"],
[("argument validation","movement_primitives/base.py, movement_primitives/utils.py and the constructors")],
"exceptions, and behaviour after them")

p("P27","The potential field shows the acceleration the DMP would execute",
"At every grid position and every moment of an execution, the reported (and drawn) field is the acceleration the DMP's own dynamics assign to that position at its current time and velocity, split into transformation system, forcing term and obstacle coupling that add up to the total. Computing the field does not change the DMP.",
["inputs","histories","configurations"],"All grid positions of small grids, all moments of bounded executions, scaling modes, gains and obstacle positions from finite sets.",
"The test only checks shapes and that the parts add up.",
["movement_primitives/dmp_potential_field.py",D+"_dmp.py"],
[("potential_field_2d","movement_primitives/dmp_potential_field.py")],
"returned field arrays")

p("P28","Propagating a DMP distribution to state space is correct with and without cache",
"The state distribution obtained from demonstrations is the unscented estimate over rollouts of DMPs with the estimated weight, start and goal distribution, for the requested step size. A repeated call that finds its cache file gives the same distribution, and an interrupted or failed computation never leaves a cache file that later yields a different result. Calls that use the same cache file at the same time all give that distribution.",
["crash_points","schedules","inputs"],"All crash points and thread switches between executed lines of a cached computation, all small datasets and option settings from finite sets.",
"The only test is a smoke test; the cache is never read back and never interrupted.",
["movement_primitives/dmp_to_state_space_distribution.py"],
[("distribution estimation, propagation and cache","movement_primitives/dmp_to_state_space_distribution.py")],
"mean and covariance of the returned distribution; cache file","cache file content")

p("P29","Phase and basis functions form a proper clock and partition",
"The phase starts at one, decreases strictly and reaches the requested final value at the goal time, independent of time shift and scale. The basis activations are non-negative, sum to one, and every weight acts around its own evenly spaced moment of the execution; the forcing term equals phase times weighted activations, for scalar times and arrays alike.",
["inputs","configurations"],"All (start time, goal time, final phase, weight count, overlap) combinations from finite sets, at all grid times, for the compiled and the pure-Python phase.",
"Tests look at one setting; time-shifted settings are used only by imitation and never checked.",
[D+"_canonical_system.py",D+"_forcing_term.py","movement_primitives/dmp_fast.pyx"],
[("phase",D+"_canonical_system.py and movement_primitives/dmp_fast.pyx"),("basis functions",D+"_forcing_term.py")],
"phase values, forcing-term values, design matrix")

p("P30","Synthetic demonstration generators are reproducible and meet their spec",
"The one-dimensional trajectory generator returns the requested number of demonstrations on an evenly spaced unit time grid; without noise and offsets they equal the nominal cosine, offsets blend linearly from start to end within the requested ranges, and the same call gives the same data regardless of earlier calls. Its smoothness matrix is the second-order finite-difference operator for the given step.",
["inputs","histories"],"All argument combinations from finite sets and all call histories up to the stated depth.",
"Shared generator state between calls shows only in repeated calls, which the test tolerates by averaging 1000 demonstrations.",
["movement_primitives/data/_toy_1d.py"],
[("trajectory distribution generator","movement_primitives/data/_toy_1d.py")],
"returned arrays","default random state")

p("P31","Omitted arguments behave exactly as their documented defaults",
"Calling any primitive, coupling term, learning, kinematics or data function without some of its optional arguments gives the same result as passing the documented default values for them. Each optional argument also takes effect: passing another value changes the result.",
["configurations"],"All subsets of the optional arguments of every listed class, method and function.",
"Tests call each function with one selection of arguments, so that a default that silently differs from the documentation or an ignored argument goes unnoticed.",
["movement_primitives/"],
[("signatures and docstrings","movement_primitives/")],
"return values of the public calls with and without optional arguments")

p("P32","Plots and 3D views show exactly the data they are given",
"Row plots of trajectories and of distributions draw each dimension's data, at the given times, on the axis that belongs to it, in the requested layout and style, without disturbing what was drawn before; distributions are centred at the mean with the requested multiples of the standard deviation. Pressing the key of a toggled geometry alternately hides and shows that geometry only, and a covariance is converted to the orientation and radii of exactly its ellipsoid.",
["inputs","configurations","histories"],"All combinations of dimension counts, layouts and options from finite sets, all words of plots on shared axes and of key events up to the stated depth, all covariances from a grid.",
"Tests only check the number of axes for one layout; the 3D views are not tested at all.",
["movement_primitives/plot.py","movement_primitives/visualization.py"],
[("row plots","movement_primitives/plot.py"),("geometry toggles, ellipsoids","movement_primitives/visualization.py")],
"data of the drawn artists; geometries added to and removed from the viewer","visibility of each geometry")

p("P33","Loading LASA demonstrations is complete despite crashes and other processes",
"Loading a shape returns all positions, velocities and accelerations of the dataset file for this shape, with times that are multiples of the returned time between steps. This also holds when an earlier download failed or its process was killed at any point, and when another process loads the dataset for the first time at the same moment.",
["crash_points","schedules","histories"],"All crash points and process switches between executed lines of the first load, and all words of loads and failures up to the stated depth, on a synthetic archive.",
"The download branch is excluded from tests, which need network access and skip otherwise.",
["movement_primitives/data/_lasa.py"],
[("download, cache and conversion","movement_primitives/data/_lasa.py")],
"returned arrays and shape name","dataset directory in the home directory")

p("P34","Simulated robots are independent and report consistent states",
"Several simulations and kinematic chains in one process do not influence each other. Reported end-effector poses are the forward kinematics of the reported joint state, commands reach the joints they name, and executing a primitive performs one step of it per time step for the whole execution time and returns what was desired and what was reached.",
["histories","inputs"],"All words of commands over two robots and a kinematic chain up to the stated depth, all execution lengths and step sizes from finite sets.",
"Tests run one simulation at a time for one execution.",
["movement_primitives/testing/simulation.py"],
[("simulated robots and kinematic chains","movement_primitives/testing/simulation.py")],
"joint states, end-effector poses, recorded trajectories, drawn primitives","physics clients")

p("P35","Results depend on the numbers given, not on how they are stored",
"Every array argument of primitives, demonstrations, coupling terms, ProMPs, kinematics and potential fields may be an array of integers or floats, contiguous, strided, reversed, Fortran-ordered or read-only (a list or tuple where array-like is documented, any integer or float type for scalars): the results are those for the same numbers in a contiguous array of floats.",
["inputs","histories"],"Call sequences of every class and array function with all assignments of storage forms to at most two arguments (three in the thorough tier), and all arguments in each form.",
"Tests pass contiguous arrays of floats only, so truncation to integers, views that are read with wrong strides and rejected buffers stay unnoticed.",
["movement_primitives/base.py","movement_primitives/dmp/*.py","movement_primitives/dmp_fast.pyx","movement_primitives/promp.py","movement_primitives/kinematics.py","movement_primitives/spring_damper.py","movement_primitives/dmp_potential_field.py","movement_primitives/data/_minimum_jerk.py"],
[("configured states","movement_primitives/base.py"),("compiled steps","movement_primitives/dmp_fast.pyx"),("forces of demonstrations","movement_primitives/dmp/_dmp.py"),("distributions of weights","movement_primitives/promp.py")],
"returned positions, velocities, weights, distributions, poses and fields")

for q in P:
    assert len(q["title"])<=80,(q["id"],len(q["title"]))
    import re
    n=len([s for s in re.split(r'(?<=[.!?])\s+(?=[A-Z])',q["statement"]) if s])
    assert n<=3,(q["id"],n)
import os; open(os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl'),'w').write("".join(json.dumps(q)+"\n" for q in P))
print(len(P))
