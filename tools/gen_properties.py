#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. One call of P() per property."""
import json, os
OUT = []

def P(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    assert len(title) <= 80, (id, len(title))
    OUT.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
            "observe_at": list(observe), "hook_needed": None}})

P("C01", "Cell mean and covariance equal those of the points put in",
  "After any sequence of points has been added to an NDT cell and the cell computed, its count, mean and covariance "
  "are those of exactly these points: arithmetic mean and unbiased (n-1), symmetric sample covariance, up to rounding. "
  "This holds from three points on, whatever the order of the points and however often the cell was computed in between.",
  ["inputs", "histories"], "every sequence of points and every interleaving of computations between additions",
  "The tests check three fixed cells of 4 to 6 points, two of them degenerate; order, interleaved computes and non-trivial correlation between x and y are never checked.",
  ["src/ndt_model.cpp", "include/ndt_2d/ndt_model.hpp"],
  [("incremental mean and correlation update", "src/ndt_model.cpp Cell::addPoint"), ("covariance from correlation", "src/ndt_model.cpp Cell::compute")],
  ["Cell::mean", "Cell::covariance", "Cell::n"])

P("C02", "A cell's score is the regularised Gaussian of its points, within [0, 1]",
  "Scoring any point against a computed cell gives a finite number from 0 to 1: 0 while the cell holds fewer than five points, otherwise "
  "exp of minus half the squared Mahalanobis distance from the cell's mean. The inverse covariance is used as it is while the cell's smaller variance is at "
  "least 1/1000 of the larger one, and for thinner cells is limited so that the sharp axis has precision 1000 over the larger variance; cells whose points all coincide, or whose spread is lost in rounding, never yield NaN, infinity or more than 1.",
  ["inputs"], "every set of points in a cell, including collinear and coincident ones, and every query point",
  "Tests score five hand-picked points on one well conditioned cell and look at the matrices of two exactly axis-aligned degenerate ones; coincident points and rotated thin cells are not tried.",
  ["src/ndt_model.cpp"],
  [("information matrix with eigenvalue limit", "src/ndt_model.cpp Cell::compute"), ("Gaussian score with minimum count", "src/ndt_model.cpp Cell::score")],
  ["Cell::score", "NDT::likelihood"])

P("C03", "Points are binned into the grid cell that contains them, or ignored",
  "A point only affects, and is only scored against, the one grid cell of the configured size, counted from the grid's lower left corner, that contains it. "
  "Points that lie outside the grid, however far, or that have a NaN or infinite coordinate, are ignored when adding and score 0, without any memory access outside the grid.",
  ["inputs", "configurations"], "every double coordinate pair, including NaN, infinities and huge values, and every grid geometry within the stated bounds",
  "One test adds five points to one cell of one grid; borders, far-away and non-finite coordinates are never used.",
  ["src/ndt_model.cpp"],
  [("cell index computation and range check", "src/ndt_model.cpp NDT::getIndex"), ("grid allocation", "src/ndt_model.cpp NDT::NDT")],
  ["NDT::likelihood"])

P("C04", "Scans are placed and scored by the rigid motion of their pose",
  "A scan added to an NDT puts each of its points where the scan's pose takes it (rotate by heading, then translate), and scoring a scan gives the sum of the scores of its points placed the same way. "
  "Scoring a list of points is the sum of the scores of the single points, whichever form (2D point, 3D point, list, scan) the query takes.",
  ["inputs", "configurations"], "every pose and every list of points (bounded length)",
  "The only test uses the identity pose and one query form.",
  ["src/ndt_model.cpp", "include/ndt_2d/conversions.hpp"],
  [("point transform when adding", "src/ndt_model.cpp NDT::addScan"), ("pose to rigid transform", "include/ndt_2d/conversions.hpp toEigen"), ("sum over points", "src/ndt_model.cpp NDT::likelihood overloads")],
  ["NDT::likelihood"])

P("C05", "A scan's barycenter always reflects its current pose and points",
  "After any history of setting the pose, setting the points and reading, a scan reports the pose, points and id last given, and its barycenter pose is the mean of its current points moved by its current pose, with the current heading. "
  "A scan without points has its pose as barycenter.",
  ["histories", "inputs"], "every interleaving of setPose, setPoints and reads, with every pose and point values",
  "graph_tests (not even built here) reads each barycenter once, right after construction.",
  ["src/scan.cpp", "include/ndt_2d/scan.hpp"],
  [("dirty flag set by both setters", "src/scan.cpp Scan::setPose, Scan::setPoints"), ("recomputation", "src/scan.cpp Scan::update")],
  ["Scan::getBarycenterPose", "Scan::getPose", "Scan::getPoints"],
  [("dirty_", "barycenter needs recomputation", "include/ndt_2d/scan.hpp")])

P("C06", "A constraint made from two scans is exactly their relative pose",
  "A constraint created between two scans names those two scans in that order, its translation is the second scan's position seen from the first scan's frame, its rotation is the heading difference, and composing the first pose with it gives the second pose. "
  "Its information matrix is the inverse of the covariance given, it is not switchable by default, and neither the scans nor the covariance are changed.",
  ["inputs"], "every pair of poses and every invertible covariance",
  "No test calls it.",
  ["src/constraint.cpp", "include/ndt_2d/constraint.hpp"],
  [("relative pose", "src/constraint.cpp makeConstraint")], ["Constraint"])

P("C07", "Each constraint costs its Mahalanobis distance, with yaw error wrapped",
  "In graph optimization the squared residual norm of a constraint is e'We, where W is the constraint's information matrix and e is the difference between the relative pose of its two scans (second seen from the first) and the measured one. "
  "The yaw part of e is wrapped to [-pi, pi), so headings that differ by full turns cost the same, and a constraint just made from two poses costs nothing at those poses.",
  ["inputs"], "every pair of poses, every measured transform and every positive definite information matrix",
  "The only solver test calls optimize() without scans; no residual is ever evaluated.",
  ["include/ndt_2d/ceres_solver_pose.hpp", "src/ceres_solver.cpp"],
  [("residual", "include/ndt_2d/ceres_solver_pose.hpp PoseGraph2dErrorTerm::operator()"), ("square root information", "src/ceres_solver.cpp CeresSolver::addConstraint"), ("angle wrap", "include/ndt_2d/ceres_solver_pose.hpp NormalizeAngle")],
  ["cost function registered with Ceres"])

P("C08", "Optimization keeps the first scan fixed and is all-or-nothing",
  "Optimizing a graph never moves its first scan. When the optimizer reports an unusable solution no scan's pose changes and the call reports failure; when it succeeds every scan receives the pose computed for that very scan. "
  "An empty graph is refused, and a later optimization starts from the scans' then current poses.",
  ["histories", "fault_sequences", "inputs"], "every outcome and result of the underlying solver, over sequences of optimizations with poses changed in between",
  "The test covers only the empty graph.",
  ["src/ceres_solver.cpp"],
  [("private copy of poses", "src/ceres_solver.cpp CeresSolver::optimize"), ("first node constant", "src/ceres_solver.cpp CeresSolver::optimize"), ("usable check before write back", "src/ceres_solver.cpp CeresSolver::optimize")],
  ["Scan::getPose", "return value of optimize"])

P("C09", "Every constraint enters the optimization exactly once, on its own scans",
  "Over any sequence of optimizations of a growing graph, each constraint of the graph is part of the problem exactly once, with its own measurement, tied to the poses of the two scans it names, in the order begin, end. "
  "No constraint is lost, duplicated or tied to another scan, and poses registered earlier stay the ones being optimized.",
  ["histories", "inputs"], "every bounded sequence of graph growth and optimize calls, every pair of scan indices",
  "The only test calls optimize() on an empty graph.",
  ["src/ceres_solver.cpp", "include/ndt_2d/ceres_solver.hpp"],
  [("incremental problem", "src/ceres_solver.cpp CeresSolver::optimize"), ("parameter blocks", "src/ceres_solver.cpp CeresSolver::addConstraint")],
  ["residual blocks registered with Ceres"])

P("C10", "A saved map loads back identical",
  "Loading a file written by saving a graph gives the same scans in the same order (id, pose, every point) and the same constraints in the same order (both ends, transform, full information matrix, switchable flag), bit for bit. "
  "Saving does not change the graph, and the message definitions carry every field in full precision.",
  ["inputs", "histories"], "every graph (bounded numbers of scans, points and constraints, arbitrary field values)",
  "graph_tests needs ROS (not built here) and compares point counts and a diagonal information matrix of one graph; poses and points are not compared.",
  ["src/graph.cpp", "msg/Scan.msg", "msg/Constraint.msg"],
  [("save", "src/graph.cpp Graph::save"), ("load", "src/graph.cpp Graph::Graph(bool, string)")], ["Graph::scans", "Graph::constraints"])

P("C11", "Nearest search returns exactly the scans within the distance, nearest first",
  "A search for scans near a given scan returns exactly the indices of the graph's scans that lie within the given distance in metres, nearest first, without duplicates. Only the first N scans are considered when a limit N is given. "
  "Distances are measured between scan positions or, when so configured, between barycenters, and the graph is not changed.",
  ["inputs", "configurations"], "every set of scan poses and points, every distance and limit, both position modes",
  "graph_tests (not built here) does one search in which everything is near.",
  ["src/graph.cpp", "include/ndt_2d/graph.hpp"],
  [("index adapter", "include/ndt_2d/graph.hpp GraphAdapter"), ("radius search", "src/graph.cpp Graph::findNearest")], ["Graph::findNearest"])

P("C12", "The published graph shows every scan and every constraint once",
  "The graph visualization contains one node per scan, carrying the scan's id and current position, and one two-point line per constraint, joining the current positions of its two scans. "
  "Switchable constraints are drawn in a different colour from the others, and no two markers share both namespace and id.",
  ["inputs"], "every graph (bounded size, arbitrary poses and constraint ends)",
  "Nothing tests it.",
  ["src/graph.cpp"], [("marker generation", "src/graph.cpp Graph::getMsg")], ["MarkerArray message"])

P("C13", "Rendering the occupancy grid never leaves the grid, whatever happened before",
  "Generating an occupancy grid from any set of scans touches only cells inside the grid: the grid is large enough for every sensor position and every measured point at their current poses. "
  "This holds on every call, also after poses were changed by optimization, after scans were added or replaced by those of another map, and for maps far from the origin.",
  ["inputs", "histories"], "every set of scans (bounded size and extent) and every history of pose changes, additions and replacements between renderings",
  "The grid is never built or tested here, and no upstream test renders a map.",
  ["src/occupancy_grid.cpp"],
  [("bounds", "src/occupancy_grid.cpp OccupancyGrid::updateBounds"), ("ray tracing", "src/occupancy_grid.cpp OccupancyGrid::getMsg")],
  ["OccupancyGrid message data", "memory accesses"], [("min_x_, max_x_, min_y_, max_y_", "extent of the map", "include/ndt_2d/occupancy_grid.hpp")])

P("C14", "A ray is traced from the sensor's cell to the hit cell, both included",
  "Each measured point adds one hit to the cell that contains the point, and one pass to every other cell of a gap-free, non-repeating line of neighbouring cells from the sensor's cell to the hit cell that deviates from the straight line by at most one cell. "
  "No other cell is touched.",
  ["inputs"], "every ray up to the stated length in cells, in every direction",
  "Nothing tests it.",
  ["src/occupancy_grid.cpp"], [("simplified Bresenham", "src/occupancy_grid.cpp OccupancyGrid::getMsg")], ["OccupancyGrid message data"])

P("C15", "Each map cell is unknown, free or occupied by its hit fraction",
  "A cell of the published grid is -1 if and only if no ray touched it, 100 if the fraction of rays touching it that ended in it is greater than the configured threshold, and 0 otherwise. "
  "Width, height, resolution and origin of the message are consistent with the data: the cell containing a measured point, computed from them, is the one that received the hit.",
  ["inputs", "configurations"], "every combination of scans and threshold within the stated bounds",
  "Nothing tests it.",
  ["src/occupancy_grid.cpp"], [("classification", "src/occupancy_grid.cpp OccupancyGrid::getMsg")], ["OccupancyGrid message"])

P("C16", "Filter mean and covariance are those of the current weighted particles",
  "After every operation of the particle filter the weights are non-negative and sum to one, and the reported mean and covariance are the weighted mean (circular for heading) and weighted covariance of exactly the current particles, with heading deviations taken the short way round. "
  "Earlier operations leave no trace in them, and a measurement that matches nowhere for any particle leaves the filter usable, with finite results.",
  ["histories", "inputs"], "every sequence of init, update, measure and resample, with arbitrary particles and scores (bounded number of particles)",
  "particle_tests (not built here) checks the mean of sampled particles to within 0.2 to 0.4 and the covariance once, right after the first init.",
  ["src/particle_filter.cpp"],
  [("normalization and moments", "src/particle_filter.cpp ParticleFilter::updateStatistics"), ("weights from scores", "src/particle_filter.cpp ParticleFilter::measure")],
  ["ParticleFilter::getMean", "ParticleFilter::getCovariance"])

P("C17", "Resampling draws from the current particles, within the configured limits",
  "Resampling leaves at least the configured minimum and at most the configured maximum number of particles, always ends, and every new particle is a copy of an old one with non-zero weight. "
  "Particles are drawn with probability proportional to their weights and count equally afterwards.",
  ["inputs", "histories", "configurations"], "every weight vector, every outcome of the random draws, every min/max configuration within the bound",
  "The test resamples once and looks at the mean.",
  ["src/particle_filter.cpp"], [("resampling loop", "src/particle_filter.cpp ParticleFilter::resample")], ["ParticleFilter::getMsg", "ParticleFilter::getMean"])

P("C18", "Resampling stops exactly at the KLD sample size",
  "Within the particle limits, resampling stops as soon as the number of samples drawn reaches the KLD bound (k-1)/(2e) * (1 - 2/(9(k-1)) + sqrt(2/(9(k-1))) z)^3, rounded down, for the number k of occupied histogram bins so far, error e and quantile z, and continues while it has not. "
  "With a single occupied bin it draws the maximum.",
  ["inputs", "configurations"], "every sequence of drawn bins, every error and quantile in the stated ranges",
  "The test resamples once with parameters for which the bound is trivial.",
  ["src/particle_filter.cpp", "include/ndt_2d/kd_tree.hpp"], [("KLD bound", "src/particle_filter.cpp ParticleFilter::resample")], ["number of particles"])

P("C19", "The particle histogram counts each occupied bin once",
  "After any sequence of insertions the tree's leaf count equals the number of distinct bins, where the bin of a pose is each of its coordinates divided by the bin size and truncated. "
  "It does not depend on the order of insertion, repeated insertions do not change it, clearing resets it to zero, and the tree works again after clearing.",
  ["inputs", "histories"], "every sequence of insertions up to the bound, with arbitrary bins, and clears",
  "test_kd_tree inserts five poses; it is not even built here.",
  ["include/ndt_2d/kd_tree.hpp"], [("insert and split", "include/ndt_2d/kd_tree.hpp KDTree::_insert")], ["KDTree::getLeafCount"])

P("C20", "The motion model moves every particle by the odometry, plus modelled noise",
  "With zero noise parameters the motion model composes every pose exactly with the given robot-centric motion (dx, dy, dtheta), to within the 1 cm below which translation is taken along the heading, and results have headings within [-pi, pi]. "
  "The noise of first rotation, translation and second rotation is zero-mean Gaussian with variances a1*r1^2+a2*t^2, a3*t^2+a4*(r1^2+r2^2) and a1*r2^2+a2*t^2, where a rotation near pi counts as reverse motion (its distance to the nearer of 0 and pi), and each particle gets its own draw.",
  ["inputs", "configurations"], "every motion, every starting pose, every noise parameters and every value of the draws",
  "particle_tests (not built here) compares sample means of 50 noisy particles to within 0.3.",
  ["src/motion_model.cpp"], [("decomposition and sampling", "src/motion_model.cpp MotionModel::sample")], ["poses after sample"])

P("C21", "Initialization spreads the particles as asked; each is published as it is",
  "Initializing the filter draws every particle independently around the given pose with the given standard deviations, headings normalized, with equal weights and whatever the filter held before. "
  "The published pose array has exactly one pose per particle, with its position and a unit quaternion that is its heading.",
  ["inputs", "histories"], "every pose, deviation and draw; every prior filter state (bounded number of particles)",
  "particle_tests (not built here) checks means and variances statistically; the published message is never looked at.",
  ["src/particle_filter.cpp"], [("init", "src/particle_filter.cpp ParticleFilter::init"), ("message", "src/particle_filter.cpp ParticleFilter::getMsg")],
  ["ParticleFilter::getMsg", "ParticleFilter::getMean"])

P("C22", "Scan matching returns the best correction of its search window",
  "Matching searches offsets in x, y and heading from minus the configured size upwards in steps of the configured resolution, around the scan's pose, and returns the one whose score is best, with that score (minus the mean point likelihood at the corrected pose). "
  "If nothing in the window overlaps the map the correction is left as it was and the score is 0, as it is without a map; neither scan nor map change.",
  ["inputs", "configurations"], "every map likelihood field, every scan (bounded number of points) and every scan pose, over stated window sizes",
  "The matcher is never built or tested here; upstream has no test of it.",
  ["src/scan_matcher_ndt.cpp"], [("exhaustive search", "src/scan_matcher_ndt.cpp ScanMatcherNDT::matchScan")], ["ScanMatcher::matchScan"])

P("C23", "Match covariance is the score-weighted spread of the searched offsets",
  "The covariance reported with a match is the covariance of the searched offsets weighted by their scores (second moment minus product of means, as in Olson 2009): symmetric and positive semi-definite. "
  "It is never NaN or infinite, also when nothing overlaps the map or the scan is empty.",
  ["inputs"], "every map likelihood field and every scan, over stated window sizes",
  "Nothing tests it.",
  ["src/scan_matcher_ndt.cpp"], [("covariance accumulation", "src/scan_matcher_ndt.cpp ScanMatcherNDT::matchScan")], ["ScanMatcher::matchScan covariance"])

P("C24", "Scores are the mean likelihood of an even subsample, never NaN",
  "Scoring a scan or a list of points at a pose gives minus the mean likelihood of min(laser_max_beams, number of points) points, picked evenly from the list without going outside it, moved by that pose: a number between -1 and 0. "
  "Scan and point-list scoring agree, an empty scan or a missing map scores 0, and more overlap never scores worse.",
  ["inputs", "configurations"], "every number of points and beam limit up to the bound, every pose and every map",
  "Nothing tests it.",
  ["src/scan_matcher_ndt.cpp"], [("subsampling", "src/scan_matcher_ndt.cpp ScanMatcherNDT::scorePoints"), ("delegation", "src/scan_matcher_ndt.cpp ScanMatcherNDT::scoreScan")],
  ["ScanMatcher::scoreScan", "ScanMatcher::scorePoints"])

P("C25", "A matcher's map covers all given scans out to the sensor range, and only those",
  "After scans are given to a matcher, its map contains every point of every one of them that lies within the sensor range of its scan's pose, wherever the poses are (any quadrant, far from the origin), and nothing from scans given earlier. "
  "Giving no scans, or resetting, leaves a matcher for which everything scores 0.",
  ["inputs", "histories"], "every set of scan poses and points (bounded count), every sequence of addScans and reset",
  "Nothing tests it.",
  ["src/scan_matcher_ndt.cpp"], [("bounding box", "src/scan_matcher_ndt.cpp ScanMatcherNDT::addScans")], ["ScanMatcher::scorePoints"])

P("C26", "Each valid laser reading becomes one point where it was measured",
  "Every laser reading that is finite and not beyond the maximum range becomes exactly one point of the scan, in order, and every other reading (NaN, infinite, beyond range) none; an empty message is handled. "
  "The point is the reading's position, by its bearing, the laser's mounting pose (upright or upside down) and the robot's motion since the start of the scan, in the robot frame at the start of the scan.",
  ["inputs", "configurations"], "every laser message (bounded number of readings, arbitrary floats), mounting, and robot motion during the scan, including heading wrap-around",
  "The node is never built or tested here; upstream has no test of it.",
  ["src/ndt_mapper.cpp"], [("filter, projection and motion compensation", "src/ndt_mapper.cpp Mapper::laserCallback")], ["points of the scan added to the graph"])

P("C27", "Odometry moves the estimate rigidly; scans need enough travel",
  "A scan is used if and only if the graph is empty or the robot has, since the last used scan, travelled at least the configured distance or turned, the short way round, by at least the configured angle. "
  "The pose then assumed before matching is the previous robot pose composed with the odometry motion since then, however map and odometry frames are rotated against each other.",
  ["inputs", "histories"], "every previous robot and odometry pose, every new odometry pose, every threshold",
  "Nothing tests it.",
  ["src/ndt_mapper.cpp"], [("travel gate and heading correction", "src/ndt_mapper.cpp Mapper::laserCallback")], ["pose of the scan handed to the matcher"])

P("C28", "Mapping appends each used scan once, linked to its predecessor",
  "While mapping, each used scan is appended to the graph exactly once, with the next index as id and its estimated pose plus the matcher's correction as pose, together with one constraint from the previous scan holding their relative pose and the match's covariance; earlier scans and constraints stay as they are. "
  "It is matched against the last rolling_depth scans (all, if there are fewer), and becomes the reference for later odometry.",
  ["histories", "inputs", "configurations"], "every sequence of laser messages up to the bound, every matcher answer, every rolling depth",
  "Nothing tests it.",
  ["src/ndt_mapper.cpp"], [("mapping branch", "src/ndt_mapper.cpp Mapper::laserCallback")], ["saved graph", "scans handed to the local matcher"])

P("C29", "Localizing never changes the map; scans are ignored until localized",
  "While mapping is disabled or the particle filter is used, no message changes the graph. After a map was loaded or mapping was disabled, laser scans are ignored until an initial pose is given, which is accepted only in the map frame and when the odometry transform is available, and is ignored while mapping is under way. "
  "When mapping resumes in an existing map, the initial pose is linked to the nearest scan of it, or refused, changing nothing, if there is none near.",
  ["histories", "fault_sequences", "configurations"], "every sequence up to the bound of service calls, initial poses, laser messages and transform failures, in every mode",
  "Nothing tests it.",
  ["src/ndt_mapper.cpp"], [("localized flag", "src/ndt_mapper.cpp Mapper::poseCallback, Mapper::configure"), ("branches on mode", "src/ndt_mapper.cpp Mapper::laserCallback")],
  ["saved graph", "published transform"])

P("C30", "The published map-to-odom transform explains the robot pose",
  "The published transform from map to the odometry frame, composed with the odometry pose of the last used scan, or of the last initial pose, is exactly the estimated robot pose at that moment. "
  "It carries the right frame names and is published only once there is a map.",
  ["inputs", "histories"], "every odometry pose, matcher correction and initial pose",
  "Nothing tests it.",
  ["src/ndt_mapper.cpp", "include/ndt_2d/conversions.hpp"], [("transform computation", "src/ndt_mapper.cpp Mapper::mapPublishThread")], ["transform broadcast"])

P("C31", "Loop closures are only accepted on evidence, and against older scans",
  "A loop closure constraint is added only when the match score is finite and better than the typical score, only between an older scan within the search distance and outside the rolling window and the newer scan, and for at most the configured number of candidates per scan. "
  "It is switchable, holds the corrected relative pose, and every scan beyond the initial window is examined exactly once, whatever the scores; a scan without overlap or without points does not switch loop closing off.",
  ["histories", "inputs", "configurations"], "every matcher answer (any double) for every candidate, every graph up to the bound",
  "Nothing tests it.",
  ["src/ndt_mapper.cpp"], [("candidate loop", "src/ndt_mapper.cpp Mapper::loopClosureThread"), ("typical response", "src/ndt_mapper.cpp Mapper::laserCallback")], ["saved graph"])

P("C32", "The configure service does what its action says, and a load starts afresh",
  "Each action of the configure service does exactly what it says: enable, disable, load from or save to the named file; saving then loading restores the map. "
  "After a load nothing of the previous map is left: not in the graph, not in loop closing, not in the optimizer, and not in the map used for localization.",
  ["histories", "inputs"], "every sequence of service calls up to the bound, mixed with laser messages and background work",
  "Nothing tests it.",
  ["src/ndt_mapper.cpp", "srv/Configure.srv"], [("service callback", "src/ndt_mapper.cpp Mapper::configure")], ["saved graph", "constraints given to the optimizer"])

P("C33", "The node's threads never touch shared map state at the same time",
  "The callback, loop closure and publishing threads never access the graph, a scan that is in the graph, the previous poses or the shared flags at the same time with at least one of them writing, unless the access is atomic. "
  "No combination of their lock acquisitions can deadlock.",
  ["schedules"], "every interleaving of the bounded thread traces",
  "Nothing tests it; no test starts the threads.",
  ["src/ndt_mapper.cpp"], [("graph_mutex_, prev_pose_mutex_", "src/ndt_mapper.cpp")], ["memory accesses and lock operations of the three threads"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in OUT:
        f.write(json.dumps(p) + "\n")
