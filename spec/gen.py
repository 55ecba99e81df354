"""Writes properties.jsonl and MANIFEST.json from one table (python3 spec/gen.py in /verif)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/openspace/"
LIN, FUN, CEL, POS, STA, ELE = S + "math/linalg.py", S + "math/functions.py", S + "bodies/celestial.py", S + "coordinates/positions.py", S + "coordinates/states.py", S + "coordinates/elements.py"
ART, TER, RK, HIL, KAL, IOD, OBS = S + "bodies/artificial.py", S + "bodies/terrestrial.py", S + "propagators/inertial.py", S + "propagators/relative.py", S + "estimation/filtering.py", S + "estimation/iod.py", S + "estimation/obs.py"
TIM, PLA, PAY, CON, CST = S + "time.py", S + "planning/maneuvers.py", S + "hardware/payloads.py", S + "hardware/constraints.py", S + "math/constants.py"

GVN = "static analysis: global value numbering over gated joins (abstract interpretation of the source), algebraic normal forms and random interpretation of the value numbers"
OWN = "static analysis: heap ownership and effect analysis over the abstract heap of every public entry point"
LOOP = "static analysis: loop recurrence summaries and global value numbering over gated joins"

P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over.split(), text=text, why=why, files=files, mech=mech, technique=technique, note=note, state=list(state)))


prop("C01", "Vector and matrix operations equal their algebraic definitions",
     "Every vector and matrix operation (sums, differences, products, cross and dot products, scaling, transposes, magnitudes, normalisation, angle between vectors, matrix-vector and matrix-matrix products, determinants, cofactors, adjugates, constructors such as diagonal matrices and identities) returns exactly the value of its algebraic definition, for 3- and 6-dimensional operands and every mixed 3x6 and 6x3 size. The inverse of a non-singular 3x3 matrix is a two-sided inverse.",
     "inputs", "all real operand components, and all non-singular matrices",
     "The tests evaluate each operation on one pair of small vectors or a matrix with many equal or zero entries, so a swapped index that agrees on those entries passes.",
     [LIN], [("vector algebra", LIN + " Vector3D, Vector6D"), ("matrix algebra", LIN + " Matrix3D, Matrix3by6, Matrix6by3, Matrix6D")],
     GVN, "each operation is compared, as a value number over free inputs, with its textbook formula; proved by normal form except where marked random")
prop("C02", "Rotation and local-frame matrices are proper rotations of the stated sense",
     "Rotating a vector about an axis turns it right-handedly by the given angle, keeps its length and leaves the axis fixed. The radial/in-track/cross-track, east/north/up, precession, nutation and sidereal rotation matrices are orthonormal with determinant one (nutation to first order in its angles as documented) and their rows are the documented axes.",
     "inputs", "all axes, angles, states, sites and epochs",
     "Tests rotate one or two vectors about coordinate axes and look at a few digits; a transposed frame matrix or a left-handed axis survives on symmetric samples.",
     [LIN, STA, POS, CEL], [("axis rotation", LIN + " Vector3D.rotation_matrix, rotation_about_axis"), ("orbit frame", STA + " HCW.frame_matrix"), ("site frame", POS + " ENZ.matrix"), ("Earth orientation", CEL + " Earth.precession, nutation, rotation")],
     GVN, "orthonormality, determinant, axis and sense are identities between value numbers")
prop("C03", "Inertial and Earth-fixed positions convert by one consistent chain",
     "Converting a position between the inertial, mean-of-date, true-of-date, Earth-fixed and equatorial frames applies the precession, nutation and Earth-rotation of the given epoch in the documented order, and the reverse conversions apply the transposed matrices in the reverse order. Lengths are kept by every rotation and composite conversions agree with their parts.",
     "inputs", "all positions and all epochs",
     "Tests convert one position at one epoch and compare with tabulated digits; dropping or reordering a stage, or evaluating one stage at another time, can fall below that tolerance or be exercised in only one direction.",
     [POS, CEL, TIM], [("forward chain", POS + " _PositionConvertGCRF"), ("reverse chain", POS + " _PositionConvertITRF"), ("orientation series", CEL + " Earth")],
     GVN, "the linear map of each conversion is read off its value numbers at the unit vectors and compared with the product of independent reference matrices")
prop("C04", "Geodetic coordinates describe the point on and above the ellipsoid",
     "Latitude, longitude and altitude convert to the Earth-fixed point on the reference ellipsoid's normal at that altitude, and converting such a point back returns the same latitude, longitude in [0, 2 pi) and altitude, in both hemispheres and all longitude quadrants. A ground site built either way has the same position and local east/north/up axes, and local coordinates are the projection of the offset from the site on those axes.",
     "inputs", "all latitudes, longitudes and altitudes from 400 km below the ellipsoid to far above it",
     "The tests use one site; the closed-form inverse has sign and quadrant branches that one point does not reach.",
     [POS, TER], [("ellipsoid point", POS + " _PositionConvertLLA.to_itrf"), ("closed-form inverse", POS + " _PositionConvertITRF.to_lla"), ("site", TER + " GroundSite")],
     GVN, "forward map by identity; the inverse is compared with the documented closed form and as a round trip over the value numbers")
prop("C05", "Relative and inertial states convert into one another without loss",
     "The position and velocity of one object relative to another, in curvilinear radial/in-track/cross-track coordinates, follow the documented construction, and converting a relative state back to the inertial frame about the same origin returns the original inertial state. The origin itself maps to the zero relative state, epochs are carried over, and neither input is changed.",
     "inputs", "all origin states with non-zero angular momentum and all object states off the orbit normal",
     "The single test pair lies on a near-circular geostationary orbit, where wrong radial-rate or cross-coupling terms are invisible.",
     [STA], [("to relative", STA + " _StateConvertGCRF.to_hcw"), ("to inertial", STA + " _StateConvertHCW.to_gcrf")],
     GVN, "both maps against reference maps, and the two round trips, as value-number equalities")
prop("C06", "Results never share mutable parts with arguments or earlier results",
     "A value returned by a query, a constructed object or a copy never shares a mutable component with the arguments it was built from, with its source object, with a result handed out before or with program-wide constants, so that changing one never changes another. The only sharing is deliberate: an observation hands out its own epoch, a filter drives the propagator it was given, and a spacecraft follows the very target it tracks.",
     "inputs histories programs", "all public entry points, all later mutations of arguments and results",
     "Tests read results once and do not mutate inputs or results afterwards, so a dropped defensive copy is invisible to them.",
     [LIN, TIM, POS, STA, ELE, ART, TER, RK, HIL, KAL, OBS], [("defensive copies", "copy() of Vector3D, Vector6D, Matrix*, Epoch, states and constructors storing copies")],
     OWN, "reachability in the abstract heap after each of the public calls: the mutable objects reachable from the result and from the receiver's new state are disjoint from those reachable from arguments and from class-level constants")
prop("C07", "Queries change nothing; operations change only what they are about",
     "A query leaves its receiver, its arguments and every program-wide constant as they were, and asking again, or after other queries, gives the same answer. An operation that updates an object (stepping, burning, pointing, filtering) changes only that object's own documented state, never its arguments, except that tracking brings the tracked target to the tracker's epoch.",
     "inputs histories", "all public entry points, all sequences of queries before and after",
     "Tests call each function once on fresh objects; stale caches, in-place arithmetic on an argument and altered defaults need a second call to show.",
     [LIN, TIM, POS, STA, ELE, ART, TER, RK, HIL, KAL, OBS, PAY, CON, CEL, IOD], [("pure queries", "all value-returning methods"), ("state updates", ART + " Spacecraft, " + RK + " RK4, " + HIL + " Hill, " + KAL + " RelativeKalman")],
     "static analysis: effect (frame) analysis over the abstract heap of every public entry point, and value-number equality of repeated calls",
     "field-level frame conditions of every entry point, and equality of the answers before and after other calls, over free inputs")
prop("C08", "Angles stay in their ranges; edge geometries do not fail on rounding",
     "Every reported node, anomaly, argument of perigee or latitude, right ascension, azimuth, longitude and hour angle of an elliptical orbit or observation lies in [0, 2 pi), every inclination and angle between vectors in [0, pi], every latitude, declination and elevation in [-pi/2, pi/2]. Geometries at the edge of an inverse function's domain (parallel or opposite vectors, points over a pole or the equator, an object over the orbit normal, circular orbits) give the limiting value instead of a domain error caused by rounding.",
     "inputs", "all vectors, elements, states, epochs and lines of sight",
     "Tests sample angles in one quadrant and no degenerate geometry; a missing wrap or clamp needs the other quadrant or a rounding-dependent input.",
     [FUN, POS, LIN, STA, OBS, ELE, TIM], [("wrapping", FUN + " EquationsOfMotion; " + POS + " SphericalPosition, to_lla"), ("clamping", LIN + " Vector3D.angle; " + POS + " to_lla; " + STA + " to_hcw; " + FUN + " E.from_a_p")],
     "static analysis: range analysis of value numbers and guard analysis of partial operations (asin, acos, sqrt)",
     "range conditions over all branch outcomes of the value numbers; every partial operation whose argument cancels to the edge of its domain must pass through a clamp")
prop("C09", "Kepler's equation is solved; elements and states convert both ways",
     "Whatever value the eccentric-anomaly iteration stops at satisfies Kepler's equation to the documented tolerance for every mean anomaly within one turn of zero and every eccentricity below one, and is reported in [0, 2 pi). Classical elements give the inertial position and velocity of that point of the orbit, and the elements computed from a state on an inclined elliptical orbit are those of the orbit through it, so that the two conversions are mutually inverse.",
     "inputs", "all elliptical, inclined orbits and all mean anomalies (termination of the iteration is not claimed)",
     "Tests convert one orbit; quadrant errors in the angles, a stopping rule that gives up early, or a wrong velocity scale away from that orbit pass.",
     [FUN, ELE], [("Kepler solver", FUN + " EccentricAnomaly.from_ma_e"), ("elements to state", ELE + " ClassicalElements.to_ijk"), ("state to elements", ELE + " ClassicalElements.from_ijk")],
     LOOP, "the solver loop is summarised by its exit condition and update; the obligations say that the exit condition implies the equation")
prop("C10", "Orbit relations equal their definitions and agree with one another",
     "Each two-body relation (eccentricity, flattening, axes, semi-parameter, angular momentum, energy, speed, period, mean motion, anomalies, node, inclination, argument of latitude and of perigee) returns its defining formula for every orbit for which it is defined, and relations that compute the same quantity from different data agree.",
     "inputs", "all positive radii, axes and gravitational parameters, all eccentricities below one and all angles",
     "Most relations have one numeric test, several have none; a wrong factor that cancels at that value, or a wrong quadrant, is not seen.",
     [FUN], [("closed-form relations", FUN + " EquationsOfMotion and its member classes")],
     GVN, "every relation is compared with an independent formula over free variables")
prop("C11", "Dates, Julian dates and sidereal time agree with the calendar",
     "A calendar date and time of day gives the modified Julian date that counts days in the Gregorian calendar, for every month, leap year and century and for every time of day, and advancing the date by a day, hour, minute or second advances it by exactly that fraction. Julian dates, centuries past J2000 and the Greenwich hour angle follow their defining formulas for every epoch before and after J2000.",
     "inputs", "all Gregorian dates from 1600 to beyond 2400, all real epochs",
     "Tests check single dates; the month and century branches are reached only at particular dates.",
     [TIM], [("calendar", TIM + " Epoch.from_gregorian"), ("sidereal time", TIM + " Epoch.greenwich_hour_angle"), ("offsets", TIM + " Epoch.plus_days, julian_value, julian_centuries_past_j2000")],
     GVN, "the calendar formula is compared with a day count for every month of a full 400-year cycle with day and time of day free; series compared as value numbers")
prop("C12", "Propagating to an epoch lands exactly on it and restores the step size",
     "Propagating a state or spacecraft to any epoch, later, earlier or equal, ends with its state at exactly that epoch, in steps of equal direction none longer than 300 seconds, and propagating over zero time changes nothing. Afterwards the integrator's step size is what it was before, the engine is off and the requested epoch object is unchanged.",
     "inputs histories", "all start and target epochs and all user-chosen step sizes",
     "Tests propagate forward over one interval; backwards, sub-step and zero intervals and the second use of the propagator are not exercised.",
     [RK, ART], [("step planning", RK + " RK4.step_to_epoch"), ("step", RK + " RK4.step")],
     LOOP, "the stepping loop is summarised as a recurrence with a symbolic trip count, from which the final epoch, the step length and the restored fields are read; rounding of the epoch is not modelled",
     [("step size", "seconds advanced by one integration step")])
prop("C13", "One step is the classical fourth-order Runge-Kutta step",
     "One integration step advances position, velocity and epoch by the classical four-stage fourth-order Runge-Kutta scheme (stage times 0, 1/2, 1/2, 1 and weights 1/6, 1/3, 1/3, 1/6) of the state's own equations of motion, for positive and negative step sizes, with and without perturbations and thrust. A second step starts from exactly what the first left.",
     "inputs configurations", "all states, step sizes, thrust settings and both perturbation settings",
     "Tests compare one propagated orbit to a loose tolerance; a wrong stage time or weight changes results by less on near-circular orbits.",
     [RK, STA], [("integrator", RK + " RK4.step"), ("derivative", STA + " GCRF.derivative")],
     GVN, "the value numbers of a step are compared with a reference tableau applied to the state's derivative")
prop("C14", "Acceleration is the documented force sum; settings travel with the state",
     "The acceleration of a state is central gravity plus thrust, and, exactly when perturbations are switched on, also the non-spherical gravity, Sun and Moon attraction and radiation pressure of that state at its epoch. The perturbation switch and the physical coefficients of a state are kept when it is copied, handed to a propagator, stepped, propagated or maneuvered.",
     "inputs histories configurations", "all states, thrust vectors, epochs, switch settings and sequences of steps and burns",
     "Tests propagate with default settings over short arcs, where a lost switch or a doubled term is below the tolerance.",
     [STA, RK, ART], [("force sum", STA + " GCRF.derivative and acceleration_from_*"), ("settings", STA + " GCRF.copy; " + RK + " RK4; " + ART + " Spacecraft")],
     GVN, "force sum by value-number equality; settings by following the fields through copies, steps and burns. Four recorded findings: the radiation-pressure coefficient is lost")
prop("C15", "Non-spherical gravity is the gradient of the 4x4 geopotential",
     "The non-spherical acceleration at every point off the polar axis is the gradient of the degree- and order-four geopotential with the stated normalised coefficients, evaluated in the Earth-fixed frame of the state's epoch and rotated back to the inertial frame. The Legendre functions it uses are the associated Legendre functions of the point's geocentric latitude.",
     "inputs", "all positions off the polar axis and all epochs",
     "Tests compare one acceleration vector; individual harmonic terms contribute below the tested digits.",
     [STA, FUN, CEL], [("harmonic sum", STA + " GCRF.acceleration_from_gravity"), ("Legendre functions", FUN + " LegendrePolynomial"), ("coefficients", CEL + " Earth")],
     GVN, "the sum is compared with an independent spherical-harmonic gradient, term by term and in total")
prop("C16", "Sun and Moon positions and their accelerations follow their series",
     "The Sun's and the Moon's inertial positions equal the documented low-precision series at every epoch, and the vectors from a state to them are those positions minus the state's. Third-body acceleration is the difference of the body's attraction on the object and on the Earth, and radiation pressure is the constant-flux acceleration directed away from the Sun and proportional to the state's coefficient.",
     "inputs", "all epochs, positions and coefficients",
     "Tests check one epoch; a wrong term of the series or a wrong argument is small at that epoch or below the tolerance.",
     [CEL, STA], [("series", CEL + " Sun.get_position, Moon.get_position"), ("accelerations", STA + " GCRF.acceleration_from_sun, acceleration_from_moon, acceleration_from_srp")],
     GVN, "each series and acceleration against an independently written reference over a free epoch")
prop("C17", "Relative propagation is the Clohessy-Wiltshire transition",
     "Propagating a relative state by any interval multiplies it by the Clohessy-Wiltshire transition matrix of the reference orbit's mean motion: the identity for zero time, composing over successive intervals, and undone by the opposite interval. A single step advances by the propagator's own step size and successive steps start from the last state.",
     "inputs histories", "all relative states, all positive semi-major axes, all intervals of either sign",
     "Tests propagate one state over one interval; composition, negative intervals and the cross-track rows of the matrix are not exercised.",
     [HIL, STA], [("transition", HIL + " Hill.system_matrix"), ("stepping", HIL + " Hill.step, step_by_seconds")],
     GVN, "matrix entries, group laws and repeated stepping as value-number identities")
prop("C18", "Every observation applies the Kalman predict and update equations",
     "Processing an observation propagates estimate and covariance over the time since the previous one with the relative-motion transition plus process noise, and updates them with the gain computed from the predicted covariance and that observation's measurement noise, using the Joseph form. The measurement is the observed object's relative position, the noise follows from the stated range and angular errors, covariance stays symmetric, and the filter's epoch and propagator follow the estimate through any sequence of observations.",
     "inputs histories", "all prior estimates and covariances, all observations and times between them, sequences of any length (by one arbitrary step and its successor)",
     "The tests run a short scenario and compare a loose tolerance that a mildly wrong gain or a stale transition still meets.",
     [KAL, HIL, STA], [("predict", KAL + " RelativeKalman.predict_state, predict_covariance"), ("update", KAL + " RelativeKalman.gain, update_state, update_covariance"), ("measurement", KAL + " RelativeKalman.process")],
     GVN, "each stage from arbitrary earlier values, and two successive observations from an arbitrary filter state, against reference equations",
     [("estimate", "relative position and velocity"), ("covariance", "6x6 error covariance")])
prop("C19", "Burns deliver the commanded velocity change and account for propellant",
     "An impulsive burn adds the commanded radial/in-track/cross-track velocity change at once, keeping position, epoch and masses. A finite burn thrusts along the commanded direction of the orbit frame at ignition for the time the rocket equation requires, with thrust over a mass that falls at the flow rate, consumes exactly that propellant, and leaves the engine off and the step size as it was. Burns follow one another from the state, epoch and mass the previous one left.",
     "inputs histories", "all states, burn vectors, masses, flow rates, specific impulses and sequences of burns",
     "Tests fire one default spacecraft with one burn along one axis; sign, frame and mass bookkeeping errors that leave that number close are not seen.",
     [RK, ART, STA], [("thrust", RK + " RK4.thrust_vector, maneuver"), ("spacecraft burns", ART + " Spacecraft.impulsive_maneuver, finite_maneuver")],
     LOOP, "thrust law, duration, mass recurrence, propellant and frame as value-number equalities; unrolled burns of one and three steps against the step equations")
prop("C20", "The commanded pointing is held after every operation; slews are timed",
     "After a pointing command and after every later step, propagation or burn, the body axes form a right-handed orthogonal triad that follows the commanded mode (Earth, Sun or tracked target, which is brought to the same epoch) from the spacecraft's current state. A new command or a new target starts a slew lasting the angle between old and new boresight at the slew rate; repeating the command does not restart it, and the slew flag ends only after that time.",
     "inputs histories", "all states and targets, all sequences of a pointing command followed by an operation, all pairs of modes",
     "Tests check one attitude after one command; stale axes after a later operation, a second target and mode transitions need a sequence.",
     [ART], [("attitude", ART + " Spacecraft.update_attitude"), ("commands", ART + " Spacecraft.track_lvlh, track_sun, track_state")],
     "static analysis: typestate over steering modes and operations, with value-number equality of the axes in each state",
     "all modes x operations, all ordered pairs of modes, repeated commands and the slew-end rule, over free states")
prop("C21", "Detection is exactly the conjunction of the sensor limits",
     "A target is reported detectable exactly when the Sun, Earth and Moon separation angles are not below, and the visual magnitude and boresight angle not above, the wide-field camera's limits. The angles, ranges and vectors are those between the two spacecraft and the bodies at the current epoch, the magnitude is the diffuse-sphere magnitude of the target's own size and albedo, and camera resolution, range error, minimum tracking range and default limits follow their definitions.",
     "inputs configurations", "all pairs of spacecraft states, sizes, albedos, epochs, boresights and limits",
     "Tests assert one detection outcome; an inverted or skipped limit shows only when that limit alone decides.",
     [ART, PAY, CON], [("decision", ART + " Spacecraft.detect"), ("photometry", ART + " Spacecraft.visual_magnitude"), ("camera", PAY + " Camera; " + CON + " OpticalConstraints")],
     GVN, "the decision as a boolean value number, each limit placed just above, just below and at the measured value")
prop("C22", "Observations describe the true line of sight and the stated noise",
     "An observation's range and angles (right ascension and declination from space; azimuth from north through east and elevation from the ground) are those of its line of sight, building one from angles and range gives them back, and the positions it reconstructs are observer plus line of sight in the right frame and epoch. A spacecraft's sensors observe the true line of sight perturbed by one independent range error and one conical direction error of the stated sizes, with the observing camera's and the target's properties, and feed exactly that observation to the filter.",
     "inputs", "all sites, states, epochs, directions, cameras, noise draws",
     "Tests use one geometry, and noise makes tests compare only loosely; a swapped angle quadrant or the wrong camera is not seen.",
     [OBS, TER, ART, LIN, POS], [("observations", OBS + " SpaceObservation, GroundObservation"), ("site", TER + " GroundSite.angles_and_range"), ("noise", LIN + " Vector3D.with_noise, with_angular_noise, with_magnitude_noise"), ("sensors", ART + " Spacecraft.observe_*, process_*, acquire")],
     GVN, "random draws are free variables of the value numbers, so the obligations hold for every draw")
prop("C24", "Two timed positions determine the orbit through them",
     "From two positions on an elliptical orbit less than half a turn apart, given by two observations in time order, the determined classical elements are those of an orbit that passes through both positions, with the time of flight between the observations' epochs, and refer to the first observation's epoch. The value the sector-to-triangle iteration stops at satisfies its defining equation to tolerance.",
     "inputs", "all elliptical transfers of less than half a turn (termination of the iteration is not claimed)",
     "The tests determine one orbit from one pair; quadrant errors in the angles and wrong constants in the iteration show only for other geometries.",
     [IOD, FUN, ELE], [("Gauss method", IOD + " Gauss")],
     LOOP, "with the sector-triangle ratio replaced by its exact value for a free orbit, the elements equal the orbit's; the loop's exit condition is shown to imply the equation")
prop("C25", "Transfer speeds obey vis-viva and Hohmann transfers join both orbits",
     "Circular and elliptical speeds equal the vis-viva speeds at every radius and semi-major axis. A Hohmann transfer's speeds are those of the two circular orbits and of the ellipse tangent to both, its two velocity changes are the differences at the two ends with the sign of the change of radius, and no transfer needs no burn.",
     "inputs", "all pairs of orbit radii, inward and outward",
     "The tests compute one outward transfer; inward transfers, equal radii and the symmetry between them are not exercised.",
     [PLA], [("speeds", PLA + " VisViva"), ("transfer", PLA + " Hohmann")],
     GVN, "all fields, conservation laws and the reversed transfer as value-number identities")

NA = [
    ("C23", "Long arcs stay within the integrator's error bounds",
     "Propagating a state over many revolutions keeps the accumulated position error, and the drift of energy and angular momentum, within the bounds expected of the integrator and step size.",
     "inputs histories", "all orbits and arc lengths",
     "Tests propagate short arcs only.", [RK, STA], [("integration", RK + " RK4")],
     "the error is a sum of truncation and rounding terms over an unbounded number of steps of a chaotic flow: no static argument in reach bounds it; the step itself is decided by C13 and C12"),
    ("C26", "The iterative solvers terminate for every admissible input",
     "Solving Kepler's equation and determining an orbit from two positions finish in finitely many iterations for every admissible input.",
     "inputs", "all anomalies and eccentricities below one, all transfers of less than half a turn",
     "Tests run a few inputs; termination depends on convergence of the iteration from every starting point, in floating point.", [FUN, IOD], [("Kepler solver", FUN + " EccentricAnomaly.from_ma_e"), ("Gauss iteration", IOD + " Gauss.coes_from_positions")],
     "neither loop has a syntactic variant: termination rests on the convergence of a Newton and a secant iteration under rounding, which a dataflow analysis cannot bound"),
    ("C27", "The relative filter converges to the true state",
     "Fed with a sequence of observations of sufficient geometry, the filter's estimate converges to the true relative state within its stated uncertainty.",
     "inputs histories", "all observation sequences of sufficient geometry",
     "Tests run one scenario.", [KAL], [("filter", KAL + " RelativeKalman")],
     "convergence is a probabilistic limit statement about runtime noise sequences; the equations of every step are decided by C18"),
    ("C28", "Sensor noise has the stated distribution",
     "Over many observations the range and direction errors are distributed with the stated standard deviations, independently, with uniform clock angle.",
     "histories", "all observation sequences",
     "A handful of draws says nothing about a distribution.", [LIN, ART], [("noise", LIN + " Vector3D.with_noise")],
     "the distribution is that of the standard library's generator at run time; how each draw enters the observation is decided by C22"),
    ("C29", "Sun, Moon and Earth orientation match precise ephemerides",
     "Computed Sun and Moon directions and Earth orientation stay within the documented accuracy of precise ephemerides over the supported decades.",
     "inputs", "all epochs of the supported decades",
     "Tests check one epoch against tabulated values.", [CEL, TIM], [("series", CEL + " Sun, Moon, Earth")],
     "the oracle is measured data that is not in the source; agreement with the documented series is decided by C02, C03, C11 and C16"),
]


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        rows = [(p["id"], p["title"], p["statement"], p["over"], p["text"], p["why"], p["files"], p["mech"], p["state"]) for p in P]
        rows += [(i, t, s, o.split(), x, w, f, m, []) for i, t, s, o, x, w, f, m, r in NA]
        for i, t, s, o, x, w, f, m, st in sorted(rows):
            a = {"files": f, "mechanism": [{"name": n, "where": wh} for n, wh in m]}
            if st:
                a["state"] = [{"name": n, "meaning": k} for n, k in st]
            assert len(t) <= 80, (i, len(t))
            fh.write(json.dumps({"id": i, "title": t, "statement": s, "quantifier": {"over": o, "text": x}, "why_tests_cant": w, "anchors": a}) + "\n")
    man = {
        "version": 1,
        "setup_cmd": "python3-vt -m compileall -q osa && python3-vt -c 'import mpmath, osa.check'",
        "checks": [{
            "property": p["id"],
            "quick_cmd": "python3-vt -m osa.check " + p["id"],
            "thorough_cmd": "python3-vt -m osa.check %s --thorough" % p["id"],
            "technique": p["technique"],
            "level": "other",
            "level_note": p["note"],
        } for p in sorted(P, key=lambda p: p["id"])],
        "not_applicable": [{"property": n[0], "reason": n[-1]} for n in NA],
    }
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fh:
        json.dump(man, fh, indent=1)
        fh.write("\n")


main()
