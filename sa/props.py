"""The properties, their obligations and their metadata (properties.jsonl and MANIFEST.json are generated from here)."""
PROPS = {}


def prop(pid, title, statement, over, text, why, files, mechanism, specs, rule, assumptions=(), note=""):
    PROPS[pid] = dict(id=pid, title=title, statement=statement, over=over, text=text, why=why, files=files,
                      mechanism=mechanism, specs=specs, rule=rule, assumptions=list(assumptions), note=note)


VF = "value-flow (value-numbering) abstract interpretation of the function and everything it calls, compared with the required summary"

prop("P01", "Frame bookkeeping of rigid transforms",
     "Composing two framed rotations or rigid transforms fails unless the inner frames match and otherwise yields the outer frames; "
     "if either operand is unframed the result is unframed; inversion swaps the frames, interpolation keeps them (or takes the given new one, "
     "which requires a framed transform and a non-null frame), and rotating a framed vector or measuring a distance fails on mismatching frames. "
     "No operation produces a transform with exactly one null frame or a rigid transform whose rotation part carries frames, and approximate equality also compares both frames.",
     ["inputs"], "every pair of transforms, framed or not, every frame identity and every vector",
     "tests sample a few frame combinations; the rule must hold for every combination of null, equal and different frames in every operation",
     ["resim/transforms/so3.cc", "resim/transforms/se3.cc", "resim/transforms/liegroup.hh", "resim/transforms/frame.hh"],
     [("frame checks in composition and rotation", "resim/transforms/se3.cc SE3::operator*, SE3::rotate, SO3::operator*, SO3::rotate"),
      ("semi-framed rejection", "resim/transforms/liegroup.hh LieGroup::LieGroup")],
     ["frames"], VF)

prop("P02", "Rigid transforms obey the group laws",
     "In exact arithmetic, and given rotations that are orthogonal matrices, SO3 and SE3 operations compute what their names say: composition, "
     "inverse, identity, action on points, rotation of vectors, interpolation, adjoints, adjoint actions, Lie brackets, tangent vector parts, "
     "arc length, distances and the frame-carrying variants return exactly the value defined by rotation matrices and translations, for all operands, "
     "and no variant (copying, moving, framed, unframed, per-axis, from quaternion or axis-angle) differs in value from the others.",
     ["inputs"], "all rotations, translations, tangent vectors, points and interpolation fractions",
     "tests compare floating-point results on sampled elements of the group; the law is an identity over all elements, and rarely used overloads are barely sampled",
     ["resim/transforms/so3.cc", "resim/transforms/se3.cc", "resim/transforms/liegroup.hh", "resim/transforms/cross_matrix.cc"],
     [("group operations", "resim/transforms/so3.cc, resim/transforms/se3.cc")],
     ["algebra"], VF)

prop("P03", "Exponential and logarithm agree across all angle regimes",
     "SO3::exp and SE3::exp follow the closed-form exponential of the Lie algebra for every tangent vector, log is its inverse, and the coefficient "
     "functions used for them (derivative_of_exp_so3, and exp_diff built from it) agree with the closed forms; where a small-angle series replaces a "
     "closed form, it agrees with that closed form to within 1e-9 throughout its range, so no jump appears at the threshold and no singular value is produced at zero.",
     ["inputs"], "all tangent vectors and rotations, including angles around the small-angle thresholds and zero",
     "the small-angle branches are taken only in tiny neighbourhoods that sampled tests hardly reach and whose errors are far below test tolerances",
     ["resim/transforms/so3.cc", "resim/transforms/se3.cc", "resim/transforms/liegroup_exp_diff.cc", "resim/transforms/liegroup_exp_diff.hh"],
     [("series/closed form switch", "resim/transforms/liegroup_exp_diff.cc"), ("left Jacobian and inverse", "resim/transforms/se3.cc SE3::exp, SE3::log")],
     ["algebra:run_explog"], VF)

prop("P04", "Framed vectors never mix frames",
     "Adding two framed vectors fails unless their frames are equal and yields their sum in that frame; scaling keeps the frame; equality, inequality and approximate equality of two framed vectors "
     "compare both vector and frame, for const and modifiable operands alike; operations with unframed vectors use the vector value only. "
     "Frames compare by identifier alone, are null exactly when the identifier is zero, and new frames get freshly generated identifiers.",
     ["inputs"], "all pairs of framed vectors, scalars and frames",
     "overload resolution and frame comparison must be right for every value category and every pair of frames; tests try a handful",
     ["resim/transforms/framed_vector.hh", "resim/transforms/frame.hh"],
     [("frame check", "resim/transforms/framed_vector.hh FramedVector::operator+"), ("overload selection", "resim/transforms/framed_vector.hh FramedVector::isApprox")],
     ["fvec", "utils:run_uuid"], VF)

prop("P05", "Two-jet calculus is exact",
     "Two-jets of group-valued motions follow the calculus of derivatives on the group: composing and inverting left and right two-jets gives the pose, first and second "
     "derivative of the composed or inverted motion, converting between left and right jets (and back) describes the same motion, identity jets have zero derivatives, "
     "frames follow the poses, and setters and getters touch only the part they name.",
     ["inputs"], "all poses, first and second derivatives, for SE3 and SO3, left and right jets",
     "the chain-rule terms (adjoints and brackets) cancel or vanish for many sampled inputs; the identities must hold for every jet",
     ["resim/curves/two_jet.cc", "resim/curves/two_jet.hh"],
     [("composition, inversion and conversion", "resim/curves/two_jet.cc TwoJetL::operator*, inverse, right_two_jet; TwoJetR likewise")],
     ["curves:run_twojets"], VF)

prop("P06", "Quintic segments interpolate position, velocity and acceleration",
     "A time-curve segment passes through its origin at 0 and its destination at 1 with exactly their first and second derivatives, its reported derivatives are the true rates of change "
     "of the reported pose everywhere between, it requires both ends to have the same frames and keeps those frames; the quintic basis functions have degree at most five, the prescribed "
     "end values, and consistent derivatives.",
     ["inputs"], "all pairs of end jets (SE3 and SO3) and all normalised times in [0, 1]",
     "tests compare with finite differences at sampled times; interpolation and derivative consistency are polynomial identities over all times and jets",
     ["resim/curves/t_curve_segment.cc", "resim/curves/t_curve_segment.hh", "resim/curves/quintic_poly_coeffs.cc"],
     [("basis polynomials", "resim/curves/quintic_poly_coeffs.cc QuinticPolyCoeffs"), ("segment evaluation", "resim/curves/t_curve_segment.cc TCurveSegment::point_at")],
     ["curves:run_quintic"], VF)

prop("P07", "Time curves interpolate their control points at strictly increasing times",
     "A time curve only accepts control points with strictly later time and the same frames as the ones before, and a rejected point leaves the curve as it was; evaluating it at a control point's time returns that point with both derivatives, "
     "between control points the reported derivatives are those of the reported pose, frames are those of the points, evaluation needs two points and a time within [start, end] and otherwise fails, "
     "and building a curve from a list equals appending its points one by one.",
     ["inputs", "histories"], "all sequences of appends and all query times (evaluation decided for curves of two to four points, append for any length)",
     "segment lookup and derivative rescaling depend on which segment the query falls in and on unequal spacing, which tests only sample",
     ["resim/curves/t_curve.cc", "resim/curves/t_curve.hh"],
     [("append checks", "resim/curves/t_curve.cc TCurve::append"), ("segment lookup", "resim/curves/t_curve.cc TCurve::point_at_impl"),
      ("derivative scaling", "resim/curves/t_curve.cc TCurve::unnormalize_derivatives")],
     ["curves:run_tcurve"], VF,
     ["times are real numbers (a NaN query time is outside the statement)", "evaluation is decided for curves of 2 and 3 (thorough: 4) control points with symbolic times and jets; the code treats segments uniformly"])

prop("P08", "Distance curves are geodesic and parameterised by arc length",
     "Appending a pose to a distance curve fails if the curve is framed and the pose has other frames, and otherwise adds it at the previous length plus the arc length from the previous pose; a rejected pose leaves the curve as it was; "
     "evaluating at a length within [0, curve length] gives the point on the geodesic segment containing it (the control poses at their own arc lengths, the first pose at zero, also when segments of zero "
     "length are present); lengths outside fail, as does evaluating with fewer than two points; list construction equals appending one by one.",
     ["inputs", "histories"], "all sequences of poses and all arc lengths (evaluation decided for curves of one to four points with symbolic poses, append for any length)",
     "which segment is selected at shared end points and for degenerate segments depends on exact comparisons that sampled lengths miss",
     ["resim/curves/d_curve.cc", "resim/curves/d_curve.hh"],
     [("append", "resim/curves/d_curve.cc DCurve::append"), ("segment lookup", "resim/curves/d_curve.cc DCurve::point_at_impl")],
     ["curves:run_dcurve"], VF,
     ["decided for curves of 1 to 3 (thorough: 4) control points with symbolic poses"])

prop("P09", "Rigid-body states keep pose, velocity and acceleration in their places",
     "A rigid-body state returns exactly the pose and the linear and angular velocity and acceleration it was given, each setter changes only its own quantity, states built from a pose alone are at rest, "
     "the two-jet view holds rotation parts before translation parts, and composition and relative state follow the product rule for poses, frames, velocities and accelerations.",
     ["inputs"], "all poses, velocities, accelerations and frames",
     "swapped blocks or a dropped derivative show only for inputs where the confused components differ; the layout must be right for every component",
     ["resim/actor/state/rigid_body_state.cc", "resim/actor/state/rigid_body_state.hh"],
     [("component blocks", "resim/actor/state/rigid_body_state.cc set_body_*"), ("composition", "resim/actor/state/rigid_body_state.cc RigidBodyState::operator*, inverse_times")],
     ["state:run_rbs"], VF)

prop("P10", "Trajectories place states at their timestamps",
     "The first state appended defines the start time; later states must have strictly later timestamps and the same frames, else appending fails and changes nothing, and otherwise places them at their time since the start; "
     "evaluating by timestamp or by duration since the start gives the same state, passing through each appended state with its velocity and acceleration at its timestamp; start, end, duration and frames are "
     "those of the appended states; evaluation outside the range and duration, end and frame queries on an empty trajectory fail; only time differences, never absolute times, are converted to floating point.",
     ["inputs", "histories"], "all sequences of appended states, timestamps and query times (evaluation through states decided for two and three states)",
     "off-by-origin and precision errors appear only for particular absolute times and append sequences",
     ["resim/actor/state/trajectory.cc", "resim/actor/state/trajectory.hh", "resim/time/timestamp.hh"],
     [("append", "resim/actor/state/trajectory.cc Trajectory::append"), ("evaluation", "resim/actor/state/trajectory.cc Trajectory::point_at")],
     ["state:run_traj"], VF,
     ["time arithmetic does not overflow 64-bit nanoseconds", "conversions between nanoseconds and floating-point seconds are exact up to rounding, which is not analysed"])

PROTO_FILES = ["resim/transforms/proto/liegroup_to_proto.cc", "resim/transforms/proto/framed_vector_3_to_proto.cc", "resim/transforms/proto/frame_3_to_proto.cc",
               "resim/curves/proto/two_jet_to_proto.cc", "resim/curves/proto/t_curve_to_proto.cc", "resim/curves/proto/d_curve_to_proto.cc",
               "resim/actor/state/proto/trajectory_to_proto.cc", "resim/math/proto/matrix_to_proto.hh", "resim/utils/proto/uuid_to_proto.cc",
               "resim/visualization/proto/view_primitive_to_proto.cc", "resim/visualization/proto/view_update_to_proto.cc"]

prop("P11", "Values survive packing into protobuf messages and unpacking",
     "Packing any identifier, frame, framed vector, matrix, rotation, rigid transform, left or right two-jet, time curve, distance curve, trajectory, view primitive (with any payload, with or without a "
     "non-empty name) or view update into its message and unpacking it returns the same value: same coordinates, frames, derivatives, times, control points, identifiers, names, source locations and order.",
     ["inputs"], "all values of each type (sequences decided for up to two elements, three in the thorough tier)",
     "tests round-trip random but well-behaved values; fields that are dropped, truncated or swapped consistently in both directions show only for particular values",
     PROTO_FILES, [("pack/unpack pairs", "resim/*/proto/*_to_proto.cc")],
     ["protos:run_trip"], VF,
     ["messages are those the .proto files define; generated accessors behave as documented", "exact arithmetic: exp(log(x)) = x for rotations", "curves and updates of up to 2 (thorough: 3) elements"])

prop("P12", "Packing rejects a missing message and replaces the old content completely",
     "Every pack function fails when given no message, without touching it, and when given a message that already holds something leaves nothing of the old content behind: the message afterwards is the one packing into a fresh message gives, and unpacking it gives exactly the "
     "packed value, whatever the message held before (longer sequences, names, another payload kind).",
     ["inputs", "histories"], "all values and all previous contents of the message, including every pair of old and new payload kinds",
     "tests pack into fresh messages; leftovers appear only when a message is reused after holding something longer or different",
     PROTO_FILES, [("null check and Clear", "resim/*/proto/*_to_proto.cc pack")],
     ["protos:run_pack"], VF,
     ["curves and updates of up to 2 (thorough: 3) elements as new content; arbitrary messages as old content where the type has no payload choice"])

prop("P13", "Every message field holds the quantity it is named after",
     "The packed messages have the documented meaning for readers other than the unpackers: algebra fields hold the logarithm coordinates in order, into/from the identifiers of those frames, derivative fields "
     "the first and second derivatives, points their times and jets in order, start times as whole seconds plus nanoseconds, and of the payloads exactly the one packed is set.",
     ["inputs"], "all values of each type",
     "two fields swapped in both pack and unpack pass every round-trip test and still break stored logs and the viewer, which read the messages by field name",
     PROTO_FILES, [("field assignment", "resim/*/proto/*_to_proto.cc pack")],
     ["protos:run_content"], VF,
     ["curves of up to 2 (thorough: 3) points"])

prop("P14", "Malformed messages are rejected",
     "Unpacking fails instead of returning a value when the message does not hold one: a matrix, tangent vector or derivative field with more or fewer entries than the type has, a transform with exactly one "
     "null frame, or a view primitive without payload.",
     ["inputs"], "all messages with a wrong number of entries, one null frame or no payload",
     "tests try one wrong size at most; accepted short input leaves coordinates uninitialised, accepted long input overruns the matrix",
     ["resim/math/proto/matrix_to_proto.hh", "resim/transforms/proto/liegroup_to_proto.cc", "resim/curves/proto/two_jet_to_proto.cc", "resim/visualization/proto/view_primitive_to_proto.cc"],
     [("size check", "resim/math/proto/matrix_to_proto.hh unpack_matrix"), ("payload check", "resim/visualization/proto/view_primitive_to_proto.cc detail::unpack")],
     ["protos:run_malformed"], VF)

prop("P15", "Checked integer arithmetic never wraps",
     "safe_sum, safe_difference and safe_abs return the exact mathematical result when it fits in a 64-bit signed integer and fail otherwise; no intermediate step overflows, for any operands.",
     ["inputs"], "all 64-bit operands",
     "the boundary cases (minimum value, sums exactly at the limits) are a handful among 2^128 pairs",
     ["resim/math/safe_integer_utils.cc", "resim/math/safe_integer_utils.hh"],
     [("overflow checks", "resim/math/safe_integer_utils.cc")],
     ["base:run_ints"], VF)

prop("P16", "Time conversions preserve durations",
     "Splitting any duration into whole seconds and nanoseconds gives parts that add up to it exactly, with nanoseconds below one second in magnitude and the sign of the duration, and joining them restores it; "
     "as_seconds is the nanosecond count divided by 1e9; as_duration of a representable number of seconds is within one nanosecond of it and never longer.",
     ["inputs"], "all 64-bit nanosecond durations and all representable second counts (in exact arithmetic)",
     "truncation or overflow shows only for particular magnitudes and for negative or sub-second values",
     ["resim/time/timestamp.hh"],
     [("conversions", "resim/time/timestamp.hh")],
     ["base:run_time"], VF, ["conversions between nanoseconds and floating-point seconds are exact up to rounding, which is not analysed"])

prop("P17", "Interval sampling covers the interval evenly within the maximum step",
     "num_samples is the least number of samples, at least one, whose even spacing over the interval is within the maximum step; a maximum step that is not positive fails. sample_interval visits exactly that many samples in "
     "order, from start to end inclusive for intervals in either direction, each at its even spacing (exactly for seconds, to the nearest nanosecond for timestamps, endpoints exact); an empty interval is sampled once.",
     ["inputs"], "all start and end points in both directions, steps and intervals up to 2^60 ns (numbers of steps decided: 1 to 4, thorough 5)",
     "rounding, direction and off-by-one mistakes appear only for particular ratios of interval and step and for reversed or very long intervals",
     ["resim/time/sample_interval.cc", "resim/time/sample_interval.hh"],
     [("sample count", "resim/time/sample_interval.cc num_samples"), ("sample positions", "resim/time/sample_interval.hh, .cc sample_interval")],
     ["base:run_sample"], VF,
     ["exact arithmetic for seconds", "intervals shorter than 2^60 ns", "sample positions decided for 1 to 4 steps (thorough: 5)"])

prop("P18", "Scheduled events come out in time order, first scheduled first",
     "Taking events from an EventSchedule always yields the earliest remaining one and, among events of equal time, the one scheduled first, however scheduling and taking interleave; each scheduled event comes out exactly "
     "once with its time and payload, size counts the remaining ones, and once the counter type cannot number another event, scheduling fails instead of breaking the order.",
     ["inputs", "histories"], "all times and payloads, ties included, over histories of three events with takes in between, and the whole lifetime of the smallest counter",
     "stability is decided by the tie-break alone: tests with a few ties pass with heap orders that happen to be stable",
     ["resim/time/event_schedule.hh"],
     [("comparator and counter", "resim/time/event_schedule.hh EventSchedule::CompareEvents, schedule_event")],
     ["base:run_schedule"], VF,
     ["std::priority_queue returns an element no other compares before; ties in the comparator are resolved adversarially", "histories of up to three remaining events"])


prop("P19", "Assertions throw exactly when their condition is false",
     "REASSERT throws an AssertException exactly when its condition is false, carrying the text of the condition, the message if given, and the file and line; its condition is evaluated exactly once and execution continues exactly when it holds. "
     "It can be used as a single statement in unbraced if/else branches without changing which branch runs.",
     ["inputs"], "all conditions and messages",
     "a macro that evaluates twice or captures a neighbouring else compiles and passes tests whose conditions have no side effects",
     ["resim/assert/assert.hh", "resim/assert/assert.cc"],
     [("assertion", "resim/assert/assert.hh REASSERT")],
     ["utils:run_assert"], VF)

prop("P20", "Statuses carry success or failure without loss",
     "A StatusValue holds either a value or a bad status: value() of a bad one fails, a good status without value is rejected, and status() and ok() agree with what was stored. "
     "RETURN_IF_NOT_OK and RETURN_OR_ASSIGN return the bad status of their argument and otherwise continue with its value, CHECK_STATUS_OK throws exactly for bad ones; each evaluates its argument exactly once and refers to no destroyed object. "
     "A bad status's text tells file, line and message, and a StatusValue of a Status or that lets its value be changed in place is rejected at compile time.",
     ["inputs"], "all statuses and values, for values and references, and all argument expressions",
     "double evaluation and dangling temporaries in macros work by luck in tests and fail with other argument expressions",
     ["resim/utils/status.hh", "resim/utils/status.cc", "resim/utils/status_value.hh"],
     [("propagation macros", "resim/utils/status_value.hh RETURN_OR_ASSIGN, resim/utils/status.hh CHECK_STATUS_OK")],
     ["utils:run_status"], VF)

prop("P21", "match and the reference wrappers select and refer correctly",
     "match runs exactly the branch of the alternative the variant holds, on that value, returning references where the branch does; missing branches, branches of different result types and non-variants are rejected at compile time. "
     "InOut and NullableReference refer to the object they were built from; an empty NullableReference is false and accessing it fails; neither can be built implicitly, from a temporary or constant, and an InOut not from a pointer or from nothing.",
     ["inputs"], "all alternatives and values, all objects, and every ill-formed use of the listed shapes",
     "what must be rejected cannot be tested by a program that has to compile; referring to a copy goes unnoticed in tests that only read",
     ["resim/utils/match.hh", "resim/utils/inout.hh", "resim/utils/nullable_reference.hh"],
     [("match", "resim/utils/match.hh match"), ("references", "resim/utils/inout.hh, resim/utils/nullable_reference.hh")],
     ["utils:run_match", "utils:run_refs"], VF + "; compile-fail witnesses for what must be rejected")

prop("P22", "Identifiers compare by all their bytes and survive their text form",
     "Two UUIDs are equal exactly when all sixteen bytes are, unequal otherwise, and null exactly when all bytes are zero; the text of any UUID parses back to it, parsing anything else than a UUID fails, "
     "equal identifiers hash equally, the raw bytes are returned as given, and new identifiers come from the generator.",
     ["inputs"], "all identifiers and texts",
     "comparisons that skip a byte pass tests with random identifiers, which practically always differ in the first bytes",
     ["resim/utils/uuid.cc", "resim/utils/uuid.hh"],
     [("identifier", "resim/utils/uuid.cc, resim/utils/uuid.hh")],
     ["utils:run_uuid"], VF, ["libuuid's uuid_parse accepts exactly well-formed texts and inverts uuid_unparse"])


prop("P23", "Gaussian samples have exactly the mean and covariance given",
     "A Gaussian keeps the mean and covariance it was given, its eigenvalues with negative ones set to zero, eigenvectors and eigenvalue roots; construction fails for a covariance of another dimension than the mean, one that is not symmetric "
     "(to Eigen's tolerance), a failed decomposition, or an eigenvalue at or below -1e-15 times the larger of one and the spread of the entries. samples(n) gives n rows of the Gaussian's dimension, each with the mean given "
     "and with covariance V diag(eigenvalues) V^T, independent of one another and of every earlier sample.",
     ["inputs", "histories"], "all means and covariances of dimension 1 and 2 (thorough: 3 for validation), batches of up to 2 (thorough: 4) samples, and later batches",
     "tests estimate moments from finite samples with wide tolerances and few covariances; correlated or slightly mis-scaled samples and unchecked covariances pass",
     ["resim/math/multivariate_gaussian.cc", "resim/math/multivariate_gaussian.hh"],
     [("sampling formula", "resim/math/multivariate_gaussian.cc Gaussian::samples, iid_samples"), ("validation", "resim/math/multivariate_gaussian.cc Gaussian::Gaussian, sanitize_eigenvalues")],
     ["maths:run_gauss"], VF + "; moments taken over the random draws as independent symbols",
     ["std::normal_distribution draws are independent with the mean and deviation it was given, advancing the generator", "Eigen's solver returns eigenvalues and eigenvectors of its argument", "exact arithmetic"])

prop("P24", "Sample mean and covariance follow their definitions",
     "mean(samples) is the average of the rows, covariance(samples) the unbiased sample covariance (sum of outer products of deviations from the mean, divided by one less than the number of rows), for any data; "
     "fewer than two samples have no covariance and fail. random_matrix and random_vector fill every entry with its own draw, uniform between -1 and 1 unless a distribution is given, and advance the caller's generator.",
     ["inputs"], "all sample matrices of up to 3 rows and 2 columns (thorough: 4 by 3) and all generators",
     "bias corrections and centring mistakes vanish for the centred or large samples tests use",
     ["resim/math/sample_statistics.hh", "resim/testing/random_matrix.hh"],
     [("statistics", "resim/math/sample_statistics.hh"), ("random matrices", "resim/testing/random_matrix.hh")],
     ["maths:run_stats", "maths:run_random"], VF, ["exact arithmetic"])

prop("P25", "Everything viewed is sent once, in order, and recorded under the lock",
     "Viewing an object (streaming it into the view, VIEW with a name, or streaming a name into VIEW's result) appends one primitive with a fresh identifier, that object, its name and the file and line of the use, and sends all recorded primitives "
     "to the client in one update, in the order recorded, leaving none behind; an object without a name yet is not sent. Flushing fails exactly when there is no client or the client's status is bad, and replacing the client discards what was recorded. "
     "All shared state is used only under the view's mutex, which is never taken twice by one thread and is free again after every call, failed ones included.",
     ["inputs", "schedules", "histories"], "all objects of the seven viewable types, names, places, earlier contents of the view and client answers; every use of shared state on every path, hence every interleaving",
     "a missing lock or a deadlock needs a particular interleaving or a failing client; tests use one mock client",
     ["resim/visualization/view.cc", "resim/visualization/view.hh"],
     [("recording and sending", "resim/visualization/view.cc View::view_object, View::flush"), ("lock", "resim/visualization/view.hh View::primitives_mutex_")],
     ["view:run"], VF + "; lock-state (typestate) of the mutex at every use of a guarded member",
     ["a client takes the whole update it is given"])

prop("P26", "View updates reach the server in one session, numbered, each exactly once",
     "Sending updates through a ViewClient first posts a request for a session to <url>/view/sessions and then each update, serialized from its packed message, to <url>/view/sessions/<session>/updates/<n> as octet stream, "
     "n counting the updates from 0 and <session> being the answer's text without quotes and line breaks. Every request carries the current token; one refused as unauthorized is repeated exactly once, with a renewed token and otherwise the same. "
     "The status is good exactly if the update was answered Created; if the session is not created nothing else is sent and the next update asks for one again. An empty URL is rejected.",
     ["inputs", "faults", "histories"], "all URLs, updates, tokens and answers of the server (every status code for every request) over histories of two updates, and five accepted ones",
     "failures of the server at a particular request of a particular update; this code is not even built by the tests here, as the HTTP library is absent",
     ["resim/visualization/client/view_client.cc"],
     [("protocol", "resim/visualization/client/view_client.cc ViewClient::send_view_update")],
     ["client:run"], VF + "; requests, answers and token renewals are effects on a modelled server",
     ["histories of two updates with arbitrary answers (thorough: three)", "updates of one primitive (packing of others: P11-P13)", "cpr sends what it is given"])

prop("P27", "Tokens are fetched once, stored, reused and renewed on demand",
     "get_jwt returns the token held, else the one stored in the token file, and only without either logs in: one device-code request with the configured client, scope and audience, then polls with that device code at the interval the server asked for until the token is "
     "granted, failing if the server refuses, an answer cannot be parsed, the granted token is empty or the code expires first. A fetched token is stored in the token file, whose directory is created, so that later calls and later clients return the same without asking. "
     "After refresh neither the token held nor the file remains, and the next get_jwt logs in again.",
     ["inputs", "faults", "histories"], "all configurations, answers and status codes; stored or missing token; grants at any of the polls before expiry or too late; histories of two calls, renewal and restart",
     "depends on the order of files, server answers and time; this code is not even built by the tests here, as the HTTP library is absent",
     ["resim/auth/device_code_client.cc"],
     [("log-in", "resim/auth/device_code_client.cc DeviceCodeClient::fetch_token"), ("storage", "resim/auth/device_code_client.cc DeviceCodeClient::load_token, save_token, refresh")],
     ["client:run_tokens"], VF + "; server, token file and clock are modelled, their uses are effects",
     ["codes that expire after 20 s polled every 5 s", "the file system works; the token file is not empty and not changed by others"])


NA = []


def na(id, title, statement, over, text, why, files, mechanism, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, reason=reason))


na("N01", "Rounding errors of the geometric operations stay near machine precision",
   "For inputs of moderate size, composition, inverse, exponential, logarithm, interpolation and curve evaluation return results within a small multiple of machine precision of the exact ones.",
   ["inputs"], "all floating-point inputs", "rounding errors accumulate for particular inputs only",
   ["resim/transforms/so3.cc", "resim/transforms/se3.cc"], [("Lie group operations", "resim/transforms/so3.cc, resim/transforms/se3.cc")],
   "bounding accumulated rounding errors through branches, transcendental functions and Eigen kernels is beyond the value-flow normal forms, which are over exact arithmetic")
na("N02", "Distinct identifiers never collide",
   "Identifiers generated by any processes on any machines are distinct.",
   ["histories"], "all histories of generation", "collisions are too rare to sample",
   ["resim/utils/uuid.cc"], [("generator", "resim/utils/uuid.cc UUID::new_uuid")],
   "rests on the entropy of libuuid's generator at run time, which is not in this source; P22 decides that new identifiers come from that generator")
na("N03", "Random samples follow the normal distribution",
   "Samples drawn from a Gaussian are distributed normally, beyond their first two moments.",
   ["histories"], "all seeds and sample sizes", "tests sample finitely often",
   ["resim/math/multivariate_gaussian.cc"], [("sampling", "resim/math/multivariate_gaussian.cc Gaussian::samples")],
   "the distribution of the draws is that of the standard library's generator at run time; P23 decides mean, covariance and independence, given normal draws")
