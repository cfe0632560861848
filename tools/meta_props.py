prop("C01", "Placement transforms form a consistent algebra of rigid-plus-scale motions",
     "A placement (centre, orientation, scale, and for gears a spin angle) maps points by scaling, then rotating, then shifting. Composing two placements acts exactly like applying one after the other, inverting a placement gives the exact inverse map, and transforming points and batches of points agree. Copies are independent, and building a placement from its affine matrix reproduces it.",
     "every centre, orientation, nonzero scale, spin angle and point, also composed twice",
     "The tests apply a few transforms around z; composition, inversion and arbitrary orientation are never compared on general inputs.",
     ["gggears_base_classes.py"],
     [("Transform / TransformData / GearTransform", "gggears_base_classes.py"), ("apply_transform, apply_gear_transform", "gggears_base_classes.py")])
prop("C02", "Polar, cylindrical, spherical and cone coordinates round-trip in any frame",
     "Converting points to cylindrical, spherical or pitch-cone-relative polar coordinates and back returns the original points, for any centre, orientation and either cone direction, singly and in batches. The coordinates mean what they say: radius is distance to the axis or centre, angle is the signed turn from the reference axis, height is measured along the axis or cone. The derived cone measures (angle, base radius, spherical radius, height, centre) always describe one and the same cone in its placement.",
     "all points, centres, orientations, radii and cone half-angles in range (both signs)",
     "Existing tests never call the inverse conversions off origin and never with a tilted frame or negative cone angle.",
     ["function_generators.py", "gggears_base_classes.py"],
     [("xyz_to_cylindrical, cylindrical_to_xyz, xyz_to_spherical, spherical_to_xyz", "function_generators.py"), ("GearPolarTransform, ConicData, GearInfo cone data", "gggears_base_classes.py")])
prop("C03", "Curves keep their length parametrisation under trimming, reversal and algebra",
     "Evaluating a curve at a fraction gives the point that far along its length, ends at 0 and 1, and an array of fractions gives the same points one by one. Trimming, extending, cutting and reversing a curve select exactly the corresponding part of the same shape, in the corresponding direction, and converting between length fraction and natural parameter is a true inverse in both directions, also after those edits. Adding, subtracting, scaling and dividing curves combine the points of equal fraction, and numeric derivatives agree with the motion they differentiate.",
     "every trimming range, evaluation point, direction and control data of straight, uniform and accelerated curves; histories of trim/reverse/cut",
     "The tests check a few fixed curves at fixed samples; reversed, re-trimmed and combined curves are not evaluated.",
     ["curve.py"],
     [("Curve.__call__, s2t, t2s, p, update_lengths", "curve.py"), ("Curve.set_start_on, set_end_on, set_start_and_end_on, cut, reverse, derivative", "curve.py")], over=("inputs", "histories"))
prop("C04", "A chain of curves behaves as the one curve made of its active members in order",
     "The point at a fraction of a chain lies that fraction of the total active length along its members, in order, nested chains included. Trimming, cutting and reversing a chain act as on the single concatenated path, list edits give the chain of the edited list, and deactivated members contribute nothing. Continuity and closedness flags are true exactly when consecutive members (and the ends) touch.",
     "member shapes and lengths, activity flags, fractions, nesting, and histories of list edits, trims, reversals",
     "Tests evaluate chains at a few fractions; edits, nesting, inactive members and double-ended trims are not compared to the concatenated path.",
     ["curve.py"],
     [("CurveChain.get_t_for_index, get_length_portions, s2t, __call__, set_start_on, set_end_on, cut, reverse", "curve.py")], over=("inputs", "histories"))
prop("C05", "Lines, arcs and moved copies of curves are geometrically exact",
     "A line is straight between its end points; an arc stays at its radius from its centre in its plane and turns by its signed angle from its start, however it was constructed (radius and orientation, two points and centre, two points and curvature, point, centre and angle). Mirrored, rotated, moved, trimmed and reversed versions consist exactly of the mirrored, rotated, moved points in the matching order, and reported lengths and axes match. Vector and plane angle helpers return the true angles.",
     "all end points, centres, radii, signed angles, axes, placements and fractions in range",
     "Tests build a few planar arcs; negative angles, tilted axes, trimmed-then-moved arcs are never evaluated.",
     ["curve.py", "function_generators.py"],
     [("LineCurve, ArcCurve and its constructors", "curve.py"), ("MirroredCurve, RotatedCurve, TransformedCurve", "curve.py"), ("angle_between_vectors, angle_of_vector_in_xy etc.", "function_generators.py")])
prop("C06", "Generating curves satisfy their kinematic definition",
     "An involute is the end of a taut string unwound from its base circle; a spherical involute is its great-circle counterpart on its sphere; cycloids are traced by a point of a circle rolling without slip on the base circle (outside or inside, in the plane or on a sphere); an octoid is conjugate to a flat crown-gear flank. Start angle, height and trochoid offsets move the curve rigidly as documented, and zero curvature gives the planar curve. Curve objects evaluate these functions with all of their parameters.",
     "base radius, roll parameter, start angle, offsets, rolling radius, sphere curvature and pressure angle in range",
     "The tests use involutes only through complete gears and compare no defining relation; spherical curves off the equator are unreached.",
     ["function_generators.py", "curve.py"],
     [("involute_circle, involute_sphere, cycloid_circle, cycloid_cone, octoid", "function_generators.py"), ("InvoluteCurve, SphericalInvoluteCurve, CycloidCurve, CycloidConicCurve, OctoidCurve", "curve.py")])
prop("C07", "Bezier and NURB evaluation, conversion and fitting preserve the shapes",
     "Bezier and rational curve and surface evaluation follow the Bernstein definition, and their derivatives are the true derivatives. Lines, arcs, moved copies and chains convert to rational curves through exactly the same points without touching the original; joining segments makes them share their joints. Flat and spherical spline fits run through the points they are given, and fits, whatever the optimiser returns, start and end exactly on their target, use a gradient that is the derivative of their cost, and surface patches tile the fitted strip.",
     "all control points, weights, parameters, trims and placements in range, up to cubic degree, and every optimiser result",
     "Tests convert whole gears and only look at the resulting solid's validity; control data is never compared.",
     ["function_generators.py", "curve.py", "gggears_convert.py"],
     [("bezierdc, nurbezier, bezier_surface, nurbezier_surface, *_diff", "function_generators.py"), ("NurbCurve, NURBSCurve, convert_curve_nurbezier", "curve.py"), ("GearToNurbs", "gggears_convert.py")])
prop("C08", "Meshed gears sit at the centre distance that gives the requested backlash",
     "Placing a cylindrical gear on another puts its centre in the requested direction from the other's centre, in the same plane, with parallel axes, at the distance where the circular tooth thicknesses on the rolling circles leave exactly the requested backlash (pitch radii touching for cycloidal and bare gears; the difference of radii for a gear in a ring). Meshing moves only the gear it is called on. The stand-alone distance and backlash calculators are inverse to each other, and the no-shift, no-backlash distance is the sum (or difference) of the pitch radii.",
     "tooth numbers, modules, pressure angles, profile shifts, tooth backlashes, requested backlash, directions and placements of the other gear in range",
     "Tests mesh a handful of gears in one position and check overlap numerically within coarse tolerances.",
     ["gearmath.py", "gggears_core.py", "gggears_wrapper.py"],
     [("calc_involute_mesh_distance, calc_nominal_mesh_distance, calc_mesh_orientation", "gearmath.py"), ("InvoluteGear.mesh_to, CycloidGear.mesh_to, Gear.mesh_to", "gggears_wrapper.py")])
prop("C09", "Meshed gears are turned so that a tooth of one meets a gap of the other",
     "After meshing, the direction towards the partner is half a pitch out of phase between the two gears (in phase for a ring and its pinion, whose profiles are complementary), for every direction, tooth count and current spin of the partner. An angle bias shifts the gear within the backlash by the requested share. A ring and a gear with the same centre line up tooth in gap.",
     "tooth numbers, target directions, orientations and spin angles in range",
     "Tests use few tooth counts and spin angles at which phase errors of a full pitch multiple cancel.",
     ["gearmath.py", "gggears_wrapper.py", "gggears_core.py"],
     [("calc_mesh_angle", "gearmath.py"), ("mesh_to of the gear classes", "gggears_wrapper.py")])
prop("C10", "Bevel gears mesh apex to apex along a common contact line",
     "Meshing a bevel gear to another makes the two pitch cones share their apex and touch along one generator in the requested direction, in the right phase, with the shaft angle being the sum of the cone angles (signed), for any placement and module of the other gear, also where the requested direction is skewed to the axis. Cone angles computed from tooth numbers and shaft angle are in the tooth-number ratio (sines) and add up to the shaft angle.",
     "tooth numbers, cone angles of either sign, modules, directions, placements and spin angles in range",
     "Tests mesh bevel pairs only at the origin in a single direction.",
     ["gearmath.py", "gggears_core.py", "gggears_wrapper.py"],
     [("calc_bevel_gear_placement_vector, calc_mesh_orientation, calc_mesh_angle", "gearmath.py"), ("cone_angle_from_teeth", "gearmath.py")])
prop("C11", "Helical gears have the stated helix and align with their partners",
     "A helical gear's transverse module and pressure angle follow from the normal ones and the helix angle, its profile twists with height at the rate of that helix (reversing for herringbone teeth), over any number of turns. Meshing turns the gear about the centre line so that the tooth directions of the two gears coincide at the contact point, also inside a ring, and parallel helical gears sit at the transverse centre distance.",
     "helix angles of either sign, tooth numbers, modules, heights, directions and placements in range",
     "Tests build a few helical gears and check that solids are valid; contact direction is not computed.",
     ["gggears_wrapper.py", "gggears_core.py", "gearmath.py"],
     [("HelicalGear, HelicalRingGear", "gggears_wrapper.py"), ("InvoluteGear.calc_params, HelicalGear.mesh_to", "gggears_wrapper.py")])
prop("C17", "A tooth outline is closed, symmetric, one pitch wide, from root to tip circle",
     "The outline of a tooth runs from the root circle up the flank to the tip circle and down the mirrored flank, on flat and conical gears, and spans exactly one pitch; its tip, root and ring arcs lie on the circles they stand for. Where the flanks cross before reaching a circle they end in a point in the middle of tooth or gap. A root, tip or chain corner rounding has the radius asked for, touches its neighbours tangentially and replaces exactly the corner. Every closed outline really closes, and the outline of a whole gear or slice is the tooth repeated at every pitch in the slice's place, chain and single-curve form alike.",
     "flank positions and slopes, radii, pitch angles, cone angles of either sign, rounding radii, tooth numbers 4 and 6 with and without cut-out teeth, placements",
     "Tests only check that the final solids are valid; the outline's geometry is not compared with the circles and pitch.",
     ["gggears_core.py", "curve.py"],
     [("generate_reference_profile, trim_reference_profile, apply_fillet", "gggears_core.py"), ("calc_tangent_arc", "curve.py"), ("generate_profile_extensions, generate_profile_closed", "gggears_core.py"), ("generate_boundary, generate_boundary_chain, Gear.boundary_at_z", "gggears_core.py")])
prop("C13", "Reported dimensions describe the gear in its actual place",
     "Pitch radius, module, pitch angle, tip and root radius follow from tooth number, module, tooth height coefficients and profile shift. Bottom, middle and top centre points lie on the gear's axis at the heights given by height and anchor, the reported height is the distance between them, and height ratios interpolate between them. A fractional tooth number keeps its pitch and is rounded down to the teeth drawn; a negative one makes an external gear a ring gear and vice versa. A gear made along a path has each slice's centre, size, turn and cone where the path has them. Reference, base and pitch circles of any slice are centred on the axis, perpendicular to it and have the slice's radii; the pitch cone's apex, slant length and cone angles reported by the different interfaces agree, for cone angles of either sign. All of this holds wherever the gear is moved, turned or spun, for spur, ring, helical, herringbone, bevel and cycloid gears.",
     "tooth numbers, modules, heights, anchors, cone angles of either sign, helix angles and placements in range",
     "Tests read a few dimensions of unplaced spur gears.",
     ["gggears_wrapper.py", "gggears_core.py", "gggears_base_classes.py"],
     [("GearInfoMixin properties", "gggears_wrapper.py"), ("InvoluteGear.circle_involute_base", "gggears_wrapper.py"), ("Gear.cone_at_z, sphere_data_at_z, center_sphere", "gggears_core.py"), ("ConicData", "gggears_base_classes.py")])
prop("C14", "Gears and curves are independent; asking, meshing, building change nothing else",
     "Moving, turning or editing one gear, line or arc never changes another one, the arguments it was made from, or the library's constants; gears given the same tooth generator, fillet or limit objects stay independent; a copy of a gear or curve is equal at first and then independent in both directions, also when the original is recomputed. Resetting a gear returns it to the centre and angle it was created with. Meshing moves only the gear it is called on; querying, drawing and building a gear, also when the build fails half way, leave it as it was, and editing an answer does not edit the gear.",
     "placements, directions, heights, crownings, cone and helix angles in range, every gear and curve kind, in-place and assigning edits",
     "Tests create gears one at a time and never look at other objects afterwards.",
     ["gggears_wrapper.py", "gggears_core.py", "gggears_base_classes.py", "curve.py", "gggears_build123d.py"],
     [("GearTransformData, GearTransform defaults", "gggears_base_classes.py"), ("InvoluteGear, CycloidGear: calc_params, reset_location, copy, mesh_to", "gggears_wrapper.py"), ("Curve.copy and the curve classes", "curve.py"), ("GearBuilder, generate_boundary_edges", "gggears_build123d.py")])
prop("C18", "What is handed to the CAD kernel is the computed geometry in the gear's place",
     "The build123d location of a placement has its centre, orientation and spin; a placed part consists of the placed points of the unplaced one, also after moving an already built gear again. Edges made from lines, arcs of any extent and sense, rational curves and moved curves run exactly along the curve, trimmed, extended or reversed, one edge per active segment in order, and leave the curve unchanged. The boundary wire is the tooth outline at every pitch in the place of slice and gear. Bottom, middle, top and face locations sit on and turn with their slice. Side faces are every patch of one tooth at every pitch; the slices they are made from cover each level evenly from end to end; blank, covers and the wall of a ring gear have the stated radii, cones and heights, and the part is assembled from them in the gear's place.",
     "placements, end points, radii, signed angles, trims, control points and weights, gear heights, modules and anchors in range; 3 to 4 teeth, 1 to 2 levels",
     "Tests only look at whether solids are valid and at their volume within coarse tolerance.",
     ["gggears_build123d.py", "gggears_convert.py", "gggears_wrapper.py"],
     [("transform2Location, apply_transform_part", "gggears_build123d.py"), ("line_to_b123d, arc_to_b123d, gen_splines, curve_to_edges, generate_boundary_edges", "gggears_build123d.py"), ("GearBuilder.gen_side_surfaces, gen_outside_ring", "gggears_build123d.py"), ("GearToNurbs, gearprofile_to_nurb", "gggears_convert.py"), ("center_location_*, update_part", "gggears_wrapper.py")])
prop("C12", "Racks have the stated teeth and fit the gears they are meshed with",
     "A rack has the stated number of trapezoid teeth: flanks inclined by the pressure angle, tip and root at addendum and dedendum, half a pitch wide on the rack line less the backlash, one pitch apart, over the stated height, with addendum, dedendum and outer reference lines running along all of its teeth, slanted by the helix angle (reversing halfway for herringbone), heights and angles converted to the transverse plane for helical racks; position, orientation and offset (in pitches) move it rigidly. Meshing puts its line on the pitch circle moved out by the profile shift, teeth pointing at the gear and parallel to its axis, a rack tooth in a gap of the gear for every spin and direction, its reference tooth next to the centre line, and leaves the gear alone.",
     "module, height, pressure and helix angles, tooth heights, backlash, placement of rack and gear, direction, spin, offset, tooth numbers 6..60 of the gear, 2 or 3 teeth of the rack; unfilleted",
     "Tests do not look at racks beyond building one.",
     ["gggears_wrapper.py"],
     [("InvoluteRack._build_ref_tooth_face, build_part, mesh_to", "gggears_wrapper.py"), ("HelicalRack", "gggears_wrapper.py")])
prop("C15", "Tooth flanks have the stated width, pressure angle, crowning and undercut",
     "Flanks cross the pitch circle at a quarter pitch from the middle of the tooth, farther by the profile shift times the tangent of the pressure angle, nearer by the tooth backlash and by the crowning, which is zero in the middle of the height and the stated displacement at both faces, for any module, height and anchor. They are involutes of the base circle of the pressure angle (transverse for helical gears), octoids of the pressure angle on bevel gears, and cycloids of the stated rolling circle ratios meeting at the pitch circle. With undercut, root curves are the path of the corner of the stated generating rack rolling on the pitch circle or cone, joined to the flank where they cross; gears whose root stays outside the base circle are not undercut. Adapting cycloid gears makes the contacting rolling circles equal, keeps the others and the gears' places.",
     "tooth numbers, modules, pressure, cone and helix angles, profile shifts, backlashes, crownings, heights, anchors and levels in range",
     "Tests build a few gears at module 1 and anchor 0; no flank position is compared.",
     ["gearteeth.py", "gggears_wrapper.py"],
     [("InvoluteTooth, InvoluteUndercutTooth, OctoidTooth, OctoidUndercutTooth, CycloidTooth", "gearteeth.py"), ("generate_involute_rack_curve, generate_flat_rack_curve, generate_undercut_curve, trim_involute_undercut", "gearteeth.py"), ("InvoluteGear.calc_params, CycloidGear.calc_params, adapt_cycloid_radii", "gggears_wrapper.py")])
prop("C16", "The line of action touches the base circles of both gears",
     "For an external pair at any centre distance the two lines of action run in the plane of the chosen slice from the point of contact with one base circle to that with the other, crossing the centre line between the gears on either side. For a gear in a ring, given in either order, they touch both base circles and run from the pinion's base circle to its tip circle, away from the ring's centre. This holds wherever the pair is placed and however it is tilted.",
     "tooth numbers, modules, pressure angle, working pressure angle (centre distance), heights, anchors, slice, placement and direction in range; gears of equal height and anchor",
     "No test calls it.",
     ["gggears_wrapper.py"],
     [("LineOfAction.LOA_gen", "gggears_wrapper.py"), ("InvoluteGear.circle_involute_base", "gggears_wrapper.py")])
