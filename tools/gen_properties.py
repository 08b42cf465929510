#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the property texts live)."""
import json
import os

P = []


def prop(pid, title, statement, over, text, why, files, mechanism,
         state=None, observe_at=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w}
                            for n, m, w in state]
    if observe_at:
        anchors["observe_at"] = observe_at
    anchors["hook_needed"] = None
    P.append({"id": pid, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": anchors})


B = "ocbpy/_boundary.py"

prop("P01", "Boundary-normalised coordinates follow the planar geometry",
     "For any OCB or EAB record and any latitude/local time, normalising the location returns the "
     "co-latitude and local time of that point about the boundary centre in the pole-centred polar "
     "plane, scaled by reference co-latitude / (boundary radius + MLT-dependent radius correction), "
     "with local time in [0, 24) and the correction itself as third output; geodetic and geocentric "
     "input gives what its AACGM equivalent at the record's time gives. Locations outside the "
     "boundary's hemisphere (or any location while no record is selected) give NaN without affecting "
     "other elements, scalar, integer and array input agree element by element, and the caller's arrays "
     "are left unchanged.",
     ["inputs", "configurations"],
     "all boundary centres, radii, hemispheres, reference latitudes, correction functions, scalar/array locations, both geographic input systems",
     "The tests check a handful of fixed locations against one IMAGE and one AMPERE record; the relation must hold for every centre, radius, MLT, hemisphere and input shape.",
     [B], [("OCBoundary.normal_coord", B), ("radius corrections", "ocbpy/ocb_correction.py"),
           ("local time/longitude conversion", "ocbpy/ocb_time.py")],
     state=[("rec_ind", "selected boundary record", B)],
     observe_at=["OCBoundary.normal_coord", "EABoundary.normal_coord"])

prop("P02", "Reverting boundary coordinates undoes normalising them",
     "For any OCB or EAB record, reverting the boundary coordinates of a location (with boundary latitude in "
     "the record's hemisphere) and the radius correction that normalising returned gives back the original latitude and local time in AACGM "
     "coordinates, and in geodetic and geocentric coordinates (wherever AACGM is defined) to the accuracy "
     "of AACGM's inverse; and normalising a reverted boundary location gives back the boundary location when the radius is "
     "uniform. Reverting returns NaN when no record is selected or when every location is in the other "
     "hemisphere, agrees between scalars and arrays, and never alters its inputs.",
     ["inputs", "configurations"],
     "all records, hemispheres, locations, heights and coordinate systems",
     "Tests round-trip a few fixed points of one file; the inverse relation is a statement about every location and boundary.",
     [B], [("OCBoundary.revert_coord", B), ("OCBoundary.normal_coord", B)],
     observe_at=["revert_coord"])

prop("P03", "Boundary latitude profile is where the boundary really is",
     "For any record and MLT (taken modulo 24 h within one day either side), the AACGM boundary latitude "
     "is that of the point in that MLT direction on the circle of the record's centre and corrected "
     "radius, NaN where no such point exists, so that normalising the returned location gives the "
     "reference latitude. Results, their MLTs and (if requested) AACGM longitudes are stored for exactly "
     "the requested records, other records and already computed records stay unchanged unless "
     "overwriting is requested, loading data anew discards what was stored, and the input is never altered.",
     ["inputs", "histories"],
     "all records, MLT scalars/arrays and sequences of requests with and without overwriting",
     "Tests use one MLT grid on one file and do not exercise sequences of requests for different records.",
     [B], [("OCBoundary.get_aacgm_boundary_lat", B), ("DualBoundary.get_aacgm_boundary_lats", B)],
     state=[("aacgm_boundary_lat/mlt/lon", "per-record lists, None until requested", B)])

prop("P04", "Boundary files load completely, faithfully and in order",
     "Loading an IMAGE, AMPERE or DMSP-SSJ boundary file (or one of stated columns) yields exactly the file's records whose time is "
     "within the inclusive requested range, in file order, with each record's time, centre (polar angle "
     "from midnight in [0, 360) and co-latitude, computed from x/y for AMPERE and DMSP), radius, figure "
     "of merit and remaining columns as written. The reference latitude takes the sign of the hemisphere, "
     "each record gets the instrument's default (or the supplied per-record or common) correction function "
     "and arguments, the instrument's quality limits apply, and no record is selected after loading. All of "
     "this holds as well when an object loads data again (say, for another time range); "
     "without a usable file (or time columns) nothing is loaded, and "
     "inconsistent settings are refused with a ValueError.",
     ["inputs", "configurations", "histories"],
     "all well-formed files of the three formats (1 to many records), time windows, hemispheres, reference latitudes and correction inputs",
     "Tests load a few shipped files; record counts, time windows, single-record files and per-record functions are not swept.",
     [B, "ocbpy/ocb_time.py"], [("OCBoundary.load", B), ("OCBoundary.inst_defaults", B), ("_set_default_rfunc", B),
                                ("year_soy_to_datetime / convert_time", "ocbpy/ocb_time.py")],
     state=[("records/dtime/phi_cent/r_cent/r/fom", "loaded record arrays", B)])

prop("P05", "Quality selection visits exactly the acceptable records in order",
     "Stepping to the next good record moves to the first later record whose figure of merit lies within "
     "the inclusive limits (the instrument's, unless overridden) and that satisfies every custom "
     "min/mineq/max/maxeq/equal criterion, ignoring criteria on unknown attributes, or moves past the "
     "last record when there is none. Listing all good records returns precisely those indices in "
     "ascending order and leaves the selected record unchanged, and repeated stepping from before the "
     "first record visits the same list, for OCBs and EABs.",
     ["inputs", "histories"],
     "all figure-of-merit and attribute sequences, limits, criteria, and starting records",
     "Tests step through a shipped file with a few limits; equality cases, gaps, and combined criteria are not covered systematically.",
     [B, "ocbpy/cycle_boundary.py"], [("get_next_good_ocb_ind", B), ("retrieve_all_good_indices", "ocbpy/cycle_boundary.py")],
     state=[("rec_ind", "selected boundary record", B)])

prop("P06", "Data are matched to the closest good boundary within tolerance",
     "For time-ordered data and boundary records, the sequence of matches made while walking through the "
     "data pairs each data time that has a good boundary record within the tolerance with the good record "
     "closest in time, skips data times that have none, never pairs times further apart than the "
     "tolerance, never uses a record that fails the quality limits or custom criteria, and ends past the "
     "data or the records. This holds whether the walk starts before the first record or at a good record "
     "already selected, and a dual boundary is matched the same way on its paired times.",
     ["inputs", "histories"],
     "all strictly increasing boundary times, non-decreasing data times, tolerances, quality limits and criteria",
     "Tests pair one shipped file with a few constructed times; the guarantee is about every interleaving of data and boundary times.",
     ["ocbpy/cycle_boundary.py", B], [("match_data_ocb", "ocbpy/cycle_boundary.py"), ("get_next_good_ocb_ind", B)],
     state=[("rec_ind", "selected boundary record", B)])

prop("P07", "Dual boundary records are valid OCB/EAB pairs kept in step",
     "A dual boundary loads its files within the requested time range; every paired record joins a good OCB record with a good EAB record no further "
     "away than the maximum time difference; pairs are in time order and carry the OCB time, no EAB is used "
     "twice, and whenever no record is within the limit of two candidates the pairs are exactly those "
     "within the limit. Selecting a pair selects exactly its OCB and EAB records, "
     "selecting before the first or past the last pair puts both boundaries outside their records, and "
     "stepping moves through the pairs one by one; mismatched hemispheres, an OCB reference latitude not "
     "poleward of the EAB's, or a non-positive time limit raise a ValueError.",
     ["inputs", "histories"],
     "all OCB/EAB time series, merits, time limits, quality criteria and index sequences",
     "Tests pair two shipped files; the pairing must be right for any relative sampling and quality pattern.",
     [B, "ocbpy/cycle_boundary.py"], [("DualBoundary.set_good_ind", B), ("DualBoundary.rec_ind", B), ("get_next_good_ind", B)],
     state=[("ocb_ind/eab_ind/dtime", "paired record indices and times", B), ("rec_ind", "selected pair", B)])

prop("P08", "Dual-boundary coordinates scale each region between its boundaries",
     "For any OCB/EAB pair and location, dual-boundary normalisation equals the OCB coordinates poleward of "
     "the OCB, maps AACGM latitude linearly at fixed MLT so that the EAB and OCB land on their reference "
     "latitudes in between, and scales latitude proportionally equatorward of the EAB; the MLT, OCB "
     "latitude and radius correction are those of the OCB. Elements are independent of each other, scalar "
     "and array input agree, wrong-hemisphere or unselected input gives NaN, geographic input equals its "
     "AACGM equivalent, input is never altered, and previously stored boundary latitudes survive unless "
     "overwriting is requested.",
     ["inputs", "configurations"],
     "all OCB/EAB geometries with the OCB inside the EAB, hemispheres, reference latitudes and locations",
     "Tests evaluate a fixed grid for one pair in one hemisphere.",
     [B], [("DualBoundary.normal_coord", B), ("get_aacgm_boundary_lats", B)],
     observe_at=["DualBoundary.normal_coord"])

prop("P09", "Reverting dual-boundary coordinates undoes normalising them",
     "For any OCB/EAB pair, reverting dual-boundary coordinates with the radius correction and AACGM MLT "
     "of the location gives back the original latitude and local time in every region (polar cap, auroral "
     "oval, sub-auroral), in AACGM, geodetic and geocentric coordinates and for any heights; reverting the "
     "OCB latitude as OCB coordinates gives the same answer as the OCB itself. Mixed-region arrays agree "
     "with one-at-a-time calls, the MLT is required (ValueError) once a location lies equatorward of the "
     "OCB, stored boundary latitudes survive unless overwriting is requested, and input is never altered.",
     ["inputs", "configurations"],
     "all OCB/EAB geometries, locations, heights and coordinate systems",
     "Tests revert a fixed grid for one pair; mixed regions with geographic output are not covered.",
     [B], [("DualBoundary.revert_coord", B)], observe_at=["DualBoundary.revert_coord"])

prop("P10", "Dual-boundary radii used for scaling match each region",
     "For any OCB/EAB pair and location, the scaled and unscaled radii are the reference OCB co-latitude and "
     "the corrected OCB radius poleward of the OCB, the reference and actual OCB-EAB latitude widths at that "
     "MLT in the oval, and the reference and actual EAB latitude equatorward of it; they are positive and "
     "their ratio is the local slope of the latitude mapping outside the polar cap. Elements are "
     "independent, scalars and arrays agree, an unselected pair gives NaN unscaled radii, and stored "
     "boundary latitudes survive unless overwriting is requested.",
     ["inputs", "configurations"],
     "all OCB/EAB geometries and boundary-relative locations in the three regions",
     "Tests check a few points of one pair.",
     [B], [("DualBoundary.calc_r", B)], observe_at=["DualBoundary.calc_r"])

prop("P11", "Satellite-track masking keeps only data close to a boundary crossing",
     "Masking locations by satellite track marks a location as usable exactly when it lies in the chosen "
     "hemisphere, is within the allowed x and y distances of some point on the straight line through the "
     "pass's two boundary crossings in the pole-centred plane, and is no more than the allowed latitude "
     "equatorward of the nearer crossing. The answer for a location does not depend on the other "
     "locations in the call nor on the order of the two crossings, the inputs are not altered, and negative "
     "limits or an unknown hemisphere raise a ValueError.",
     ["inputs", "configurations"],
     "all crossing positions, limits, hemispheres and locations",
     "Tests check one pass with a few locations and limits.",
     ["ocbpy/cycle_boundary.py"], [("satellite_track", "ocbpy/cycle_boundary.py")])

prop("P12", "Radius-correction functions are the documented functions of MLT",
     "The circular correction is its constant at every MLT; the elliptical and harmonic corrections are the "
     "published functions of MLT for each documented method, periodic in 24 h, and unknown methods raise a "
     "ValueError. All of them return, for any scalar or array of MLT, a value or array of matching shape "
     "whose elements depend only on their own MLT.",
     ["inputs"], "all MLT values, scalar/array shapes, methods and constants",
     "Tests evaluate a few MLT values.",
     ["ocbpy/ocb_correction.py"], [("circular/elliptical/harmonic", "ocbpy/ocb_correction.py")])

prop("P13", "Time inputs are parsed to the right instant",
     "Year and second-of-year, year and day-of-year (with seconds, or with a date/time format), two- and "
     "three-digit years with day of year, combined and separate date/time strings in any supported format, "
     "and seconds of day (also past the end of the day) all convert to the datetime they denote, to the nearest whole second for "
     "second-of-year input, across leap years and year ends. A time decomposed into hours of day is "
     "recovered exactly, a format's length is never less than that of the strings it produces, and incomplete "
     "or malformed input raises a ValueError rather than a wrong time (characters after a complete time string, "
     "such as fractions of seconds, are ignored).",
     ["inputs"], "all datetimes 1950-2149 in every accepted decomposition and format",
     "Tests convert two or three fixed times.",
     ["ocbpy/ocb_time.py"], [("convert_time, year_soy_to_datetime, yyddd_to_date, datetime2hr, get_datetime_fmt_len", "ocbpy/ocb_time.py")])

prop("P14", "Angle, hour and local-time conversions are exact and cyclic",
     "Degree/hour/radian conversions are linear, mutually inverse and shape preserving; longitude to "
     "solar local time and back are inverse modulo 360 degrees/24 hours, agree with UT hours + longitude/15, "
     "and stay within their documented ranges. Wrapping values into a range returns values v with "
     "min <= v < max that differ from the input by whole multiples of the period (the width, or a smaller custom one), leaves in-range values "
     "and NaN unchanged, does not alter the input, and refuses an empty range or a period that is not positive with a ValueError.",
     ["inputs"], "all finite values (|v| <= 1e6) in scalar, list, integer and float array form, all ranges, all times of day",
     "Tests use a few values per function.",
     ["ocbpy/ocb_time.py"], [("deg2hr, hr2deg, hr2rad, rad2hr, glon2slt, slt2glon, fix_range", "ocbpy/ocb_time.py")])

prop("P15", "Vector re-orientation is the rigid rotation towards the new pole",
     "For any vector and any destination pole in the same hemisphere, the pole angle is the spherical angle "
     "at the data between the two poles, and the adjusted vector is the original one rotated about the "
     "vertical so that north points to the destination pole: horizontal magnitude and vertical component "
     "are preserved and quadrants are consistent with the components and pole direction. It holds for "
     "scalars, arrays and mixtures of both, element by element, with NaN only where an input is NaN; the "
     "pole location is the local time and latitude of the boundary centre.",
     ["inputs"], "all vector directions, data and pole locations (both hemispheres), scalar/array mixes",
     "Tests use one or a few vectors per quadrant; signs over every quadrant pair and day/night side need a sweep.",
     ["ocbpy/vectors.py"], [("calc_vec_pole_angle, define_pole_quadrants, define_vect_quadrants, calc_dest_vec_sign, calc_dest_vec_az, adjust_vector, get_pole_loc", "ocbpy/vectors.py")])

prop("P16", "Vector data objects give correctly rotated, scaled boundary vectors",
     "Assigning a boundary to vector data gives each element the boundary coordinates of its own location "
     "for its own boundary record, and the vector rotated towards the boundary centre and then scaled, "
     "component by component, with the chosen function of unscaled and scaled radius (unscaled if none); "
     "the magnitude is the norm of the components and elements without boundary coordinates are NaN. This "
     "holds for scalar and array data with one or several boundary indices, single and dual boundaries, "
     "magnetic or geographic input, and is the same element by element, and the "
     "same for an object whose attributes were reassigned as for a new one (boundary coordinates it already "
     "has count as given until set to NaN); changed indices discard earlier "
     "results. A given magnitude is kept, with a warning if it disagrees with the components. Inconsistent "
     "shapes raise a "
     "ValueError.",
     ["inputs", "configurations"],
     "all boundary records, data/boundary index shapes, vectors, locations, coordinate systems and scaling functions",
     "Tests check a few vectors for one boundary record.",
     ["ocbpy/ocb_scaling.py", "ocbpy/vectors.py"],
     [("VectorData.set_ocb, scale_vector, setters", "ocbpy/ocb_scaling.py")],
     state=[("ocb_n/ocb_e/ocb_z/ocb_mag, ocb_lat/ocb_mlt/r_corr", "boundary vector and location", "ocbpy/ocb_scaling.py")])

prop("P17", "Electric-field scaling laws and haversine helpers hold",
     "Scaling an E-proportional value multiplies it by unscaled radius / scaled radius and a "
     "curl-of-E-proportional value by the square of that ratio, linearly in the value, as identity when "
     "the radii agree, invertible by swapping the radii, for scalars and arrays. The haversine is "
     "sin^2(x/2), even and 2-pi periodic with values in [0, 1], its inverse returns the angle in [0, pi] "
     "for values in [0, 1], zero for values smaller than 1e-16 in size, NaN for more negative ones, and NaN "
     "propagates.",
     ["inputs"], "all values, positive radii and angles, scalar and array",
     "Tests evaluate a few fixed values.",
     ["ocbpy/ocb_scaling.py", "ocbpy/vectors.py"], [("normal_evar, normal_curl_evar, hav, archav", "ocbpy/ocb_scaling.py")])

prop("P18", "ASCII data files are loaded column by column without loss",
     "Loading an ASCII file returns its header lines and, for each named column, every row's value in file "
     "order with the requested type (float by default, integer or string when asked), and times assembled "
     "from any supported combination of date, time, year, day-of-year and seconds columns or a datetime "
     "column. Comment and delimiter characters, column names given or taken from the file, and files with "
     "one row or none do not change this, and the caller's arguments are left unchanged; a missing, empty "
     "or too large file gives an empty result rather than an error.",
     ["inputs", "configurations"],
     "all well-formed tables: row counts, column types, delimiters, headers, time column layouts",
     "Tests load three or four fixed files.",
     ["ocbpy/instruments/general.py"], [("load_ascii_data, test_file", "ocbpy/instruments/general.py")])

prop("P19", "SuperMAG data load and convert to boundary coordinates faithfully",
     "Loading a SuperMAG ASCII file returns one entry per station and time with that station's identity, "
     "position and field, in file order, with fill values of positions and fields as NaN. Converting it writes, for every record "
     "in the requested hemisphere that has a good boundary within the tolerance and for no other, one line "
     "with the record's time, station, original location and vector and its boundary location and scaled "
     "boundary vector as the library computes them for that boundary record, to the written precision. Data of both "
     "hemispheres without a choice and unreadable files are refused.",
     ["inputs", "configurations"],
     "all well-formed files (station counts varying in time), boundaries (OCB, EAB, dual), hemispheres, tolerances",
     "Tests convert one file and compare it with stored output.",
     ["ocbpy/instruments/supermag.py"], [("load_supermag_ascii_data, supermag2ascii_ocb", "ocbpy/instruments/supermag.py")])

prop("P20", "Vorticity data load and convert to boundary coordinates faithfully",
     "Loading a SuperDARN vorticity file returns every cell of every time block with its block's time and "
     "its own values, in file order. Converting it writes, for every record in the requested hemisphere "
     "that has a good boundary within the tolerance and for no other, one line with the record's time, "
     "AACGM centre, boundary location, vorticity and normalised vorticity as the library computes them for "
     "that boundary record, to the written precision, plus the requested extra columns. Damaged blocks, "
     "unreadable files and data of both hemispheres without a choice are refused.",
     ["inputs", "configurations"],
     "all well-formed files, boundaries (OCB, EAB, dual), hemispheres, tolerances, extra columns",
     "Tests convert one file and compare it with stored output.",
     ["ocbpy/instruments/vort.py"], [("load_vorticity_ascii_data, vort2ascii_ocb", "ocbpy/instruments/vort.py")])

prop("P21", "pysat instruments gain correct boundary data and metadata",
     "Adding boundary coordinates to a pysat instrument (pandas or xarray) leaves all existing data "
     "unchanged and adds boundary latitude, MLT and radius correction, scaled E and curl-E values, and "
     "rotated and scaled vectors that at every sample equal what the boundary and scaling routines give for "
     "the closest good boundary within the tolerance, and NaN at samples without one, in the other "
     "hemisphere, or where the value or latitude is missing. Every added variable has metadata derived from its parent "
     "variable, with notes that name the instrument, file and reference latitude of the boundary and the scaling "
     "function of vectors, caller-supplied lists and dicts are left unchanged, and unknown variables or mixed "
     "hemispheres without a choice raise a ValueError.",
     ["inputs", "configurations"],
     "all sample times/locations/values with gaps, single and dual boundaries, scalar, array or variable heights, pandas and multi-dimensional xarray layouts",
     "Tests use the pysat test instruments with one boundary file and check presence, shape and a few values.",
     ["ocbpy/instruments/pysat_instruments.py"], [("add_ocb_to_data, add_ocb_to_metadata, reshape_pad_mask_flatten", "ocbpy/instruments/pysat_instruments.py")])

prop("P22", "The default boundary file is a suitable one of highest priority",
     "Listing boundary files reports exactly the files of the requested boundary type in the boundary "
     "directory with their instrument, hemisphere and time span. The default file chosen for a time range, "
     "hemisphere, instrument and boundary type is one whose hemisphere, type and instrument agree and whose "
     "span overlaps the range (any span if a limit is missing), taken by the documented instrument "
     "priority, together with that instrument's name; None is returned if and only if no file qualifies.",
     ["inputs", "configurations"],
     "all sets of boundary files in the directory (known and custom instruments), time ranges, hemispheres, instruments, boundary types",
     "Tests use the fixed shipped file set.",
     ["ocbpy/boundaries/files.py"], [("get_boundary_files, get_default_file", "ocbpy/boundaries/files.py")])

prop("P23", "DMSP SSJ passes are selected and converted to correct boundary files",
     "Formatting DMSP SSJ passes writes, per boundary and hemisphere, one line for every pass of every "
     "readable input file, in order, holding its spacecraft, midpoint time and figure of merit and the "
     "AACGM positions of the two crossings (x towards dawn, y towards noon) with the circle spanned by "
     "them, so that loading the file as a boundary gives those records. Selecting and fetching archive "
     "members keeps exactly those whose spacecraft and date (start inclusive, end exclusive) were asked "
     "for, honours the clean-up option, refuses unknown spacecraft, bad checksums and missing archives with "
     "the documented errors, and leaves the output streams as they were.",
     ["inputs", "configurations", "fault_sequences"],
     "all pass tables, spacecraft/date sets and ranges, archive contents and download outcomes (with the network replaced by a local stand-in)",
     "Tests need the network for most of this module, and otherwise format one file.",
     ["ocbpy/boundaries/dmsp_ssj_files.py"], [("format_ssj_boundary_files, evaluate_dmsp_boundary_file, fetch_ssj_boundary_files", "ocbpy/boundaries/dmsp_ssj_files.py")])

prop("P24", "Printed representations recreate the object",
     "Evaluating the representation of a boundary, dual boundary or vector data object yields an object "
     "of the same class with the same records, settings, correction functions and values (reference "
     "latitudes to the printed precision) whose representation is identical, for every way of constructing "
     "it, including without a file or records. The readable summary reports the number of records (or "
     "pairs) and their time span for the same objects without error, and that of vector data every "
     "location, value and index once.",
     ["inputs", "configurations"],
     "all boundary settings, time windows, correction functions and arguments, dual pairs and vector data shapes",
     "Tests evaluate the representation of a few default objects.",
     [B, "ocbpy/ocb_scaling.py"], [("__repr__, __str__", B), ("VectorData.__repr__", "ocbpy/ocb_scaling.py")])

prop("P25", "Results do not depend on what was done before",
     "For any sequence of operations on boundaries, dual boundaries, vector data and the module functions "
     "in one process, each operation (loading, selecting, listing and pairing records, matching, "
     "converting in either direction, boundary latitudes, radii, vectors, corrections, times, satellite "
     "tracks, representations) gives the result, and leaves the settings and selected record, that it does "
     "when it is the first operation of a new process on newly made objects of the same files, arguments, "
     "pairing and selected record. Only the documented state carries over: loaded data, selected "
     "record, pairing and stored boundary latitudes. Operations on one object do not change another one "
     "made from the same files and arguments, nor the arguments the caller supplied (criteria, correction "
     "functions and keyword dictionaries).",
     ["inputs", "histories"],
     "all histories of operations on one or several single and dual boundaries that share files, correction arguments, locations and times",
     "Tests make new objects for every test, so nothing that leaks from one operation into another shows.",
     [B, "ocbpy/cycle_boundary.py", "ocbpy/ocb_scaling.py", "ocbpy/ocb_time.py", "ocbpy/ocb_correction.py"],
     [("OCBoundary, EABoundary, DualBoundary", B), ("VectorData.set_ocb", "ocbpy/ocb_scaling.py")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
    with open(out, "w") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["id"]
            fh.write(json.dumps(p) + "\n")
    print(len(P), "properties")
