"""Source of properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "src/stcal/"
P = []


def p(pid, title, statement, over, text, why, files, mech, tech, note, level="model_checking", na=None):
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": {"files": [S + f for f in files],
                                                 "mechanism": [{"name": n, "where": S + w} for n, w in mech]},
              "_tech": tech, "_note": note, "_level": level, "_na": na})


TV = "TLA+ spec checked with TLC; recorded executions validated against it"
RP = "TLA+ spec checked with TLC; its behaviours replayed in the code and recorded executions validated against it"

p("C01", "Ramp slopes come only from usable groups, segmented at jumps",
  "The rate, variances and optional products that least-squares ramp fitting reports for a pixel are the optimally "
  "weighted fits of the segments of usable groups between its cosmic-ray jumps, combined over segments and integrations "
  "by inverse read-noise variance, with the variances of read noise and Poisson noise that those segments imply. Groups "
  "flagged do-not-use or saturated never influence them; a ramp with a single usable group uses that group (or the zero "
  "frame) with its own integration time, unless one-group ramps are suppressed.",
  ["inputs", "configurations"],
  "Every arrangement of data-quality flags over the groups of a ramp, every number of groups and integrations, read "
  "pattern, gain, read noise, dark current and zero frame, with or without one-group suppression.",
  "Tests fit a few hand-made ramps; the flag arrangements of even five groups number thousands and interact with "
  "segment splitting, one-group cases and zero frames.",
  ["ramp_fitting/ramp_fit.py", "ramp_fitting/ols_fit.py", "ramp_fitting/src/slope_fitter.c"],
  [("segmentation and weighted fit per pixel", "ramp_fitting/src/slope_fitter.c"),
   ("choice of algorithm, suppression of one-group ramps", "ramp_fitting/ramp_fit.py")],
  RP, "TLC enumerates every flag pattern of 4 (thorough 5) groups with the specification's invariants and each pattern is "
  "replayed in the C extension, together with random exposures of up to 14 groups; numbers are compared to thousandths. "
  "Trusts the fixed-point arithmetic of the specification; data are small integers.")

p("C02", "Ramp-fit data quality reflects what happened to the groups",
  "After ramp fitting, a pixel's per-integration and final data quality hold its input pixel quality, a jump flag "
  "exactly when some group of the integration had a jump flag, and saturated and do-not-use flags exactly when the "
  "integration yielded no usable slope for that reason; the slope is NaN exactly when nothing usable was left. A pixel is "
  "marked unusable in the combined product only if it is unusable in every integration, and pixels without a valid gain "
  "are flagged as having no gain value.",
  ["inputs", "configurations"],
  "Every arrangement of group flags, pixel flags and gains over groups and integrations, for any assignment of flag values.",
  "Tests look at a handful of flag arrangements and one flag numbering.",
  ["ramp_fitting/utils.py", "ramp_fitting/ols_fit.py", "ramp_fitting/src/slope_fitter.c"],
  [("flag propagation in the extension", "ramp_fitting/src/slope_fitter.c"),
   ("discarding of leading and trailing groups", "ramp_fitting/ols_fit.py")],
  RP, "As C01, on the data-quality clauses; two different numberings of the flags.")

p("C03", "Ramp fitting does not depend on the number of processes",
  "Fitting an exposure with its rows divided among several processes gives the same rate, per-integration and optional "
  "products, for every pixel and bit for bit, as fitting it in a single process.",
  ["schedules", "configurations", "inputs"],
  "Every number of rows and requested cores (numbers and words), available processors, algorithm options, and exposure.",
  "Tests run at most two processes on one small uniform image.",
  ["ramp_fitting/ols_fit.py", "ramp_fitting/utils.py"],
  [("slicing of the exposure and reassembly of the products", "ramp_fitting/ols_fit.py")],
  TV, "TLC checks every schedule of workers over small images in the slicing specification; recorded whole and sliced runs "
  "must agree bit for bit, and sliced runs must also satisfy the ramp-fit specification. Most runs use an in-process pool "
  "that pickles arguments and results, a few use real worker processes.")

p("C04", "Ramp fitting is repeatable, per pixel, and leaves its inputs alone",
  "The products of ramp fitting for a pixel depend only on that pixel's own data: repeating the fit on an equal exposure, "
  "permuting the pixels of the image, or supplying arrays in the other byte order gives identical results. The caller's "
  "science data, pixel quality, gain, dark current and zero frame are unchanged afterwards.",
  ["inputs", "histories", "configurations"],
  "Every exposure, either fitting algorithm, every permutation of pixels, any memory order of the arrays.",
  "Tests run each input once, in one byte order, and never compare neighbours or inputs after the call.",
  ["ramp_fitting/ramp_fit.py", "ramp_fitting/ols_fit.py", "ramp_fitting/likely_fit.py", "ramp_fitting/src/slope_fitter.c"],
  [("byte order handling", "ramp_fitting/ols_fit.py"), ("row loop of the likelihood fit", "ramp_fitting/likely_fit.py")],
  TV, "Recorded pairs of runs (again, permuted, byte-swapped) are compared bit for bit by the slicing specification; "
  "inputs are compared before and after.")

p("C05", "Uneven-read ramps are fitted and split at jumps as the algorithm defines",
  "For ramps of unevenly spaced resultants, each pixel's slope and variances are those of the optimally weighted fit of "
  "its usable runs of resultants; with jump detection a run is split exactly when its largest jump statistic exceeds the "
  "slope-dependent threshold, the two resultants next to the jump are flagged, and the fit uses the remaining pieces. "
  "Resultants flagged on input never influence the result, nor does any other pixel.",
  ["inputs", "configurations"],
  "Every read pattern, arrangement of flags, resultants, read noise, and threshold setting.",
  "Tests use statistical expectations on simulated ramps and a few single-jump cases.",
  ["ramp_fitting/ols_cas22_fit.py", "ramp_fitting/ols_cas22/_fit.pyx", "ramp_fitting/ols_cas22/_jump.pyx",
   "ramp_fitting/ols_cas22/_ramp.pyx"],
  [("run splitting and jump search", "ramp_fitting/ols_cas22/_jump.pyx"), ("weighted fit", "ramp_fitting/ols_cas22/_ramp.pyx")],
  RP, "The fit is specified in fixed point, with every split that its tolerance allows. TLC checks every ramp of five resultants over a few steps with every arrangement of flags, all replayed; random images of up to eight resultants with values up to 13000, and pixels alone against pixels in company. Decisions within the rounding of fixed point may go either way.")

p("C06", "Likelihood ramp fitting uses only differences between usable groups",
  "In likelihood ramp fitting the slope, variances and chi-square of a pixel's integration depend only on differences of "
  "consecutive groups that are both free of flags; the values in flagged groups never matter, differences rejected as "
  "jumps are flagged in the later group and are then left out, and a pixel left with no usable difference gets no slope. "
  "A difference, or two consecutive ones around a group of several reads, is rejected when, and only when, leaving it out "
  "lowers chi-square by more than the configured threshold, one rejection at a time. "
  "On ramps without rejected differences the reported slope is the maximum-likelihood slope for the read-out's covariance.",
  ["inputs", "configurations"],
  "Every arrangement of group flags over ramps of four or more groups, read pattern, noise and gain, with and without a zero frame.",
  "Tests compare a few ramps with recorded numbers.",
  ["ramp_fitting/likely_fit.py", "ramp_fitting/likely_algo_classes.py"],
  [("which differences are used", "ramp_fitting/likely_fit.py"), ("covariance of differences", "ramp_fitting/likely_algo_classes.py")],
  RP, "The likelihood fit and its rejection rounds are specified in fixed point (1e-4 weights). TLC checks every ramp of five groups over three steps with every arrangement of flags in five read-outs (thorough: seven groups), replayed; random exposures of four to seven groups with zero frames, dark current, thresholds and several integrations. Decisions closer than the rounding may go either way; of two differences that disagree either may be rejected.")

p("C07", "Two-point jump detection flags exactly the outlying differences",
  "Two-point jump detection flags a group exactly when the difference leading to it stands off the ramp's median "
  "difference by more than the rejection threshold times the expected noise, with the threshold and the procedure that the "
  "number of usable differences selects (one pass, iterative, or sigma clipping over integrations). Differences that touch "
  "a saturated or do-not-use group are never flagged and never influence the others, and no other pixel does.",
  ["inputs", "configurations"],
  "Every ramp, arrangement of input flags, number of groups and integrations, threshold setting, and choice of procedure.",
  "Tests plant one or two jumps in a flat ramp.",
  ["jump/twopoint_difference.py", "jump/twopoint_difference_class.py", "jump/jump.py"],
  [("iterative, one-pass and sigma-clip detection", "jump/twopoint_difference.py")],
  RP, "TLC enumerates every ramp of a few differences under every procedure and replays each; random exposures are validated too. Decisions closer to the threshold than rounding allows are not judged; data are small integers.")

p("C08", "Jump flags spread to neighbours and later groups exactly as configured",
  "A detected jump whose size lies inside the configured window flags the four adjacent pixels in the same group, and a "
  "jump above a configured size flags the configured number of following groups of its pixel; flags never spread to "
  "saturated or do-not-use groups, past the edges of the image, or across integrations.",
  ["inputs", "configurations"],
  "Every placement of jumps and flags over the image, including edges, corners and last groups, and every option setting.",
  "Tests place single jumps at a few positions.",
  ["jump/twopoint_difference.py", "jump/jump.py"],
  [("neighbour flagging", "jump/twopoint_difference.py"), ("after-jump flagging", "jump/twopoint_difference.py")],
  RP, "TLC enumerates jump and flag placements over a small image and replays them; random exposures up to 6x6 pixels. Trusts C07's specification for which groups are jumps.")

p("C09", "Jump detection does not depend on the number of processes",
  "Detecting jumps with the rows of the exposure divided among several processes gives the same group flags, pixel flags "
  "and cosmic-ray counts as a single process, including flags that spread to pixels across slice boundaries.",
  ["schedules", "configurations", "inputs"],
  "Every number of rows and cores, every option setting, jumps anywhere including on slice boundaries.",
  "Tests compare a jump or two at a slice boundary.",
  ["jump/jump.py", "jump/twopoint_difference.py"],
  [("slicing and reassembly with cross-slice neighbours", "jump/jump.py")],
  TV, "Whole and sliced runs of one exposure must agree by the slicing specification; two listed findings. Most runs use an in-process pool that pickles arguments and results, a few use real processes. Snowballs, showers and counts included.")

p("C10", "Snowballs and showers only add flags around what triggered them",
  "Large-event detection leaves all group flags alone except for adding jump or saturation flags; snowballs are flagged "
  "only around clusters of jumps above the configured area, and showers only around coherent emission, within the "
  "configured expansion of what was found and the configured number of later groups. A snowball needs a saturated core "
  "(unless that is not required, or it lies near the edge); its saturated groups get no jump flag. With the options off "
  "nothing changes, and persisted flags reach the next integration only where its snowballs saturated the pixel before.",
  ["inputs", "configurations"],
  "Every arrangement of flags over groups and integrations, every option setting.",
  "Tests use a few synthetic snowballs and compare single pixels.",
  ["jump/jump.py"],
  [("large event flagging", "jump/jump.py"), ("shower flagging", "jump/jump.py")],
  RP, "The geometry (enclosing circles and ellipses) is bounded from both sides by the specification rather than equalled pixel for pixel; what may and what must be flagged are both checked. Images up to 16x16.")

p("C11", "Saturation flagging is complete, persistent in time and exact",
  "A group is flagged saturated exactly when it, or an earlier group of the same integration, reaches the pixel's "
  "threshold, or one of the neighbours in the configured box does (or carries the flag already). Pixels without a valid "
  "threshold are never flagged on their own account and are marked as unchecked. Groups at or below the converter's floor "
  "are flagged as such and unusable; groups of averaged reads are marked unusable just before saturation by the "
  "read-pattern rules, and no other group or pixel flag changes. Zero-frame values that saturate or fall to the floor "
  "become zero.",
  ["inputs", "configurations"],
  "Every ramp, threshold map, input flags, box size, read pattern, superbias and zero frame.",
  "Tests saturate a few pixels in one group each.",
  ["saturation/saturation.py"],
  [("threshold tests and persistence in time", "saturation/saturation.py"), ("box growth", "saturation/saturation.py")],
  RP, "TLC enumerates every integration of 2 pixels and 3 groups over a few values and replays all 98304; random exposures up to 7x7x6 groups are compared flag by flag. Values are integers; exact ties of the dilution rules are not judged.")

p("C12", "Linearity correction applies the polynomial exactly where it is valid",
  "Each group that is not saturated and whose pixel has a valid correction is replaced by its pixel's polynomial in the "
  "uncorrected value; saturated groups and pixels without valid coefficients keep their values, and such pixels are "
  "flagged as uncorrected. The zero frame follows the same rule, its zeros staying zero. With an inverse polynomial the "
  "correction is made read by read: reads are reconstructed from the unsaturated groups, shifted to match the group, capped, "
  "corrected and averaged. No pixel depends on another, however large the image.",
  ["inputs", "configurations"],
  "Every ramp, coefficient cube and flags, with and without zero frame or read-level correction.",
  "Tests check one polynomial and a few special pixels.",
  ["linearity/linearity.py"],
  [("polynomial evaluation and masks", "linearity/linearity.py")],
  RP, "TLC enumerates every ramp of three groups over small values, flags and polynomials, all replayed (64800); random exposures with small integer coefficients are compared exactly; realistic numbers only by permuting rows. Read-level correction of a single group is left out (the code refuses it).")

p("C13", "Dark subtraction uses the matching, averaged dark for every group",
  "Each science group has subtracted from it the average of the dark frames that were averaged into it, of the dark "
  "integration that corresponds to it (the last one when the dark has fewer, or when the science segment does not start "
  "with the exposure's first integration), with invalid dark values counting as zero, "
  "and the dark's pixel flags are added to the pixel quality. When the dark cannot match the science read-out the "
  "exposure is returned unchanged and marked as skipped; a dark that is too short is extended at the rate of its last "
  "two groups.",
  ["inputs", "configurations"],
  "Every combination of read-out settings of science and dark, numbers of groups and integrations, segmented exposures, flags.",
  "Tests cover a few read-out combinations with one integration.",
  ["dark_current/dark_sub.py", "dark_current/dark_class.py"],
  [("averaging and subtraction", "dark_current/dark_sub.py")],
  RP, "TLC enumerates every small read-out of science and dark and each is replayed; random exposures too. One listed finding: darks whose own groups are averages. Dark values are multiples of 12 so that the averages are exact.")

p("C14", "The median of a stack is the same in memory and on disk",
  "The median image of a stack is, for each pixel, the median of the finite values appended for it, or NaN if there is "
  "none; it does not depend on whether the stack is kept in memory or on disk, on the buffer size, or on the order of the "
  "images. Images of the wrong shape or type, or beyond the announced number, are refused without changing the stack, and "
  "temporary files disappear.",
  ["histories", "inputs", "configurations"],
  "Every sequence of appended images, refused appends in between, stack shape, buffer size and storage choice.",
  "Tests compare one stack in each mode.",
  ["outlier_detection/median.py"],
  [("sectioned on-disk stack", "outlier_detection/median.py")],
  RP, "TLC enumerates every life of a small stack, each is replayed in the code; random larger stacks are validated "
  "against the same specification.")

p("C15", "Outlier flagging marks exactly the pixels that differ from the model",
  "A pixel is flagged as an outlier exactly when it differs from the blotted model by more than the noise threshold plus "
  "the scaled derivative, and lies next to (or at) a pixel that differs by the relaxed measure; without derivatives, when "
  "it differs by more than the noise threshold alone. Pixels with an invalid model or value are never flagged and an "
  "invalid error counts as no noise. The weight below which pixels stay out of the model is the stated share of the "
  "clipped mean of the weights that are neither zero nor invalid.",
  ["inputs", "configurations"],
  "Every science, blot and error image and threshold setting.",
  "Tests put one cosmic ray in a flat image.",
  ["outlier_detection/utils.py"],
  [("two-pass cosmic ray test", "outlier_detection/utils.py")],
  RP, "TLC enumerates every 2x2 (thorough 2x3 in the model) image over a few values with the two-pass test, all replayed; random images up to 7x7; median filter and clipped weights too. Data are integers, so comparisons are exact; infinities are left out.")

p("C16", "Resampling follows its life cycle and reports what went in",
  "An output mosaic is built from exactly the models added since it was started: its exposure times, pointings and "
  "metadata count each once, adding after finalizing or finalizing twice is refused or leaves the result as it was, and "
  "after a reset a new mosaic starts from nothing.",
  ["histories", "configurations"],
  "Every sequence of adding, finalizing, reading and resetting, with any grouping of models into exposures.",
  "Tests add a few identical models and finalize once.",
  ["resample/resample.py"],
  [("life cycle and accumulation of metadata", "resample/resample.py")],
  RP, "TLC explores every history of adding, finalizing, reading and resetting up to six operations (thorough: seven) over three models in two groups; sampled behaviours are replayed, and random histories on tilted and offset inputs validated. The drizzle dependency is part of what is exercised, not judged.")

p("C17", "Resampled images are the weighted means of the good input pixels",
  "Each output pixel is the weighted mean of the input pixels that map to it and are not flagged bad, with the weights of "
  "the configured scheme; its variances are those of that weighted mean, its context records exactly the contributing "
  "inputs, and pixels nothing contributed to are empty. The result does not depend on the values of flagged pixels.",
  ["inputs", "configurations"],
  "Every stack of inputs, flags, variances, weighting scheme and scale.",
  "Tests check sums on constant images.",
  ["resample/resample.py", "resample/utils.py"],
  [("weight maps and variance propagation", "resample/resample.py"), ("weight map and bad-pixel mask", "resample/utils.py")],
  RP, "The same mosaics as C16: data, weights, context, variances and errors of random stacks (weights exposure time, ivm or none, several kernels and scales) against the weighted means of the specification. Inputs are offset by at most a tenth of a pixel from the output grid so that an output pixel belongs to one input pixel.")

p("C18", "Sky matching equalizes the images and never invents sky",
  "Sky matching assigns each group of images one sky value; with matching, values are chosen so that overlapping groups "
  "agree, relative to the lowest (or highest), and with a global sky every image receives the same smallest measured "
  "value. Images for which no sky could be computed are marked so and keep their values, and subtraction changes each "
  "image by exactly its assigned value.",
  ["inputs", "configurations", "histories"],
  "Every arrangement of overlapping images and groups, masks, methods and options, in any order of images.",
  "Tests match two or three images of constant sky.",
  ["skymatch/skymatch.py", "skymatch/skyimage.py", "skymatch/skystatistics.py"],
  [("matching", "skymatch/skymatch.py"), ("overlaps and sky values of images and groups", "skymatch/skyimage.py")],
  RP, "TLC enumerates every arrangement of up to four images on a strip with masks, groups and methods; behaviours are replayed, random arrangements validated. Sky values are integers in levels; borders of images keep 0.17 pixel apart, because the spherical polygon library fails on coinciding ones.")

p("C19", "A cone search of the catalog tiles returns exactly the sources inside",
  "Searching the tiled catalog around a position returns every stored source within the radius exactly once and none "
  "outside, wherever the cone lies relative to tile borders, the poles and the origin of right ascension; then positions "
  "are moved by their proper motion to the requested epoch, only for sources that have a proper motion, and missing "
  "values stay missing.",
  ["inputs", "configurations"],
  "Every position, radius, epoch, division of the sky into tiles and catalog content.",
  "Tests mock the catalog or search one position.",
  ["tweakreg/_s3_catalog.py", "tweakreg/astrometric_utils.py"],
  [("tile selection and filtering", "tweakreg/_s3_catalog.py"), ("reference catalog", "tweakreg/astrometric_utils.py")],
  RP, "TLC explores every division of a part of the pixel tree into tiles and every cone over it; sampled divisions and random ones are written as parquet files, which the real search reads through a local file system in place of S3. Sources are placed on both sides of the circle and of the tile borders. Time limits of the service are not judged.")

p("C20", "Image alignment follows its documented decisions",
  "Relative alignment is refused exactly when its settings could confuse sources, when fewer than two groups of images have "
  "sources, or when the correction found is too large to be trusted; absolute alignment when its settings could confuse "
  "sources or the reference catalog has too few of them. Where it is applied, images of a group move as one, groups end up "
  "agreeing with each other (or with the reference catalog) on the sky within the chosen kind of fit, groups that cannot "
  "be matched keep their pointing, and a refusal before the fit changes no pointing. Outliers are rejected by distance "
  "and brightness as requested. The reference catalog holds the requested number of brightest (or faintest) sources of "
  "the area that the images cover, moved to the epoch where they have proper motion.",
  ["inputs", "histories", "configurations"],
  "Every number and grouping of images, their sources and pointing errors, limits and kinds of fit, and every sequence of "
  "relative and absolute alignments.",
  "Tests exercise a few outcomes with mocked services.",
  ["tweakreg/tweakreg.py", "tweakreg/astrometric_utils.py", "tweakreg/utils.py"],
  [("catalog creation", "tweakreg/astrometric_utils.py"), ("alignment and its refusals", "tweakreg/tweakreg.py"), ("pointing of one image", "tweakreg/utils.py")],
  RP, "TLC explores histories of relative and absolute alignments of up to three groups with pointing errors, missing sources and limits; sampled behaviours and random histories run the real tweakwcs alignment on synthetic telescopes, and corrected pointings are measured on the sky. Catalog services are played by a local HTTP server.")

p("C21", "Requests for processes are honoured within what exists",
  "The number of processes used for a request is at least one and never more than the request allows, the processors that "
  "exist, or the pieces of work; unknown requests mean one process.",
  ["configurations", "inputs"],
  "Every request (word, number, numeric string), number of processors and number of rows.",
  "Tests list a dozen combinations.",
  ["multiprocessing.py"],
  [("interpretation of the request", "multiprocessing.py")],
  RP, "All words, numbers and malformed requests for up to 17 (and some larger) processors and a range of row counts; the pools that ramp fitting and jump detection then create are recorded too.")

p("C22", "Footprints and combined frames contain what they must",
  "The region string of a footprint and the footprint computed from it describe the same vertices; the combined frame of a "
  "set of images contains the footprint of every one of them, at the requested scale and orientation; the combined region "
  "string of a set covers what its images cover, within the window if one is given, and nothing else; and corrections for "
  "velocity and reference angles compose with their inverses.",
  ["inputs", "configurations"],
  "Every set of footprints, anywhere on the sky, any orientation and scale.",
  "Tests check one or two fixed footprints.",
  ["alignment/util.py", "alignment/resample_utils.py", "velocity_aberration.py"],
  [("footprints and combined frames", "alignment/util.py"), ("combined region strings", "alignment/resample_utils.py")],
  RP, "TLC checks two images of several sizes at every offset (down to 0.03 pixel) with and without a window, all replayed in the code with the outline probed on a grid, and the algebra of aberration; random footprints anywhere on the sky, strings, windows, mosaic frames and velocities are recorded and validated. The far sides of a combined frame may end up to a pixel short, which is how the frame is defined.")

p("C23", "Maps of pixels lead to the right places and leave the coordinate systems as they were",
  "A map from the pixels of one image to another gives every pixel the place that the two coordinate systems define, whether it is "
  "computed for all pixels or interpolated from a coarser grid of any step and order, and no place to pixels outside a bounding box "
  "that is in force (on a coarse grid, pixels outside a disregarded box of the first system may be left without); the bounding boxes, disregarded or not, are afterwards what they were, even if the call fails. Images predicted "
  "from another are that image interpolated at those places, or the fill value where it has none; the range of pixels that is "
  "resampled contains all that the bounding box touches and no others; and the mean pixel area is that of the known part.",
  ["inputs", "histories", "faults", "configurations"],
  "Every pair of coordinate systems, boxes, shape and step, and every sequence of calls on shared coordinate systems.",
  "Tests use pure shifts of large square images, steps of 1, 10 and 100, and never a call that fails.",
  ["resample/utils.py", "outlier_detection/utils.py", "resample/resample.py"],
  [("maps of pixels, ranges and areas", "resample/utils.py"), ("predicted images", "outlier_detection/utils.py"), ("the frame of the output", "resample/resample.py")],
  RP, "TLC checks every pair of calls on three shared coordinate systems, with faults, and that interpolation on a coarse grid stays within the bound used; all single calls and a sample of the pairs are replayed. Random rotated, skewed, distorted and partly unknown systems, with generic, gWCS and FITS coordinates, are recorded and validated. Distortions are quadratic, the system mapped onto is linear; float64 images to predict from are refused by the drizzle package and not judged, nor are places within a pixel outside the image.")

if __name__ == "__main__":
    have = [f[:-3].upper() for f in os.listdir(os.path.join(V, "harness")) if f.startswith("c") and f[1:-3].isdigit()]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for q in P:
            f.write(json.dumps({k: v for k, v in q.items() if not k.startswith("_")}) + "\n")
    checks, na = [], []
    for q in P:
        i = q["id"]
        if i in have:
            checks.append({"property": i, "quick_cmd": f"VERIF_TIER=quick bash bin/check {i}",
                           "thorough_cmd": f"VERIF_TIER=thorough bash bin/check {i}", "technique": q["_tech"],
                           "level": q["_level"], "level_note": q["_note"] or "-"})
        else:
            na.append({"property": i, "reason": q["_na"] or "The check of this property is still being built."})
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump({"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": checks, "not_applicable": na,
                   "notes": "TLA+ specifications in tla/, drivers in harness/, shared machinery in lib/; see DESIGN.md."},
                  f, indent=1)
        f.write("\n")
