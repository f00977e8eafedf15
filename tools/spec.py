#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand after editing it)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
C = "src/core/"
P = []
def prop(id, title, statement, over, text, why, files, mech, note, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, na=na))

prop("P01", "Ring buffer: holds the latest values, correct fill level and mean",
     "A ring buffer always holds values that were pushed since it was last cleared, among them the most recent ones pushed since the last resize, as many as its capacity allows, and all channels of a frame stay together. Its fill level is the number of values it holds, shrinking keeps as many as fit, and its mean is their arithmetic mean per channel. Reading beyond the fill level or the channels, or pushing a single value into several channels, is refused.",
     ["histories", "inputs"], "every value pushed and every interleaving of push (scalar and vector), clear and resize, for every capacity and channel count within the bounds",
     "no test touches the buffer; the wrap-around and refill-after-clear states depend on the history",
     [C + "common/xmmCircularbuffer.hpp"], ["write index and full flag advance together on push", "resize keeps the index inside the storage"],
     "capacities and channels up to the harness bounds; real arithmetic for the mean")
prop("P02", "Attributes: limits enforced, listener told once, copies detached",
     "An attribute never holds a value outside its limits: a request outside them is refused with a domain error and leaves value and listener untouched, an accepted request stores the value and notifies the owner's listener exactly once unless made silently. Copying or assigning an attribute carries its value and limits but never its listener, and the destination keeps notifying its own owner. Vector attributes check every element and, when a size is fixed, the size.",
     ["inputs", "histories"], "every requested value and limit of every attribute type, every history of set, limit change, copy and assignment within the bounds",
     "tests set a few legal values; they never assign attributes between owners or request values at and beyond the limits",
     [C + "common/xmmAttribute.hpp", C + "common/xmmAttribute.cpp"], ["limit check before the store", "callback kept out of copies"],
     "histories of a few operations, vectors of up to 3 elements")
prop("P03", "Matrix algebra: product, transpose, inverse, determinant",
     "Products, sums, transposes, inverses and pseudo-inverses of matrices obey their algebraic definitions: entries are those of the textbook formula, a matrix times its inverse is the identity, and the reported determinant is the determinant with its sign. Shape mismatches and singular matrices are refused with an exception. Copies and resized matrices own valid data, and no operation leaks memory or modifies its operands.",
     ["inputs"], "every real entry value (within stated magnitudes) for every shape within the bounds, including entries that force row exchanges",
     "tests never call the matrix class directly; the row-exchange paths need particular values",
     [C + "common/xmmMatrix.hpp"], ["Gauss-Jordan elimination with partial pivoting", "swap of rows and determinant sign", "data iterator into owned storage"],
     "sizes up to 3 (real arithmetic; pivots below the code's own threshold excluded)")
prop("P04", "JSON arrays: exact round trip, malformed nodes refused",
     "A vector or array written to a JSON value and read back is identical, element by element, for every supported element type. A node that is not an array, has the wrong number of elements or holds elements of the wrong kind is refused with an exception that carries a message naming the kind of error and the nodes, and nothing is written outside the target.",
     ["inputs"], "every element value of every type (all finite IEEE numbers, all 32-bit integers) and every node kind and array size within the bounds",
     "the JSON tests read back a handful of well-formed documents",
     [C + "common/xmmJson.hpp", C + "common/xmmJson.cpp"], ["type and size checks before the copy loop", "message assembled when the exception is built"],
     "arrays of up to 4 elements")
prop("P05", "Events: each registered listener told exactly once",
     "When an event is sent, every listener registered at that moment receives that very event exactly once and nobody else does. Registering twice does not duplicate delivery, and a removed listener is never called again, so it may be destroyed.",
     ["histories"], "every history of registrations, removals and notifications within the bounds, any event payload",
     "tests never register more than one listener nor remove one",
     [C + "common/xmmEvents.hpp"], ["callback map keyed by owner"],
     "3 listeners, histories of 5 operations (6 thorough)")
prop("P06", "Phrases: recorded frames are kept exactly, lengths consistent",
     "A phrase returns exactly the frames recorded or connected since it was last cleared or re-dimensioned, at any index and dimension, however long the recording; its length is the shorter of its modalities and it is empty exactly when nothing was recorded. Reading past the end, recording a frame of the wrong size, or an operation that does not fit the phrase's kind is refused with an exception. Shared-memory phrases read the user's buffers and never write or free them; changing a dimension empties the phrase, keeps the input dimension below the dimension, and leaks nothing.",
     ["histories", "inputs"], "every history of record, clear, connect, disconnect and dimension changes within the bounds, all values",
     "tests record short synchronous phrases once; storage growth, asynchronous modalities and re-dimensioning are never exercised",
     [C + "trainingset/xmmPhrase.cpp", C + "trainingset/xmmPhrase.hpp"], ["block-wise reallocation", "trim to the shorter modality", "reset on dimension change"],
     "histories of 5 operations (6 thorough), recordings of up to 600 frames across the growth boundaries, dimension up to 5")
prop("P07", "Phrase copies are complete and independent",
     "A copied or assigned phrase has the same kind, dimensions, label, column names, lengths and values as its source, whatever the target held before. Later changes to or destruction of either one never affect the other, and each notifies only the training set it belongs to. Copies of shared-memory phrases refer to the same user data, which is never written or freed.",
     ["histories", "inputs"], "every kind and content of source and target within the bounds, every later change on either side, either destruction order",
     "tests copy one phrase and compare it; they never change or destroy one of the two",
     [C + "trainingset/xmmPhrase.cpp"], ["deep copy of the capacity", "listener rebinding after copy"],
     "dimension up to 3, up to 3 frames, modalities of different lengths")
prop("P08", "Statistics and rescaling of phrases and training sets",
     "The mean, standard deviation and minimum/maximum of a phrase or of a whole training set are, per dimension, those of all its frames, every frame weighing the same. Rescaling subtracts the offset and multiplies by the gain of its dimension for every value of every frame, and normalising a set uses the set's own mean and standard deviation for all its phrases.",
     ["inputs"], "every frame value, number of frames, grouping into phrases, offset and gain within the bounds, unimodal and bimodal",
     "no test compares statistics; unequal phrase lengths and bimodal phrases are never rescaled",
     [C + "trainingset/xmmPhrase.cpp", C + "trainingset/xmmTrainingSet.cpp"], ["accumulation over phrases and frames", "per-modality addressing"],
     "up to 3 phrases of up to 2 frames, dimension up to 3; real arithmetic")
prop("P09", "Phrases and training sets survive a JSON round trip",
     "Reading back the JSON form of a phrase gives the same kind, dimensions, label, column names, length and values; reading back a training set gives the same phrases at the same indices, labels, classes and column names. The result is fully usable and replaces whatever the target held before.",
     ["inputs", "histories"], "every finite float value, every kind, dimension, length, index and label arrangement within the bounds, fresh or filled targets",
     "the tests round-trip one fixed example each",
     [C + "trainingset/xmmPhrase.cpp", C + "trainingset/xmmTrainingSet.cpp", C + "common/xmmJson.cpp"], ["field-wise serialisation", "rebuild of classes after reading"],
     "up to 3 phrases of up to 3 frames, dimension up to 3; JSON values in memory (text form outside)")
prop("P10", "Training sets: phrases, labels and classes always agree",
     "After any sequence of adding, replacing, relabelling and removing phrases, removing classes, clearing and changing dimensions or column names, a training set contains exactly the phrases added and not removed, its label list is exactly the set of their labels, and each class refers to exactly the phrases with that label. All phrases and classes carry the dimensions and column names of the set. Phrases that left the set no longer affect it.",
     ["histories", "inputs"], "every history of operations and every phrase index within the bounds",
     "tests add phrases in order and never relabel, replace or remove them",
     [C + "trainingset/xmmTrainingSet.cpp"], ["class table rebuilt on every change", "listening to label changes of owned phrases"],
     "histories of 3 operations (4 thorough) after a first phrase, symbolic indices, 3 labels")
prop("P11", "Training set copies are independent and safe to outlive",
     "A copied or assigned training set holds its own copies of all phrases, with the same indices, labels, classes, values, dimensions and column names, whatever the target held before. Any later change on one side leaves the other exactly as it was, relabelling a phrase is seen by its own set only, and either set may be destroyed first, even while the user still holds and relabels its phrases.",
     ["histories", "inputs"], "every arrangement of up to 3 phrases at any indices, every way of copying, every later change within the bounds, either destruction order",
     "tests never copy a training set nor keep a phrase beyond its set",
     [C + "trainingset/xmmTrainingSet.cpp", C + "common/xmmEvents.hpp"], ["deep copy of phrases", "listener removal when a phrase or set goes away"],
     "up to 3 phrases of up to 2 frames")
prop("P12", "Gaussian likelihood: exact density, floored, finite",
     "The likelihood of an observation is the multivariate normal density for the distribution's mean and covariance, raised to a floor of 1e-180, always positive and finite, for full and diagonal covariances. In bimodal mode the joint likelihood equals that of the concatenated observation and the input likelihood is the density of the input marginal. A distribution whose covariance was never inverted or is refused as singular gives no likelihood, and bimodal queries on unimodal distributions are refused.",
     ["inputs"], "every mean, observation and positive definite covariance in the stated ranges; for the bounds, every finite covariance",
     "tests evaluate a few observations with one covariance",
     [C + "distributions/xmmGaussianDistribution.cpp", C + "common/xmmMatrix.hpp"], ["quadratic form with the stored inverse", "floor on underflow and NaN"],
     "dimension up to 3 (real arithmetic, exp abstracted by its axioms); bounds in IEEE arithmetic for dimension 1 (2 thorough, diagonal)")
prop("P13", "Gaussian regression and conditional covariance",
     "For a bimodal gaussian the regression returns the conditional mean of the output given the input, and the output covariance is the conditional covariance; with a diagonal covariance these are the output mean and variances. Regularisation adds exactly the given offsets to the variances and changes nothing else.",
     ["inputs"], "every mean, input, offset and positive definite covariance in the stated ranges",
     "tests check one regression with hand-picked numbers and a tolerance",
     [C + "distributions/xmmGaussianDistribution.cpp"], ["inverse of the input block", "Schur complement"],
     "dimensions (2,1) (3,1) (3,2); real arithmetic")
prop("P14", "Gaussian modes, dimensions, copies and ellipses stay consistent",
     "Requesting a covariance mode keeps the mean and the variances, drops covariances only when going diagonal, and leaves everything unchanged when the mode is already set; changing a dimension always leaves a usable distribution of the new size. Copies, assignments and JSON round trips give the same likelihoods and regressions and are independent of the source. Setting an ellipse stores the covariance with those axes and angle, and reading an ellipse gives axes whose squares are 5.991 times the eigenvalues, the larger first.",
     ["inputs", "histories"], "every mean and covariance in the stated ranges, every sequence of mode requests and dimension changes within the bounds, every ellipse in range",
     "tests never switch modes twice, resize, or use ellipses",
     [C + "distributions/xmmGaussianDistribution.cpp", C + "distributions/xmmGaussianDistribution.hpp"], ["conversion between full and diagonal storage", "reallocation on dimension change", "JSON fields per mode"],
     "dimension up to 3, 3 mode requests, 2 dimension changes; real arithmetic")
prop("P24", "Malformed JSON never corrupts memory or the target",
     "Reading a phrase or training set from any JSON document either succeeds with an object that can be read and extended, or is refused with an exception that leaves the target exactly as it was. It never reads or writes outside its memory and never leaks, whatever the kind, sign or size of the document's fields.",
     ["inputs"], "every document obtained from a valid one by replacing or removing one field, or one field and one count, with any kind of node in the bounds",
     "tests read only documents the library wrote itself",
     [C + "trainingset/xmmPhrase.cpp", C + "trainingset/xmmTrainingSet.cpp", C + "common/xmmJson.cpp"], ["validation before the data is used", "temporary object, then assignment"],
     "node kinds and symbolic counts as listed in the harness")
exec(open(os.path.join(V, "tools", "spec_models.py")).read()) if os.path.exists(os.path.join(V, "tools", "spec_models.py")) else None

P.sort(key=lambda p: p["id"])
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                            "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": m, "where": p["files"][0]} for m in p["mech"]]}}) + "\n")
checks = [{"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"], "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
           "technique": p.get("tech") or "symbolic execution of the compiled code (LLVM bitcode), assertions and memory safety decided by Z3",
           "level": "model_checking", "level_note": p["note"]} for p in P if not p["na"]]
m = {"version": 1, "setup_cmd": "make -s -j8 -C engine", "checks": checks, "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in P if p["na"]]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(checks), "checks")
