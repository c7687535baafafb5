#!/usr/bin/env python3
"""known_findings.json: open findings (matched by key) and repaired defects (informative, suppress nothing)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FINDINGS = [
 {"property": "C01", "key": "vector-by-value-default-target",
  "what": "a function that takes or returns by value a vector wider than the registers of the default target (e.g. 32-byte vectors without -march=native) and calls across a module boundary is miscompiled: the pass copies the wrapper's target-cpu/target-features to instrumented functions, which changes their calling convention"},
 {"property": "C25", "key": "relative-zero-average", "what": "vfc_ci test fails on (or misjudges) a relative check whose samples have a zero average: src/tools/ci/test_data_processing.py, apply_data_pocessing divides by the average (not repaired: the file is named like a test)"},
 {"property": "C25", "key": "relative-zero-reference", "what": "vfc_ci test fails on (or misjudges) a relative check of a deterministic backend whose reference value is zero: src/tools/ci/test_data_processing.py, validate_deterministic_probe divides by the reference (not repaired: the file is named like a test)"},
]
FIXED = [l.split(" ", 2) for l in """C03 1c9090f the result of a vector operation whose wrapper returns another type was dropped: the native value was used
C05 a93eb56 unordered comparisons (ueq, ugt, ...) of ordered operands always gave true in the ieee backend
C05 7f83599 two-lane float vector comparisons crashed the compiler or gave a wrong mask
C07 5c70c37 VFC_BACKENDS in the environment was modified (children saw a truncated list)
C18 dc2e05d one element too few for the backend's argv (write past the end)
C22 1c27ecb VFC_DDEBUG_GEN left the tail of a longer older file
C27 33435ce the hashmap found items by slot instead of key: entries lost or mixed after collisions
C16 10f1725 the exponent of the cancellation noise wrapped for tiny results
C08 cda8bf8 the exponent of the MCA noise wrapped below the format's range
C09 8e4e1f2 mca_int perturbed results at precisions beyond the format
C02 5c66df0 fma was rounded twice in the MCA backends' ieee mode
C18 aa4a99e shift by a negative count in VPREC at full precision
C14 7caaafc VPREC subnormals ignored the absolute error threshold
C20 a279065 indirect calls crashed function instrumentation
C20 e420943 intrinsics with immediate arguments gave invalid IR under function instrumentation
C20 1a1fc40 arrays passed to functions had a wrong size or type
C06 d006373 the second backend of a chain read a consumed va_list at function entry
C21 094bd7e only some elements of arrays were rounded
C21 d85eb2a the caller's precision was not restored through functions without floating point
C18 91ee431 unbounded strings read from the VPREC profile
C28 f94faae .c++ files were not recognised
C28 d6048e0 arguments were not quoted for the shell
C29 903caa0 vfc_precexp wrote argument lines with 6 fields, the backend reads 7
C29 d465586 vfc_precexp looped for ever when full precision is not enough
C29 818dad8 vfc_precexp used wrong identifiers for pointer types
C23 15bba76 parallel delta-debug runs: only some samples were compared
C23 31d1506 undefined name in an error path of the delta-debug tool
C23 cbd79f8 an integer INTERFLOP_DD_DICHO_TAB was refused
C12 86d1fb5 threads that start in the same microsecond got related seeds
C03 e7b505d local 512-bit vectors were split when passed to the wrapper (-march=native on AVX512): garbage operands
C04 16c451e absolute module names in inclusion/exclusion files did not match sources given as ./file
C06 386e93c a second VPREC backend in the chain freed the buffers of the first: crash at the end
C01 ee6af01 variadic functions and functions with variable length arrays were miscompiled by --inst-func
C01 683d2b4 loops on vectors larger than the registers (16 doubles) overflowed the stack: one copy of the operands allocated per execution
C24 81b2a45 a probe whose name has the same hash as another one overwrote it
C25 cffc951 vfc_ci test crashed on non-finite probe values and lost probes named like missing values (nan, NA)
C25 0373bff the reference value of a deterministic probe was taken by row, so from another probe when the reference run had other probes
C25 c18d2c8 the checks of a deterministic backend all passed when their thresholds added up to zero
C23 eca0089 the default search reported nothing for a program with one operation
C23 a7af90c links to sets of an earlier session stayed among the results
C22 081d257 the fma filtered out by delta-debug was computed as a product and a sum, rounded twice
C22 3a9ffca the casts ignored the inclusion and exclusion lists and were never listed
C22 ecd94a0 vector operations were not sites of their own: listed at (and filtered by) an address inside the wrapper
C07 e518cb7 a stray word among the options of a backend was taken as the binary32 precision
C07 cbf3cd5 numbers followed by other characters were accepted as option values (--seed=abc was 0, --tolerance=1e5 was 1)
C07 5e4cb19 option values beyond the integers were truncated (--precision-binary64=4294967306 was 10)
C07 4ace729 the documented preset binary64 of vprec was refused
C07 032fc81 sparsities above one (mca) or nan (mca, mca_int) were accepted
C07 0beb8f2 mca_int ignored VFC_BACKENDS_SILENT_LOAD
C18 04236c0 a VFC_BACKENDS_LOGFILE longer than 1000 characters overflowed a buffer
C18 e79afbb a profile with fewer arguments than the program, other types or impossible formats led out of bounds or to undefined shifts; malformed lines were ignored
C20 6f7cfa4 bounds of arguments beyond the integers were recorded as INT_MIN
C22 5473612 lines longer than 2047 characters of the delta-debug filters (C++ names) were cut in pieces
C20 416cb68 the infinities and the NaNs of the arguments were taken for numbers and recorded as bounds
C18 06af1a6 VPREC shifted by a negative count when half an ulp is below the smallest subnormal
C18 77d278d the exponent of the noise of mca overflowed for results at the ends of the range and extreme precisions
C18 ecf5957 VPREC shifted the 52-bit mantissa field by its width at full precision
C18 2eaaecc the delta-debug filters did pointer arithmetic outside any object
C18 5327077 the number of calls read from a profile overflowed
C18 798b383 an extreme --max-abs-error-exponent overflowed the exponents of VPREC and led to shifts beyond the width
C29 7c5448d one of the modes offered by vfc_precexp (all) is refused by VPREC and full could not be asked for
C29 1b79b31 vfc_precexp blocked for ever on programs that print more than a pipe holds (stdout was a pipe nobody read)
C29 dfee695 the maximum execution time of vfc_precexp was never applied (local variable, seconds/milliseconds mix, children not killed)
C28 87d2145 options of the driver that end like a source file (-DNAME=file.c) were compiled as sources and lost, and the -l options were not quoted
C28 ad47d3b the form -ofile was given to the intermediate compilations, so that the object went to the wrong file and the link failed
C28 18feac6 -MD and -MMD left a dependency file named after the intermediate file, with its name as target
C30 7702893 the report could not be opened with the Bokeh and pandas versions the project allows (missing import, removed arguments and classes)
C30 d4f63fb repositories and branches of the same name were mixed in the report
C30 8801c9d the maximum number of files kept arbitrary runs and not the most recent ones
C30 7e9ec66 the checks shown were not always those of the selected run
C30 8d133e5 the outlier filter removed regular runs and kept outliers of some series
C30 4f42c00 a change of repository left views of the previous one
C30 c73cfe6 options of vfc_ci serve with special characters or trailing components were altered by the shell and path normalisation
C06 07ced6c with instrumented shared libraries the backends were finalised once per object (counts printed twice, double frees) and function instrumentation crashed at the first call
C31 d9f74ce vfc_vtk failed on current Python (Element.copy), gave 0 digits to negative values, mixed arrays of the same name, ignored Float64 arrays, and -r failed on directories
C32 e081577 vfc_report (entry point) always failed, ignored the selected functions, showed the combined exploration as operations only, mislabelled pointers and mixed the images of files with the same name
C22 c5ad3ce VFC_DDEBUG_GEN in a program with threads crashed, hung or lost sites (unsynchronised insertion)
C33 e6d1378 vfc_ci setup committed and published the untracked files of the work tree
C33 ea0cc11 vfc_ci setup reported success when the remote refused the pushes
C33 76f0e5e the GitLab workflow pushed the results to a wrong address (proj.git.git, or any SSH remote)
C33 8a0b196 the GitHub workflow named a branch such as 2.0 or on by another value
C33 4fb4eb1 the GitLab workflow took the address of the first remote instead of origin
C33 55af025 vfc_ci setup, run again, removed the earlier results from the CI branch
C30 fb9b234 runs without commit of the same age had the same name when another run was between them: one could not be selected
C22 0e2e9f1 generating the delta-debug list waited for any child: a program that leaves a failed child unwaited, or ignores SIGCHLD, aborted at exit and wrote no list""".split("\n")]
with open(V + "/known_findings.json", "w") as f:
    json.dump({"findings": FINDINGS, "fixed": ["fixed: property=%s %s %s" % tuple(x) for x in FIXED]}, f, indent=1)
    f.write("\n")
