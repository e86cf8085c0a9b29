import json, os
head = r'''# Solver-based checking of LEGWORK - design

Deciding method of every property: **symbolic execution of the real Python code of /repo, SMT queries to z3** (cvc5 as a
second solver in the thorough tier).  `properties.jsonl` states the properties, `BOUNDS.md` lists every scenario with its
bounds and every assumption (generated from the harnesses by `tools/gen_bounds.py`), `KNOWN_FINDINGS.txt` the defects
found, `MANIFEST.json` the commands.  All 35 properties are claimed; none is listed as not applicable (parts that are out
of reach are listed below, section 7).

## 1. How a property is decided

`./check.sh CXX quick|thorough` runs `engine/run.py`:

1. **Encoding from source.** `engine/load.py` imports `$LEGWORK_REPO/src/legwork` (default /repo) afresh: each module's
   source is parsed, one rewrite is applied (`v.astype(t)` becomes a call, since ndarray methods cannot be overridden), and
   the module is executed with `numpy`, `astropy.units`, `scipy` and `numba` names shadowed by `engine/npx.py`.  There is no
   hand-written model of LEGWORK: what runs is its code.  Nothing is cached between runs.
2. **Symbolic values.** Inputs are `Sym` objects (`engine/sym.py`) inside numpy object arrays and astropy Quantities, so
   broadcasting, indexing, masks, unit conversion and in-place writes are the real ones.  A `Sym` is a sum of
   coefficient x product of powers (rational exponents) of atoms; atoms are input variables, uninterpreted function values
   (exp, log, tanh, arccos..., splines, integrals, stubs), unit-circle pairs for sin/cos, and named sums (a power of a sum).
   Infinity, -infinity and nan are tracked explicitly.
3. **Paths.** A data dependent decision (`if`, a boolean mask, `np.where`, `minimum`, `sort`, `argmax`, `clip`, ...) forks;
   the explorer (`engine/path.py`) visits every feasible combination depth first.  Infeasible sides are pruned by z3; a side
   the solver cannot decide is kept (never dropped).
4. **Assertions.** `x.close(label, got, want)` etc. turn into the query *path condition and not assertion* - equality up to
   1e-9 relative, because LEGWORK's own constants are floats.  Order: normal form reduces the difference to a constant ->
   sampled refutation (only ever *refutes*) -> z3 linear encoding (monomials as variables with sign and bound facts) ->
   linear + path condition -> non-linear real arithmetic -> the same + path condition.  `unsat` = holds for every value.
5. **Counterexamples** (solver models and refuting samples) are turned into floats and the *same harness* is run by
   `engine/replay.py` in a fresh process on the unpatched package (real numpy, scipy, numba, matplotlib).  Only a failure
   that reproduces there, and that survives rounding-size perturbations of the inputs, prints `VIOLATION` (exit 1); the
   replay file re-runs it (`python -m engine.replay FILE`).
6. **Witnesses**: for explored paths a model of the path condition is replayed too; all assertions must hold on the real
   package (validates the encoding and shows that the path is reachable: no vacuous claims).

**No verdict.** A query without an answer, an operation the engine does not support, an exhausted time or path budget, or a
counterexample that does not reproduce is printed as `UNDECIDED ...` and recorded in the evidence; it is never counted as
proved.  When an operation of changed code is unsupported, the same scenario is additionally run on 40 concrete inputs on the
real package so that gross breakage is still reported; those runs are not counted as verification.  On the unchanged tree the
number of undecided obligations is 0 for every property.  The exit code is 2 only if nothing at all was decided.

**Thorough tier**: the scenarios marked "(thorough)" in BOUNDS.md (more sources, steps, harmonics, all combinations), three
times the time per scenario, and every kept query is posed to cvc5 as well; a disagreement makes the run inconclusive.

**Stand-ins.** Each property isolates what it claims: functions claimed by *another* property are replaced by arbitrary
functions of their arguments (`x.unknown`: same arguments, same value; nothing else is known).  E.g. C24 proves routing for
arbitrary SNR functions, whose values are C19-C22.  Stand-ins bind arguments with the real signature, accept every documented
way of calling, and a stand-in called in a way it cannot interpret gives "no verdict", not an alarm.

## 2. What is specified, against which oracle

| property | decided by | oracle |
|---|---|---|
| C01 C02 C04 | inputs symbolic (masses 1e-3-1e9 Msun, f, a, e over their whole range; scalars and arrays in several units) | closed formulas of Kepler, Peters 1964; inverse round trips; derivative by dual numbers (de/dt, d a/d e) |
| C03 | every n up to the bound, e symbolic, Bessel values free reals | Peters & Mathews eq. 20; F(e) is compared as a rational function |
| C05 | angles as points of unit circles | Cornish & Larson (2003) averages; non-negativity, Cauchy-Schwarz |
| C06 C07 | batches (x, y, z), g symbolic or an interpolant of either sign | quadrupole formula element by element; clip at 0, never cached wrongly across harmonics |
| C08 | circular evolution, every time symbolic incl. just before the merger and after it | Peters 5.9 trajectory |
| C09 | `odeint` replaced by the *flow of the equation it is handed* (value determined by equation, start and elapsed time); the equation itself is compared with Peters 5.13 | one trajectory for every output; order, units, merger avoidance |
| C10 | 1-3 sources, shared/own/absent times, unit and merger clamp | grid from 0 to the requested end, monotone, per-source |
| C11 C12 | `quad` is one uninterpreted number per (integrand, limits); the integrand is compared as an expression | Peters 5.10, 5.14, Mandel/Zwick fit regimes at every eccentricity incl. exact tolerances; batch = each alone |
| C13 | drift formula and threshold symbolic | fractional change <= tolerance, both signs of every comparison |
| C14-C18 | frequencies and mission/arm lengths symbolic, response spline uninterpreted (sign facts measured) | Robson 2019, Huang 2020, Yagi & Seto 2011, the published confusion fits; the settings actually used |
| C19-C22 | sources, frequencies, times symbolic; sensitivity an arbitrary positive function of frequency (samples have slopes -15..15) | sum/integral definitions, harmonic by harmonic; the loudest harmonic |
| C23-C29 | collections of 1-3 sources, every pattern of merged/selected, all optional arguments, histories of calls | per-source values, records, independence of copies, files (h5 round trip through a real temporary file), settings |
| C30 | tables stubbed by arbitrary monotone ones; tolerance 0-0.95 | requested fraction of the luminosity; the strongest harmonic at tabulated eccentricities |
| C31 C32 | recording axes instead of a canvas | exactly the selected points, data, weights, labels, scales |
| C33 | the same calls on snapshots | caller's arrays are bit-identical, a second identical call gives the same answer |
| C34 | one argument at a time, then all, in other units | same physical answer |
| C35 | the shipped verification binaries: catalogue concrete, position/mission symbolic | the catalogue's values, in order; the SNRs it stores; indexing refused |

Where unit tests stop: they evaluate a handful of points; every query above covers all values on a path, all patterns of
masks, all orders of calls within the bounds.

## 3. Bounds common to all

1-3 sources with arbitrary patterns, plus "many"/"long" scenarios of fixed pattern with 4-14 sources or longer grids (so that
code which behaves differently above some size is executed too; elements interact only if the code makes them), 1-4 time
steps in the SNR and evolution harnesses, harmonics up to 3-20 depending on the property, stated in BOUNDS.md.  Real arithmetic:
rounding is outside, except that equalities are checked to 1e-9 and every witness is replayed in floating point (1e-6).
Overflow and underflow of floats are outside (one such defect was found through replay, see C17).

## 4. Engine faults found on the way, and repaired

* `exp` of a very negative constant underflowed to exactly 0 and made a claim trivially true: constants are kept as atoms.
* `_nice()` rounded tiny coefficients (1e-40-sized PSD constants) to 0: the scale is now relative.
* `_reduced` divided out a factor that could be 0 on the path: restricted to factors known positive.
* The sampled noise curve used for refutation had a single shape: it now has a free slope (missed `strongest-not-first`).
* In replay, `close(inf, finite)` held (its tolerance scaled with the infinite side): infinities now equal only themselves.
* A stand-in called in a way it cannot interpret used to be "unknown"; the call is now judged in replay by the real function.
* Witness search by hill climbing starts from the solver's model instead of from the box's centre only.
* C34's stationarity scenario called `evolve_f_orb_circ` instead of `determine_stationarity` (found by a planted bug).

False alarms found by rewriting LEGWORK (two trees with function-level rewrites of all modules, behaviour kept: helper
functions extracted, loops vectorised or unrolled, arguments passed another way) and repaired in the harness: stand-ins of C24
and C28 read `m_c` although `m_1, m_2` are an equally valid way to call; C33's only took keywords.  All 35 checks are quiet on
these trees.

## 5. Genuine defects of LEGWORK

Repaired by "fix:" commits in /repo, and recorded (not suppressed) in KNOWN_FINDINGS.txt:

'''
f = []
for l in open('/verif/KNOWN_FINDINGS.txt'):
    if l.startswith('fixed:'):
        p = l[len('fixed: property='):].strip().split(' ', 2)
        f.append('* %s (%s): %s' % (p[0], p[1], p[2]))
mid = r'''

Recorded as a known finding: C17, `get_confusion_noise(f, "robson19")` can be nan above 2.4 Hz (outside the LISA band, where
`lisa_psd` returns infinity before it is used; a repair would have to choose a convention for the published fit).

Looked at and left alone (unspecified, or a matter of interface rather than of a stated guarantee): `get_t_merge_ecc` mentions
lists but needs arrays; a custom confusion noise function receives frequencies without unit for LISA and DECIGO but with one for
TianQin; `sources[[]]` raises ValueError; the interpolant's returned array is clipped in place; `get_snr(confusion_noise=None)`
means "stored setting" (documented default), so "no noise" must be set in `sc_params`; in-place evolution leaves `snr` as it was;
DECIGO's automatic mission length is 5 yr through `Source` and 4 yr in `power_spectral_density`.

## 6. Planted bugs

Kept in seeded/ (each compiles, passes the stable tests, has a demonstration); "caught by" = the property's own check exits 1.
`tools/plant.py` builds and verifies them.

| bug | property | needs | caught |
|---|---|---|---|
'''
rows = []
missed = set(open('/verif/tools/missed.txt').read().split()) if os.path.exists('/verif/tools/missed.txt') else set()
for s in sorted(os.listdir('/verif/seeded')):
    d = json.load(open('/verif/seeded/%s/meta.json' % s))
    rows.append('| %s | %s | %s | %s |' % (s, d['property'], d['needs'], 'no' if s in missed else d['property']))
tail = r'''

Misses that led to stronger checks: snr-zero-tobs-order (eccentricities now reach 0.995), tobs-compare-value (unit-changing
operations), strongest-not-first (sloped noise), merged-just-before (scenario around_the_merger), stationarity-value (C34),
transition-first-harmonics (transition not tied to the grid), saved-single-precision (the file stand-in now models lossy dtypes,
and a 7-source file), two-harmonics-skipped (routing with a 3000-harmonic table and sources that need exactly two),
explicit-times-shared-source (n_step 1 and long grids), transition-interpolated-noise (frequencies over [1e-10, 1e4] Hz),
kepler-mixed-units (each argument in its own unit), and those of earlier rounds.

## 7. Outside

* Accuracy of scipy's `odeint`, `quad`, spline fits, Bessel functions, astropy's unit tables and coordinate transforms, numba's
  compilation, matplotlib/seaborn rendering: replaced by what they are specified to do.  The *contents* of shipped tables (LISA
  response file, harmonic tables built by `create_harmonics_functions` at full size) are constants, not symbolic.
* Floating-point rounding (section 3), memory and run time, multiprocessing inside `quad` loops.
* Documentation notebooks and simulation scripts.
'''
open('/verif/DESIGN.md', 'w').write(head + '\n'.join(f) + mid + '\n'.join(rows) + tail)
