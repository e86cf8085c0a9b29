"""Writes /verif/properties.jsonl (the single source of the property list)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": ["src/legwork/" + f for f in files],
         "mechanism": [{"name": mech, "where": ", ".join("src/legwork/" + f for f in files)}]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})


p("C01", "Separation and orbital frequency are exact Kepler inverses",
  "For any positive masses, separation and orbital frequency, the two conversions between separation and orbital "
  "frequency satisfy Kepler's third law (2 pi f)^2 a^3 = G (m1 + m2) and undo each other, for scalars and for every "
  "element of an array, whatever units the inputs carry.",
  ["inputs"], "all masses, separations and frequencies in the stated physical ranges, in any of the listed units, scalar or array",
  "the tests compare a handful of hard-coded values in fixed units; the identity must hold for every value and unit",
  ["utils.py"], "the two Kepler conversion functions in utils and their unit simplification")
p("C02", "Chirp mass, decay constant and frequency drift describe one orbital decay",
  "For any masses, frequency and eccentricity the chirp mass equals (m1 m2)^(3/5)/(m1+m2)^(1/5) and the decay constant equals "
  "64/5 G^3/c^5 m1 m2 (m1+m2), both symmetric in the masses, and the drift of the nth harmonic frequency equals n times the "
  "orbital-frequency derivative implied by da/dt = -beta F(e)/a^3 and Kepler's law. A harmonic below 1 is rejected with ValueError.",
  ["inputs"], "all masses, frequencies, eccentricities in [0,1) and harmonics n in the stated ranges",
  "tests check single numbers; agreement of three independently coded formulae is an identity over all inputs",
  ["utils.py"], "chirp_mass, beta, fn_dot, peters_f and the Kepler conversions")
p("C03", "Relative power per harmonic follows Peters & Mathews for every n and e",
  "For every integer harmonic n >= 1 and eccentricity in [0,1) the relative power is the Peters & Mathews (1963) Eq. 20 "
  "combination of Bessel functions, is never negative, and at e = 0 is 1 for n = 2 and 0 for every other n. "
  "The enhancement factor equals (1 + 73/24 e^2 + 37/96 e^4)/(1-e^2)^(7/2), so it is 1 at e = 0, never below 1 and strictly increasing.",
  ["inputs"], "all eccentricities in [0,1) (all real Bessel values), harmonics up to the stated bound and symbolic n",
  "tests compare sums at a few eccentricities with a few percent tolerance; single-harmonic errors and sign hide in that",
  ["utils.py"], "peters_g and peters_f")
p("C04", "The separation-eccentricity track and de/dt are mutually consistent",
  "For any initial separation and eccentricity in (0,1), the track constant and the track function return the initial separation at the "
  "initial eccentricity and follow Peters (1964) Eq. 5.11 at every other eccentricity. Along that track the "
  "coded eccentricity derivative reproduces da/dt = -beta F(e)/a^3, and it is always negative.",
  ["inputs"], "all initial separations, eccentricities in (0,1), decay constants",
  "tests evaluate the pair at a few points; the derivative identity is never tested and must hold for every e",
  ["utils.py", "evol.py"], "c_0, get_a_from_ecc, de_dt")
p("C05", "Detector response matches Cornish & Larson and is a valid power response",
  "For every sky position, polarisation and inclination the orbit-averaged plus and cross responses equal the Cornish & Larson (2003) "
  "expressions, are non-negative, and their sum does not depend on polarisation. The amplitude modulation equals 5/4 of the "
  "inclination-weighted sum of the two, evaluated at the ecliptic co-latitude and longitude of the source, and is non-negative.",
  ["inputs"], "all angles (via sine/cosine pairs on the unit circle), in radians or degrees",
  "tests check averages over random angles; a single wrong term can leave averages unchanged",
  ["utils.py", "strain.py"], "D_*/F_* response functions and amplitude_modulation")
p("C06", "Strain amplitudes have the quadrupole value, shape and mutual relation",
  "For all masses, distances, frequencies, eccentricities and harmonics, the strain equals the quadrupole expression "
  "h_0n^2 = 2^(28/3)/5 (G M_c)^(10/3) (pi f_orb)^(4/3) g(n,e)/(n^2 c^8 D^2) and the characteristic strain obeys h_c^2 fdot_n = f_n^2 h_0^2, "
  "each source, timestep and harmonic independently of the others, in an array of shape (sources, timesteps, harmonics). "
  "Supplying sky position, polarisation and inclination multiplies both by the square root of that source's own amplitude modulation, and a harmonic below 1 raises ValueError.",
  ["inputs"], "all physical inputs, up to the stated numbers of sources, timesteps and harmonics",
  "tests compare the two implementations with one random batch and a loose tolerance",
  ["strain.py", "utils.py"], "h_0_n and h_c_n and their broadcasting over (x, y, z)")
p("C07", "Interpolated harmonic power replaces the exact one and is clipped at zero",
  "When an interpolating function for the relative harmonic power is supplied, both strains equal the exact formula with that function's "
  "value for the same harmonic and eccentricity in place of g(n,e), with negative interpolated values counted as zero, so the strain is always a real, non-negative number.",
  ["inputs", "configurations"], "all values (of either sign) an interpolant can return, all inputs",
  "tests use one well-behaved interpolation table, whose negative values are rare",
  ["strain.py"], "the interpolated_g branches of h_0_n and h_c_n")
p("C08", "Circular inspiral follows Peters at every requested time",
  "For any circular binaries and any requested times, each returned separation satisfies a(t)^4 = max(a_0^4 - 4 beta t, 0) for its own source and "
  "time, orbital frequency is Kepler's for that separation, gravitational-wave frequency is twice it, merged times give separation 0 and the 100 Hz marker, "
  "and the outputs come back in the order requested with one row per source (flat for a single source). Evolving in two stages equals evolving once, and frequency columns without masses are rejected with ValueError.",
  ["inputs", "configurations"], "all masses, separations/frequencies, times before/at/after merger, output selections, up to the stated sources and steps",
  "tests evolve one fixed set of binaries; merged and multi-source mixtures and output orders are mostly untested",
  ["evol.py"], "evol_circ", [("f = 100 Hz", "marker for a merged binary")])
p("C09", "Eccentric inspiral outputs are consistent with one Peters trajectory",
  "For any eccentric binaries the integrator is handed the Peters eccentricity derivative with that source's own constants and initial eccentricity and its times in seconds, "
  "and at every output the separation, orbital frequency and gravitational-wave frequency belong to the same time and the same eccentricity on that source's track, starting at the initial state. "
  "Merger avoidance freezes each source at its last time more than the margin before its own merger, without moving earlier times, and the number of processes does not change any result.",
  ["inputs", "configurations"], "all masses, eccentricities in (0,1), frequencies, requested times relative to merger, output selections, process counts, up to the stated sources and steps",
  "tests check one source against the circular limit and one multi-process run; the clamp and the per-source pairing are not checked",
  ["evol.py"], "evol_ecc, integrate_de_dt, de_dt")
p("C10", "Time grids cover exactly the requested interval for every source",
  "When no explicit times are given, each source gets the requested number of evenly spaced times from 0 to its own evolution time (its merger time by default, a scalar being shared by all). "
  "One-dimensional explicit times are used for every source and two-dimensional ones source by source, values unchanged; explicit times take precedence over an evolution time.",
  ["inputs", "configurations"], "all evolution times and explicit grids, up to the stated number of sources and steps",
  "tests use one grid; per-source evolution times and precedence are not exercised",
  ["evol.py"], "create_timesteps_array")
p("C11", "Merger time uses the correct Peters regime and formula for every eccentricity",
  "For any masses, separation or frequency and any eccentricity in [0,1) the merger time is the Peters (1964) circular value at e = 0, the small-e expression below the small-e tolerance, the large-e expression above "
  "the large-e tolerance, and in between either 12/19 c0^4/beta times the Peters integral from 0 to e (exact) or the circular time times the fitted factor (not exact). "
  "It is always positive, is expressed as a time, and either form of mass and separation input gives the same answer.",
  ["inputs", "configurations"], "all inputs, tolerances, exact or fitted",
  "tests compare a few eccentricities at loose tolerance; regime boundaries and tolerances are continuous parameters",
  ["evol.py"], "get_t_merge_circ, get_t_merge_ecc, t_merge_mandel_fit, check_mass_freq_input")
p("C12", "Merger time of a batch equals the merger time of each source alone",
  "For any batch mixing circular and eccentric sources of every regime, in any order, each element of the merger time array equals what the same source gives when evaluated alone, and never depends on the other sources.",
  ["inputs"], "all batches up to the stated size over all regime combinations",
  "tests use one ordering; each regime is a mask assignment where indices can be crossed",
  ["evol.py"], "mask assignments in get_t_merge_ecc")
p("C13", "Stationary means the fractional frequency change is within tolerance",
  "The predicted final frequency satisfies f^(-8/3) = f_0^(-8/3) - 2^(32/3) pi^(8/3) t (G M_c)^(5/3) F(e)/(5 c^5) for each source and is the merged-frequency marker once that is negative. "
  "A source is labelled stationary exactly when its fractional frequency change over the time is at most the tolerance, whether masses are given as a chirp mass or individually, "
  "and missing masses raise ValueError.",
  ["inputs"], "all masses, frequencies, eccentricities, durations and tolerances, up to the stated batch size",
  "tests check extreme cases only; the boundary is a surface in a six-dimensional space",
  ["evol.py"], "evolve_f_orb_circ, determine_stationarity")
p("C14", "LISA sensitivity follows Robson et al. inside its band and is infinite outside",
  "For every frequency in [1e-7, 2] Hz the LISA sensitivity equals Robson et al. (2019) Eq. 12 with the requested arm length, response function and confusion noise for that frequency and mission length, and is positive. "
  "Outside the band it is infinite, whatever the other options.",
  ["inputs", "configurations"], "all frequencies, arm lengths, mission lengths, both response options, all confusion models",
  "tests compare a few settings at loose tolerance and only check relative ordering",
  ["psd.py"], "lisa_psd, approximate_response_function, load_response_function")
p("C15", "TianQin sensitivity follows Huang et al. with the 10/3 convention",
  "For every positive frequency, arm length and mission length the TianQin sensitivity equals Huang et al. (2020) Eq. 13 multiplied by 10/3 plus the requested confusion noise at that frequency and mission length, is positive, and the response option does not affect it.",
  ["inputs", "configurations"], "all frequencies, arm lengths, mission lengths, confusion models",
  "the tests only check that TianQin differs from LISA in one direction",
  ["psd.py"], "tianqin_psd")
p("C16", "DECIGO sensitivity follows Yagi & Seto inside its band and is infinite outside",
  "For every frequency between the low and high limits (1 mHz to 100 Hz by default) the DECIGO sensitivity equals the sum of the Yagi & Seto shot, radiation-pressure and acceleration noise and the requested confusion noise at that frequency, and is positive; outside the limits it is infinite.",
  ["inputs", "configurations"], "all frequencies, limits and confusion models",
  "the tests evaluate one array",
  ["psd.py"], "decigo_psd")
p("C17", "Confusion noise models return the published fit and are never negative",
  "Each named confusion model returns its published fit for the frequency and mission length asked for (table models use the nearest tabulated mission length; the Karnesis model scales continuously), never negative, with no noise for the empty model. "
  "The Huang model is exactly zero outside [1e-4, 1] Hz, the Thiele model refuses mission lengths other than 4 years and an unknown model name raises ValueError. Every model works element by element.",
  ["inputs", "configurations"], "all frequencies and mission lengths, every model name",
  "tests check a few frequencies for one mission length",
  ["psd.py"], "get_confusion_noise and the four model functions")
p("C18", "Instrument selection applies exactly the requested settings and defaults",
  "Asking for a named instrument's sensitivity gives that instrument's curve with every setting passed through unchanged, 'auto' meaning that instrument's documented arm length, mission length and confusion model. "
  "A custom sensitivity function or custom confusion function is evaluated for the requested mission length and its result used as is; an unknown instrument raises ValueError.",
  ["inputs", "configurations"], "all frequencies, mission lengths, arm lengths, every combination of explicit and 'auto' settings",
  "tests use defaults for most settings; combinations of explicit values are not covered",
  ["psd.py"], "power_spectral_density")
p("C19", "Stationary circular SNR is strain power times time over noise at twice f_orb",
  "For every circular stationary source the SNR equals sqrt(h_0,2^2 t_obs / S_n(2 f_orb)), evaluated for that source alone with the sensitivity the caller selected (an interpolated curve if supplied, otherwise the instrument settings and the same observation time), and with the source's amplitude modulation when a sky position is supplied. "
  "It is inversely proportional to distance.",
  ["inputs", "configurations"], "all physical inputs, up to the stated number of sources, all sensitivity values",
  "tests compare circular with eccentric code on one random batch",
  ["snr.py"], "snr_circ_stationary")
p("C20", "Stationary eccentric SNR is the quadrature sum over the requested harmonics",
  "For every eccentric stationary source the SNR squared equals the sum over n = 1..N of h_0,n^2 t_obs / S_n(n f_orb), each harmonic evaluated at its own frequency with the selected sensitivity, the per-harmonic output returns exactly those terms, "
  "and the reported dominant harmonic is one whose term is largest. At zero eccentricity it equals the circular stationary SNR.",
  ["inputs", "configurations"], "all physical inputs, up to the stated sources and harmonics, all sensitivity values",
  "tests check one batch; harmonic/frequency pairing errors cancel in smooth cases",
  ["snr.py"], "snr_ecc_stationary")
p("C21", "Evolving circular SNR integrates the whole observed inspiral and no more",
  "For every circular evolving source the SNR squared equals the integral (trapezoid rule on the time grid) of h_c,2^2 / (f^2 S_n(f)) over the gravitational-wave frequencies the source passes through from the start until the earlier of the end of observation and one second before its own merger. "
  "Supplying correct merger times or an interpolated curve equal to the exact one does not change the result.",
  ["inputs", "configurations"], "all physical inputs, observation shorter and longer than the merger time, up to the stated sources and steps",
  "tests check one batch of slowly evolving sources",
  ["snr.py", "evol.py"], "snr_circ_evolving")
p("C22", "Evolving eccentric SNR integrates every harmonic along its own trajectory",
  "For every eccentric evolving source the SNR squared equals the sum over n = 1..N of the integral of h_c,n^2 / (f_n^2 S_n(f_n)) over that harmonic's frequencies f_n = n f_orb(t), with eccentricity and frequency taken at the same time, up to the earlier of the end of observation and 0.1 yr before merger. "
  "The per-harmonic output returns exactly those terms and the reported dominant harmonic is one whose term is largest.",
  ["inputs", "configurations"], "all physical inputs and trajectories allowed by the evolution, up to the stated sources, steps and harmonics",
  "tests compare with the stationary case for one batch",
  ["snr.py", "evol.py"], "snr_ecc_evolving")
p("C23", "A source collection is consistent from construction on",
  "Constructing a collection with valid inputs keeps every supplied per-source value (separation and frequency related by Kepler), and its chirp mass and separation always follow the current masses and frequency, including after assigning a separation; positions in any frame are kept as ecliptic ones. "
  "Missing separation and frequency, missing units, unequal lengths, angles without a position, or a position with an eccentric source are rejected; missing inclinations and polarisations are drawn in [0, pi/2] (uniform in cosine) and [0, pi], one per source.",
  ["inputs", "configurations"], "all input values, combinations of optional arguments, random draws",
  "the source tests cannot run without packaged data; they check a few argument combinations",
  ["source.py"], "Source.__init__, a property, m_c property")
p("C24", "Every source is analysed by exactly one correct SNR method",
  "Circular/eccentric and stationary/evolving selections are complementary and match the eccentricity and stationarity tolerances for the observation time and instrument in force. The overall SNR gives each unmerged selected source the SNR of its own class computed from its own properties with enough harmonics for its eccentricity, gives 0 to merged and unselected sources, "
  "returns values in source order, and records SNR and dominant harmonic for the same source.",
  ["inputs", "configurations"], "all mixes of class membership, merged flags and masks up to the stated number of sources, all values of the underlying SNR functions",
  "existing tests need packaged data and check one random population",
  ["source.py"], "get_source_mask, get_snr, get_snr_stationary, get_snr_evolving")
p("C25", "Collection strains are the per-source strains, zero for merged sources",
  "The strain and characteristic strain of a collection equal, for each selected source and requested harmonic, the strain of that source's own parameters (with its own position, polarisation and inclination if set), merged sources have strain exactly 0, and the rows follow the order of the selected sources.",
  ["inputs", "configurations"], "all masks and merged flags up to the stated number of sources, all strain values",
  "tests check one mask; merged sources with masks and positions are not covered",
  ["source.py"], "get_h_0_n, get_h_c_n")
p("C26", "Indexing a collection returns the same sources, independent of the original",
  "Indexing with any integer (negative too), slice, integer list or boolean mask of the right length gives a new collection of the same kind whose every per-source attribute is the original's at those positions in that order, with all settings equal. "
  "Later changes to sensitivity settings or tolerances of one do not affect the other, and invalid indices are rejected.",
  ["inputs", "histories"], "all index expressions up to the stated number of sources, with any optional attributes set or unset, followed by setting changes",
  "tests use a few masks on one collection; mixing optional attributes and later changes is combinatorial",
  ["source.py"], "Source.__getitem__, Source.copy")
p("C27", "Saving and loading a collection loses nothing",
  "Loading a saved collection gives a collection of the same kind with every per-source value and unit, optional attribute (present or absent), tolerance, process count, interpolation choice and sensitivity setting equal to what was saved, except custom functions which revert to defaults. "
  "Saving onto an existing file without permission to overwrite raises FileExistsError and leaves that file untouched; loading a missing file raises FileNotFoundError.",
  ["inputs", "configurations"], "all values, units and combinations of optional attributes and settings",
  "tests save one or two collections; each optional attribute and setting multiplies the cases",
  ["source.py"], "save, from_file, _write_dataset, _read_dataset")
p("C28", "The sensitivity curve in use always matches the current settings",
  "After any sequence of changes to a collection's sensitivity settings through the mapping interface, by reassigning it, or through arguments of an SNR computation, the interpolated curve used is the one for the current settings (infinite-noise value outside the interpolation range), and no curve is used when interpolation is off; a change for which no curve can be computed leaves both as they were. "
  "Settings that are not sensitivity settings are rejected and no setting can be removed.",
  ["histories", "configurations"], "all sequences of mapping operations up to the stated length, all setting values",
  "tests try single operations; stale curves appear after particular sequences",
  ["source.py"], "SensitivityCurveParams, sc_params setter, set_sc", [("sc_params", "current settings"), ("sc", "interpolated curve")])
p("C29", "Evolving a collection moves every source to its own later state",
  "Evolving a collection by a time (common or per source) gives each unmerged source the frequency and eccentricity of its own inspiral at that time, marks exactly the sources whose merger time is not later than it as merged (frequency 100 Hz, merger time 0), and reduces every remaining merger time by the elapsed time. "
  "Creating a new collection gives the same result, keeps all other properties and settings, and leaves the original unchanged; merger times of merged or unselected sources are reported as 0.",
  ["inputs", "histories"], "all mixes of circular/eccentric/merged sources up to the stated number, all times, both modes",
  "tests evolve one population once",
  ["source.py", "evol.py"], "evolve_sources, get_merger_time")
p("C30", "Harmonic counts capture the requested fraction of the luminosity",
  "For any luminosity tolerance the number of harmonics required never decreases with eccentricity, is at least 2, and at each tabulated eccentricity is the smallest count (given those below it) whose summed relative power reaches (1 - tolerance) of the enhancement factor or the largest available. The strongest-harmonic function gives, at each tabulated eccentricity, the harmonic with the largest relative power. "
  "The circular/eccentric transition is the smallest grid eccentricity whose second harmonic alone misses that fraction, and changing the tolerance updates both.",
  ["inputs", "configurations"], "all tolerances and all tables of relative power up to the stated size",
  "tests check a single tolerance with the packaged table",
  ["source.py"], "create_harmonics_functions, find_eccentric_transition, gw_lum_tol")
p("C31", "Plotted sources sit at their SNR above the sensitivity curve",
  "Plotting stationary sources draws exactly the sources above the cutoff, each with its own weight, at its dominant frequency and at a height such that height divided by the plotted sensitivity curve at that frequency equals its SNR, in either amplitude convention. "
  "The sensitivity curve drawn is the selected instrument's with the same settings, and plotting a collection leaves merged and evolving sources out.",
  ["inputs", "configurations"], "all SNRs, frequencies, cutoffs, weights, both y conventions, up to the stated number of sources",
  "plot tests only check that plotting does not raise",
  ["visualisation.py", "source.py"], "plot_sensitivity_curve, plot_sources_on_sc (both)")
p("C32", "Distribution plots show exactly the selected data",
  "Plotting one or two variables of a collection passes exactly the values of the named variables for the selected, unmerged sources (merged ones too if asked) in source order, with the weights of those same sources, applying the logarithm or log axes only when asked and only to the requested axes. "
  "Unknown or not yet computed variables are rejected with ValueError.",
  ["inputs", "configurations"], "all masks, merged flags, weights and log options up to the stated number of sources",
  "plot tests only check that plotting does not raise",
  ["visualisation.py", "source.py"], "plot_source_variables, plot_1D_dist, plot_2D_dist")
p("C33", "Computations never modify the caller's arrays",
  "Computing strains, merger times, evolutions, sensitivities or SNRs, or constructing a collection, leaves every array, list and mapping passed in by the caller with exactly the values it had before, so repeating the same call with the same objects gives the same answer.",
  ["inputs", "histories"], "all input values, every public function, up to the stated sizes",
  "tests rarely reuse inputs after a call and never compare them",
  ["evol.py", "strain.py", "snr.py", "psd.py", "source.py"], "in-place assignments to arrays derived from arguments")
p("C34", "Results do not depend on the units the caller chooses",
  "Expressing the same masses, distances, separations, frequencies, times and angles in different compatible units gives the same physical result from every public calculation.",
  ["inputs", "configurations"], "all values, the listed unit choices for each argument",
  "tests pass each quantity in one unit almost everywhere",
  ["utils.py", "strain.py", "evol.py", "psd.py", "snr.py", "source.py"], "unit conversion and unit stripping points")
p("C35", "The verification binaries are the catalogue's binaries",
  "The verification binaries are a circular collection with one source per catalogue entry, in order: its masses, distance, inclination, label and published SNR, an orbital frequency of half the catalogue's gravitational-wave frequency, and the ecliptic position of its galactic coordinates, with the default sensitivity settings and a polarisation drawn in [0, pi]. "
  "SNRs computed for them use each binary's own values, the published SNRs stay as they are, and taking subsets is refused.",
  ["inputs"], "all catalogues up to the stated number of binaries, in any units",
  "the packaged catalogue is one table, and the tests that use it cannot run without it",
  ["source.py"], "VerificationBinaries")
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
