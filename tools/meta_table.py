prop("W01", "Wilson coefficient values survive every representation",
     "Converting complex or real coefficient values to the WCxf value form and reading them back through a WC object (dictionary, item access, data frame) returns exactly the same numbers, with real and imaginary parts in their places. All accepted written forms (number, Re/Im, only Re, only Im, numeric text) mean the same; coefficients that are not listed are zero, and reading never changes the object. Values written are plain Python floats, whatever number type was given.",
     ["inputs"], "all real and complex values, all names (any pattern of equal names), all accepted forms of a value, all orders of access",
     "Tests read two hand-written coefficients of one file; exactness, small imaginary parts, missing parts and the order of cached accesses are not sampled.",
     ["wilson/wcxf/classes.py"],
     [("value conversion", "WC.dict2values, WC._to_complex_dict, WC._to_number"), ("cached views", "WC.dict, WC.df, WC.__getitem__")],
     "values symbolic without restriction up to 1e3; up to six coefficients; every representation enumerated as a symbolic choice")
prop("W02", "EFT and basis definitions: inheritance, registries, validation",
     "A basis consists of its parent's sectors overridden by its own (the parent stays as it was), looking up an EFT, basis, translator or matcher gives the object last registered under exactly that name, and the lists of known bases and translators contain exactly the registered ones. Validating a basis succeeds exactly if its EFT exists, all its sectors belong to the EFT and no coefficient occurs in two sectors; validating a coefficient file succeeds exactly if EFT and basis exist and every coefficient belongs to the basis. Failures raise ValueError (AssertionError for unknown coefficients).",
     ["inputs", "configurations"], "all assignments of names to EFTs, bases, sectors and coefficients (every pattern of coincidences among up to eight names)",
     "Tests use three fixed files whose names never collide; coincidences (same sector in parent and child, same basis name in two EFTs) are not covered.",
     ["wilson/wcxf/classes.py"],
     [("inheritance", "Basis.__init__"), ("registry", "NamedInstanceClass"), ("validation", "Basis.validate, WC.validate"), ("listings", "EFT.known_bases, known_translators, Basis.all_wcs")],
     "names symbolic, all equality patterns decided by the solver; at most 3 bases/sectors/translators; LaTeX verdict is an input")
prop("W03", "Translation and matching requests: dispatch, hand-over, result",
     "Asking a WC object to translate to another basis or match to another EFT calls exactly the registered function for that pair, once, with the object's values and scale and the given parameters and sectors; the result has the requested EFT and basis, the unchanged scale, and exactly the non-zero values the function returned. A request for the basis (and EFT) the object is already in returns the object itself, a pair without registered function raises ValueError. The input object is never modified.",
     ["inputs", "configurations"], "all values returned (zero included), all scales, all patterns of EFT and basis names, with and without parameters and sectors",
     "Tests run one identity translator and one matcher on one file; wrong-name, zero-value, sector and parameter hand-over cases are not sampled.",
     ["wilson/wcxf/classes.py"],
     [("entry points", "WC.translate, WC.match"), ("wrapping", "Translator.translate, Matcher.match"), ("registration", "translator, matcher decorators")],
     "values, scale and names symbolic; up to three input and three output coefficients; two registered functions")
prop("W04", "Writing to JSON or YAML and reading back changes nothing",
     "A WC object written with dump in either format, to a string or stream, with any formatting option, and loaded again has the same EFT, basis, scale, metadata and exactly the same coefficient values, whether or not its values were accessed before; the same holds for EFT and basis files and for conversion between the formats. Unknown formats raise ValueError. A Wilson object made from a dictionary, a WC object or a file holds exactly these values, and one with an unknown coefficient, basis or EFT is refused.",
     ["inputs", "configurations"], "all values and scales, both formats, all transports and options, with and without prior access",
     "Tests only check that dump returns a string and load one fixed file.",
     ["wilson/wcxf/classes.py", "wilson/wcxf/converters/yamljson.py", "wilson/classes.py"],
     [("dump and load", "WCxf.dump, WCxf.load, _load_yaml_json, _dump_json"), ("conversion", "convert_json, convert_yaml"), ("constructors", "Wilson.__init__, from_wc, load_wc")],
     "values and scale symbolic, carried through the real json/yaml code as tokens; 4 coefficients")
prop("W05", "The command line tools do what the library calls do",
     "wcxf convert, translate, match and validate, wcxf2eos, wcxf2smeftsim, wcxf2dsixtools and dsixtools2wcxf read the input from the file or standard input, apply exactly the library call they stand for with the options given (basis, EFT, format, prefix, model set, input scheme, cutoff scale) or the documented defaults, and write its full result to the output asked for; values survive unchanged, invalid files, bases and options are refused without output.",
     ["inputs", "configurations"], "all values and scales, every combination of sub-command, options, input and output kind",
     "No test runs the command line tools.",
     ["wilson/wcxf/cli.py", "wilson/wcxf/converters/yamljson.py"],
     [("tools", "cli.wcxf_cli, eos, smeftsim, wcxf2dsixtools, dsixtools2wcxf"), ("conversion", "yamljson")],
     "numbers travel through json and yaml as tokens; the converters are recorders, EOS is end to end")
prop("E01", "EOS parameters are SM value plus the matching new-physics part",
     "For every EOS parameter of the SM files, central, min and max are the SM central value plus the real (Re), imaginary (Im) or full (real coefficients) part of the coefficient of that name, and plus nothing when the coefficient is absent; exactly the parameters of the SM files appear, in their order. Charged-current parameters use the common electron and muon coefficient, and ValueError is raised if the two differ. SM values come from exactly the parameter files marked as relevant.",
     ["inputs", "configurations"], "all coefficient and SM values, all subsets of coefficients present, all relevance markings of three files",
     "Tests use one point with two universal coefficients and one non-universal point.",
     ["wilson/wcxf/converters/eos.py"],
     [("new-physics part", "get_eos_np"), ("sum", "wcxf2eos"), ("SM files", "get_sm_wcs")],
     "eight parameter names, presence flags and values symbolic")
prop("Q01", "Running coupling and quark masses follow their defining rules",
     "alpha_s and the running b, c and s masses equal the given input at the scale and flavour number for which it is given, for any input, and elsewhere are the result of running from there with decoupling at the documented thresholds (4.8, 1.3, 170 GeV) to the requested number of flavours at the requested loop order. Non-positive scales, flavour numbers without a rule and failed running raise ValueError. Earlier calls never influence later results.",
     ["inputs", "histories"], "all positive scales, reference masses and couplings, flavour numbers 3 to 6 and invalid ones, loop orders 1 to 4, sequences of three calls",
     "Tests compare eight numbers at fixed points with default inputs; other inputs, loop orders, cached histories and most flavour/threshold paths are not sampled.",
     ["wilson/util/qcd.py"],
     [("coupling", "alpha_s"), ("masses", "m_b, m_c, m_s"), ("caches", "lru_cache decorators")],
     "the compiled rundec library is an uninterpreted function; its numerics are outside")
prop("U01", "Coefficient arrays, vectors and WCxf dictionaries agree",
     "Converting WCxf coefficients to flavour arrays and back, to non-redundant symmetrised arrays and back, and arrays to one vector and back are identities for every coefficient of the SMEFT Warsaw and WET JMS bases; absent coefficients are zero. Symmetrising gives arrays with the index symmetries of the operators (hermiticity, exchange and Fierz relations), leaves arrays that have them as they are, and weighs every operator once. Inputs are not changed.",
     ["inputs"], "all complex values of all 1635 SMEFT and 2257 WET coefficients and all parameter vectors at once",
     "Tests pick single coefficients with random numbers; wrong factors for particular index patterns escape.",
     ["wilson/util/common.py", "wilson/util/__init__.py", "wilson/util/smeft_warsaw.py", "wilson/util/wet_jms.py"],
     [("array forms", "EFTutil.wcxf2arrays, arrays2wcxf, wcxf2arrays_symmetrized, arrays2wcxf_nonred"), ("symmetries", "EFTutil.symmetrize and symmetrize_* functions"), ("vectors", "C_array2dict, C_dict2array")],
     "three generations, all coefficients symbolic at once; index-exchange weight of the dimension-5 operator llphiphi excluded")
prop("T01", "SMEFT flavour bases: rotations of every field and their inverses",
     "Translating between the Warsaw and Warsaw up bases rotates every left-handed quark doublet index of every operator with the CKM matrix of the given (or default) parameters, conjugated as the field is, and nothing else; going there and back is the identity. Both flavour-rotation functions rotate every index of every operator (and of the Yukawa matrices) with the matrix of its field. The Warsaw mass basis rotates the doublet index of the up-type dipole and Yukawa-like operators only and makes the Weinberg operator diagonal with its singular values.",
     ["inputs"], "all complex values of all coefficients, arbitrary rotation matrices for the five fields, default and overridden parameters",
     "Tests translate one set of random values with default parameters and compare a few of them; wrong conjugation or field of one index of one of 60 operators is not visible.",
     ["wilson/translate/smeft.py", "wilson/util/smeft_warsaw.py", "wilson/run/smeft/classes.py"],
     [("basis translators", "warsaw_to_warsaw_up, warsaw_up_to_warsaw, warsaw_to_warsawmass"), ("flavour rotations", "smeft_warsaw.flavor_rotation, SMEFT._flavor_rotation")],
     "three generations, all coefficients symbolic at once; inverse checked with the actual CKM matrix at three parameter points; ckmutil is outside")
prop("T02", "Higgs-Warsaw up basis: couplings of the Lagrangian, invertible, linear",
     "Translating Warsaw up coefficients to the Higgs-Warsaw up basis and back, and the other way round, gives the coefficients one started with, for any values and for any SM parameters given; the same holds for the route through the Warsaw basis. Coefficients that occur in both bases are unchanged except those defined to mix, real coefficients stay real, missing coefficients count as zero and the translation is linear. The Higgs basis coefficients are the corrections to W, Z and Higgs boson couplings that the Warsaw basis Lagrangian gives at first order when alpha_e, G_F, m_Z and m_h are the inputs, with down quarks in their mass basis. Input and parameters are not modified.",
     ["inputs"], "all values of all coefficients at once, default, partly and completely overridden parameters",
     "Tests check one round trip with random real numbers at default parameters.",
     ["wilson/translate/smeft_higgs.py", "wilson/translate/__init__.py"],
     [("translators", "higgslike_to_warsaw_up, warsaw_up_to_higgslike"), ("through Warsaw", "translate.__init__")],
     "SM parameters at three points; all coefficients symbolic")
prop("T03", "WET basis translators are invertible and leave their input alone",
     "Translating Bern, flavio or FlavorKit coefficients of WET, WET-4 or WET-3 to JMS and back gives the coefficients one started with; translating JMS coefficients to one of these and back gives each coefficient unchanged, or nothing where the other basis has no such operator. FlavorKit coefficients, and flavio's lepton flavour violating, flavour-diagonal and neutrino coefficients, are those of the JMS operators with the same fields, chiralities and flavours as their names say, in one normalisation for all. Real (hermitian) coefficients stay real. Coefficients and parameters passed in are not modified.",
     ["inputs"], "all values of all coefficients at once, all scales, default, partly and completely overridden parameters, any CKM matrix and QCD running",
     "Tests compare a few single coefficients with random values at default parameters; index, conjugation and factor errors for particular flavours escape.",
     ["wilson/translate/wet.py", "wilson/translate/__init__.py", "wilson/util/wet_jms.py", "wilson/data/flavio_jms_lfv.json", "wilson/data/flavio_jms_vii.json", "wilson/data/flavio_jms_nunull.json", "wilson/data/flavorkit_jms.json", "wilson/data/flavorkit_jms_conj.json"],
     [("translators", "Bern_to_JMS, JMS_to_Bern, flavio_to_JMS, JMS_to_flavio, FlavorKit_to_JMS, JMS_to_FlavorKit"), ("parameters", "get_parameters")],
     "all coefficients symbolic at once; rundec and CKM parametrisation uninterpreted")
prop("T04", "WET translators agree on every route, are linear, respect sectors",
     "Every translation between Bern, flavio and FlavorKit gives the same as going through JMS, and the translators of WET-4 and WET-3 give the same as those of WET. Translations are linear in the coefficients, with missing coefficients counting as zero. Restricted to sectors, a translation gives for those sectors what it gives without restriction.",
     ["inputs", "configurations"], "all values of all coefficients at once, every single sector and three combinations, default and overridden parameters",
     "Tests check that results have no missing names; direct and indirect routes and sector restriction are not compared.",
     ["wilson/translate/wet.py", "wilson/translate/__init__.py", "wilson/util/wet_jms.py"],
     [("direct translators", "Bern_to_flavio, flavio_to_Bern"), ("sectors", "JMS_to_flavio, flavio_to_JMS sectors argument"), ("smaller theories", "translate.__init__")],
     "all coefficients symbolic at once; rundec and CKM parametrisation uninterpreted")
prop("T05", "EOS and formflavor output agrees with flavio, Bern and JMS",
     "The EOS coefficients (real and imaginary parts as real numbers, CKM normalisation included) equal the flavio and Bern coefficients of the same operators in their documented normalisation, and the b->s four-quark coefficients c1 to c6 are those of the Hamiltonian they are defined by. The formflavor semileptonic, dipole and vector coefficients equal the flavio, Bern or JMS coefficients of the same operators; its Delta F=2 coefficients transform under quark phases and parity as their operators do. Both translations are linear and may be restricted to sectors.",
     ["inputs"], "all values of all JMS coefficients at once, any CKM matrix, default and overridden parameters",
     "Tests check that the outputs exist and are not NaN.",
     ["wilson/translate/wet.py"],
     [("EOS", "JMS_to_EOS, Fierz_to_EOS_lep, Fierz_to_EOS_chrom, _Fierz_to_EOS_V, _Fierz_to_EOS_III"), ("formflavor", "JMS_to_FormFlavor and helpers")],
     "c1 to c6 on the span of the six operators; scalar and tensor Delta F=2 formflavor coefficients up to a convention (covariance only)")
prop("M01", "Tree-level SMEFT-WET matching equals the effective Lagrangian",
     "Matching SMEFT Warsaw (or Warsaw up) coefficients at tree level gives, to first order, the contact terms plus Z and W exchange with the shifted couplings, including the shifts of the electroweak input relations, for every JMS coefficient and for the input parameters given (defaults where none). Every offered route (from Warsaw or Warsaw up, to JMS, flavio, EOS or Bern) gives what matching and translating step by step with these parameters gives. Vanishing coefficients give vanishing coefficients; coefficients and parameters passed in are not modified.",
     ["inputs"], "all values of all Warsaw coefficients at once (first order, or any size where they enter linearly), three parameter sets, all parameters symbolic for vanishing input",
     "Tests match single operators and mostly look at whether names exist; signs, flavour indices, conjugations and parameter hand-over of most operators are not compared with anything.",
     ["wilson/match/smeft_tree.py", "wilson/match/smeft.py", "wilson/match/__init__.py"],
     [("matching formulas", "smeft_tree.match_all_array"), ("rotation to the mass basis", "smeft_tree.match_all"), ("routes", "match/__init__.py")],
     "three parameter sets; all coefficients symbolic; CKM parametrisation outside")
prop("M02", "Loop-level matching is linear, covariant and added as requested",
     "The one-loop matching correction is linear in the coefficients, vanishes for vanishing coefficients and, like the tree-level one, is covariant under CP and under changes of the phases of all quark and lepton fields, i.e. transforming the coefficients and the CKM matrix gives the transformed result. The sum of both is returned exactly if loop order 1 is requested, and the tree-level result otherwise.",
     ["inputs", "configurations"], "all values of all Warsaw coefficients at once, three sets of phases and CP, any loop order",
     "Tests compare a few numbers for real coefficients; complex conjugations and CKM index order in hundreds of terms are not visible.",
     ["wilson/match/smeft_loop.py", "wilson/match/smeft.py", "wilson/match/smeft_tree.py"],
     [("loop formulas", "smeft_loop.match_all_array"), ("sum", "match_all, loop_order")],
     "fixed parameters; phases rational points of the unit circle; numerical loop functions not compared with an independent calculation")
prop("M03", "Matching to fewer flavours keeps exactly the light operators",
     "Matching WET to WET-4, WET-4 to WET-3 and WET-3 to WET-2 in the flavio, Bern and JMS bases keeps every coefficient that the smaller theory has, unchanged, and drops all others; in JMS those are exactly the ones whose operator contains the removed quark or lepton. Scale and basis stay as they are, chains of matchings work, and the input is not changed.",
     ["inputs"], "all values of all coefficients at once, all scales",
     "Tests look at one or two coefficients of one basis.",
     ["wilson/match/wet.py", "wilson/match/__init__.py"],
     [("filters", "match/__init__.py"), ("removal of heavy quarks", "match.wet")],
     "all coefficients symbolic at once")
prop("R01", "SMEFT beta functions have the structure of a one-loop RGE",
     "The right-hand side of the SMEFT renormalisation group equations is linear in the Wilson coefficients and keeps the index symmetries and hermiticity of every operator; it is covariant under unitary rotations of the five fermion fields and under CP, i.e. rotating coefficients and Yukawa matrices rotates the result; for vanishing hypercharge coupling and lepton Yukawas it respects custodial symmetry, i.e. exchanging the up and down quarks. Without Wilson coefficients, couplings, Higgs potential and Yukawa matrices run as in the Standard Model at one loop.",
     ["inputs"], "all complex values of all 2499 coefficients, all gauge and Higgs couplings for the Standard Model part, generic Yukawa and rotation matrices",
     "Tests compare the derivatives at a single point with another program; the index order, conjugation or family of single terms among thousands that are small there, and everything that breaks only in certain directions, is not seen.",
     ["wilson/run/smeft/beta.py", "wilson/run/smeft/rge.py"],
     [("beta functions", "beta.beta"), ("symmetrised right-hand side", "rge._beta"), ("memoised contractions", "beta.my_einsum, beta.HashableArray")],
     "couplings and Yukawa matrices at two generic points; numerical factors that respect all of these symmetries are not determined; the known defect in the dphi beta function is listed")
prop("R02", "SMEFT evolution integrates the beta functions between the scales",
     "Running hands the beta functions, as functions of log(mu), and the two logarithms of the scales to the integrator, and returns the solution at the end (for continuous running: at any scale); the leading-log result is initial value + beta/(16 pi^2) * log ratio. Results are rotated to the basis in which the running masses are diagonal with standard mixing phases, as WCxf prescribes, and carry EFT, basis and scale asked for; initial values stay as they are, whatever was run before. Standard Model parameters at the input scale are those extracted at the electroweak scale for the estimated coefficients there, run up; wrong EFT, basis or accuracy is refused.",
     ["inputs", "histories"], "all values of all coefficients (by groups of families) and any integrator output, upwards, downwards and equal scales, sequences of runs with both accuracies",
     "Tests run three points with loose numerical tolerance and check that nothing is NaN.",
     ["wilson/run/smeft/rge.py", "wilson/run/smeft/classes.py"],
     [("solution", "smeft_evolve, smeft_evolve_leadinglog, smeft_evolve_continuous"), ("default basis", "_rotate_defaultbasis, _flavor_rotation"), ("initial values and parameters", "_set_initial_wcxf, _get_sm_scale_in, _run_sm_scale_in")],
     "17 families of coefficients; Standard Model parameters at fixed generic points; scipy's integrator replaced by a recording Euler step")
prop("R03", "SM parameter extraction in SMEFT inverts the prediction",
     "The Lagrangian parameters that smeftpar computes from the physical input give back exactly this input when passed to smpar with the same Wilson coefficients, in both weak bases. VEV and Higgs mass are those of the scalar potential including the phi, phiBox and phiD operators, and computing the potential's parameters from them and back is the identity; potentials without acceptable vacuum and non-positive input are refused. Gauge couplings and Yukawa matrices contain the shifts by their operators.",
     ["inputs"], "all values (up to about a tenth of 1/v^2) of all coefficients entering, two sets of physical parameters, both signs and zero of the sextic coupling",
     "Tests do this for one parameter point with small coefficients and few digits.",
     ["wilson/run/smeft/smpar.py"],
     [("extraction", "smeftpar"), ("prediction", "smpar"), ("Higgs potential", "vMh2_to_m2Lambda, m2Lambda_to_vMh2")],
     "phiWB at five values; ckmutil's decompositions at fixed values")
prop("R04", "WET running solves the coupled QCD and QED evolution equations",
     "In every sector of WET, WET-4 and WET-3 the coefficients at any scale, as functions of alpha_s, solve the leading-order QCD evolution equation with the given anomalous dimensions, to first order in alpha_e also the QED one, and start at the input values; dipoles are normalised with the running masses and couplings of the parameters given at each scale. Coefficients without QCD and QED running stay as they are, real ones stay real, sectors do not influence each other, missing ones count as zero, and input and parameters stay unmodified. Selecting sectors gives what running all gives, and continuous solutions agree with running to the scale and refuse the input scale.",
     ["inputs", "configurations"], "all values of all coefficients and any ratio of alpha_s between 1/5 and 5, all sectors, default and overridden parameters",
     "Tests run single coefficients between two scales and compare a few numbers; sectors with degenerate or resonant eigenvalues are not looked at.",
     ["wilson/run/wet/rge.py", "wilson/run/wet/classes.py", "wilson/run/wet/definitions.py"],
     [("evolution matrices", "rge.getUs, rge.getUe, rge.admeig"), ("normalisation and selection", "rge.run_sector, rge.scale_C, rge.get_permissible_wcs"), ("parameters", "WETrunner._get_running_parameters")],
     "rundec's alpha_s and masses arbitrary inputs; QED without QCD running (qcd_order 0, qed_order 1) not claimed; the anomalous dimensions themselves are the subject of R05")
prop("R05", "WET anomalous dimensions follow from gauge boson exchange",
     "In every sector of WET, WET-4 and WET-3 the one-loop QCD and QED anomalous dimensions used in the running are those that the gauge charges of the fields dictate: gauge boson exchange between the fields of a four-fermion operator, penguins, mixing into photon and gluon dipoles through closed loops with the mass of the fermion in the loop, and running of dipoles and of the three-gluon operators. They hold for all fermion masses and only existing coefficients mix; sectors said to be invariant are.",
     ["inputs"], "every entry of all anomalous dimensions, all values of coefficients and masses",
     "Tests run few coefficients; there are some 400000 entries, most of them in sectors no test looks at.",
     ["wilson/run/wet/adm.py", "wilson/run/wet/definitions.py"],
     [("anomalous dimensions", "adm.adm_s_*, adm.adm_e_*"), ("order of coefficients", "definitions.coeffs, classes")],
     "dipole entries include the running of mass and coupling in their normalisation")
prop("R06", "SMEFT four-fermion mixing follows from gauge and Higgs boson exchange",
     "The one-loop SMEFT anomalous dimensions of four-fermion operators (baryon number violating ones included) are those the gauge charges and Yukawa couplings of the fields dictate: mixing among four-fermion operators, from and into Higgs-fermion currents and dipoles, into the Yukawa-like operators and the Standard Model Yukawa couplings, with all colour, isospin and flavour factors and signs. Four-fermion operators influence nothing else, and currents and dipoles enter four-fermion operators in no other way.",
     ["inputs"], "every pair of operators with at least one four-fermion operator, all couplings",
     "Tests compare one numerical point of all beta functions at once; the factor of each of the thousand terms is visible only with generic Yukawa matrices and single operators.",
     ["wilson/run/smeft/beta.py", "wilson/run/smeft/rge.py"],
     [("beta functions", "beta.beta"), ("running", "rge.smeft_evolve_leadinglog")],
     "the defect recorded for R01 (dphi from quqd1) is corrected for")
prop("R07", "Derivative-free SMEFT operators and SM couplings run as general formulas say",
     "For all values of the gauge couplings, the Higgs parameters and the Yukawa couplings, the one-loop running of the Standard Model couplings is what the general formulas of renormalisable gauge theories give for its field content, and the influence of the operators phi, uphi, dphi, ephi and the dimension-five operator on every coupling and every other operator is what the same formulas give with field-dependent scalar potential and fermion masses: all other operators stay untouched by them.",
     ["inputs"], "all values of all couplings and of every entry of these operators",
     "Tests compare one numerical point of all beta functions at once and evolve few initial conditions.",
     ["wilson/run/smeft/beta.py", "wilson/run/smeft/rge.py"],
     [("beta functions", "beta.beta"), ("running", "rge.smeft_evolve_leadinglog")],
     "Yukawa matrices at fixed generic complex points, up to a common symbolic factor; other operators as initial values are decided by R06 and R09")
prop("R08", "SMEFT running keeps the enhanced symmetries of special couplings",
     "Where the couplings of the Standard Model have a larger symmetry the running of all operators respects it: exchange of right-handed up and down quarks without hypercharge and lepton Yukawa couplings; custodial symmetry with equal Yukawa couplings as well; leptons as a fourth colour when only the weak interactions act; and duality, under which operators with a field strength and its dual, and real and imaginary parts of dipoles, turn into each other.",
     ["inputs", "configurations"], "all values of the coefficients and of the couplings left free by each symmetry",
     "The symmetries relate different operators at points in coupling space that no test visits.",
     ["wilson/run/smeft/beta.py", "wilson/run/smeft/rge.py"],
     [("beta functions", "beta.beta"), ("running", "rge.smeft_evolve_leadinglog")],
     "Yukawa matrices at fixed generic complex points")
prop("R09", "SMEFT currents, dipoles and bosonic operators run as their charges say",
     "For all values of the couplings, the influence of SMEFT operators with field strengths, of dipoles and of operators with two Higgs fields and derivatives on all couplings and all operators without four fermions is given by formulas in which a fermion appears only with its hypercharges, isospin, colours and Yukawa coupling: the same for up and down quarks and leptons, with the coefficients of the gauge beta functions following from the field content.",
     ["inputs"], "all values of all couplings and of every entry of these operators",
     "Tests compare one numerical point of all beta functions at once; a factor in a single term is visible only with generic Yukawa matrices and single operators.",
     ["wilson/run/smeft/beta.py", "wilson/run/smeft/rge.py"],
     [("beta functions", "beta.beta"), ("running", "rge.smeft_evolve_leadinglog")],
     "the universal numbers of the formulas are taken from the literature; influence on four-fermion operators in R06")
prop("C01", "match_run is translation, running and matching in the right order",
     "The coefficients that Wilson.match_run returns at any scale, in any theory below or equal to the input theory and any basis, are those obtained by translating, running to each matching scale with the theory valid there and matching, in order, each step exactly once with the instance's options (accuracy, orders, matching scales, parameters). Result and input carry the names and scales asked for and the input coefficients stay unmodified. With sectors given, exactly the coefficients of these WET sectors are returned, with the values they have otherwise; theories that cannot be reached are refused.",
     ["inputs", "configurations"], "all scales and coefficients, 22 pairs of theories and bases per input, each option changed, arbitrary translators, matchers and runners",
     "Tests run a handful of physical points along one path and look at few numbers; which options, scales and parameters reach which step is invisible there.",
     ["wilson/classes.py", "wilson/wcxf/classes.py"],
     [("composition", "Wilson.match_run"), ("options handed on", "_wetrun_opt, matching_parameters, parameters"), ("sectors", "_select_sectors")],
     "the steps are uninterpreted linear functions of everything they may depend on; one coefficient for each of three sectors")
prop("C02", "match_run does not depend on what was called before",
     "Whatever sequence of runs, restrictions to sectors, changes of options or class defaults, clearing of the cache and use of other instances came before, match_run returns what a new instance with the same coefficients and options returns. Results handed out earlier are not modified.",
     ["histories"], "sequences of two operations before the call (three at the thorough tier) out of all, arbitrary coefficients, scales and steps",
     "Tests use a fresh instance, or repeat one call; stale or incomplete cache entries need a particular sequence.",
     ["wilson/classes.py"],
     [("cache", "Wilson._get_from_cache, _set_cache, clear_cache"), ("options", "set_option, set_default_option")],
     "the steps are uninterpreted; ten targets, three sectors")
prop("C03", "Options, construction and hash of Wilson behave as documented",
     "set_option changes the option of one instance only, set_default_option that of instances created later only; invalid names and values are refused without changing anything, and dictionaries passed in stay as they are. Parameters given override the defaults one by one, with delta as another name of gamma. All ways to construct an instance give the same point, the hash changes exactly with coefficients and option values, and plotdata returns the solution's real or imaginary parts on the scales it returns, from end to end.",
     ["inputs", "histories"], "all options with valid and invalid values on two existing and one later instance, arbitrary numbers for coefficients and scales",
     "Tests set a few options to allowed values.",
     ["wilson/classes.py"],
     [("options", "ConfigurableClass.set_option, set_default_option, get_option"), ("construction", "Wilson.__init__, from_wc, load_wc"), ("plot data", "RGsolution.plotdata")],
     "plot data of up to four points")
prop("D01", "DsixTools files and WCxf hold the same coefficients",
     "Converting WCxf coefficients of the Warsaw basis to a DsixTools file and back gives the same coefficients and scale, for any reference scale: entries are values times the scale to the power of dimension minus four. Leaving out zeros, redundant entries, imaginary parts that vanish and whole blocks loses nothing, missing ones count as zero, each entry appears once. The Standard Model parameters survive too, whatever the order of the files.",
     ["inputs"], "all values of all coefficients at once, zero or not, any scales",
     "Tests convert two files, with one set of numbers.",
     ["wilson/wcxf/converters/dsixtools.py", "wilson/wcxf/converters/dsixtools_definitions.py", "wilson/util/common.py"],
     [("file layout", "wc_dict2lha, wc_lha2dict, sm_dict2lha, sm_lha2dict"), ("units", "SMEFTio.set_initial_wcxf, get_wcxf"), ("redundant entries", "dsixtools_definitions")],
     "pylha's text format outside; rotate_defaultbasis (unused) outside")
prop("D02", "SMEFTsim cards hold every coefficient under its name",
     "For both model sets and input schemes, every parameter of the SMEFTsim card has the value of the coefficient it is named after, times the cutoff scale squared and divided by the number of equal operators: real coefficients with their sign, complex ones as modulus and phase. Names of index combinations that WCxf does not list get the value following from the operator's symmetry; coefficients not given are zero, and the cutoff scale is written.",
     ["inputs"], "all values of all coefficients, given or not, any cutoff scale, all 5001 entries of both cards",
     "Tests look at two entries of one card.",
     ["wilson/wcxf/converters/smeftsim.py"],
     [("entries", "smeftsim_card_fill"), ("symmetry factors", "scaled_wc, smeftutil._scale_dict")],
     "which block and code stands for which name is taken as the specification of the card; text before and after the blocks outside")
