"""Writes properties.jsonl (single source of the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

prop('C01', 'match_run results never depend on the call history (cache transparency)',
  "On a Wilson instance, the result of match_run(scale, eft, basis, sectors) is always what a fresh instance with the same input coefficients and the instance's current options would return for the same request. This holds after any sequence of earlier match_run, set_option, get_option, set_default_option and cache-clearing calls on this and on any other instance, whether or not the request or an intermediate step of it was cached before.",
  ['histories', 'configurations'],
  "every finite sequence of match_run / set_option / set_default_option / clear_cache calls over any number of instances",
  "The upstream tests check one or two fixed two-call sequences; staleness needs a particular order of requests, option changes and sector restrictions.",
  ['wilson/classes.py'],
  [('cache lookup and update keyed by EFT, scale, basis, sector', 'wilson/classes.py: Wilson._get_from_cache/_set_cache'),
   ('cache cleared when an option changes', 'wilson/classes.py: ConfigurableClass.set_option')],
  [('_cache', 'results already computed with the current options', 'wilson/classes.py'), ('_options', 'current option values', 'wilson/classes.py')],
  ['Wilson.match_run return value'])
prop('C02', 'match_run composes running, matching and translation as documented',
  "match_run equals the composition of its public building blocks under the current options: SMEFT input is translated to Warsaw, run to the electroweak matching scale, matched onto WET JMS, run to the b and then c thresholds and matched onto WET-4 and WET-3 as far as the target requires, run to the target scale and translated to the target basis; WET inputs enter at the corresponding stage, same-scale requests only translate, and an identical request returns the input. The accuracy, QCD/QED order, matching order, threshold and parameter options each take effect in exactly the steps they are documented for, and a request that is not possible (WET to SMEFT, lighter to heavier theory, unknown theory or basis) raises ValueError.",
  ['inputs', 'configurations'],
  "every input (EFT, basis, scale), every target (EFT, basis, scale, sectors) and every option setting",
  "Tests exercise a handful of input/target pairs, most with default options; the plan has many branches times option values.",
  ['wilson/classes.py', 'wilson/run/wet/classes.py', 'wilson/run/smeft/classes.py', 'wilson/match/__init__.py'],
  [('branching over input and target EFT', 'wilson/classes.py: Wilson.match_run'), ('options to parameters', 'wilson/classes.py: parameters, matching_parameters, _wetrun_opt')],
  [('_options', 'threshold scales, accuracies, orders and parameters', 'wilson/classes.py')],
  ['Wilson.match_run return value or exception'])
prop('C03', 'Options are validated, instance-local, and defaults affect only later instances',
  "set_option changes exactly the named option of that one instance, set_default_option changes what instances created afterwards start with, and neither ever affects any other instance, any other option, the class defaults or the dictionaries passed in by the caller. Values that violate the documented type or set of choices, and unknown option names, are rejected with an exception that leaves everything unchanged; accepted values are coerced (numbers to float, the deprecated parameter name 'delta' to 'gamma') and are what get_option returns.",
  ['histories', 'inputs'],
  "every sequence of option calls over any number of instances and classes, with valid and invalid values",
  "Tests set one option at a time on one or two instances; aliasing and partial updates only show in interleaved sequences.",
  ['wilson/classes.py'],
  [('option dictionaries and voluptuous schema', 'wilson/classes.py: ConfigurableClass')],
  [('_default_options', 'class-level defaults', 'wilson/classes.py'), ('_options', 'instance options', 'wilson/classes.py')],
  ['get_option', 'Wilson.parameters', 'Wilson.matching_parameters'])
prop('C04', 'The hash of a Wilson instance tracks its coefficients and its options',
  "The hash of a Wilson instance stays the same as long as neither its coefficients nor its option values change (running, translating, reading options and changes to other instances do not count as changes), and it changes when an option is set to a different value. Setting all options back to earlier values restores the earlier hash.",
  ['histories'], "every sequence of option changes and queries on a set of instances",
  "No test touches the hash after an option change.",
  ['wilson/classes.py', 'wilson/wcxf/classes.py'], [('__hash__', 'wilson/classes.py: Wilson.__hash__'), ('random per-WC hash', 'wilson/wcxf/classes.py: WC')],
  [], ['hash(Wilson instance)'])
prop('C05', 'Named-instance registries behave as per-class ordered maps',
  "For EFTs, bases, translators and matchers, creating an instance makes it retrievable by its name (replacing an earlier one of the same name), deleting removes exactly that one, clearing empties that class's registry only, and a missing name raises KeyError; different kinds of objects never share entries. The lists of known bases and known translators of an EFT or basis always contain exactly the currently registered entries that belong to it, in registration order.",
  ['histories'], "every sequence of create / look-up / delete / clear operations over several classes",
  "The tests create a handful of instances and look them up once; deletions and re-creations are hardly exercised.",
  ['wilson/wcxf/classes.py'], [('class-level ordered dictionaries', 'wilson/wcxf/classes.py: NamedInstanceClass')],
  [('instances', 'registry of a class', 'wilson/wcxf/classes.py')], ['get_instance', 'Class[name]', 'known_bases', 'known_translators'])
prop('C06', 'Basis inheritance and validation are exact and leave the parent untouched',
  "A basis that names a parent has all sectors of the parent, with sectors it defines itself replacing the parent's, at any depth of inheritance, and creating it never modifies the parent; a missing parent raises ValueError. The list of all coefficients of a basis is the concatenation of its sectors in order; basis validation rejects an undefined EFT, a sector the EFT does not define, and a coefficient occurring in two sectors, and accepts everything else.",
  ['inputs', 'histories'], "every family of bases with any inheritance depth and sector layout",
  "Tests contain two fixed parent/child pairs.",
  ['wilson/wcxf/classes.py'], [('sectors merge', 'wilson/wcxf/classes.py: Basis.__init__'), ('all_wcs', 'wilson/wcxf/classes.py: Basis.all_wcs'), ('validate', 'wilson/wcxf/classes.py: Basis.validate')],
  [], ['Basis.sectors', 'Basis.all_wcs', 'Basis.validate'])
prop('C07', 'Coefficient values mean the same in every representation',
  "A WC object reports for every coefficient exactly the number that was given, in whichever accepted form (real number, numeric string, dictionary with 'Re' and/or 'Im' where a missing part is zero), consistently in the number dictionary, in item access, in the data frame and in the values; a coefficient that is not given reads as 0. Turning numbers into values and back is the identity, and validation of a WC object accepts exactly those whose EFT and basis are defined and whose coefficients all exist in the basis.",
  ['inputs'], "every dictionary of coefficient values in every accepted form, and every mix of known and unknown names",
  "Tests use one mixed dictionary.",
  ['wilson/wcxf/classes.py', 'wilson/classes.py'], [('Re/Im conversion', 'wilson/wcxf/classes.py: WC._to_number, WC.dict2values'), ('validate', 'wilson/wcxf/classes.py: WC.validate')],
  [], ['WC.dict', 'WC[...]', 'WC.df', 'WC.values', 'WC.validate'])
prop('C08', 'Dumping and loading WCxf objects round-trips in JSON and YAML',
  "Dumping a WC, EFT or basis object as JSON or YAML, to a string or to a stream, and loading it again gives an object with the same public content (names, scale, values, sectors, metadata and any further attributes), independently of what was computed from the object before; the JSON to YAML and YAML to JSON converters preserve the content exactly in both directions, and an unknown format raises ValueError.",
  ['inputs', 'histories'], "every WCxf object, format, and order of use before dumping",
  "Tests dump one object and only check that no exception occurs or compare a single format.",
  ['wilson/wcxf/classes.py', 'wilson/wcxf/converters/yamljson.py'], [('load/dump', 'wilson/wcxf/classes.py: WCxf'), ('converters', 'wilson/wcxf/converters/yamljson.py')],
  [], ['load', 'dump', 'convert_json', 'convert_yaml'])
prop('C09', 'translate and match dispatch to the right function with the right data',
  "WC.translate and WC.match call the function registered for exactly (EFT, from-basis, to-basis) or (from-EFT, from-basis, to-EFT, to-basis) with the coefficient dictionary, the scale, and the given parameters (and sectors if given), return a new WC with the target EFT and basis, the same scale and exactly the non-zero coefficients the function returned, and leave the input object unchanged. A request for the own basis returns the object itself and an unregistered pair raises ValueError.",
  ['inputs', 'histories'], "every registry content, input object and argument combination",
  "Tests register one toy translator and matcher and call each once.",
  ['wilson/wcxf/classes.py'], [('dispatch by name tuple', 'wilson/wcxf/classes.py: WC.translate, WC.match, Translator.translate, Matcher.match')],
  [], ['WC.translate', 'WC.match'])
prop('C10', 'EOS export adds exactly the new-physics part to the Standard Model value',
  "For every EOS parameter listed in the Standard Model input files marked as WCxf-relevant, the exported central, minimum and maximum values all equal the Standard Model central value plus the real part (names containing Re{...} or plain names) or imaginary part (names containing Im{...}) of the corresponding coefficient, and nothing if the coefficient is absent. Lepton-universal charged-current parameters (lnu) take the common value of the electron and muon coefficients, and ValueError is raised if those differ.",
  ['inputs'], "every set of EOS parameter names, Standard Model values and coefficient dictionaries",
  "Tests use one fixed parameter set and coefficient file.",
  ['wilson/wcxf/converters/eos.py'], [('name matching', 'wilson/wcxf/converters/eos.py: get_eos_np'), ('export', 'wilson/wcxf/converters/eos.py: wcxf2eos, get_sm_wcs')],
  [], ['get_sm_wcs', 'get_eos_np', 'wcxf2eos'])
prop('C11', 'Running coupling and quark masses follow the documented threshold scheme',
  "alpha_s and the running b, c and s masses at any scale, flavour number, input value and loop order equal RunDec evolution from the documented starting point (alpha_s at M_Z with 5 flavours, m_b(m_b) with 5, m_c(m_c) with 4, m_s at 2 GeV with 3) through the fixed decoupling scales 1.3, 4.8 and 170 GeV; at the starting point with its flavour number the input value is returned exactly. Non-positive scales and flavour numbers outside 3..6 raise ValueError, and no result depends on earlier calls.",
  ['inputs', 'histories'], "every scale, flavour number, input value, loop order and order of calls",
  "Tests compare about twenty points, each at one value, one call each.",
  ['wilson/util/qcd.py'], [('threshold cascade', 'wilson/util/qcd.py'), ('memoization', 'wilson/util/qcd.py: lru_cache')],
  [], ['alpha_s', 'm_b', 'm_c', 'm_s'])
prop('C12', 'SMEFT coefficient arrays and non-redundant dictionaries represent each other',
  "For every SMEFT operator class, converting any dictionary of non-redundant Warsaw coefficients to symmetrized arrays and back is the identity (with vanishing imaginary parts where an entry is real), the arrays obey every flavour symmetry of the class (hermiticity, exchange of identical currents, Fierz, permutation symmetry) with the documented symmetry factors, and entries related by a symmetry carry the same information. Symmetrizing is idempotent, conversions between flat vectors, arrays and dictionaries lose nothing, and none of these functions modifies its input.",
  ['inputs'], "every coefficient dictionary and array, every operator and index tuple",
  "Tests check a few classes with one random array each and never the symmetry factors of all 2499 coefficients.",
  ['wilson/util/common.py', 'wilson/util/__init__.py'], [('symmetrizers and scale factors', 'wilson/util/common.py: EFTutil')],
  [], ['smeftutil.symmetrize', 'smeftutil.symmetrize_nonred', 'smeftutil.wcxf2arrays_symmetrized', 'smeftutil.arrays2wcxf_nonred', 'smeftutil.C_array2dict', 'smeftutil.C_dict2array'])
prop('C13', 'WET (JMS) redundant and non-redundant coefficients represent each other',
  "For every WET operator, expanding non-redundant JMS coefficients into full flavour arrays fills every entry with the value dictated by the operator's symmetry (hermitian, current exchange, Fierz, antisymmetry), never leaves an entry undefined for a listed operator, and bringing any redundant coefficient name back to the non-redundant basis gives the same physics with the right conjugation and sign. Applying and undoing symmetry factors are inverse to each other, padding and unpadding are inverse to each other, and inputs are not modified.",
  ['inputs'], "every JMS coefficient dictionary, operator and index tuple, redundant or not",
  "Tests cover one random dictionary and a few operators.",
  ['wilson/util/wet_jms.py', 'wilson/util/common.py'], [('orbit filling', 'wilson/util/wet_jms.py: JMS_to_array'), ('symmetrize_JMS_dict', 'wilson/util/wet_jms.py'), ('wetutil', 'wilson/util/common.py')],
  [], ['JMS_to_array', 'symmetrize_JMS_dict', 'scale_dict_wet', 'unscale_dict_wet', 'wetutil'])
prop('C14', 'WET running is a linear, sector-separable RG flow with the published ADMs',
  "Running WET, WET-4 or WET-3 coefficients is linear in the coefficients (over the real numbers), gives for the coefficients of any set of sectors the same numbers whether or not others are asked for or present, returns the input when the scale does not change, and respects parity, CP, permutations of flavours of equal charge and, without QED, isospin (for four-fermion operators; dipoles and gluonic operators are normalized with running masses and couplings). In pure QCD, four-fermion coefficients are the input again after running back and the same for every division of the interval. With QCD order 0 there is no running of four-fermion coefficients, with QED order 0 no QED running, and the flow in every sector and flavour theory is the leading-order one given by the tabulated anomalous dimensions.",
  ['inputs', 'configurations', 'histories'], "every coefficient dictionary, pair of scales, EFT, order setting, sector selection and sequence of runs",
  "Tests check a few sectors against fixed numbers, most with one coefficient.",
  ['wilson/run/wet/rge.py', 'wilson/run/wet/adm.py', 'wilson/run/wet/classes.py', 'wilson/run/wet/definitions.py'],
  [('evolution matrices', 'wilson/run/wet/rge.py'), ('anomalous dimension matrices', 'wilson/run/wet/adm.py')],
  [('memoized eigen-decompositions', 'lru_cache on ADM functions', 'wilson/run/wet/rge.py')], ['WETrunner.run', 'WETrunner.run_continuous'])
prop('C15', 'SMEFT running is a flow with the symmetries of the theory, as published',
  "The one-loop SMEFT beta functions transform covariantly under flavour rotations of the five fermion species, CP, sign changes of single gauge couplings (with the field strengths), changes of units and the counting of loops, and (without hypercharge and charged-lepton Yukawas) the exchange of up- and down-type quarks; give coefficients the index symmetries of their operators (hermitian, current exchange, Fierz); are linear in the coefficients, which enter the SM couplings only with the Higgs mass parameter; vanish for coefficients in the pure SM; are self-adjoint for operators with four legs with respect to the scalar product of operators, as unitarity requires; and agree with the published ones. The leading-log solution is the input plus beta times log(scale ratio)/(16 pi^2). Numerical integration returns the input for zero interval, composes over subdivided intervals, is undone by integrating back, agrees with the leading log over short intervals and, without new physics, leaves coefficients alone. SMEFT.run gives the solution for the SM couplings at the input scale, rotated to the basis with diagonal down-type and lepton masses and standard CKM phases, without changing its input.",
  ['inputs', 'histories'], "every set of couplings, Yukawa matrices and coefficients, and sequence of runs and transformations",
  "Tests compare with one DsixTools output point.",
  ['wilson/run/smeft/beta.py', 'wilson/run/smeft/rge.py', 'wilson/run/smeft/classes.py'], [('beta functions', 'wilson/run/smeft/beta.py'), ('ODE and leading log', 'wilson/run/smeft/rge.py')],
  [], ['beta.beta', 'SMEFT.run', 'rge.smeft_evolve', 'rge.smeft_evolve_leadinglog'])
prop('C16', 'Basis translations are linear, mutually inverse and path independent',
  "Every registered translation between bases of the same EFT is linear in the coefficients (over real numbers), gives only coefficients that exist in the target basis, treats a missing coefficient like a zero one, and equals the tabulated definition of the bases for the given parameters. Translating to another basis and back reproduces the coefficients both bases contain, and translating along different chains of bases to the same target gives the same result.",
  ['inputs', 'configurations'], "every coefficient dictionary, registered translator, chain of translators, scale and parameter set",
  "Tests do one random round trip for a few pairs with default parameters.",
  ['wilson/translate/__init__.py', 'wilson/translate/wet.py', 'wilson/translate/smeft.py', 'wilson/translate/smeft_higgs.py'], [('translators', 'wilson/translate/*')],
  [], ['WC.translate', 'WC.dict'])
prop('C17', 'Restricting to sectors never changes the values within those sectors',
  "Running, matching and translating with a restriction to any set of sectors gives, for every coefficient belonging to these sectors, exactly the value of the unrestricted calculation, and running to or from WET (also when scale and EFT do not change and only a translation, or nothing, is needed) returns no coefficient outside the requested sectors. This holds for every input and target EFT and basis that supports the unrestricted request, and for any order and repetition of the sector names.",
  ['inputs', 'configurations'], "every set of sector names, input and target",
  "One test restricts to a single sector of one basis.",
  ['wilson/classes.py', 'wilson/run/wet/classes.py', 'wilson/translate/wet.py'], [('sectors arguments', 'wilson/classes.py: Wilson.match_run; wilson/run/wet/classes.py; wilson/translate/wet.py')],
  [], ['Wilson.match_run(..., sectors=...)', 'WETrunner.run(..., sectors=...)', 'WC.translate(..., sectors=...)'])
prop('C18', 'SMEFT to WET matching is linear, path independent and the published one',
  "Matching SMEFT onto WET is, to first order in the coefficients, linear at tree level and at one loop, gives the same WET coefficients whether the input is given in the Warsaw or the Warsaw up basis and whether the target basis is reached directly or via JMS followed by translation, and equals the tabulated published matching conditions for the given parameters, with loop terms included exactly when the loop order is 1. Only the flavour structures allowed by the operator symmetries appear, every output coefficient exists in the target basis, and zero input gives zero output.",
  ['inputs', 'configurations'], "every SMEFT coefficient dictionary, scale, parameter set, loop order, input and output basis",
  "Tests match a few single coefficients at default parameters.",
  ['wilson/match/smeft.py', 'wilson/match/smeft_tree.py', 'wilson/match/smeft_loop.py', 'wilson/match/__init__.py'], [('matching', 'wilson/match/*')],
  [], ['WC.match'])
prop('C19', "Crossing a flavour threshold keeps exactly the lighter theory's coefficients",
  "Matching WET to WET-4, WET-4 to WET-3 (and WET-3 to WET-2) in any supported basis keeps every coefficient whose operator only involves the remaining flavours with its value unchanged and removes all others, so that it commutes with translation between bases, is transitive, and never leaves a coefficient that involves a removed quark or lepton.",
  ['inputs'], "every coefficient dictionary in every basis at every threshold",
  "Tests only run such matchings as part of one full chain and look at single coefficients.",
  ['wilson/match/__init__.py', 'wilson/classes.py'], [('threshold matchers', 'wilson/match/__init__.py')],
  [], ['WC.match', 'Wilson.match_run'])
prop('C20', 'DsixTools files and WCxf coefficients convert into each other without loss',
  "Converting any SMEFT Warsaw coefficients to a DsixTools input and back gives the same scale and coefficients, with each block carrying the coefficient of its operator at the right indices and in units of the scale, real and imaginary parts separated; loading DsixTools output and exporting it to WCxf preserves every entry, including symmetric partners and real-valued entries.",
  ['inputs'], "every coefficient dictionary and scale",
  "Tests convert one file and compare a few entries.",
  ['wilson/wcxf/converters/dsixtools.py', 'wilson/wcxf/converters/dsixtools_definitions.py'], [('converter', 'wilson/wcxf/converters/dsixtools.py')],
  [], ['wcxf2dsixtools', 'dsixtools2wcxf'])
prop('C21', 'Continuous RG solutions agree with pointwise running and plot data is faithful',
  "A continuous solution returned by the SMEFT or WET runners covers exactly the interval between input and requested scale (in either direction), equals at the input scale the input, and at every other scale what running to that scale gives (for SMEFT within the accuracy of the interpolation, including the SM parameters, in the flavour basis of the input); a request for the input scale itself raises ValueError. The plot data it produces has exactly the requested number of points from the lower to the upper scale, spaced logarithmically or linearly as requested, with the real or imaginary part of the requested coefficient or parameter at each point, also where it vanishes.",
  ['inputs'], "every input, pair of scales, coefficient, spacing, part and number of steps",
  "Tests plot without looking at data or check one end point.",
  ['wilson/classes.py', 'wilson/run/wet/classes.py', 'wilson/run/smeft/classes.py', 'wilson/run/smeft/rge.py'], [('RGsolution', 'wilson/classes.py: RGsolution'), ('run_continuous', 'wilson/run/wet/classes.py, wilson/run/smeft/classes.py')],
  [], ['run_continuous', 'RGsolution.plotdata'])
prop('C22', 'The command line tools do what the library calls do',
  "wcxf convert, translate, match and validate, wcxf2eos, wcxf2dsixtools and dsixtools2wcxf read the given file (or standard input), perform the library operation named by the arguments, write its complete result in the requested format to the given file (or standard output), and exit with status 0. Where the operation is impossible (unreadable or invalid input, no translator or matcher, unknown format of the result, conflicting options) they exit with a non-zero status and write no result; wcxf validate reports success exactly for valid input. No tool changes its input file.",
  ['inputs', 'configurations'], "every subcommand, input form, output form, format and valid or invalid content",
  "Tests run three of the commands once with one file.",
  ['wilson/wcxf/cli.py', 'wilson/wcxf/converters/yamljson.py'], [('argument parsing and dispatch', 'wilson/wcxf/cli.py')],
  [], ['wcxf', 'wcxf2eos', 'wcxf2dsixtools', 'dsixtools2wcxf'])
prop('C23', 'SM parameter extraction inverts the SM parameter predictions',
  "For every set of coefficients for which a solution exists, the Lagrangian parameters computed for the electroweak scale reproduce, when converted back with the same coefficients, the input masses, mixings and couplings; converting between Higgs mass term and self-coupling and vacuum value and Higgs mass are inverse to each other in both directions. Inputs without a physical solution raise ValueError instead of returning numbers.",
  ['inputs'], "every set of dimension-six coefficients within and outside the solvable region",
  "Tests check a few coefficients at one size.",
  ['wilson/run/smeft/smpar.py'], [('closed-form and root finding', 'wilson/run/smeft/smpar.py')],
  [], ['smpar.smeftpar', 'smpar.smpar', 'smpar.m2Lambda_to_vMh2', 'smpar.vMh2_to_m2Lambda'])
prop('C24', 'SMEFTsim parameter cards hold exactly the given coefficients',
  "For every set of coefficients in the Warsaw mass basis (real, imaginary, negative or complex; given as numbers, as strings, or as real and imaginary parts), every cutoff scale, model set (A or B) and input scheme, the card has for every independent dimension-six operator that conserves baryon and lepton number one entry for the modulus (the signed value for coefficients that are real by definition) and, if it is complex, one for the phase, at the same indices, together 2499 parameters: the coefficient times the cutoff squared divided by its symmetry factor, with the conjugation implied by the indices of the entry. The card states the cutoff and, in the mw scheme only, the W mass as an input. Nothing else in the card depends on the coefficients. Filling a card again or converting into an existing file leaves nothing of earlier contents. Invalid files, or files in another basis for which the question is not answered by i, write nothing.",
  ['inputs', 'history'], "every set of coefficients, cutoff, set, scheme and history of conversions",
  "No test touches the converter.",
  ['wilson/wcxf/converters/smeftsim.py', 'wilson/wcxf/cli.py'], [('card entries', 'wilson/wcxf/converters/smeftsim.py'), ('command', 'wilson/wcxf/cli.py')],
  [], ['wcxf2smeftsim', 'smeftsim.initialize_smeftsim_card', 'smeftsim.smeftsim_card_fill', 'smeftsim.smeftsim_card_text'])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))
