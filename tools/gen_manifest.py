"""Writes MANIFEST.json."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = 'TLA+ specification checked with TLC; '
NOTE = {
 'C01': (T + 'TLC-generated histories replayed on the real Wilson class',
         'Every reachable state of the cache state machine for small sets of requests and options (unbounded length); real code compared on random histories of the specification with fresh evaluation of the specified plan. Trusts the building blocks (decided by other checks).'),
 'C02': (T + 'plans computed by TLC executed with the public building blocks and compared with match_run',
         'All combinations of the listed inputs, targets and option settings tabulated by TLC; at least one case of every plan shape executed on the real code.'),
 'C03': (T + 'TLC-generated histories of option calls replayed on the real class',
         'Exhaustive for a small model incl. the heap of dictionaries; random long histories with all options, valid and invalid values on the real code, full observation after every call.'),
 'C04': (T + 'TLC-generated histories of option calls replayed on the real class',
         'As C03; hashes compared with the specified key (coefficients, option values) after every call.'),
 'C05': (T + 'TLC-generated registry histories replayed on the real classes',
         'Exhaustive for a small model; random histories with full observation of the registries on the real code.'),
 'C06': (T + 'TLC-generated registry histories replayed on the real classes',
         'As C05, with inheritance chains and the content of every basis compared after every step.'),
 'C07': (T + 'TLC-generated objects and reads replayed on the real class',
         'Exhaustive for a small model; random histories over value forms and views on the real code.'),
 'C08': (T + 'TLC-generated dump, load and conversion histories replayed on the real classes', 'Random histories over contents, formats and streams.'),
 'C09': (T + 'TLC-generated registry, translate and match histories replayed with recording functions', 'Exhaustive for a small model; random histories on the real code.'),
 'C10': (T + 'TLC-computed answer for every parameter kind, compared with the real converter', 'All entry kinds and states of the coefficients; synthetic and given SM files.'),
 'C11': (T + 'plans computed by TLC evaluated with elementary RunDec operations and compared with the real functions', 'All quantities, flavour numbers and loop orders; random and boundary scales; call histories for memory effects. Trusts RunDec.'),
 'C12': (T + 'TLC-computed orbits and representation paths replayed on the real functions', 'Every entry of every operator class for three generations; random dense and sparse coefficients along random chains of conversions.'),
 'C13': (T + 'TLC-computed orbits and representation paths replayed on the real functions', 'Every entry of every operator class; random coefficients and random redundant names.'),
 'C14': (T + 'TLC-generated histories of runs and symmetry transformations replayed, every result compared with its specified normal form; reference numbers',
         'Normal forms checked exhaustively on small instances; random histories on the real code over three EFTs and all order settings; dense reference outputs of the pinned, repaired implementation stand for the published anomalous dimensions.'),
 'C15': (T + 'operator tables (symmetry actions, scalar product) and histories of runs and transformations generated by TLC and compared with the real functions; reference numbers',
         'Normal forms of histories checked exhaustively on small instances; every law at random dense and sparse points of the full parameter space; dense reference values of all 2500 beta functions and of SMEFT.run. One known finding (a term of the beta function of dphi).'),
 'C16': (T + 'paths through the graph of bases with a normal form (projections passed), checked by TLC, random histories replayed on the real translators; reference numbers',
         'Normal forms checked exhaustively on small instances; dense and sparse inputs, all registered translators, several parameter sets and scales; SMEFT rotations compared with their definition, WET definitions with reference numbers of the pinned, repaired implementation.'),
 'C17': (T + 'block structure of calculations (translate, run, cross, match, request) with restrictions, random calculations replayed with and without them',
         'Commutation proved on the specification for small instances; random pipelines on the real code over all four theories and all sectors.'),
 'C18': (T + 'worlds related by CP and lepton names (MatchFlow) and conserved charges of all operators (Charges); random histories of matching, translation, relabelling replayed on the real code; scale dependence of the loop terms against the runnings above and below',
         'Design checked exhaustively on small instances; linear to first order; dense and sparse coefficients in both input bases, four output bases, both loop orders; numbers of the pinned, repaired implementation as reference.'),
 'C19': (T + 'table of remaining operators computed by TLC from the field contents; histories of crossings and translations replayed on the real code',
         'All operators of the JMS basis by name; other bases through commutation with translations.'),

 'C20': (T + 'TLC-generated histories of reading and writing files and TLC-computed orbits of entries, replayed on the real converter',
         'Design (units, round trip) checked exhaustively on a small instance; random histories with dense, sparse, empty content, all formats, redundant entries, several input files; every operator alone (thorough: every coefficient alone).'),
 'C21': (T + 'TLC-generated histories of solutions, evaluations and plots replayed on the real runners',
         'Design checked exhaustively on a small instance; random inputs and scales in SMEFT, WET, WET-4 and WET-3; exact at the ends (and everywhere for WET), interpolation tolerance between the ends for SMEFT.'),
 'C22': (T + 'TLC-generated histories of commands over a growing directory of valid and invalid files, executed with the real tools in processes of their own',
         'Design checked exhaustively on a small instance; success, theory and basis of each result predicted by the specification, its content by the library call on the same file.'),
 'C23': (T + 'vacua of the Higgs potential and dependence tables computed by TLC and compared with the real functions; round trips; first-order Lagrangian',
         'All potentials on an integer grid with existence and uniqueness of the vacuum decided by TLC; random coefficients over 20 orders of magnitude; electroweak relations compared to first order with an exact diagonalisation.'),
 'C24': (T + 'recorded cards checked entry by entry by TLC against the flavour theory (completeness, meaning of each entry); TLC-generated histories of conversions replayed on the command and the library',
         'Completeness of both card sets decided exhaustively by TLC; random coefficients in all forms, all entries of each card compared; outcome of commands predicted by the specification.'),
}
NA = []


def main():
    props = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
    checks = [dict(property=p, quick_cmd=f'./check {p} --tier quick', thorough_cmd=f'./check {p} --tier thorough',
                   technique=NOTE[p][0], level='model_checking', level_note=NOTE[p][1]) for p in props if p in NOTE]
    na = [dict(property=p, reason=dict(NA).get(p, 'check not yet built')) for p in props if p not in NOTE]
    m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
             notes='Checks import /repo/wilson through a scratch overlay that adds the basis definition files (an empty git submodule in /repo); no build step and no hooks are needed.')
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')


main()
