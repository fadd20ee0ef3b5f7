"""What decides each property: proof units (translation units of /verif/harness, contracts by their `props`),
python proof units, bounded stand-ins."""
TRUSTED = [
 'clang 18 front end (C++ -> LLVM IR) and the IR semantics implemented in vc/sym.py',
 'z3 5.3 and cvc5 1.1.2',
 'linear ownership argument: element ids are only created by the environment, moved, and never duplicated (DESIGN.md)',
 'a strict weak order is represented by an integer rank (sound for any strict weak order on finitely many elements)',
 'adapters: the wrapped sorter is any sorter that meets the contract AnySort of vc/specs/adapters.py (arbitrary comparisons, then the range sorted); std::vector<bool>, std::vector<Elem> and the std:: algorithms used by the headers are modelled by trusted contracts',
 'allocation addresses: distinct objects do not overlap; object sizes below 2^40 elements',
]
BOUND = 'every weak order on at most 6 elements (7 thorough) plus 32 input patterns at about 80 sizes up to 3000 (seeded), 4 orders, adversarial inputs; non-trivial: at least two elements'
FAST = ['-fno-sanitize=all', '-O2']
O0 = ['-fno-sanitize=all', '-O0', '-g0']
NATIVE_FLAGS = {'s18a': O0, 's18b': O0 + ['-std=c++20'], 's18c': O0, 's18d': O0}
for x in 'abcde': NATIVE_FLAGS['n4' + x] = FAST + ['-fno-vectorize']
for x in 'abcd': NATIVE_FLAGS['n5' + x] = FAST
SORTS = ['s1', 's2', 's3', 's4', 's5', 's6']
def N(*xs): return [(x,) for x in xs]
def ll(modes, tags=None, tus=('sorts1', 'ranges')): return {t: dict(modes=modes, tags=tags) for t in tus}
MEM = ('mem', 'own', 'pre', 'arith', 'frame')
ARB = 'collections of 3 elements, sorters made of 3 arbitrary operations (compare, project, exchange)'
B13 = [(r'\|vc_(?!comparison_counter|projection_counter|move_counter)', ARB)]
B09 = [(r'\|c09\|', 'sequences of at most 2 characters')]
PLAN = {
 'C01': dict(level='proof', tus=ll(['plain'], tus=('sorts1', 'ranges', 'merges', 'sorts2')), natives=N(*SORTS)),
 'C02': dict(level='proof', tus=ll(['stable'], tus=('sorts1', 'ranges', 'merges', 'adapters')), natives=N(*SORTS)),
 'C03': dict(level='proof', tus=ll(['plain'], MEM, tus=('sorts1', 'ranges', 'merges', 'adapters', 'sorts2')), natives=N(*SORTS)),
 'C04': dict(level='proof', scalar=['s04'], order=['c04a', 'c04b', 'c04c', 'c04d', 'c04e'], natives=N('n4a', 'n4b', 'n4c', 'n4d', 'n4e')),
 'C05': dict(level='proof', order=['c05'], natives=N('n5a', 'n5b', 'n5c', 'n5d')),
 'C06': dict(level='proof', tus=ll(['plain'], tus=('probes',)), natives=N('p6')),
 'C07': dict(level='proof', tus=ll(['plain'], tus=('probes',)), natives=N('p6')),
 'C08': dict(level='proof', scalar=['c08'], natives=N('c8')),
 'C09': dict(level='proof', scalar=['c09'], bounded_units=B09, tus=ll(['plain'], tus=('text',)), natives=N('x9')),
 'C10': dict(level='proof', scalar=['c10'], natives=N('w10')),
 'C11': dict(level='proof', tus=ll(['plain', 'stable'], tus=('adapters',)), natives=N('a1', 'a2', 'a3', 'a4', 'a5', 'l17')),
 'C12': dict(level='proof', tus=ll(['plain'], tus=('perm',)), natives=N('m12')),
 'C13': dict(level='proof', scalar=['c13'], bounded_units=B13, natives=N('m13')),
 'C14': dict(level='proof', scalar=['c14'], natives=N(*['t14' + x for x in 'abcdefgh'])),
 'C15': dict(level='proof', tus=ll(['exc'], MEM + ('exc',), tus=('x_sorts1', 'x_ranges', 'x_perm', 'x_merges', 'x_adapters', 'x_sorts2')), natives=N(*SORTS, 'a1', 'a2', 'a3', 'a4', 'a5', 'l17', 'p6')),
 'C16': dict(level='proof', tus=ll(['plain', 'stable'], tus=('merges',)), natives=N(*SORTS)),
 'C17': dict(level='proof', tus=ll(['plain', 'stable'], tus=('lists',)), natives=N('l17'), trusted=['std::list and std::forward_list are modelled (trusted): a list is the sequence of its nodes; splice, merge, swap and the iterator operations do to it what the standard says, and do not touch the elements']),
 'C18': dict(level='proof', scalar=['c18'], natives=N('s18a', 's18b', 's18c', 's18d')),
 'C19': dict(level='proof', scalar=['c19'], tus=ll(['plain'], tus=('ranges', 'sorts1', 'sorts2')), natives=N('k19')),
 'C20': dict(level='proof', tus=ll(['cost'], ('cost',), tus=('sorts1', 'perm')), natives=N('a1', 'n5d')),
 'C21': dict(level='proof', tus={**ll(['cost'], ('cost',), tus=('sorts1', 'ranges', 'merges')), **ll(['plain'], ('cost',), tus=('sorts2',))}, natives=N(*SORTS)),
}
TECH = 'contract-based deductive verification of the real headers (clang IR -> obligations -> z3/cvc5); bounded native stand-ins for functions not under contract'
NOTE = 'Every obligation generated from the current source is discharged by an SMT solver for the functions listed in the evidence under functions_under_contract; the other functions the property depends on are covered by a bounded stand-in (labelled, never counted as proved). Trusted: clang front end, the IR semantics of vc/, z3 and cvc5, and the assumptions listed under trusted_base.'
NOT_APPLICABLE = {}
