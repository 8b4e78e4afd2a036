"""Writes properties.jsonl and MANIFEST.json (run by hand when a property changes)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DOM = 'feasible parameters 0<k<v-1, 0<=l<k, 0<=u<=k'
P = []


def prop(id, title, statement, over, text, cant, files, mech, technique, note, observe=()):
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=cant,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=list(observe),
                                hook_needed=None)), technique, note))


prop('C01', 'Soundness: every answer is a strongly regular graph with the given parameters',
     f'For {DOM}, every matrix the solver yields is a symmetric v x v 0/1 matrix with zero diagonal, all row sums k, and '
     'exactly l (u) common ones for each adjacent (non-adjacent) pair of rows. It begins with the partial matrix the search '
     'started from, whether the two start rows or any valid longer partial matrix.',
     ['inputs'], 'all feasible parameter sets and all canonical partial matrices as starting points',
     'Tests run a dozen parameter sets below 20 vertices from the two start rows only; a wrong row can need a particular '
     'partial matrix, a larger graph or more than 64 columns.',
     ['srg/solver.py', 'srg/srg.py', 'srg/gauss_elim.py'],
     [('row search', 'srg/solver.py:solve_question'), ('equations', 'srg/srg.py:Question.from_matrix'),
      ('level-wise search', 'srg/solver.py:solve')],
     'property-based testing: definition of an SRG as oracle, enumerated parameters and random resume points (Hypothesis)',
     'Every answer on every generated case is checked against the definition with exact integers; the reference is used only '
     'to bound the size of a case.', ['matrices yielded by solver.solve'])
prop('C02', 'Completeness: no strongly regular graph with the given parameters is missed',
     f'For {DOM}, every strongly regular graph with these parameters is isomorphic to an answer; more exactly every canonical '
     'relabelling (in each row, ones come before zeros among columns that agree on all earlier rows) is an answer. The same '
     'holds when continuing from a partial matrix, and at each row every row that could follow is proposed.',
     ['inputs'], 'all feasible parameter sets, all graphs, all relabellings, all canonical partial matrices',
     'The solver test zips the answers with the stored ones, so missing answers pass, and it stays below 20 vertices.',
     ['srg/solver.py', 'srg/unique.py', 'srg/bounds.py', 'srg/fork.py', 'srg/gauss_elim.py'],
     [('branching', 'srg/solver.py:fork_enum'), ('column merging', 'srg/solver.py:reduce_col'),
      ('elimination', 'srg/gauss_elim.py:elim'), ('bound tightening', 'srg/bounds.py:lower_upper_bound')],
     'differential property-based testing against an independent reference enumerator and textbook graph families',
     'Completeness is decided up to canonical form against an independent exact enumerator (budgeted), and against textbook '
     'graphs up to 255 vertices under random relabelling.', ['matrices yielded by solver.solve', 'rows yielded by solver.solve_question'])
prop('C03', 'Exactly the canonical completions are yielded, each once',
     f'For {DOM} and any canonical partial matrix, the answers are exactly the canonical completions, with no repetition and '
     'nothing non-canonical. The result is the same for all signed integer types that can hold v.',
     ['inputs'], 'all feasible parameter sets and canonical partial matrices',
     'Tests compare a zip of sorted lists, which cannot see missing or surplus answers; they never resume from a partial matrix.',
     ['srg/solver.py', 'srg/srg.py'],
     [('bucketed answers', 'srg/srg.py:Answer.binarize'), ('level-wise search', 'srg/solver.py:solve')],
     'differential property-based testing: multiset equality with a reference enumerator',
     'Exact multiset comparison on every case within the reference budget.', ['matrices yielded by solver.solve'])
prop('C04', 'Row search is exact: the 0/1 solutions with ones first in equal columns',
     'Given a 0/1 system A x = b with non-negative b whose last row is all ones, and whose equal columns are adjacent, the row '
     'search yields exactly those 0/1 vectors x with A x = b that put ones before zeros within each group of equal columns, '
     'each once, and ends. This holds for any number of rows and columns in particular beyond 64.',
     ['inputs'], 'all such systems, and those of all canonical partial matrices',
     'Tests check a handful of fixed systems; elimination, bounds and branching interact differently on each system.',
     ['srg/solver.py', 'srg/gauss_elim.py', 'srg/unique.py', 'srg/bounds.py', 'srg/fork.py'],
     [('stack search', 'srg/solver.py:solve_question')],
     'differential property-based testing against brute-force integer search on structured random systems',
     'Exact comparison with an independent bounded integer search; groups up to 8, wide and tall systems beyond 64.',
     ['rows yielded by solver.solve_question'])
prop('C05', 'Simplification never changes the set of rows a question stands for',
     'Column merging, elimination, zero-bound removal and single-unknown assignment, applied in any order any number of times '
     '(with branching in between), leave unchanged the set of 0/1 rows (ones first within equal columns) that the question '
     'admits. A step may report that there is no solution only when that set is empty.',
     ['inputs', 'histories'], 'all systems and all sequences of simplification and branching steps',
     'Tests apply single steps to a few literal questions in the one order the solver uses.',
     ['srg/solver.py', 'srg/gauss_elim.py', 'srg/bounds.py', 'srg/srg.py'],
     [('steps', 'srg/solver.py:reduce_col, eliminate, zero_in_b, only_1_element_in_row'),
      ('answer bookkeeping', 'srg/srg.py:Answer')],
     'stateful property-based testing: model set of admitted rows compared after every step of random histories',
     'After every step the admitted set is recomputed by exhaustive integer search from the public state of the question.',
     ['Question.A, b, quota, bounds, answer'])
prop('C06', 'Branching splits a question into disjoint cases that cover it',
     'Branching on one unknown yields questions, each with that unknown fixed, whose sets of admitted rows are pairwise '
     'disjoint and together give the set of the branched question; every value that lets the remaining unknowns reach the '
     'remaining sum within their bounds is enumerated exactly once together with that sum. Branches share no state.',
     ['inputs', 'histories'], 'all questions reachable by simplification and branching; all sums, bounds and positions',
     'Two literal enumerations are tested; overlap, omission or sharing of state shows only on particular bounds.',
     ['srg/fork.py', 'srg/solver.py'], [('value enumeration', 'srg/fork.py:enum'), ('branching', 'srg/solver.py:fork_enum')],
     'property-based testing against exhaustive enumeration, stateful descent through branches',
     'Exhaustive oracle for values; set equality and disjointness for branches.', ['fork.enum', 'solver.fork_enum'])
prop('C07', 'Elimination yields an equivalent 0/1 system',
     'Elimination turns a 0/1 system A x = b with non-negative b, one of whose equations is the sum of all unknowns, into a 0/1 system over the same unknowns with non-negative '
     'right-hand side and exactly the same non-negative integer solutions, for any number of columns. It may instead report '
     'that there is no solution, but only when that is so.',
     ['inputs'], 'all 0/1 systems that include the sum of all unknowns',
     'A few literal matrices are tested, none with contradictory equations and none beyond 64 columns.',
     ['srg/gauss_elim.py'], [('row subtraction', 'srg/gauss_elim.py:_gauss_elim'), ('coding', 'srg/gauss_elim.py:_encode, _decode')],
     'property-based testing: solution-set equality by exhaustive search, rational row-space checks',
     'Exact equality of solution sets for small systems, necessary conditions on wide ones.', ['gauss_elim.elim'])
prop('C08', 'Merging equal adjacent columns is lossless and maximal',
     'Reducing a 0/1 matrix gives its maximal runs of equal adjacent columns in order, with exact multiplicities and start '
     'positions, for any number of rows. Expanding the reduced matrix by the multiplicities gives the original back.',
     ['inputs'], 'all 0/1 matrices with at least one row and column', 'One literal matrix is tested; columns that differ only far down or above '
     '64 rows are not.', ['srg/unique.py'], [('column codes', 'srg/unique.py:_encode'), ('runs', 'srg/unique.py:reduce, expand')],
     'property-based testing: round trip and run-length reference', 'Exact reference run-length encoding.', ['unique.reduce', 'unique.expand'])
prop('C09', 'Upper bounds are tightened fully but never below a feasible value',
     'Tightening sets each bound to the minimum of its old value and the right-hand sides of the equations in which the unknown '
     'occurs, so no non-negative solution within the old bounds is cut off, and a second pass changes nothing. Exactly the unknowns '
     'with zero bound are reported as zero, and exactly the unknowns that occur alone in an equation are reported once each with such an equation.',
     ['inputs'], 'all 0/1 systems and bounds', 'Two literal systems are tested.', ['srg/bounds.py'],
     [('tightening', 'srg/bounds.py:lower_upper_bound'), ('single unknowns', 'srg/bounds.py:one_element_row_locs')],
     'property-based testing against a direct reference and exhaustive solutions', 'Exact.', ['bounds.lower_upper_bound'])
prop('C10', 'Bounded-sum enumeration lists every way to place a sum, once',
     'Enumerating the ways to place a non-negative sum into positions with given non-negative upper bounds yields every tuple '
     'within the bounds with that sum exactly once, and nothing else.', ['inputs'],
     'all sums and bound vectors', 'Few literal cases are tested.', ['srg/partition.py'], [('recursion', 'srg/partition.py:enum')],
     'property-based testing against brute force', 'Exact brute force for sums up to 14 and six bounds up to 5.', ['partition.enum'])
prop('C11', 'A bucketed answer and its 0/1 row agree, and incomplete answers are refused',
     'An answer with counts per bucket of adjacent equal columns becomes the row that has, in each bucket, that many ones '
     'followed by zeros; bucket sizes, length and the unknown positions are reported correctly. An answer with an unknown or '
     'over-full bucket is never turned into a row, a copy is equal and independent, a row handed out is independent of the answer '
     '(writing to it changes neither the answer nor rows made later), and answers are equal exactly when counts, boundaries and '
     'length agree.', ['inputs'], 'all bucket partitions and all counts',
     'One or two literal answers are tested.', ['srg/srg.py'], [('answer', 'srg/srg.py:Answer')],
     'property-based testing against a reference expansion', 'Exact.', ['Answer.binarize, quota, unknown, copy, =='])
prop('C12', 'Sorting orders adjacency matrices by their upper triangles',
     'Sorting any list or iterator of symmetric 0/1 matrices of one size returns the same matrices in ascending '
     'lexicographic order of their strict upper triangles read row by row, whatever their input order and signed integer '
     'type. The inputs are left unchanged.', ['inputs'], 'all lists of symmetric 0/1 matrices of one size',
     'One literal pair of matrices is tested.', ['srg/sorter.py'], [('comparison', 'srg/sorter.py:sort')],
     'property-based testing: reference order and permutation metamorphic relation', 'Exact.', ['sorter.sort'])
prop('C13', 'Maximizing gives a canonical relabelling of the same graph',
     'Maximizing the adjacency matrix (of a signed integer type) of any simple graph on at least two vertices returns a relabelling of the same graph in '
     'canonical form (in each row, ones before zeros among later columns that agree on all earlier rows), whose strict upper triangle is '
     'lexicographically not smaller than the input. It leaves its argument unchanged, and a matrix already in canonical form '
     'is returned as it is.', ['inputs'], 'all simple graphs', 'Two literal graphs are tested.', ['srg/sorter.py'],
     [('refinement', 'srg/sorter.py:AdjMat.sort, _div_sort, _sort')],
     'property-based testing: invariants (canonical, isomorphic, not smaller, idempotent) on structured random graphs',
     'Isomorphism is decided exactly (reference relabelling, else backtracking).', ['sorter.maximize'])
prop('C14', 'Spectrum and determinant from the parameters match the graph',
     'For parameters of any size, given as Python integers or as read back from a matrix, that satisfy the counting identity and the integrality or conference conditions, the reported eigenvalues are k, '
     'then the larger and the smaller root of x^2-(l-u)x-(k-u), with multiplicities 1, f, g, where f+g=v-1 and k plus the weighted sum of the roots is 0. '
     'The determinant is exactly the integer product, and the conference measure is 2k+(v-1)(l-u), zero exactly for conference graphs.',
     ['inputs'], 'all admissible parameters up to about 10^60 vertices (determinants up to 3000)',
     'Tests compare rounded floating-point values on stored graphs up to 29 vertices.', ['srg/utils.py'],
     [('eigenvalues', 'srg/utils.py:eig'), ('determinant', 'srg/utils.py:determinant')],
     'property-based testing against exact integer formulas and exact determinants of actual graphs',
     'Exact integers; conference eigenvalues within 1e-9 relative.', ['utils.eig', 'utils.determinant', 'utils.conference'])
prop('C15', 'Complements of graphs and parameters agree; infeasible ones are rejected',
     'The complement of an adjacency matrix of a simple graph has ones exactly at the off-diagonal zeros, complementing twice gives the original back, and the '
     'argument is unchanged. Complementing the parameters gives those of the complement graph and is an involution. '
     'The feasibility test accepts exactly the parameters with (v-k-1)u = k(k-l-1).',
     ['inputs'], 'all simple graphs and all integer parameter sets', 'Only stored graphs are complemented, and no infeasible parameters are tried.',
     ['srg/utils.py'], [('complement', 'srg/utils.py:complement, complement_vklu'), ('feasibility', 'srg/utils.py:assert_srg')],
     'property-based testing: involution, definition, textbook graphs', 'Exact.', ['utils.complement', 'utils.complement_vklu', 'utils.assert_srg'])
prop('C16', 'The stored database is valid, canonical, duplicate-free and complete',
     'Every stored matrix is a strongly regular graph with the parameters of its entry, in canonical form, and stored once; listing, '
     'parameter extraction and retrieval agree, and parameters without an entry give no graphs. Except for (25,12,5,6), '
     '(26,10,3,4) and (29,14,6,7), which are partial or unsolved, an entry holds every canonical graph with its parameters: the '
     'solver\'s and only those.', ['inputs'], 'all entries, all relabellings of their graphs',
     'Tests check the matrix identity of what is stored, but not what is missing, duplicated or not canonical.', ['srg/database'],
     [('entries', 'srg/database/problem_*.py'), ('access', 'srg/database/__init__.py')],
     'property-based testing: random relabellings must be stored; full reference enumeration per entry',
     'Completeness against an independent enumerator for all complete entries but (27,10,1,5), which is decided by relabelling closure.',
     ['database.list_problems, extract_vklu, get_solutions'])
prop('C17', 'The solver command prints exactly the answers, whole and in order',
     'For feasible parameters, running the solver command with v k l u exits with status 0 and prints exactly the answers, every matrix complete '
     'and unabridged, in ascending order of their upper triangles. Parameters that violate the counting identity, and malformed arguments, give a non-zero '
     'exit status and no matrix.', ['inputs'], 'all command lines', 'The command is not tested at all.', ['srg/__main__.py'],
     [('main program', 'srg/__main__.py')], 'property-based testing of the program as a subprocess against a reference enumerator',
     'Output is parsed back to matrices and compared exactly.', ['standard output and exit status of python -m srg'])
prop('C18', 'The database command lists what is stored and draws it faithfully',
     'Listing without parameters names exactly the stored problems; with parameters it prints exactly the stored graphs in '
     'their stored order. Drawing writes one picture per stored graph, named after parameters and index, that joins exactly the numbered '
     'points whose vertices are adjacent. Unknown commands with parameters, infeasible parameters and parameters without an entry give a non-zero exit '
     'status and write nothing.', ['inputs'], 'all entries, all command lines, entries made of arbitrary graphs',
     'Neither the command nor drawing is tested.', ['srg/database/__main__.py', 'srg/database/__init__.py'],
     [('main program', 'srg/database/__main__.py'), ('drawing', 'srg/database/__init__.py:draw')],
     'property-based testing: subprocess runs, and pictures read back into graphs',
     'Pictures are judged by their line segments and labels as handed to the renderer.', ['standard output, files written'])
prop('C19', 'Searches and questions do not interfere with each other',
     'A search leaves the matrix it started from unchanged, and any number of searches, for graphs or for single rows, interleaved, abandoned, repeated or run in several threads of one process '
     'give exactly the answers they give alone, even if the caller overwrites answers it was handed. A copied question is '
     'equal to and independent of the original, and appending a row gives a new matrix (complete exactly when square) and leaves the old one as it was.',
     ['histories', 'inputs'], 'all interleavings of searches, all question states', 'Tests run one search at a time from fresh inputs.',
     ['srg/solver.py', 'srg/srg.py'], [('level-wise search', 'srg/solver.py:solve, advance'), ('copies', 'srg/srg.py:Question.copy, Answer.copy'),
      ('append', 'srg/srg.py:SRG.append_and_return_new')],
     'stateful property-based testing: random histories of searches against a model', 'Exact comparison with the reference result of each search alone.',
     ['matrices yielded by solver.solve', 'Question'])
prop('C20', 'The cythonized build works and gives the same exact results',
     'Building with the project\'s cythonize script compiles all listed modules, they import, and the compiled solver, row search, simplification, '
     'elimination, column merging, bounds, enumeration, answers, equations, spectrum and refusals, and the commands, give exactly the results required of the interpreted ones. '
     'The uncythonize script leaves exactly the sources, which then run interpreted again, and building again uses the sources as they are then.',
     ['configurations', 'inputs'], 'the compiled configuration, over the inputs of C03 to C11, C14, C15, C17, C19, C22, C23 and C28', 'The tests only run the interpreted modules; typed '
     'annotations change meaning when compiled.', ['cythonize.sh', 'setup.py', 'srg'], [('build', 'cythonize.sh'), ('typed annotations', 'srg/unique.py, srg/gauss_elim.py')],
     'differential property-based testing of the compiled modules against the reference oracles',
     'The scratch build is made fresh from the working tree on every run.', ['compiled modules'])
prop('C21', 'The debug wrapper only observes',
     'Wrapping any simplification step in the debug decorator changes neither its effect on the question, nor its result, nor '
     'the exception it raises, for questions the solver can reach.', ['inputs', 'histories'], 'all reachable questions and steps', 'The decorator is not tested.',
     ['srg/utils.py', 'srg/srg.py'], [('decorator', 'srg/utils.py:debug')], 'differential property-based testing of wrapped and plain steps',
     'Exact comparison of the whole question state.', ['utils.debug'])
prop('C22', 'The equations for the next row say exactly what it must satisfy',
     'For a partial matrix of two or more rows of feasible parameters whose first two vertices are adjacent, the question set up '
     'for the next row admits a 0/1 completion of that row exactly if it has row sum k and the right number l or u of common ones with every earlier '
     'row; all unknowns are open, single and bounded by one. It is refused only if some required count is already exceeded.',
     ['inputs'], 'all partial matrices, canonical or not', 'One literal partial matrix is tested.', ['srg/srg.py'],
     [('equations', 'srg/srg.py:Question.from_matrix')], 'property-based testing: predicate equivalence on true rows and near misses',
     'Sampled rows: the true next row, all reference rows and random neighbours of them.', ['Question.from_matrix'])
prop('C23', 'The start rows lose no graph, and parameters can be read back',
     f'For {DOM}, the two start rows satisfy all conditions on the first two vertices and are in canonical form, and every strongly '
     'regular graph with these parameters has a relabelling that begins with them. The parameters read back from a partial matrix '
     'of two or more rows whose first two vertices are adjacent are the original ones.', ['inputs'], 'all feasible parameters and all graphs',
     'Tests use a few parameter sets.', ['srg/solver.py', 'srg/srg.py'], [('start rows', 'srg/solver.py:_seed'), ('parameters', 'srg/srg.py:vklu')],
     'enumeration of all feasible parameters plus property-based testing on relabelled textbook graphs', 'All 21 thousand feasible parameter sets are enumerated.',
     ['solver._seed', 'srg.vklu'])
prop('C24', 'Swapping two vertices relabels the graph and nothing else',
     'Swapping vertices i and j exchanges rows and columns i and j of an adjacency matrix and leaves all else and the argument unchanged, and '
     'swapping again restores it. The verifying version refuses a matrix that has a loop or is not symmetric.', ['inputs', 'histories'],
     'all simple graphs and sequences of swaps', 'Swapping is not tested.', ['srg/sorter.py'], [('swap', 'srg/sorter.py:swap, swap_and_verify')],
     'property-based testing: reference permutation, sequences of swaps and their inverse', 'Exact.', ['sorter.swap', 'sorter.swap_and_verify'])
prop('C25', 'Coloured printing shows the whole value; composition applies right to left',
     'Printing a value in any of the colours outputs exactly its representation and a newline (apart from colour codes). Composing functions gives the '
     'function that applies the last one to all its arguments, then the others from right to left, each once.', ['inputs'],
     'all values and chains of functions', 'Not tested.', ['srg/pprint.py'], [('printing', 'srg/pprint.py:green, blue, red, yellow'), ('composition', 'srg/pprint.py:compose')],
     'property-based testing with a recorded call log', 'Exact.', ['standard output'])
prop('C26', 'Ordering equations by right-hand side keeps every equation intact',
     'Sorting a system by its right-hand side reorders, in place, the rows of the matrix and the right-hand sides together, so that the '
     'right-hand sides ascend and the equations are the same ones.', ['inputs'], 'all integer systems', 'One literal system is tested.',
     ['srg/gauss_elim.py'], [('sort', 'srg/gauss_elim.py:sort')], 'property-based testing: multiset of equations preserved', 'Exact.', ['gauss_elim.sort'])
prop('C27', 'A problem and its complement have complementary answers',
     f'For {DOM} whose complementary parameters are in the same range, the complements of the answers of one problem, in every '
     'canonical relabelling, are answers of the complementary problem, and one has answers exactly when the other has.', ['inputs'],
     'all such parameter sets, answers and relabellings', 'No test relates the answers of two problems.', ['srg/solver.py', 'srg/utils.py'],
     [('search', 'srg/solver.py:solve'), ('complement', 'srg/utils.py:complement_vklu')],
     'metamorphic property-based testing across complementary problems', 'Needs no reference solver: the two runs check each other.',
     ['matrices yielded by solver.solve'])
prop('C28', 'Ill-formed questions, answers and rows are refused',
     'A question is refused unless it has one right-hand side per row and one bound per column, all of them and the remaining sum '
     'non-negative; assigning an ill-formed part is refused and leaves the question as it was. An answer is refused unless it has '
     'one count per bucket and its bucket starts begin at 0, strictly ascend and stay below its length. Appending a row of wrong '
     'length, continuing a complete matrix, branching without unknowns, and placing a negative sum or into no position are refused; '
     'well-formed ones are accepted. The debug wrapper reports (AssertionError) a step that leaves a question ill-formed: negative '
     'entries, mismatched sizes, a count beyond its bucket, or a nonzero right-hand side without unknowns.', ['inputs', 'histories'], 'all shapes and values with one condition broken, for all reachable questions',
     'No test constructs anything ill-formed.', ['srg/srg.py', 'srg/solver.py', 'srg/partition.py'],
     [('constructor and setters', 'srg/srg.py:Question, Answer'), ('append', 'srg/srg.py:SRG.append_and_return_new'),
      ('advance', 'srg/solver.py:advance, fork_enum'), ('invariant check', 'srg/utils.py:debug')],
     'property-based testing: single-fault mutation of well-formed objects', 'Any exception counts as refusal.',
     ['Question, Answer, SRG constructors and setters'])
prop('C29', 'What is printed about questions and answers shows what is there',
     'The printed form of a question shows every equation in order, the remaining sum, the bounds and the answer; the printed form of an '
     'answer, or of a partial matrix of at most 1000 entries, evaluates to an equal one. The debug wrapper reports no change exactly '
     'when a simplification step changed nothing, and otherwise prints the question before and after.',
     ['inputs', 'histories'], 'all reachable questions, answers and partial matrices', 'Nothing printed is tested.',
     ['srg/srg.py', 'srg/utils.py'], [('printed forms', 'srg/srg.py:Question.__repr__, Answer.__repr__, SRG.__repr__'), ('debug', 'srg/utils.py:debug')],
     'round-trip property-based testing: printed forms read back', 'Read back by a tolerant parser (spaces and line breaks are free).',
     ['repr, str and debug output'])

if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p, _, _ in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    m = {'version': 1, 'setup_cmd': './check.sh --selftest',
         'checks': [{'property': p['id'], 'quick_cmd': f'./check.sh {p["id"]}',
                     'thorough_cmd': f'VERIF_TIER=thorough ./check.sh {p["id"]}',
                     'technique': t, 'level': 'exploration', 'level_note': n} for p, t, n in P],
         'not_applicable': [],
         'notes': 'Every check is generated-input search (Hypothesis or complete enumeration of a finite list) against an '
                  'explicit oracle. ./check.sh ID --replay FILE replays a saved minimal case.'}
    with open(os.path.join(V, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1)
        f.write('\n')
