"""The properties: statements, anchors, and the functions whose agreement with the reviewed code each one needs.

`code`: regular expressions over "<file>|<function id>"; every matching function of the current tree is an
obligation of the property, and so is what those functions call inside `also` (regular expressions over the same
text).
"""

IO = r'^src/io/'
MPS = r'^src/io/mps/'
GF = r'^src/data/linear_program/general_form/mod\.rs\|'
PRE = r'^src/data/linear_program/general_form/presolve/(?!test|scale)'
SCALE = r'^src/data/linear_program/general_form/presolve/scale/'
ELEM = r'^src/data/linear_program/elements\.rs\|'
ALG = r'^src/algorithm/'
TP = r'^src/algorithm/two_phase/'
MD = TP + r'matrix_provider/matrix_data\.rs\|'
CARRY = TP + r'tableau/inverse_maintenance/carry/'
LU = CARRY + r'lower_upper/'
LA = r'^src/data/linear_algebra/'
ANYFILE = r'^src/'

P = []


def prop(id, title, statement, over, text, why, files, mechanism, code, also=(), state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mechanism=mechanism, code=code, also=list(also), state=list(state), observe=list(observe)))


prop('C01', 'Importing never crashes, whatever the text',
     'Reading a problem from any text, in the fixed or the free MPS format, and converting what was read to a linear '
     'program, ends with a problem or with an error value. No input text, however malformed or truncated and whatever '
     'characters, numbers or names it contains, makes it panic.',
     ['inputs'], 'every text given to the two MPS readers, and every problem read converted to general form',
     'The importer tests read well-formed files and a handful of broken lines; a panic needs one specific malformed '
     'line, name, number or section order among unboundedly many.',
     ['src/io/mod.rs', 'src/io/mps/parse/mod.rs', 'src/io/mps/parse/fixed.rs', 'src/io/mps/parse/free.rs',
      'src/io/mps/number/parse.rs', 'src/io/mps/convert.rs'],
     [('field extraction with checked slices', 'src/io/mps/parse/fixed.rs'),
      ('section parsing returning errors', 'src/io/mps/parse/mod.rs'),
      ('checked decimal arithmetic', 'src/io/mps/number/parse.rs')],
     [MPS + r'parse/', MPS + r'number/', MPS + r'convert\.rs', r'^src/io/mod\.rs', r'^src/io/mps/mod\.rs\|(?!.*derived)',
      GF + r'(GeneralForm::new|is_consistent)', LA + r'matrix\.rs\|<ColumnMajor as'])

prop('C02', 'Numbers in a file are read exactly',
     'A decimal number in a file, with optional sign and decimal point, becomes the rational number it denotes, exactly: '
     'same sign, same integer digits, same fractional digits, no rounding and no binary floating point in between. Text '
     'that is not such a number, or has too many digits to be represented, is refused with an error instead of being '
     'read as another number.',
     ['inputs'], 'every piece of text in a value position of a file',
     'Tests sample a few dozen numerals; sign handling, leading zeros, position of the point and the digit limit '
     'interact for every numeral.',
     ['src/io/mps/number/parse.rs'],
     [('splitting into sign, integer and decimal part', 'src/io/mps/number/parse.rs'),
      ('conversion to a rational', 'src/io/mps/number/parse.rs')],
     [MPS + r'number/'])

prop('C03', 'Malformed input is reported as an error, never swallowed',
     'Whenever part of a file cannot be understood or contradicts another part (unknown section, row type, bound type, '
     'marker or name, a duplicate, a missing or unreadable value, an early end) the import as a whole returns an error. '
     'No failing step is ignored, replaced by a default or turned into a successful result, and every error can be '
     'displayed and its chain of causes walked to its end.',
     ['inputs'], 'every text and every error value the importer can produce',
     'Each test checks one kind of malformed input; that no failing branch anywhere is dropped is a statement about all '
     'branches.',
     ['src/io/error.rs', 'src/io/mod.rs', 'src/io/mps/parse/mod.rs', 'src/io/mps/convert.rs'],
     [('error types and their sources', 'src/io/error.rs'), ('section parsers', 'src/io/mps/parse/mod.rs')],
     [IO + r'error\.rs', IO + r'mod\.rs', MPS + r'parse/', MPS + r'number/', MPS + r'convert\.rs'])

prop('C04', 'MPS sections and records mean what the format says',
     'The name, objective sense, row types, columns, integer markers, right-hand sides, ranges and bounds of a file are '
     'recorded as written: each letter or keyword selects its own meaning, each value is attached to the row and column '
     'named on its line, comments and blank lines are skipped, and sections are accepted only in their order.',
     ['inputs'], 'every well-formed MPS text',
     'Tests compare the result for a few fixed files; the mapping of every keyword and of every field position has to be '
     'right for all files.',
     ['src/io/mps/parse/mod.rs', 'src/io/mps/parse/fixed.rs', 'src/io/mps/parse/free.rs', 'src/io/mps/token.rs'],
     [('section parsers', 'src/io/mps/parse/mod.rs'), ('keyword tables', 'src/io/mps/parse/mod.rs')],
     [MPS + r'parse/', MPS + r'mod\.rs'])

prop('C05', 'The fixed and free readers agree on their common files',
     'A file whose fields have no embedded blanks and sit in the columns of the fixed format is read to the same problem, '
     'or refused alike, by the fixed-format and the free-format reader. In particular every field is taken from its own '
     'columns, none is lost at the end of a line, and optional trailing fields are present for both or for neither.',
     ['inputs'], 'every file that is laid out in the fixed columns and has no blanks inside names',
     'The existing tests exercise each reader on its own handful of lines.',
     ['src/io/mps/parse/fixed.rs', 'src/io/mps/parse/free.rs'],
     [('field positions', 'src/io/mps/parse/fixed.rs'), ('blank separated fields', 'src/io/mps/parse/free.rs')],
     [MPS + r'parse/', r'\|import$'])

prop('C06', 'Bound records give variables exactly the bounds they denote',
     'After import each variable has the tightest lower and upper bound stated by its bound records (lower, upper, fixed, '
     'free, infinite, binary, integer variants) and is integer exactly when a record or marker says so. A variable with no '
     'stated lower bound gets zero as its lower bound unless it is free; contradictory or unsupported records (free and '
     'bounded, crossing bounds, semi-continuous) are an error.',
     ['inputs'], 'every sequence of bound records for every set of variables',
     'Tests cover single records; the result depends on sequences and combinations of records.',
     ['src/io/mps/convert.rs', 'src/io/mps/parse/mod.rs'],
     [('applying one record', 'src/io/mps/convert.rs'), ('default lower bounds', 'src/io/mps/convert.rs')],
     [r'\|(process_bounds?|replace_existing_with|fill_in_default_lower_bounds|compute_variable_info|parse_bounds_section|parse_bound_line)$',
      MPS + r'convert\.rs\|<MPS as TryInto', MPS + r'.*BoundType'])

prop('C07', 'Right-hand sides and ranges give constraints the intervals they denote',
     'After import a row with right-hand side b and range r allows exactly the interval the MPS format prescribes: '
     '[b-|r|, b] for a less-or-equal row, [b, b+|r|] for a greater-or-equal row, and [b, b+r] or [b+r, b] for an equality '
     'row by the sign of r; without a range it keeps its relation. A missing right-hand side is zero, several right-hand '
     'sides combine to the tightest, and contradictory or duplicate entries are an error.',
     ['inputs'], 'every combination of rows, right-hand sides and ranges',
     'The one unit test uses a few hand-picked rows; row type, sign, presence and multiplicity combine freely.',
     ['src/io/mps/convert.rs'],
     [('merging right-hand sides', 'src/io/mps/convert.rs'), ('range conversion', 'src/io/mps/convert.rs')],
     [r'\|(compute_constraint_info|compute_ranges|compute_constraint_types|compute_b|include_range|check_ranges_consistency|parse_value_section_line|save_to_group_collector|parse_optional_section)$',
      MPS + r'convert\.rs\|<MPS as TryInto', MPS + r'.*(Rhs|Range)', ELEM])

prop('C08', 'The imported problem has the rows, columns and coefficients of the file',
     'Every column of the file becomes one variable with its name, type, cost and coefficients, in the order of the file, '
     'and every row except the cost row becomes one constraint; a coefficient stands in the row and column it was given '
     'for, an explicit zero leaves no entry, and anything not given is zero.',
     ['inputs'], 'every file accepted by the importer',
     'Tests compare whole results for a few small files.',
     ['src/io/mps/convert.rs', 'src/io/mps/parse/mod.rs', 'src/data/linear_program/general_form/mod.rs'],
     [('column collection', 'src/io/mps/parse/mod.rs'), ('conversion to variables and matrix', 'src/io/mps/convert.rs')],
     [MPS + r'convert\.rs', MPS + r'parse/', GF + r'GeneralForm::new$', GF + r'is_consistent',
      LA + r'matrix\.rs\|<ColumnMajor as', r'^src/io/mod\.rs'])

prop('C09', 'Standardizing yields an equivalent non-negative minimization problem',
     'Preparing a problem for the solver (shifting variables to a zero lower bound, flipping variables with only an upper '
     'bound, splitting free variables, making right-hand sides non-negative, turning maximization into minimization and '
     'grouping constraints by type) describes the same set of solutions and the same objective: each step changes '
     'coefficients, right-hand sides, relations, ranges, bounds, costs and the objective constant together.',
     ['inputs'], 'every problem in general form',
     'Tests check single steps on small fixed problems; the steps must agree with each other for every sign, bound and '
     'relation combination.',
     ['src/data/linear_program/general_form/mod.rs', 'src/data/linear_program/elements.rs'],
     [('variable transformation', 'src/data/linear_program/general_form/mod.rs'),
      ('row sign change and reordering', 'src/data/linear_program/general_form/mod.rs')],
     [GF + r'GeneralForm::(standardize|derive_matrix_data|transform_variables|split_free_variables|make_b_non_negative|make_minimization_problem|reorder_constraints_by_type|presolve|remove_rows_and_columns)',
      GF + r'(is_consistent|Variable::)', ELEM, LA + r'matrix\.rs\|SparseMatrix::(change_row_signs|concatenate)'])

prop('C10', 'Solutions are mapped back to the variables of the original problem',
     'From a solution of the reduced problem the solution reported for the original problem gives every original variable, '
     'under its original name and in its original place, the value it must have: shifts, flips, scaling and splits are '
     'undone, and variables that presolve removed get their fixed value or the value that follows from the others.',
     ['inputs', 'histories'], 'every problem, every sequence of transformations and every reduced solution',
     'Tests reconstruct a few fixed solutions; the composition of all transformations over all problems is not sampled.',
     ['src/data/linear_program/general_form/mod.rs', 'src/data/linear_program/solution.rs',
      'src/algorithm/two_phase/matrix_provider/matrix_data.rs'],
     [('reconstruction', 'src/data/linear_program/general_form/mod.rs'),
      ('values of removed variables', 'src/data/linear_program/general_form/presolve/rule/slack.rs')],
     [GF + r'GeneralForm::(compute_solution|get_solution|reshift|compute_full|nr_)', GF + r'.*(RemovedVariable|OriginalVariable)',
      GF + r'GeneralForm::(update_values_that_remain|transform_variables|split_free_variables|compute_presolve_changes|presolve|remove_rows_and_columns|make_minimization_problem)',
      r'solution\.rs\|', PRE + r'rule/(fixed_variable|slack)', PRE + r'updates\.rs\|', r'\|.*reconstruct_solution$', r'\|Index::compute_removed_variable_solution$', SCALE + r'mod\.rs'])

prop('C11', 'Presolve decisions preserve feasibility and optimality',
     'Every reduction presolve makes is justified by the problem: it removes a constraint only when the variable bounds '
     'imply it, tightens a bound only to a value the constraints imply, fixes a variable only at a value some optimal '
     'solution has, and declares the problem infeasible or unbounded only when it is.',
     ['inputs'], 'every problem given to presolve and every row and variable a rule is applied to',
     'Per-rule tests use one or two rows each; soundness depends on signs, relation kinds, presence of bounds and costs in '
     'every combination.',
     ['src/data/linear_program/general_form/presolve/rule/bound_constraint.rs',
      'src/data/linear_program/general_form/presolve/rule/domain_propagation.rs',
      'src/data/linear_program/general_form/presolve/rule/fixed_variable.rs',
      'src/data/linear_program/general_form/presolve/rule/slack.rs',
      'src/data/linear_program/general_form/presolve/updates.rs'],
     [('presolve rules', 'src/data/linear_program/general_form/presolve/rule'),
      ('independent column optimization', 'src/data/linear_program/general_form/presolve/updates.rs')],
     [PRE, GF + r'Variable::', ELEM + r'.*(BoundDirection|RangedConstraint)',
      GF + r'GeneralForm::(presolve|compute_presolve_changes|update_values_that_remain|remove_rows_and_columns|compute_solution)'])

prop('C12', 'Presolve keeps its bookkeeping in step with the problem',
     'Throughout presolve the counters, queues, activity bounds and pending changes describe exactly the rows and columns '
     'that are still active, and afterwards every change that was decided (bounds, right-hand sides, relations, removals, '
     'objective constant) is applied to the problem once and to the right row or variable.',
     ['inputs', 'histories'], 'every sequence of presolve steps on every problem',
     'A stale counter or activity bound shows only after a particular sequence of reductions.',
     ['src/data/linear_program/general_form/presolve/mod.rs', 'src/data/linear_program/general_form/presolve/counters.rs',
      'src/data/linear_program/general_form/presolve/queues.rs', 'src/data/linear_program/general_form/presolve/updates.rs',
      'src/data/linear_program/general_form/mod.rs'],
     [('counters', 'src/data/linear_program/general_form/presolve/counters.rs'),
      ('queues', 'src/data/linear_program/general_form/presolve/queues.rs'),
      ('pending updates', 'src/data/linear_program/general_form/presolve/updates.rs')],
     [PRE, GF + r'GeneralForm::(presolve|compute_presolve_changes|update_values_that_remain|remove_rows_and_columns|compute_solution_where_possible)'])

prop('C13', 'Scaling multiplies rows and columns consistently and is undone exactly',
     'Scaling a problem multiplies each row, its right-hand side and its range by that row\'s factor, and each column and '
     'its cost by that column\'s factor while dividing that variable\'s bounds by it; factors are positive and exact. '
     'Scaling back with the stored factors restores the problem, and a solution of the scaled problem scaled back solves '
     'the unscaled one.',
     ['inputs'], 'every problem and every set of scale factors',
     'The tests scale a few small problems with particular factors.',
     ['src/data/linear_program/general_form/presolve/scale/mod.rs',
      'src/data/linear_program/general_form/presolve/scale/rational/mod.rs'],
     [('application of factors', 'src/data/linear_program/general_form/presolve/scale/mod.rs'),
      ('choice of factors', 'src/data/linear_program/general_form/presolve/scale/rational/mod.rs')],
     [SCALE + r'(?!rational/test)'])

prop('C14', 'The matrix given to the solver is laid out consistently',
     'For a standardized problem the rows (equalities, inequalities, ranges, variable bounds) and the columns (variables, '
     'then the slacks of ranges, inequalities and bounds) presented to the solver are those of the problem: sizes, column '
     'contents, right-hand sides, costs, slack signs and bound rows all agree with one another and with the initial basis.',
     ['inputs'], 'every standardized problem and every row and column index',
     'A test inspects one or two small matrices; index arithmetic over four row groups and five column groups must be right '
     'for every size of each group.',
     ['src/algorithm/two_phase/matrix_provider/matrix_data.rs'],
     [('column and row layout', 'src/algorithm/two_phase/matrix_provider/matrix_data.rs')],
     [MD, TP + r'matrix_provider/(mod|variable)\.rs', TP + r'matrix_provider/column/', GF + r'GeneralForm::derive_matrix_data'])

prop('C15', 'Removing redundant rows shows the same problem without those rows',
     'After rows are removed, the remaining problem presented to the solver is the original one without exactly those '
     'rows: indices of the remaining rows are shifted consistently in columns, right-hand sides, bound rows and counts, and '
     'costs, variables and reconstructed solutions stay those of the original.',
     ['inputs'], 'every problem, every set of removed rows and every index',
     'The tests remove rows from a few fixed matrices.',
     ['src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs',
      'src/data/linear_algebra/vector/mod.rs'],
     [('index translation', 'src/algorithm/two_phase/matrix_provider/filter/generic_wrapper.rs')],
     [TP + r'matrix_provider/filter/', r'\|.*into_filtered$', CARRY + r'.*(remove_rows|remove_basis_part)',
      r'\|Tableau::from_artificial_removing_rows$', LA + r'vector/.*remove_', LA + r'vector/mod\.rs',
      r'\|remove_(sparse_)?indices$', TP + r'phase_one\.rs', TP + r'mod\.rs'])

prop('C16', 'The two-phase driver reports the status it established',
     'The solver reports infeasible only when the first phase ends with a positive sum of artificials, unbounded only when '
     'an improving column has no pivot row, and an optimum only when no improving column is left; redundant rows found '
     'after the first phase are removed before the second, and the optimal point reported is that of the final basis.',
     ['inputs', 'histories'], 'every problem and every sequence of pivots',
     'Tests run whole solves of a handful of problems.',
     ['src/algorithm/two_phase/mod.rs', 'src/algorithm/two_phase/phase_one.rs', 'src/algorithm/two_phase/phase_two.rs'],
     [('phase drivers', 'src/algorithm/two_phase'), ('removal of artificials', 'src/algorithm/two_phase/phase_one.rs')],
     [TP + r'(mod|phase_one|phase_two)\.rs', r'^src/algorithm/mod\.rs', TP + r'tableau/kind/', TP + r'tableau/mod\.rs'])

prop('C17', 'Pivot rules choose only improving columns, and find one if it exists',
     'Whatever rule is configured, the entering column it selects is outside the basis and has a negative relative cost, and '
     'the rule reports that there is none only after considering every non-basic column. The steepest-descent rules weigh '
     'candidates by their own reference weights and keep those weights in step with each basis change.',
     ['inputs', 'histories', 'configurations'], 'every tableau and every pivot rule',
     'Tests run each rule on a few tableaus.',
     ['src/algorithm/two_phase/strategy/pivot_rule.rs', 'src/algorithm/two_phase/tableau/mod.rs'],
     [('rules', 'src/algorithm/two_phase/strategy/pivot_rule.rs')],
     [TP + r'strategy/', r'\|.*::(cost_difference|initial_cost_value|start_index)$', r'\|Tableau::(relative_cost|is_in_basis|nr_columns|generate_column|generate_element|original_column|nr_rows)$',
      r'\|Tableau::nr_artificial', TP + r'phase_(one|two)\.rs'])

prop('C18', 'The ratio test keeps the point feasible and detects unboundedness',
     'The leaving row has a positive entry in the entering column and attains the smallest ratio of right-hand side to that '
     'entry, with ties broken by the smallest basis column index; there is no leaving row exactly when no entry of the '
     'column is positive.',
     ['inputs'], 'every tableau and every entering column',
     'One or two tableaus are tested; ties and signs over all columns are not.',
     ['src/algorithm/two_phase/tableau/mod.rs'],
     [('ratio test', 'src/algorithm/two_phase/tableau/mod.rs')],
     [r'\|Tableau::(select_primal_pivot_row|bring_into_basis|update_basis_indices|generate_column|original_column|nr_rows)$',
      CARRY + r'mod\.rs\|<Carry as InverseMaintainer>::(generate_column|get_constraint_value|basis_column_index_for_row|b)$',
      r'\|.*SparseSliceIterator', TP + r'phase_(one|two)\.rs\|'])

prop('C19', 'A basis change updates every part of the solver state together',
     'When a column enters the basis, the set of basis columns, the column recorded for the pivot row, the right-hand side, '
     'the dual prices, the objective value and the basis representation are all updated with the same pivot row and column, '
     'and afterwards they describe the same basis. Creating the state from artificials, from a given basis, or after '
     'removing rows establishes that agreement.',
     ['inputs', 'histories'], 'every state, entering column and pivot row',
     'Tests follow one or two pivots on fixed tableaus.',
     ['src/algorithm/two_phase/tableau/mod.rs', 'src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs'],
     [('state update', 'src/algorithm/two_phase/tableau/inverse_maintenance/carry/mod.rs'),
      ('basis bookkeeping', 'src/algorithm/two_phase/tableau/mod.rs')],
     [CARRY + r'mod\.rs', TP + r'tableau/mod\.rs', TP + r'tableau/kind/', TP + r'tableau/inverse_maintenance/(mod|ops)\.rs',
      r'\|.*BasisInverse>::(change_basis|remove_basis_part|should_refactor)$', TP + r'strategy/'])

prop('C20', 'The basis representations answer for the current basis',
     'Both representations of the basis inverse (explicit rows and LU factors with update files) give, after construction, '
     'after any sequence of column replacements and after refactoring, columns and rows of the inverse of the current basis '
     'multiplied with what they are asked for: every factor, permutation and update is applied, each once, in the order and '
     'direction the side of the multiplication requires.',
     ['inputs', 'histories'], 'every basis and every sequence of column replacements',
     'Tests factor a few small matrices and follow short update sequences.',
     ['src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs',
      'src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/eta_file.rs',
      'src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs',
      'src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs'],
     [('LU multiplication and update', 'src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/mod.rs'),
      ('eta files', 'src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/eta_file.rs'),
      ('explicit rows', 'src/algorithm/two_phase/tableau/inverse_maintenance/carry/basis_inverse_rows.rs')],
     [LU, CARRY + r'basis_inverse_rows\.rs', CARRY + r'mod\.rs', TP + r'tableau/inverse_maintenance/(mod|ops)\.rs'])

prop('C21', 'Permutations are bijections and undo each other',
     'Each permutation maps indices one to one; applying it forward and then backward to an index or to a sparse vector '
     'gives back the original; the sorted variants return the same entries in increasing index order, and swaps, rotations '
     'and inversions describe the intended rearrangement.',
     ['inputs'], 'every permutation, index and sorted sparse vector',
     'Tests use a few permutations of length three to five.',
     ['src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/mod.rs',
      'src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/full.rs',
      'src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/rotate_to_back.rs',
      'src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation/swap.rs'],
     [('permutation types', 'src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/permutation')],
     [LU + r'permutation/'])

prop('C22', 'Sparse and dense vectors behave as the vectors they represent',
     'Reading, setting, pushing, shifting, scaling, adding multiples, removing indices and inner products on sparse and '
     'dense vectors give the result the operation has on the represented vector. A sparse vector always keeps its entries '
     'in strictly increasing index order, within its length and without explicit zeros.',
     ['inputs', 'histories'], 'every vector, index, value and sequence of operations',
     'Tests apply each operation to a few short vectors; merging and removal depend on the relative position of all entries.',
     ['src/data/linear_algebra/vector/sparse.rs', 'src/data/linear_algebra/vector/dense.rs',
      'src/data/linear_algebra/vector/mod.rs'],
     [('sparse operations', 'src/data/linear_algebra/vector/sparse.rs')],
     [LA + r'vector/'])

prop('C23', 'Matrix conversions and edits keep every coefficient in its place',
     'Converting a matrix between row and column order, concatenating matrices, removing rows or columns, changing row '
     'signs and setting values leave every other coefficient at its row and column; sizes always match the contents and '
     'entries stay sorted.',
     ['inputs'], 'every sparse matrix, both orders, and every set of indices',
     'Tests convert and cut a few fixed small matrices.',
     ['src/data/linear_algebra/matrix.rs'],
     [('order conversion and removal', 'src/data/linear_algebra/matrix.rs')],
     [LA + r'matrix\.rs', LA + r'vector/mod\.rs'])

prop('C24', 'A network is represented by its incidence matrix',
     'The column of an arc has exactly a minus one for the vertex it leaves and a plus one for the vertex it enters (or '
     'nothing for a removed vertex), and arithmetic between such entries and rational numbers is multiplication, addition, '
     'subtraction and division by plus or minus one.',
     ['inputs'], 'every graph, arc and rational number',
     'Tests contain one or two small graphs.',
     ['src/data/linear_program/network/representation.rs'],
     [('incidence columns and their arithmetic', 'src/data/linear_program/network/representation.rs')],
     [r'^src/data/linear_program/network/'])

prop('C25', 'Solving is a function of the problem: exact, deterministic, self-contained',
     'Between reading a problem and reporting its solution the library uses exact arithmetic only, gives the same answer for '
     'the same input on every run, and touches nothing outside the problem: no clock, randomness, environment, global '
     'mutable state, hash order or file besides the one imported, and no unchecked memory access.',
     ['programs', 'inputs', 'schedules'], 'every execution of the library on every input',
     'Tests run on one machine in one order and cannot show the absence of an effect.',
     ['src/lib.rs', 'src/algorithm/two_phase/mod.rs', 'src/data/linear_program/general_form/mod.rs', 'src/io/mod.rs'],
     [('all library code', 'src')],
     [r'^src/io/mod\.rs\|', SCALE + r'rational/mod\.rs', MPS + r'number/'])

prop('C26', 'Relations, directions and signs convert and combine consistently',
     'Reversing a bound direction or a constraint relation exchanges lower and upper (less and greater) and leaves equality '
     'alone; doing it twice changes nothing; multiplying a direction by a sign reverses it exactly for a negative sign; and '
     'converting between the kinds of relations keeps the relation.',
     ['inputs'], 'every relation, direction, sign and objective value of these kinds',
     'No unit test covers these tables directly.',
     ['src/data/linear_program/elements.rs'],
     [('conversion tables', 'src/data/linear_program/elements.rs')],
     [ELEM])

prop('C27', 'Artificial variables stand for exactly the rows that need them',
     'In the first phase every row without an initial basis column gets one artificial variable, with a unit column in that '
     'row and cost one, and all other columns and costs are those of the problem with cost zero, at consistent indices. '
     'When the first phase is over no artificial column enters again and costs are those of the problem.',
     ['inputs'], 'every problem, every partial initial basis and every column index',
     'Tests build a few small phase-one tableaus.',
     ['src/algorithm/two_phase/tableau/kind/artificial/fully.rs', 'src/algorithm/two_phase/tableau/kind/artificial/partially.rs',
      'src/algorithm/two_phase/tableau/kind/artificial/mod.rs', 'src/algorithm/two_phase/tableau/kind/non_artificial.rs'],
     [('tableau kinds', 'src/algorithm/two_phase/tableau/kind')],
     [TP + r'tableau/kind/', TP + r'phase_one\.rs', CARRY + r'mod\.rs\|.*(artificial|from_basis|create_)'])

NOT_APPLICABLE = [
    dict(id='C30', title='The reported optimum has the best objective value of all feasible points',
         statement='When the solver reports a finite optimum, no feasible point of the problem has a better objective value.',
         over=['inputs'], text='every linear program',
         why='Tests compare against known optima of a few dozen files.',
         files=['src/algorithm/two_phase/mod.rs'], mechanism=[('simplex iterations', 'src/algorithm/two_phase')],
         reason='The value of an optimum is a fact about runtime quantities (the final basis and all feasible points); no '
                'static argument here bounds it. The local invariants it rests on (ratio test, pivot choice, basis change, '
                'layout, equivalence of transformations) are claimed separately in C09-C20.'),
    dict(id='C31', title='Solving terminates on every problem',
         statement='The solver ends with a status on every problem; it does not cycle among degenerate bases.',
         over=['inputs', 'histories'], text='every linear program and pivot sequence',
         why='A cycle shows only on particular degenerate problems.',
         files=['src/algorithm/two_phase/phase_one.rs', 'src/algorithm/two_phase/phase_two.rs'],
         mechanism=[('pivot rules and tie breaking', 'src/algorithm/two_phase/strategy/pivot_rule.rs')],
         reason='Termination of the simplex iterations needs a ranking over bases visited at run time; the configured rules '
                'are not all anti-cycling, and no static ranking argument is in reach.'),
    dict(id='C32', title='The LU factors multiply to the basis matrix',
         statement='The product of the stored factors and permutations equals the basis matrix they were computed from, as '
                   'an identity of numbers.',
         over=['inputs'], text='every basis matrix',
         why='Tests factor a few small matrices.',
         files=['src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs'],
         mechanism=[('Gaussian elimination', 'src/algorithm/two_phase/tableau/inverse_maintenance/carry/lower_upper/decomposition/mod.rs')],
         reason='The identity is an inductive numerical statement over elimination steps with data-dependent pivots and '
                'fill-in; static analysis here decides which factor is applied where and when (C20, C21), not the numbers.'),
    dict(id='C33', title='Large problems are solved within practical time',
         statement='Reading and solving the standard benchmark problems takes time and memory proportional to their size '
                   'and sparsity.',
         over=['inputs'], text='all benchmark-sized problems',
         why='Timing is not asserted by any test.',
         files=['src/algorithm/two_phase/mod.rs'], mechanism=[('sparse representation', 'src/data/linear_algebra')],
         reason='Running time depends on pivot counts and fill-in, which are runtime quantities.'),
]

NOTES = {
    'C25': ('effect, type and order rules over every function of the library',
            'The written rules hold for every call, static, cast and container of the whole library.'),
}

# what of a property the checks leave to the review or do not reach at all
LIMITS = {
    'C01': 'stack and memory exhaustion; overflow of indices of files larger than memory.',
    'C11': 'that a tightened bound is implied is decided for each rule and case; that rules interact soundly in every order rests on C12.',
    'C16': 'whether the loops of the phases end (C31).',
    'C17': 'the numerical quality of reference weights.',
    'C20': 'the numerical identity of the factors with the basis (C32).',
}


def technique(pid, own):
    t = 'value-flow analysis of MIR: path summaries compared with the reviewed code'
    if own:
        t += '; ' + NOTES.get(pid, ('decision tables and call-graph rules over the current source', ''))[0]
    n = ('Decides, for every path of the functions involved, returned values and final memory as terms over the inputs; '
         'a definite difference from the reviewed behaviour or from the written rule is a violation, anything the '
         'analysis cannot express is left undecided and not reported. ')
    n += NOTES.get(pid, ('', ''))[1]
    n += (' Trusts rustc\'s MIR, the models of library calls in sa/models.py, and field arithmetic of the number types.')
    return t, n.replace('  ', ' ')
