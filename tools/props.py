WICK = ('explicit-state exploration of all Wick contractions, compared term by term with the generated output '
        'of the real generators over a truncation lattice')
SYM = 'symbolic tensors: the generated code is executed, every einsum becomes an exact polynomial over canonical monomials'

prop('C05', 'Generated W-operator code is the truncated exponential of the amplitudes',
     'For every requested maximum order, every truncation level and every ansatz flag combination, the generated W '
     'module returns, for each order, exactly the sum over all partitions of that order into available amplitudes, '
     'each with its exact exponential coefficient and symmetrised over modes. No partition is missing, duplicated, '
     'or wrongly weighted, and the amplitudes passed in are left unmodified.',
     ['configurations', 'inputs'],
     'all maximum orders 1..6 (the generator refuses more), all truncation levels singles..sextuples, '
     'all ansatz flag combinations, and all amplitude values (symbolic)',
     'Tests compare the text of files for a few small orders with stored fixtures; they never execute the generated '
     'code nor reach higher orders, other truncation levels or the other ansatz.',
     ['termfactory/code_w_equations.py'],
     [('integer partitions and their prefactors', 'termfactory/code_w_equations.py:_generate_w_operator_prefactor / _w_einsum_list'),
      ('emission of each order', 'termfactory/code_w_equations.py:_write_w_function_strings')],
     ['generate_w_operator_equations_file'], WICK + '; ' + SYM, 'model_checking',
     'Exhaustive within the orders and levels stated; trusts the composition explorer and the symbolic einsum.')

prop('C06', 'Generated amplitude-derivative code is the exact connected derivative',
     'For every requested maximum order, truncation level and ansatz, the generated derivative module turns residuals '
     'into amplitude derivatives by subtracting exactly every disconnected product of lower derivatives and amplitudes '
     'with its exact coefficient. Nothing is missing, duplicated or wrongly weighted and no argument is modified.',
     ['configurations', 'inputs'],
     'all maximum orders, truncation levels and ansatz flags the generator can produce, all tensor values (symbolic)',
     'Tests compare file text for a handful of orders with fixtures and never execute the generated code.',
     ['termfactory/code_dt_equations.py'],
     [('disconnected term generation', 'termfactory/code_dt_equations.py:_generate_disconnected_einsum_function_call_list'),
      ('emission', 'termfactory/code_dt_equations.py:_write_linked_disconnected_strings / _write_un_linked_disconnected_strings')],
     ['generate_dt_amplitude_equations_file'], WICK + '; ' + SYM, 'model_checking',
     'Exhaustive within the stated orders; trusts the reference model and symbolic einsum.')

prop('C07', 'Generated residual code contains every H and W contraction with its coefficient',
     'For every residual order, Hamiltonian rank and set of available W operators, each generated residual function '
     'returns exactly the sum over all contractions of the Hamiltonian with the W operators that close to that order, '
     'with the exact combinatorial coefficient of each, and nothing else.',
     ['configurations', 'inputs'],
     'residual orders 0..6, Hamiltonian ranks 1..2 flags, every set of available W operators with W_1, all tensor values (symbolic)',
     'Tests compare one generated file (order 2, rank 2) as text; the generated code is never executed, higher orders '
     'never compared.',
     ['termfactory/code_residual_equations.py'],
     [('term enumeration', 'termfactory/code_residual_equations.py:generate_residual_data'),
      ('emission', 'termfactory/code_residual_equations.py:write_residual_function_string / _residual_terms_einsum')],
     ['generate_residual_equations_file'], WICK + '; ' + SYM, 'model_checking',
     'Exhaustive within the stated orders; known findings (else branch) are listed one by one.')

prop('C11', 'eT right-hand-side Python equals every Wick contraction of e^T H Z',
     'For every truncation, each amplitude function of the generated right-hand-side module returns, at every runtime '
     'truncation level, exactly the sum over all Wick contractions of the projector with the truncated exponential of T, '
     'the Hamiltonian and Z, each with its exact combinatorial coefficient. Excited (hot band) amplitudes are refused, '
     'never returned as silent zeros.',
     ['configurations', 'inputs'],
     'all truncations of a lattice in (H, Z, e^T, projection) up to the supported maxima, all amplitudes, all runtime '
     'truncation levels, all tensor values (symbolic)',
     'Fixtures compare file text for ranks up to 4 (and H up to 2); nothing executes the generated code, higher ranks are '
     'only smoke tested or never generated.',
     ['termfactory/code_eT_zhz.py', 'termfactory/latex_eT_zhz.py'],
     [('contraction enumeration', 'termfactory/latex_eT_zhz.py:_filter_out_valid_eTz_terms'),
      ('prefactors and einsum emission', 'termfactory/code_eT_zhz.py:_write_third_eTz_einsum_python / _build_eT_zhz_python_prefactor')],
     ['generate_eT_zhz_python'], WICK + '; ' + SYM, 'model_checking',
     'Exhaustive within the lattice; modes-symmetric tensors assumed; known omission of h0*z_n listed.')

prop('C12', 'eT left-hand-side Python equals every contraction of e^T dT/dt Z and e^T dZ/dt',
     'For every truncation, each amplitude function of the generated left-hand-side module returns, at every runtime '
     'truncation level, exactly the sum over all Wick contractions of the projector with the truncated exponential of T '
     'and the time derivatives of T and Z, except the bare highest derivative of Z that the equation is solved for. '
     'Coefficients are exact and excited amplitudes are refused.',
     ['configurations', 'inputs'],
     'all truncations of a lattice in (H, Z, e^T, projection) up to the supported maxima, all amplitudes, all runtime '
     'truncation levels, all tensor values (symbolic)',
     'Fixtures compare file text for small ranks; nothing executes the generated code.',
     ['termfactory/code_eT_zhz.py', 'termfactory/latex_eT_zhz.py'],
     [('contraction enumeration', 'termfactory/latex_eT_zhz.py:_filter_out_valid_eTz_terms'),
      ('LHS emission', 'termfactory/code_eT_zhz.py:_generate_eT_zhz_einsums')],
     ['generate_eT_zhz_python'], WICK + '; ' + SYM, 'model_checking',
     'Exhaustive within the lattice; modes-symmetric tensors assumed.')

prop('C10', 'eT_z_t LaTeX prints every Wick contraction once with exact coefficient',
     'For every truncation, the eT_z_t LaTeX document has one equation per projection, and that equation prints every '
     'allowed contraction of the truncated exponential of T with the Hamiltonian and Z (or with the time derivatives on '
     'the special left-hand side) exactly once. Labels pair up correctly, the power of f-bar equals the number of '
     'contractions and the coefficient is exact (a printed product stands for all distributions of the equal T factors '
     'over h and z). Excited states are refused.',
     ['configurations'],
     'all truncations of a lattice in (H, Z, e^T, projection) up to the supported maxima, both sides, every projection',
     'Only the smallest truncation is compared with a fixture; the printed terms of larger ranks are never read by a test.',
     ['termfactory/latex_eT_zhz.py'],
     [('contraction enumeration', 'termfactory/latex_eT_zhz.py:_filter_out_valid_eTz_terms'),
      ('term printing', 'termfactory/latex_eT_zhz.py:_prepare_third_eTz_latex'),
      ('document assembly', 'termfactory/latex_eT_zhz.py:generate_eT_z_t_symmetric_latex')],
     ['generate_eT_z_t_symmetric_latex'],
     'explicit-state exploration of all Wick contractions; every reachable final state compared with the parsed LaTeX '
     'the real generator writes', 'model_checking',
     'Exhaustive within the lattice; trusts the small LaTeX reader in lib/latexp.py.')

FCC = ('explicit-state exploration of all pairings of the legs of projector, Hamiltonian and amplitudes; the set of final '
       'states is compared with the output of the real generator over a truncation lattice')

prop('C01', 'Full-CC LaTeX prints every allowed contraction exactly once, in its group',
     'For every truncation, ground or excited state, with or without f terms, the full coupled-cluster LaTeX document has '
     'one equation per projection operator and its right-hand side prints every allowed contraction of projector, '
     'Hamiltonian and amplitudes exactly once and no other. Each term stands in its group (connected, linked '
     'disconnected, unlinked disconnected), the disconnected terms are collected under distinct factors that hold exactly the '
     'amplitudes not connected with the Hamiltonian, labels pair up, the same free labels are used throughout an equation, and '
     'the powers of f and f-bar equal the number of pairings of projector and Hamiltonian.',
     ['configurations'],
     'all truncations of a lattice in (H, CC, S, projection) up to the supported maxima, ground and excited state, with '
     'and without f terms, every projection of rank up to 3 (higher ones are refused)',
     'One truncation (2,2,2,2) is compared with a fixture; all other ranks are only smoke tested or never generated.',
     ['termfactory/latex_full_cc.py', 'termfactory/common_imports.py'],
     [('contraction enumeration', 'termfactory/latex_full_cc.py:_generate_all_valid_t_connection_permutations / _filter_out_valid_s_terms'),
      ('label assignment', 'termfactory/latex_full_cc.py:_build_h_term_latex_labels / _build_t_term_latex_labels'),
      ('grouping and line splitting', 'termfactory/latex_full_cc.py:_make_latex / _linked_condensed_adjust_t_terms')],
     ['generate_full_cc_latex'], FCC, 'model_checking',
     'Exhaustive within the lattice; one known finding (long groups lose the incomplete last line).')

prop('C02', 'Full-CC LaTeX prints the prefactor of every term by the documented rule',
     'For every truncation, state and f-term option, each contraction printed in the full coupled-cluster LaTeX document '
     'carries exactly the documented prefactor: one over the factorials of the Hamiltonian ranks and of the number of '
     'amplitudes, times the factorial of the number of distinct amplitudes contracted with the Hamiltonian; a bare '
     'Hamiltonian carries none. This holds also for the condensed linked terms.',
     ['configurations'],
     'all terms of all equations of a truncation lattice up to the supported maxima, ground and excited state, with and '
     'without f terms',
     'The prefactors of one truncation (2,2,2,2) are compared with a fixture; no other rank is read by a test.',
     ['termfactory/latex_full_cc.py'],
     [('prefactor rule', 'termfactory/latex_full_cc.py:_build_latex_prefactor')],
     ['generate_full_cc_latex'], FCC, 'model_checking',
     'Exhaustive within the lattice; the oracle is the documented rule, not an independent derivation of the theory.')

prop('C03', 'Full-CC LaTeX left-hand side is the full time derivative of the projected ansatz',
     'For every projection operator, the left-hand side printed in the full coupled-cluster LaTeX document is the sum over '
     'all products of amplitudes that close the projection of the derivative of that product by the product rule plus '
     'the energy term with the same product. No product or factor is missing, repeated or carries labels that do not '
     'match the projection.',
     ['configurations'],
     'every projection (all creation/annihilation ranks up to 3) of every truncation of the lattice, ground and excited, '
     'with and without f terms',
     'Fixtures cover projections of rank 2; the rank 3 left-hand sides are never read by a test.',
     ['termfactory/latex_full_cc.py'],
     [('left-hand side construction', 'termfactory/latex_full_cc.py:_generate_left_hand_side')],
     ['generate_full_cc_latex'],
     'explicit-state exploration of all products of amplitudes closing a projection, compared with the printed equation',
     'model_checking', 'Exhaustive for projections of rank up to 3 (higher ones are refused).')

prop('C04', 'Generated full-CC Python computes every contraction of the equations',
     'For every truncation of the ground state, each amplitude function of the generated full coupled-cluster module '
     'returns, at every runtime Hamiltonian and amplitude truncation, exactly the sum of all contractions of Hamiltonian '
     'and amplitudes that close the projection with the documented prefactor. No contraction is lost, added or read with '
     'wrong subscripts, the einsums are well formed, and hot band (excited) generation is refused, not silently wrong.',
     ['configurations', 'inputs'],
     'all truncations of a lattice in (H, CC, S, projection), all functions, all runtime truncation levels, all tensor '
     'values (symbolic)',
     'Fixtures compare file text for (1,1,1,1); nothing executes the generated module and higher ranks are smoke tested.',
     ['termfactory/code_full_cc.py', 'termfactory/latex_full_cc.py'],
     [('einsum emission', 'termfactory/code_full_cc.py:_write_cc_einsum_python_from_list'),
      ('grouping by truncation level', 'termfactory/code_full_cc.py:_generate_full_cc_einsums / _build_full_cc_python_prefactor')],
     ['generate_full_cc_python'], FCC + '; ' + SYM, 'model_checking',
     'Exhaustive within the lattice; multiplicity convention of repeated orderings documented in DESIGN.md.')

prop('C08', 'W-operator LaTeX lists every amplitude product once with its coefficient',
     'For every order, the W-operator LaTeX document lists for each W operator every product of amplitudes it contains '
     'exactly once, with coefficient one over the factorial of each repetition, for the ground state and for excited '
     '(mixed) operators. Regenerating onto an existing file gives the same equations as generating a new one.',
     ['configurations', 'histories'],
     'all orders up to 8, ground and excited, over every kind of file already at the target path',
     'Fixtures compare the ground-state file of order 2 and the excited file of order 3; higher orders and existing '
     'files are not tested.',
     ['termfactory/latex_w_equations.py'],
     [('ground state partitions', 'termfactory/latex_w_equations.py:ground_state_w_equations_latex'),
      ('mixed operators', 'termfactory/latex_w_equations.py:excited_state_w_equations_latex')],
     ['ground_state_w_equations_latex', 'excited_state_w_equations_latex'],
     'explicit-state exploration of all amplitude products of each operator, and of the states of the target file, '
     'compared with the document the real generator writes', 'model_checking', 'Exhaustive within the stated orders.')

prop('C15', 'Optimised contraction paths compute what the plain generated code computes',
     'For every truncation, the optimised variant of generated code (path list functions plus the functions consuming '
     'them) returns the same values as the plain variant at every runtime truncation level. Every path is built for the '
     'subscripts and operand shapes of the einsum that uses it, in the order of use, and none is missing or left over.',
     ['configurations', 'inputs'],
     'W, amplitude derivative and eT generators over the lattices of orders and truncations, all runtime levels, all '
     'tensor values (symbolic)',
     'Tests compare file text for small orders; optimised functions are never executed against the plain ones.',
     ['termfactory/code_w_equations.py', 'termfactory/code_dt_equations.py', 'termfactory/code_eT_zhz.py',
      'termfactory/code_full_cc.py'],
     [('W paths', 'termfactory/code_w_equations.py:_contracted_expressions / _write_optimized_vecc_paths_function'),
      ('dt paths', 'termfactory/code_dt_equations.py:_contracted_expressions / _write_optimized_linked_paths_function'),
      ('eT paths', 'termfactory/code_eT_zhz.py:_construct_eT_zhz_compute_function')],
     ['compute_all_optimized_paths of the generated modules'],
     'exhaustive execution of the generated modules (plain and optimised) over truncations x runtime levels; ' + SYM,
     'model_checking', 'Full-CC optimised paths cannot run at all (two known findings).')

prop('C09', 'z_t LaTeX prints every contraction of H and Z once with exact coefficient',
     'For every truncation, the z_t LaTeX document has one pair of equations per projection operator. The equation for z '
     'prints the bare Hamiltonian, every allowed contraction of projector, Hamiltonian and Z exactly once with its exact '
     'combinatorial coefficient and power of f-bar, and minus one product dt/dtau z per split of the labels; every term '
     'carries the labels of the projection. The excited state is refused.',
     ['configurations'],
     'all truncations (H, CC, projection) of the whole supported range 1..6, with and without f terms, every projection',
     'One document (rank 1) is compared with a fixture; all other ranks are only smoke tested or never generated.',
     ['termfactory/latex_zhz.py'],
     [('contraction enumeration', 'termfactory/latex_zhz.py:_filter_out_valid_z_terms'),
      ('prefactors', 'termfactory/latex_zhz.py:_build_hz_latex_prefactor'),
      ('subtraction terms', 'termfactory/latex_zhz.py:_build_fifth_z_term')],
     ['generate_z_t_symmetric_latex'],
     'explicit-state exploration of all pairings of projector, H and Z; every reachable final state compared with the '
     'parsed LaTeX the real generator writes', 'model_checking',
     'Exhaustive over the whole supported truncation range.')

prop('C13', 'Every generated LaTeX document is well formed',
     'For every generator, truncation, state and option, the LaTeX document written is syntactically sound. Braces, '
     'parentheses, \\left/\\right pairs and environments nest and close, no symbol carries two superscripts or two '
     'subscripts, no equation contains a blank line, every command used is defined by the preamble or the packages it '
     'loads, and the document begins and ends exactly once.',
     ['configurations'],
     'every document of the truncation lattices of full CC (ground and excited), z_t, eT_z_t (both sides) and W LaTeX',
     'Fixtures compare four small documents; larger ranks, where line splitting and condensed terms start, are not read.',
     ['termfactory/latex_full_cc.py', 'termfactory/latex_zhz.py', 'termfactory/latex_eT_zhz.py',
      'termfactory/latex_w_equations.py', 'termfactory/reference_latex_headers.py'],
     [('line splitting', 'termfactory/latex_full_cc.py:_make_latex'),
      ('equation assembly', 'termfactory/latex_zhz.py:_generate_z_symmetric_latex_equations'),
      ('preambles', 'termfactory/reference_latex_headers.py')],
     ['the .tex files written by the generators'],
     'exhaustive run of a push-down automaton over every document the real generators write for a configuration lattice',
     'model_checking', 'Exhaustive over the lattice; no TeX engine is available here, so page layout is not judged.')

prop('C14', 'Removing f terms removes exactly the terms with a factor f',
     'For every truncation and state, the LaTeX equations generated with f terms removed are the equations generated with '
     'them minus exactly the terms that carry a factor f. Every other term keeps its coefficient, group and labels, the '
     'left-hand sides do not change, and the z_t and eT_z_t documents announce the removal if and only if it was asked for.',
     ['configurations'],
     'every equation of the truncation lattices of full CC (ground and excited), z_t and eT_z_t (both sides)',
     'Fixtures compare single documents at rank 1 or 2; no test relates the two settings to each other.',
     ['termfactory/latex_full_cc.py', 'termfactory/latex_zhz.py', 'termfactory/latex_eT_zhz.py'],
     [('full CC removal', 'termfactory/latex_full_cc.py:_remove_f_zero_terms / _filter_out_valid_s_terms'),
      ('z_t and eT_z_t removal', 'termfactory/latex_zhz.py:_prepare_third_z_latex')],
     ['remove_f_terms option of the LaTeX generators'],
     'exhaustive differential exploration: each configuration of a lattice is generated with both settings and every '
     'equation is compared term by term', 'model_checking',
     'Connected groups of 14 or more terms are left out because of the known finding of C01.')

prop('C16', 'Output depends only on the request, not on history or hash seed',
     'Every generator writes byte-identical output for the same request in a fresh interpreter, after any other '
     'requests in the same process, on repetition, under any string hash seed, and on any date, by any user and in any terminal. Requests leave the caller\'s '
     'truncation dictionary and options unchanged, write no other file and leave no state behind.',
     ['histories', 'configurations'],
     'all histories of two requests over 118 requests to ten generators and the layer that fills in default options, all histories of three over a core, several '
     'hash seeds, those over a lattice of about 1300 requests',
     'Each test makes one call in whatever state the process is in; sequences and hash seeds are not varied.',
     ['termfactory/latex_full_cc.py', 'termfactory/latex_zhz.py', 'termfactory/latex_eT_zhz.py',
      'termfactory/code_full_cc.py', 'termfactory/code_eT_zhz.py', 'termfactory/code_w_equations.py',
      'termfactory/code_dt_equations.py', 'termfactory/code_residual_equations.py'],
     [('module level state', 'termfactory/common_imports.py, termfactory/latex_defines.py'),
      ('sets and dictionaries of terms', 'termfactory/code_full_cc.py:_generate_full_cc_einsums')],
     ['generate_* entry points of all generator modules'],
     'stateless exploration of the real code: all operation sequences up to a depth over a request alphabet, each output '
     'compared with the one of a fresh interpreter', 'model_checking',
     'Exhaustive over the alphabet to depth 2 (core: 3); the oracle is the code itself in a fresh process.')

prop('C17', 'Truncations are accepted exactly inside the documented ranges',
     'Loading a truncation file and every generator that takes truncations accept exactly the complete key sets of the '
     'three ansatz with every integer value inside its documented range (H, CC, S, P in 1..6, T equal to 1, eT in 1..8). '
     'A missing or unknown key, a value out of range or one that is no integer is refused with a deliberate error before '
     'a file is created or changed or a dictionary to load into is touched; a generator ignores a known key that its ansatz does not use.',
     ['inputs'],
     'loading: the full product of all values from one below to one above each range, all key sets; generators: all '
     'vectors over boundary values, all incomplete key sets',
     'The truncation module and the refusals have almost no tests; the product of boundary values is never enumerated.',
     ['termfactory/truncations.py', 'termfactory/truncation_keys.py'],
     [('range and key verification', 'termfactory/truncations.py:_verify_fcc_truncations / _verify_zhz_truncations / '
       '_verify_eT_z_t_truncations'),
      ('loading', 'termfactory/truncations.py:load_trunc_from_JSON')],
     ['load_trunc_from_JSON', 'generate_* entry points'],
     'exhaustive enumeration of the input space (values, key sets) against the real code, with the target file observed',
     'model_checking', 'Booleans are not judged; an extra known key given to a generator is tolerated (the repository tests do it).')

prop('C18', 'A saved truncation file loads back to the same truncations',
     'Every truncation in the supported range, in any key order, saved to a path and loaded back gives an equal '
     'dictionary with the same keys and integer values, whatever was in the file before. Loading into a provided '
     'dictionary replaces its content. Saving and loading change neither their arguments nor the file beyond that.',
     ['inputs', 'histories'],
     'all 3240 truncations of the three ansatz, all key orders, a list of prior file states, all in-place targets kinds, '
     'all operation histories of depth 5 over two files',
     'No test saves or loads a truncation file.',
     ['termfactory/truncations.py', 'termfactory/driver.py'],
     [('saving and loading', 'termfactory/truncations.py:save_trunc_to_JSON / load_trunc_from_JSON'),
      ('command line tuples', 'termfactory/driver.py:_make_trunc')],
     ['save_trunc_to_JSON', 'load_trunc_from_JSON'],
     'exhaustive enumeration of all truncations and of save/load histories over file states on the real code',
     'model_checking', 'Exhaustive over the supported range.')

prop('C19', 'The command line runs exactly the requested generator into the documented file',
     'For every combination of truncations, ansatz, state, f-term option, code or LaTeX, side and truncation source, the '
     'driver writes exactly one file with the documented name whose content is what the selected generator produces for '
     'those options, and truncations given on the command line are saved faithfully; options left out mean ground state, '
     'f terms kept, right-hand side. Mismatched, malformed or refused '
     'commands exit nonzero without leaving an equation file. The log goes to the file of the log option (its default without '
     'it), and to no file with the option for standard output.',
     ['configurations'],
     'all option combinations x representative truncations of each ansatz x both truncation sources, and malformed commands',
     'No test runs the driver; the glue module is not tested with options combined.',
     ['termfactory/driver.py', 'termfactory/_glue_.py', 'termfactory/truncations.py'],
     [('argument handling', 'termfactory/driver.py'), ('dispatch and file names', 'termfactory/_glue_.py')],
     ['driver.py command line'],
     'exhaustive enumeration of the option space on the real driver, compared with direct generator calls per the '
     'documented dispatch table', 'model_checking', 'Exhaustive over options; truncation values are representatives.')

prop('C20', 'A request writes its one complete file or leaves the disk untouched',
     'Every generator call either succeeds, and then the target holds exactly one complete document or module '
     'independent of what was there before, or raises, and then every file is byte for byte as it was. No other file is '
     'created or changed in either case, also when the target cannot be written.',
     ['configurations', 'fault_sequences'],
     'all requests of a list (valid, refused by design, out of range, every generator) x all states of the target path; all '
     'points at which a request can be interrupted (every function call it makes)',
     'Tests write to fresh temporary files and never check what a refused request does to an existing file.',
     ['termfactory/latex_full_cc.py', 'termfactory/latex_zhz.py', 'termfactory/latex_eT_zhz.py',
      'termfactory/latex_w_equations.py', 'termfactory/code_full_cc.py', 'termfactory/code_eT_zhz.py',
      'termfactory/code_w_equations.py', 'termfactory/code_dt_equations.py', 'termfactory/code_residual_equations.py'],
     [('file writing at the end of each generator', 'termfactory/latex_full_cc.py:generate_full_cc_latex and its siblings')],
     ['generate_* entry points'],
     'exhaustive exploration of requests x initial file-system states on the real code, with the whole directory tree '
     'compared before and after; the request is also aborted at every function call it makes (crash points)', 'model_checking',
     'Failures are the refusals of the generators, unwritable targets, and an exception raised at any function call of the '
     'repository during the request; a crash inside the final write itself is not modelled.')

prop('C21', 'Operator tables and partition lists contain every element exactly once',
     'For every rank and order: the lists of partitions (all; at most one part above one; the same without the trivial one; '
     'the rest), of distinct permutations of a multiset, of projection operators, Hamiltonian, cluster, z and e^T operators '
     'up to a rank, and of the products in the Taylor expansions of e^S and e^T, contain each element that fits the '
     'truncation exactly once and nothing else; the generated symmetriser sums over all permutations of the mode axes.',
     ['inputs'],
     'all ranks 0..8, orders 1..8, partitions of 1..14, multisets of up to 7 letters (quick)',
     'Tests compare a few small lists (ranks 1 to 3); the mixed and unlinked partition lists and the symmetriser have none.',
     ['termfactory/helper_funcs.py', 'termfactory/latex_full_cc.py', 'termfactory/latex_zhz.py',
      'termfactory/latex_eT_zhz.py', 'termfactory/code_residual_equations.py'],
     [('partitions and permutations', 'termfactory/helper_funcs.py:generate_partitions_of_n, unique_permutations'),
      ('full-CC operators and series', 'termfactory/latex_full_cc.py:generate_omega_operator, generate_s_taylor_expansion'),
      ('z and e^T operators', 'termfactory/latex_zhz.py:generate_z_operator, termfactory/latex_eT_zhz.py:generate_eT_taylor_expansion'),
      ('residual Hamiltonian', 'termfactory/code_residual_equations.py:generate_hamiltonian_operator')],
     ['the returned lists'],
     'explicit-state exploration of the combinatorial models (partition prefixes, operator lattice, words over operators), '
     'conformance of every final state with the lists the real functions return, as multisets', 'model_checking',
     'Exhaustive within the ranks; functions that a restructured tree no longer has are not judged.')

prop('C22', 'Generated modules are closed and refuse runtime truncations they cannot serve',
     'In every generated Python module, of every family and truncation, each name a function uses is defined exactly once '
     '(or imported from numpy, opt_einsum, the standard library or the package). A function that computes an amplitude, residual or set '
     'of W operators raises if the runtime truncation is below what it needs (eT amplitude or residual of order n: n-tuples, '
     'at least singles; full CC amplitudes and their path functions: singles) or, for W operators, above quadruples, and accepts '
     'every sufficient one.',
     ['configurations'],
     'all generated modules of a truncation lattice, all functions and all names they load; all amplitude functions x runtime '
     'truncation levels 0..6 x default/optimised',
     'No test imports or runs a generated module.',
     ['termfactory/code_w_equations.py', 'termfactory/code_dt_equations.py', 'termfactory/code_residual_equations.py',
      'termfactory/code_eT_zhz.py', 'termfactory/code_full_cc.py'],
     [('eT guards', 'termfactory/code_eT_zhz.py:_write_master_eT_zhz_compute_function'),
      ('full-CC guards', 'termfactory/code_full_cc.py:_write_master_full_cc_compute_function'),
      ('W guards', 'termfactory/code_w_equations.py:_write_master_w_compute_function'),
      ('residual assertion', 'termfactory/code_residual_equations.py:write_residual_function_string')],
     ['the generated modules'],
     'exhaustive exploration of the reference graph of every generated module and of all (function, runtime truncation level) pairs, '
     'executed on symbolic tensors', 'model_checking',
     'W modules generated for fewer than six orders name the missing order functions in the master function; calling it '
     'beyond the generated orders raises, which is accepted.')

prop('C23', 'Every printed equation is announced by its projection, heading and derivative',
     'In the full-CC, z_t and eT_z_t documents of every truncation each projection of the truncation (eT_z_t: each '
     'annihilation projection) is announced exactly once, in ascending rank, under exactly one heading that names its rank, '
     'by an operator string with distinct labels; the left-hand sides next to it (derivatives, G) carry exactly those labels. '
     'The definitions at the top include annihilation amplitudes exactly if the document is an excited-state one, the note about '
     'removed f terms is there exactly if they were removed, and the excited W document names the rank it was made for.',
     ['configurations', 'inputs'],
     'documents of a truncation lattice with CC and P over the whole supported range 1..6, all options; excited W ranks 1..4',
     'Tests compare a handful of small documents as text and some of the reference documents are not compared at all.',
     ['termfactory/latex_full_cc.py', 'termfactory/latex_zhz.py', 'termfactory/latex_eT_zhz.py', 'termfactory/latex_w_equations.py'],
     [('full-CC announcement', 'termfactory/latex_full_cc.py:_wrap_align_environment, generate_full_cc_latex'),
      ('z_t announcement', 'termfactory/latex_zhz.py:generate_z_t_symmetric_latex'),
      ('eT_z_t announcement', 'termfactory/latex_eT_zhz.py:generate_eT_z_t_symmetric_latex'),
      ('W rank', 'termfactory/latex_w_equations.py:excited_state_w_equations_latex')],
     ['the generated documents'],
     'explicit-state walk of the projection-operator lattice; the event sequence of every generated document has to be a walk '
     'that visits every state once', 'model_checking',
     'Exhaustive within the lattice; in mixed projections (creation and annihilation) only the set of labels is compared, the '
     'documents print them in another order than the operator string.')
