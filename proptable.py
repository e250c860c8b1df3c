T = 'bounded exhaustive enumeration of the real code against a reference model'

prop('C01', 'Lay-up guideline checkers accept exactly the stacks the rules allow',
     'For every stacking sequence and every active set of guidelines, the '
     'verdicts on disorientation, contiguity, damage tolerance, balance, '
     '10% rule (from a stack, ply counts, a partial stack plus its remaining '
     'plies, or lamination parameters) and covering, and the overall '
     'manufacturability verdict, are exactly those of the definition of each '
     'rule.',
     ['inputs', 'configurations'],
     'all stacks, all rule combinations and limits, all splits of a stack '
     'into placed and remaining plies',
     'The tests try a dozen stacks for three of the checkers; contiguity, '
     'disorientation and the overall verdict have none.',
     ['src/guidelines/one_stack.py', 'src/guidelines/contiguity.py',
      'src/guidelines/disorientation.py', 'src/guidelines/dam_tol.py',
      'src/guidelines/balance.py', 'src/guidelines/ten_percent_rule.py'],
     [('rule checkers', 'src/guidelines'),
      ('check_lay_up_rules', 'src/guidelines/one_stack.py')],
     technique=T,
     note='Exhaustive over all stacks up to 6 plies on 4 angles, 4 plies on 8 '
     'angles, 11 plies on 2 angles (quick), all ply counts up to 10 plies for '
     'the 10% rule; beyond the bounds nothing is claimed.')

prop('C02', 'Guideline violation counts and penalties match the rule definitions',
     'Violation counts and penalties of a laminate or of each panel of a '
     'structure (disorientation, contiguity, 10% rule, balance, in-plane and '
     'out-of-plane orthotropy) equal the amount by which the rule is broken: '
     'never negative, zero if and only if the rule is met or inactive, the '
     'same whether computed from a stack or from ply counts, for one laminate '
     'or for several at once.',
     ['inputs', 'configurations'],
     'all stacks, ply counts, lamination parameters and rule settings',
     'The tests evaluate three balance penalties and two distances; counts '
     'and all other penalties are untested.',
     ['src/guidelines/contiguity.py', 'src/guidelines/disorientation.py',
      'src/guidelines/ten_percent_rule.py',
      'src/guidelines/ten_percent_rule_Abdalla.py',
      'src/guidelines/balance.py', 'src/guidelines/ipo_oopo.py'],
     [('calc_penalty_*', 'src/guidelines')],
     technique=T,
     note='Same bounds as C01; distances to the lamination-parameter region '
     'compared with the exact projection on a grid; tables of panels which break '
     'different limits.')

prop('C03', 'Stack filters and pruning keep exactly the plies the rules allow',
     'The filters used while a stack grows, and the pruning of the beam search, '
     'keep exactly the ply combinations that break neither disorientation nor '
     'contiguity, within the ply group and with the plies already placed on '
     'either side of it, including at the mid-plane of a symmetric laminate. '
     'The rows they return are the rows they were given, in the same order, '
     'with the plies per angle still matched to them.',
     ['inputs', 'configurations'],
     'all candidate groups, all neighbouring stacks, all rule limits',
     'No test covers the filters or the pruning; an over-pruned candidate is '
     'silently lost and an under-pruned one surfaces only in a full run.',
     ['src/guidelines/external_contig.py', 'src/guidelines/internal_contig.py',
      'src/guidelines/external_diso_contig.py',
      'src/guidelines/internal_diso_contig.py', 'src/BELLA/pruning.py',
      'src/LAYLA_V02/pruning.py'],
     [('filters', 'src/guidelines'), ('pruning_diso_contig_damtol',
                                      'src/BELLA/pruning.py')],
     technique=T,
     note='Groups up to 4 plies next to stacks up to 5 plies, symmetric '
     'laminates for the pruning.')

prop('C04', 'Ply-drop spacing penalty and verdict match the ply-drop layout',
     'The ply-drop spacing penalty of a structure is the weighted sum over its '
     'panel boundaries of the plies missing between consecutive drops, '
     'relative to the plies covering the boundary, and zero when the rule is '
     'off. It is the same whether the layout is given for all panels or for '
     'the blending strip, in one piece or in consecutive ply groups, and the '
     'ply-drop rule is reported broken exactly when it is positive.',
     ['inputs', 'configurations'],
     'all nested layouts, panel arrangements, spacings and boundary weights',
     'No test builds a ply-drop layout.',
     ['src/guidelines/ply_drop_spacing.py', 'src/guidelines/one_stack.py'],
     [('calc_penalty_spacing', 'src/guidelines/ply_drop_spacing.py'),
      ('check_ply_drop_rules', 'src/guidelines/one_stack.py')],
     technique=T,
     note='All nested layouts up to 8 columns for 2 thicknesses and 6 for 3, '
     'six panel arrangements, spacings 1 to 5.')

prop('C05', 'Settings are validated and the tables derived from them are right',
     'Constraints, parameters, objective-function settings, materials and '
     'panels refuse settings that contradict each other or lie outside their '
     'range, and accept all others. The tables derived from them (angle '
     'lookups, ply properties as lamination parameters, 10% limits, '
     'weightings and lamination-parameter filters, ply stiffnesses) match '
     'their definitions.',
     ['inputs', 'configurations'],
     'all sets of fibre orientations, all rule switches, limits, weightings '
     'and material constants of a grid including the boundary values',
     'No test creates a rejected setting or looks at a derived table.',
     ['src/BELLA/constraints.py', 'src/BELLA/parameters.py',
      'src/BELLA/obj_function.py', 'src/BELLA/materials.py',
      'src/BELLA/panels.py', 'src/LAYLA_V02/constraints.py',
      'src/LAYLA_V02/parameters.py', 'src/LAYLA_V02/materials.py',
      'src/LAYLA_V02/targets.py'],
     [('constructors', 'src/BELLA')],
     technique=T,
     note='All subsets of 8 angles (10 when thorough), percentages, switches '
     'and weightings on grids around every boundary of the accepted range.')

prop('C06', 'Layout conversions of a structure lose nothing and invert each other',
     'Converting a structure between stacking sequences, stacking sequence '
     'tables, ply-drop layouts and ply indices gives each panel exactly the '
     'plies its layout keeps, in order, mirrored for symmetric laminates. '
     'Reducing a table to one panel per thickness and extending it again '
     'gives back the original.',
     ['inputs', 'configurations'],
     'all nested layouts and stacking sequences',
     'No test converts a structure.',
     ['src/BELLA/format_pdl.py'],
     [('convert_sst_to_ss', 'src/BELLA/format_pdl.py'),
      ('reduce_for_guide_based_blending', 'src/BELLA/format_pdl.py')],
     technique=T,
     note='All nested layouts for up to 3 panels on the columns given in '
     'DESIGN.md.')

prop('C07', 'The blending strip and its tables represent the structure exactly',
     'A multi-panel structure is accepted exactly if its panels are connected '
     'and its settings agree, and knows its boundaries and their weights '
     'whatever the order of panel IDs. The blending strip has one panel per '
     'thickness, boundaries with the weights of all boundaries they stand '
     'for, panel weightings that add up those of the panels they stand for, '
     'and repair steps from the reference panel to the thinnest and to the '
     'thickest panel, one ply (or symmetric pair) at a time.',
     ['inputs', 'configurations'],
     'all panel graphs, thickness distributions, boundary weights and '
     'reference thicknesses',
     'The tests build one two-panel structure at most.',
     ['src/BELLA/multipanels.py', 'src/BELLA/reduced_multipanels.py'],
     [('from_mp_to_blending_strip', 'src/BELLA/multipanels.py'),
      ('ReducedMultiPanel', 'src/BELLA/reduced_multipanels.py')],
     technique=T,
     note='All graphs up to 3 panels (4 when thorough) with three thicknesses, '
     'all sets of up to 4 ply counts up to 8 (11).')

prop('C08', 'Ply groups partition every panel within the group size limits',
     'The plies of the thickest panel are divided into the fewest consecutive '
     'groups whose sizes respect the limits, covering plies apart, and a '
     'division is refused, or a ply count reported as forbidden, exactly when '
     'no such division exists. In every other panel the groups are the same '
     'minus ply drops that add up to the missing plies, are spread as evenly '
     'as the group sizes allow (larger, then outer groups first), and leave '
     'consecutive blocks of plies. The '
     'order in which plies are designed contains each ply once.',
     ['inputs', 'configurations'],
     'all ply counts, group size limits, numbers of covering plies, symmetric '
     'or not',
     'No test divides a laminate.',
     ['src/BELLA/divide_panels.py', 'src/BELLA/ply_order.py',
      'src/LAYLA_V02/divide_laminate_sym.py',
      'src/LAYLA_V02/divide_laminate_asym.py', 'src/LAYLA_V02/ply_order.py'],
     [('divide_panels', 'src/BELLA/divide_panels.py'),
      ('forbidden_ply_counts', 'src/BELLA/divide_panels.py')],
     technique=T,
     note='All thickest panels up to 22 plies (40 thorough), group sizes up '
     'to 7 (10), with every thinner panel.')

prop('C09', 'Initial ply-drop layouts are valid, distinct and the best ones tried',
     'Whatever the random draws and wherever the time limit falls, generated '
     'ply-drop layouts (per group and per structure) drop exactly the plies '
     'asked for, nest the panels, keep covering plies and symmetry, are '
     'distinct, put those without spacing penalty first and complete them '
     'with the lowest penalties tried; every valid layout can be generated. '
     'Layouts read from a file or recovered from a stacking sequence table '
     'are those stored there, and are refused exactly when their panel or ply '
     'counts are wrong.',
     ['inputs', 'histories'],
     'all answers of the random generator over all draws up to the time '
     'limit, for all small groups and structures',
     'The generator is random and time-limited; no test runs it.',
     ['src/BELLA/pdl_group.py', 'src/BELLA/pdl_ini.py',
      'src/BELLA/pdl_tools.py'],
     [('randomly_pdl_guide', 'src/BELLA/pdl_group.py'),
      ('create_initial_pdls', 'src/BELLA/pdl_ini.py')],
     technique='stateless exploration of the real generator: every answer of '
     'random.sample and every position of the time limit',
     note='Groups up to 5 plies and 3 panels with one draw, up to 3 draws '
     'for smaller groups; structures whose draws multiply to at most 20000.')

prop('C10', 'Partial lamination parameters and moments of areas add up',
     'The moments of area of every ply (with its mirror image in symmetric '
     'laminates, and the middle ply counted once) and the lamination '
     'parameters each fibre orientation contributes there are those of '
     'classical lamination theory. Over any stack they add up to the '
     'lamination parameters of the stack, and for any ply-drop layout the '
     'tables used while optimising a ply group hold exactly the values of '
     'the plies each panel keeps. The same holds for the moments LAYLA uses '
     'for plies and ply groups.',
     ['inputs', 'configurations'],
     'all ply counts, symmetric or not, all stacks and all ply-drop layouts',
     'The few tests of these modules build single laminates with hard-coded '
     'numbers.',
     ['src/BELLA/moments_of_areas.py', 'src/BELLA/lampam_matrix.py',
      'src/LAYLA_V02/moment_of_areas.py'],
     [('calc_mom_of_areas2', 'src/BELLA/moments_of_areas.py'),
      ('calc_delta_lampams2', 'src/BELLA/lampam_matrix.py')],
     technique=T,
     note='All ply counts up to 30 (80 thorough), all stacks of four '
     'orientations up to 5 (6) plies per half, all layouts of two panels up '
     'to 7 (10) plies.')

prop('C11', 'Objective functions and buckling factors follow their definitions',
     'The objective of a panel is the weighted squared distance of its '
     'lamination parameters to its targets, and that of a structure the '
     'weighted sum over its panels of their objectives, each raised by the '
     'penalties with their coefficients, panels not designed yet left out. '
     'The buckling factor of a laminate is the lowest over the modes asked '
     'for, as given by the bending stiffnesses of its plies, whether it is '
     'described by its plies, all lamination parameters or those of bending '
     'only.',
     ['inputs', 'configurations'],
     'all combinations of deviations, weights, penalties and missing panels; '
     'all laminates, loads, sizes and mode counts',
     'No test evaluates an objective function or a buckling factor.',
     ['src/BELLA/objectives.py', 'src/LAYLA_V02/objectives.py',
      'src/buckling/buckling.py'],
     [('calc_obj_multi_panel', 'src/BELLA/objectives.py'),
      ('buckling_factor', 'src/buckling/buckling.py')],
     technique=T,
     note='Deviations in up to 3 (4) components from 3 values, structures of '
     'up to 3 (4) panels with all subsets of penalties, all symmetric stacks '
     'of 6 orientations up to 6 (8) plies, against D matrices from ply '
     'stiffnesses.')

prop('C12', 'Repair for balance and 10% rule yields compliant laminates',
     'From any partial laminate and queue of remaining plies, the first '
     'repair of RELAY returns a laminate of the same size, symmetry, fixed '
     'plies and outer plies that is balanced and satisfies the 10% rule where '
     'active, whenever the number of plies allows one, and leaves plies '
     'alone if the laminate complies already. The queue returned completes '
     'the laminate, and the repair always ends.',
     ['inputs', 'configurations'],
     'all laminates of a size, all splits into placed and queued plies, all '
     'rule settings',
     'The tests of the repair check six hand-picked stacks without a middle '
     'ply, none with the rule of Abdalla.',
     ['src/RELAY/repair_10_bal.py', 'src/RELAY/repair_tools.py'],
     [('repair_10_bal', 'src/RELAY/repair_10_bal.py'),
      ('calc_mini_10', 'src/RELAY/repair_10_bal.py')],
     technique=T,
     note='All laminates up to 8-11 plies of 4 or 6 orientations (quick), '
     'more in the thorough tier, six sets of percentages and the rule of '
     'Abdalla evaluated with 60 boundary points.')

prop('C13', 'Repair for membrane properties never worsens in-plane behaviour',
     'The repair for membrane properties of RELAY returns laminates with the '
     'same number of plies that keep symmetry, balance, the 10% rule, the '
     'outer plies and the plies it may not modify, whose in-plane objective '
     'is nowhere above that of the laminate handed over. The objectives and '
     'lamination parameters it returns are those of the laminates returned, '
     'and it changes nothing when switched off.',
     ['inputs', 'configurations'],
     'all laminates left by the previous repair, targets, weights, rules and '
     'bounds on the share of plies modified',
     'No stable test runs the repair for membrane properties.',
     ['src/RELAY/repair_membrane.py', 'src/RELAY/repair_membrane_1_ipo.py',
      'src/RELAY/repair_membrane_1_no_ipo.py',
      'src/RELAY/repair_membrane_1_ipo_Abdalla.py'],
     [('repair_membrane', 'src/RELAY/repair_membrane.py'),
      ('calc_lampamA_ply_queue', 'src/RELAY/repair_membrane_1_ipo.py')],
     technique=T,
     note='All laminates of 3 to 7 plies per half stack space of C12, nine '
     'targets and three weightings; queues next to long laminates.')

prop('C14', 'Repair for disorientation and contiguity yields compliant stacks',
     'The repair for disorientation and contiguity returns a laminate with '
     'the same plies, symmetry, middle ply and outer plies, and reports '
     'success only if it satisfies disorientation and contiguity throughout. '
     'A laminate that complies already is returned unchanged, and one within '
     'reach of the last permutation is repaired if any order of its plies '
     'complies. Of a list, the first laminate that can be repaired is used.',
     ['inputs', 'configurations'],
     'all laminates, splits into placed and queued plies, rule settings and '
     'permutation sizes',
     'The tests repair a few long laminates with one setting of the rules.',
     ['src/RELAY/repair_diso_contig.py', 'src/RELAY/repair_diso_contig_tools.py',
      'src/RELAY/repair_from_inside_sym.py',
      'src/RELAY/repair_from_outside_sym.py',
      'src/RELAY/repair_from_inside_asym.py',
      'src/RELAY/repair_from_outside_asym.py'],
     [('repair_diso_contig', 'src/RELAY/repair_diso_contig.py'),
      ('smallest_row', 'src/RELAY/repair_diso_contig_tools.py')],
     technique=T,
     note='All laminates up to 10 plies (symmetric) and 6 (not) in the quick '
     'tier, 15 and 8 in the thorough one, six sets of rules, all damage '
     'tolerance rules; a model of the order in which plies are tried.')

prop('C15', 'Repair for flexural properties never worsens bending behaviour',
     'From a compliant laminate, the repair for flexural properties returns '
     'one of the same plies that keeps disorientation, contiguity, symmetry, '
     'the middle ply and the outer plies of damage tolerance, whose '
     'out-of-plane objective is not above the initial one. It leaves a '
     'laminate unchanged only if none of the ply shifts and block swaps it '
     'tests improves it, or if it is switched off. The change of lamination '
     'parameters it assumes for a swap is the actual one.',
     ['inputs', 'configurations'],
     'all compliant laminates, targets, weightings, rules and numbers of '
     'shifts',
     'No stable test runs the repair for flexural properties.',
     ['src/RELAY/repair_flexural.py', 'src/RELAY/repair_flexural_1.py',
      'src/RELAY/repair_flexural_2.py', 'src/RELAY/repair_flexural_3.py',
      'src/RELAY/repair_flexural_tools.py'],
     [('repair_flexural', 'src/RELAY/repair_flexural.py'),
      ('find_list_blocks', 'src/RELAY/repair_flexural_tools.py')],
     technique=T,
     note='All compliant laminates up to 10 plies of 4 orientations or 8 of '
     '6 (symmetric), 5 and 4 plies (not symmetric) in the quick tier, one '
     'ply per half more in the thorough one; six sets of rules.')

prop('C16', 'RELAY hands back compliant laminates or the one it was given',
     'The repair of a laminate, or of the reference panel of a structure, '
     'returns either a laminate of the same length, symmetry and outer plies '
     'that meets every active rule (balance, 10% rule, damage tolerance, '
     'disorientation, contiguity) with its own objective value, or the '
     'laminate it was given marked as not repaired, which never happens to a '
     'compliant one. Compliant laminates never get worse in-plane. The change '
     'of the reference panel is carried to exactly the plies the other panels '
     'share with it, and its lamination parameters are those of the result.',
     ['inputs', 'configurations'],
     'all laminates or reference panels and ply-drop layouts, rules, targets '
     'and repair switches',
     'The tests do not run the chain of repairs.',
     ['src/RELAY/repair_ss.py', 'src/RELAY/repair_reference_panel.py'],
     [('repair_ss', 'src/RELAY/repair_ss.py'),
      ('repair_reference_panel', 'src/RELAY/repair_reference_panel.py')],
     technique=T,
     note='All laminates up to 8 plies of 4 orientations or 7 of 6 '
     '(symmetric), 4 and 3 (not symmetric), structures of 2 and 3 panels up '
     'to 8 plies in the quick tier; more plies in the thorough one. The '
     'reference panel is compared with the same laminate repaired alone.')

prop('C17', 'Ply drops of a repaired structure are valid and the best ones',
     'The repairs of RELAY that redesign the panels thinner and thicker than '
     'the reference panel keep that panel, nest all panels, keep covering '
     'plies, symmetry, contiguity and the 10% rule, add no disorientation to '
     'thicker panels, and fail only if no such ply drops exist. Without node '
     'limits they give the least objective, with limits of one the best '
     'choice at each step. The lamination parameters, tables and layouts '
     'returned are those of the stacks returned.',
     ['inputs', 'configurations'],
     'all reference laminates and layouts, structures, rules, targets and '
     'node limits',
     'The tests do not redesign the ply drops of a structure.',
     ['src/RELAY/thick_to_thin.py', 'src/RELAY/thin_to_thick.py',
      'src/RELAY/repair_mp.py'],
     [('repair_thick_to_thin', 'src/RELAY/thick_to_thin.py'),
      ('repair_thin_to_thick', 'src/RELAY/thin_to_thick.py'),
      ('repair_mp', 'src/RELAY/repair_mp.py')],
     technique=T,
     note='All reference laminates up to 8 plies of 4 orientations or 6 of 6 '
     'in 12 structures, ten sets of rules, three node limits, against a '
     'search over all chains of ply drops, and a model of the limited beam.')

prop('C18', 'The blended design returned is valid, reported exactly, and the best',
     'For every ply-drop layout, the search explores exactly the guide '
     'laminates its rules and node limits leave, and returns the repaired '
     'design with the least objective, or none only if no repair succeeds. '
     'That design has the ply counts of the panels, is symmetric, nested and '
     'covering, meets the active rules, and its lamination parameters, '
     'objectives, penalties, ply counts, table and layout are its own. Over '
     'several layouts, each one is treated as if alone, the best design is '
     'returned, and the laminates that pass each repair stage are counted.',
     ['inputs', 'configurations', 'histories'],
     'all structures, layouts, sequences of layouts, rules, targets and node '
     'limits',
     'The tests never run the optimiser.',
     ['src/BELLA/optimiser.py', 'src/BELLA/optimiser_with_one_pdl.py',
      'src/BELLA/results.py', 'src/RELAY/repair_mp.py'],
     [('BELLA_optimiser_one_pdl', 'src/BELLA/optimiser_with_one_pdl.py'),
      ('BELLA_optimiser', 'src/BELLA/optimiser.py')],
     technique=T,
     note='All layouts of structures up to 8 plies, eleven sets of rules, '
     'five node limits, sequences of up to 3 layouts; symmetric laminates. '
     'An odd thickest panel with even thinner ones, and asymmetric laminates, '
     'are known findings.')

prop('C19', 'Excel files hold what was designed and are read back as written',
     'Appending a data frame to a workbook writes its cells from the row '
     'asked for, or below the sheet, and changes nothing else; a file is '
     'deleted only on the user\'s word. The run scripts read from a saved '
     'set-up the constraints, objective function, material and structure that '
     'were saved, and the scripts that create the input files give the '
     'problems of the files shipped. The files of a run hold its settings '
     'and, for each ply-drop layout and for the best one, the stacking '
     'sequences, lamination parameters, errors, percentages, penalties, '
     'buckling factors and objectives of the design.',
     ['inputs', 'configurations', 'histories'],
     'all sequences of data frames appended, all set-ups and structures, all '
     'designs and ply-drop layouts',
     'The tests neither write nor read a file.',
     ['src/divers/excel.py', 'src/BELLA/save_set_up.py',
      'src/LAYLA_V02/save_set_up.py', 'src/BELLA/save_result.py', 'run_BELLA_from_input_file_horseshoe.py',
      'run_BELLA_from_input_file_SST_1.py',
      'input-files/create_input_file_SST.py',
      'input-files/create_input_file_horseshoe.py',
      'input-files/create_input_file_horseshoe2.py'],
     [('append_df_to_excel', 'src/divers/excel.py'),
      ('save_multipanel', 'src/BELLA/save_set_up.py'),
      ('save_result_BELLAs', 'src/BELLA/save_result.py')],
     technique=T,
     note='All sequences of 3 data frames in two sheets, 360 saved set-ups '
     'read back by the two run scripts, all guide laminates and ply drops of '
     'small structures, runs of up to 3 layouts, best-only files, designs of '
     'another program formatted by the two scripts.')

prop('C20', 'LAYLA designs one laminate exactly as its beam search promises',
     'For every target and every set of guidelines, the single-laminate '
     'optimiser explores exactly the laminates that its group sizes and '
     'branching limits leave, repairs them, keeps at each outer step the best '
     'compliant one, stops when a laminate is repeated, meets the target or '
     'the steps are used up, and returns the best step: the optimum when its '
     'beam is not limited. The laminate returned has the ply count asked for, '
     'is symmetric if requested, meets the active rules, and its lamination '
     'parameters, objective and counters are its own. It fails only when no '
     'compliant laminate was reached.',
     ['inputs', 'configurations'],
     'all target laminates, guidelines, ply counts, group sizes, outer steps '
     'and branching limits, symmetric or not',
     'No test runs LAYLA.',
     ['src/LAYLA_V02/optimiser.py', 'src/LAYLA_V02/beam_search.py',
      'src/LAYLA_V02/outer_step_sym.py', 'src/LAYLA_V02/outer_step_asym.py',
      'src/LAYLA_V02/results.py', 'src/LAYLA_V02/targets.py',
      'src/LAYLA_V02/pruning.py', 'src/LAYLA_V02/objectives.py'],
     [('LAYLA_optimiser', 'src/LAYLA_V02/optimiser.py'),
      ('beam_search', 'src/LAYLA_V02/beam_search.py')],
     technique=T,
     note='Sixteen sets of guidelines, up to 16 plies (18 thorough), up to 4 '
     'outer steps, six branching limits; optimum against all laminates up to '
     '7 plies (9 thorough).')

prop('C21', 'LAYLA run scripts design every laminate once and report it as it is',
     'Each run script of LAYLA gives every laminate of its population, range '
     'of ply counts or published table to the optimiser once, with the '
     'targets of that laminate, and writes one row per laminate, in order, '
     'whether a design was found or not. Targets, stacks, objectives, '
     'deviations, ply counts, penalties, orthotropy parameters and stiffness '
     'errors in the row are those of that target and that design, blank '
     'without a design or where the target stiffness is zero, and the set-up '
     'saved is the one used. An earlier result file is replaced only with '
     'consent.',
     ['inputs', 'histories'],
     'all populations of laminates, all sequences of designs and failures '
     'of the optimiser, earlier results present or not',
     'No test runs a script.',
     ['src/LAYLA_V02/scripts/run_LAYLA_V02.py',
      'src/LAYLA_V02/scripts/run_LAYLA_V02_SSpop.py',
      'src/LAYLA_V02/scripts/run_LAYLA_V02_loop.py',
      'src/LAYLA_V02/scripts/run_LAYLA_vs_BBK.py',
      'src/LAYLA_V02/scripts/run_LAYLA_table_4_liu_kennedy.py'],
     [('run scripts', 'src/LAYLA_V02/scripts')],
     technique=T,
     note='The optimiser is replaced by one that answers with given designs; '
     'populations of up to 3 laminates of 6 (8), five answers each; 281 ply '
     'counts; the 18 published laminates.')

prop('C22', 'Helpers sort, merge, enumerate subsets and print as documented',
     'Sorting a list in the order of another puts the listed items first in '
     'that order and the others after them in ascending order; the element-wise '
     'maximum takes arrays and scalars and refuses arrays of different sizes. '
     'The subset functions enumerate every subset once, and count, find and '
     'list exactly the subsets with a given sum, none if there is none. '
     'Stacks, lists and lamination parameters are printed complete and in '
     'order, in every form of the arguments, and arguments are left as they '
     'were.',
     ['inputs'],
     'all short lists, arrays, sets of weights and totals',
     'One test takes the maximum of two arrays.',
     ['src/divers/sorting.py', 'src/divers/arrays.py',
      'src/divers/subset_sum.py', 'src/divers/pretty_print.py'],
     [('sortAccording', 'src/divers/sorting.py'),
      ('max_arrays', 'src/divers/arrays.py'),
      ('subset_sum_next', 'src/divers/subset_sum.py')],
     technique=T,
     note='Lists of up to 5 items (6), arrays up to 3 (4), up to 5 weights up '
     'to 5 (7 up to 6).')
