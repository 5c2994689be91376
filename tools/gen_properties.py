"""Writes ../properties.jsonl (one place to edit the property texts)."""
import json
import os

P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=['factorio_sat/' + f if '/' not in f else f for f in files],
                               mechanism=[dict(name=n, where='factorio_sat/' + w) for n, w in mech],
                               observe_at=list(observe), hook_needed=None)))


prop('C01', 'A layout is accepted exactly when it obeys the belt-laying rules',
     'For every grid size, edge treatment (open, tiled, blocked) and underground limit, the constraint model admits a layout exactly when it is buildable: '
     'every belt or underground end hands over to and is fed by its neighbour, splitter halves pair up inside the grid and are connected on at least one side, '
     'an unused splitter output never spills onto a belt, and every underground entrance has its matching exit after 1 to L covered cells with nothing of the same axis between. '
     'Nothing illegal is ever accepted and nothing legal is ever refused, wherever in the grid it lies and in whichever direction it runs.',
     ['inputs', 'configurations'], 'all layouts over the full tile alphabet x grid sizes x edge modes x underground limits',
     'The end-to-end suite checks about a hundred hand-drawn layouts, almost all of one orientation; the number of layouts is 29^cells for every edge mode and underground limit.',
     ['solver.py', 'template.py', 'tile.py', 'direction.py', 'cardinality.py', 'util.py'],
     [('cell type, splitter pairing, edge inputs/outputs', 'solver.py:Grid.__init__'), ('hand-over between neighbours', 'solver.py:prevent_intersection'),
      ('underground segments', 'solver.py:prevent_bad_undergrounding'), ('underground limit', 'solver.py:enforce_maximum_underground_length'),
      ('edge blocking', 'solver.py:block_belts_through_edges, block_underground_through_edges'), ('wrapping', 'template.py:get_tile_instance_offset')],
     ['satisfiability of the model with all tiles fixed', 'the tile grid read back from a solution'])

prop('C02', 'Every generated balancer is wired exactly as the requested network',
     'Every layout printed by the balancer generator is buildable and, following its belts and undergrounds, has exactly the splitters of the requested network with exactly that wiring, '
     'the right numbers of inputs and outputs, and all inputs and outputs on the sides and positions the options ask for (straight, aligned, 90 or 180 degrees, free). '
     'A given layout is accepted for a network exactly when it realises that network, and a given partial layout is always kept.',
     ['inputs', 'configurations'], 'all networks, sizes, underground limits and option combinations, and all solutions of each',
     'The suite accepts or rejects two dozen drawn balancers for five networks; it never runs the generator and never varies ends or options.',
     ['belt_balancer.py', 'solver.py', 'network.py', 'util.py', 'cardinality.py'],
     [('node/colour constraints', 'belt_balancer.py:create_balancer'), ('colour transport', 'solver.py:transport_quantity, prevent_bad_colouring, prevent_colour'),
      ('ends', 'belt_balancer.py:setup_balancer_ends, setup_balancer_ends_90, setup_balancer_ends_180'), ('partial layouts', 'belt_balancer.py:set_nonempty_tiles')],
     ['standard output of belt_balancer'])

prop('C03', 'The balancer generator misses no solution and repeats none',
     'Asked for all solutions without optional pruning, the balancer generator prints every buildable layout of the given size that realises the network with the requested ends '
     '(except layouts with an underground that spans only empty cells), each exactly once, and then stops; it prints nothing only if no such layout exists.',
     ['inputs', 'configurations'], 'all networks, sizes, underground limits and end options',
     'Proving that nothing is missing needs the whole space of layouts; tests look at single layouts only.',
     ['belt_balancer.py', 'solver.py', 'template.py', 'cardinality.py', 'optimisations.py'],
     [('enumeration with blocking clauses', 'template.py:itersolve; solver.py:itersolve'), ('constraint set', 'belt_balancer.py:main, create_balancer'),
      ('end offsets', 'belt_balancer.py:setup_balancer_input, setup_balancer_output')],
     ['the set of lines printed with --all'])

prop('C04', 'Network-free balancers really balance',
     'Every layout the network-free generator prints for n inputs and m outputs is buildable, has its n inputs on the left and m outputs on the right edge as requested, '
     'and in steady state splits the items of every single input evenly over all outputs; with different numbers of inputs and outputs, every output also draws evenly on all inputs. '
     'A layout whose items are not split evenly is never accepted, and a layout that splits evenly with splitters that all do work, and flows the model can represent, is never refused: asked for all, it prints every such layout that contains no pruned pattern (the generic pruning rules and side by side belts at the edge), each once.',
     ['inputs', 'configurations'], 'all n and m, sizes, underground limits and all solutions',
     'No test exercises this generator; evenness is a statement about the flow through an arbitrary splitter graph, for each of its layouts.',
     ['belt_balancer_net_free.py', 'solver.py', 'util.py'],
     [('flow equations at splitters', 'belt_balancer_net_free.py:create_n_to_n_balancer, create_n_to_m_balancer'), ('flow transport', 'solver.py:transport_quantity'), ('adder', 'util.py:add_numbers')],
     ['standard output of belt_balancer_net_free'])

prop('C05', 'Power-of-two balancers balance once their outer splitters are added',
     'Every layout printed by the power-of-two generator is buildable, has all its rows as inputs on the left and outputs on the right, and together with a column of splitters joining '
     'rows 1-2, 3-4, ... in front and behind splits the items of every input evenly over all outputs. Conversely, an interior that mixes in any other way is never accepted, and one that balances with the splitters the construction uses (none for size 4, four for size 8, sixteen for size 16) is never refused: asked for all, it prints every such layout that contains no pattern of the generic pruning rules, each once.',
     ['inputs', 'configurations'], 'all sizes, widths, underground limits and all solutions',
     'One test checks a handful of drawn instances for satisfiability; evenness is never evaluated.',
     ['belt_balancer_net_free_power_of_2.py', 'solver.py', 'cardinality.py'],
     [('colour sets and levels', 'belt_balancer_net_free_power_of_2.py:create_balancer')],
     ['standard output of belt_balancer_net_free_power_of_2'])

prop('C06', 'Interchanges deliver one belt of each half to every output pair',
     'Every layout printed by the interchange generator is buildable, splitter free and carries each of its left inputs to a right output so that every output pair gets one belt from the upper and one '
     'from the lower half of the inputs, upper first when alternation is requested; with rotational symmetry requested it is unchanged when turned by 180 degrees with the flow reversed. '
     'Underground limits are respected, and asking for alternation or giving a partial layout selects exactly those layouts that satisfy it. Asked for all, it prints every interchange, except those which waste belts by a pattern of the pruning rules (rows passing against each other, awkward underground entries, hooks, half turns, loops, mergeable undergrounds, zigzags), each once.',
     ['inputs', 'configurations'], 'all widths, heights, underground limits, option combinations and all solutions',
     'There is no test for this generator.',
     ['interchange.py', 'solver.py', 'util.py', 'optimisations.py'],
     [('end colours', 'interchange.py:main'), ('colour transport', 'solver.py:prevent_bad_colouring'), ('symmetry', 'interchange.py:require_rotational_symmetry')],
     ['standard output of interchange'])

prop('C07', 'Belt blocks: exactly the valid blocks are produced, each once',
     'Asked for all blocks, the block generator prints every buildable splitter-free block of the given size that meets the options (tileable in both directions or closed, empty cells or none, '
     'underground limit, no side-by-side undergrounds, one single loop over all cells), except those with a four-cell loop inside the block or an underground spanning only empty cells, and prints nothing else and nothing twice.',
     ['inputs', 'configurations'], 'all sizes and option combinations',
     'There is no test for this generator.',
     ['make_block.py', 'solver.py', 'optimisations.py', 'template.py', 'util.py'],
     [('options', 'make_block.py:main'), ('loop length', 'make_block.py:ensure_loop_length'), ('parallel undergrounds', 'make_block.py:prevent_parallel'),
      ('small loops', 'optimisations.py:prevent_small_loops')],
     ['the set of lines printed with --all'])

prop('C08', 'A pruning rule forbids its pattern everywhere and nothing else',
     'Each optional pruning rule excludes exactly the layouts containing its pattern (four-cell loop, splitter fed by two straight belts, hook, half circle, zigzag, belt turning beside a splitter, '
     'underground that could be lengthened, merged, shortened to nothing or hooked), in every rotation, mirror image and position it is meant for, and no layout without it. '
     'Rules only ever remove layouts; combining them removes exactly the union.',
     ['inputs', 'configurations'], 'all layouts x rules x orientations x positions x underground limits',
     'The suite has a few drawn positives and negatives per rule, not every orientation, position or near miss.',
     ['optimisations.py', 'template.py'],
     [('rules', 'optimisations.py:glue_splitters, expand_underground, prevent_*'), ('pattern iteration', 'template.py:iterate_tile_blocks')],
     ['satisfiability of the model with all tiles fixed and one rule on'])

prop('C09', 'All solver back ends give the same answer, and a broken solver is reported',
     'A problem gives the same set of solutions with every built-in solver and an equally valid single answer with an external solver command (reading standard input or a file) or a solver library. '
     'If the external solver dies or its answer is cut off at any point, the tool fails visibly: it never prints a layout that is not a solution and never claims that there is none.',
     ['configurations', 'fault_sequences'], 'all back ends x problems; every truncation point of a solver answer and every legal formatting of it',
     'Tests use one built-in solver; no external solver, library or failing solver is exercised.',
     ['template.py', 'ipasir.py'],
     [('solver dispatch', 'template.py:solve, itersolve'), ('answer parsing', 'template.py:run_command_solver'), ('library binding', 'ipasir.py')],
     ['tool output and exit for each --solver'])

prop('C10', 'Blueprint strings round-trip every layout',
     'Encoding a layout as a blueprint of any belt level and decoding it gives back the same tiles at the same relative positions, with every belt curve recovered, and the encoded entities carry the '
     'positions, directions and entity names of that belt level that the game expects. Decoding does not depend on where in the world or in which order the entities are listed.',
     ['inputs', 'configurations'], 'all layouts, belt levels, labels, entity orders and world offsets',
     'No test touches blueprints; each tile, neighbour combination, belt level and offset is its own case.',
     ['blueprint.py', 'direction.py', 'tile.py'],
     [('encoding', 'blueprint.py:make_blueprint, encode_blueprint'), ('decoding', 'blueprint.py:import_blueprint, resolve_belt_input_directions')],
     ['standard output of blueprint encode / decode'])

prop('C11', 'Text drawings and JSON round-trip every layout',
     'Drawing a layout as text and reading the drawing back gives the same tiles for every layout of belts, undergrounds, splitters, fillers and empty cells, and distinct layouts have distinct drawings; a tile without a picture is never drawn like another one, and white space around the lines of a drawing does not matter. '
     'Layouts written as JSON are read back unchanged, including cells in the older formats without an explicit tile.',
     ['inputs'], 'all layouts; several layouts in one stream',
     'The suite reads drawings but never checks that writing and reading are inverse or injective.',
     ['stringifier.py', 'tile.py', 'blueprint.py'],
     [('drawing', 'stringifier.py:encode, decode'), ('JSON', 'tile.py:write, read; blueprint.py:read_tile, write_tile')],
     ['standard output of stringifier encode / decode'])

prop('C12', 'Rotating or flipping a layout keeps its behaviour',
     'Each rotation and flip moves every tile to the place and orientation of the turned picture, so that a buildable layout stays buildable and keeps its wiring. '
     'The operations compose like those of a square: four quarter turns or two equal flips change nothing, and two quarter turns equal the half turn.',
     ['inputs', 'histories'], 'all layouts x all sequences of operations',
     'No test runs the transformations.',
     ['rotate.py', 'tile.py', 'direction.py'],
     [('operations', 'rotate.py:Operation, main'), ('tiles', 'tile.py:rotate_90, rotate_180, rotate_270, flip_x, flip_y')],
     ['standard output of rotate'])

prop('C13', 'Blueprint books keep every blueprint, in order and unchanged',
     'Unpacking a packed book gives back exactly the packed blueprints in their order, for any number of blueprints including none; the book numbers them consecutively from zero and carries the given label, and packing leaves the given blueprints themselves as they are.',
     ['inputs'], 'all sequences of blueprints, labels',
     'No test touches blueprint books.',
     ['blueprint_book.py', 'blueprint.py'],
     [('books', 'blueprint_book.py:pack_book, unpack_book, main')],
     ['standard output of blueprint_book'])

prop('C14', 'Reading a network from a layout gives the wiring the layout has',
     'For every buildable layout the network reader produces a network with one node per splitter whose connections are exactly those obtained by following the belts and undergrounds, '
     'with the layout inputs and outputs as external connections and unused splitter sides marked as such. The layout realises the network read from it, also after saving and reloading the network.',
     ['inputs', 'configurations'], 'all buildable layouts in all orientations, both treatments of splitters at the border',
     'No test reads a network from a layout.',
     ['network.py'],
     [('tracing', 'network.py:parse_network'), ('normalisation', 'network.py:tidy_network, fix_colours, remap_colours'), ('files', 'network.py:save_network, open_network')],
     ['file written by network parse'])

prop('C15', 'Created networks balance, flipping reverses them, files round-trip',
     'The network created for size n has n inputs and n outputs and, however belts of equal colour are matched up, splits every input evenly over all outputs. '
     'Flipping a network exchanges inputs and outputs of every node and flipping twice restores it exactly, in the order written; writing and reading a network file changes nothing, and comments and blank lines are ignored.',
     ['inputs'], 'all sizes; all networks; all ways to connect belts of equal colour',
     'No test creates or flips networks.',
     ['network.py'],
     [('creation', 'network.py:create_benes_network'), ('flip', 'network.py:flip_network, main'), ('files', 'network.py:open_network, save_network'),
      ('external colours', 'network.py:get_input_output_colours, get_exterior_colours, deduplicate_network')],
     ['files written by network create / flip'])

prop('C16', 'Number and counting encodings mean what they say',
     'The clauses for adding, summing, incrementing, negating, comparing, bounding, fixing and counting binary numbers, for at-most-one and exactly-one of a set, and for exactly, at least or at most n of a set '
     'admit exactly the assignments for which the stated relation holds, for every width, value, overflow setting and carry. Auxiliary variables never add or remove a meaning, also when a relation is made conditional.',
     ['inputs'], 'all widths, values and assignments',
     'No test evaluates an encoding; the relations must hold for every value, not sampled ones.',
     ['util.py', 'cardinality.py'],
     [('arithmetic', 'util.py'), ('cardinality', 'cardinality.py')],
     ['satisfiability of the clauses with the interface literals fixed'])

prop('C17', 'The optimiser finds the true optimum whatever order results arrive in',
     'Whatever is possible and impossible (larger sizes and longer undergrounds never making things worse, and some searched size being possible), whatever is already in the database and in whichever order parallel results arrive, computing stops, '
     'and then the stored best solution of every network has the minimal length (or area, within the searched heights) among all sizes the search covers. '
     'A size is only ever taken as possible or impossible when results imply it, and no size is solved whose answer is already implied. '
     'With the real solver the recorded answers agree with whether a balancer of that size (aligned, with belts at its ends) exists, and stored solutions are such balancers.',
     ['schedules', 'histories', 'inputs'], 'all monotone possibility oracles on a bounded size range, all initial databases reachable from earlier runs, all completion orders',
     'No test runs the optimiser; orders of parallel completions and databases left by earlier runs with other settings are unbounded.',
     ['calculate_optimal.py'],
     [('search', 'calculate_optimal.py:LengthObjective, AreaObjective'), ('inference', 'calculate_optimal.py:does_balancer_exist, clean'), ('parallel search', 'calculate_optimal.py:main (optimise)')],
     ['database file', 'solve requests', 'query output'])

prop('C18', 'Interrupting the optimiser never loses or corrupts saved results',
     'If the optimiser is stopped at any moment (killed, interrupted with Ctrl-C or by a failing write), including in the middle of writing, the database file on disk is complete and readable and contains every result saved before, '
     'each result being saved before the next size of its network is tried, '
     'and a restarted run continues from it and ends with the same optimum. Results for networks are never mixed up or dropped by saving and loading.',
     ['crash_points', 'histories'], 'every system call of every save, torn writes included, in every order of completions',
     'Tests never interrupt the program.',
     ['calculate_optimal.py'],
     [('saving', 'calculate_optimal.py:main (save_progress)'), ('loading', 'calculate_optimal.py:from_json, to_json')],
     ['database file after the interruption'])

prop('C19', 'Queries and the crosstable report exactly what is known',
     'A query prints, per network in order, the best stored solution for the objective and underground limit, and without the imperfect option only if it is proven optimal; as blueprints it shows the same layout, labelled with its network, in the slowest belt level whose undergrounds reach the limit (the fastest if none does). '
     'The crosstable shows for each size the shortest underground level known to work, a cross only if every level is known to be impossible and a question mark otherwise, covers every size with a stored answer and keeps the text before its heading.',
     ['inputs', 'histories'], 'all databases over a bounded size range, all objectives and limits',
     'No test runs a query or the export.',
     ['calculate_optimal.py', 'blueprint.py'],
     [('query', 'calculate_optimal.py:best_current_solution, main'), ('crosstable', 'calculate_optimal.py:export_crosstable')],
     ['standard output of calculate_optimal query', 'exported markdown file'])

prop('C20', 'Symmetry breaking keeps a representative of every solution',
     'Breaking vertical (or horizontal) symmetry never removes both a layout and its mirror image (or its flow-reversed mirror image): for every pair of buildable layouts that are mirror images of each other at least one stays, '
     'and only one of them unless the two agree in everything that is compared.',
     ['inputs', 'configurations'], 'all layouts and grid heights',
     'The suite has a few drawn pairs; losing both images needs a particular layout and height.',
     ['optimisations.py', 'util.py'],
     [('ordering', 'util.py:break_symmetry'), ('mirror', 'optimisations.py:break_vertical_symmetry, break_horisontal_symmetry')],
     ['satisfiability of the model with the layout or its mirror fixed'])

prop('C21', 'Rendered pictures and videos show the layout that was given',
     'Every frame of the rendered animation shows exactly the tiles of the layout, each in its cell with its orientation in the right step of its animation, structures above belts; cells of the same colour look the same and cells of different colours differ (nothing is tinted with colours hidden); underground connections and raw attributes are shown where asked for and nowhere else. '
     'Exporting writes one video per layout, in order and upright, with each step of the animation once; the keys move to the next and previous layout (reading more input when needed and wrapping around at the ends), save the animation of the shown layout and print its blueprint.',
     ['inputs', 'configurations', 'histories'], 'all layouts, drawing options and sequences of key presses',
     'No test renders: drawing needs a display. A wrong sprite row or a stale frame shows for one orientation or after one sequence of keys only.',
     ['render.py', 'tilemaps.py', 'blueprint.py'],
     [('tiles', 'render.py:render_tile, render_solution'), ('attributes', 'render.py:render_attributes'), ('export, keys, frame cache', 'render.py:main, export_video'), ('sprite sheets', 'tilemaps.py:Tilemap')],
     ['window contents per frame', 'frames handed to the video encoder', 'printed blueprints'])

prop('C22', 'Network pictures show exactly the network',
     'Rendering a network draws one box per splitter and connects the boxes exactly as the network file says: each colour leads from the splitters that produce it to those that consume it, the inputs enter at the input colour and the outputs leave at the output colour, also when these colours are fed back inside. '
     'With an output file named, the picture is written to it in the format of its extension and no other file, such as the network itself, is changed.',
     ['inputs', 'configurations'], 'all networks with one input and one output colour, all file names',
     'No test draws a network; feedback into an end colour and files of the same name are special cases of otherwise ordinary runs.',
     ['network.py'],
     [('drawing', 'network.py:plot'), ('ends', 'network.py:get_input_output_colours'), ('reading', 'network.py:open_network')],
     ['picture file', 'directory contents'])

prop('C23', 'Tidying, simplifying and recolouring networks keep what they do',
     'Renumbering or tidying a network whose belts all have their own colour gives the same network, up to the names of the colours (and, when tidying, the order of nodes and sides), with inputs numbered first, then inner belts, then outputs, without gaps. '
     'Simplifying removes every splitter that is not fed, passes nothing on, only passes one belt on, or stands directly behind another, never fails, leaves the given network alone, and keeps the share of every input that each output gets. '
     'Optimising colours only renames them one for one and reaches the lowest cost any numbering with as many numbers as colours has; the cost counts, over all sides of splitters with two belts not both at the edge, the bits in which the two colours differ.',
     ['inputs'], 'all networks in which every belt has its own colour',
     'No test rewrites a network; whether a rewrite keeps the flow depends on the whole graph, and a lowest cost is a statement about every numbering.',
     ['network.py', 'util.py'],
     [('renumbering', 'network.py:fix_colours, tidy_network, remap_colours'), ('simplification', 'network.py:simplify'), ('optimisation', 'network.py:optimise_colours, calculate_cost')],
     ['the networks returned'])

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        f.write(json.dumps(p) + '\n')
print(len(P))
