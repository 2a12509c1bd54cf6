ENGINE = 'abstract interpretation of MIR (relational domain, loop invariants inferred)'
HEAP = 'abstract interpretation of MIR over integer addresses; the effects of every path matched against a specification tree'
EN = ('Sound over-approximation of every execution within the stated assumptions: all paths and all loop iterations of the analysed '
      'functions, collections shorter than 2^31 elements, allocation succeeds; models of std/image/rand functions are trusted. ')

prop('C01', 'The sudoku exact-cover instance is exactly the rules of sudoku',
     'The search behind solve_sudoku is given exactly 324 requirements: one per cell, per row and digit, per column and digit and per box and digit, '
     'each listing exactly the nine placements (cell, digit) that satisfy it. No requirement is dropped, repeated or altered on its way to the search.',
     ['inputs'], 'all 729 placements x 324 requirements', 'tests solve a few grids; a wrong entry shows only for grids that depend on it',
     [SU, DL], [('SUDOKU_CONSTRAINTS', SU), ('DancingMatrix::new', DL)])
prop('C02', 'Every clue of a sudoku is honoured or the puzzle is refused',
     'solve_sudoku refuses with InvalidSize(length) exactly when the input has not 81 entries; otherwise every non-zero entry is imposed as "this cell holds this digit" '
     'before the search starts, a zero imposes nothing, and a digit above nine or a clue that contradicts an earlier one gives NoSolution. '
     'A returned grid has, in cell k, the digit of the placement chosen for cell k.',
     ['inputs'], 'all slices of u8', 'tests use four valid puzzles and never invalid or contradictory clues',
     [SU, DL], [('solve_sudoku clue loop', SU), ('DancingMatrix::add_solution', DL)])
prop('C03', 'Sudoku text parses to its digits or names what is wrong',
     'parse_sudoku returns Ok exactly when the text has 81 characters that are all decimal digits, and then entry k is the value of character k. '
     'The first character that is not a digit is reported as InvalidInteger with that character; otherwise a wrong count is reported as InvalidSize with that count.',
     ['inputs'], 'all strings', 'tests parse a handful of well-formed strings only',
     [SU], [('parse_sudoku', SU)])
prop('C04', 'Exact-cover backtracking leaves no trace of an abandoned choice',
     'When the exact-cover search abandons a choice, every link and every count of the matrix is what it was before the choice, and the choice is no longer part of the answer.',
     ['inputs', 'histories'], 'all matrices and all search histories', 'a mis-restored link matters only for instances whose search backtracks through it',
     [DL, DN], [('cover_column/uncover_column', DN), ('solve_helper', DL)], technique=HEAP,
     note='Covering and uncovering are shown to be each other\'s mirror image store by store; that the links form closed rings, and that a row has at most one node in a column, is assumed of the matrix given.')
prop('C05', 'Exact-cover search reports success and failure truthfully',
     'The search reports success only when no requirement is left uncovered, and reports failure only after some requirement was chosen and every row that covers it was tried and failed. '
     'The answer consists of the rows imposed beforehand and the rows chosen, nothing else.',
     ['inputs', 'histories'], 'all matrices', 'tests include solvable instances only',
     [DL], [('solve_helper', DL), ('solve', DL)], technique=HEAP,
     note='The inner search enters as its two outcomes; closed rings are assumed of the matrix given. Termination is not decided.')
prop('C06', 'The exact-cover matrix never touches freed nodes and frees each once',
     'Whatever rows are imposed and however the search ends, each node of the matrix is released exactly once, none is used after its release, and failed allocation is not dereferenced.',
     ['inputs', 'histories'], 'all matrices, all sequences of imposed rows, all search outcomes', 'memory errors are silent in ordinary test runs',
     [DL, DN], [('free_chain', DN), ('Drop for DancingMatrix', DL), ('add_solution', DL)], technique=HEAP,
     note='Frees are matched with the rings they walk; closed rings, and at most one node per row and column, are assumed of the matrix given. Unwinding out of a half-finished operation is not followed.')
prop('C27', 'The exact-cover matrix is the instance it was built from',
     'The matrix holds one column per requirement in the order given, with its number of candidates, and in it one node per candidate, in order and linked into the row of that number. '
     'Imposing a row is refused with an index error exactly when there is no such row number and as invalid exactly when the row has no entry or was ruled out before; otherwise it adds the row to the answer once, '
     'covers exactly the requirements the row meets, and rules out every row that meets one of them.',
     ['inputs', 'histories'], 'all instances and all sequences of imposed rows', 'tests build two tiny matrices and the one of sudoku',
     [DL, DN], [('DancingMatrix::new', DL), ('Node::new', DN), ('add_solution', DL)], technique=HEAP,
     note='One round of building is decided for an arbitrary matrix so far. What covering does is C04. The candidates of one requirement are assumed distinct.')
prop('C07', 'Unsafe code is confined to the exact-cover module',
     'Operations that the compiler cannot check for memory safety occur only inside the exact-cover module; no exported type owns or exposes its raw node pointers, '
     'and the matrix that owns them can be neither copied nor shared between threads.',
     ['programs'], 'every item of the crate', 'no test can show the absence of unchecked operations',
     [DL, DN, DS, MZ, RB, SU, NG, RL, LIB, UT], [('private modules and fields', DL)],
     technique='HIR/type query (unsafe-effect confinement)',
     note='Complete over the items of the crate; trusts the standard library and the dependencies.')
prop('C20', 'Parsing, solving and printing depend on nothing but their arguments',
     'Every exported parsing, solving and printing function returns the same result for the same arguments: none of them reaches randomness, time, environment, files, threads, '
     'addresses used as data, or state that outlives the call. Only maze creation is random.',
     ['inputs', 'histories', 'configurations'], 'every call path of nine exported functions', 'repeated calls in one process rarely reveal hidden state',
     [SU, NG, RL, MZ, DL, LIB, UT], [('absence of statics and randomness', LIB)],
     technique='whole-program call-graph effect analysis over monomorphised MIR',
     note='Follows every call edge, drop glue and function value of the monomorphised program; std functions without shipped MIR are judged by module path.')
prop('C08', 'Carving a maze opens walls between different regions only',
     'While a maze is carved, a wall is opened only between two neighbouring cells inside the grid that were not yet connected, and they are connected from then on; '
     'walls of the outer border stay closed, apart from the exit. Hence the carved maze contains no loop.',
     ['inputs', 'histories'], 'all sizes and all random choices', 'the maze code has no tests; a wrong wall shows only for some sizes and random choices',
     [RB, MZ, DS], [('recursive_backtrack', RB)], technique=ENGINE)
prop('C09', 'Carving tries every neighbour of every visited cell before it gives up',
     'Carving leaves a cell only after each of its four neighbours that lies inside the grid was tried: connected, or found to be connected already. Every cell that gets connected is visited. '
     'Hence every cell of the maze can be reached from every other.',
     ['inputs', 'histories'], 'all sizes and all random choices', 'the maze code has no tests; a cell may be cut off for rare random choices only',
     [RB, MZ], [('recursive_backtrack', RB), ('choose_random', UT)], technique=ENGINE)
prop('C10', 'The solution of a maze is a walk through open walls to the exit',
     'The directions returned by create_maze, followed from the last to the first (as print_maze_solution does) from the top left cell, never cross a closed wall or the border and end at the cell above the one '
     'opening in the bottom border, which is the exit. The exit is the bottom cell that a breadth-first search from the top left cell reaches last. The grid returned with them is the grid they were found in, of width times height cells.',
     ['inputs', 'histories'], 'all sizes and all random choices', 'the maze code has no tests',
     [MZ, RB], [('create_maze', MZ)], technique=ENGINE)
prop('C16', 'Sudoku functions never panic',
     'parse_sudoku, solve_sudoku and print_sudoku return for every argument: no index out of bounds, arithmetic overflow, failed unwrap or explicit panic is reachable from them.',
     ['inputs'], 'all arguments', 'tests use well-formed puzzles only',
     [SU], [('parse_sudoku, solve_sudoku, print_sudoku', SU)], technique=ENGINE,
     note='The exact-cover functions called by solve_sudoku are taken not to panic; termination is not shown.')
prop('C17', 'Maze functions never panic',
     'create_maze, print_maze and print_maze_solution return for every argument whose image or grid is addressable: no index out of bounds, arithmetic overflow, '
     'failed unwrap or explicit panic is reachable from them.',
     ['inputs', 'histories'], 'all arguments and random choices; grids below 2^31 cells, images below 2^31 pixels a side', 'the maze code has no tests',
     [MZ, RB, DS, UT], [('create_maze', MZ), ('print_maze', MZ)], technique=ENGINE)

prop('C13', 'Nonogram rules parse to their numbers or name what is wrong',
     'parse_nonogram_rules returns Ok exactly when every piece between semicolons consists of numbers separated by commas whose sum plus the gaps between them (one less than their count) is at most the bound; '
     'entry i, j of the result is then number j of piece i. InvalidRule carries a piece that is no number; InvalidRuleDimension is returned only when the numbers of a rule exceed the bound, even if their sum overflows.',
     ['inputs'], 'all strings and bounds', 'tests parse a handful of well-formed strings only',
     [NG], [('parse_nonogram_rules', NG)], technique=ENGINE)
prop('C22', 'Union-find answers whether two indices were joined',
     'In a disjoint set, find returns the root of the set of its index, and None exactly for an index beyond the end; common_set tells whether two roots are equal; '
     'union of two different sets makes one root a child of the other, the larger set keeping its root and receiving the sum of the sizes, and changes no other membership; '
     'path compression moves elements only directly below the root of their own set; new elements are sets of their own.',
     ['inputs', 'histories'], 'all sequences of operations, all indices', 'tests run short fixed sequences of operations',
     [DS], [('find, union, common_set', DS)], technique=ENGINE)
prop('C23', 'PNG conversion encodes the image given, completely',
     'image_to_png_bytes returns Ok exactly when the encoder succeeded and then exactly the bytes that the PNG encoder wrote for the given image, from the first to the last; a failure of the encoder is returned as it is.',
     ['inputs'], 'all images', 'no test encodes an image that fails, and none compares all bytes',
     [LIB], [('image_to_png_bytes', LIB)], technique=ENGINE, note='The PNG encoder of the image crate is trusted.')
prop('C24', 'A random choice takes one element, and every element can be taken',
     'choose_random returns None exactly for an empty vector, which stays empty; otherwise the index is drawn from the whole range 0..length, '
     'and the element at that index is removed from the vector and returned, the other elements remaining.',
     ['inputs', 'histories'], 'all vectors and all random draws', 'tests draw a few times from small vectors',
     [UT], [('choose_random', UT)], technique=ENGINE, note='That rand draws uniformly from the range it is given is trusted.')
PN = 'The text renderer and the image type are trusted: draw_text_mut draws the given text at the given position, put_pixel and filled rectangles set exactly their pixels.'
prop('C11', 'The picture of a maze shows exactly its walls',
     'print_maze returns, for a grid of width times height cells, a white picture of 10w+1 by 10h+1 pixels in which exactly these pixels are black: the left border, the top border right of the entrance, '
     'and for every cell with a closed right or lower wall the 11 pixels of that wall.',
     ['inputs'], 'all grids and all sizes', 'the maze code has no tests',
     [MZ], [('print_maze', MZ)], technique=ENGINE, note=PN)
prop('C12', 'The drawn solution of a maze follows its directions from entrance to exit',
     'print_maze_solution paints in red the entrance stroke, then for every direction, taken from the last to the first, the stroke from the centre of the current cell to the centre of its neighbour in that direction, '
     'then the exit stroke, and nothing else, on the picture it is given. It refuses only if a stroke would leave the picture.',
     ['inputs', 'histories'], 'all pictures and all sequences of directions', 'the maze code has no tests',
     [MZ], [('print_maze_solution', MZ)], technique=ENGINE, note=PN)
prop('C19', 'A picture is refused exactly when the sizes given do not fit',
     'print_maze answers InvalidDimensions exactly if the grid has not width times height cells or a side of 10w+1 or 10h+1 pixels does not fit 32 bits; print_maze_solution exactly if a side of the picture given is below 6 pixels; '
     'print_nonogram exactly if there is not one rule per column and row or 60w or 60h does not fit 32 bits; print_nonogram_solution exactly if the grid has not w times h cells, the picture given is not 50w+max(150,10w) by 50h+max(150,10h), or that does not fit 32 bits; '
     'print_sudoku answers InvalidSize with the number of entries exactly if it is not 81. No other answer is given when the sizes do not fit.',
     ['inputs'], 'all sizes, grids, rules and pictures', 'tests draw only with sizes that fit',
     [MZ, NG, SU], [('print_maze', MZ), ('print_maze_solution', MZ), ('print_nonogram', NG), ('print_nonogram_solution', NG), ('print_sudoku', SU)], technique=ENGINE,
     note='That nothing panics instead is C16, C17 and C18.')
prop('C26', 'The picture of a sudoku shows the grid lines and every digit in its cell',
     'print_sudoku returns a white picture of 900 by 900 pixels with black lines at the multiples of 100, three pixels wide between boxes, and with entry i drawn in the cell of column i mod 9 and row i div 9 '
     'for every entry that is not zero; nothing else is drawn.',
     ['inputs'], 'all grids of 81 entries', 'no test looks at a picture',
     [SU], [('print_sudoku', SU)], technique=ENGINE, note=PN)
prop('C25', 'The pictures of a nonogram show its rules, its grid and its filled cells',
     'With rw = max(150, 10w) and rh = max(150, 10h), print_nonogram returns a white picture of 50w+rw by 50h+rh pixels with number k of column rule c at (rw+50c+15, 30k+10), each row rule, its numbers joined by two spaces, at (10, rh+50r+10), '
     'and gray lines at rw+50c and rh+50r, three pixels wide at multiples of five; nothing else is drawn. print_nonogram_solution paints a black square of 49 by 49 pixels at (rw+50x+1, rh+50y+1) for exactly the filled cells (x, y), on the picture it is given.',
     ['inputs'], 'all rules and grids; pictures below 2^31 pixels a side', 'no test looks at a picture',
     [NG], [('print_nonogram, print_nonogram_solution', NG)], technique=ENGINE, note=PN)
prop('C14', 'A nonogram answer rests on accepted grids, a refusal on exhausted guesses',
     'solve_nonogram answers EmptyPuzzle exactly without columns or rows; an answer has one entry per cell and is a grid without blank cells, grown from the all-blank grid, that every line pass on its way accepted; '
     'NoSolution is returned only if the numbers of a rule exceed its line, or a pass refused. While guessing, a grid is refused only after the same blank cell was tried filled and blocked and both attempts, each starting from the grid given, were refused; '
     'a grid is accepted only if it has no blank cell or an accepted attempt completes it.',
     ['inputs', 'histories'], 'all puzzles and all guessing histories', 'tests solve a few puzzles with one solution; hardly any needs a guess, none a wrong guess',
     [NG], [('solve_nonogram', NG), ('recursive_backtrack', NG)], technique=ENGINE,
     note='The line pass enters as its two outcomes (accepted with a changed grid, refused); what it does is C15. Termination is not decided.')
prop('C15', 'The nonogram line pass decides only cells that its two searches agree on',
     'The pass searches every column and every row, whole, against its own rule, from both ends; a cell is written only if it was blank and both arrangements give it the value written, within blocks of the same number. '
     'The pass refuses exactly after a search found no arrangement, and accepts only after a round that searched every line from both ends and changed nothing; another round is made only after one that decided a cell, so that the pass ends.',
     ['inputs', 'histories'], 'all grids and rules, any number of rounds', 'tests solve a few puzzles; a wrongly decided cell or a line left out shows for rare rules only',
     [NG, RL], [('right_left', NG), ('RuleMachine', RL)], technique=ENGINE,
     note='The search of one line enters as a function that finds some arrangement or none. width * height below 2^31.')
prop('C28', 'The search of a nonogram line finds its leftmost arrangement or none',
     'For every list of states built from a rule and every line, the search advances each of its partial arrangements over each cell by all the moves the cell allows and no other, '
     'keeps the arrangement that waited longest where two meet, ends with one as soon as all blocks are placed and no filled cell is left, and answers one decision per cell, filled exactly in blocks. '
     'It refuses only when every state was tried up to the end of the line.',
     ['inputs', 'histories'], 'all lines and rules; lines shorter than 2^31', 'tests run whole puzzles; a move that is missed or a wrong preference shows for rare lines only',
     [RL], [('find_left', RL)], technique=ENGINE,
     note='The list of states has the shape Start, End, blocks of Fill separated by one Space, End, which C15 shows where it is built. That these steps give the leftmost arrangement is the usual argument about such '
          'an automaton (DESIGN.md); its steps are what is decided.')
prop('C29', 'Searching a nonogram line never panics',
     'For every list of states built from a rule and every line, the search for the leftmost arrangement ends without a panic: no state, table entry or cell out of bounds is looked at, '
     'no sum overflows, and none of the branches marked unreachable is reached.',
     ['inputs'], 'all lines and rules; lines shorter than 2^31', 'tests run a few puzzles; a table one entry short shows for rules that end at the border only',
     [RL], [('find_left', RL)], technique=ENGINE,
     note='The list of states has the shape Start, End, blocks of Fill separated by one Space, End, which C15 shows where it is built. Together with C18 this covers all of the nonogram solver.')
prop('C18', 'Reading, solving and drawing nonograms never panics',
     'For every argument, parse_nonogram_rules, solve_nonogram, print_nonogram and print_nonogram_solution end without a panic from their own code: no index out of bounds, arithmetic overflow, division by zero, '
     'failed unwrap or explicit panic is reachable from them, the search of one line set aside.',
     ['inputs', 'histories'], 'all arguments; width * height below 2^31, fewer than 2^27 numbers in a rule that is drawn', 'tests use well-formed puzzles only',
     [NG, RL], [('parse_nonogram_rules', NG), ('solve_nonogram', NG), ('print_nonogram', NG)], technique=ENGINE,
     note='The line search find_left is not included: its indices depend on the shape of the state list. Recursion depth and allocation are not bounded.')
