"""property id -> (module, function)"""
CHECKS = {
    'C11': ('pictures', 'maze_picture'),
    'C26': ('pictures', 'sudoku_picture'),
    'C25': ('pictures', 'nonogram_picture'),
    'C12': ('pictures', 'walk_picture'),
    'C19': ('sizes', 'sizes'),
    'C14': ('solver', 'answers'),
    'C18': ('solver', 'no_panic'),
    'C15': ('solver', 'line_pass'),
    'C04': ('links', 'restoring'),
    'C05': ('links', 'searching'),
    'C06': ('links', 'memory'),
    'C27': ('links', 'matrix'),
    'C28': ('line', 'line'),
    'C29': ('line', 'no_panic'),
    'C22': ('small', 'union_find'),
    'C23': ('small', 'png'),
    'C24': ('small', 'random_choice'),
    'C13': ('nonogram', 'parsing'),
    'C01': ('sudoku', 'instance'),
    'C02': ('sudoku', 'clues'),
    'C03': ('sudoku', 'parsing'),
    'C16': ('sudoku', 'no_panic'),
    'C09': ('maze', 'spanning'),
    'C10': ('maze', 'solution'),
    'C17': ('maze', 'no_panic'),
    'C08': ('maze', 'carving'),
    'C20': ('purity', 'determinism'),
    'C07': ('containment', 'containment'),
}
