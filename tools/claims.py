"""Which properties have a registered check, and how it decides them."""
T = 'TLA+ specification model checked with TLC; generated and random histories replayed on the code and validated by TLC'
CLAIMS = {
    'C01': (T, 'Exhaustive histories of 3 calls over 34 operations and 3 cells; random mixed histories up to 25 calls; grid sampled.'),
    'C02': (T, 'Random histories of string writes and saves; table entries, counts and references compared on every save.'),
    'C03': (T, 'Random histories over 40 format properties; effective format of every cell recomputed by the specification.'),
    'C04': (T, 'Random histories of reformatting calls over small overlapping ranges.'),
    'C05': (T, 'Random histories with about a third rejected calls; error, and everything a later save shows, compared.'),
    'C06': (T, 'Every row ordered history of 3 calls over 33 operations on a standard, low and constant memory worksheet in tandem; random row ordered and out of order histories.'),
    'C07': (T, 'Every pair of merged ranges in a 4x4 and of tables and autofilters in a 3x3 square; random ranges in one worksheet; acceptance and stored ranges compared.'),
    'C08': (T, 'Random histories of tables with every option and column setting over existing cells, three worksheet kinds and several saves.'),
    'C09': (T, 'Random tables of numbers, texts and blanks under random filter columns; the hidden rows are recomputed by the specification.'),
    'C10': (T, 'Every pair (triple when thorough) of 26 features on a worksheet, a worksheet in constant memory and a chartsheet, with saves between; random combinations; the parts of random histories of every other model.'),
    'C11': (T, 'Every history of 3 calls over 18 object and size operations (4 when thorough); random mixtures of every object kind over several worksheets, saved several times.'),
    'C12': (T, 'Every history of 4 tab settings, saves, swaps, removals over three worksheets; random histories over up to 8 worksheets of every kind, built in place or pushed later.'),
    'C13': (T, 'Random names, references and areas over renamed, reordered and removed worksheets; defined names and application titles compared.'),
    'C14': (T, 'Every history of 6 edits, saves and failing saves (8 when thorough) filled with random edits of every kind; random histories with saves, failing saves and unsavable states anywhere.'),
    'C15': (T, 'A failure at every output call of a save for a dozen workbooks in rotation over eight kinds of failure; random failures, size limits, full devices; several saves each.'),
    'C16': (T, 'Every schedule of two threads of two calls (three threads when thorough), forced at points inside the library; threads started together on the same new formats and strings; worksheets assembled in every order; the same program twice, byte for byte.'),
    'C17': (T, 'Random histories of row and column settings; every row and column property compared.'),
    'C18': (T, 'Random histories over every page, view and print setting with limit values; all settings recomputed at every save.'),
    'C19': (T, 'Every history of 3 calls over 19 rules, validations and sparklines on overlapping ranges (4 when thorough); random rules of every kind with every option over up to three worksheets.'),
    'C20': (T, 'Every text of 2 pieces of escapes, markup and control characters (4 when thorough) in each of 70 places; random texts in random places of up to three worksheets of every kind, saved several times.'),
    'C21': (T, 'Every column number; exhaustive small names; random names, references, ranges and quoted names compared with the specification.'),
    'C22': (T, 'Calendar explored day by day; every day of chosen years by parts, text, timestamp and date library; random dates, times and texts.'),
    'C23': (T, 'Every function of the table in eight contexts; random formulas of calls, texts, quoted names and references.'),
    'C24': (T, 'Random histories of links of every kind over all worksheet modes; target, location, tip, text and format compared.'),
    'C25': (T, 'Every history of 4 calls over 14 areas and values of two structs (5 when thorough); random structs made up at run time and 12 with derived options, nested and in sequences, over all worksheet modes.'),
    'C26': (T, 'Every history of 3 calls over cells and charts (4 when thorough), every chart type on every axis combination and in every combined pair; random histories with references of every form, invalid ranges, several sheets and saves.'),
    'C31': (T, 'Every chart type on every axis combination and combined pair; random charts with any number of options in any order, including values which are ignored.'),
    'C27': (T, 'Random property sets replaced between saves; every standard and custom property compared.'),
    'C28': (T, 'Random protection options, ranges and passwords; the password hash is computed by the specification.'),
    'C30': (T, 'Every history of 3 calls over 19 rules, validations and sparklines (4 when thorough); random sparklines and groups with every option, range form and invalid range.'),
    'C29': (T, 'Every history of 3 calls over 18 object and size operations (4 when thorough); random positions, offsets, sizes, scales, densities, movement options and row and column sizes.'),
}
REASONS = {}
HOOKS = {'guard': 'cfg vsched', 'enable': "RUSTFLAGS='--cfg vsched', set by tools/setup.sh and tools/vlib.py when they build harness/",
         'source_commits': ['8ded593f53419399386028b6863e174c5ec489f9']}
