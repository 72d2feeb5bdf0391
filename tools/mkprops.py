#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W, B = 'src/worksheet.rs', 'src/workbook.rs'
P = []


def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe}
    if state:
        a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if hook:
        a['hook_needed'] = hook
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


FILE = ['the saved .xlsx, read back with an independent reader']
TESTS = 'The tests compare a few fixed programs with files made by Excel; '

p('C01', 'Every cell shows what the last accepted write to it stored',
  'In a saved workbook each cell holds exactly the value of the last accepted call that covers it (number, string, rich string, boolean, blank, formula with its result, array or dynamic formula, merged range, clear), and cells no call covers are absent. Values are stored exactly: numbers bit for bit, NaN and infinities as the configured text, formula results with the type their text implies.',
  ['histories', 'inputs'], 'any sequence of cell, row, column, matrix, merge, formula and clear calls over any positions, with saves in between',
  TESTS + 'none overwrites cells of one kind with another in long mixed histories or resaves in between.',
  [W], [('cell table insert/overwrite', W + ' insert_cell'), ('typed stores', W + ' store_number/store_string/store_rich_string/store_formula/store_array_formula/store_boolean/store_blank'), ('cell output', W + ' write_data_table')], FILE,
  [('data_table', 'row -> column -> cell', W)])
p('C02', 'The shared string table resolves every string cell to its own text',
  'Every string cell of a saved workbook refers to an entry of the shared string table that holds exactly its text (and, for rich strings, its runs), entries are unique and the declared counts are those of the file. If no worksheet stores strings as it is written, the table holds exactly the strings in use at that save.',
  ['histories', 'configurations'], 'any history of string writes, overwrites, clears and saves over several worksheets in standard and low memory modes',
  TESTS + 'string tables after overwriting, clearing and repeated saves are not compared.',
  [W, 'src/shared_strings.rs', 'src/shared_strings_table.rs'], [('interning', 'src/shared_strings_table.rs shared_string_index'), ('id assignment at save', W + ' update_string_table_ids'), ('output', 'src/shared_strings.rs')], FILE)
p('C03', 'Each cell is shown with the format that applies to it',
  'A cell shows the format given with it; without one it shows its row format, else its column format, and where both were set when it was written, the row format completed by the column format. Every property of a format reaches the saved styles with its exact value, and equal formats used on any number of worksheets, rows, columns and cells resolve to the same appearance.',
  ['histories', 'inputs'], 'any combination of format properties applied by any order of cell, row and column formatting and writing',
  TESTS + 'each exercises one or two properties in one place.',
  [W, B, 'src/format.rs', 'src/styles.rs'], [('format registry', W + ' format_xf_index'), ('row/column combination', W + ' row_col_format'), ('global mapping', B + ' save_internal, prepare_format_properties'), ('style output', 'src/styles.rs')], FILE)
p('C04', 'Reformatting existing cells changes only their format',
  'Setting, clearing or replacing the format of one cell or a range, with or without a border around it, leaves the contents of every cell as they were, gives each covered cell exactly the requested format (edge cells the border of their edges), and creates blank formatted cells only where none existed.',
  ['histories', 'inputs'], 'any interleaving of writes and reformatting calls on overlapping cells and ranges',
  TESTS + 'overlapping ranges, one-row or one-column ranges and cells of every kind are not combined.',
  [W], [('cell reformat', W + ' set_cell_format, update_cell_format'), ('range with border', W + ' set_range_format_with_border'), ('clear', W + ' clear_cell, clear_cell_format')], FILE)
p('C05', 'A rejected call reports the right error and leaves no trace',
  'A call whose arguments break a documented limit or rule returns the documented error, never panics, and leaves the workbook exactly as if it had not been made; a call that writes several cells may keep those before the offending one. All later calls and saves behave as if the rejected call never happened.',
  ['inputs', 'histories'], 'any invalid position, order, length, overlap, level or name at any point of any history',
  TESTS + 'error tests check the returned error on a fresh worksheet and never look at what a later save contains.',
  [W, B, 'src/table.rs', 'src/error.rs'], [('bounds', W + ' check_dimensions'), ('overlap checks', W + ' merge_range, add_table, autofilter'), ('group levels', W + ' group_rows/group_columns')], ['returned Result', 'the saved .xlsx'])
p('C06', 'Low memory modes produce the same workbook for row ordered writing',
  'A worksheet written in row order in constant memory or low memory mode is saved with the same contents, formats, row and column properties and features as in standard mode. Writes to rows that have already been written out are accepted and have no effect.',
  ['histories', 'configurations'], 'any row ordered (and any out of order) history of writes, formats, row and column settings in each mode',
  'The tests run the same fixed programs once in each mode; interleavings of late writes, look-ahead writes and row settings are not tried.',
  [W, B], [('row flush', W + ' flush_to_row, flush_last_row'), ('insert in each mode', W + ' insert_cell'), ('write-ahead', W + ' merge_range, array formulas')], FILE)
p('C07', 'Merged ranges, tables and autofilters never overlap',
  'In a saved worksheet no two merged ranges share a cell, no two tables share a cell, and the worksheet autofilter does not share the header of a table; a call that would make them overlap is rejected with the overlap error, and a call that would not is accepted. Ranges are stored exactly as given.',
  ['inputs', 'histories'], 'any set of ranges added in any order, including rejected attempts in between',
  TESTS + 'a few overlapping pairs are tried, not all relative positions of ranges.',
  [W], [('merge overlap', W + ' merge_range'), ('table overlap', W + ' add_table'), ('autofilter overlap', W + ' autofilter')], ['returned Result', 'the saved .xlsx'])
p('C08', 'A table matches the cells it covers',
  'A table in a saved workbook has unique column names equal to its header cells, a reference covering header, data and totals exactly, an autofilter over header and data when shown, and totals and calculated columns whose formulas and cached labels agree with the cells. Table names and ids are unique in the workbook; invalid ranges, duplicate names and duplicate columns are rejected.',
  ['inputs', 'histories'], 'any combination of table options, columns, header cells, positions and number of tables over several worksheets and saves',
  TESTS + 'combinations of header, totals, custom headers and existing cells are sampled once each.',
  [W, 'src/table.rs', B], [('table setup', W + ' add_table'), ('column initialisation', 'src/table.rs initialize_columns'), ('ids and names', B + ' prepare_tables'), ('table xml', 'src/table.rs assemble_xml_file')], FILE)
p('C09', 'An autofilter hides exactly the rows its conditions exclude',
  'For a worksheet autofilter with list and custom filters, the saved rows hidden by the filter are exactly the data rows with at least one filtered column whose cell does not match, and the stored criteria are those given.',
  ['inputs', 'histories'], 'any filter conditions over numbers, strings, blanks and absent cells, set in any order with later removal',
  TESTS + 'one data set with a few conditions is used.',
  [W, 'src/filter.rs'], [('row matching', W + ' hide_autofilter_rows, row_matches'), ('criteria output', W + ' write_auto_filter')], FILE)
p('C10', 'Every saved file is a closed, well formed package',
  'In every saved file each part has a content type, each relationship target exists, each relationship id used by a part is defined and each defined one is used, part names and ids are unique, every part is well formed, and its elements and attributes are known ones, in the order the format requires.',
  ['histories', 'configurations'], 'any combination of features on any number of worksheets and chartsheets, over repeated saves',
  TESTS + 'features are mostly used one at a time.',
  ['src/packager.rs', 'src/relationship.rs', 'src/content_types.rs', W, B], [('package assembly', 'src/packager.rs'), ('relationships', W + ' prepare_worksheet_*'), ('content types', 'src/content_types.rs')], FILE)
p('C11', 'Charts, images, notes and other objects reach the sheet they were put on',
  'Each chart, image, shape, button, checkbox, note, background and header image appears in the saved file exactly once, on the worksheet, at the cell and with the contents and options it was given, whatever other objects the workbook holds; an image drawn many times is stored once.',
  ['histories', 'configurations'], 'any mixture of objects on any worksheets, replaced or repeated at the same cell, and saved several times',
  TESTS + 'mixtures of object kinds over several worksheets are rare and never resaved after changes.',
  [W, B, 'src/packager.rs', 'src/drawing.rs', 'src/vml.rs', 'src/comment.rs'], [('drawing numbering', B + ' prepare_drawings'), ('media numbering', B + ' prepare_drawings, src/packager.rs'), ('notes', 'src/comment.rs, src/vml.rs')], FILE)
p('C12', 'Worksheets keep their names, order, visibility and exactly one active sheet',
  'A saved workbook lists its sheets in order with their names, kinds and visibility; names are valid and unique ignoring case, and invalid ones are rejected. Exactly one sheet is active, it is selected and visible, and the first tab and selection are those requested.',
  ['histories', 'inputs'], 'any sequence of adding, inserting, reordering, renaming, hiding, selecting and activating sheets',
  TESTS + 'activation, selection and hiding are not combined with reordering and resaving.',
  [B, W, 'src/utility.rs'], [('sheet list', B + ' add_worksheet, push_worksheet'), ('active sheet', B + ' set_active_worksheets'), ('name checks', 'src/utility.rs validate_sheetname')], ['returned Result'] + FILE)
p('C13', 'Defined names, print areas and titles are saved with their exact scope and range',
  'Each defined name, print area, repeated row/column title and filter range appears once in the saved workbook with the scope of its sheet, a correctly quoted reference and sorted as required; invalid names are rejected.',
  ['inputs', 'histories'], 'any names, sheets names needing quotes, and combinations of print settings over several worksheets',
  TESTS + 'names that need quoting or escaping and their combinations are sampled.',
  [B, W, 'src/utility.rs'], [('defined names', B + ' define_name, prepare_defined_names'), ('quoting', 'src/utility.rs quote_sheet_name')], ['returned Result'] + FILE)
p('C14', 'Saving does not change the workbook',
  'Saving a workbook twice gives the same package, and a workbook saved at intermediate points and then completed gives a file with the same meaning as one saved only at the end. A failed save does not change what a later save writes.',
  ['histories', 'crash_points'], 'any history with saves inserted at any points, including failing ones',
  'A resave mode repeats the save at the end of the fixed test programs only; saves in the middle and failed saves are not tried.',
  [B, W, 'src/packager.rs'], [('reset between saves', B + ' reset, ' + W + ' reset'), ('global ids', B + ' save_internal')], FILE)
p('C15', 'A save either writes a complete file or reports an error',
  'If any write, seek or flush of the output fails, the save returns an error and does not panic; if it returns success the output is a complete readable package. The same workbook can be saved again afterwards with the full result.',
  ['fault_sequences', 'crash_points'], 'a fault or short write at any output operation of a save, for every worksheet mode',
  'No test injects output failures.',
  [B, 'src/packager.rs'], [('zip writing', 'src/packager.rs assemble_file'), ('save entry points', B + ' save, save_to_buffer, save_to_writer')], ['returned Result', 'bytes written'])
p('C16', 'Output does not depend on thread scheduling',
  'Worksheets written by several threads, and parts assembled in parallel while saving, give the same meaning for every schedule: every cell shows its own text and format. Repeating the same program in one thread gives byte-identical parts.',
  ['schedules'], 'all interleavings of accesses to the format registry and string table shared by worksheets being written concurrently',
  'Tests are single threaded and cannot choose the schedule.',
  [W, B, 'src/shared_strings_table.rs', 'src/packager.rs'], [('shared format registry', W + ' format_xf_index'), ('shared string table', W + ' store_string'), ('parallel assembly', 'src/packager.rs')], FILE, hook='points inside the format registry lookup to force schedules')
p('C17', 'Row and column settings are saved exactly as last set',
  'Heights, widths, hidden state, formats, outline levels and collapsed marks of every row and column are in the saved file exactly as the last accepted settings left them, whichever cells exist and however adjacent equal columns are combined. Grouping nests up to seven levels and the sheet declares its deepest levels.',
  ['histories', 'inputs'], 'any order of row and column settings over overlapping rows, columns and ranges',
  TESTS + 'overlapping settings are not combined.',
  [W], [('row options', W + ' get_row_options'), ('column options', W + ' store_column_*, write_cols'), ('grouping', W + ' group_rows_all, group_columns_all')], FILE)
p('C18', 'Page setup and view settings are saved exactly as last set',
  'Every page setup, print, header/footer, margin, page break, pane, selection, zoom and view setting of a worksheet reaches the saved file with its last accepted value, settings not made stay absent, and values outside the documented range are ignored or rejected as documented. A VBA project and its signature are stored as given, and make the file macro enabled.',
  ['histories', 'inputs'], 'any order and combination of these settings with any values',
  TESTS + 'each setting is used alone with one or two values.',
  [W], [('page setup output', W + ' write_page_setup, write_page_margins, write_header_footer, write_row_breaks'), ('views', W + ' write_sheet_view, write_panes')], FILE)
p('C19', 'Conditional formats and data validations are stored as specified',
  'Each conditional format and data validation is stored on its exact ranges, with its rule type, operators, operands, options and differential format, in order of priority; invalid rules and limits are rejected without effect.',
  ['inputs', 'histories'], 'any rules on any (multi) ranges in any order over several worksheets',
  TESTS + 'rules are tried one kind at a time.',
  [W, 'src/conditional_format.rs', 'src/data_validation.rs'], [('rule validation', 'src/conditional_format.rs validate'), ('output', W + ' write_conditional_formatting, write_data_validations')], ['returned Result'] + FILE)
p('C20', 'Any text survives being saved',
  'Every text a user can set (strings, rich strings, inline strings, formulas and results, names, titles, notes, headers, validation messages, links, properties) is read back unchanged from a well formed file, whatever characters it contains, including markup, control characters, spaces, line ends and escape-like sequences.',
  ['inputs'], 'any Unicode text in any text-carrying part of a workbook',
  TESTS + 'a handful of special characters are tried in cells only.',
  ['src/xmlwriter.rs', 'src/shared_strings.rs', W], [('escaping', 'src/xmlwriter.rs escape_*'), ('whitespace preservation', 'src/shared_strings.rs')], FILE)
p('C21', 'Cell references and sheet names are converted exactly',
  'Row and column numbers convert to A1 references and back without loss over the whole grid, for cells, ranges, absolute forms and chart ranges; sheet names are quoted exactly when the reference syntax requires it, and quotes in them are doubled.',
  ['inputs'], 'every row and column of the grid and any sheet name',
  'The tests try a few dozen references and names.',
  ['src/utility.rs', 'src/chart.rs'], [('column letters', 'src/utility.rs column_number_to_name, column_name_to_number'), ('cell/range', 'src/utility.rs row_col_to_cell, cell_range'), ('quoting', 'src/utility.rs quote_sheet_name'), ('chart range parsing', 'src/chart.rs ChartRange')], ['returned values'])
p('C22', 'Dates and times convert to the correct serial numbers',
  'Every date and time between 1899-12-31 and 9999-12-31 given as parts, text or Unix timestamp converts to its Excel serial number, with the 1900 leap day bug honoured, to the millisecond; invalid dates, times and texts are rejected.',
  ['inputs'], 'every day of the calendar, times of day, all accepted text forms, and invalid ones',
  'The tests hold tables of sample dates.',
  ['src/datetime.rs'], [('parsing', 'src/datetime.rs parse_from_str'), ('serial', 'src/datetime.rs to_excel')], ['returned values', 'the saved .xlsx'])
p('C23', 'Formulas are stored as written with the required function prefixes',
  'A formula is stored with its text unchanged except that an initial = or surrounding array braces are dropped and functions newer than the original format get their required prefix, only where they are called and never inside text or longer names. Formulas using dynamic array functions are stored as dynamic arrays.',
  ['inputs'], 'any formula text, with any functions, nesting, quoting and case',
  TESTS + 'the function list is exercised once each.',
  ['src/formula.rs', W], [('prefixing', 'src/formula.rs'), ('dynamic detection', 'src/formula.rs'), ('table column formulas', 'src/table.rs')], FILE)
p('C24', 'Hyperlinks point to their target from their cell',
  'Each hyperlink in a saved file covers its cell or range, opens exactly the given target with its location and tip, and shows the given text with the given format or the link style; unsupported or too long links are rejected without effect.',
  ['inputs', 'histories'], 'any link type, special characters, repeated targets, ranges, options and overwrites',
  TESTS + 'link forms are tried one at a time.',
  ['src/url.rs', W], [('link parsing', 'src/url.rs'), ('relationships', W + ' prepare_worksheet hyperlinks'), ('cell text', W + ' store_url')], ['returned Result'] + FILE)
p('C25', 'Serialized structures land in the right cells',
  'Serializing values of structs writes each field under its header in the next row of the area last defined for its struct, with the name, format, width and order the options ask for, however struct types are interleaved, nested or put in sequences and whether the area was defined from a value, a type or derived options (whose field names follow Serde\'s renaming rules); skipped and unknown fields are left out, headers can be hidden, the table of an area covers exactly its header and rows and takes its column names from its headers, areas which are invalid are rejected, and the reported dimensions are those of the area.',
  ['histories', 'inputs'], 'any interleaving of areas and serialized values of several types, positions, options and custom fields',
  TESTS + 'types are mostly serialized one at a time.',
  ['src/serializer.rs', W, 'macros/src/lib.rs'], [('header registration', W + ' store_custom_serialization_headers'), ('field dispatch', 'src/serializer.rs SerializerState'), ('derived options', 'macros/src/lib.rs'), ('tables', W + ' write_serialized_table')], ['returned Result', 'returned dimensions'] + FILE)
p('C26', 'Charts refer to their data and cache its current values',
  'Each chart in a saved file has the given type, with its series in groups and on axes as asked for, in order, each with the given name, category and value references, and what it keeps of the referenced cells (types, numbers, texts, number of cells) is what those cells contain at the time of the save; charts without usable data, and saves with references to unknown worksheets, are rejected.',
  ['histories', 'inputs'], 'any chart types and series over any ranges, sheets and cell contents, written, overwritten or cleared before or after inserting the chart, over several saves',
  TESTS + 'caches are checked for data written once.',
  ['src/chart.rs', B], [('cache', B + ' prepare_chart_cache_data'), ('chart xml', 'src/chart.rs'), ('checks on insert', 'src/chart.rs validate')], ['returned Result'] + FILE)
p('C27', 'Document properties are stored exactly',
  'Standard and custom document properties of a saved workbook are those last set, with their types and values, and custom properties appear in order with unique ids.',
  ['inputs', 'histories'], 'any property values and sequences of settings',
  TESTS + 'one set of properties is used.',
  ['src/properties.rs', 'src/core.rs', 'src/custom.rs', 'src/app.rs'], [('core', 'src/core.rs'), ('custom', 'src/custom.rs'), ('app', 'src/app.rs')], FILE)
p('C28', 'Protection settings and password hashes are stored exactly',
  'A protected worksheet is saved with exactly the permissions granted, unprotected ranges with their names and the documented 16 bit hash of each password, and an unprotected one with no protection; cell lock and hide flags are unaffected.',
  ['inputs', 'histories'], 'any passwords, option combinations, protected ranges and order of calls',
  TESTS + 'a handful of passwords and options are used.',
  ['src/protection.rs', W, 'src/utility.rs'], [('hash', 'src/utility.rs hash_password'), ('output', W + ' write_sheet_protection, write_protected_ranges')], FILE)
p('C29', 'Objects are anchored where their offsets and size put them',
  'The from and to anchors of each inserted object are the cells and offsets reached by moving its offset and its scaled size in pixels over the actual widths and heights of columns and rows, hidden ones counting as zero, whether those are set before or after inserting the object.',
  ['inputs', 'histories'], 'any positions, offsets, sizes, scales, movement options and row/column sizes, set in any order',
  TESTS + 'mostly default row and column sizes are used.',
  [W, 'src/drawing.rs'], [('position', W + ' position_object_pixels'), ('emus', W + ' position_object_emus')], FILE)
p('C30', 'Sparklines are stored with their location, data and options',
  'Each sparkline, alone or in a group, is stored with its exact location and data range pairs and all options given; mismatched group sizes and invalid ranges are rejected.',
  ['inputs', 'histories'], 'any sparklines, groups, ranges and options over several worksheets',
  TESTS + 'options are tried one at a time.',
  ['src/sparkline.rs', W], [('options', 'src/sparkline.rs'), ('groups', W + ' add_sparkline_group, write_sparkline_groups')], ['returned Result'] + FILE)
p('C31', 'Every chart option shows up in the file as set',
  'Every option of a chart (title, legend, axes, series, markers, data labels, points, trendlines, error bars, data tables, lines, fills, fonts, layouts) is stored with the value last given, invalid values are ignored, options not given are left at their default, and no option changes another one, for every chart type, combined charts and secondary axes.',
  ['inputs'], 'any combination of options of charts of any type, in any order',
  TESTS + 'options are mostly tried one at a time on one or two chart types.',
  ['src/chart.rs'], [('setters', 'src/chart.rs'), ('output', 'src/chart.rs write_*')], FILE)

CHECKED = {}   # id -> (technique, level_note)
from claims import CLAIMS, REASONS
man = {'version': 1, 'setup_cmd': 'bash tools/setup.sh', 'checks': [], 'not_applicable': []}
for q in P:
    i = q['id']
    if i in CLAIMS:
        man['checks'].append({'property': i, 'quick_cmd': 'python3 tools/check.py %s quick' % i, 'thorough_cmd': 'python3 tools/check.py %s thorough' % i,
                              'technique': CLAIMS[i][0], 'level': 'model_checking', 'level_note': CLAIMS[i][1]})
    else:
        man['not_applicable'].append({'property': i, 'reason': REASONS.get(i, 'No check registered yet: the specification module for this part of the library is still being written.')})
from claims import HOOKS
if HOOKS:
    man['hooks'] = HOOKS
with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as fh:
    for q in P:
        fh.write(json.dumps(q, ensure_ascii=False) + '\n')
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as fh:
    json.dump(man, fh, indent=1)
    fh.write('\n')
print(len(P), 'properties,', len(man['checks']), 'claimed')
