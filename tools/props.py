def P(id, title, statement, over, quant, why, files, mechanism, extra=""):
    return dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over if isinstance(over, list) else [over], text=quant),
                why_tests_cant=why, anchors=dict(files=files, mechanism=[dict(name=mechanism, where=", ".join(files))]), extra=extra)


PARSE = "pandalone/xleash/_parse.py"
CAPT = "pandalone/xleash/_capture.py"
FILT = "pandalone/xleash/_filter.py"
LASSO = "pandalone/xleash/_lasso.py"
BACK = "pandalone/xleash/io/backend.py"
XLRD = "pandalone/xleash/io/_xlrd.py"
DATA = "pandalone/pandata.py"
MAPS = "pandalone/mappings.py"
UTIL = "pandalone/utils.py"
COMP = "pandalone/components.py"
VBA = "pandalone/xlsutils.py"

PROPS = [
    # ------------------------------------------------------------------ xleash: reading a reference
    P("X01", "An xl-ref parses back to exactly the components it was written from",
      "For every xl-ref written from valid components (file part, sheet name, 1st/2nd edge in A1 or RC notation with "
      "moves and modifiers, expansion moves, filters), parsing yields exactly those components, upper-casing "
      "coordinates and moves, in any letter case and with surrounding whitespace. Missing parts come out as "
      "documented: no edges means the whole sheet, a lone colon fills the missing edge with the top-left/bottom-right "
      "full cell.", "inputs",
      "all assignments of every component: coordinates, sheet names, moves, modifiers, expansions, letter case",
      "The tests parse a few dozen literal references; the grammar's combinations of optional parts are never crossed.",
      [PARSE], "one large case-insensitive regex plus post-processing of its groups into edges and defaults"),
    P("X02", "Parsing any text either yields a well-formed reference or a documented error",
      "For every text, parsing an xl-ref fragment either raises the documented syntax/value error, or returns "
      "components that are well-formed: coordinates are letters/1-based numbers/special symbols, moves and modifiers "
      "from their alphabets, expansion moves that the expansion parser takes or rejects with a value error. No other "
      "exception escapes, and parsing is a function of the text alone.", "inputs",
      "all texts up to the length bound over the characters that are significant to the grammar",
      "Tests list a handful of malformed texts; that no text slips through or crashes is a statement about all of them.",
      [PARSE], "regex match with rejection by SyntaxError; conversion of the matched groups"),
    P("X03", "Encasing delimiters do not change what an xl-ref means",
      "Wrapping any plain xl-ref in one of the encasing delimiters parses to the same components as the plain one, "
      "with the original text recorded, and the result can be lassoed. A text that is neither plain nor encased is "
      "rejected with a syntax error.", "inputs", "all encasable references and delimiters, within the length bound",
      "Only a few encased literals are parsed by tests and none is lassoed.", [PARSE, LASSO],
      "fallback regex that strips a pair of equal delimiters, then re-parses"),
    P("X04", "All spellings of a filter call denote the same call, others are rejected",
      "A filter call given as text, list (with args/kwds in any order) or object denotes the same function, positional "
      "and keyword arguments, defaulting to none. Any other structure is rejected with a value error, never accepted "
      "with arguments dropped or swapped.", "inputs", "all JSON-like structures up to the bound on nesting and length",
      "Tests enumerate some list orders; the accept/reject boundary over structures is not explored.", [PARSE],
      "type-directed dispatch on str/list/dict with classification of the list items"),
    P("X05", "Cell coordinates convert between notations without loss",
      "Spreadsheet columns and rows convert to zero-based numbers and back without loss; negative numbers count from "
      "the bottom/right margin, `^` and `_` denote the margins and `.` the base cell, and zero or foreign symbols are "
      "rejected with a value error.", "inputs",
      "all coordinates (letters up to the length bound, integers within bounds), margins and bases",
      "Doctests show single coordinates; bijectivity and margin arithmetic are statements over all of them.", [CAPT],
      "base-26 conversion, 1-based to 0-based shift, special-symbol table"),
    # ------------------------------------------------------------------ xleash: targeting and capturing
    P("X06", "Targeting from an empty cell finds the first full cell in scan order",
      "From an empty landing cell, targeting returns the first full cell met when scanning along the primary direction, "
      "then along successive rows/columns in the secondary direction, clamping landings beyond the margins when moving "
      "towards them; when no full cell is on that way it reports an empty capture. It never returns an empty cell nor "
      "skips a full one.", "inputs", "all full/empty patterns of the sheet, landing cells and moves, within the size bound",
      "Tests use a couple of fixed 5x6 sheets; which cell is first depends on the whole pattern.", [CAPT],
      "vectorised search over slices of the states matrix, clamped to the margins"),
    P("X07", "Targeting from a full cell stops at the last consecutive full cell",
      "From a full landing cell, targeting moves along each requested direction to the last cell before the first empty "
      "one or the sheet's edge, independently per axis. From an empty or out-of-bounds landing it reports an empty "
      "capture.", "inputs", "all full/empty patterns, landing cells and moves, within the size bound",
      "Same fixed sheets; boundary runs (edge of sheet, single cells) are not covered.", [CAPT],
      "difference of the states vector, minimum index of change"),
    P("X08", "Capturing composes edges, termination rules and modifiers as documented",
      "For every sheet pattern and pair of edges, the captured rectangle is the one obtained by resolving the 1st edge "
      "against the base, enacting search-same or search-opposite according to the landing state and the modifier, then "
      "the 2nd edge relative to the 1st target with its own default rule, and sorting the vertices. The result is always "
      "ordered top-left to bottom-right and contains both targets.", "inputs",
      "all sheet patterns, landings, moves and modifiers within the size bound",
      "About 600 generated tests fix one sheet; rule selection depends on the state under every landing.", [CAPT],
      "state lookup at the landing cell, modifier-dependent choice between the two searches, vertex sorting"),
    P("X09", "Expansion grows the rectangle exactly over adjacent full cells",
      "Each expansion move grows the rectangle by one row/column exactly when the adjacent row/column (clipped to the "
      "rectangle) has a full cell, repeating as often as specified or until no growth; the result contains the original "
      "rectangle and expansion always terminates.", "inputs",
      "all sheet patterns, starting rectangles and move sequences within the size bound",
      "Doctests expand a few rectangles; termination and maximality quantify over patterns.", [CAPT, PARSE],
      "iterated one-step growth with a states lookup per side"),
    P("X10", "Sheet margins are the tight bounding box of the full cells",
      "The margins computed from the states of a sheet (as array-based and custom sheets do) are the smallest "
      "rectangle containing every full cell, and (0,0) for an empty sheet; margins that a sheet reports itself are used instead. A sheet "
      "reports the same margins on every call.", "inputs",
      "all full/empty patterns within the size bound", "Tests check a few fixed matrices.", [BACK],
      "any-reduction per axis and first/last index; cached per sheet"),
    P("X11", "Reading a rectangle returns its cells, blanks outside the sheet",
      "Reading any rectangle yields exactly its cells in row-major order, with nothing invented for positions outside "
      "the sheet's data; the shape (scalar, row, column, table) follows from which edges were given and their extent. "
      "Sheets are not modified by reading.", "inputs", "all rectangles inside/outside/straddling the sheet, within bounds",
      "Tests read a few rectangles of one workbook.", [XLRD, BACK, FILT],
      "per-cell reading with out-of-range handling in the sheet back-ends"),
    P("X12", "Dimension changes keep every value as it is and in order",
      "Raising or lowering the dimensions of captured values adds or removes unit dimensions; where unit dimensions do "
      "not suffice, the values are flattened in row-major order. No value is ever dropped, repeated, reordered or "
      "converted. Shape-keyed dimension requests apply to that shape only.", "inputs", "all nested lists up to the size bound and requested dimensions",
      "Tests tabulate a few inputs.", [FILT], "nesting/flattening of lists per requested dimension"),
    # ------------------------------------------------------------------ xleash: filters and lasso
    P("X13", "Element-wise filters visit exactly the selected elements, to the given depth",
      "An element-wise filter applies its call to exactly the elements selected by include/exclude keys and depth, "
      "leaves everything else identical, and preserves the structure (nesting, order, keys).", "inputs",
      "all nested structures, include/exclude sets and depths within bounds",
      "Tests apply one or two filters to fixed lists.", [FILT], "recursive descent with key filtering and a depth counter"),
    P("X14", "Filter calls behave the same for the n-th use as for the first",
      "Running a filter call applies the named function with exactly the given arguments and yields what it returned; a call marked lax falls back "
      "to the unfiltered values (logging the error) on every failure, an unmarked one raises, and the call specification "
      "is never altered by running it.", ["histories", "inputs"],
      "all sequences of calls of one specification with any failure pattern",
      "Tests make one call per specification, so state leaking between calls is invisible.", [LASSO, FILT],
      "lookup of the function, popping of the lax flag, exception fallback, pipe of calls"),
    P("X15", "Lassoing resolves each field by the documented precedence",
      "For every field of a lasso, the value in the reference wins over the context argument, then over defaults; "
      "options in the reference are laid over the base options for that reference only. Lassoing leaves the given "
      "context, options and earlier results unchanged, and the last stage reached with its result for inspection; a sheets-factory "
      "made for one call is closed after it. Where nothing is captured there are no values, or an error when so opted.", ["configurations", "histories"],
      "all presence/absence patterns of every field in reference, context and defaults; sequences of lassos",
      "Tests combine two or three fields at a time.", [LASSO], "merging of parsed fields with the context lasso and ChainMap'd options"),
    P("X16", "A sheet cache returns the same open sheet until it is replaced or closed",
      "For any sequence of adding, fetching and closing, a factory returns for a workbook/sheet key the very sheet that "
      "was last added or opened for it, and opens a workbook's sheet only when it is not cached. Adding a sheet under "
      "keys of others closes those (and only those) and forgets them; on close, every cached sheet is closed and forgotten, and its "
      "workbook released.", ["histories", "fault_sequences"],
      "all operation sequences up to the length bound over several workbooks, sheet ids and failing opens/closes",
      "Tests run short fixed scripts.", [BACK], "dictionary of sheets keyed by workbook and sheet ids"),
    P("X17", "The best-bidding back-end opens the workbook",
      "Among the given back-ends, else those registered by then, the one with the highest bid opens the workbook; those abstaining are ignored "
      "and when all abstain opening fails with an error naming the workbook.", "configurations",
      "all numbers of back-ends and bids within bounds", "Only one back-end is ever registered in tests.", [BACK, XLRD],
      "maximum over the bids"),
    P("X18", "Workbook cells convert to the value their type says",
      "Every workbook cell converts to a Python value of the type recorded in the workbook: whole numbers to integers, "
      "others to the same float, booleans to booleans, empty/blank to nothing, errors to nan (or error), texts "
      "unchanged, dates to date-times in the workbook's epoch.", "inputs", "all floating-point numbers and cell types",
      "Tests read a few cells per type; numbers near the integer boundary, infinities and nans are not read.", [XLRD],
      "dispatch on the cell type; integer test on floats"),
    P("X19", "Sheets open by name or index, unambiguously",
      "An integer opens the sheet at that index, a text the sheet with that name if there is one, else the sheet "
      "at the index it spells; anything else fails with an error and opens nothing.", "inputs", "all sheet lists and identifiers within bounds",
      "Tests open two or three sheets.", [XLRD], "attempt by index, fall back by name"),
    P("X20", "A lassoed reference yields the documented values, end to end",
      "Lassoing a plain reference on any sheet yields the values of the rectangle that the reference denotes, in the "
      "shape that the edges denote, then passed through its filters. Results do not depend on previously lassoed "
      "references.", ["inputs", "histories"], "all sheet contents and references within bounds",
      "Tests lasso a fixed workbook.", [LASSO, CAPT, BACK, FILT], "chain parse, resolve, read, filter"),
    P("X21", "One failing plugin does not stop the others",
      "Initialising plugins loads every entry-point of the group, in the order of their names, and, once all have been loaded, installs those that "
      "are installable, in the same order; a plugin that fails to load or install is skipped and all others go on. The stages that each "
      "completed are recorded. Having no plugin at all is an error. The project's own back-end and default filters can be installed any number "
      "of times, beside those already registered.", ["fault_sequences", "configurations"],
      "all names and outcomes of plugins within bounds", "Tests run with the plugins installed.", ["pandalone/xleash/__init__.py"],
      "two loops over the sorted entry-points, with a record of stages"),
    P("X22", "Python filters replace values by what their expressions give",
      "The python filter replaces the values by the result of its expression, or the whole lasso if that is what results (keeping the options when "
      "it has none), and reports any failure; the element-wise one does that for every text that evaluates, leaving the rest as they are, or reporting "
      "the first failure when all must evaluate. The converting filters (dict, odict, sorted, numpy) give what those functions of Python do. "
      "The given lasso is not altered.", "inputs", "all values within bounds, over a set of expressions", "Tests evaluate a few literals.", [FILT],
      "expression evaluated with the local names, result taken for a lasso or values"),
    P("X23", "A workbook is read from the file or address that its path or URL names",
      "Opening a workbook by its path, absolute or relative, or by its file URL, in any quoting, reads that very file, once, and downloads nothing; "
      "by any other address it reads what the server replied, asked once for exactly that address with its parameters, and closes the "
      "connection. The sheet asked for is the one returned, by any of the ways to come to a sheet; failures of either are reported and "
      "nothing that the library prints reaches the standard streams.", ["inputs", "fault_sequences"],
      "all names and addresses within bounds, openings and downloads which fail", "Tests open local files of plain names; no download.",
      [XLRD, BACK, UTIL], "path to URL and back; a branch on the scheme"),
    # ------------------------------------------------------------------ pandata
    P("D01", "JSON-pointer parts survive escaping, joining and splitting",
      "For every sequence of names, escaping each, joining them to a pointer and splitting that pointer yields the same "
      "names; escaping follows RFC 6901. Texts that are not pointers are rejected.", "inputs",
      "all names/pointers within the length bound", "Tests use a few literals.", [DATA], "two ordered replacements and a split"),
    P("D02", "Setting a JSON-pointer changes exactly that node",
      "After setting a value at a pointer, resolving the pointer yields that value and every other node of the document "
      "is as before; missing branches are created. A pointer that cannot be set is rejected with the resolution error "
      "and leaves the document as it was.", "inputs", "all pointers within bounds over a set of document shapes",
      "Tests set about a dozen literal pointers and look at one or two other nodes.", [DATA],
      "walk to the first missing branch, then attach a newly built branch"),
    P("D03", "Resolving a pointer or path yields the node itself, or the default",
      "Resolving a pointer or relative/absolute path returns the very node it denotes (dictionary value, sequence item, "
      "attribute), absolute paths starting from the root document given. Whenever there is no such node, the default is "
      "returned if given - even when it is null - otherwise the resolution error is raised.", "inputs",
      "all pointers/paths within bounds over a set of documents and roots", "Tests use a few literals.", [DATA],
      "iterated lookup with a list of alternative resolvers per part"),
    P("D04", "Merging model layers lets upper layers win and never alters the layers",
      "Merging model layers yields, for every path, the non-null value of the topmost layer that has it: mappings merge "
      "recursively, anything else overwrites; a path that is null in two merged layers is rejected. Schema defaults only "
      "apply to what no layer has. The layers passed in are left unchanged, and share no mutable branch with the result.",
      ["inputs", "histories"], "all layer contents within the shape bound, any number of merges",
      "Tests merge one or two literal pairs and never look at aliasing.", [DATA],
      "recursive clone-and-merge of trees"),
    P("D05", "Model building stops at the first failing step and reports every error of it",
      "Building runs prevalidate, merge, validate and curate in order; errors of a step are all reported, "
      "later steps do not run after a failure, and `build` raises the first. A failure in any step surfaces as a "
      "validation error; an error-free build returns the model, whose nodes can be got by pointer.", "fault_sequences",
      "all patterns of failing steps and error counts within bounds", "Tests fail one step at a time.", [DATA],
      "generator chaining the steps with an errored flag"),
    P("D06", "Schema defaults fill absent values only, nulls only when allowed",
      "Validation fills an absent property with a copy of its schema's default when auto-defaulting; a null that the type "
      "does not allow is replaced or removed only when asked for; other values are never touched, nor is the schema, and what "
      "results is what gets validated. Flags in the schema override those of the validator.",
      ["inputs", "configurations"], "all small instances, property schemas and flags within bounds",
      "Tests try a few schemas.", [DATA], "extended properties rule that inserts defaults before descending"),
    P("D07", "A header text splits into its name and units",
      "A header made of a name and optional units in square or angle brackets splits into exactly that name and units, "
      "stripped of surrounding blanks; units are none when there is no bracket. Texts with unclosed, repeated or trailing parts are "
      "rejected, never mis-split.", "inputs", "all texts within the length bound, all names and units",
      "Doctests show a few literals.", [DATA], "one regular expression"),
    P("D08", "Plain documents validate exactly as the JSON-schema standard says",
      "For plain documents (no arrays or frames), a document is reported as invalid exactly when the JSON-schema standard "
      "says so, for all keywords that the project overrides: types, enumerations (distinguishing booleans from numbers), "
      "properties, pattern-, additional properties and their names, required, items. Whichever the defaulting/null-removal settings, "
      "nothing else than validation errors are raised, and neither the document nor the schema is altered.",
      ["inputs", "configurations"],
      "all schemas and documents composed from the overridden keywords, within bounds", "Tests validate a handful of schemas.", [DATA],
      "validators of the library overridden so as to cope with arrays and frames"),
    P("D10", "Arrays, series and frames validate like the equal plain values",
      "An array, series or frame is valid exactly when the equal plain list (of arrays and series) or object (of series by their index, and "
      "of frames by their columns) is, wherever it stands in a document: for its type, items, enumerations, properties and their names. "
      "Missing numbers (NaN) are nulls, besides being numbers, whichever object they are. Defaults fill the absent keys of series and frames, "
      "and nulls of series are defaulted or removed on demand. Validation never crashes, nor alters them otherwise.", ["inputs", "configurations"],
      "all values, containers and schemas within bounds", "Tests validate one or two of each.", [DATA],
      "type checkers extended to array types, rules overridden to cope with them"),
    P("D11", "Merging frames and series keeps every cell of the upper layers",
      "Merging model layers with frames or series at the same path yields a frame or series with every non-null cell of the topmost layer "
      "that has it, and the lower ones' elsewhere, for all rows of the lower frame and all columns or keys of any. Plain objects merge with "
      "them as the equal frame or series. Null layers change nothing. The layers are left unchanged, and share no cell with the model.",
      ["inputs", "histories"], "all cells, columns and rows within bounds", "Tests merge one or two.", [DATA],
      "frame update plus the missing columns; series combination"),
    P("D12", "A model-maker has the operations last given to it, and a schema tells all its paths",
      "Changing the global operations of a model-maker replaces those given by keyword, and the non-empty ones of the operations given, keeping the "
      "rest; unknown or foreign ones are refused and change nothing, nor are other makers or the operations given altered. Contexts by path "
      "are taken as maps only. The paths of a schema are those of each of its nodes without properties of their own, also in its "
      "alternatives, and each leads to a node in any model having all the properties. A schema built by attributes has just those set.",
      ["inputs", "histories"], "all histories, operations and schemas within bounds", "No test changes operations or lists paths.", [DATA],
      "replacement of the fields of a tuple; recursion over properties and alternatives"),
    # ------------------------------------------------------------------ mappings
    P("M01", "Joining path steps follows file-system-like rules",
      "Joining steps yields the path reached by walking them in order: an empty step (re)starts at the root, `.` stays, "
      "`..` goes to the parent, never above the root but accumulating above the start of relative paths, and any other "
      "step is appended as it is. Joining is associative.", "inputs", "all step sequences within bounds",
      "Doctests show some sequences; associativity and root clamping are laws over all.", [MAPS],
      "left fold of a single-step append"),
    P("M02", "Mapping a path renames each step by the rule that matches it",
      "Mapping a path renames or relocates each of its steps by the target of the matching rule with the highest "
      "priority - exact names over patterns, later definitions over earlier ones, children of all matching rules being "
      "in force - with the groups captured by its pattern, relative targets starting from where the path has arrived. "
      "Steps without rules are unchanged. Mapping is a function of rules and path.", ["inputs", "configurations"],
      "all paths within bounds over rule sets with free targets", "Tests map literal paths.", [MAPS],
      "descent through a tree of rules, with exact steps and ordered regexes, merged on the way"),
    P("M03", "Merging rule sets lets later rules win and leaves both operands unchanged",
      "Merging two rule sets is the same as defining the rules of the one after those of the other: a later definition "
      "overrides an earlier one for the same origin, all others are kept in order. Neither operand, nor earlier results, "
      "are altered by merging or mapping.", ["inputs", "histories"],
      "all small rule sets within bounds", "Tests merge literal sets, never checking the operands after.", [MAPS],
      "recursive copy-on-merge of steps and regexes"),
    P("M04", "A path-tree built with mappings spells paths as mapped",
      "Accessing attributes of a path-tree with mappings spells every step as the rules rename it, under the name it was "
      "accessed by; its paths are those that the rules map, relocations included; without mappings, paths equal the access "
      "names. Assigning a text to a step renames that step alone; a step made out of another one has its children, tags and "
      "lock, both being independent from then on. Rules and other trees of the same rules are not altered.",
      ["inputs", "histories"], "all access sequences within bounds, over rule sets with free targets",
      "Tests access literal chains.", [MAPS], "attribute access creating child steps with their aliases"),
    P("M05", "Locked path-tree nodes refuse exactly the forbidden changes",
      "Locking a step that has been mapped further than the lock allows (renamed when locked, relocated when it can be "
      "renamed only) is refused with an error, as is renaming or relocating a locked step, or assigning anything but a "
      "text; everything else is accepted. The tree is unchanged by a refused operation. Tagging affects only the tagged step, and "
      "paths are listed by the tags of their last step.", ["histories", "configurations"],
      "all operation sequences within bounds", "Tests lock one node at a time.", [MAPS],
      "lock level compared on attribute creation/assignment"),
    P("M06", "A path-tree exports all its steps with their texts, and can be rebuilt from them",
      "Exporting a path-tree yields one pair for each of its steps, of its original path and its text, sorted by path. The "
      "mappings built out of those pairs build a tree with the same texts and paths, when accessed in the same way, which exports "
      "the same pairs.", ["histories", "configurations"],
      "all rules, accesses and renames within bounds", "Tests export one tree.", [MAPS],
      "depth-first walk over steps with their original names"),
    P("M07", "A path-tree made out of a table has the names and attributes of each row",
      "Making a path-tree out of a table names the step at the path of each row as its name column says, wherever in the hierarchy it is, "
      "and sets on that step, and on no other, the attributes in the rest of the columns; the table is left as it was.", "inputs",
      "all names and values within bounds over sets of paths", "Tests make one flat tree.", [MAPS],
      "mappings out of the pairs, then attribute access by path"),
    P("M08", "Looking at a path-tree or at rules tells what they are, and changes nothing",
      "Every step of a path-tree tells the names of its children among its attributes, the children by name or as steps, and its text; the debug "
      "listing has, for each path (or each with a tag at its last step), every renamed step with both its name and text, and others as they are. "
      "A step has a schema only once it has been touched, its own one, keeping what has been set also when the step is renamed. Nothing of "
      "these adds steps or alters paths. Rules made alike are equal, nothing else is, and equal rules map every path alike.",
      ["inputs", "histories"], "all names, renames, tags and rules within bounds", "Tests list three trees and touch two schemas.", [MAPS],
      "hierarchy walk with a listing per step; lazily made schema; comparison of aliases, steps and patterns"),
    # ------------------------------------------------------------------ utils & components
    P("U01", "Text flags convert to booleans case-insensitively and totally",
      "Every text converts to a boolean: yes/true/on in any case and with surrounding blanks are true, no/false/off/0 "
      "and blank are false, any other text is true; other values are rejected with a value error by the text parser, and "
      "judged by their truth by the general one.", "inputs",
      "all texts within the length bound", "Tests list words.", [UTIL], "strip, lower and two word lists"),
    P("U02", "CamelCase conversion loses nothing",
      "Converting a CamelCase name to snake or command form only lower-cases letters and inserts one separator before each "
      "capital following a lower-case letter or digit (the command form writes separators as dashes); converting twice changes nothing.",
      "inputs", "all names within the length bound", "Two or three literal names in tests.", [UTIL], "one look-behind regex substitution"),
    P("U03", "Formatted listings keep every pair, aligned",
      "Formatting pairs yields one line per pair, in order, each starting with the key, padded to the smallest positive multiple "
      "of the indent that holds it, then ` = `, then the value.", "inputs", "all keys/values within bounds and indents",
      "No test varies the indent or key length.", [UTIL], "width computed from the key length"),
    P("U04", "A logger-stream loses no text",
      "Each write to the logger stream logs the text, without the one line ending (CR-LF, LF-CR or LF) it ends with, exactly once "
      "and at the stream's level, and logs nothing when no text remains.", ["inputs", "histories"],
      "all texts within the length bound", "Not tested.", [UTIL], "stripping of line endings before logging"),
    P("U05", "Ensuring a file extension appends it only when none matches",
      "The given file name is returned when its extension is any of those asked for (case-insensitively, with or without their dot, "
      "or matching a regex when asked); otherwise the first extension is appended, with one dot in between, reusing the "
      "name's trailing one.", "inputs",
      "all names and extensions within the length bound", "Doctests show a dozen literals.", [UTIL], "split of the extension, comparison, append"),
    P("U06", "A unique file name is fresh and the first free one",
      "The unique name returned does not exist, equals the requested one when that is free, and otherwise is the first "
      "free variant, numbered from 1 before the extension, or as produced by the generator given.", ["inputs", "configurations"],
      "all names within bounds and all existence patterns of variants",
      "One literal in tests.", [UTIL], "generator of numbered candidates, existence test"),
    P("U07", "Path normalisation keeps the directory slash and is idempotent",
      "Normalising a path, making it absolute or converting it (with user and variables expanded on demand) denotes the same "
      "location, keeps a trailing slash exactly when the input had one after a name, and "
      "normalising again changes nothing; also with Windows paths, where shares like `v$\\` are not variables.", "inputs",
      "all paths within the length bound over significant characters",
      "Tests list literals.", [UTIL], "standard normalisation, then restoring of the slash"),
    P("U08", "Local paths convert to URLs and back without loss",
      "Converting a path to a URL path and back yields the same path, keeping a trailing slash, dropping long-path (UNC) prefixes from "
      "URLs and prefixing only long Windows paths; local paths become absolute file URLs, drives are never taken for schemes, "
      "users and variables are expanded on demand, and remote URLs pass through with only their path normalised.", "inputs",
      "all paths within the length bound",
      "Tests list literals, most skipped outside Windows.", [UTIL], "quoting/unquoting with slash restoration, URL join"),
    P("U09", "Ensuring a directory exists is safe against concurrent creation",
      "Ensuring a directory returns normally only if at its last look there was a directory, or it made one with the mode asked, "
      "whatever other processes create or remove between its steps; an existing non-directory, or any failure of the system, is "
      "reported, and in quiet conditions a missing directory is made, with its parents.", ["schedules", "fault_sequences"],
      "all interleavings of environment actions at each file-system call, within bounds", "Races cannot be provoked by a test.",
      [UTIL], "existence test, creation, tolerance of already-exists"),
    P("U10", "Executables are located in search-path order",
      "The executable locator returns exactly the executable files with the program's name, as such or with a Windows extension (on "
      "Windows only with one), in the search path's folders, in that order, ignoring empty folders and quotes around them; "
      "the system's own `where` command is trusted when there is one; the program is the first of them, or none.",
      "configurations", "all search paths and existence/executability patterns within bounds",
      "Depends on the machine; tests only check a known program.", [UTIL], "loop over folders and extensions"),
    P("U11", "Listing and summarising keep what was given",
      "Anything but a sequence becomes a list of itself, and so do texts; other sequences become a new list of their items, in order. The first "
      "line of a text is its first one that is not blank, stripped; blank texts have none.", "inputs", "all texts and collections within bounds",
      "Used everywhere, tested nowhere.", [UTIL], "test of the type; split and strip"),
    P("C01", "An assembly is built out of its components in order",
      "Building an assembly builds every component once, in order, with the path-mappings given, and then its inputs/outputs "
      "are the sorted union of those of its components, as mapped, with nothing left over from earlier builds; a failing "
      "component stops the build with its error. Components made out of functions are named after them, call them with "
      "themselves and the arguments given, and declare exactly the paths that the function accessed.",
      ["histories", "configurations"],
      "all component lists and call sequences within bounds", "Tests run a single assembly.", [COMP], "iteration over components with mapped paths"),
    # ------------------------------------------------------------------ Excel workbooks
    P("V01", "Updating a workbook's code replaces the modules named after the files, and no others",
      "After importing files, there is exactly one module for each of their names (compared without regard to case), with the code of "
      "its file (the last one with this name), and all other modules are as they were; a failed import is reported and stops there. "
      "Removing modules by name removes all those code modules and no others, or all code modules when no name is given.",
      ["inputs", "faults"],
      "all modules, names and files within bounds, any import failing", "Excel is needed: no test runs without it.", [VBA],
      "lookup and removal by name, then import and rename"),
    P("V02", "Updated workbooks are saved once, as macro-enabled, under the name asked",
      "The command updates the workbook asked (or the active one) with the files asked, and saves it exactly once: "
      "under the new name if given, in place if it is macro-enabled and has been saved before, or as a macro-enabled clone of it otherwise. "
      "Nothing is saved when there are no files, or no workbook, or its code is not accessible, which are reported as documented; "
      "Excel's alerts are on afterwards, even when saving failed, and its failure is reported. "
      "Excel files are told by their extension in any case.",
      ["inputs", "faults", "configurations"],
      "all names, extensions, states of the workbook and arguments within bounds", "Excel is needed: no test runs without it.", [VBA],
      "extension test, choice between saving in place or under a new name"),
    P("V03", "Shortcuts are created as asked, and saved also when failing",
      "Creating a shortcut asks for one at the given path, sets its target and each of the arguments, directory, icon and description that is given and "
      "not empty, and saves it once after all, also when setting one of them fails; failures are reported as they are. Special folders "
      "are those that the shell tells. Whether Excel is installed is asked once, and any failure then means that it is not.",
      ["inputs", "faults"], "all options, texts and failures within bounds", "Windows is needed: no test runs without it.",
      ["pandalone/winutils.py", VBA], "attributes set in a try block, saving at its end"),
    P("D09", "Objects survive the JSON codec",
      "Whatever bytes an object pickles into, decoding the JSON text that the codec made of it hands the very same bytes to the "
      "unpickler, once, and returns its result; JSON texts not made by the codec, of any kind of value, are decoded as plain JSON.",
      "inputs", "all pickles within bounds", "Tests round-trip a few objects.", [DATA],
      "pickle bytes as quoted-printable text under a reserved key"),
    # ------------------------------------------------------------------ outside the technique
    P("N04", "Frame filters build the frame that the captured table denotes",
      "The data-frame filter yields a frame with the captured header and values.", "inputs", "all tables",
      "The plugin does not load here.", ["pandalone/xleash/_pandas_filters.py"], "call into the data-frame parser"),
    P("N05", "Workbook files are decoded faithfully",
      "Opening a workbook file yields its cells as stored in the file.", "inputs", "all workbook files",
      "Tests read a few files.", [XLRD], "third-party binary parser"),
]

NA = {
    "N04": "the plugin cannot even be imported with the installed pandas, and its work is done inside pandas",
    "N05": "decoding is done by the third-party xlrd parser over compressed/binary files: far beyond any useful symbolic bound",
}
