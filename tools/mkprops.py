#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl from the compact table below."""
import json, os

MAP, PD, CO, UT, XU, BV = ("pandalone/mappings.py", "pandalone/pandata.py", "pandalone/components.py",
                           "pandalone/utils.py", "pandalone/xlsutils.py", "bin/bumpver.py")
XI, PA, CA, FI, LA, BE, XR = ["pandalone/xleash/" + f for f in
    ("__init__.py", "_parse.py", "_capture.py", "_filter.py", "_lasso.py", "io/backend.py", "io/_xlrd.py")]
P = []


def prop(id, title, statement, over, text, why, files, mech, state=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over.split(), text=text), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     **(dict(state=[dict(name=n, meaning=m, where=w) for n, m, w in state]) if state else {}))))


# ---------------------------------------------------------------- mappings
prop("M01", "Using a mapping never modifies it",
     "Looking up a step or its alias, mapping paths, merging the rules matching a step, and creating, navigating, renaming or "
     "re-assigning the symbolic path-steps derived from a mapping never modify that mapping, nor any mapping nested in it, nor the containers they hold.",
     "inputs histories", "every mapping hierarchy (however shared its parts are) and every sequence of queries, merges and path-step operations on it",
     "Tests compare the result of single queries on small fresh mappings; a write into a part shared by two mappings is seen only by a later query on the other one.",
     [MAP], [("copy-on-write merge", "Pmod._merge/_override_steps/_override_regxs"), ("queries", "Pmod.descend/alias/map_path"), ("psteps keep a reference to the mapping", "Pstep.__make_cstep")],
     [("_alias/_steps/_regxs", "the mapping's content, freely shared between merged mappings", MAP)])
prop("M02", "Separately created mappings share no state",
     "Creating a mapping - empty, from explicit parts, or from from-to tuples - and filling it never changes any other mapping created before or after it, "
     "nor what a default-constructed mapping contains, nor the from-to tuples it was built from.",
     "histories inputs", "every sequence of mapping creations and insertions in one process",
     "Sharing through default containers shows only when one test's leftovers are visible to another; each test inspects just the mapping it built.",
     [MAP], [("guards against filling the shared empty defaults", "Pmod._append_into_steps/_append_into_regxs"), ("defaults", "Pmod.__init__")])
prop("M03", "Rule precedence: exact beats regex, the last matching regex wins",
     "The alias found for a step is that of the exactly-named rule when it has one, otherwise that of the last-declared regex rule that matches and has one, "
     "otherwise none; an empty alias counts as one. The two ways of looking it up (alone, or together with the child mapping) always agree.",
     "inputs", "every mapping with exact and regex rules, with or without (possibly empty) aliases, and every step",
     "Doctests sample a handful of rule combinations; the guarantee ranges over all combinations of matching rules and missing aliases, in two sibling implementations.",
     [MAP], [("lookup", "Pmod.descend"), ("lookup without children", "Pmod.alias"), ("ordered regex matches", "Pmod._match_regxs")])
prop("M04", "Regex rules apply only to whole-step matches",
     "A regex mapping-rule contributes its alias or its nested rules to a step only when the regex matches the complete step, never on a prefix or an inner part of it; "
     "and every regex rule that does match completely contributes.",
     "inputs", "every regex rule and every step string",
     "Tests use regexes that differ obviously from the steps they should not match; prefix-only and inner matches are rarely among them.",
     [MAP], [("full matching", "Pmod._match_regxs")])
prop("M05", "Joined paths are in normal form",
     "When path-steps are joined an empty step restarts the path at the root, '.' steps vanish (unless nothing else is left), '..' removes the preceding "
     "named step, accumulates only at the start of a relative path, and never climbs above the root.",
     "inputs", "every sequence of steps (named, empty, '.' or '..')",
     "Doctests list some twenty sequences of the infinitely many; the rule is an invariant preserved by each single appended step.",
     [MAP], [("one-step transition", "_append_step"), ("fold over the steps", "_join_paths")])
prop("M06", "Dot-aliases are relative to the step, others replace it",
     "When mapping a path a step whose alias starts with '.' keeps its own name and is followed by the alias' steps, while any other alias replaces it; "
     "this holds alike for the last and for the inner steps, steps without alias stay as they are, and the root's own alias is prefixed once.",
     "inputs", "every path, and every mapping that renames or relocates any of its steps",
     "The code treats inner and last steps with separate code; tests sample few combinations of relocation and position.",
     [MAP], [("inner steps", "Pmod.map_path loop"), ("last step", "Pmod.map_path tail")])
prop("M07", "Mapping tuples apply in order; later ones override; invalid ones are inert",
     "Building a mapping from from-to tuples registers each tuple's alias at exactly the named step or regex (marked with a leading '~'), the later of two tuples for the same step wins, "
     "re-declaring a regex moves it last while keeping its nested rules, and tuples that are empty on both sides or hold a null are skipped.",
     "inputs histories", "every list of from-to tuples",
     "Order- and override-effects need several tuples interacting; tests mostly use non-overlapping ones.",
     [MAP], [("tuple loop", "pmods_from_tuples"), ("insertion", "Pmod._append_into_steps/_append_into_regxs")])
prop("M08", "Merging matching rules keeps all nested rules, the later match winning",
     "The child mapping returned for a step holds the nested rules of every matching rule - regex matches in declaration order first and the exact one last -, "
     "with conflicts merged recursively and resolved in favour of the later one, including their aliases, and the later's regex rules ordered last.",
     "inputs", "every mapping whose rules for a step overlap, at any depth",
     "Deep overlaps are combinatorial; tests have a few merges with one or two children.",
     [MAP], [("merge", "Pmod._merge/_override_steps/_override_regxs"), ("reduce over the matches", "Pmod.descend")])
prop("P01", "Locked path-steps cannot be renamed or relocated",
     "Locking a path-step that has been renamed fails with a value error when locking fully, and locking against relocation fails when its name differs and contains a slash; otherwise the lock is recorded. "
     "A failing lock attempt leaves the previous lock state in place.",
     "inputs", "every path-step (unchanged, renamed, relocated) and every lock level",
     "Tests try some of the level/rename combinations; the guarantee is the full table, including the state after a failure.",
     [MAP], [("lock setter", "Pstep._locked"), ("shortcuts", "Pstep._fix/_lock")])
prop("P02", "Copying a path-step isolates its tags, children and mapping",
     "After a path-step is created from, or assigned under another name from, an existing one, adding or removing children or tags of either, or renaming their children, "
     "does not change the other's set of children, its tags, or its mapping.",
     "histories", "every history of copies and later edits of either copy",
     "Aliasing shows only when a test edits one copy and re-inspects the other; every attribute holding a collection is a separate case.",
     [MAP], [("attribute cloning", "_clone_attrs"), ("constructor", "Pstep.__new__")])
prop("P03", "Accessing a path-step's child is idempotent; private names create none",
     "Accessing a named child twice yields the same child and leaves the set of children unchanged the second time; accessing any private (underscore) name or one of the names "
     "reserved for pandas never creates a child but fails with an attribute error.",
     "inputs histories", "every attribute name and every previous sequence of accesses",
     "Attribute names are unbounded; tests access a few.",
     [MAP], [("magic attribute access", "Pstep.__getattr__"), ("child creation", "Pstep.__make_cstep")])
prop("P04", "Only strings and path-steps can be assigned as children",
     "Assigning a non-private attribute of a path-step succeeds only for strings (which rename the child, keeping its own children and tags) and path-steps (which are copied with their children and tags); any other value is refused with an assertion error "
     "before anything has been changed.",
     "inputs", "every value type assigned to every non-private name",
     "Tests assign one or two wrong types and do not inspect the state afterwards.",
     [MAP], [("guarded assignment", "Pstep.__setattr__")])
prop("P05", "Path listings hold exactly the leaf (or the tagged) steps",
     "The list of paths of a step-hierarchy contains, sorted and without duplicates, one joined path for each step without children, or when a tag is asked for, for each step carrying that tag, whatever its depth.",
     "inputs", "every hierarchy of path-steps with any tags",
     "Tests use shallow hierarchies with few tags.",
     [MAP], [("hierarchy walk", "Pstep._iter_hierarchy"), ("selection", "Pstep._paths")])
prop("P06", "A path-step is named by its alias, else by the mapping, else by itself",
     "A new path-step reads its explicit alias when one is given (also for the empty root), else the alias that the given mapping has for its name, else its own name; its children consult the mapping nested under it. "
     "Mappings may be given as a Pmod, as a list or tuple of map-pairs, or as another path-step to be cloned, and anything else is a ValueError. Tags given at creation are tags of the new step (only).",
     "inputs", "every mapping, name, alias and tags",
     "The name depends on which of several sources is present and on what each level of the mapping holds; tests create few combinations.",
     [MAP], [("creation", "Pstep.__new__"), ("children", "Pstep.__getattr__"), ("nested consulting", "Pmod.step")])
prop("P07", "Derived map-pairs list every path-step once, by its original path",
     "The map-pairs derived from a step-hierarchy hold, sorted by path, one pair for each of its steps (whatever its depth, the root included): the path of the original names leading to it, and its current name; deriving modifies no step.",
     "inputs", "every hierarchy of path-steps, with steps renamed at any level",
     "Pairs depend on the whole tree; tests derive them from few hierarchies.",
     [MAP], [("extraction", "Pstep._derrive_map_tuples"), ("hierarchy walk", "Pstep._iter_hierarchy")])
prop("P09", "A path-step has one schema of its own, listing exactly what was set",
     "A path-step has no schema until it is asked for one, and asking whether it exists makes none; it then keeps one schema, shared with no other step created separately: root, child, or another tree; and the schema lists exactly the attributes set on it, with the last value of each, also falsy ones, in a new mapping each time.",
     "inputs histories", "every step of a tree, attribute and value, and sequence of accesses",
     "Sharing shows only with accesses on two steps in the right order; the tests set two attributes and look at none.",
     [MAP, PD], [("lazy schema", "Pstep._schema"), ("listing", "JSchema.todict")])
prop("P08", "Path-steps made from a table are named and attributed by their rows",
     "Building path-steps from a table makes exactly the steps of the paths in its index; each is named by the name-column of its row (by itself, where the row gives none), and has the other columns of its row as private attributes, at any depth and whatever the order of the rows; the table is only read.",
     "inputs", "every table of paths, names and attributes",
     "Nested paths, and paths listed before their parents, must be combined with every kind of name; the tests have one flat table.",
     [MAP], [("building", "pstep_from_df")])
prop("D01", "A model build stops at the first failing stage and surfaces every error",
     "Building a model runs prevalidation, merging, validation and curation in this order; every validation error of a stage is yielded, any other exception is yielded as a "
     "validation error naming the stage with it as cause, and after a stage with an error the build reports giving up and runs no later stage; building again starts anew. The one-call form raises the first error and never returns a model when there was one.",
     "inputs fault_sequences", "every set of submodels, and every error or exception in any stage",
     "Each stage can fail in many ways at many points; tests inject failures in few of them.",
     [PD], [("staged driver", "Pandel.build_iter"), ("one-call form", "Pandel.build"), ("error flag", "Pandel._validate_json_model")])
prop("D02", "Building a model never modifies the submodels it is given",
     "Merging, validating, filling defaults and removing nulls while building a unified model never modify the submodel trees given by the caller, at any depth; the unified model shares no mapping or sequence with them.",
     "inputs", "every tree of submodels, including keys present in only one of them, with any schema",
     "Tests check the merged result, not the inputs afterwards; aliasing depends on which submodel holds which key at which depth.",
     [PD], [("cloning merge", "Pandel._clone_and_merge_submodels"), ("prevalidation", "Pandel._prevalidate")])
prop("D03", "Later submodels override earlier ones, recursively by key",
     "When submodels merge, mappings are combined key by key recursively, while for any other type the later non-null value replaces the earlier; a null in the later one never overrides, keys present in only one of them are kept, "
     "and merging two nulls is a validation error.",
     "inputs", "every pair of submodel trees and every combination of value types",
     "The merge is a table over pairs of types and null-ness, applied recursively; tests sample the table.",
     [PD], [("merge cases", "Pandel._clone_and_merge_submodels")])
prop("D04", "Schema defaults apply exactly when asked",
     "While validating an object each property with a schema default is set to it exactly when it is missing and filling defaults is on, or when it is a non-nullable null and replacing nulls is on; otherwise a non-nullable "
     "null is deleted exactly when removing nulls is on. A per-property setting in the schema overrides the general one, and nothing else in the object changes.",
     "inputs configurations", "every combination of the three general settings, the three per-property settings, nullable type, default, and missing/null/given value",
     "Tests cover a sparse selection of the several hundred combinations.",
     [PD], [("decision", "_rule_auto_defaults_properties"), ("rule wiring", "PandelVisitor")])
prop("D05", "Custom validation rules report all violations of the standard ones",
     "Installing the customized rules never hides errors: after filling in defaults the standard property checks still run on the resulting object and all their errors are reported, "
     "and unexpected additional properties or property-names not valid under their sub-schema are each reported, for non-objects nothing is.",
     "inputs", "every schema and instance",
     "Hidden errors are absences; tests check only a few schemas for the presence of errors.",
     [PD], [("wrapped rule", "_rule_auto_defaults_properties"), ("additional properties", "_rule_additionalProperties"), ("property names", "_rule_propertyNames")])
prop("D06", "JSON types are recognised consistently for python, numpy and pandas values",
     "In validation a string is never an array, a boolean is never an integer, numpy integers and booleans count as integers and booleans, numpy arrays and any non-string sequence as arrays, any mapping as an object, and null is "
     "None or a NaN, while testing any value for null never raises.",
     "inputs", "every value kind that can appear in a model",
     "The classification is a table over value kinds, of which tests visit some cells.",
     [PD], [("type predicates", "_is_array/_is_object/_is_bool/_is_integer/_is_null"), ("registration", "PandelVisitor")])
prop("D07", "Resolving a path only reads, and fails only with its documented error",
     "Resolving a json-pointer or a path never modifies the document, and when some part cannot be followed it returns the default if one was given (whatever it is, even null) and otherwise raises a reference-resolution error, "
     "never another exception of the lookups it tried.",
     "inputs", "every document and every pointer or path, with any default",
     "Lookup failures come in many kinds (missing key, bad index, wrong type); tests sample few and only one or two defaults.",
     [PD], [("pointer resolution", "resolve_jsonpointer"), ("path resolution", "resolve_path")])
prop("D08", "Setting a json-pointer fails cleanly or sets exactly one value",
     "Setting a value by json-pointer either stores that value at the pointed place, creating the missing intermediate objects with the given factory, or raises a reference-resolution error leaving the document unchanged; the '-' part appends to a sequence.",
     "inputs", "every document and every pointer, including the empty one, out of range indices and non-numeric parts for sequences",
     "Failing pointers must be tried at every depth and the whole document compared afterwards; tests check few failures.",
     [PD], [("walk and extension", "set_jsonpointer")])
prop("D09", "Escaping pointer parts is lossless and every yielded part is unescaped",
     "Escaping a string as a json-pointer part and unescaping it gives back the same string, the escaped form contains no slash, and splitting a pointer yields every part once, in order, and unescaped.",
     "inputs", "every string",
     "Round-trip over all strings: the order of the replacements matters only for specific adjacent characters.",
     [PD], [("escape", "escape_jsonpointer_part"), ("unescape", "unescape_jsonpointer_part"), ("iterators", "iter_jsonpointer_parts/_relaxed")])
prop("D10", "The pickling JSON codec decodes what it encodes",
     "The decoder applies the inverse of each conversion the encoder applies, in reverse order, under the same key and text-encoding, each lossless for arbitrary bytes; plain JSON without the marker passes through unchanged.",
     "inputs", "every picklable object, and every plain JSON document",
     "Loss depends on the particular bytes of a pickle (line-ends, blanks); tests try a few objects.",
     [PD], [("encoder", "JSONCodec.Encoder.encode"), ("decoder", "JSONCodec.Decoder.decode")])
# ---------------------------------------------------------------- xleash
prop("D11", "The paths listed of a schema are valid pointers to its leaves",
     "Listing the paths of a schema gives the json-pointer, with its parts escaped, of every declared property without properties of its own, those in oneOf, anyOf and allOf forks at any level included, and of nothing else.",
     "inputs", "every schema of nested properties and forks, and all property-names",
     "Schemas nest properties and forks in any order, and names may hold the pointers' special characters; the test lists one path.",
     [PD], [("listing", "build_all_jsonpaths")])
prop("D12", "Table headers are split into name and units, or refused",
     "A header text gives its name, without blanks around, and the text within the [..] or <..> at its end as units, None when there are none; the name holds no opening bracket and the units not their closing one, and any other text gives None.",
     "inputs", "every text",
     "The grammar lies in a regular expression with lazy and optional parts, wrong only for certain combinations of brackets.",
     [PD], [("parsing", "parse_value_with_units")])
prop("X01", "Everything the xl-ref grammar accepts, the tables can process",
     "Every move, direction, special coordinate and modifier the xl-ref grammar accepts, in any letter-case, is understood by the capturing tables, and no accepted xl-ref makes parsing or moving fail for lack of an entry; every two-direction move combines "
     "a horizontal with a vertical one.",
     "inputs", "the whole language of the xl-ref grammar",
     "The language is infinite; grammar and tables live in different modules and tests sample strings.",
     [PA, CA], [("grammar", "_regular_xlref_regex/_re_exp_moves_*"), ("tables", "_primitive_dir_vectors/_mov_vector_slices/_special_coord_symbols")])
prop("X02", "Letter-case never matters in an xl-ref's coordinates and moves",
     "Column letters, row/column prefixes, moves and expansion-moves of an xl-ref are normalised to upper-case before they reach any comparison or table lookup, so that xl-refs differing only by case give the same capture.",
     "inputs", "every xl-ref in any mix of cases",
     "Tests have a handful of lower-case references; each field has its own normalisation.",
     [PA], [("normalisation", "Cell.__new__/Edge_new/parse_expansion_moves")])
prop("X03", "Malformed xl-refs fail only with a syntax or a value error",
     "Parsing any string as an xl-ref either returns the complete set of fields or raises a syntax error (not an xl-ref) or a value error (bad filters, options, call-specifier or expansion moves), never any other exception; what looks like quoted is unquoted and parsed as usual.",
     "inputs", "every string",
     "Arbitrary garbage cannot be enumerated; callers rely on the error class to tell non-references from broken ones.",
     [PA], [("parsing entry", "parse_xlref"), ("fragment", "parse_xlref_fragment"), ("call-spec", "parse_call_spec")])
prop("X04", "Call-specifiers normalise to a name, a fresh list and a fresh or given dict",
     "A call-specifier given as a string, a list or an object yields the same normalised triple of a string name, a list of arguments and a dictionary of keywords regardless of the order they are given in; defaults are never shared between calls, and any other combination of types is a value error.",
     "inputs", "every JSON value given as call-specifier",
     "Tests check some invalid shapes; the acceptance table is over pairs of types in both orders.",
     [PA], [("normaliser", "parse_call_spec")])
prop("X05", "The four directions mean the same in every capturing step",
     "In landing, targeting with one or two moves and expanding, the letters L, U, R and D always move left, up, right and down: they scan the states in that order from the landing cell (inclusive) to the sheet's border, and advance or extend only the coordinate of that axis, one step each.",
     "inputs configurations", "all moves, on any sheet and landing cell",
     "Three separate tables encode directions; tests exercise combinations on one or two sample sheets.",
     [CA], [("step vectors", "_primitive_dir_vectors"), ("scans", "_mov_vector_slices"), ("expansion offsets", "_expand_rect")])
prop("X06", "Targeting follows the documented state table",
     "An edge without moves stays on its landing-cell; with moves, an empty landing (or one outside the sheet) targets the first full cell in its direction, while a full landing targets the last of its kind exactly when the modifier is '+', or, for a second edge landing on the first, when the modifier is not '?'. "
     "Relative coordinates resolve against the base-cell for the first edge and against the target of the first for the second.",
     "inputs configurations", "all edges, modifiers, landing states, with or without second edge and expansion",
     "The table has tens of rows per edge; tests sample rows.",
     [CA], [("state table", "resolve_capture_rect")])
prop("X07", "A captured rectangle is always ordered",
     "Whatever the order of the two edges, the captured coordinates are the top-left and the bottom-right corners - component-wise minimum and maximum of the two targets; a missing second edge without expansion captures a single cell and expansion starts from that ordered rectangle.",
     "inputs", "every pair of resolved targets",
     "Needs all relative positions of the two corners.",
     [CA], [("ordering", "_sort_rect"), ("callers", "resolve_capture_rect/_expand_rect")])
prop("X08", "Expansion only grows the rectangle, one full line at a time, and stops",
     "Expanding a rectangle never shrinks it; every growth by one line or column in a direction happens only when the newly covered line holds some non-empty cell, and repetition stops when a full round did not grow.",
     "inputs", "every sheet, rectangle and sequence of expansion moves",
     "Tests use one sample sheet and a few sequences.",
     [CA], [("expansion loop", "_expand_rect"), ("repetition", "_repeat_moves/parse_expansion_moves")])
prop("X09", "Capturing never modifies the sheet's cached data nor its arguments",
     "Resolving a capture rectangle only reads the cached states-matrix, margins, edges and base coordinates it is given: no later capture on the same sheet can be affected by an earlier one, and cached data are computed once.",
     "histories inputs", "every sequence of captures on one sheet",
     "State leaks need sequences of captures on the same sheet with particular results.",
     [CA, BE], [("capturing", "resolve_capture_rect and callees"), ("caches", "ABCSheet.get_states_matrix/get_margin_coords")])
prop("X10", "Coordinates are resolved 1-based, negatives from the end, zero refused",
     "Positive row and column numbers are 1-based, negative ones count back from the last used row or column (-1 being the last), zero is a value error, column letters are base-26, '^' and '_' are the first and last used ones and '.' the base, "
     "failing with a value error when there is no base.",
     "inputs", "every coordinate string and all margins",
     "An off-by-one in one branch of one axis escapes samples.",
     [CA], [("numbers", "_row2num/_col2num"), ("special symbols", "_resolve_coord/_resolve_cell")])
prop("X11", "An empty capture gives an empty list unless forbidden",
     "When targeting finds nothing the lasso completes with an empty list of values, unless the option forbidding it is set, in which case the empty-capture error propagates; any other failure of capturing is a value error naming the edges.",
     "inputs configurations", "every empty capture, with the option given in the reference, in the base options, or missing",
     "Options come from two layers; tests use one.",
     [LA], [("handling", "Ranger._resolve_capture_rect"), ("reading", "Ranger.do_lasso")])
prop("X12", "Options given in one xl-ref overlay the base ones and never leak",
     "Options parsed from an xl-ref take effect on top of the base-options for that lassoing only: unspecified options keep their base value, and neither the parsed options nor any filter's changes to them are visible in the base-options, the defaults, or a later lassoing.",
     "histories inputs", "every sequence of lassoings with one ranger",
     "Leaks need at least two lassoings sharing a ranger.",
     [LA], [("overlay", "Ranger._make_init_Lasso/_parse_and_merge_with_context"), ("defaults", "get_default_opts")])
prop("X13", "A failing filter raises, or when lax keeps the previous lasso",
     "Invoking a filter that fails, is unknown, or returns something that is not a lasso raises a value error naming it, unless lax - from its own keywords, else from the options - in which case a warning is logged and the lasso from before the filter is returned; lax is never passed on to the filter.",
     "inputs fault_sequences configurations", "every filter outcome and every source and value of the lax setting",
     "The combination of failure kind, lax source and verbosity is sampled.",
     [LA], [("guarded call", "Ranger.make_call")])
prop("X14", "Lassoing runs its stages in order, each feeding the next",
     "A lassoing parses the reference, fetches the sheet, captures, reads the values at the captured coordinates and then runs the filters, each stage working on what the previous ones produced, and the intermediate result published for diagnosis is at every failure the one of the last completed stage (when a filter fails, the lasso that was given to it).",
     "inputs fault_sequences", "every reference, failing at any stage or at none",
     "A failure must be provoked in every stage and the published state inspected.",
     [LA], [("stage driver", "Ranger.do_lasso"), ("publication", "Ranger._relasso")])
prop("X15", "A lassoing closes the sheet-factory it made, and only that one",
     "The one-call lassoing closes the sheet-factory exactly once on every exit, normal or by exception, when it created the factory itself, and never closes one given by the caller.",
     "inputs fault_sequences", "every outcome of the lassoing, with and without a factory given",
     "Needs a fault in each step, and observing the resource.",
     [LA], [("try/finally", "lasso")])
prop("X16", "Sheets are cached under all their names and closed exactly when dropped",
     "A sheet once fetched by a workbook and sheet id is served from the cache on the next request with the same ids and is found under each of its own ids; replacing a cached sheet closes the old one and forgets it under all its keys; closing the factory closes all sheets and empties the cache. Without a workbook, the base sheet given, or its sibling by the sheet id asked, is the one fetched; a workbook named is the one opened, whatever the base.",
     "histories", "every sequence of fetches, additions and closes",
     "Histories; the cache's keys are products of several ids.",
     [BE], [("cache", "SheetsFactory._cache_get/_cache_put/_derive_sheet_keys"), ("close", "SheetsFactory._close_sheet/close"), ("fetch", "SheetsFactory.fetch_sheet")])
prop("X17", "The highest bidding backend opens the workbook",
     "The backend with the highest bid is used, backends not bidding are never used even when others bid zero, none bidding is a value error, and an opened-but-missing sheet is a value error.",
     "configurations inputs", "every set of backends and bids",
     "Tests have one or two backends.",
     [BE], [("auction", "SimpleSheetsFactory.decide_backend"), ("opening", "SimpleSheetsFactory._open_sheet")])
prop("X18", "Reading a rectangle includes both corners and returns fresh lists",
     "Reading the rectangle between two coordinates gives a new list of rows, each a list, covering both corners inclusively, with the very values of the cells; with a single coordinate it gives that cell's value, and one beyond the sheet is refused; all sheet kinds agree for rectangles inside the sheet, while beyond it excel sheets give empty cells.",
     "inputs", "every pair of coordinates on every sheet kind",
     "Sibling implementations are tested on different samples.",
     [BE, XR], [("array sheets", "ArraySheet.read_rect"), ("excel sheets", "XlrdSheet.read_rect")])
prop("X19", "Every excel cell-type converts, and emptiness is judged consistently",
     "Every cell type of the excel library is converted or refused with a value error, the types converted to an empty value are exactly those marked as empty in the states-matrix, integral numbers become integers, dates are decoded with the epoch of their own workbook, and those on that epoch, and only those, are times of a day, keeping all their fields.",
     "inputs configurations", "all cell types, workbooks of both epochs",
     "Sample files hold few types and only one epoch.",
     [XR], [("conversion", "_parse_cell"), ("states", "XlrdSheet._read_states_matrix"), ("epoch", "XlrdSheet construction")])
prop("X29", "The margins of a sheet bound exactly its full cells",
     "The up and down margins of a sheet are the first and last rows and columns having a full cell, unless the backend knows them itself, when they are kept as given (excel sheets end where the library says); a sheet of cells all empty has both at the origin, and one without any cells is an empty capture, however it is read.",
     "inputs", "every sheet of every kind, any pattern of full and empty cells, margins known or computed",
     "Negative and special coordinates of every capture count from the margins; tests sample few layouts.",
     [BE, XR], [("computing", "margin_coords_from_states_matrix"), ("merging", "ABCSheet.get_margin_coords"), ("excel", "XlrdSheet._read_margin_coords")])
prop("X20", "One broken plugin never prevents the others from installing",
     "All plugins are loaded before any is installed, an exception while loading or installing one is logged and the rest continue, the recorded stage of each reflects how far it got, and re-initialising never registers a backend twice.",
     "fault_sequences configurations", "every set of plugins, failing or not, in any order",
     "Tests have at most one failing plugin.",
     [XI, XR], [("two-stage init", "_init_plugins"), ("idempotent install", "load_as_xleash_plugin")])
prop("X21", "Element-wise filters touch exactly the selected elements",
     "An element-wise filter visits every element up to the given depth, skipping at the top level and in any mapping the keys (or columns of a table, or labels of a series) not included or excluded, replaces exactly the elements it processed, with the result of their sub-filters, leaves the rest as they were, and dives in lists, mappings, tables and series it did not process; relative coordinates are based on the cell of each element, when known.",
     "inputs", "every nesting of lists and mappings, any include, exclude and depth",
     "Structures are recursive; tests use a few.",
     [FI], [("diver", "run_filter_elementwise")])
prop("X22", "Recursive lassoing skips non-references and reports broken ones",
     "In recursive lassoing a text that is not an xl-ref is left as it was, one that is but fails for any other reason raises a value error, and non-texts are never parsed. A reference found in a captured table starts from the sheet it was found in and its relative coordinates are based on the cell holding it.",
     "inputs fault_sequences", "every cell value and every failure",
     "The exception class raised deep in the parser decides silently between skipping and failing.",
     [FI, LA], [("element function", "_recurse_element_func"), ("error classes", "Ranger._parse_and_merge_with_context")])
prop("X23", "The shape of a capture selects the right dimension",
     "When re-dimensioning the wanted dimension is chosen by whether the captured rectangle is a scalar, a single cell, a row, a column or a table, and only a dimension actually given changes the values - and then only their nesting, never the values themselves.",
     "inputs", "every rectangle shape",
     "Few shapes tested together with each dimension.",
     [FI], [("classification", "_classify_rect_shape"), ("choice", "redim_filter")])
prop("X24", "Evaluation errors in expressions are never taken for results",
     "When evaluating a cell or an expression fails, the error is raised as a value error, or, for element-wise evaluation not asked to be strict, logged while the element stays as it was; a result is used only when there was no error, and a lasso result keeps the current options if it has none.",
     "inputs fault_sequences", "every expression, failing or not",
     "Evaluators report errors on the side; each call site must check them.",
     [FI], [("py", "py_filter"), ("pyeval", "_pyeval_element_func")])
prop("X25", "Piped filters feed each other in order",
     "In a pipe of filters each one receives the lasso returned by the previous one, the first receives the original, all run exactly once and in order, and the pipe returns the last's result.",
     "inputs", "every number of filters",
     "Tests pipe two or three.",
     [FI], [("loop", "pipe_filter")])
prop("X26", "Local workbooks are opened by path, remote ones from their contents",
     "A workbook referred to by a file-url is opened from the local path it denotes; one referred to by any other url is opened from the contents downloaded from that url, and the connection is closed on every exit, also when reading or opening fails; a sheet is found by its name, index or the text of its index, and one missing is reported by the library's own error. Replacing or closing the sheets frees what the library holds for them.",
     "inputs fault_sequences", "every kind of url and a failure at any step of the download",
     "Tests have no network and cannot fail a download half-way.",
     [XR], [("opening", "XlrdBackend._open_book"), ("url to path", "utils.urlpath2path")])
prop("X27", "The dataframe and series filters hand the capture to pandas faithfully",
     "The dataframe filter hands all captured rows to pandas, blanks as empty texts, with every option under its name: blanks of upper header-rows and of index columns are filled from their left and above, columns are selectable by number, list or letters; boolean headers and options not supported are refused; "
     "the filters always return the lasso with the frame (an empty one for an empty capture) or series as its values and nothing else changed, and never hide pandas' failures.",
     "inputs", "every captured table and combination of options",
     "Tests do not run where pandas' internals have moved, and sample few tables.",
     ["pandalone/xleash/_pandas_filters.py"], [("filters", "_df_filter/install_filters")])
prop("X30", "The converting filters convert exactly the captured values",
     "The numpy, dict, odict and sorted filters replace only the values of the lasso, with what numpy's array, dict, OrderedDict and sorted make of them and of all the arguments given to the filter, in their order; the captured values themselves are not modified.",
     "inputs", "every captured value, and positional and named arguments of the filter",
     "Dropped arguments, orders or types lost, and in-place conversions show for some values and arguments only; the tests convert a table or two without arguments.",
     [FI], [("installation", "install_default_filters")])
prop("X28", "Every cell has its name",
     "Coordinates from zero are named by the number of their row, from one, and by the letters of their column, however far it lies (A, Z, AA, ZZ, AAA…), so that the name resolves back to them; special symbols are kept as they are, and coordinates before the first are refused.",
     "inputs", "every pair of coordinates",
     "Tests name cells of the first few columns.",
     [CA], [("naming", "coords2Cell"), ("column letters", "xl_colname")])
# ---------------------------------------------------------------- utils &c
prop("U01", "A unique filename is the first generated candidate that does not exist",
     "Asking for a unique filename returns the first candidate of the generator given by the caller (by default the name itself, then numbered ones before its extension) that does not exist, and never one that was seen to exist.",
     "inputs", "every set of existing files and any generator",
     "Tests create few files and no custom generator.",
     [UT], [("search", "make_unique_filename"), ("candidates", "generate_filenames")])
prop("U02", "Ensuring a directory either leaves a directory or raises",
     "Ensuring that a directory exists returns only when the path is a directory, and otherwise raises an I/O error, also when another process or a dangling link gets in the way between check and creation; a lost creation race against an identical directory is no error.",
     "schedules fault_sequences", "every prior state of the path and every interleaving with other creators",
     "The race window cannot be hit by tests.",
     [UT], [("check and create", "ensure_dir_exists")])
prop("U03", "Textual and object booleans follow one table",
     "Texts for yes/true/on are true, those for no/false/off/0 and blank are false regardless of case and surrounding blanks, any other text is true, other objects follow their truth, and only a non-text given as text fails, with a value error.",
     "inputs", "every text and every object",
     "The doc lists a handful.",
     [UT], [("text", "str2bool"), ("object", "obj2bool")])
prop("U04", "Path conversions preserve a trailing slash and undo the long-path prefix",
     "Normalising a path, making it absolute, and converting it to and from a url-path keep a trailing separator (a slash, or windows' backslash turned into the separator of the platform) exactly when the input has one (after some name); the windows long-path prefix is added in front and stripped completely.",
     "inputs", "every path of any length",
     "Long paths and prefixed paths are not among the samples.",
     [UT], [("siblings", "normpath/abspath/path2urlpath/urlpath2path/path2url")])
prop("U05", "Ensuring a file extension adds it only when missing",
     "A filename that already has any of the accepted extensions, in any case, is returned unchanged; otherwise the first extension is added with exactly one dot.",
     "inputs", "every filename and list of extensions, plain or regex",
     "Doctests list samples.",
     [UT], [("check and append", "ensure_file_ext")])
prop("U06", "Searching for a program finds the executables of the search-path in order",
     "Searching for a program lists the executable files so named, or with a program-extension, in the folders of the search-path given, or of the environment's, in their order, and nothing else; when the system has its own search command its findings are listed; "
     "the single form gives the first one or None; no search fails.",
     "inputs configurations", "every search-path and set of files, on either kind of system, whatever the command gives",
     "The result depends on the files and permissions of the machine the tests run on.",
     [UT], [("search", "py_where"), ("search command", "where"), ("single form", "which")])
prop("U07", "Local paths become absolute urls, remote ones pass, expanded only when asked",
     "Converting a path to a url gives a file-url of the absolute path for local paths (with or without drive, in either slash, network shares included) with redundant parts resolved and a trailing slash kept, and passes remote urls through; "
     "variables and the home-sign are expanded exactly when asked, by this and by the path conversion, which makes paths absolute exactly when asked; nothing stays nothing.",
     "inputs", "every path or url, and combination of the flags",
     "The path-to-url tests are skipped off windows, and sample few flags.",
     [UT], [("conversions", "path2url/convpath")])
prop("U08", "Text written to a log-writer is logged once, without its line-ending",
     "Each text written to a log-writer makes exactly one record, at the writer's level, with the text less its line-ending (of any platform), everything else in it kept; empty texts and mere line-endings make none.",
     "inputs histories", "every text and line-ending, and sequence of writes",
     "Endings combine with the texts before them and around them; the tests write none.",
     [UT], [("writing", "LoggerWriter.write")])
prop("U09", "Anything becomes a fresh list: sequences by their elements, all else alone",
     "Listing a value gives a fresh list: of the elements of a sequence (list, tuple, range, bytes or one of the user's) in their order, else of the value alone, texts, mappings, sets, none and falsy values included; what is given is not modified.",
     "inputs", "every kind of value",
     "Each kind of value is another case, and aliasing shows only when the list is modified later.",
     [UT], [("listing", "as_list")])
prop("V01", "Saving a workbook always re-enables excel's alerts",
     "Saving under a name happens with the excel application's alerts switched off, and they are switched on again on every exit, also when saving fails.",
     "fault_sequences", "every failure of the excel application",
     "Needs excel and an I/O fault.",
     [XU], [("save", "_save_workbook")])
prop("V02", "Exactly the asked VBA modules are removed",
     "Removing VBA modules by name removes every standard module whose name is among those given, in any case, and no other, and without names removes all the standard ones, never any other component type.",
     "inputs", "every set of components and names in any order",
     "Needs excel; tests have none.",
     [XU], [("removal", "_remove_vba_modules")])
prop("V03", "Importing VBA files replaces the modules of the same names, and no others",
     "Importing VBA files makes one module out of each file found by the wildcard (relative to the current folder), named after the file without folder and extension; an existing module of the same name is removed before the import, every other one stays. "
     "A failing import is not hidden, and nothing half-imported is saved. The workbook imported into (the one named, else the active one) is returned.",
     "inputs fault_sequences", "every set of files and of existing modules, with any import failing",
     "Needs excel; tests have none.",
     [XU], [("importing", "_import_vba_files"), ("file names", "_gather_files"), ("entry", "import_vba_into_excel_workbook")])
prop("V04", "A workbook imported into is saved once, as macro-enabled",
     "After its imports a workbook is saved exactly once: under the new name if one was given, else under its own name when it is of a macro-enabled type (in the current folder if never saved before), else under its name with .xlsm appended; always in the macro-enabled format when under another name. "
     "Without files nothing changes; a missing or protected workbook, and wrong usage of the command line, are refused before any change; --pandalone imports the packaged modules.",
     "inputs configurations", "every workbook name and state, new name and command line",
     "Needs excel; tests have none.",
     [XU], [("saving", "_save_workbook"), ("naming", "_save_excel_as_macro_enabled"), ("command line", "main")])
prop("K01", "Re-building a component starts clean and never mixes inputs with outputs",
     "Each build of a function-component resets its inputs, outputs and path-steps before calling its function once, then lists as inputs exactly the paths of its input step-tree and as outputs those of its output step-tree, with the mapping given to that build.",
     "histories inputs", "every sequence of builds with any mappings",
     "Staleness needs two builds with different mappings.",
     [CO], [("build", "FuncComponent._build"), ("accessors", "FuncComponent.pinp/pout")])
prop("K02", "An assembly exposes the sorted union of its components",
     "Building an assembly builds every component with the same mapping and lists as inputs and as outputs the sorted union, without duplicates, of those of all its components.",
     "inputs", "every list of components",
     "Tests use two components.",
     [CO], [("build", "Assembly._build")])
prop("K03", "A function-component is named and started by its function, and calls it once",
     "A function-component is named as asked, else by its function less the cfunc_ in front; its path-steps start at the path asked for, else at its name; calling it calls the function exactly once, with the component and the arguments given, and failures reach the caller.",
     "inputs", "every name and all arguments",
     "Any name and arguments must pass through unchanged.",
     [CO], [("naming", "FuncComponent.__init__"), ("call", "FuncComponent.__call__"), ("path-steps", "FuncComponent.pinp/pout")])
prop("B01", "A dry-run of the version bump changes nothing",
     "With dry-run no file is written and no command is executed on any path, and without it every command announced as executed is executed, failing commands aborting the rest.",
     "configurations inputs", "all option combinations",
     "There are no tests of the tool.",
     [BV], [("guards", "bumpver/do_commit/do_tag")])
prop("B02", "Bumping to the current version is refused before any change",
     "Bumping to the version already set fails before any file is written or command run unless forced, and without a version nothing is changed; each file is written with the text in which all the occurrences of both version and date were replaced.",
     "configurations inputs", "all option combinations and file contents",
     "There are no tests of the tool.",
     [BV], [("guards", "bumpver"), ("replacement", "replace_substrings")])
prop("B03", "A version bump tests before it commits, and commits before it tags",
     "Bumping writes its files, then runs the doc-tests, and only when they succeed commits (when asked to, or to tag) exactly the files written, and only after that tags (when a message was given) the new version, signed and with that message. "
     "Whenever the tests or a command fail the rest is not executed and the program does not end as if it succeeded.",
     "configurations fault_sequences", "all option combinations, with any test or command outcome",
     "There are no tests of the tool.",
     [BV], [("driver", "bumpver"), ("commands", "do_commit/do_tag/exec_cmd"), ("tests", "run_testcases")])
prop("B04", "A bump replaces exactly the old version and date, in both files",
     "The version file and the readme become their text with every occurrence of the old version and of the old date replaced by the new ones (literally) and nothing else, in utf-8; in a dry-run they stay. "
     "A version file without version or date is refused before any change, and without a new version the current version and date are printed.",
     "inputs", "every file contents and version",
     "There are no tests of the tool.",
     [BV], [("extraction", "extract_file_regexes"), ("replacement", "replace_substrings"), ("writing", "bumpver")])

if __name__ == "__main__":
    ids = [p["id"] for p in P]
    assert len(ids) == len(set(ids))
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
