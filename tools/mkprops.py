import json
P=[]
def p(id,title,statement,over,text,why,files,symbols=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=dict(files=files,**({"symbols":symbols} if symbols else {}))))
T="lazy_type_hint/data_type_tree/"
G=T+"generic_type/"
U="lazy_type_hint/utils/utils.py"; A="lazy_type_hint/generators/lazy_type_hint_abc.py"; L="lazy_type_hint/generators/lazy_type_hint_live.py"
p("C01","Generated modules are valid, self-contained and define the requested name",
 "For every supported data structure, strategy and valid class name, the generated module parses, executes on its own without error, and defines the requested class name. Every name used in it is imported, built in, or declared earlier in the same module (quoted forward references to the user's own classes excepted), and each name is declared exactly once. (Class names that Python or the module itself already gives a meaning, such as `int` or `List`, and class names that start with two underscores are outside the guarantee.)",
 ["inputs","configurations"],"all nested data structures of the supported types, all parsing strategies, all valid class names including lower-case and underscored ones, all dictionary keys",
 "Tests compare a few dozen fixed renderings (mostly with class name `Example`/`MyClass` and friendly keys); name clashes, undefined references and missing imports depend on combinations of keys, names and nesting that no test samples.",
 [T+"data_type_tree.py",G+"dict_data_type_tree.py",G+"mapping_data_type_tree.py","lazy_type_hint/utils/import_manager.py","lazy_type_hint/generators/lazy_type_hint.py"])
p("C02","The generated type accepts the data it was generated from",
 "The value given to from_data is always a member of the type the generated module binds to class_name: every element, key and nested value conforms to the hint at its position. This holds for all strategies, within the first check_max_n_elements_within_container elements of each container.",
 ["inputs","configurations"],"all nested values built from the supported structures, all strategies",
 "The 1171 tests assert exact strings for small samples; soundness must hold for every combination of equal-looking nodes, merged TypedDicts, shared aliases and renamed nodes.",
 [T+"data_type_tree.py",G+"set_and_sequence_operations.py",G+"dict_data_type_tree.py",G+"mapping_data_type_tree.py",G+"generic_data_type_tree.py"])
p("C03","The generated type is exact: nothing in it is unwitnessed by the data",
 "The generated type equals the one documented inference prescribes: each union member, dictionary key, tuple slot and container in the hint is witnessed by some inspected element, containers keep their kind (list, set, frozenset, tuple, dict, mappingproxy, iterator), and `int` is absorbed by `float` inside unions. `Any` only stands for empty containers.",
 ["inputs","configurations"],"all nested values built from the supported built-in structures, all strategies",
 "Over-wide hints (extra union members, wrong container kind, Any) pass soundness and are visible only against an independent model over generated data, not in a fixed set of expected strings.",
 [G+"generic_data_type_tree.py",G+"set_and_sequence_operations.py",G+"list_data_type_tree.py",G+"set_data_type_tree.py",G+"tuple_data_type_tree.py",G+"mapping_data_type_tree.py"])
p("C04","Similar dictionaries in a container merge by the documented similarity rule",
 "TypedDicts among the elements of one container become a single TypedDict exactly when the percentage of keys common to all of them reaches the configured threshold and corresponding values have the same type; otherwise each distinct shape keeps its own TypedDict. A merged TypedDict has the union of the keys, and a key is NotRequired exactly when some merged dictionary lacks it.",
 ["inputs","configurations"],"all lists, tuples, sets-like containers of dictionaries with any number of shapes, at any depth, all thresholds 1..100, all element orders",
 "Tests check two or three dictionaries at a few thresholds; the rule quantifies over any number of shapes, boundary percentages, orders and nesting.",
 [G+"set_and_sequence_operations.py",G+"dict_data_type_tree.py"])
p("C05","min_height_to_define_type_alias changes only how types are named",
 "Changing min_height_to_define_type_alias never changes the meaning of the generated type: with aliases expanded the type is the same for every value. Other structures than the root have an alias exactly if they are higher (in levels of containers) than the value, so raising it never produces more aliases; structures that need a class (TypedDict, functions, data frames) and the root stay declared at every value.",
 ["inputs","configurations"],"all data structures, all pairs of min_height values",
 "Tests pin a few heights on one nested sample; the interplay of height with renaming, sharing and merging is only reached by generated structures.",
 [T+"data_type_tree.py",G+"generic_data_type_tree.py","lazy_type_hint/strategies.py"])
p("C06","Each parsing strategy applies at every depth and changes nothing else",
 "Switching list_strategy, tuple_size_strategy, dict_strategy or typed_dict_read_only_values rewrites exactly the corresponding constructor at every depth of the generated type (List/Sequence, fixed/any-size Tuple, TypedDict/Dict/Mapping, ReadOnly on every field) and leaves the rest of the type as it was.",
 ["inputs","configurations"],"all data structures, all pairs of strategy settings",
 "Tests check each strategy on shallow samples in isolation; combinations at depth, inside merged or shared nodes, are not sampled.",
 ["lazy_type_hint/strategies.py",G+"list_data_type_tree.py",G+"tuple_data_type_tree.py",G+"dict_data_type_tree.py",G+"mapping_data_type_tree.py"])
p("C07","Generation is deterministic and independent of history and process",
 "The same data, strategies and class name always give the same text: when to_string is called again or in any order with include_imports on and off, when other data were processed before by the same or other instances, and in another process with another hash seed (for data whose own iteration order is fixed). With include_imports=False the text is the full module without its import statements.",
 ["inputs","histories","configurations"],"all data structures, all sequences of rendering calls, all PYTHONHASHSEED values",
 "Tests run one process and one hash seed, and render each tree once; validation across processes depends on reproducible text.",
 [T+"data_type_tree.py","lazy_type_hint/utils/utils.py",G+"set_and_sequence_operations.py","lazy_type_hint/utils/import_manager.py"])
p("C08","Input data are never modified and Live hands back the same object",
 "Generating hints leaves the given (non-iterator) data, at every depth, equal in value, order and identity to what they were before, also across repeated rendering. LazyTypeHintLive.from_data returns the very object it was given.",
 ["inputs","histories"],"all non-iterator data structures incl. dictionaries merged or truncated during inference, data frames and arrays",
 "No test compares the data before and after; merging and docstring handling work on dictionaries that could alias the caller's.",
 [G+"dict_data_type_tree.py",G+"set_and_sequence_operations.py","lazy_type_hint/generators/lazy_type_hint_live.py"])
p("C09","The element limit inspects exactly the first n elements of each container",
 "With a limit n, the result equals the result for the same data with every limited container (lists, tuples, sets, iterators, series, mappingproxies, and dictionaries when dict_strategy is not TypedDict) cut to its first n elements, at every depth; dictionaries under dict_strategy='TypedDict' keep all their keys. Inspection of an endless iterator terminates, and with the limit set to None every element counts.",
 ["inputs","configurations"],"all data structures, all limits n>=1 and None",
 "One unit test per container with a single n; the off-by-one, depth and interaction cases are not reached.",
 [G+"set_and_sequence_operations.py",G+"dict_data_type_tree.py",G+"mapping_proxy_data_type_tree.py"])
p("C10","TypedDicts reproduce exactly the dictionary's keys, whatever the strings",
 "For every dictionary with string keys - keywords, non-identifiers, quotes, backslashes, newlines, braces, unicode, dunder-prefixed or empty strings - the generated TypedDict, once executed, has exactly the same keys in the same order, and the type of every key is the one of its own value.",
 ["inputs"],"all string keys and sets of keys, at any depth",
 "Tests use a handful of keys; class versus functional syntax, escaping and name clashes depend on the characters of the key.",
 [G+"dict_data_type_tree.py",G+"mapping_data_type_tree.py","lazy_type_hint/utils/utils.py"])
p("C11","Documentation keys become class docstrings with the same text",
 "With key_used_as_doc set, every TypedDict whose dictionary holds a string under that key carries that text as its docstring (words unchanged, in order and in the same paragraphs, a final period at most added, re-wrapped at most), TypedDicts without it carry none, and the types are the same as without the option. Any text - quotes, backslashes, newlines, unicode - leaves the module valid.",
 ["inputs","configurations"],"all documentation strings, all dictionaries at any depth",
 "Tests use two or three tidy sentences; escaping and wrapping depend on text nobody sampled.",
 [G+"dict_data_type_tree.py","lazy_type_hint/utils/docstring_formatter.py"])
p("C12","YAML comments never change the hints beyond docstrings",
 "from_yaml_file yields the same types as from_data on the loaded content, for every YAML file and every comments_are setting, comments in odd places included; only docstrings may differ. It never fails on a file the loader accepts, never modifies that file, and leaves no temporary file behind.",
 ["inputs","configurations"],"all loadable YAML documents with comments anywhere, all accepted comments_are settings",
 "Tests run tidy files; the rewriting of lines with comments is textual and meets quotes, block scalars, flow style and sequences it was never tried on.",
 ["lazy_type_hint/file_modifiers/yaml_file_modifier.py","lazy_type_hint/generators/lazy_type_hint_abc.py",G+"dict_data_type_tree.py"])
p("C13","Each YAML comment documents the key it belongs to",
 "For block-style YAML files made of nested mappings and lists (keys that are identifiers, plain or in quotes, spaces for indentation, scalars on one line or block strings, block comments aligned with and touching their key), each comment in a requested position (above, below, side) appears, with its words, as the docstring of exactly the key it is attached to, comments in positions not requested appear nowhere, and keys without comment get none. If several positions apply, their texts appear in the requested order.",
 ["inputs","configurations"],"all block-style YAML documents with aligned comments, every comments_are setting",
 "The attachment rule is checked on a few hand-written files; indentation, list items, repeated keys and neighbouring comments combine in ways tests do not sample.",
 ["lazy_type_hint/file_modifiers/yaml_file_modifier.py",G+"dict_data_type_tree.py"])
p("C14","Configuration and class names are validated exactly",
 "ParsingStrategies accepts exactly the documented values (literal options, min height >= 0, similarity 1..100, element limit >= 1 or None) and raises ValueError for everything else of the right type. A class name is accepted exactly when Python can declare a class with that name; otherwise a library error is raised and nothing is written. Strategies cannot be changed after construction.",
 ["inputs","configurations"],"all strings as class names and option values, all integers as numeric options",
 "Tests try a few bad values per option; boundaries, keywords and unusual unicode need generation.",
 ["lazy_type_hint/strategies.py","lazy_type_hint/utils/utils.py","lazy_type_hint/generators/lazy_type_hint_abc.py","lazy_type_hint/generators/lazy_type_hint_live.py"])
p("C15","The live registry reflects exactly the classes created since the last reset",
 "After any sequence of from_data, from_yaml_file and reset calls by any number of instances (including ones constructed earlier, as if in other sessions), the build folder holds exactly one module per class created since the last reset, with the hints of the latest accepted data for that class, and classes_created in the interface file lists exactly those classes. reset removes every generated file and later calls keep working.",
 ["histories","inputs"],"all sequences of live calls over several instances, class names and data",
 "Tests exercise one instance with one or two calls after a reset; state held in instances and on disk can diverge only over longer histories.",
 ["lazy_type_hint/generators/lazy_type_hint_live.py","lazy_type_hint/file_modifiers/py_file_modifier.py"])
p("C16","validate accepts exactly matching hints and a rejection changes nothing",
 "With if_type_hint_exists='validate', data for an existing class are accepted exactly when their generated hints equal the stored ones apart from docstrings, and rejected with LazyTypeHintLiveError otherwise; for a new class they are always accepted. A rejected call leaves every generated file as it was; with 'overwrite' nothing is rejected and the stored hints become the new ones.",
 ["histories","inputs","configurations"],"all pairs and sequences of data for one class name, docstrings included, both modes, several instances",
 "Tests validate one equal and one different sample; docstring stripping and state across instances are not sampled.",
 ["lazy_type_hint/generators/lazy_type_hint_live.py"])
p("C17","The live interface file resolves every class name to its own class",
 "After any history the generated .pyi file is valid Python in which calls of from_data and from_yaml_file with a literal class_name of a created class resolve to that class (imported from its own build module), each class having exactly one such overload per method, and any other name falls to the original signatures, which keep their parameters. This includes classes named like something the interface file itself uses (Any, Path, from_data...).",
 ["histories","inputs"],"all histories of class creation, including names that are prefixes of one another or resemble names in the interface file",
 "Tests check the file after one or two creations with plain names; the file is edited textually so names and order matter.",
 ["lazy_type_hint/generators/lazy_type_hint_live.py","lazy_type_hint/file_modifiers/py_file_modifier.py"])
p("C18","to_file writes exactly the rendered module or nothing",
 "to_file writes a file which, read back as Python source, is exactly to_string(), for every data, doc text and target path, replacing any previous content. A missing directory is created (with parents) only if create_non_existing_dir is set, otherwise ValueError is raised and nothing is created.",
 ["inputs","histories","configurations"],"all data (non-ASCII keys and docs included), all existing or missing target paths, any sequence of writes",
 "One test writes one ASCII file to an existing or missing folder; encodings, overwriting and nested paths are not sampled.",
 ["lazy_type_hint/generators/lazy_type_hint.py"])
p("C19","Data frame and series hints describe exactly the data's columns and elements",
 "The class generated for a DataFrame offers, for each column (each first-level label of a MultiIndex), one literal overload of __getitem__ returning the type of that column, recursively for nested levels, and nothing for other columns; 'Full type hint' restricts other access to those literals, 'autocomplete' allows any, and 'Do not type hint columns' yields plain pd.DataFrame. A Series is hinted by the types of its elements. Frames that repeat a label, or have labels of other types, still give a valid module (a label given to several columns may be hinted by any DataFrame type).",
 ["inputs","configurations"],"all frames with unique str/int/bool columns or MultiIndex columns of up to several levels, all dtypes of built-in elements, all pandas strategies, frames nested in other structures",
 "Tests use a dozen fixed frames; column names, level structures and element types vary freely.",
 [G+"pandas_data_frame_data_type_tree.py",G+"pandas_series_data_type_tree.py"])
p("C20","Callable hints reproduce the signature",
 "A function, method, builtin, static or class method given as data is hinted by a Protocol whose __call__ has the same parameters in order, kind, name, default presence and annotation and the same return annotation; without return annotation the return is None exactly when the source is available and the function has no return or yield of its own (nested functions do not count) and is not asynchronous, and Any otherwise. Lambdas become Callable with one Any per parameter; callables that cannot be inspected become plain Callable. (Parameter names starting with two underscores, which class bodies mangle, are outside the guarantee.)",
 ["inputs","programs"],"all functions with generated parameter lists over all parameter kinds, annotations and defaults; nested in containers",
 "Tests use about ten fixed functions; signatures with mixed kinds, generic annotations and defaults are not sampled.",
 [T+"simple_data_type_tree/function_data_type_tree.py","lazy_type_hint/utils/import_manager.py"])
p("C21","An independent type checker accepts the generated module and the data",
 "For every data literal, mypy reports no error in the generated module, accepts assigning that literal to a variable of the generated type, and rejects the same literal with an element of a type that does not occur in it, with a key more or less in a TypedDict, or with another number of slots in a fixed tuple (as far as mypy can infer literals against the type: no unions of several structures, no Any or object).",
 ["inputs","configurations"],"all nested literals of built-in types, strategies that mypy supports",
 "The repository's own mypy tests need poetry and a network, and cover fixed samples only.",
 [T+"data_type_tree.py",G+"dict_data_type_tree.py",G+"generic_data_type_tree.py"])
p("C22","Element order, repetition and dictionary order do not affect the type",
 "Permuting or repeating the elements of lists, any-size tuples and iterators, or the items of dictionaries, at any depth, leaves the meaning of the generated type unchanged (field order apart); building the same data again from fresh objects leaves it unchanged too.",
 ["inputs","configurations"],"all data structures and all permutations/duplications of their elements",
 "A metamorphic relation over pairs of inputs; tests contain no such pairs.",
 [G+"set_and_sequence_operations.py",G+"dict_data_type_tree.py",G+"generic_data_type_tree.py"])
p("C23","Equal structures share one alias; different structures never do",
 "Among the values of one dictionary or the elements of one container, structures that are equal from a type point of view are represented by a single type alias or TypedDict, and structures whose types differ (in container kind, element types, keys, requiredness, array dtype or class) are never represented by the same one. With min_height_to_define_type_alias=0 every structure has such a name.",
 ["inputs","configurations"],"all data structures with several equal or nearly equal children",
 "Sharing is decided by hashes of subtrees; tests compare a few pairs while near-misses are unbounded.",
 [T+"data_type_tree.py",G+"mapping_data_type_tree.py",G+"set_and_sequence_operations.py"])
p("C24","Leaf objects are hinted by their own type",
 "Scalars, None, ranges, slices, bytes, class objects, instances of user classes, enums, modules, open files and numpy arrays are each hinted, at the root and inside any container, by their own type: built-in types by name, user types by a quoted forward reference to the class, class objects as Type[...] of themselves, modules as ModuleType, files as TextIO, arrays as NDArray of exactly their dtype. (User classes that share their name with a built-in class or an imported name are outside the guarantee.)",
 ["inputs"],"all leaf objects of the supported kinds, all numpy dtypes, at any position",
 "Tests have one or two objects per kind; dtypes and mixtures of different classes in one container are not sampled.",
 [T+"simple_data_type_tree/"+f for f in ("instance_data_type_tree.py","type_data_type_tree.py","module_data_type_tree.py","io_data_type_tree.py","numpy_data_type_tree.py","simple_data_type_tree.py")])
p("C25","Interruptions and concurrent calls never corrupt the live files",
 "If a process that runs LazyTypeHintLive.from_data or reset ends at any point (also in the middle of writing a file), or another process runs a whole such operation in between, then the interface file is absent or a valid module, every class it lists has a complete module and overload that resolve to that class; when threads of one process do so at the same time, no class is lost either. Later calls by new instances succeed and give complete files: the interrupted class comes out right when asked for again, and the classes generated before keep their hints. What two processes add to the interface at the same time is never mixed up, and an entry that gets lost reappears when the class is asked for again.",
 ["crash_points","schedules","histories"],"every file-system state that an operation passes through in generated histories of from_data and reset (with the file being written cut in half as well), every place at which another process may run a whole operation, and operations of several threads",
 "No test interrupts a call or runs two processes; the states between two writes are only visible from outside.",
 [L])
p("C26","Interrupted, nested, simultaneous and failing calls do not affect one another",
 "A generator that was interrupted by an exception at any line of a call gives in its next call the same hints as a new generator. Calls made while another call is in progress (from within the data's own iteration, or in other threads, also ones that render the same tree) give the results of isolated calls. Interrupted calls do not change the data, an error that the loader given to from_yaml_file raises for the file itself reaches the caller, and no temporary file is left behind.",
 ["fault_sequences","schedules"],"generated data, generated lines at which the call is interrupted, nested and threaded calls on other data, loaders that fail at any of their calls",
 "Tests run single, complete calls in one thread; caches, registries and temporary files only show when calls overlap or fail.",
 [U,A,"lazy_type_hint/file_modifiers/yaml_file_modifier.py"])
p("C27","Hints and files do not depend on the environment of the process",
 "The hints of the same data, and the bytes of files written by to_file and LazyTypeHintLive, are the same in processes with other locales (also ASCII), time zones, working directories, optimization level, UTF-8 mode and filters of warnings (also as errors); files are UTF-8, and YAML files with any characters give the same hints and documentation everywhere.",
 ["configurations","inputs"],"generated data and YAML files with non-ASCII text; processes with the ASCII locale, python -O, other working directories and time zones",
 "The test suite runs in one environment, with the locale of the machine.",
 [L,A,"lazy_type_hint/generators/lazy_type_hint.py","lazy_type_hint/file_modifiers/yaml_file_modifier.py"])
p("C28","The effort of hinting grows moderately with depth and number of elements",
 "Data nested twice as deep, or containers with twice as many distinct elements, keys, rows or columns, need a polynomially bounded multiple of the work (no doubling per level): from_data and to_string of a few dozen levels of lists and dictionaries, also of ones that merge, end promptly.",
 ["inputs","configurations"],"generated nesting patterns repeated n and 2n times, containers of n and 2n distinct elements",
 "Tests use data of two or three levels, where exponential growth does not show.",
 [L,"lazy_type_hint/data_type_tree/data_type_tree.py","lazy_type_hint/data_type_tree/generic_type/set_and_sequence_operations.py","lazy_type_hint/data_type_tree/generic_type/dict_data_type_tree.py"])
M={
"C01":[("name assignment and alias emission order","data_type_tree/data_type_tree.py:_get_strs_all_nodes_unformatted"),("ImportManager.add/format","utils/import_manager.py")],
"C02":[("children collection per container","generic_type/set_and_sequence_operations.py:instantiate_children"),("sharing equal children","generic_type/mapping_data_type_tree.py:_assign_same_data_type_tree_to_keys_with_same_value_type")],
"C03":[("union building and int/float absorption","generic_type/generic_data_type_tree.py:_get_types")],
"C04":[("_merge_similar_typed_dicts","generic_type/set_and_sequence_operations.py"),("DictMetadata.compare_multiple_dicts/update","generic_type/dict_data_type_tree.py")],
"C05":[("permission_to_be_created_as_type_alias","data_type_tree/data_type_tree.py and overrides")],
"C06":[("strategies object passed to every node","data_type_tree/factory.py"),("_get_str_top_node of each container","generic_type/*.py")],
"C07":[("per-instance caches","utils/utils.py:cache_returned_value_per_instance"),("ordering of children and imports","set_and_sequence_operations.py, import_manager.py")],
"C08":[("copies made by DictMetadata and merging","generic_type/dict_data_type_tree.py"),("from_data returns data","generators/lazy_type_hint_live.py")],
"C09":[("islice / index limits","set_and_sequence_operations.py, dict_data_type_tree.py, mapping_proxy_data_type_tree.py")],
"C10":[("class vs functional syntax choice and rendering","generic_type/dict_data_type_tree.py:_build_typed_dict"),("child naming","mapping_data_type_tree.py:_to_camel_case")],
"C11":[("_insert_class_docstring","dict_data_type_tree.py"),("format_string_as_docstring","utils/docstring_formatter.py")],
"C12":[("create_temporary_file_with_comments_as_keys and fallback","yaml_file_modifier.py, lazy_type_hint_abc.py"),("hidden keys skipped","mapping_data_type_tree.py")],
"C13":[("comment extraction and merging","yaml_file_modifier.py:_extract_comments"),("get_key_docstrings","dict_data_type_tree.py")],
"C14":[("ParsingStrategies.__post_init__","strategies.py"),("is_string_python_keyword_compatible","utils/utils.py")],
"C15":[("_create_custom_class_py, _add_class_created_to_this_file_pyi, reset","generators/lazy_type_hint_live.py")],
"C16":[("from_data validate branch, _remove_docstrings","generators/lazy_type_hint_live.py")],
"C17":[("_add_overload_to_this_file_pyi, _add_import_to_this_file_pyi","generators/lazy_type_hint_live.py"),("PyFileModifier searches","file_modifiers/py_file_modifier.py")],
"C18":[("Tree.to_file","generators/lazy_type_hint.py")],
"C19":[("_instantiate_children, templates","generic_type/pandas_data_frame_data_type_tree.py")],
"C20":[("_get_protocol_str, _get_lambda_str, _has_return","simple_data_type_tree/function_data_type_tree.py")],
"C21":[("whole rendering pipeline","data_type_tree/")],
"C22":[("set-like children collection and merging","set_and_sequence_operations.py")],
"C23":[("__hash__/__eq__ and _get_hash","data_type_tree/*"),("names_added / children_info sharing","set_and_sequence_operations.py, mapping_data_type_tree.py")],
"C24":[("_get_str_top_node of each leaf tree","simple_data_type_tree/*.py"),("get_subclass dispatch","data_type_tree/data_type_tree.py")],
"C25":[("_write_file: temporary file and replace","generators/lazy_type_hint_live.py"),("reset, _update_this_file_pyi","generators/lazy_type_hint_live.py")],
"C26":[("caches per instance","utils/utils.py:cache_returned_value_per_instance"),("fallback of from_yaml_file","generators/lazy_type_hint_abc.py"),("temporary file with comments as keys","yaml_file_modifier.py")],
"C28":[("_merge_similar_typed_dicts, from_multiple_dict_data_type_trees","generic_type/set_and_sequence_operations.py, dict_data_type_tree.py"),("hashes of trees","data_type_tree/data_type_tree.py:__hash__")],
"C27":[("encodings given to open","generators/lazy_type_hint.py, generators/lazy_type_hint_live.py, yaml_file_modifier.py")],
}
for x in P: x["anchors"]["mechanism"]=[dict(name=a,where="lazy_type_hint/.../"+b if "/" in b else b) for a,b in M[x["id"]]]
with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
