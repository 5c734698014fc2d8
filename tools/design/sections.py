import sys; sys.path[:0]=['/verif']; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages'); sys.dont_write_bytecode=True
import importlib, json
REACH = {
'C01': ("the Python compiler and interpreter, plus a walk of the syntax tree for order of use and repeated declarations",
        "names are derived from keys, kinds of containers and neighbours; clashes need three or more of them at once"),
'C02': ("`vlib/conform.py`: recursive membership of the value in the type, knowing nothing about inference",
        "soundness is about every combination of siblings that get merged, shared or absorbed"),
'C03': ("`vlib/model.py`, the reference inference model; equality of types up to names and order",
        "the strict half of C02: a hint that is too wide passes every conformance test"),
'C04': ("the merging rule of the documentation in the model, with exact rational arithmetic",
        "the rule depends on the set of shapes in one container and on thresholds at their boundaries"),
'C05': ("metamorphic: equality of meanings over seven heights, and the height of every alias recomputed from its expansion",
        "the naming decision is taken at each node from the height of its subtree"),
'C06': ("metamorphic rewriting of the constructor in the type; the model where a strategy takes part in comparisons",
        "a strategy must reach every depth through every kind of node"),
'C07': ("byte equality of texts between calls, instances, histories (part `process, similar names`: of classes whose names differ in case) and processes with other hash seeds",
        "state that leaks between calls only shows in sequences; order of sets only in other processes"),
'C08': ("deep snapshots of identity, type, order and content before and after",
        "shared parts and repeated rendering are needed to see mutation or consumption"),
'C09': ("metamorphic: data cut beforehand; endless iterators counted; odd elements placed around the limit",
        "off-by-one in one kind of container, or reading beyond the limit, needs the odd element exactly there"),
'C10': ("the keys of the executed TypedDict",
        "the space of strings, and clashes between sanitised names"),
'C11': ("the docstring of the executed class, by words and paragraphs; each dictionary is recognisable by a key of its own",
        "escapes, wrapping at certain lengths, dictionaries that share one class"),
'C12': ("from_data on the content the loader gives; file bytes and the temporary directory compared",
        "YAML's grammar: any `#` in a place where it is no comment"),
'C13': ("the documented placement rule, computed from the lines the file was written from",
        "keys of the same name in several places, indentation of lists, blocks that touch two keys"),
'C14': ("the documented ranges; `compile('class NAME: pass')`; file snapshots",
        "boundary values and unicode identifiers"),
'C15': ("a model of the registry; the files of plain LazyTypeHint for the latest accepted data",
        "histories of several instances, rejected calls and resets in between"),
'C16': ("equality of the modules given by plain LazyTypeHint, docstrings removed with `ast`",
        "two data with nearly equal hints in a history; both wrong rejections and wrong acceptances"),
'C17': ("overload resolution on the syntax tree of the interface file, names looked up in class, then module",
        "names of classes that clash with each other or with names the file uses"),
'C18': ("a model of the file system, compared byte by byte after every write",
        "sequences over the same targets, missing parents, text beyond ASCII"),
'C19': ("the model, and every overload against the hint `data[label]` gets on its own; the class is run on its data",
        "labels of any type, levels, dtypes, limits and heights together"),
'C20': ("the source of the function, written from a generated description",
        "combinations of kinds of parameter, defaults and annotations"),
'C21': ("mypy on the module, the literal and mutated literals",
        "an oracle that shares nothing with this machinery's own reading of types"),
'C22': ("metamorphic: permuted, repeated and rebuilt data",
        "order dependence needs three or more related siblings"),
'C23': ("declarations walked in parallel with the model's notion of equal structures",
        "equality and hash functions of trees: near-collisions among siblings"),
'C24': ("a table with the expected type of each leaf object",
        "every object in every kind of place, together with its likes"),
'C25': ("every distinct file state at a line boundary (and half-written files) as crash state; forked processes at such lines; threads at the smallest switch interval",
        "crash points and interleavings cannot be sampled by example tests"),
'C26': ("undisturbed calls by fresh generators (part `files`: for two YAML files read at once)",
        "the point of the interruption or of the nested call is a line of the package, drawn at random"),
'C28': ("metamorphic: counted calls at one and two times the size",
        "growth only shows at depths that no example has"),
'C27': ("another process with an ASCII locale, other directory, zone, home and flags, warnings as errors; byte equality",
        "text of all kinds in all places that reach a file"),
}
def text():
    out=[]
    for i in range(1, 1 + len(REACH)):
        m=importlib.import_module(f'checks.c{i:02d}')
        p=[json.loads(l) for l in open('/verif/properties.jsonl')][i-1]
        o,w=REACH[m.ID]
        parts=', '.join(f'`{q.name}` {q.quick}' for q in m.PARTS)
        probes=', '.join(q.name + (f' (known finding {q.finding})' if q.finding else '') for q in getattr(m,'PROBES',[]))
        a='; '.join(getattr(m,'ASSUMPTIONS',[]))
        out.append(f"### {m.ID} {p['title']}\n\n* Generated: {m.RULE}.\n* Oracle: {o}.\n* Cases (quick): {parts}." + (f"\n* Fixed probes: {probes}." if probes else '') + (f"\n* Bounds: {a}." if a else '') + f"\n* Beyond tests: {w}.\n")
    return '\n'.join(out)
