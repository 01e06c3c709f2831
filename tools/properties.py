"""The properties, written out to properties.jsonl (python3 tools/properties.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mechanism]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    P.append({"id": pid, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})


JOBS = "crates/oxvg_optimiser/src/jobs/mod.rs"

prop("T01", "Every edit of the document tree leaves all links consistent",
     "After any insertion, removal, move, replacement, flattening, renaming, sorting or filtering of nodes, the tree is well-formed: "
     "next and previous siblings mirror each other, siblings share their parent, and a parent's first and last child are the ends of its "
     "child list. The edited node stands exactly where the operation says, it is no longer reachable from its old place, and every other "
     "node keeps its place and order.",
     ["inputs", "histories"],
     "every well-formed tree and every choice of nodes for an edit, including nodes that are first, last, only, detached, or already children of the same or another parent",
     "A broken link shows only for particular neighbourhoods (only child, adjacent siblings, node moved within its parent) and usually much later, when another pass walks the stale link; the tests use a handful of documents.",
     ["crates/oxvg_ast/src/node.rs", "crates/oxvg_ast/src/element.rs", "crates/oxvg_ast/src/parse/roxmltree.rs"],
     [("node link edits", "crates/oxvg_ast/src/node.rs: append_child, insert_before, insert_after, remove, replace_child, retain_children, empty"),
      ("element edits", "crates/oxvg_ast/src/element.rs: prepend, append, before, after, replace_with, replace_children, flatten, set_local_name, sort_child_elements")],
     [("links", "parent, next and previous sibling, first and last child of each node", "crates/oxvg_ast/src/node.rs: Node")],
     ["child iteration in both directions after any edit", "serialised document"])

prop("J01", "Configured jobs each run once, in order, and fatal errors stop the run",
     "A run starts every configured job exactly once and no other job, on the document and information it was given. Jobs follow the documented order: "
     "the precheck comes before anything is changed, transforms are applied before path data is converted, ids are cleaned up before they are prefixed, and "
     "xlink removal comes last. A job's failure ends the run at once and is returned, except a failure to compute styles, after which the remaining jobs still run.",
     ["configurations", "fault_sequences"],
     "every set of configured jobs and every outcome of each of them",
     "There are far more subsets of 55 jobs with outcomes than tests; each job's tests run that job alone.",
     [JOBS, "crates/oxvg_optimiser/src/error.rs"],
     [("job runner", JOBS + ": jobs! macro, Jobs::run"), ("fatal errors", "crates/oxvg_optimiser/src/error.rs: JobsError::is_important")],
     observe=["result of a run", "document after a run"])

prop("J02", "Presets, extension and omission select exactly the configured jobs",
     "The jobs that run are those of the chosen preset, replaced job by job with the ones the configuration gives, minus the ones it omits by name; without a preset they are the ones "
     "given minus the omitted. The empty preset has no jobs, and the safe preset is the default preset plus the precheck, each job with its default options. "
     "On the command line a configuration file given wins over a preset given, which wins over the configuration found, and without any the default jobs run.",
     ["configurations"],
     "every combination of preset, configured jobs, omitted names and command line options",
     "Each job has its own slot in every one of these operations; the tests look at a few slots of one configuration.",
     [JOBS, "crates/oxvg_optimiser/src/lib.rs", "crates/oxvg/src/config.rs", "crates/oxvg/src/commands/optimise.rs"],
     [("presets", JOBS + ": Jobs::none, default, safe"), ("extension and omission", JOBS + ": Jobs::extend, Jobs::omit"),
      ("resolution", "crates/oxvg/src/config.rs: Optimise::resolve_jobs"), ("command line", "crates/oxvg/src/commands/optimise.rs: handle_config")],
     observe=["the jobs handed to the runner"])

prop("J03", "SVGO plugin lists switch on exactly the jobs they name",
     "Converting a list of SVGO plugins switches on the job each entry names, with its default options or with the parameters given, and no other; a name that is no job is an error. "
     "The entry preset-default switches on exactly the default jobs, and each parameter of convertPathData sets the option it corresponds to and no other. "
     "The JSON and the Node conversion agree on this.",
     ["configurations", "inputs"],
     "every list of plugin names and objects, in any order, from JSON or from Node",
     "The conversion repeats one mapping for 55 names in three places; the tests convert one or two lists.",
     [JOBS],
     [("JSON conversion", JOBS + ": from_svgo_plugin_config"), ("Node conversion", JOBS + ": napi_from_svgo_plugin_config"),
      ("names", JOBS + ": set_svgo_plugin_string")],
     observe=["the converted configuration"])

CLI = "crates/oxvg/src/"
CMDS = [CLI + "walk.rs", CLI + "commands/optimise.rs", CLI + "commands/format.rs", CLI + "commands/action.rs", CLI + "commands/jsx.rs", CLI + "commands/lint.rs"]

prop("C01", "A command line run fails exactly when some document failed",
     "A run of a command over documents ends with a failing exit status when any document or directory entry could not be read, parsed, processed, serialised or written, "
     "and with success otherwise. One failing document does not keep the others from being handled, and a later success does not hide an earlier failure.",
     ["inputs", "fault_sequences", "schedules"],
     "every set of documents, every operation on them that can fail, in any order and on any thread",
     "Failures happen on worker threads inside nested closures and are carried over by a shared flag; the tests do not run the commands.",
     CMDS + [CLI + "main.rs"],
     [("per-document closures", CLI + "commands: RunCommand::run of each command"), ("walker", CLI + "walk.rs: Walk::run, handle_path, handle_stdin"), ("entry", CLI + "main.rs: main")],
     observe=["exit status of the program"])

prop("C02", "Commands write only the file asked for, and only a finished document",
     "The optimise, format and action commands print the result and write no file unless an output is asked for; the output option without a value means the input itself, and with a value the "
     "given path, below which a document of a walked directory keeps its relative place. The JSX command never overwrites the input document. "
     "An existing file is not replaced before its document has been parsed, processed and serialised without failure.",
     ["inputs", "configurations", "fault_sequences"],
     "every document, every form of the output option, input from a file, a directory or standard input, and every failure on the way",
     "A wrong destination or an early truncation destroys the user's files only for one form of the option or one kind of failure; the tests do not run the commands.",
     CMDS,
     [("writing", CLI + "walk.rs: Output::output"), ("destination", CLI + "walk.rs: handle_path, handle_stdin"), ("JSX writing", CLI + "commands/jsx.rs: RunCommand::run")],
     observe=["files after a run", "standard output"])

prop("C03", "Commands process exactly the SVG files the paths and options select",
     "Every path given on the command line is walked. Of a walked directory each readable file with the extension svg is processed once, with its own path and content, and nothing else is: "
     "subdirectories only with the recursive option, hidden files only with the hidden option and ignored files only with the no-ignore option.",
     ["inputs", "configurations"],
     "every set of paths, directory contents and walk options",
     "What is left out or taken in by mistake depends on the options and on kinds of entries; the tests do not walk directories.",
     [CLI + "walk.rs"],
     [("walker", CLI + "walk.rs: Walk::run, handle_path")],
     observe=["the documents a command handles"])


AST = "crates/oxvg_ast/src/"

prop("S01", "Attribute values and text are escaped for where they are written",
     "Whatever the content, a reader of the written document gets back the same attribute values and text: in text the characters & and < and in attribute values also the quote in use are "
     "written as references to themselves, and nothing else is lost, repeated or changed by escaping.",
     ["inputs", "configurations"],
     "every attribute value and text, with every mixture and position of special characters, for either kind of quotes",
     "Escaping is decided per character, per place and per option in code that tracks positions; the tests write a few harmless documents.",
     [AST + "xmlwriter.rs"],
     [("escaping writer", AST + "xmlwriter.rs: FmtWriter::write_escaped, impl fmt::Write for FmtWriter"), ("places", AST + "xmlwriter.rs: XmlWriter::write_attribute_raw, write_text, write_text_fmt")],
     observe=["the serialised document"])

prop("S02", "Every node is written once, in order, as well-formed XML",
     "Serialising writes every element, attribute, text, comment, processing instruction and stylesheet of the tree exactly once, in document order, "
     "each inside the start and end tags of the element it belongs to. Start tags are closed before content, end tags carry the name of the element they close and every element is ended, whatever the writer's options.",
     ["inputs", "programs", "configurations"],
     "every tree (all kinds of nodes in all orders and nestings) and every combination of options",
     "Whether a tag is closed depends on the operation before and on options; tests exercise a handful of the sequences.",
     [AST + "xmlwriter.rs", AST + "serialize.rs"],
     [("writer state", AST + "xmlwriter.rs: XmlWriter::start_element, write_attribute_raw, write_comment, write_declaration, before_write_text, end_element, end_document"), ("tree walk", AST + "serialize.rs: serialize_node")],
     observe=["the serialised document"])

prop("S03", "White space in text is kept or collapsed as xml:space asks",
     "Text under xml:space=preserve keeps every character (line breaks and tabs may become spaces); other text may only have each run of blanks made a single space, and the space between a text and its siblings is kept. "
     "Only space, tab, line feed and carriage return count as blank, never other characters such as no-break spaces. An element's xml:space holds for its content and ends with it.",
     ["inputs", "configurations"],
     "every text, its place among its siblings, the nesting of xml:space and the white space option",
     "Lost separators depend on the neighbours of a text, on nesting and on unusual characters; the tests cover a few fixed documents.",
     [AST + "xmlwriter.rs", AST + "serialize.rs"],
     [("text", AST + "xmlwriter.rs: XmlWriter::write_text"), ("xml:space", AST + "xmlwriter.rs: XmlWriter::write_attribute, start_element, end_element"), ("edges of a parent", AST + "serialize.rs: serialize_node")],
     observe=["the serialised document"])

PARSE = "crates/oxvg_parse/src/"

prop("P01", "Reading a value consumes exactly what it recognises",
     "While an attribute value or style value is read, the reading position always stays on a character boundary inside the value and moves only over what was recognised. "
     "A failed attempt puts the position back, what is reported as read is the text passed over, and an expected character or string is accepted only when it is there. "
     "The value may hold any characters, including several-byte ones and values that end early.",
     ["inputs"],
     "every attribute and style value, every position in it and every operation of the scanner",
     "Misplaced positions need several-byte characters, values that end in the middle of a word or attempts failing halfway; the unit tests use short ASCII values.",
     [PARSE + "lib.rs", PARSE + "types/number.rs", "crates/oxvg_collections/src/attribute/animation.rs"],
     [("scanner", PARSE + "lib.rs: Parser"), ("backtracking", PARSE + "lib.rs: Parser::try_parse"), ("own positions", "crates/oxvg_collections/src/attribute/animation.rs: callers of rewind and set_cursor")],
     observe=["parsed values", "parse errors and panics"])

prop("P02", "Parsing keeps every node, attribute and namespace of the source",
     "Every element, text, comment and processing instruction of the source becomes one node with the same content, in the same place and order, also outside the root element; attributes keep their names and values (the content of a style sheet that can be read may be held as rules). "
     "A namespace declaration is kept and holds for its element's name and attributes and for what is inside, not for what follows, and is left out only when it repeats what is in force or is empty. "
     "A document nested too deeply is refused instead of exhausting the stack.",
     ["inputs"],
     "every well-formed document: kinds, order and nesting of nodes, and placing of namespace declarations",
     "Losses depend on the combination of siblings, nesting and redeclared prefixes; the fixtures of the tests declare namespaces on the root element only.",
     ["crates/oxvg_ast/src/parse/roxmltree.rs"],
     [("tree builder", "crates/oxvg_ast/src/parse/roxmltree.rs: parse_xml_node"), ("namespaces", "crates/oxvg_ast/src/parse/roxmltree.rs: find_new_xmlns, NamespaceMap"), ("links", "crates/oxvg_ast/src/parse/roxmltree.rs: attach_child")],
     observe=["the parsed document", "its serialisation"])

VIS = "crates/oxvg_ast/src/visitor.rs"

prop("T02", "A visitor is shown every node once, in order, and with its context",
     "Walking a document enters each element, then walks its children, then leaves it; every child is given once to the callback of its kind, also when children already visited are taken out. "
     "Asking to skip children holds for that element only, the mark for foreign content holds exactly inside the outermost foreignObject, and a failing callback ends the walk with its error; a preparation that says skip prevents the walk. "
     "Searching through descendants gives every descendant element once, level by level.",
     ["inputs", "programs"],
     "every document, every visitor and every combination of skipping, failing and removing",
     "A lost subtree or a flag that leaks to a sibling shows only for particular nestings and visitors; the tests run single jobs on small documents.",
     [VIS, "crates/oxvg_ast/src/node.rs", "crates/oxvg_ast/src/element.rs"],
     [("walk", VIS + ": Visitor::visit, visit_children, start_with_context"), ("children", "crates/oxvg_ast/src/node.rs: ChildNodes"), ("descendants", "crates/oxvg_ast/src/element.rs: Iterator")],
     observe=["callbacks of the visitor"])


prop("J04", "A job switched off does nothing, and an option left out means its default",
     "An optimisation job that is a plain switch leaves the document as it is when the switch is off, and is not skipped when it is on. A job configured with some of its options left out treats each of those options as the job's default does.",
     ["configurations", "inputs"], "every switchable job with its switch on and off on every document; every job's options with any optional one left out",
     "There are 25 switches and some 90 options; the tests give a job in its on state with the options under test, and never run one switched off or compare what a left-out option means with the default job.",
     ["crates/oxvg_optimiser/src/jobs"],
     [("preparation of each job", "crates/oxvg_optimiser/src/jobs: the prepare function of each job"), ("defaults of options when reading a configuration", "crates/oxvg_optimiser/src/jobs: serde default attributes and Default implementations")],
     observe=["the optimised document"])


prop("J05", "A job that takes things out takes out exactly what it is for",
     "Titles, metadata, style elements, document types, xml declarations, empty text, empty containers, raster images, standard descriptions and listed elements are removed by their job exactly when they are that, the job's options allow it and no exception it names applies; comments that match a pattern to be kept stay, by default those that begin with an exclamation mark. "
     "Removing scripts takes out every script element, every event attribute and every link that runs a script; removing empty attributes keeps those for conditional processing; removing the dimensions or the view box happens only when the other still tells the size. "
     "None of these jobs changes anything else.",
     ["inputs", "configurations"], "every document and every setting of the options of these jobs",
     "Each job has one or two examples in the tests; an element kept or lost under a combination of kind, option, attribute and place shows only on that combination.",
     ["crates/oxvg_optimiser/src/jobs"],
     [("removal", "crates/oxvg_optimiser/src/jobs/remove_*.rs: the callbacks of each job")],
     observe=["the optimised document"])


LINT = "crates/oxvg_lint/src/"

prop("X01", "The same input and options always give the same result",
     "Reading, optimising, formatting or linting a document, or turning it into a component, gives the same text and the same problems in the same order whenever it is repeated with the same document and options. "
     "This holds in the same or another process, whatever was processed before and however the work is spread over threads.",
     ["inputs", "configurations", "schedules", "histories"],
     "every document and option; every order of hash containers, every interleaving of parallel work and every history of documents processed before",
     "Hash order and thread interleaving differ between runs, so a test that passes once says nothing about the next run; state kept between documents needs particular sequences of documents to show.",
     ["crates/oxvg_optimiser/src", LINT + "rules", "crates/oxvg_jsx/src", "crates/oxvg_ast/src", "crates/oxvg_actions/src", "crates/oxvg_collections/src"],
     [("hash containers", "crates/oxvg_optimiser/src/jobs, crates/oxvg_jsx/src, crates/oxvg_lint/src/rules: iteration over HashMap and HashSet"), ("parallel reports", LINT + "rules: par_extend"), ("process-wide tables", "crates/oxvg_optimiser/src/utils/regex_memo.rs")],
     observe=["the optimised document", "the order of problems", "the text of components"])

prop("L01", "Each lint rule reports exactly what it is for, with its severity",
     "Unknown elements and attributes, invalid and deprecated and default attribute values, xlink attributes, unused identifiers and unused namespace declarations are each reported exactly when they are that and their rule is on, with that rule's severity, naming what they are about and pointing at it. "
     "An identifier counts as used when an attribute or style sheet of the document refers to it, and none is reported when the document has a script; a namespace counts as used when an element or attribute inside uses its prefix. A rule that is off reports nothing.",
     ["inputs", "configurations"],
     "every document and every setting of the eight rules",
     "The tests lint a handful of documents with single rules; a report lost or added for a kind of attribute, prefix or nesting shows only for that kind.",
     [LINT + "rules"],
     [("rules", LINT + "rules/mod.rs: the callbacks of the linter"), ("conditions", LINT + "rules/no_*.rs")],
     observe=["the problems reported"])

prop("L02", "Every lint problem is shown and counted, and decides success",
     "Linting a text prints every problem found and fails exactly when there is one, giving the numbers of errors and of warnings; a text that cannot be parsed or a report that cannot be written is told as such. "
     "The lint command fails exactly when a document has problems of at least the level asked for or could not be linted, and uses the recommended rules when the configuration names none. "
     "The language server shows every problem with the matching severity and place, and clears them when a changed text has none.",
     ["inputs", "configurations", "histories"],
     "every text, result of linting, level and sequence of documents or edits",
     "Results, levels and severities combine to dozens of cases, and the command and the language server have no tests at all.",
     [LINT + "parse.rs", LINT + "error.rs", "crates/oxvg/src/commands/lint.rs", "crates/oxvg/src/commands/lint/lsp.rs"],
     [("counting", LINT + "parse.rs: lint_internal"), ("report", LINT + "error.rs: Display for Report"), ("level", "crates/oxvg/src/commands/lint.rs: Check::walk"), ("diagnostics", "crates/oxvg/src/commands/lint/lsp.rs: error_to_diagnostic, Backend")],
     observe=["printed report", "exit status", "published diagnostics"])


PATH = "crates/oxvg_path/src/"

prop("D01", "Path data is read and written without changing a command",
     "Reading path data gives one command per letter, or per repetition of arguments without one, of the kind the letter stands for and with its numbers and flags in the order given; reading stops at the first thing that is no command, keeping what came before, and always ends. "
     "Writing path data gives the letter and arguments of every command in order, leaving a letter out only where a reader repeats the same kind, and keeps numbers apart and unshortened in value, so that reading it again gives the same commands.",
     ["inputs", "programs"],
     "every path attribute and every list of commands with any numbers",
     "Which separators may be dropped depends on pairs of neighbouring numbers and commands, hundreds of combinations of which the tests have a few; reading that never ends shows only for text after a close command.",
     [PATH + "parser.rs", PATH + "format.rs", PATH + "paths/svg/command.rs", "crates/oxvg_collections/src/attribute/path.rs"],
     [("reader", PATH + "parser.rs: parse_extend, Data::parse"), ("writer", PATH + "format.rs: format"), ("tables of commands", PATH + "paths/svg/command.rs")],
     observe=["parsed commands", "written path data"])

ACT = "crates/oxvg_actions/src/"

prop("A01", "An action does what its name says to every selected element",
     "Each action named on the command line is carried out with the words that follow it, in order, keeping the order of the actions; a missing word, a word too many or an unknown name is refused. "
     "An action that changes elements changes every selected element that accepts the change, once, and no other element: the attribute, class or style is the one named, and a transformation is added after those present with the numbers given, a left-out number having its documented value.",
     ["inputs", "programs"],
     "every list of actions with any arguments and every selection",
     "The tests run each action once with all arguments on the root element; left-out arguments, several selected elements, elements that do not accept a change and the reading of the command line are not tested.",
     ["crates/oxvg/src/commands/action.rs", ACT + "actions.rs", ACT + "actions/manipulate.rs", ACT + "actions/transform.rs", ACT + "actions/manipulate/path.rs"],
     [("command line", "crates/oxvg/src/commands/action.rs: parse"), ("actions", ACT + "actions.rs: dispatch"), ("transformations", ACT + "actions/transform.rs: append_transform")],
     observe=["the document after the actions"])

prop("A02", "The history is the list of actions that were run",
     "Every action that is run is recorded once, as it was given, and reading the history gives the same actions with the same arguments, left-out ones still left out. Handing actions to and from JavaScript keeps their kind and arguments.",
     ["inputs", "histories"],
     "every list of actions with any arguments",
     "Recording and reading are two separate lists of cases for each kind of action; the tests read back a part of the kinds, always with all arguments.",
     [ACT + "state.rs", ACT + "actions.rs", ACT + "actions"],
     [("recording", ACT + "state.rs: embed"), ("reading", ACT + "state.rs: from_state"), ("binding", ACT + "state.rs: to_napi, from_napi")],
     observe=["derived state", "history element"])

prop("A03", "The document keeps history and selection until they are forgotten",
     "After any sequence of actions the document's last element is one state holding the history and the current selection, with its prefix declared, and a later run finds both again. "
     "Selecting replaces the selection, selecting more adds to it, deselecting leaves none, and forgetting removes the state and its prefix from the document.",
     ["histories", "inputs"],
     "every sequence of actions on a document with or without a state",
     "Which element holds the selection depends on the actions before; the tests run a selection followed by at most one other action.",
     [ACT + "effects.rs", ACT + "state.rs", ACT + "actions.rs", ACT + "actions/state.rs"],
     [("embedding", ACT + "state.rs: embed, debed"), ("selection", ACT + "effects.rs: effect_selection"), ("forgetting", ACT + "actions/state.rs: forget")],
     observe=["state element of the document after the actions"])

prop("D02", "Path data is only rewritten in ways the path's style and options allow",
     "When a job rewrites the data of a path it leaves out every rewriting that is documented as visible under the path's computed style: with a stroke, closing open subpaths (unless caps and joins are round), uniting and removing closing lines; with a stroke and a line cap, removing zero-length lines; with markers, removing or adding the vertices they are drawn at. "
     "A style that cannot be read, is inherited or only applies under a condition counts as one that may take effect. "
     "A rewriting whose option is off is not carried out, and one that is on is carried out where nothing forbids it.",
     ["inputs", "configurations"], "all documents and all settings of the job: every value of stroke, line cap, line join and the markers, from attributes and stylesheets, applied always or under a condition",
     "The tests have a few paths with a marker or a cap written as plain values. The combinations of eight style properties, each of which can be absent, unreadable, inherited, conditional or one of several values, with nine options are thousands, and a wrong one only shows when the result is drawn.",
     ["crates/oxvg_optimiser/src/utils/style_info.rs", "crates/oxvg_optimiser/src/jobs/convert_path_data.rs", "crates/oxvg_path/src/optimize.rs", "crates/oxvg_path/src/paths/segment/simplify.rs"],
     [("gather_optimize_options", "crates/oxvg_optimiser/src/utils/style_info.rs"), ("ConvertPathData::element", "crates/oxvg_optimiser/src/jobs/convert_path_data.rs"), ("Path::optimize", "crates/oxvg_path/src/optimize.rs"), ("Path::simplify", "crates/oxvg_path/src/paths/segment/simplify.rs")],
     state=[("Options", "the set of rewritings that may be carried out", "crates/oxvg_path/src/optimize.rs")],
     observe=["the path data in the optimised document, drawn with the path's stroke and markers"])

prop("X02", "The style an element is taken to have is the one the cascade gives it",
     "The style that the optimiser takes an element to have comes from the source that takes precedence: important declarations over the style attribute, that over stylesheet rules, those over presentation attributes, and those over what is inherited from the parent, which is found in the same way. "
     "Among rules the more specific one and then the later one applies, each selector of a rule counts on its own, and the last declaration of a property in a style attribute applies. "
     "A style that only applies under a condition is known to be conditional.",
     ["inputs"], "all documents: every combination of sources giving a style to an element or its ancestors, and every order and specificity of rules",
     "The tests look at jobs that read one style from one source. Sources, importance, specificity, order, conditions and ancestors combine freely in documents, and a wrong winner only shows as a job that changes how the image looks.",
     ["crates/oxvg_ast/src/style.rs"],
     [("ComputedStyles::get", "crates/oxvg_ast/src/style.rs"), ("ComputedStyles::with_inherited", "crates/oxvg_ast/src/style.rs"), ("ComputedStyles::with_nested_style", "crates/oxvg_ast/src/style.rs"), ("ComputedStyles::set_declarations", "crates/oxvg_ast/src/style.rs")],
     state=[("ComputedStyles", "the styles of an element by source", "crates/oxvg_ast/src/style.rs")],
     observe=["what jobs that depend on styles do to an element"])

prop("R01", "Optimising keeps the picture",
     "A document optimised with the default jobs looks the same as before, within the precision asked for.",
     ["inputs", "configurations"], "every document and every setting of the default jobs",
     "Whether two documents look alike depends on the geometry, styles and filters of the whole document; the tests compare a few outputs with recorded ones.",
     ["crates/oxvg_optimiser/src/jobs", "crates/oxvg_path/src"],
     [("geometry", "crates/oxvg_path/src/geometry"), ("jobs", "crates/oxvg_optimiser/src/jobs")],
     observe=["the picture drawn from the optimised document"])

prop("R02", "Optimising an optimised document changes nothing more",
     "Running the same jobs again on their own result gives that result.",
     ["inputs", "configurations", "histories"], "every document and configuration, any number of repetitions",
     "Jobs undo or enable each other's work depending on the document; the tests run each job once.",
     ["crates/oxvg_optimiser/src/jobs"],
     [("jobs", "crates/oxvg_optimiser/src/jobs"), ("order of jobs", "crates/oxvg_optimiser/src/jobs/mod.rs")],
     observe=["the optimised document"])

prop("R03", "Shortened path data stays within the tolerance",
     "Rounding, merging and converting the commands of a path moves no point of its outline by more than the tolerance asked for.",
     ["inputs", "configurations"], "every path and every precision",
     "Errors add up over relative commands and depend on the numbers of the path; the tests use a few paths.",
     ["crates/oxvg_path/src/paths/segment", "crates/oxvg_path/src/geometry"],
     [("simplification", "crates/oxvg_path/src/paths/segment/simplify.rs"), ("conversion", "crates/oxvg_path/src/paths/segment/convert.rs")],
     observe=["the written path data"])


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w", encoding="utf-8") as fh:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            fh.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")


main()
