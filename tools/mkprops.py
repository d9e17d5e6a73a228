"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": ["src/mdpo/" + f for f in files],
                  "state": [{"name": n, "meaning": m, "where": w} for n, m, w in (state or [])],
                  "mechanism": [{"name": n, "where": "src/mdpo/" + w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": None}})

p("C01", "Every extracted message is the key used to translate it",
  "For any Markdown document, each message extracted by md2po (its id and its context) is exactly the message looked up by po2md for the same piece of the document: when the PO file gives every extracted message a translation, every extracted message is translated and po2md writes each translation at the place of its message.",
  ["inputs"], "all documents assembled from the block and inline constructs of the default extensions (headers, paragraphs, lists, task lists, quotes, tables, emphasis, code spans, links, images, wikilinks, LaTeX, strikethrough, references), with arbitrary text in them",
  "The suite compares a few dozen fixed documents per direction; agreement of the two independent handlers must hold for every combination of inline construct, nesting and text.",
  ["md2po/__init__.py", "po2md/__init__.py", "md.py", "text.py"],
  [("msgid reconstruction in the extractor", "md2po/__init__.py"), ("msgid reconstruction in the translator", "po2md/__init__.py")],
  ["PO file entries", "po2md output"])
p("C02", "Missing or empty translations leave the text as it was",
  "When a message has no entry, or an entry with an empty translation, in the PO files, po2md writes the original message; so translating a document without any translation loses and invents no text: extracting the messages of the output gives the same messages, in the same order, as extracting those of the input.",
  ["inputs", "configurations"], "all documents of the supported constructs, with every subset of their messages untranslated",
  "Tests pass whole documents with complete PO files; they do not cover each subset of missing or empty entries nor every construct on the fallback path.",
  ["po2md/__init__.py", "md2po/__init__.py"],
  [("fallback of the lookup", "po2md/__init__.py")], ["po2md output", "PO entries re-extracted from it"])
p("C03", "Translating is the same as writing the document in the other language",
  "The output of po2md for a document whose messages are all translated is the output it would give, with no PO entries at all, for the same document written with the translated texts: block structure, markup, commands and untranslatable parts are not affected by the translation.",
  ["inputs"], "all documents of the supported constructs, all texts and all translations of the same inline shape",
  "Fixed example pairs only; the property relates two runs for every structure and every text.",
  ["po2md/__init__.py"], [("rebuilding of the blocks", "po2md/__init__.py")], ["po2md output"])
p("C04", "Disable and enable commands select exactly the messages extracted",
  "md2po extracts a message exactly when extraction is enabled at its block: disabled from a mdpo-disable command until the next mdpo-enable, except the message directly following a mdpo-enable-next-block or -next-line command, and always skipping the message directly following a mdpo-disable-next-block or -next-line command unless an enable-next command precedes it too. The others are reported as disabled entries, and nothing a command does outlives the message it refers to or the next opposite command.",
  ["inputs", "histories"], "all sequences of commands and blocks up to the bound, in all positions, with arbitrary block texts",
  "Tests use single commands around two or three paragraphs; the state machine over arbitrary sequences of commands and block kinds is not enumerated.",
  ["md2po/__init__.py", "command.py"], [("disable / next-block flags", "md2po/__init__.py")], ["entries and disabled entries of md2po"])
p("C05", "po2md disables exactly what md2po does not extract",
  "For any sequence of disable, enable, disable-next-block and enable-next-block commands (and their -next-line forms) and blocks, po2md leaves a message untranslated exactly when md2po would not extract it there; the translated and disabled entries it reports are the messages so decided, and the commands are removed from the output.",
  ["inputs", "histories"], "all sequences of commands and blocks up to the bound, with PO files that translate every message",
  "Same as C04: tests cover isolated commands, not sequences nor agreement between the two programs.",
  ["po2md/__init__.py", "command.py"], [("disable / next-block flags", "po2md/__init__.py")], ["po2md output, translated and disabled entries"])
p("C06", "Contexts and translator comments belong to exactly the next message",
  "A mdpo-context or mdpo-translator command applies to the next message in the document and to no other, in md2po as in po2md; a mdpo-include command adds exactly its text as one message. Messages with the same id and different contexts are distinct entries, and each is translated only with the translation of its own context.",
  ["inputs", "histories"], "all sequences of context, translator and include commands and blocks up to the bound, with arbitrary ids, contexts and comments",
  "Tests attach one context to one paragraph; leakage to later messages, equal ids with different contexts and command sequences are not covered.",
  ["md2po/__init__.py", "po2md/__init__.py", "po.py", "polib.py"],
  [("pending context and comment", "md2po/__init__.py"), ("lookup by context", "po2md/__init__.py")], ["PO entries", "po2md output"])
p("C07", "Code blocks are extracted exactly when asked for",
  "The content of a code block is a message exactly when code blocks are included at that point (by the option or by the include-codeblocks / disable-codeblocks commands) and no disable-codeblock command refers to it, or when an include-codeblock command refers to it and no disable-codeblock command does; its message is the exact content of the block. Code blocks never change whether other messages are extracted.",
  ["inputs", "histories", "configurations"], "all sequences of code block commands, fenced and indented code blocks and paragraphs up to the bound, with the option on and off",
  "Tests cover each command once; interactions between the per-block and the global commands and the option are not.",
  ["md2po/__init__.py"], [("codeblock flags", "md2po/__init__.py")], ["PO entries"])
p("C08", "HTML comments are read as commands as documented, through aliases too",
  "An HTML comment is taken as a command exactly when it consists of a command name, optionally followed by white space and a comment made of word characters and white space; the name and the comment (without trailing spaces) are returned exactly as written. An alias acts exactly as the command it resolves to, with or without the mdpo- prefix, and a resolution that is not a command is rejected.",
  ["inputs"], "all comment texts and all alias mappings up to the length bound, over all characters",
  "A dozen sample comments in tests; the quantifier is over all strings.",
  ["command.py"], [("command search expression", "command.py"), ("alias normalisation", "command.py")], ["return values, behaviour under an alias"])
p("C09", "Updating a PO file never loses or alters a translation",
  "When md2po updates an existing PO file, every message still in the Markdown keeps its translation and its fuzzy mark if it had one, an obsolete entry whose message appears again provides its translation, new messages are added without inventing translations, and entries the document no longer contains are kept (unless removal was asked for) with their translation.",
  ["inputs", "histories"], "all PO files and documents up to the bound: arbitrary ids, translations, contexts, fuzzy and obsolete marks, with arbitrary equalities between them",
  "Tests update with two or three fixed entries; which equalities among ids, contexts and translations hold is what matters and is not enumerated.",
  ["md2po/__init__.py", "po.py", "polib.py"], [("reuse of the previous entry", "md2po/__init__.py"), ("comparison of entries", "polib.py")], ["saved PO file"])
p("C10", "Exactly the entries not found are obsolete",
  "After md2po updates a PO file with obsolete marking on, an entry is obsolete if and only if its message (id and context) is not among the messages extracted, no message is left both obsolete and live, and with marking off no mark is changed; with removal of missing entries asked for, exactly the entries not found are gone.",
  ["inputs", "histories", "configurations"], "all PO files and extracted message sets up to the bound, with arbitrary equalities, marks and options",
  "Tests use one obsolete entry at a time; adjacency, duplicates and reappearing entries are not covered.",
  ["po.py", "md2po/__init__.py", "polib.py"], [("marking", "po.py"), ("removal", "po.py")], ["saved PO file"])
p("C11", "Extracting again changes nothing",
  "Running md2po again on the same documents and the PO file it just saved leaves the file byte for byte the same and reports no change; running po2md again likewise.",
  ["inputs", "histories", "configurations"], "all documents and initial PO files up to the bound and the options that affect the update",
  "Tests do not run the second extraction except on samples.",
  ["md2po/__init__.py", "po.py", "io.py", "po2md/__init__.py"], [("merge into the PO file", "md2po/__init__.py")], ["saved files"])
p("C12", "Code spans keep their content and delimiters stay unambiguous",
  "In an extracted message, a code span is delimited by the shortest run of backticks that does not occur as a run in its content, so that reading the message back as Markdown gives the same code span; the computation returns the smallest positive length that no maximal run of the character in the text has, or the default when there is none.",
  ["inputs"], "all texts up to the length bound over all characters, all positions of the code span in the message",
  "Ten sample strings in tests; the property is over all strings.",
  ["text.py", "md2po/__init__.py", "po2md/__init__.py"], [("run length computation", "text.py")], ["return value", "msgid"])
p("C13", "Link reference definitions are found and survive translation",
  "The link references reported for a document are those of its definition lines, in order, with target, destination and title as written; md2po extracts each as a message with itself as the (fuzzy) default, and po2md writes each one, or its translation, after the rest of the document. Links that use a definition keep referring to it.",
  ["inputs"], "all definition lines up to the bound over all characters of target, destination and title; all documents using them",
  "Seven samples in tests; the expression is matched against arbitrary lines.",
  ["md.py", "md2po/__init__.py", "po2md/__init__.py"], [("definition expression", "md.py"), ("dump", "md2po/__init__.py"), ("append", "po2md/__init__.py")], ["return values, PO entries, output"])
p("C14", "Ignored paths are exactly those named",
  "A file is left out exactly when its path, its file name, the name of its directory or the path of its directory is among the paths to ignore; the remaining files are returned in order, and nothing is added.",
  ["inputs"], "all sets of paths and of ignored paths up to the bound, over arbitrary path components",
  "Sample directories only; the property is over all paths.",
  ["io.py"], [("filter", "io.py")], ["return value"])
p("C15", "Saving reports a change exactly when the file changes",
  "Saving content leaves exactly that content in the file, and a change is reported if and only if the file did not exist or had other content; a file that already has the content is not rewritten.",
  ["inputs", "histories"], "all previous and new contents up to the length bound, existing and missing files, for every program with a check mode",
  "Two samples; check mode is tested with one change each.",
  ["io.py", "md2po/__init__.py", "po2md/__init__.py", "mdpo2html/__init__.py", "md2po2md/__init__.py"], [("save with check", "io.py")], ["file content, return value, exit code"])
p("C16", "Exit codes report what the options ask for",
  "Each program exits with 0 unless an option asks for a check that fails: 2 when in check mode a file was changed or created, 3 when obsolete entries were asked about and exist in the PO files, 4 likewise for fuzzy entries, 5 likewise for empty translations, the highest applying; the error output gives the location of each of them.",
  ["inputs", "configurations"], "all four programs, all subsets of the options, and all PO files up to the bound with arbitrary marks and translations",
  "Each option is tested alone and, for two of the programs, some not at all.",
  ["md2po/__main__.py", "po2md/__main__.py", "mdpo2html/__main__.py", "md2po2md/__main__.py", "po.py"], [("exit code", "md2po/__main__.py")], ["exit code, stderr"])
p("C17", "The obsolete, fuzzy and empty checks find exactly those entries",
  "For any PO file written by the programs, the obsolete check reports exactly one location for each obsolete entry, the fuzzy check one for each fuzzy entry and the empty check one for each entry without translation, each location being a line of that entry; the header is never reported.",
  ["inputs"], "all PO files up to the bound with arbitrary texts, comments, flags and marks, with and without trailing lines; all line sequences up to the bound",
  "Four sample files; the line automaton must hold for all sequences of lines.",
  ["po.py"], [("line scanners", "po.py")], ["reported locations"])
p("C18", "Comparing entries is a total preorder consistent with equality of messages",
  "Comparing PO entries is reflexive, antisymmetric and transitive, respects the options that leave out marks, translations or locations, and with these left out two entries are equal exactly when they have the same id, plural forms and context.",
  ["inputs"], "all pairs and triples of entries with arbitrary fields up to the length bound",
  "Sample pairs only.",
  ["polib.py", "po.py"], [("comparison", "polib.py"), ("search", "po.py")], ["return value"])
p("C19", "The wrap width argument is read as documented",
  "A wrap width that is a positive number is that number (truncated), zero, negative and infinite mean no wrapping, and anything that is not a number is an error, not a silent default.",
  ["inputs"], "all strings up to the length bound and all integers",
  "A handful of values in tests.",
  ["text.py", "po2md/__init__.py"], [("parser", "text.py")], ["return value"])
p("C20", "Key-value arguments are split at the first unescaped separator",
  "A key-value argument is split at its first separator that is not escaped, giving the key and the value without leading white space; one without such a separator is an error naming it, a repeated key is an error naming the key, and otherwise every pair given is in the result.",
  ["inputs"], "all argument strings up to the length bound over all characters, lists of up to three",
  "A few sample pairs.",
  ["text.py", "cli.py"], [("splitter", "text.py")], ["return value"])
p("C21", "Locations name the top level block of each message",
  "Each message extracted for the first time is located at the path of its file and the number and kind of the top level block it comes from, blocks being counted from 1 in the file over the top level blocks of the document and only those (thematic breaks are not counted, and a quote inside a list counts as a block of its own); without locations asked for there are none.",
  ["inputs", "configurations"], "all sequences of top level blocks up to the bound, with arbitrary nesting of lists, quotes, code, tables, headers and HTML inside them",
  "Tests have one document per block kind and little nesting.",
  ["md2po/__init__.py", "md4c.py"], [("block counter", "md2po/__init__.py")], ["occurrences of PO entries"])
p("C22", "Events see everything and skip exactly what they refuse",
  "Custom events are called in document order for every block, span, text, command, message and link reference, all functions given for an event are called, and when at least one returns False (and only then) that step, and nothing else, is skipped; events that return anything else do not change the result.",
  ["inputs", "configurations"], "all choices of event, of the occurrence refused and of the values returned, over documents up to the bound, in md2po and po2md",
  "One test per event skipping one thing.",
  ["event.py", "md2po/__init__.py", "po2md/__init__.py"], [("raise_skip_event", "event.py")], ["PO entries, output, calls"])
p("C23", "md2po2md does what md2po and po2md do",
  "md2po2md, for each language, leaves the PO file that md2po would write and the Markdown that po2md would write with the same options, at the paths its schema gives, and its reports of changed files and of obsolete, fuzzy and empty entries are those of the two programs for all the files.",
  ["inputs", "configurations", "histories"], "all path schemas, languages, documents, previous PO files and options up to the bound",
  "Tests check file listings and one document.",
  ["md2po2md/__init__.py"], [("driver", "md2po2md/__init__.py")], ["files written, return value"])
p("C24", "mdpo2html puts the translations into the HTML",
  "mdpo2html replaces the content of each paragraph, heading, list item and table cell whose message has a translation by the rendering of that translation, and leaves the content of those without translation and all other tags, text and attributes as they were.",
  ["inputs"], "all HTML documents produced from Markdown of the supported constructs, every subset of messages translated, arbitrary texts",
  "Fixed example documents.",
  ["mdpo2html/__init__.py"], [("replacer", "mdpo2html/__init__.py")], ["output"])
p("C25", "mdpo2html follows the commands as md2po does",
  "Disable, enable, next-block and context commands in the HTML have in mdpo2html the effect they have in md2po: a block is translated exactly when md2po would extract its message, with the translation of its own context, and without one it is left as it was.",
  ["inputs", "histories"], "all sequences of commands and paragraphs up to the bound, with arbitrary texts, contexts and PO contents",
  "Tests cover isolated commands.",
  ["mdpo2html/__init__.py", "command.py"], [("comment handler", "mdpo2html/__init__.py")], ["output, disabled entries"])
p("C26", "Files are extracted independently of each other",
  "Extracting several files together gives the messages of each extracted alone, in the order of the files, each with its own locations: no command, reference definition, counter or pending comment of one file affects another.",
  ["inputs", "histories"], "all pairs and triples of documents up to the bound ending in any state (pending commands, open disables, references)",
  "Tests extract files without commands together.",
  ["md2po/__init__.py"], [("reset between files", "md2po/__init__.py")], ["PO entries"])
p("C27", "Several PO files act as their union",
  "Translating with several PO files uses, for each message, a non-empty translation if any of the files has one for its id and context; an empty entry, or an entry of another context, in one file never hides a translation in another, and files that are ignored have no effect.",
  ["inputs", "configurations"], "all sets of PO files up to the bound, arbitrary ids, contexts, translations and equalities between them",
  "Tests use disjoint PO files.",
  ["po.py", "po2md/__init__.py", "mdpo2html/__init__.py"], [("dictionaries", "po.py")], ["output"])
p("C28", "Ignored messages and default translations are applied exactly",
  "A message listed to be ignored is not extracted and every other is; the default translation is given to every new message and to no message that has a translation already.",
  ["inputs", "configurations"], "all lists of ignored messages, default translations, documents and PO files up to the bound",
  "One sample each.",
  ["md2po/__init__.py"], [("_save_msgid", "md2po/__init__.py")], ["PO entries"])
p("C29", "Wrapping never changes the text",
  "Whatever the wrap width of the Markdown output or of the PO file, the output of po2md and md2po has the same messages and translations: only line breaks inside paragraphs differ, no line that could be broken exceeds the width, and without wrapping no line break is added.",
  ["inputs", "configurations"], "all widths and all documents up to the bound",
  "Tests use a few widths with fixed documents.",
  ["po2md/__init__.py", "text.py", "md2po/__init__.py"], [("wrapping of the message", "po2md/__init__.py")], ["output"])
p("C30", "Plain text extraction drops markup and nothing else",
  "In plain text mode the messages are those of normal mode without the markup characters, and titles of links and images are messages too; disabling, contexts and locations are not affected by the mode.",
  ["inputs", "configurations"], "all documents of the supported constructs up to the bound",
  "Fixed examples.",
  ["md2po/__init__.py"], [("span handlers", "md2po/__init__.py")], ["PO entries"])
p("C31", "Reference targets are solved to their translated destinations",
  "For HTML translation, a message using reference links is also known with each reference replaced by its destination, in the message with the original definitions and in its translation with the translated ones; messages without such references are not changed.",
  ["inputs"], "all sets of messages with up to two reference links and definitions, arbitrary targets, texts and destinations",
  "Three samples.",
  ["md.py", "mdpo2html/__init__.py"], [("solver of targets", "md.py")], ["return value, output"])
p("C32", "Programs leave the environment of the process as it was",
  "Running a program, whether it ends normally or by an error, leaves the environment variables of the process as they were; temporary values are seen only during the run.",
  ["inputs", "fault_sequences"], "all previous states of the variables and all ways to leave the run",
  "One sample.",
  ["io.py"], [("environ", "io.py")], ["os.environ"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
