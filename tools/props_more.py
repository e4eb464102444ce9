EX, CG, PL, PM, LS = "crates/brack-expander/src/", "crates/brack-codegen/src/", "crates/brack-plugin/src/", "crates/brack-project-manager/src/", "crates/brack-language-server/src/"
NOTEST = "Nothing of this is tested: no test runs a plugin."
prop("C11", "Macros become what their plugin answers",
     "Expanding a tree asks every macro's plugin exactly once, in document order, with the whole document and the macro's own node, and replaces the macro by the answer wherever it stands; everything else in the tree stays as it is. A macro inside another macro is not asked. What macros return, whatever nodes, is rendered or refused with an error, never a crash.",
     ["inputs"], "every tree and every answer of its macros", NOTEST, [EX + "expand.rs", PL + "plugins.rs", PL + "plugin.rs", CG + "generate.rs"],
     [("the tree is walked and macro nodes are exchanged for the answer of call_macro_command", EX + "expand.rs"), ("a macro is found by its module and name", PL + "plugins.rs")], ["the expanded tree", "the calls plugins get"])
prop("C12", "Output is the document rendered from the inside out",
     "Text is rendered as it stands, expressions, statements and the document as the concatenation of their parts, and commands as what their plugin makes of the rendered arguments. If a plugin has a hook for one of these, what is rendered for such a node passes through that hook exactly once; without the hook nothing is called. Calls happen once per node, in document order, parts before the whole. Trees that cannot be rendered (macros left, invalid nodes, statements inside expressions) are refused with an error.",
     ["inputs"], "every tree and every set of hooks", NOTEST, [CG + "generate.rs", CG + "stmt.rs", CG + "expr.rs", CG + "text.rs", CG + "curly.rs", CG + "square.rs", PL + "plugins.rs"],
     [("one renderer per node kind calls those of its children", CG + "expr.rs"), ("hooks are plugin calls around the rendered text", PL + "plugins.rs")], ["the rendered text", "the calls plugins get"])
prop("C13", "Arguments reach the command they are written for",
     "The arguments of a command are matched with its declared parameters by position: a required one must be there, an optional one may be missing, a list takes all that are left; with a missing or a surplus argument the command is refused and not called. Values are passed unchanged, each in the form its type has.",
     ["inputs"], "every signature, every number of arguments, every value", NOTEST, [CG + "curly.rs", CG + "square.rs", PL + "value.rs", PL + "types.rs"],
     [("parameters are consumed along the declared types", CG + "curly.rs")], ["the input of the plugin call", "the error"])
prop("C14", "A name means one command of one plugin",
     "A command in curly brackets is the block command, one in square brackets the inline command and one in angle brackets the macro of that name in the plugin of that module name, and the function called is the one that plugin declares for it. If there is no such plugin, name or kind the document is refused and nothing is called.",
     ["inputs"], "all names of modules and commands, all sets of plugins", NOTEST, [PL + "plugins.rs", PL + "plugin.rs", CG + "curly.rs", CG + "square.rs", EX + "expand.rs"],
     [("commands are keyed by name and return type", PL + "plugin.rs"), ("plugins are keyed by name", PL + "plugins.rs")], ["which plugin function is called"])
prop("C15", "Only plugins that can do what they are used for are taken",
     "A plugin that is used for a hook and does not declare the command for it, with the right type, is refused when it is loaded; every other plugin is taken with all its commands. Two plugins used for the same hook are refused together; any other combination is taken.",
     ["inputs"], "all plugin declarations and all hook settings", NOTEST, [PL + "plugin.rs", PL + "plugins.rs", PL + "feature_flag.rs", PL + "metadata.rs"],
     [("declared commands are checked against the flags", PL + "plugin.rs"), ("the plugin for a hook is unique", PL + "plugins.rs")], ["the result of loading"])
prop("C16", "A failing plugin ends the build, not the process",
     "If a call of a plugin fails, or returns what is not text or not a tree, the build ends with an error at that call: nothing else is called and no output is made of it. Damaged metadata and damaged macro answers make an error or a different plugin or tree, never a crash, and what is cut short is always refused.",
     ["inputs", "fault_sequences"], "every call that can fail, every byte of an answer that can be damaged", NOTEST, [PL + "plugin.rs", PL + "plugins.rs", EX + "expand.rs", CG + "generate.rs"],
     [("errors of calls are passed on", PL + "plugin.rs"), ("metadata and answers are parsed with serde", PL + "metadata.rs")], ["the result", "the calls after the failure"])
prop("C17", "build makes of every document its output",
     "Building makes exactly one file in out/ for every document (.[] file) of docs/, called as the document with the backend as extension, holding the document rendered - tokenized, parsed, macros expanded, hooks applied - and replacing what an earlier build left there. Other files are ignored and documents stay as they are. A project with a document that is malformed or cannot be rendered is refused.",
     ["inputs"], "every document text and every set of files", NOTEST, [PM + "project.rs", "src/main.rs", CG + "generate.rs", EX + "expand.rs"],
     [("docs/ is listed and each document is taken through all stages", PM + "project.rs"), ("documents with errors are refused before expansion", PM + "project.rs")], ["the files in out/", "the result of build"])
prop("C18", "compile prints the stage that is asked for",
     "compile prints the rendered document at level 5 - the same as build without hooks -, the tree at level 3 and the tree with macros expanded at level 4, as JSON that reads back to exactly that tree. A malformed document is refused from level 4 on, as are other file names, other levels and commands that no plugin has. Exactly the files <module>_<hash>.wasm of the plugin directory are plugins, each under its own module name.",
     ["inputs"], "every document, every level, every plugin file name", NOTEST, ["src/main.rs", "src/sub_commands.rs", CG + "generate.rs", EX + "expand.rs", TR + "ast.rs"],
     [("one branch per level runs the stages up to it", "src/main.rs"), ("plugin files are recognized by their names", "src/main.rs")], ["standard output", "the result"])
prop("C19", "Brack.toml means what it says",
     "Document name, version, backend, authors and each plugin's owner, repository, version and hooks are read as they are written, in any order of keys, and a plugin entry with a key missing, unknown, doubled or of another type, or with another schema, is refused. What is written back means the same when it is read again.",
     ["inputs"], "all values of all keys", "No test reads a plugin entry.", [PM + "config.rs", PM + "document.rs", PM + "plugin.rs", PM + "project.rs"],
     [("a hand-written deserializer reads plugin entries", PM + "plugin.rs"), ("serde derives read the rest", PM + "config.rs")], ["the configuration", "Brack.toml"])
prop("C20", "A project uses the plugins its configuration asks for",
     "After fetching, every plugin of the configuration is there, holds what its address (owner, repository, version, name, backend) serves, and has the hooks of the current configuration, whatever was fetched before for another configuration. A plugin that is there already is not fetched again.",
     ["configurations", "histories"], "every pair of configurations, one after the other", NOTEST, [PM + "project.rs", PM + "plugin.rs"],
     [("the file of a plugin is named by a hash of what it is", PM + "project.rs"), ("plugins are only fetched when their file is missing", PM + "project.rs")], ["the plugin files", "network requests", "plugins_metadata"])
prop("C21", "An interrupted download leaves nothing half done",
     "When downloads fail, are refused, are cut off or cannot be written, in any order of arrival, fetching reports an error, and what is there afterwards is complete: no file is taken for a plugin that holds only part of it. The next try, with everything reachable, succeeds and leaves every plugin as its address serves it. If nothing goes wrong, fetching succeeds, whatever the interleaving.",
     ["fault_sequences", "schedules"], "every combination of failures and every interleaving of the downloads", NOTEST, [PM + "project.rs", PM + "plugin.rs"],
     [("downloads run as concurrent tasks and their results are collected", PM + "project.rs"), ("files are written under another name and renamed", PM + "file.rs")], ["the plugin files after a failure", "the result of fetching"])
prop("C22", "add adds a plugin or changes nothing",
     "Adding github:owner/repo@version downloads that release, adds exactly that plugin to Brack.toml and keeps every other setting. If the plugin is there already, the download fails, or a write fails part way, there is an error and Brack.toml means what it meant before.",
     ["inputs", "fault_sequences"], "every owner, repository, version and configuration; every failure", NOTEST, [PM + "plugin.rs", PM + "file.rs", PM + "config.rs"],
     [("the schema is split at fixed characters", PM + "plugin.rs"), ("the configuration is read, extended and written as a whole", PM + "plugin.rs")], ["Brack.toml before and after", "the request that is made"])
prop("C23", "new makes a project that works",
     "Whatever the name, a new project can be loaded, is called by that name, has no plugins, and can be fetched for and built at once.",
     ["inputs"], "every name", NOTEST, ["src/main.rs", PM + "project.rs", PM + "config.rs"],
     [("Brack.toml is made from a template", "src/main.rs")], ["the project that is made"])
prop("C24", "The language server reads every message, however it arrives",
     "What the server answers depends on the bytes it gets, not on how they are split into reads. Every message is read at its own length in bytes, with or without other headers, whatever its size and characters. What is no JSON, or no message, is answered by one error, and neither that nor a header without a length makes the server miss or misread a later message. Everything the server writes is framed with its exact length.",
     ["inputs", "schedules"], "every split of the input, every content of the messages", "No test runs the language server.", [LS + "server.rs"],
     [("bytes are collected in a buffer and taken message by message", LS + "server.rs")], ["standard output for given input"])
prop("C25", "Every request gets exactly one answer",
     "The server answers every request exactly once, under the id it was asked with, with a result or an error and not both, and answers nothing else: notifications and responses get no response, a message that is neither gets one error. This holds for every method, known or not, and for all parameters, missing and malformed ones too; and whatever was said before, failures included, the server keeps listening and each message has its own effect.",
     ["inputs", "histories"], "every message and every sequence of messages", "No test runs the language server.", [LS + "server.rs", LS + "request.rs", LS + "notification.rs", LS + "response.rs", LS + "result.rs"],
     [("messages are told apart by id and method", LS + "server.rs"), ("errors of handlers become error responses", LS + "server.rs")], ["standard output for given input"])
prop("C26", "Semantic tokens colour the brackets and names",
     "The semantic tokens of a document are exactly its brackets and its module and command names, in order, each at its line and UTF-16 column with its UTF-16 length, and of the kind the announced legend gives to it: one kind for each kind of bracket, one for modules and one for command names. Escaped brackets are text.",
     ["inputs"], "every document (line breaks LF or CRLF)", "No test runs the language server.", [LS + "request/semantic_tokens.rs", LS + "position.rs", LS + "request.rs"],
     [("tokens are written relative to the token before", LS + "request/semantic_tokens.rs"), ("columns are converted to UTF-16", LS + "position.rs")], ["the answer to textDocument/semanticTokens/full"])
prop("C27", "Saving publishes the diagnostics of the document",
     "When a document is saved, a client that can show diagnostics gets exactly one list for that document: what is wrong with the text as saved, each at its lines and UTF-16 columns, or an empty list when it is fine. Other clients get none, and nothing else makes diagnostics.",
     ["inputs", "histories"], "every document (line breaks LF or CRLF), every history", "No test runs the language server.", [LS + "notification/did_save.rs", LS + "position.rs", LS + "server.rs"],
     [("the front end runs on the saved file", LS + "notification/did_save.rs"), ("capabilities are remembered from initialize", LS + "server.rs")], ["textDocument/publishDiagnostics notifications"])
prop("C28", "Completion offers the commands a bracket can begin",
     "After an opening bracket in a document of a project, exactly the commands of that kind of all the project's plugins are offered - inline after [, block after {, macros after < -, and accepting one writes its module, name and closing bracket with the cursor at the arguments. Nothing is offered otherwise, or outside of a project.",
     ["inputs", "histories"], "every set of commands and every trigger", "No test runs the language server.", [LS + "request/completion.rs", LS + "notification/did_open.rs", PL + "plugins.rs"],
     [("return types are matched with the trigger character", LS + "request/completion.rs"), ("opening a document loads its project", LS + "notification/did_open.rs")], ["the answer to textDocument/completion"])
prop("C29", "Work grows with the document, not with its square",
     "Tokenizing, parsing, transforming and rendering a document that is twice as long takes about twice as long, if it is no deeper nested: a long document is not slower per character than a short one.",
     ["inputs"], "every repeated unit of text and every repeated part of a tree", "The tests use documents of a few characters.", [TK + "dispatch.rs", TK + "tokenizer.rs", PA + "parse.rs", PA + "stmt.rs", TR + "transform.rs", CG + "generate.rs"],
     [("each step of the tokenizer looks at the next characters only", TK + "dispatch.rs"), ("parsers hand on slices of the token sequence", PA + "parser.rs")], ["instructions executed, processor time"])
