#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (they are committed; this only keeps them in step)."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT + "/tools")
from plan import PLAN
TK, PA, TR = "crates/brack-tokenizer/src/", "crates/brack-parser/src/", "crates/brack-transformer/src/"
TESTS = "The unit tests try one token of each kind and a handful of small inputs; this is a statement about every document."
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, note=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}, "_note": note})

prop("C01", "Tokens reproduce the document",
     "Every document is tokenized without error, and writing the tokens out one after another (a line break token as the line break that stands there) gives back exactly the document. There is exactly one end mark, at the end, and no text, module or command name token is empty.",
     ["inputs"], "every document", TESTS, [TK + "dispatch.rs", TK + "tokenize.rs", TK + "text.rs", TK + "backslash.rs"],
     [("one character is consumed per step until nothing is left", TK + "dispatch.rs"), ("pending characters are pooled and flushed before a mark", TK + "text.rs")], ["the token sequence"])
prop("C02", "Token positions are where the characters are",
     "Every token starts at the line and column of its first character and ends right after its last character, counting user-perceived characters and starting a new line after every line break (LF or CRLF). The end mark is at the end of the document.",
     ["inputs"], "every document", TESTS, [TK + "dispatch.rs", TK + "newline.rs", TK + "text.rs", TK + "identifier.rs", TK + "module.rs", TK + "utils.rs"],
     [("line, column and token start are threaded through every step", TK + "tokenizer.rs"), ("grapheme clusters are the unit of a column", TK + "utils.rs")], ["the location of each token"])
prop("C03", "Characters are marks exactly where the language says so",
     "Brackets, backslashes and line breaks are marks everywhere; dots, commas and spaces are marks inside commands and plain text outside; every other character is text. The character that a backslash escapes is a mark of its own and changes nothing that follows. What stands between an opening bracket and a dot is a module name, what then stands before a space, line break or closing bracket is a command name, and nothing outside of a command, or not followed by one of these, is a name.",
     ["inputs"], "every document, well-formed or not", TESTS, [TK + "dispatch.rs", TK + "backslash.rs", TK + "angle_bracket_open.rs", TK + "curly_bracket_close.rs"],
     [("nesting counts decide whether separators are marks", TK + "dispatch.rs"), ("looking_for_identifier decides whether text is a name", TK + "dispatch.rs")], ["the kind of each token"])
prop("C04", "An escaped special character is literal",
     "Putting a backslash before a special character makes it text: the document is accepted exactly as with an ordinary character in that place, and its tree is the same with the special character as the text. It never opens, closes or separates anything, whatever surrounds it.",
     ["inputs"], "every special character, every place in text or in an argument, every surrounding text", "The tests escape characters one at a time on their own; how an escape affects the rest of the document is not tested.",
     [TK + "backslash.rs", PA + "escaped.rs", TR + "backslash.rs"],
     [("the escaped character becomes a token at once, without the effects of its kind", TK + "backslash.rs"), ("escape nodes are reduced to the text they escape", TR + "backslash.rs")], ["the tree and the diagnostics of two documents that differ in the escape"])
prop("C05", "Every document has a syntax tree that keeps every token",
     "Parsing succeeds for every document, however malformed, and for every sequence of tokens that ends with the end mark. The leaves of the syntax tree are the tokens, in order, each with its text and place, and every node has the shape that the published grammar gives it.",
     ["inputs"], "every document and every token sequence", "The tests parse a few short token lists; that no input is refused and that nothing is lost is about all of them.",
     [PA + "parse.rs", PA + "stmt.rs", PA + "expr.rs", PA + "angle.rs", PA + "curly.rs", PA + "square.rs", PA + "escaped.rs", "brack.cst.ebnf"],
     [("ordered choice over token kinds, closing brackets optional", PA + "expr.rs"), ("stray closing brackets are accepted at statement level", PA + "stmt.rs")], ["the syntax tree"])
prop("C06", "Nodes are where their text is",
     "In every syntax tree a node covers its parts, which are in order and do not overlap unless a bracket is left open. In the tree of a well-formed document every text, module and command name is exactly what stands at its place, and every command starts and ends at its brackets.",
     ["inputs"], "every document", "The tests build trees with a mock location everywhere; none checks where a node is.",
     [PA + "cst.rs", PA + "expr.rs", PA + "angle.rs", TK + "tokens.rs", TR + "utils.rs"],
     [("adding a child extends the location of its parent", PA + "cst.rs"), ("merging two locations takes the earlier start and the later end", TK + "tokens.rs")], ["the location of every node"])
prop("C07", "Diagnostics are raised exactly for what is wrong, where it is wrong",
     "A document gets a diagnostic if and only if it is malformed. The brackets reported as not closed or not opened are exactly the unmatched ones, the invalid backslashes exactly those that escape nothing, and a reported dot or comma is a dot or comma in a command. Every diagnostic is placed in the document, at the character it is about.",
     ["inputs"], "every document", "Hardly any diagnostic is tested; that none is missing and none is wrong is about every document.",
     [TR + "utils.rs", TR + "angle.rs", TR + "curly.rs", TR + "square.rs", TR + "stmt.rs", TR + "backslash.rs", TR + "error.rs"],
     [("checks of the parts of a command, one per rule", TR + "utils.rs"), ("first and last part of a command are compared", TR + "curly.rs")], ["the diagnostics: message and place"])
prop("C08", "The tree of a well-formed document is the one that is written",
     "For every well-formed document the tree is the one the language defines: paragraphs separated by blank lines, lines, commands with module, name and arguments in order, each of its own bracket kind, and all text character for character. In arguments, spaces are kept between the parts of an argument and dropped at its edges and around line breaks.",
     ["inputs"], "every well-formed document", TESTS,
     [TR + "transform.rs", TR + "utils.rs", TR + "expr.rs", TR + "stmt.rs", PA + "parse.rs", "brack.ast.ebnf"],
     [("marks are removed and arguments are grouped between commas", TR + "utils.rs"), ("syntax tree nodes map to tree nodes of the same kind", TR + "transform.rs")], ["the tree"])
prop("C09", "No document stops the compiler's front end",
     "Tokenizing, parsing, transforming and printing never panic, overflow or run forever, whatever the document. The stack they need depends on how deeply commands are nested, not on how long the document is.",
     ["inputs"], "every document, including malformed ones", "A panic needs an input nobody wrote a test for.",
     [TK + "dispatch.rs", PA + "parse.rs", PA + "cst.rs", TR + "transform.rs", TR + "utils.rs", TR + "ast.rs"],
     [("tokens are produced in a loop", TK + "dispatch.rs"), ("node kinds that cannot be transformed are removed before", TR + "stmt.rs")], ["the process: panics, stack use"])
prop("C10", "Paragraphs do not affect each other",
     "Two paragraphs separated by blank lines compile to the trees of the first and then of the second, and to the diagnostics of the first and then of the second moved down by the lines of the first, provided the first leaves no command open. Nothing in one paragraph changes how the other is read.",
     ["inputs"], "every pair of paragraphs of which the first leaves no command open", "Interaction between parts of a document needs inputs that combine them; tests use one construct at a time.",
     [PA + "parse.rs", PA + "stmt.rs", TK + "dispatch.rs", TK + "newline.rs"],
     [("blank lines end a statement", PA + "parse.rs"), ("tokenizer state is reset by closing brackets", TK + "curly_bracket_close.rs")], ["the tree and the diagnostics of the parts and of the whole"])
exec(open(ROOT + "/tools/props_more.py").read()) if os.path.exists(ROOT + "/tools/props_more.py") else None

NA = []
NOTE = ("Bounded: every path of the compiled real code over all values of the symbolic inputs is explored and each assertion is decided by the solver (z3) within the bounds listed in the evidence; counterexamples and a sample of the paths "
        "are replayed against the ordinary native build. Trusts rustc's wasm64 code generation, the engine (cross-checked by those replays) and the stubs named in the evidence; says nothing outside the bounds.")
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in P: f.write(json.dumps({k: v for k, v in p.items() if k != "_note"}, ensure_ascii=False) + "\n")
man = {"version": 1, "setup_cmd": "python3 tools/setup.py",
       "checks": [{"property": p["id"], "quick_cmd": f"python3 tools/check.py {p['id']}", "thorough_cmd": f"python3 tools/check.py {p['id']} thorough",
                   "technique": "symbolic execution of the compiled code (wasm) with an SMT solver", "level": "model_checking", "level_note": (p["_note"] + " " if p["_note"] else "") + NOTE} for p in P if p["id"] in PLAN],
       "not_applicable": NA, "notes": "No hooks: the harnesses use the crates' public interfaces only. See DESIGN.md."}
json.dump(man, open(ROOT + "/MANIFEST.json", "w"), indent=1)
import jsonschema
sp = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate({k: v for k, v in p.items() if k != "_note"}, sp)
jsonschema.validate(man, json.load(open("/root/.vp/MANIFEST.schema.json")))
print(len(P), "properties,", len(man["checks"]), "checks")
