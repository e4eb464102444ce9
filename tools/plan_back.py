# Plugins, output, projects and the command line: bounds in words, and what decides each property.
KINDSETS = {0: "statements, expressions, commands, text", 1: "expressions, commands of all three kinds, text, names, invalid nodes", 2: "expressions, square commands, text", 3: "all eleven kinds"}
def docs(): 
    s = open(f"{ROOT}/harness/back/src/project.rs").read()
    return re.findall(r'"((?:[^"\\]|\\.)*)"', re.sub(r"/\*.*?\*/", "", re.search(r"const DOCS: &\[&str\] = &\[(.*?)\n\];", s, re.S)[1]))
D = docs()
def texts():
    s = open(f"{ROOT}/harness/back/src/server.rs").read()
    return re.findall(r'"((?:[^"\\]|\\.)*)"', re.sub(r"/\*.*?\*/", "", re.search(r"const TEXTS: &\[&str\] = &\[(.*?)\n\];", s, re.S)[1]))
X = texts()
def doc(i): return doc_of(D[i])
def doc_of(t): return f"every document of the form {t!r}: ? any ASCII character, * any of 10 characters (multi-byte, combined, CRLF, NUL), ⟨ ⟩ § any kind of bracket or mark"
PLACES = ["statement", "expression", "square command", "argument", "curly command", "expression"]
HOW = ["one after the other", "in a line", "in a line", "as arguments of one command", "in a line", "within each other"]
def back_bounds(h, p):
    p = list(p) + [0] * 4
    return {
        "b01": lambda: f"every tree of at most {p[0]} inner nodes and macros of two plugins; every answer of at most {p[1]} nodes below its root" + ("" if not p[2] else ", of any kind, possibly without value or name; rendered as well"),
        "b02": lambda: f"every tree of at most {p[0]} nodes ({KINDSETS[p[1]]}), texts any letter; " + ("all four hooks", "every set of hooks", "no hooks")[p[2]],
        "b02t": lambda: f"every text of {p[0]} characters of Unicode, " + ("as an argument" if p[1] else "alone") + (", all four hooks" if p[2] else ", no hooks"),
        "b02w": lambda: f"every {PLACES[p[2]]} of at most {p[0]} nodes, {p[1]} times {HOW[p[2]]}; all four hooks or none",
        "b01w": lambda: f"every {PLACES[p[2]]} of at most {p[0]} nodes and macros, {p[1]} times {HOW[p[2]]}, the macros of two plugins in turn",
        "b03w": lambda: f"every signature of up to {p[0]} inline and up to {p[0]} option arguments, with or without a list, every number of arguments up to {p[1]}, one of them a text of 300 characters, both command kinds",
        "b04w": lambda: f"{p[0]} plugins of {p[1]} commands each, any of them in any kind of brackets, the last character of either name any digit",
        "b29": lambda: f"every {('statement', 'expression', 'square command', 'argument', 'curly command')[p[2]]} of at most {p[0]} nodes, {p[1]}, {2 * p[1]} and {4 * p[1]} times, all four hooks",
        "b03": lambda: f"every signature of at most {p[0]} types ({'inline, option, list' if not p[2] else 'all nine type names'}), every number of arguments up to {p[1]}{', each of them empty or not' if p[3] else ''}, both command kinds",
        "b04": lambda: f"two plugins of {p[1]} commands each, every name of {p[0]} {'characters from A to z, functions named the same way' if p[2] else 'letters of three'}, every return type, every command kind",
        "b05": lambda: f"{p[0]} plugins of at most {p[1]} commands named after any hook or otherwise, with every return type and every set of hook flags",
        "b05f": lambda: f"{p[0]} plugins that have all hooks, with every set of hook flags",
        "b06": lambda: f"every tree of at most {p[0]} nodes" + ("", "", " below an expression", " below a statement")[p[1]] + (" with macros; any of the first 3 calls" if p[1] == 1 else f"; any of the first {p[2]} calls") + " fails or returns what is not text",
        "b06m": lambda: "metadata of a plugin with any one byte replaced by any byte, or cut short anywhere",
        "b06a": lambda: f"the answer of a macro ({'a text' if not p[0] else 'a command'}) with any one byte replaced by any byte, or cut short anywhere",
        "p01": lambda: ("every hook setting and order of keys", "a plugin table with any key missing, doubled, added, of another type or with another schema", "names, versions, authors of one or two characters, with and without plugins", "plugin name, owner, repository and version of one or two characters")[p[0]],
        "p02": lambda: f"two configurations that differ in the fields of mask {p[0]:#b} (name, owner, repository, version, backend, hooks), of up to {p[1]} {"characters from # to ~" if p[2] else "letters"}, each fetched twice",
        "p03": lambda: f"{p[0]} plugins, each served, unreachable, refused with 404 or cut off" + (", every interleaving of the downloads" if p[1] & 2 else "") + (", any answer late" if p[1] & 1 else "") + (", any status from 300 to 599" if p[1] & 8 else "") + (", writes failing after 0, 1, half, all but one, or all bytes" if p[1] & 4 else "") + "; then a second try",
        "p04": lambda: f"{p[0]} files in docs, " + ("names with and without further dots and endings, every backend name of up to two letters" if p[1] else "five extensions, empty, well-formed and malformed") + (", no hooks" if p[2] else "") + ", either order of the listing, with and without the output of an earlier build",
        "p05": lambda: doc(p[0]), "p05c": lambda: doc(p[0]),
        "p06": lambda: doc(p[0]) + (", levels 3 and 4" if not p[1] else ", levels 0 to 6 and 255, six file names"),
        "p07": lambda: f"every module name of {p[0]} characters from - to z except brackets, five shapes of file name",
        "p08": lambda: f"every name of {p[0]} ASCII characters but NUL, / and ." + ("; something of that name is there already" if p[1] else ""),
        "p09": lambda: ("owners of two letters", "repositories with and without a dot", "versions of two characters")[p[0]] + ", every configuration with none, an empty list of or one plugin" + ("", ", every answer of the network, writes failing at six places", ", any status from 300 to 599")[p[1]],
        "s01": lambda: ("three requests", "messages of about 1024 and 2048 bytes", "ids of characters of two, three and four bytes, with other headers", f"bodies of {p[2]} bytes of any value between requests", "a header without a length before a request")[p[0]] + (", arriving byte by byte" if p[1] == 9 else f", cut at any {p[1]} places"),
        "s02": lambda: f"{p[0]} messages: every method, kind of id and kind of parameters for the first",
        "s03": lambda: doc_of(X[p[0]]), "s04": lambda: doc_of(X[p[0]]) + (", clients with and without the capability" if p[1] else ""),
        "s05": lambda: f"{p[0]} plugins of two commands, every name and return type, every trigger" + (", names that begin with a dollar sign" if p[1] else ""),
        "s07": lambda: f"{p[0]} times one of two projects opened, with and without completion in between",
        "s06": lambda: f"every history of {p[0]} " + ("initialize, open, save, completion and failing messages, damage to the plugins" if p[1] else "messages of nine kinds") + ", with the text changing and the network failing in between",
    }[h]()
GROUPS["back"] = {"bounds": back_bounds, "assumes": WORLD[:2] + [
    "plugins, the network, the file system, the task scheduler and SHA-256 are replaced by the stand-ins described in DESIGN.md; natively the replays use the real file system",
    "hash maps iterate in one fixed order per content"]}
def back(h, *ps): return [("back", h, list(p)) for p in ps]
BACK = {
    "C11": {"features": "codegen", "quick": back("b01", (4, 0, 0), (3, 1, 0), (2, 1, 1), (1, 2, 1), (2, 1, 2)) + back("b01w", *[(2, 16, i) for i in range(6)]), "thorough": back("b01w", *[(3, 16, i) for i in range(6)]) + back("b01", (3, 2, 0), (3, 1, 1), (5, 0, 0)), "covers": ["expanded", "two macros", "rendered", "refused"]},
    "C12": {"features": "codegen", "quick": back("b02", (5, 0, 0), (3, 1, 1), (3, 0, 1), (5, 2, 2), (2, 3, 0)) + back("b02t", (2, 0, 0), (1, 0, 1), (2, 1, 1)) + back("b02w", *[(3, 20, i) for i in range(6)]), "thorough": back("b02w", *[(4, 40, i) for i in range(6)]) + back("b02t", (3, 0, 0), (2, 0, 1), (3, 1, 0)) + back("b02", (6, 2, 0), (6, 0, 0), (4, 0, 1), (3, 3, 0), (4, 1, 1)), "covers": ["rendered", "refused"]},
    "C13": {"features": "codegen", "quick": back("b03", (4, 5, 0), (3, 4, 1), (4, 4, 0, 1)) + back("b03w", (8, 18)), "thorough": back("b03w", (12, 25)) + back("b03", (5, 6, 0), (4, 4, 1)), "covers": ["odd signature", "refused", "rendered"]},
    "C14": {"features": "codegen", "quick": back("b04", (1, 1), (1, 2), (2, 1), (1, 2, 1), (2, 1, 1)) + back("b04w", (8, 12)), "thorough": back("b04w", (8, 24)) + back("b04", (2, 2), (1, 3), (3, 1)), "covers": ["found", "unknown"]},
    "C15": {"features": "codegen", "quick": back("b05", (1, 2), (2, 1)) + back("b05f", (2,), (3,)), "thorough": back("b05f", (4,)) + back("b05", (2, 2), (1, 3)), "covers": ["missing hook", "taken", "together", "two for a hook"]},
    "C16": {"features": "codegen", "quick": back("b06", (4, 0, 8), (3, 1), (4, 2, 6), (4, 3, 6)) + back("b06m", ()) + back("b06a", (0,), (1,)), "thorough": back("b06", (4, 1), (5, 0, 8), (5, 2, 6), (5, 3, 6)), "covers": ["a plugin fails", "rendered", "refused", "taken"]},
    "C17": {"features": "project", "quick": back("p05", (0,), (1,), (2,), (3,), (8,), (9,)) + back("p04", (2, 0), (1, 1), (1, 1, 1), (1, 0, 1), (0, 0)), "thorough": back("p05", (4,), (5,), (6,), (7,), (10,), (11,), (12,)) + back("p04", (3, 0), (2, 1)), "covers": ["built", "refused", "malformed"]},
    "C18": {"features": "cli", "quick": back("p05c", (0,), (1,), (2,), (3,), (10,), (13,)) + back("p06", (0, 0), (3, 0), (0, 1)) + back("p07", (1,), (2,)), "thorough": back("p05c", (4,), (5,), (6,), (7,), (8,), (9,), (11,), (12,)) + back("p06", (1, 0), (2, 0), (4, 0), (9, 0), (10, 0), (8, 1), (10, 1)) + back("p07", (3,)), "covers": ["compiled", "refused", "tree", "expanded", "earlier", "plugin", "other file"]},
    "C19": {"features": "project", "quick": back("p01", (0,), (1,), (2,), (3,)), "covers": ["read", "refused"]},
    "C20": {"features": "project", "quick": back("p02", (1, 2), (30, 1), (14, 2), (32, 1), (30, 1, 1), (2, 2, 1), (4, 2, 1), (8, 2, 1), (16, 2, 1)), "thorough": back("p02", (31, 2), (63, 1), (14, 2, 1)), "covers": ["same", "another"]},
    "C21": {"features": "project", "quick": back("p03", (1, 7), (2, 3), (2, 5), (1, 8)), "thorough": back("p03", (2, 7), (3, 2), (3, 3)), "covers": ["all there", "some missing"]},
    "C22": {"features": "project", "quick": back("p09", (0, 1), (1, 1), (2, 1), (0, 2)), "covers": ["added", "refused"]},
    "C23": {"features": "cli", "quick": back("p08", (1,), (2,), (3,), (2, 1)), "thorough": back("p08", (4,), (5,)), "covers": ["made", "there already"]},
    "C24": {"features": "server", "quick": back("s02", (1,)) + back("s06", (3,)) + back("s01", (0, 1), (0, 2), (0, 9), (1, 1), (2, 1), (3, 0, 1), (3, 1, 1), (3, 0, 2), (4, 1)), "thorough": back("s01", (2, 2), (3, 0, 3), (3, 1, 2), (4, 2), (0, 3), (1, 2)), "covers": ["answered", "no JSON", "no message"]},
    "C25": {"features": "server", "quick": back("s02", (1,), (2,)) + back("s06", (3,)), "thorough": back("s02", (3,)) + back("s06", (4,)), "covers": ["request", "notification", "response", "invalid", "result", "error", "all", "damaged"]},
    "C26": {"features": "server", "quick": back("s03", (0,), (2,), (3,), (4,), (5,), (8,), (10,)), "thorough": back("s03", (1,), (6,), (7,), (9,), (11,)), "covers": ["tokens"]},
    "C27": {"features": "server", "quick": back("s04", (3, 1), (4,), (6,), (8,), (10,)) + back("s06", (3, 1)), "thorough": back("s04", (0,), (1,), (2,), (5, 1), (7,), (9,), (11,)) + back("s06", (4, 1)), "covers": ["diagnostics", "fine", "not able", "shown"]},
    "C28": {"features": "server", "quick": back("s05", (1,), (1, 1), (2,)) + back("s06", (3,)) + back("s07", (3,)), "thorough": back("s05", (2, 1), (3,)) + back("s07", (5,)) + back("s06", (4, 1)), "covers": ["offered", "not asked", "in a project", "projects"]},
}
