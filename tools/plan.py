"""Which harness runs decide which property, and within what bounds."""
import os, re
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def templates(name):
    s = open(f"{ROOT}/harness/front/src/{'gen' if name == 'TEMPLATES' else 'trees'}.rs").read()
    body = re.search(name + r": &\[&str\] = &\[(.*?)\n\];", s, re.S)[1]
    return re.findall(r'"((?:[^"\\]|\\.)*)"', re.sub(r"/\*.*?\*/", "", body))
T = templates("TEMPLATES")
E = templates("ESCAPED")
LIGHT = [0, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 25, 26, 27, 30, 31, 39, 40, 41, 42, 43, 44]
MED = [1, 4, 21, 22, 23, 24, 28, 29, 45]
NEST = [49, 50, 51, 53, 54, 55, 57]   # any kind of bracket, any mark
NESTM = [46, 47, 48, 62, 63, 65]
NESTH = [52, 56, 58, 59, 60, 61, 64]
LONG = list(range(66, 88))          # far more of everything, and other characters
HEAVY = [36, 37, 2, 32, 34, 33, 35, 38]
def on(h, ts): return [("front", h, [t]) for t in ts]
def front_bounds(h, p):
    if h == "c04": return f"every document of the form {E[p[0]]!r}: ? any ASCII character, ~ any special character after a backslash"
    if h == "c05t": return f"every sequence of {p[0]} tokens of the 14 kinds"
    if h == "c09l": return f"every unit of {p[0]} ASCII characters, repeated 3 and {p[1]} times"
    if h == "c29": return f"every unit of {p[0]} ASCII characters between {C29[p[2]]} that leaves no command open, repeated {p[1]}, {2 * p[1]} and {4 * p[1]} times"
    if h == "c10": return f"every pair of paragraphs: {p[0]} and {p[1]} ASCII characters after the prefixes of pair {p[2]}"
    return f"every document of the form {T[p[0]]!r}: ? any ASCII character, * any of 10 characters (multi-byte, combined, CRLF, NUL), ⟨ ⟩ any bracket, ⟫ the one that closes the last, § any bracket, dot, comma, backslash, space, line break or letter, ¿ any character of U+0080 to 00FF, 0300 to 033F, 2000 to 207F, 3000 to 303F, FE00 to FE3F, FEC0 to FF3F, 1F1C0 to 1F1FF, ¡ any character of Unicode beyond ASCII, «n:t» n times t"
C29 = ["nothing", "'[m.c ' and ']'", "'x' and a blank line", "'<m.c>' and nothing", "'abcdefgh' and nothing", "'{m.c a,' and '}'"]
WORLD = ["the harness is compiled to wasm64 from /repo's current source with overflow and debug assertions on; rustc and LLVM translate it faithfully",
         "node identifiers are a counter instead of random, error values carry no backtrace",
         "characters outside the symbolic positions are those of the template; documents longer than the templates and characters outside ASCII and the listed clusters are not explored"]
GROUPS = {
    "front": {"bounds": front_bounds, "assumes": WORLD},
}
exec(open(f"{ROOT}/tools/plan_back.py").read())
PLAN = {
    "C01": {"quick": on("c01", LIGHT + [1, 4, 21, 28, 24] + NEST + LONG + [89]), "thorough": on("c01", [22, 23, 29, 45] + NESTM + NESTH + HEAVY + [88, 90]), "covers": ["text", "module", "ident", "mark"]},
    "C02": {"quick": on("c02", LIGHT + [4, 21] + NEST + LONG + [88]), "thorough": on("c02", MED + NESTM + NESTH + HEAVY + [89, 90]), "covers": ["second line", "later column"]},
    "C03": {"quick": on("c03", LIGHT + [4, 21, 24] + NEST + NESTM + LONG + [90]), "thorough": on("c03", MED + NESTH + HEAVY + [88, 89]), "covers": ["name", "mark inside", "mark outside", "text inside", "text outside", "escape"]},
    "C04": {"quick": on("c04", range(len(E) - 3)), "thorough": on("c04", range(len(E) - 3, len(E))), "covers": ["compared", "other"]},
    "C05": {"quick": [("front", "c05t", [n]) for n in (1, 2, 3, 4)] + on("c05", LIGHT + NEST + LONG + [89]), "thorough": [("front", "c05t", [5])] + on("c05", MED + NESTM + NESTH + HEAVY + [88, 90]), "covers": ["closed", "two statements"]},
    "C06": {"quick": on("c06", LIGHT + NEST + LONG + [88]), "thorough": on("c06", MED + NESTM + NESTH + HEAVY + [89, 90]), "covers": ["well-formed", "malformed", "angle", "curly", "square"]},
    "C07": {"quick": on("c07", LIGHT + NEST + LONG + [90]), "thorough": on("c07", MED + NESTM + NESTH + HEAVY + [88, 89]), "covers": ["well-formed", "malformed", "not closed", "not opened", "backslash", "dot", "comma", "module", "no dot", "identifier"]},
    "C08": {"quick": on("c08", LIGHT + MED + NEST + NESTM + [56, 59, 60, 61, 64] + LONG + [88]), "thorough": on("c08", [52, 58] + HEAVY + [89, 90]), "covers": ["well-formed", "malformed"]},
    "C09": {"quick": on("c09", LIGHT + NEST + LONG) + [("front", "c09l", [2, 9])], "thorough": on("c09", MED + NESTM + NESTH + HEAVY) + [("front", "c09l", [3, 20])], "covers": ["done"]},
    "C10": {"quick": [("front", "c10", p) for p in ([1, 2, 0], [2, 1, 0], [2, 1, 1], [1, 2, 2], [1, 1, 3], [1, 2, 4], [0, 1, 5], [0, 0, 6], [0, 1, 7], [1, 1, 8], [1, 1, 9], [1, 1, 10])], "thorough": [("front", "c10", p) for p in ([2, 2, 0], [3, 1, 0], [1, 3, 0], [2, 2, 3], [2, 2, 4], [3, 2, 1])], "covers": ["well-formed", "malformed"]},
}
PLAN.update(BACK)
PLAN["C29"] = {"features": "codegen", "quick": [("front", "c29", p) for p in ([1, 64, 0], [1, 32, 1], [1, 32, 2], [1, 32, 3], [1, 32, 4], [1, 32, 5], [2, 8, 0], [2, 8, 1])] + back("b29", *[(2, 64, i) for i in range(5)]),
               "thorough": [("front", "c29", p) for p in ([2, 32, i] for i in range(6))] + back("b29", *[(3, 16, i) for i in range(5)]), "covers": ["done", "rendered"]}
