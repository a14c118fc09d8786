"""Which analyses decide which property, and what is said about it in the evidence."""

# kind: engine (abstract interpretation of the MIR) or python (a pass over the dumped MIR)
# secs: time budget of the analysis; what is not finished by then is reported as undecided
# floors: counts below which the analysis did not see the program it is meant to see
CLIENTS = {
    "parse": {"kind": "engine", "secs": {"quick": 220, "thorough": 600}, "floors": {"productions": 60, "functions": 40, "obligations": 2000}},
    "lex": {"kind": "engine", "secs": {"quick": 180, "thorough": 500}, "floors": {"functions": 5, "obligations": 200, "emit_sites": 1}},
    "cli": {"kind": "engine", "secs": {"quick": 150, "thorough": 400}, "floors": {"functions": 3, "obligations": 20, "program_ends": 2}},
    "fmt": {"kind": "engine", "secs": {"quick": 500, "thorough": 700}, "floors": {"functions": 20, "obligations": 500, "emit_sites": 1, "pairs_of_neighbours": 200}},
    "print": {"kind": "engine", "secs": {"quick": 60, "thorough": 200}, "floors": {"functions": 1, "obligations": 100, "markers_at_levels": 100, "ends": 1}},
    "tree": {"kind": "engine", "secs": {"quick": 40, "thorough": 100}, "floors": {"functions": 3, "obligations": 50, "ends": 3, "nesting": 3}},
    "effects": {"kind": "python", "floors": {"functions": 100, "call_sites": 1000}},
}

MIR_TRUST = [
    "rustc nightly's type check and MIR construction; the dumper in /verif/driver",
    "the models of standard-library functions in /verif/engine/src/stdlib.rs (Vec, Option, String, iterators, formatting)",
]
LEXIS_TRUST = "spec/lexis.txt (words and signs) and the reference automaton in engine/src/lex.rs state the lexical rules of Modelica 3.5 section 2, with the leniency that an exponent may lack its digits"
GRAMMAR_TRUST = "spec/grammar.txt states the supported Modelica grammar (Modelica 3.5 appendix A plus the leniencies noted there)"

PROPS = {
    "C06": {
        "technique": 'abstract interpretation of the type-resolved MIR over symbolic token streams, with cycle (progress) analysis',
        "note": "Lexer: every character sequence; parser: every token sequence and production, assuming enough stack for the nesting depth. Trusts rustc's MIR and the models of standard-library functions. Constructs the interpreter cannot follow are reported as UNDECIDED, never as violations.",
        "clients": ["parse", "lex"],
        "rule": "no reachable panic, no cut of the source outside character boundaries, and no cycle of the call graph or control flow of the lexer or parser on which no character or token is consumed and no budget shrinks",
        "explanation": "Abstract interpretation of the lexer on the product of its control flow and a symbolic character stream (sets of characters split by the tests the code makes), and of every function of the parser on the product of its control flow and a symbolic token stream (unknown token kinds, materialised on demand), for every entry production and every token sequence including malformed ones; panics reachable in the product are reported at the statement, and cycles of the product without token progress are reported as possible hangs.",
        "assumptions": MIR_TRUST + ["the stack is deep enough for the nesting depth of the source"],
    },
    "C12": {
        "technique": 'abstract interpretation of the type-resolved MIR over symbolic token streams, compared with grammar automata',
        "note": "Covers every token sequence and entry production; trusts rustc's MIR, the models of standard-library functions, and (C12, C13) the grammar in spec/grammar.txt. Constructs the interpreter cannot follow are reported as UNDECIDED, never as violations.",
        "clients": ["parse"],
        "rule": "for every production, on every token sequence that still can become a sentence of it, the parser reports no error, chooses the right alternative and does not return early",
        "explanation": "The grammar (spec/grammar.txt) is compiled to automata over tree children; the parser's functions are interpreted on symbolic token streams constrained to be sentences, and each decision is compared with the automaton of the node being built.",
        "assumptions": MIR_TRUST + [GRAMMAR_TRUST],
    },
    "C13": {
        "technique": 'abstract interpretation of the type-resolved MIR over symbolic token streams, compared with grammar automata',
        "note": "Covers every token sequence and entry production; trusts rustc's MIR, the models of standard-library functions, and (C12, C13) the grammar in spec/grammar.txt. Constructs the interpreter cannot follow are reported as UNDECIDED, never as violations.",
        "clients": ["parse"],
        "rule": "whenever a node is closed without an error having been reported, the events emitted for it form a word of its production; no token is skipped or left over; events are balanced",
        "explanation": "Same product as C12, over all token sequences: the children recorded for every node are run through the automaton of the node's kind, so each path that ends without an error has followed the grammar.",
        "assumptions": MIR_TRUST + [GRAMMAR_TRUST],
    },
    "C11": {
        "technique": 'abstract interpretation of the type-resolved MIR over symbolic character streams, in lock-step with a reference automaton',
        "note": "Covers every character sequence (non-ASCII included); keywords are told apart by the comparisons the code makes with the word. Positions are symbolic boundaries between characters. Constructs the interpreter cannot follow are reported as UNDECIDED, never as violations.",
        "clients": ["lex"],
        "rule": "each token, comment and lexical error reported by the lexer is the next one of the reference automaton for the same characters: same kind, longest match, same start and end, text exactly that slice, right list, running number; at the end nothing is left over",
        "explanation": "The lexer's functions are interpreted on a symbolic character stream. The reference automaton (Modelica 3.5 section 2) reads the same characters; each push to a list of tokens or errors is compared with what the automaton has completed.",
        "assumptions": MIR_TRUST + [LEXIS_TRUST],
    },
    "C14": {
        "technique": 'abstract interpretation of the type-resolved MIR over symbolic character and token streams: provenance of the position in each message and in each token',
        "note": "Covers every character and token sequence and entry production. Constructs the interpreter cannot follow are reported as UNDECIDED, never as violations.",
        "clients": ["parse", "lex"],
        "rule": "the position stored in every token is line and column (in characters, from 1) of its first character; every error message starts with name:line:column: of the token looked at when the error was found (the last token at the end of the input) or of the first character of the text that is no token",
        "explanation": "The format arguments of each error message are tracked symbolically down to the token and position field they come from; the lexer's positions are symbolic boundaries between characters, so each line and column is compared with that of the boundary it must belong to, across line ends and non-ASCII characters.",
        "assumptions": MIR_TRUST + [LEXIS_TRUST],
    },
    "C19": {
        "technique": 'effect analysis over the resolved call graph',
        "note": 'Decides that no outside influence, global mutable state or hash order can reach the results of the library; functions of the standard library outside the table are taken to be functions of their arguments.',
        "clients": ["effects"],
        "rule": "no function reachable from the library's entry points calls a source of outside influence, touches global mutable state, or iterates over a collection in hash order",
        "explanation": "Effect analysis over the resolved call graph of the library (generic instances, closures and reachable standard-library bodies included).",
        "assumptions": MIR_TRUST[:1] + ["standard-library functions outside the table in checks/effects.py are functions of their arguments"],
    },
}


CLI_ASSUME = MIR_TRUST + [
    "standard-library functions of std::env, std::fs, std::path and std::io do what their documentation says; writing to standard output and error succeeds",
    "parse and pretty_print of the library are taken as they are specified (they are decided by the other properties)",
]
CLI_TECH = "abstract interpretation of the type-resolved MIR of the program over a symbolic command line, directory tree and file outcomes, with typestate per path"
CLI_NOTE = "Covers every command line, mix of files and directories, and outcome of every file operation; paths and texts are symbolic, loops are followed to a fixed point. Code the interpreter cannot follow is reported as UNDECIDED, never as a violation."


def _cli(rule, explanation):
    return {"technique": CLI_TECH, "note": CLI_NOTE, "clients": ["cli"], "rule": rule, "explanation": explanation, "assumptions": CLI_ASSUME}


CLI = {
    "C07": _cli("a file is opened for writing or written only if it is a .mo file that was read and parsed without errors, outside check mode, with the formatted text of the same file followed by one end of line; no other call that changes the file system is reachable",
                "Each path met carries a typestate (kind, extension, read, parsed, errors, compared, written); it is checked at every call that can change the file system, and the text written is traced back to the formatter's result for the same file."),
    "C08": _cli("at every end of the program each path met has been handled completely, and the exit status is 1 exactly if one of them failed",
                "The typestate of a path is judged when nothing refers to it any more or the program ends; whether any path failed is compared with the value given to exit. Panics are violations."),
    "C09": _cli("in check mode the text with its end of line is compared with the unchanged contents, and the verdict printed and the exit status follow the outcome",
                "The operands of the comparison are traced to the formatter's result and the file's contents; each verdict printed is compared with the outcome of the comparison on that path."),
    "C10": _cli("each directory entry is searched if it is a directory, processed if it is a .mo file and left alone otherwise, and no collection of paths is dropped before it has been walked through",
                "Directory entries are symbolic, with unknown type and extension; every path through the search is judged by what the program has found out about the entry before it is dropped."),
    "C23": _cli("for each class of first argument the output stream, the exit status and the paths processed are those documented",
                "The command line is split on demand by the comparisons the program makes with its arguments; each end of the program is compared with what its class of command lines demands."),
}
PROPS.update(CLI)

FMT_ASSUME = MIR_TRUST + [
    GRAMMAR_TRUST,
    "the tree given to the formatter follows the grammar (decided by C12 and C13) and the positions of its tokens grow with the source (decided by C14)",
]
FMT_STYLE = ["the style sheet in engine/src/fmt.rs (what belongs between each two neighbours of a production) states the documented code style; it is read off code-style.md and the samples"]
FMT_TECH = "abstract interpretation of the type-resolved MIR of the formatter over symbolic trees drawn from the grammar, in lock-step with a style automaton"
FMT_NOTE = "Covers every tree the grammar allows, with every combination of line distances between its tokens (0, 1, 2 or more lines apart) and, unless stated otherwise, with up to one comment before each token. Texts are symbolic. Code the interpreter cannot follow is reported as UNDECIDED, never as a violation."


def _fmt(rule, explanation, note="", style=True, clients=("fmt",)):
    return {"technique": FMT_TECH, "note": (FMT_NOTE + " " + note).strip(), "clients": list(clients), "rule": rule, "explanation": explanation,
            "assumptions": FMT_ASSUME + (FMT_STYLE if style else [])}


FMT = {
    "C01": _fmt("every token marker carries the unchanged text of the token that comes next in the source order of the tree, and no part of the tree is dropped before its tokens have been printed",
                "The tree is a symbolic object whose children are drawn from the automaton of its production; what is still to be printed is kept as a sequence owned by the program's values, so that a token printed out of turn, twice, or dropped is seen at the statement where it happens.",
                style=False),
    "C02": _fmt("two neighbouring words or numbers, and symbols that would combine, are never printed without white space between them",
                "At every token printed directly after another one, the pair of token kinds is looked up in the table of kinds that would be read as something else when joined.", style=False),
    "C03": _fmt("each comment is printed exactly once with its unchanged text, after all tokens and comments that precede it in the source and before all that follow it; after a comment that lasts to the end of the line nothing else is printed on that line; comments after the last token are printed too",
                "The list of comments is symbolic: at each look into it the analysis splits on whether there is none left, whether the next one belongs before the next token or later, its kind and its distance in lines; the comments due before a token are an ordered ghost list which must be empty when the token is printed.",
                "At most two comments without a token between them in whole files (one for other entries); comments in each place of the tree.", style=False),
    "C04": _fmt("no reachable panic, failed assertion, arithmetic overflow or access out of range in the formatter, for every production as entry",
                "Every panic edge of the formatter's MIR is checked for reachability in the product with the grammar; line arithmetic is judged by the order of the positions in the source.", style=False),
    "C05": _fmt("every Indent is matched by a Dedent on every path through a construct, no Dedent goes below the margin, and each line starts at the level of its construct",
                "The level is tracked relative to the nodes of the tree and compared with the level the style sheet gives each line; the level at the end must be that at the start."),
    "C15": _fmt("between two neighbours that stay on a line there is one space or none, as the production they meet in demands",
                "At every token printed, the white space since the previous token is compared with what the style sheet demands for this pair of neighbours in this production."),
    "C16": _fmt("a line break is put exactly where the production demands one, at the level the production demands",
                "At every token printed, the line break or its absence is compared with the style sheet, together with the level of the new line."),
    "C17": _fmt("in each list either all items start on their own line or none does, decided by the source's line breaks in the construct and by what it always wraps",
                "The facts the style sheet asks (is the construct spread over lines, does it hold a description or annotation, how many items) are symbolic facts of the tree that the program's own tests refine, so that a wrong or partial test shows as a mismatch on some path."),
    "C18": _fmt("a binary operator starts a new line exactly if its right operand starts on a later line than its left operand ends, and all wrapped lines of an expression are indented once",
                "Distances in lines between tokens are symbolic (0, 1, 2 or more); the comparisons the program makes refine them and the style sheet asks the same distances."),
    "C21": _fmt("no two pieces of white space in a row, none before the first or after the last token",
                "The white space since the last token is tracked as a sequence on every path."),
    "C22": _fmt("an empty line is printed exactly where the style demands one, or where it is optional and the source has one",
                "Where the style leaves it open, the outcome is compared with the distance in lines from the previous token."),
}
for _p in ("C02", "C03", "C04", "C21", "C22"):
    FMT[_p]["env"] = {"ENGINE_ROW": "2"}
PRINT = {
    "C01": "each token marker's text appears once, unchanged and in order in the text",
    "C03": "each comment marker's text appears once, unchanged and in order in the text",
    "C04": "no panic or overflow of the level while printing",
    "C05": "each new line starts with two spaces per level",
    "C15": "a space marker becomes exactly one space",
    "C16": "a break marker becomes one end of line and nothing else does",
    "C21": "no white space is printed that no marker asks for, none at the end of a line",
    "C22": "a blank marker becomes two ends of line, a break marker one",
}
for _p, _t in PRINT.items():
    FMT[_p]["clients"].append("print")
    FMT[_p]["rule"] += "; in the printer: " + _t
    FMT[_p]["explanation"] += " The printer is run on a symbolic list of markers (every sequence the formatter may make, levels up to 24, 60 in the thorough tier); the text it collects is compared, piece by piece, with the text the markers stand for."
PROPS.update(FMT)

TREE = {
    "C01": "the tree holds the tokens of the source once and in order, as the events say, and the parts of the library are given each other's results unchanged",
    "C03": "the lexer's comments reach the formatter unchanged",
    "C04": "building the tree cannot panic",
    "C06": "putting the parts of the parser together cannot panic",
    "C11": "the lexer is given the source and its results are handed on unchanged",
    "C12": "the parser is given the lexer's tokens and the production asked for",
    "C13": "the errors of the lexer and of the parser all are in the result, and the tree is the one the events describe",
    "C14": "lexer and parser are given the name of the source",
}
for _p, _t in TREE.items():
    PROPS[_p]["clients"].append("tree")
    PROPS[_p]["rule"] += "; where the parts are put together: " + _t
    PROPS[_p]["explanation"] += " The construction of the tree is run on symbolic lists of tokens and events (every balanced sequence, four levels of nesting, any width and kind), and the functions that put the parts together on symbolic results of each part."

NOT_APPLICABLE = {}
NOT_APPLICABLE["C20"] = "relates the layout of one run's output to the next run's decisions over the positions of every token in arbitrary texts (a hyperproperty of two runs over runtime columns and lines); no sound static argument in reach bounds it, and its necessary conditions are decided under C05, C16, C17, C18, C21 and C22"
