#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks."""
import json
ABS = "static analysis: abstract interpretation of the compiler's IR"
C = {
 "C01": ("static analysis: effect analysis over the call graph, address flow of objects that outlive a call, and " + ABS[len("static analysis: "):] + " for uninitialised reads", "proof",
         "Everything that can run below an exported gas or run function; library functions outside the listed sources are taken to depend on their arguments only."),
 "C03": (ABS + " (byte tape of unbounded length, bounds and initialisation checks)", "proof",
         "Fixpoint over all texts of any length; strings and vectors of libstdc++ are modelled, not analysed."),
 "C04": (ABS + " in step with a grammar transducer", "proof",
         "Fixpoint over all texts of any length and nesting depth; recursion is summarised by a learned contract of parse_value that is checked on the way."),
 "C05": (ABS + " in step with a grammar transducer; content summaries", "proof",
         "Covers what the parser reports to its callbacks and what the callbacks build."),
 "C02": (ABS + " of every operation behind an arbitrary argument value, per type shape of the argument list", "proof",
         "Every list length and element type is covered; example operations have recorded findings."),
 "C06": (ABS + ", the output read by a JSON recogniser in step with the value", "proof",
         "Texts, lists and objects of any length; nesting by induction; the iteration of the member table is abstract (C12, C19); the digits of an integer are written by boost, which is trusted."),
 "C07": (ABS + " of each value operation on every kind of value, with symbolic contents and ownership tracking", "proof",
         "Single operations from every kind of state compose to all histories; member tables and big integers are abstract contents; lists of up to two elements."),
 "C08": (ABS + " of an operation with arbitrary own code over every call history (fixpoint)", "proof",
         "The parser is replaced by an arbitrary value or a failed parse."),
 "C09": (ABS + " with a typestate monitor for the operation object and the returned memory", "proof",
         "All exported gas and run functions of the shipped libraries and examples."),
 "C10": (ABS + " of both tools with a monitor of the command line read word by word", "proof",
         "Any number of words; in the quick check at most one unusual positional word at a time (all combinations in the thorough one)."),
 "C11": (ABS + " of every operation of the container on run-length abstractions of its elements, against the sequence model", "proof",
         "Every size, capacity, position and count; element types are one bytewise and one class type; algorithms of libstdc++ are modelled; findings behind hand-written loops must be confirmed with constant sizes."),
 "C12": (ABS + " of every operation from every arrangement of empty, erased and used buckets, with opaque keys, hashes and values, against the map model", "bounded",
         "Tables of up to 4 buckets (5 in the thorough check, without growth), every hash function on them; any size for the arithmetic that keeps a bucket empty; single operations compose to histories because each must end in one of the arrangements again."),
 "C14": (ABS + " with typestate of cipher-library objects and linear buffer bounds", "proof",
         "OpenSSL functions are modelled by their documented contract, with every call free to fail."),
 "C13": (ABS + " in step with a coding transducer, linear length facts", "proof",
         "Fixpoint over all texts of any length; string streams and std::string are modelled."),
 "C15": (ABS + " of the operation for every length of its text with any bytes in it; of the hash for any block, with a typestate of its SHA-256 contexts", "proof",
         "All 161 admitted lengths and all longer texts; the mixing rounds are checked for memory only."),
 "C16": ("static analysis: type-level witnesses of the integer aliases and " + ABS[len("static analysis: "):] + " of every to_string instantiation", "proof",
         "Widths, signs and storage are obligations of the type system; printing is followed to the conversion primitive of boost, which is trusted."),
 "C17": ("static analysis: type-level witnesses of the error classes, exception-flow analysis over the call graph, " + ABS[len("static analysis: "):] + " of every message", "proof",
         "Every identifier, every base class, every throw site of the library's own code; recursion and calls through pointers in the exception flow are over-approximated."),
 "C18": (ABS + " into a finite automaton over bytes with bit-level transformers, product construction over substring and superstring", "proof",
         "All pairs of texts of any length; isupper and its siblings are modelled for the C locale."),
 "C19": (ABS + " of every iterator operation, vector positions and offsets as linear unknowns, hash table positions over every arrangement of buckets", "bounded",
         "Vector iterators: any positions, offsets and lengths, items of 1, 8 and 24 bytes. Hash table iterators: tables of up to 4 buckets (5 in the thorough check)."),
 "C23": ("static analysis: effect and address-flow analysis over the call graph from every string hash function, and " + ABS[len("static analysis: "):] + " on keys of any length with bounded measures for every loop", "proof",
         "Keys of fewer than 2^60 bytes with opaque content; the characteristic ES is followed bit by bit (as in C18)."),
}
NA = {
 "C20": "The json operation lives under examples, where it breaks this property on most malformed inputs (arguments unchecked, tokens[0] of an empty list, a negative token count); examples may not be changed here, so there is neither a repair nor a tree on which a check could be quiet without listing nearly every statement of the file as a known finding.",
 "C21": "Running time and stack depth are runtime quantities; the recursive descent parser has no bound on nesting, and no static rule distinguishes acceptable cost from unacceptable cost here.",
 "C22": "Numerical equality with scrypt and RSA depends on the arithmetic of the hash rounds and of the cipher library; no dataflow or type argument decides it.",
}
ids = [json.loads(l)["id"] for l in open("properties.jsonl")]
m = {"version": 1, "setup_cmd": "./setup.sh", "checks": [], "not_applicable": []}
for i in ids:
    if i in C:
        t, l, n = C[i]
        m["checks"].append({"property": i, "quick_cmd": "python3 run.py %s" % i, "thorough_cmd": "python3 run.py %s thorough" % i,
                            "technique": t, "level": l, "level_note": n})
    else:
        m["not_applicable"].append({"property": i, "reason": NA.get(i, "No check has been built for it yet.")})
json.dump(m, open("MANIFEST.json", "w"), indent=1); open("MANIFEST.json", "a").write("\n")
