#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that statements stay readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Operations are deterministic functions of their argument text",
  "The gas estimate and the result of every shipped operation are determined by the text of its arguments alone. They never depend on time, randomness, the environment, memory addresses, uninitialised memory or what the process did before, and no operation keeps state that a later call can see.",
  ["inputs", "histories", "schedules"],
  "every argument text, every earlier sequence of calls in the same process, every machine and memory layout",
  "The consensus test runs a handful of inputs a few times on one machine; a clock, an address or a stale byte that matters only sometimes is invisible to it.",
  ["include/eni/eni.h", "include/eni/json/Parser.h", "tools/eni_crypto/eni_crypto.cpp", "tools/eni_scrypt/eni_scrypt.cpp", "tools/eni_scrypt/scrypt.cpp", "examples/eni/reverse/eni_reverse.cpp", "examples/eni/json/eni_json.cpp"],
  [("no hidden inputs in anything reachable from the exported operations", "call graph from the *_gas and *_run functions"),
   ("fixed padding in RSA", "tools/eni_crypto/eni_crypto.cpp"), ("zero-filled input block", "tools/eni_scrypt/eni_scrypt.cpp")])

p("C02", "Operations refuse missing or wrongly typed arguments",
  "Each shipped operation reads an argument as a string or an integer only when the argument list is an array that has that argument with that type. Given any other argument list the operation is refused (the fixed refusal gas, no result) and no exception leaves it because of it.",
  ["inputs"], "every JSON value as argument text: every length of the list and every combination of element types",
  "Tests only call the operations with well-formed arguments.",
  ["include/eni/eni.h", "tools/eni_crypto/eni_crypto.cpp", "tools/eni_scrypt/eni_scrypt.cpp", "examples/eni/reverse/eni_reverse.cpp", "examples/eni/json/eni_json.cpp"],
  [("size and type tests before each access", "the parse() of every operation"), ("root type test", "EniBase::check")])

p("C03", "Reading JSON text never leaves the text",
  "Whatever text the JSON parser is given, well-formed or not, it examines no byte outside the text and its terminator. It neither moves beyond the end of the text nor reads uninitialised data while doing so.",
  ["inputs"], "every byte string of every length, including truncated escapes and literals at the end of the text",
  "Tests feed about twenty texts; over-reads of a few bytes behind a std::string do not fail a test.",
  ["include/eni/json/Parser.h"], [("end-of-text tests and the terminator acting as a sentinel", "Parser::have, Parser::expect, Parser::parse_string, Parser::valid_code")],
  [("cursor", "next byte to examine", "Parser::m_It"), ("end", "one past the last byte", "Parser::m_End")])

p("C04", "The parser accepts exactly the documented JSON subset",
  "A text is accepted if and only if it is one value, optionally surrounded by blanks, tabs, line feeds and carriage returns: true, false, an integer without leading zeros, a double-quoted string with the JSON escapes, an array or an object of such values (no fractions, exponents or null). Every other text is refused, and refusal is reported as a failed parse and never as anything else.",
  ["inputs"], "all texts over all 256 byte values, of every length and nesting depth",
  "Acceptance is a statement about infinitely many texts; the tests sample about twenty of them.",
  ["include/eni/json/Parser.h"], [("recursive descent over the text", "Parser::parse_value and the functions it calls"), ("failure path", "Parser::parse_error and the constructor's handler")],
  observe=["bool(Parser)"])

p("C05", "Parsing yields exactly the value the text denotes",
  "For every accepted text the resulting value has the types, booleans, integer digits and sign, string bytes (escapes decoded; code points up to 0xFF as one byte), element order and member values the text denotes, where a repeated member name keeps its last value. Nothing of one part of the text ends up in another part of the value.",
  ["inputs"], "all accepted texts of every length and nesting",
  "Tests compare a handful of parsed values.",
  ["include/eni/json/Parser.h", "include/eni/json/Callbacks.h"], [("value events", "Parser::parse_*"), ("tree building with a stack of open containers", "Callbacks")])

p("C06", "Printed values are JSON that reads back as the same value",
  "Printing any value built of booleans, integers, strings, arrays and objects gives text in which every string and member name is a JSON string literal that decodes to exactly the bytes printed, elements and members appear each once (elements in order) with commas between them, and brackets match. Hence the text is JSON and parsing it gives an equal value.",
  ["inputs"], "every value: every byte in strings and member names, every number of elements, members and nesting",
  "Tests print a few values without special characters.",
  ["lib/json/Value.cpp", "lib/json/Array.cpp", "lib/json/Object.cpp"], [("escaping", "Value::print"), ("separators and brackets", "Array::print, Object::print")])

p("C07", "JSON values own their contents and copies are independent",
  "Copying or assigning a value, array or object gives the same type and an equal but separate content, leaving the source unchanged; moving leaves the source empty; and taking over existing content is refused when the value already holds something. No sequence of constructing, copying, moving, assigning and destroying releases any content twice, releases content that is still in use, or lets a value of one type be read as another.",
  ["histories", "inputs"], "all values of all types and all sequences of these operations, including self-assignment",
  "Tests copy one or two values; double release and sharing need particular sequences to show.",
  ["lib/json/Value.cpp", "lib/json/Notation.cpp", "include/eni/json/Value.h", "lib/json/Array.cpp", "lib/json/Object.cpp"],
  [("type tag decides the live member", "Value's constructors, operator= and destructor"), ("moved-from values lose their tag", "Notation's move operations")])

p("C08", "An operation parses once, and only a successful parse is charged or run",
  "Over any sequence of gas estimates and runs on one operation object, its arguments are parsed exactly once and before anything else; gas and run code execute only if that parse succeeded. If it failed every gas estimate is the fixed refusal gas and every run gives no result; otherwise a gas estimate is what the operation computes, and a run gives the printed list of exactly that run's results, or no result when the run fails.",
  ["histories", "inputs"], "every sequence of getGas and start calls, every outcome of parse, gas and run",
  "The unit tests make two calls in a row on one operation.",
  ["include/eni/eni.h", "lib/eni.cpp"], [("parse-once flags", "EniBase::check"), ("guards in getGas and start", "include/eni/eni.h")],
  [("parsed / parse success", "whether and how the parse ended", "EniBase")])

p("C09", "The C interface hands over results and keeps nothing",
  "Every exported gas and run function builds its operation from the given argument text, asks it exactly once for its gas or its result, destroys it exactly once on every path that returns, and returns exactly what the operation reported. The memory it returns is separate from the operation, can be released with free, and is never released or changed afterwards by the library.",
  ["inputs", "histories"], "all exported functions, all argument texts and outcomes",
  "Leaks, early release and mismatched release functions do not fail a functional test.",
  ["include/eni/eni.h", "tools/eni_crypto/eni_crypto.cpp", "tools/eni_scrypt/eni_scrypt.cpp", "examples/eni/reverse/eni_reverse.cpp", "examples/eni/json/eni_json.cpp", "tools/eni_cli/eni_gas.cpp", "tools/eni_cli/eni_run.cpp"],
  [("exported wrappers", "ENI_GAS, ENI_RUN"), ("malloc and strdup results", "include/eni/eni.h")])

p("C10", "The command line tools report what happened by exit status and output",
  "eni_gas and eni_run accept exactly three positional arguments in the order library, operation, parameters (words starting with a dash are options until a double dash), and load that library, call that operation's gas or run function with those parameters, and print exactly its result on standard output with status 0. A usage error, a library that does not load, a missing function and an operation without result end with their own distinct nonzero status and print nothing on standard output.",
  ["inputs", "fault_sequences"], "all argument vectors and all outcomes of loading, symbol lookup and the operation",
  "The shell tests run only successful invocations.",
  ["tools/eni_cli/eni_gas.cpp", "tools/eni_cli/eni_run.cpp", "tools/eni_cli/optParser.cpp", "tools/eni_cli/ceni.h"],
  [("status returns", "main of eni_gas and eni_run"), ("positional parsing", "Opt::parse")])

p("C11", "Vector bounds checks are exact and its storage is never overrun",
  "Checked element access, insertion and erasure throw the out-of-range error exactly when the position is outside the vector (a range being valid when it is non-empty, ordered and ends at most at the size), and growth beyond the maximum size throws the length error; when nothing is thrown the elements afterwards are exactly those of a sequence with that operation applied. Running out of memory gives the bad-allocation error. No operation, unchecked access within the size included, reads or writes elements outside the allocated storage, loses it or releases it twice, and an element passed by reference may be one of the vector's own.",
  ["inputs", "histories"], "all sizes, capacities, positions, counts and ranges, all elements that can be copied bytewise or assigned",
  "Tests use one or two sizes per operation; off-by-one errors at the end and in reallocation need other ones.",
  ["include/eni/adt/Vector.h", "include/eni/adt/bits/Vector.tcc"], [("bounds tests", "Vector::at, insert, erase, reserve"), ("storage growth", "Vector::reserve")],
  [("size and capacity", "elements in use and allocated", "Vector")])

p("C12", "Hash tables and string maps behave as maps for every history",
  "After any history of insertions, erasures, lookups, rehashes, copies and moves, a lookup finds a key if and only if it was inserted and not erased since, with the value last stored for it, and iteration visits every entry exactly once. Colliding and erased keys, full chains and rehashing never lose, duplicate or invent entries, every search terminates, and copies own separate entries.",
  ["histories", "inputs"], "all histories, keys, hash functions (including constant ones) and table sizes",
  "Tests use a few hundred integer keys with one hash function; the invariants of probing and tombstones must hold for every history.",
  ["include/eni/adt/HashBase.h", "include/eni/adt/HashTable.h", "include/eni/adt/HashIterator.h", "include/eni/adt/StringHashTable.h", "include/eni/adt/StringMap.h", "include/eni/adt/bits/HashBase.tcc", "include/eni/adt/bits/HashTable.tcc", "include/eni/adt/bits/HashIterator.tcc"],
  [("linear probing with tombstones", "TableImpl::lookupBucketFor, findKey"), ("an empty bucket always remains", "TableImpl::mayRehash"), ("counters", "HashTable::insert, erase")],
  [("buckets, entries, tombstones", "table state", "TableImpl")])

p("C13", "Hexadecimal coding is exact and strict",
  "Encoding gives two lowercase hexadecimal digits per byte, for every byte, in order. Decoding accepts exactly the texts of even length that consist of hexadecimal digits of either case, inverts the encoding, and refuses every other text.",
  ["inputs"], "all byte strings and all texts", "Tests encode and decode one example.",
  ["tools/eni_crypto/eni_crypto.cpp"], [("digit conversion", "str2hex, hex2str")])

p("C14", "RSA operations stay inside their buffers and release what they take",
  "For every key and message, each RSA primitive gives the cipher library an output buffer at least as large as the key and exactly the readable message, uses a result only when the cipher library reported success and only as many bytes as it reported, refuses a message that does not fit, and never pads randomly. Every key and every temporary object obtained from the cipher library is released exactly once on every path, including failures.",
  ["inputs", "fault_sequences"], "all key sizes, message lengths and outcomes of the cipher library's functions",
  "Tests use two keys and short messages that succeed.",
  ["tools/eni_crypto/eni_crypto.cpp", "tools/eni_crypto/eni_crypto.h"], [("buffer sizing", "rsa::pub_encrypt and siblings"), ("key lifetime", "RSAEncrypt, RSADecrypt, rsa::create_*, rsa::destroy")])

p("C15", "The scrypt operation hashes exactly the bytes it was given",
  "The scrypt operation accepts exactly hexadecimal texts of at most 160 digits (an odd number reads as if a zero digit came first), hashes the 80-byte block that starts with the decoded bytes and is zero after them, and returns all 32 digest bytes as 64 lowercase hexadecimal digits; its gas is ten per input byte, rounded up. No access of the operation or of the hash code leaves its buffers.",
  ["inputs"], "all argument strings", "Tests use vectors of a single length.",
  ["tools/eni_scrypt/eni_scrypt.cpp", "tools/eni_scrypt/scrypt.cpp"], [("input validation", "Scrypt::parse"), ("decode and encode loops", "Scrypt::run"), ("scratchpad indexing", "scrypt.cpp")])

p("C16", "The integer types have their documented widths and print for every type",
  "The library's integer types are exactly 64, 128, 160 and 256 bits wide unsigned and 256 bits signed, fixed size without heap allocation, the address and language aliases denote the documented ones, and the library provides the string conversion for each of them and for booleans (true and false).",
  ["programs"], "every program that uses the types", "Tests convert one small number of a few of the types.",
  ["include/eni/eni_types.h", "lib/eni_types.cpp"], [("type aliases", "include/eni/eni_types.h"), ("explicit instantiations", "lib/eni_types.cpp")])

p("C17", "Library errors are catchable by their standard base and carry their message",
  "Each error the library throws derives publicly and unambiguously from the standard exception class it is named after, so that a handler for that class catches it, and reports the message registered for its own identifier, both as that class and as std::exception. A failed JSON parse is never visible to the caller as an exception.",
  ["programs", "inputs"], "every error identifier, every base class, every throw site", "Tests check one identifier per base.",
  ["include/eni/diagnostic/Exception.h", "include/eni/diagnostic/DiagList.inc", "lib/diagnostic/Exception.cpp", "include/eni/json/Parser.h"], [("error class templates", "include/eni/diagnostic/Exception.h"), ("message table", "DiagList.inc")])

p("C18", "The string characteristic never rules out a real substring",
  "If one string occurs inside another, the inclusion test on their characteristics says that it may. This holds for all strings over all byte values and any number of dots.",
  ["inputs"], "all pairs of strings, one a substring of the other", "There is no test of it beyond construction.",
  ["include/eni/adt/StringHasher.h"], [("characteristic and inclusion test", "StringHasher<ES>")])

p("C19", "Iterators are consistently ordered and assignable",
  "The six comparisons of vector iterators agree with one another and with the distance between their positions, moving by an offset, stepping and subtracting agree with plain positions, post-increment gives the old position, and an iterator assigned from another denotes the same position; hash table iterators compare equal exactly when they denote the same position of the same walk, dereferencing one past the end throws instead of reading memory, and so does moving one that walks over all entries beyond the end. Every assignment operator of containers and iterators returns the assigned object.",
  ["inputs", "programs"], "all positions and offsets", "Tests compare one or two positions.",
  ["include/eni/adt/PointerIterator.h", "include/eni/adt/bits/PointerIterator.tcc", "include/eni/adt/HashIterator.h", "include/eni/adt/bits/HashIterator.tcc", "include/eni/adt/StringMap.h"],
  [("operators", "PointerIterator, HashIterator, EntryIterBase, ChainIterBase")])

p("C20", "The json operation looks only at the part of the text it was given",
  "The json operation refuses offsets that are negative, reversed or beyond the end of its text, an index that is not an integer and a member name that is not a string. Whatever the text is, it uses tokens only after the tokenizer succeeded, never one the tokenizer did not produce, and gives an empty result when there is none to give.",
  ["inputs"], "all texts, offsets, indices and names, all outcomes of the tokenizer", "Tests use well-formed texts and valid offsets.",
  ["examples/eni/json/eni_json.cpp"], [("argument checks", "JSON::parse"), ("token checks", "internalParse, arrayTokens, objectTokens, arrayGet")])

p("C21", "Hash functions never cost more than a walk over the key and nesting has no limit",
  "Parsing, hashing and printing take time linear in their input and stack bounded independently of it.",
  ["inputs"], "all inputs", "Performance and stack depth depend on run-time sizes.",
  ["include/eni/json/Parser.h", "include/eni/adt/StringHasher.h"], [("recursion", "Parser::parse_value")])

p("C22", "Cryptographic results are numerically right",
  "The scrypt digest equals scrypt(N=1024, r=1, p=1) of the block, RSA results equal textbook RSA on the padded block.",
  ["inputs"], "all inputs and keys", "Tests compare a few vectors; the numbers cannot be enumerated.",
  ["tools/eni_scrypt/scrypt.cpp", "tools/eni_crypto/eni_crypto.cpp"], [("salsa20/8 mixing, PBKDF2", "scrypt.cpp")])

p("C23", "String hash functions depend on nothing but the bytes of the key",
  "Every string hash function (RS, JS, PJW, ELF, BKDR, SDBM, DJB, DEK, BP, FNV, AP and the characteristic ES) ends with a value for every key of any length, reads no byte outside the key and its terminator and nothing uninitialised, and gives equal keys the same value: wherever and with whatever capacity they are stored, and whatever was hashed before.",
  ["inputs", "histories"], "every key of any length and content, every place it may be stored, every earlier call",
  "Tests hash a few short keys; keys of 2^32 bytes, reads just past the key and dependence on its storage do not show with them.",
  ["include/eni/adt/StringHasher.h", "include/eni/adt/StringHashTable.h", "include/eni/adt/StringMap.h"],
  [("hash functions", "StringHasher<NAME>::operator()")])

open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w").write("".join(json.dumps(x) + "\n" for x in P))
