"""Registry of all rule modules."""
from . import r_fields, r_struct, r_io, r_time, r_fmt, r_keys, r_find, r_ref, r_pure, r_secret, r_seed

DEFAULT = ("Value-flow and effect analysis of /repo's current source: the public operations named by the property are "
           "summarised by an abstract interpreter over the syntax tree (gated terms, XPath normal forms, typed heap "
           "cells, ordered effects) and every obligation compares a summary with the behaviour the property states.")
EXPLAIN = {}

_S = "static analysis: "
_EFF = _S + "effect summaries of the abstract interpreter (net tree edits with path conditions) compared with the specified effect"
_EXC = _S + "typestate over the ordered effect events, with the exceptional exit of every external call followed through the handlers"
_FMT = _S + "abstract interpretation of the construct declarations as parser and as serialiser, compared field by field with the format"
_VAL = _S + "gated value terms of getters and setters compared with the specified accessor"
_XP = _S + "XPath normal forms of the symbolic query compared with the specified query"
TECH = {
    "C01": _EXC, "C05": _EXC, "C30": _EXC, "C02": _FMT, "C03": _FMT, "C08": _FMT, "C09": _FMT, "C10": _FMT,
    "C04": _S + "exception flow from each comparison of the format declaration through the handlers of read()",
    "C06": _S + "gated value terms of the derived keys compared with the documented derivation", "C07": _S + "gated value terms per class of key file content",
    "C11": _EFF, "C18": _EFF, "C19": _EFF, "C20": _EFF, "C21": _EFF, "C27": _EFF,
    "C12": _S + "purity: effect analysis of every read operation and of the serialiser", "C13": _S + "escape analysis of remembered values, with invalidation by every editing operation",
    "C14": _VAL, "C22": _VAL, "C26": _VAL, "C33": _VAL, "C15": _XP, "C17": _XP,
    "C16": _S + "string-provenance (injection) analysis of every query text", "C23": _S + "value flow of credentials into every serialiser and parser call",
    "C24": _S + "information flow from marked secrets to log, message, representation and file sinks",
    "C25": _S + "abstract interpretation of the resolver over constant reference strings and a symbolic document",
    "C28": _S + "reachability of contents in the declaration and in every member, with decryption off", "C29": _S + "value flow of destination and credentials through create_database()",
    "C31": _S + "effect and configuration analysis of everything reachable from opening", "C32": _S + "argument flow from each convenience method to the general search",
    "C34": _S + "value flow into the seed fields of the header on every save",
}
NOTES = {}
