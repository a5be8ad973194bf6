"""Adds the record of repaired defects to /verif/known_findings.json (entries of status "known" are kept as they are)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIXED = [
    ("C14", "5ad3972", "Struct.from_bytes accepted exactly one extra byte although exact was true"),
    ("C20", "5ef323d", "a field with a factory raised the missing-value error when its struct was dumped without a value for it"),
    ("C05", "93fdab6", "a float too large for its field raised OverflowError or struct.error instead of a SerializationError (also C02)"),
    ("C08", "86dadd3", "a negative size read from the data made a bytes field swallow everything up to the end"),
    ("C26", "f82e062", "a union ignored the null value, constant and validators of the field it loads with"),
    ("C07", "6cc42aa", "StringZ without terminator at the end of the data, or undecodable, raised the wrong kind of error (also C13, C17)"),
    ("C07", "7e609bf", "the length of the default of a StringZ limited how many bytes were loaded"),
    ("C15", "262165d", "a default made a variable-length struct report a fixed size"),
    ("C15", "cc20d50", "conditional fields counted towards sizes and offsets although absent (also C21)"),
    ("C22", "4aad0c6", "to_stream ignored the assigned value of a discarded field, and gave present callables no context (also C12, C21)"),
    ("C21", "64de780", "validators were called with NOT_PRESENT for absent fields (also C23)"),
    ("C17", "7a5c775", "partial_load lost discarded fields that later fields depend on (also C22)"),
    ("C16", "8c78483", "get_field failed for fields whose size, count or condition depends on other fields"),
    ("C18", "9c2c3d1", "partial_dump skipped computed fields, wrote absent ones and failed for dependent ones"),
    ("C07", "a19bd60", "StringZ with size and pad byte did not consume the padding it wrote (also C11)"),
    ("C02", "7f40d22", "text that cannot be encoded raised UnicodeEncodeError instead of a library error"),
    ("C28", "05ef20b", "Meta option defaults did not apply to floats, timestamps and the encoding of strings"),
    ("C29", "c0fe716", "a dataclass struct inheriting from another lost or reordered the inherited fields (also C27)"),
    ("C29", "3d5ada5", "validator methods in dataclass structs were ignored or refused (also C23)"),
    ("C29", "4576c99", "defaults and Optional were ignored for field instances and structs in annotations"),
    ("C10", "380ccc9", "timestamps were converted with floating-point arithmetic (off by one unit), out-of-range ones raised OverflowError or OSError"),
    ("C03", "e901b37", "LEB128 encoded -64, -8192, ... in one byte more than needed"),
    ("C08", "b3ff59d", "read_int with a negative size read everything up to the end (also C32)"),
    ("C12", "af3ebaa", "the context did not reach decision functions called while validating before a dump (also C21)"),
    ("C15", "a942220", "a union could not dump, or measure, the struct instance it had loaded (also C26)"),
    ("C30", "368e934", "comparing a struct with unset variable-length fields raised an error"),
    ("C19", "dfe885b", "a null value shorter than its field was not padded like other values"),
    ("C19", "4dbdfda", "dumping None for an unsized field with the default null value raised the wrong error"),
    ("C20", "0cf1403", "const could not be used with arrays, nested structs and unions"),
    ("C20", "7a6283e", "to_dict of a struct whose computed field depends on a missing value raised KeyError"),
    ("C26", "216d88e", "a union could not dump the None that it had loaded through the null value of a choice (also C19)"),
    ("C29", "0d08f30", "an annotation `X | None` did not declare a field"),
    ("C19", "2a2ec06", "None for a union without nullable choices reached the dump decider instead of being refused (since 216d88e)"),
    ("C22", "6e64a0a", "a struct loaded without a required discarded field could not be converted to a dictionary (also C30)"),
    ("C35", "148c40b", "the error for several struct bases named an internal class instead of the struct"),
]
path = os.path.join(ROOT, "known_findings.json")
old = [x for x in json.load(open(path)) if x.get("status") == "known"]
new = [{"status": "fixed", "property": p, "commit": c, "entry": f"fixed: property={p} {c} {w}"} for p, c, w in FIXED]
json.dump(old + new, open(path, "w"), indent=1)
print(len(new), "fixed,", len(old), "known")
