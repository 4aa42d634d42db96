"""Genuine defects recorded, not repaired: one entry per failing case, with the wrong output it gives."""
def f(prop, case, got, what):
    return {"property": prop, "case": case, "got": got, "what": what}

_twice = "the target's own subexpressions are evaluated more than once: "
FINDINGS = [
    f("C06", "target a[T(1, 2)] += 7;", ["1", "1", "7"], _twice + "a[T(1, 2)] += 7"),
    f("C06", "target a[T(1, 2)]++;", ["1", "1", "1"], _twice + "a[T(1, 2)]++"),
    f("C06", "target ++a[T(1, 2)];", ["1", "1", "1"], _twice + "++a[T(1, 2)]"),
    f("C06", "target O(1, x).f += 7;", ["1", "1", "7"], _twice + "O(1, x).f += 7"),
    f("C06", "target O(1, x).f++;", ["1", "1", "1"], _twice + "O(1, x).f++"),
    f("C06", "target ++O(1, x).f;", ["1", "1", "1"], _twice + "++O(1, x).f"),
    f("C06", "target m[T(1, 1), T(2, 0)] += 7;", ["1", "2", "1", "2", "7"], _twice + "m[T(1, 1), T(2, 0)] += 7"),
    f("C07", "long w = 4294967297L; switch (w) { case 1: o.T(5); break; case 2: o.T(4); break; default: o.T(6); break; }", ["222"],
      "a switch on a long compares only its low 32 bits: 4294967297 takes case 1"),
    f("C13", "unbox UA as UB", ["6"], "unboxing a custom struct to another custom struct type is not checked: (UB)o for a boxed UA gives its bytes"),
]
EXTRA_MAP = {"project compiled by itself": "C28", "default name of its own": "C28", "another kind of file": "C28", "file pattern without": "C28", "files of a folder": "C28", "projects that are written": "C28", "files with comments": "C28", "not well-formed": "C28", "leave constants out": "C26", "16th and later": "C27", "treat enums as value types": "C23", "enum members that refer": "C23", "local constants are constant": "C23", "uninitialised bits": "C22", "two words of access": "C21", "assignment of a struct its value": "C11", "assignment to a ref": "C11", "form feed": "C19", "closing bracket": "C19", "this and base": "C21", "types of assignments": "C20", "failed compilations": "C20", "match out arguments": "C20", "exception stack": "C08", "empty try block": "C08", "run compiled assemblies": "C18", "types of other assemblies": "C18", "overridden across assemblies": "C18", "by a delegate": "C16", "a delegate returns": "C16", "instance of a delegate": "C16", "delegate without": "C16", "array indexes and lengths as int": "C14", "length of a dimension": "C14", "length of every dimension": "C14", "initial values of an array": "C14", "virtual methods": "C12", "interface calls": "C12", "member is accessed": "C12", "arrays of interface": "C12", "unboxing a custom": "C13", "virtual tables of array": "C13", "tested by is": "C13", "box and unbox": "C13", "box constants": "C13",
 "switch by values": "C07", "tighter": "C06", "sign after an index": "C19", "base types by": "C21", "cache stores": "C09", "constructor of the base": "C26", "constructors of base classes": "C26", "space of their own": "C10", "throwing null": "C08", "box the result": "C13", "assignments of strings": "C17", "struct element": "C11"}
