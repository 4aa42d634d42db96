#!/usr/bin/env python3
"""Writes DESIGN.md from the texts here, mc/props.py, known_findings.json and seeded/*/meta.json (seeded is read here only, never by a check)."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.path.insert(0, V + "/mc")
import props
HEAD = """# Model checking april

april is a compiler for a C#-like language (`modules/lang_cs` parses, `modules/compile` analyses,
optimizes and emits an instruction set called xil, `modules/core` writes and reads assemblies) and a
virtual machine that runs them (`modules/rt` lays out types and methods, `modules/exec` turns xil into
commands and executes them, `core_lib` is the library). It has no threads, no network and no durable
state, so what a user relies on is: *every program means what the language says, at every optimize
level, of every size, split over any files and assemblies, whatever the heap looks like; and what is no
program is refused*. The 28 properties in `properties.jsonl` divide that guarantee.

This file is written by `mc/tools/design.py`.

## How a property is decided

All checks share one method: **explicit-state enumeration of a bounded space of programs, executed on the
real implementation, against a model**.

1. *The space.* Each `mc/cNN.py` enumerates its programs as nested products (types x places x operators x
   values, statement trees up to a number of nodes, histories of operations up to a depth, class
   hierarchies, placements over assemblies ...). Nothing is drawn at random; the quick tier lists the
   whole space of the stated bound, the thorough tier lists larger bounds.
2. *The model.* A small reference interpreter in Python (`num.py` for numbers, the generator of each check
   for its own constructs: a heap model for C11, an exception automaton for C08, a dispatch model for C12,
   an allocator-independent output for C22, an accept/reject relation for C20 and C21 ...) computes what
   each program prints. It is written from the language rules and shares no code with april.
3. *The binding.* There is no separate model of the implementation that could drift: **every trace of the
   model is replayed on the april built from /repo's working tree**, by default at optimize levels 0 and 2,
   and every line of output is compared. Evidence reports programs (model states explored from an initial
   state), executions (traces replayed) and transitions (observed steps: lines printed).
4. *Batches.* `fw.py` packs many programs of a space into one source file (each is a numbered method with
   declarations of its own) to make 10^4..10^5 programs affordable. If a batch differs, the suspicious
   program is run alone, twice; if it only fails in company, the batch is bisected to a small failing set.
   Only a failure that repeats is reported; one that does not is listed as "unreproduced" in the evidence
   and raises no alarm.
5. *The build.* Every check first builds /repo's working tree with `/opt/vp/build.sh` (products go to the
   folders git ignores) and works in scratch folders it removes. A tree that does not build gives exit 2.

A violation prints the program, the expected and the actual output, and writes the program to
`/verif/replay/<id>.cs` (`april run -O n <file> System.apl` repeats it).

Why this reaches what the tests cannot: the repository has 26 sample programs. The faults of a compiler sit
in combinations (type x place x context x level x neighbour), and a combination that no sample has is a
combination nobody ran. Each space below is the full product of the dimensions along which the code
branches.

Why program enumeration is the model checking that fits here: april is sequential and deterministic, so
there are no schedules or crash points to enumerate; the state space is the one spanned by its inputs,
which are programs. Where there is an environment with choices, it is enumerated instead: the heap layout
(C22, an allocator under control is the scheduler), the decisions a program's conditions take (C07, C08:
all sequences), the points at which a constructor or statement fails (C08, C15, C26), and the placement
and order of files and assemblies (C18). Data races and crash recovery do not exist in this code base.

## The properties

Cost: seconds of the quick tier on the 8 cores of this sandbox, without the build (7 s).
"""
COST = dict(C01=28, C02=16, C03=34, C04=34, C05=6, C06=18, C07=30, C08=20, C09=13, C10=41, C11=95, C12=20, C13=45, C14=28, C15=30, C16=18, C17=75, C18=28, C19=14, C20=60, C21=25, C22=100, C23=11, C24=95, C25=14, C26=15, C27=98, C28=68)
MODEL = dict(
 C01="`num.py`: integers of unbounded size reduced to the result type after each operation; the result type by april's table (see statement). Operands come from literals, locals, parameters, fields, elements, calls, constants, so that constant folding and every push/pop/convert command is reached.",
 C02="as C01, on bit patterns; right shifts are arithmetic on signed types.",
 C03="numbers compared after promotion; for formulas, an evaluator that records which operands were evaluated.",
 C04="IEEE single and double computed with numpy-free struct rounding in `num.py`; printed as C++ streams print (6 digits).",
 C05="value-preserving or modular conversion by type pair; each of 16 contexts in which april converts (initialiser, assignment, argument, return, element, field, operand, condition branches, boxed ...).",
 C06="an evaluator with C# precedence and a trace of the operands evaluated.",
 C07="an interpreter of the statement trees which consumes a sequence of decisions; every condition in the program reads the next decision and logs its identity, so the printed log *is* the path. All decision sequences of length 4 are run on every tree.",
 C08="an automaton of frames and handlers: nearest handler by type, finally on every way out exactly once, an exception or jump out of finally replaces what was under way.",
 C09="a call is a function of its arguments in order; all locals, parameters and pending operands of the caller are checked afterwards.",
 C10="a memory model: one cell per variable, field and element. Every cell is filled, one is written, all are read.",
 C11="a heap model with value cells and references; histories of copies, writes, calls, boxing, array stores; the state of *all* variables is compared after each history.",
 C12="the dispatch rules (new, virtual, override, sealed, abstract, interface maps) over every pair of static and dynamic type.",
 C13="the subtype relation of the declared types; boxes as copies.",
 C14="an array is a map from index tuples to values; everything else raises.",
 C15="the fault table: which expression raises what; the handler must be the one written, and nothing after the fault in the statement may have run.",
 C16="a delegate is a pair of method and object; calling it is the direct call, whose result is computed by the same model.",
 C17="as C01/C03/C07, at all four optimize levels; programs are those which the optimizer rewrites (constants, neutral elements, constant conditions, unreachable code).",
 C18="the program in one file is the model of the program split; both outputs are also compared with the computed one.",
 C19="what a literal denotes, computed from its text; white space and comments must not change the output of a program with every token.",
 C20="a decision procedure for the rules (conversions, operators, overloads, names, modes); the verdict of april (exit code, nothing executed) must be the same, and accepted programs must print what they should.",
 C21="lookup rules over scopes, bases and namespaces; the access relation over member kinds, relations and assemblies.",
 C22="an `LD_PRELOAD` allocator (`layout.c`) with enumerated policies; all runs of one program must agree with each other and with a run on the ordinary allocator.",
 C23="declared values of constants and enum members by their initialiser graph; property accessors as calls.",
 C24="a counter: after 2^20+1000 iterations the program must still be running, print the right count and have intact sentinels (the VM stack has 2^20 units, so one leaked unit per iteration cannot go unnoticed).",
 C25="Python's math and formatting, an exception chain model, array shapes.",
 C26="construction order as a recursive function over the chain: arguments, base constructor, initial values, body.",
 C28="a name means a set of files, a project an assembly; the program computes a value from all of its types, so a missing, additional or doubled file changes it or fails.",
 C27="every element of a size contributes to a positional checksum (s = s*3 + x mod p), so a lost, swapped or repeated element shows.",
)
CLOSE = """## Corrected false alarms

Found by reading april again after a first alarm; in each the property or the model was corrected:

- C01/C05: april's literal and promotion rules differ from C# (hexadecimal literals are unsigned, uint with
  int is long, ulong with any integer is ulong). The model now follows april's own tables.
- C06: array element assignments evaluate the assigned value before the index; the order between them is
  outside the property. Compound targets evaluated twice are a defect (findings), not a false alarm.
- C26: the base constructor runs before the field initialisers of the derived class, as april's code
  inserts them; the first model had C#'s order.
- C20: rules april does not check at all (list below) are outside the property; they are not alarms.
- C22: assemblies differ in the order of their tables with the heap layout; behaviour does not, and only
  behaviour is claimed.
- C24: a return inside try/finally costs 40 us and made the check time out, it is outside.
- Timeouts: a program is given 20..60 s where it needs milliseconds, a timeout is retried alone before it
  counts, so that a loaded machine does not raise alarms.

## Genuine defects that are recorded, not repaired

In `known_findings.json` (the checks print a KNOWN-FINDING line for each and report any other failure):

%(findings)s

The repair of C06 needs the compiler to keep the address of a target (a new temporary in the xil of nine
expression kinds), of C07 a 64 bit switch command, of C13 would break an existing test.

Defects found outside what the checks claim (features not implemented or rules not checked; nothing in a
property depends on them, and programs of the checks avoid them):

- Not implemented or crashing: static fields; goto; foreach, lambda, params and default arguments, this(..)
  constructors, operator overloading, ref of an element or field, string ==, + and switch, typeof, sizeof,
  default(S); indexers; compound assignment to properties and the value of a property assignment; generic
  methods and generic classes of one's own; Tuple; Type.Name; partial classes; using aliases; qualified type
  names in expressions; catch .. when; initial values of struct fields; shifts in constant expressions;
  <, ++ and - on enums; \\x and \\u escapes, non-ASCII sources.
- Parsed differently from C#: a cast of a unary expression ((long)-x), a cast of an element with a variable
  index ((int)b[i], write (int)(b[i])), exponents without point (1e3).
- Accepted though wrong: null for value types, non-bool conditions, assignment to constants, new of an
  abstract class, missing implementations, bad base types, unassigned locals, use before declaration, throw
  of something that is no exception, private constructors and setters used from outside, too many
  initialisers.
- Runtime: integer division by zero and of the least value by -1 end the process (SIGFPE); exit code 0 after
  an uncaught exception; long array indexes are truncated; recursion beyond the VM's stack is not detected.
- Format: a type can have at most 511 members and a method 511 parameters (more is refused with an internal
  error). The bytes of an assembly depend on addresses in the compiler (order of tables).

## Genuine defects that were repaired

Each is one `fix:` commit in /repo, listed as "fixed:" in `known_findings.json`; the check named there fails
on the commit's parent and passes on it.

%(fixed)s

## Planted bugs

Each was written from the text of a property and the original code, confirmed to build, to pass all 26
tests and to fail its own demonstration; the check of its property was then run against it.

| bug | property | needs | caught by |
|---|---|---|---|
%(seeds)s

Besides these, a campaign of generated mutations (operators, constants, conditions and statements of
modules/compile, exec, rt, core and lang_cs changed one at a time; those that build and pass the tests are
run against all checks) has been used to find gaps. Survivors were read one by one: they were equivalent
(tracing, error texts, capacity hints, unreachable branches, features outside the list above) or led to more
programs in the spaces.

## Not applicable

None: every property listed is decided by enumeration within its bounds. Liveness ("every program
terminates when it should") is covered only by timeouts.

## Hooks

None. /repo carries fixes only; the allocator of C22 is preloaded, not compiled in.
"""
def main():
    kf = json.load(open(V + "/known_findings.json")); out = [HEAD]
    for p in sorted(props.PROPS, key=lambda p: p["id"]):
        note = p["note"]
        if note.startswith(props.NOTE): note = note[len(props.NOTE):]
        out.append("### %s %s\n\n%s\n\n- *Enumerated:* %s.\n- *Oracle:* %s\n- *Bounds and limits:* %s\n- *Cost:* about %d s. *Anchors:* %s.\n" % (p["id"], p["title"], p["statement"], p["quantifier"], MODEL[p["id"]], note, COST[p["id"]], ", ".join("%s (`%s`)" % (a, b) for a, b in p["mechanism"])))
    seeds = []
    for d in sorted(os.listdir(V + "/seeded")):
        m = json.load(open("%s/seeded/%s/meta.json" % (V, d)))
        seeds.append("| %s | %s | %s: %s | %s |" % (d, m["property"], m["needs"], m["what_it_breaks"], m.get("caught_by", m["property"])))
    out.append(CLOSE % dict(findings="\n".join("- %s: `%s` (%s)" % (f["property"], f["case"], f["what"]) for f in kf["findings"]), fixed="\n".join("- " + x.replace("fixed: property=", "") for x in kf["fixed"]), seeds="\n".join(seeds)))
    open(V + "/DESIGN.md", "w").write("\n".join(out))
main()
