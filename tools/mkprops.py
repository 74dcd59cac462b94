#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property list is kept here in readable form)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                  anchors=dict(files=files, state=state or [], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe or [], hook_needed=None)))

prop("C01", "The growable list is a faithful sequence under every operation history",
 "Whatever the list's length and history, appending, popping, filling, replacing, inserting, erasing, extending and copying have exactly the effect of the same operation on a mathematical sequence: order, length and the identity of every untouched element are preserved. Reading outside the current length yields no element and changes nothing; an out-of-range replace, insert or erase changes nothing. No operation touches memory outside the list's current storage, and an element dropped by the list is released exactly once.",
 ["inputs", "histories"], "every list length and capacity, every index, every sequence of operations",
 "The unit tests push a handful of items; capacity boundaries, shrinking and out-of-range indices at arbitrary lengths are unbounded families.",
 ["src/vector/vector.c"], [("capacity doubling / halving and index guards", "src/vector/vector.c")],
 ["list size and element identities through the public functions"])

prop("C02", "Hash maps and sets behave as finite maps and sets under every history",
 "After any sequence of additions, overwrites, removals and copies, a lookup returns exactly the value most recently added for that key and not since removed, or nothing when there is none; this does not depend on hash collisions, on growth or shrinking of the table, or on earlier removals. Iteration visits every present key exactly once and nothing else, and set union, intersection, difference, subset and equality agree with the mathematical operations.",
 ["inputs", "histories"], "every table state reachable by any operation sequence, every key, every hash function returning non-negative values",
 "Tests exercise a few integer and string keys; probing chains that wrap, contain removed entries, or are rehashed depend on unbounded histories.",
 ["src/map/map.c", "src/map/cell.c", "src/set/set.c", "src/common/type.c"],
 [("linear probing with tombstones, rehash on growth and shrink", "src/map/map.c"), ("set operations over the map", "src/set/set.c"), ("key hashing and comparison", "src/common/type.c")],
 ["map/set public functions"])

prop("C03", "Every source text is split into tokens by longest match, in order, or rejected",
 "For every input text the scanner terminates; on success the tokens, in order, are the C tokens obtained by skipping blanks and repeatedly taking the longest identifier, keyword, constant, string or punctuator at the current position, each carrying the name, number or bytes it spells, ending in one end-of-input token, and no character is skipped or scanned twice. A word is a keyword exactly when it is spelled as one of the supported keywords. Text that starts no token, or a character or string constant cut off by the end of line or end of input, or a hexadecimal prefix without digits, is reported as an error.",
 ["inputs"], "every byte string without NUL", "Tests scan a few dozen sample strings; the claim ranges over all texts and all cut-off points.",
 ["src/lexer/lexer.c", "src/lexer/reader.c", "src/lexer/util.c"], [("reader per token class", "src/lexer/reader.c"), ("token tables", "src/lexer/util.c")], ["token vector or error returned by the scanner"])

prop("C04", "Integer constants get the value and type their spelling denotes",
 "A decimal, octal (leading 0) or hexadecimal (leading 0x/0X) constant denotes exactly the number its digits spell, for every value that fits 64 bits, and its type is the first in C99's list for its base and suffix letters (any accepted combination and case of u, l, ll, or none) that can represent that value. The suffix consumed is the longest accepted one at that position and nothing beyond it is consumed.",
 ["inputs"], "every digit string, base and suffix", "Tests sample some constants and suffixes.",
 ["src/lexer/reader.c", "src/lexer/util.c", "src/literal/iliteral.c"], [("digit and suffix readers", "src/lexer/reader.c"), ("suffix table", "src/lexer/util.c"), ("typed literal", "src/literal/iliteral.c")], ["token value and type", "printed immediate"])

prop("C05", "String and character bytes survive from source text to assembly",
 "Every byte and escape sequence written in a string or character constant denotes the value the C standard gives it (a character constant that of a signed char; hexadecimal escapes up to 27 bits), and the assembler text emitted for a string decodes, by the assembler's escape rules, to exactly those bytes followed by the terminating zero, for every byte value 0 to 255. A string used to initialise a local character array is stored byte for byte inside that array's own area, and copying or zero-padding a string keeps its bytes and fills the rest with zeros.",
 ["inputs"], "every byte string and every escape sequence", "Tests use a few printable strings; non-ASCII and control bytes and lengths are unbounded.",
 ["src/literal/sliteral.c", "src/lexer/reader.c", "src/x64gen/datainst.c"], [("escape decoding", "src/lexer/reader.c"), ("escape encoding", "src/literal/sliteral.c"), ("inline string stores", "src/x64gen/datainst.c")], ["string token", "rendered .string directive", "stores emitted for local arrays"])

prop("C06", "Object sizes, alignments and struct layout follow the x86-64 C ABI",
 "Every scalar type has the size and alignment of the x86-64 C ABI, an array takes its length times its element size with its element's alignment, and a struct places its members in order at the smallest non-overlapping offset aligned for each member, with the struct's alignment the largest member alignment and its size the smallest multiple of that alignment covering all members.",
 ["inputs", "programs"], "every member list and every type", "Tests lay out a few structs; the claim is for every member list.",
 ["src/dtype/dtype.c", "src/dtype/struct.c", "src/dtype/array.c", "src/common/util.c"], [("layout loop", "src/dtype/struct.c"), ("size and alignment tables", "src/dtype/dtype.c"), ("rounding up", "src/common/util.c")], ["sizeof, member offsets"])

prop("C07", "Operands are converted by C's integer promotions and usual conversions",
 "For every pair of arithmetic operand types, the operands are converted to the common type the C99 integer promotions and usual arithmetic conversions prescribe: an operand is wrapped in a conversion exactly when its type differs from that result, its value expression is otherwise untouched, and non-arithmetic operands are left alone. An array or function used as a value becomes a pointer to its first element or to the function, and nothing else is changed by these decays. A shift has the promoted type of its left operand.",
 ["inputs", "programs"], "every pair of types", "Tests cover selected pairs.",
 ["src/resolver/conversion.c", "src/dtype/dtype.c"], [("conversion rules", "src/resolver/conversion.c"), ("rank and signedness", "src/dtype/dtype.c")], ["resolved expression tree"])

prop("C08", "A name refers to its innermost declaration; scopes nest and undo cleanly",
 "Looking up a variable, function, enumeration constant or tag name (typedef names, which the parser keeps by spelling, aside) yields the declaration in the innermost open scope that declares it, or nothing if no open scope does. Declaring a name already declared in the same scope is refused and leaves the table unchanged, declaring it in an inner scope is accepted and hides the outer one, and leaving a scope removes exactly that scope's declarations.",
 ["histories"], "every sequence of declarations, scope entries and exits", "Tests go one or two scopes deep.",
 ["src/symtab/symtab.c", "src/tagtab/tagtab.c"], [("scope chain", "src/symtab/symtab.c"), ("tag scope chain", "src/tagtab/tagtab.c")], ["declare/lookup functions"])

prop("C09", "Stack objects that exist together never overlap and stay inside the frame",
 "Each local variable gets a stack area of at least its type's size that overlaps no area given to any other variable of the same function declared before it in its own or an enclosing or already closed scope, and that starts at a 4-byte aligned offset from the frame base. The frame size recorded for the function covers every area handed out, also those of closed inner scopes, and the stack pointer adjustment emitted on entry is the smallest multiple of 16 covering it and is undone exactly on exit.",
 ["histories", "programs"], "every sequence of declarations and scope entries/exits", "Tests declare a few variables.",
 ["src/symtab/symtab.c", "src/x64gen/ctrlinst.c", "src/common/util.c"], [("offset assignment", "src/symtab/symtab.c"), ("frame set-up and tear-down", "src/x64gen/ctrlinst.c")], ["offsets of variables, enter/leave code"])

prop("C10", "Values live at the same time never share a machine register",
 "Whenever the register allocator succeeds, any two values whose live ranges overlap are assigned different machine registers, every assigned register is one of those offered, each use and definition in the rewritten code names the register assigned to its value, and nothing else in the code changes. A register becomes free for reuse as soon as its value's range ends, and allocation succeeds whenever no more values are live at once than there are registers.",
 ["inputs", "programs"], "every list of live ranges, every number of registers, every instruction sequence", "Tests allocate a few small functions.",
 ["src/regalloc/regalloc.c"], [("linear scan", "src/regalloc/regalloc.c")], ["register numbers in allocated code"])

prop("C11", "Live-range bookkeeping reports exactly the ranges covering a position",
 "Stepping through a function's code, a register is reported occupied at a position exactly when some recorded live range of that register contains that position (definition included, last use excluded), for every list of consecutive disjoint ranges and every number of steps.",
 ["inputs", "histories"], "every ordered list of ranges and every position", "Tests use a few ranges.",
 ["src/liveseq/liveseq.c", "src/liveseq/liveness.c", "src/x64gen/util.c"], [("range cursor", "src/liveseq/liveseq.c"), ("alive sets", "src/x64gen/util.c")], ["alive queries during code generation"])

prop("C12", "Arithmetic and bitwise instructions compute the C result on x86-64",
 "For every operand width, signedness, register assignment and operand kind the compiler can produce, the machine code emitted for add, subtract, multiply, divide, remainder, negate, complement, and, or, xor and shifts leaves in the destination exactly the value the C operation defines on those operands at the operation's width, and leaves every other live register and the stack unchanged.",
 ["inputs", "programs"], "every operand value, width, signedness, register assignment", "Tests compare emitted text for selected register numbers and widths, never the effect of executing it.",
 ["src/x64gen/arithinst.c", "src/x64gen/logicinst.c", "src/x64gen/shrotinst.c", "src/x64gen/util.c"], [("instruction selection", "src/x64gen/*.c"), ("width adjusting moves", "src/x64gen/util.c")], ["emitted instruction list, executed on a machine model"])

prop("C13", "Comparisons and conditional jumps decide as C relations do",
 "For every operand width, signedness and value, the code emitted for a comparison stores 1 when the C relation holds and 0 otherwise at the destination's width, and the code emitted for a conditional jump transfers control to its label exactly when the relation holds; signed operands are compared as signed and unsigned as unsigned, and other live registers are unchanged.",
 ["inputs", "programs"], "every relation, operand value, width, signedness, register assignment", "Tests compare emitted text for selected cases.",
 ["src/x64gen/bitinst.c", "src/x64gen/ctrlinst.c", "src/x64gen/util.c"], [("set/jump selection", "src/x64gen/bitinst.c, src/x64gen/ctrlinst.c")], ["emitted instruction list, executed on a machine model"])

prop("C14", "Loads, stores and width conversions move exactly the intended bytes",
 "The code emitted for loading, storing, taking an address, reading a parameter, passing an argument or returning a value moves exactly the operand's bytes between the named register, memory slot, pointer target or symbol, without touching any other memory or live register; when widths differ the value is sign-extended if it is signed, zero-extended if unsigned and truncated when narrowed.",
 ["inputs", "programs"], "every operand kind, width, signedness, value and register assignment", "Tests compare emitted text for selected cases.",
 ["src/x64gen/datainst.c", "src/x64gen/util.c"], [("move selection", "src/x64gen/datainst.c"), ("append_mov_code", "src/x64gen/util.c")], ["emitted instruction list, executed on a machine model"])

prop("C15", "Calls follow the System V calling convention and preserve live values",
 "For every number of arguments and every set of values live across a call, the emitted code passes the first six arguments in the standard registers in order and the rest on the stack in order, calls the right target, delivers the result to the destination, and after the call every value that was live keeps its content and the stack pointer is back where it was. Callee-saved registers used for this are saved on entry and restored on exit of the function, and the frame pointer still addresses the locals afterwards.",
 ["inputs", "programs"], "every argument count, set of live registers, call target kind", "Tests compare emitted text for selected calls.",
 ["src/x64gen/ctrlinst.c", "src/x64gen/datainst.c", "src/x64gen/x64gen.c", "src/x64/register.c"], [("evacuation of live registers", "src/x64gen/ctrlinst.c"), ("prologue/epilogue", "src/x64gen/x64gen.c")], ["emitted instruction list, executed on a machine model"])

prop("C16", "Statements run their parts in the order and under the conditions C prescribes",
 "The intermediate code for if/else, while, for, switch, case, default, break, continue, return and blocks executes conditions and sub-statements in exactly the order and number of times C prescribes for every outcome of the conditions, break and continue leave or repeat the innermost enclosing statement they apply to, and jump labels are never defined twice in a translation unit.",
 ["inputs", "programs"], "every outcome sequence of conditions, every nesting", "Tests compare generated code for a few shapes.",
 ["src/immcgen/statement.c", "src/immcgen/util.c", "src/immcgen/immcgen.c"], [("label placement", "src/immcgen/statement.c")], ["execution trace of generated intermediate code"])

prop("C17", "Expressions evaluate their operands and produce the value C prescribes",
 "The intermediate code generated for each operator evaluates its operands as C prescribes (each exactly once; the right side of && and || and the arms of ?: only when required), applies the operator of the source at the result's width and signedness, scales pointer arithmetic by the size of the pointed-to object, stores assignments to the designated object, and yields the right value for pre- and post-increment and decrement.",
 ["inputs", "programs"], "every operator, operand kind and type", "Tests compare generated code for a few shapes.",
 ["src/immcgen/expression.c", "src/immcgen/util.c"], [("per-operator code generation", "src/immcgen/expression.c")], ["generated intermediate code"])

prop("C18", "Operators group by C precedence and associativity",
 "For every expression token sequence accepted, the syntax tree groups operators by the C precedence levels, binary operators associate to the left and assignment, conditional and prefix operators to the right, and no token is dropped or used twice; the same holds for declarators (suffixes bind tighter than prefixes) and statements (an else belongs to the nearest open if).",
 ["inputs", "programs"], "every token sequence", "Tests parse selected expressions.",
 ["src/parser/expression.c", "src/parser/util.c"], [("one function per precedence level", "src/parser/expression.c")], ["syntax tree"])

prop("C19", "Copies are deep, equal and independent; type equality is an equivalence",
 "Copying a type, literal, operand, instruction, symbol or tree node yields an object equal to the original in every field that shares no mutable storage with it, so later changes to or release of one never affect the other; releasing an object releases the parts it owns exactly once. Type equality is reflexive, symmetric and transitive and distinguishes any two types that differ in kind, pointed-to, element, length, parameter or member types; assignability holds exactly for two arithmetic types, or pointers to equal types or with one pointing to void.",
 ["inputs"], "every object", "Tests copy and compare a few objects.",
 ["src/dtype/dtype.c", "src/dtype/array.c", "src/dtype/pointer.c", "src/dtype/struct.c", "src/dtype/enum.c", "src/dtype/function.c", "src/dtype/typedef.c", "src/immc/ope.c", "src/immc/inst.c", "src/literal/iliteral.c", "src/literal/sliteral.c", "src/symtab/symbol.c"], [("copy/equals families", "src/dtype/*.c")], ["copy and equals functions"])

prop("C20", "The compiler writes output exactly when every stage succeeded",
 "For every combination of stage outcomes, the command exits with status 0 and writes all generated lines, in order, to the source name with its final .c replaced by .s when no stage reports an error; if the arguments are wrong, the file is missing or not a .c file, or any stage reports errors, it exits with a non-zero status, prints a diagnostic with every reported error's message on standard error and neither creates nor modifies any file. If the output cannot be written it exits with a non-zero status and a diagnostic.",
 ["inputs", "fault_sequences"], "every command line and every combination of stage outcomes", "End-to-end tests only run well-formed programs.",
 ["src/main.c", "src/freader/freader.c"], [("stage error checks", "src/main.c"), ("whole-file reader", "src/freader/freader.c")], ["exit status, stderr, output file"])

prop("C21", "Generated assembly text names exactly the intended instruction and operands",
 "For every instruction, register, width, offset, immediate, label and string, the assembler text produced spells exactly that mnemonic, suffix, register name of that width, displacement, immediate or symbol in AT&T syntax, whatever the length of the names involved and without writing outside its buffer.",
 ["inputs"], "every instruction, operand and identifier length", "Tests render selected short cases.",
 ["src/x64/inst.c", "src/x64/ope.c", "src/x64/label.c", "src/x64/data.c", "src/x64/register.c", "src/x64/suffix.c"], [("renderers", "src/x64/*.c")], ["rendered assembly text"])

prop("C22", "Initialisers give every element and member its value",
 "For every object of array, struct, scalar or string type, global or local, with an initialiser: each value written initialises the element or member the C rules pair it with (braces that match a nested aggregate open it, missing ones are elided), converted to that element's type and stored at that element's place under the type's layout; elements and members without a value are zero, a string fills its array with its bytes and zero bytes, and bytes of neighbouring objects are never written. More values than elements, a string longer than its array, or braces around more than one value for a scalar are reported, and global objects accept constants only.",
 ["inputs", "programs"], "every aggregate type of any length and nesting and every initialiser list", "Tests initialise a few small arrays and structs; lengths, nesting, elision and padding are unbounded families.",
 ["src/resolver/declaration.c", "src/immcgen/declaration.c"], [("pairing of values with elements, zero filling", "src/resolver/declaration.c"), ("offsets, padding and data directives", "src/immcgen/declaration.c")], ["emitted data directives", "values read back at run time"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
