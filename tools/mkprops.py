#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
H = "include/opt/option.hpp"
P = []
def p(id, title, statement, over, qtext, why, mech, files=(H,), state=None, observe=None):
    a = {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

p("C01", "Contained object lifetime is exact",
  "Over any sequence of operations that complete normally, an option contains a value exactly when one live contained object exists in its storage: it is constructed once, destroyed exactly once, never leaked, and never read, assigned or destroyed while not alive. Destroying an option destroys its value if and only if it contains one.",
  ["histories", "programs"],
  "Every history of public operations, for every contained type (trivial or not, with own flag or with values reserved for emptiness, nested).",
  "lifetime.test.cpp counts special-member calls of one type over a handful of fixed sequences; it cannot cover all histories nor all storage kinds.",
  [("storage layers of option", H+":1905-2115"), ("construct/assign helpers", H+":2117-2135")],
  observe=["special member calls of the contained type"])
p("C02", "Exceptions from the contained type leave options valid",
  "If any operation of the contained type or a user callback throws during an option operation, the same exception reaches the caller, no object is leaked or destroyed twice, and every option involved is still valid: it reports a value only if a live object is in its storage. A throwing assignment between two engaged options leaves both engaged, a throwing construction into an empty option leaves it empty, and a throwing emplace leaves it empty.",
  ["fault_sequences", "programs"],
  "Every point at which user code called by an option operation may throw, in every operation and initial state, for flag-based and reserved-value storage.",
  "Only a few tests throw, always from one chosen constructor; the number of throw points times states times storage kinds is not sampled.",
  [("construct/emplace/assign/swap", H+":1905-2260, 2950-3275")])
p("C03", "Construction and assignment transfer state and value",
  "Copy, move and converting construction or assignment make the target contain a value exactly when the source does, holding the source's value; assigning into an option that already holds a value uses assignment of the contained object, assigning into an empty one constructs, and assigning from an empty source destroys the old value. Assigning or constructing from a plain value always yields an option that contains exactly that value, and self-assignment never changes whether it holds one.",
  ["inputs", "programs", "configurations"],
  "Every combination of engaged/empty operands, contained type (any mix of trivial and user-provided special members), value category of the source, and language mode.",
  "Tests sample a few types and mostly trivial ones; the sixteen triviality combinations times four engagement states are not covered.",
  [("option_base specializations", H+":2137-2260"), ("converting constructors and assignments", H+":2858-2990")])
p("C04", "State-changing members meet their postconditions",
  "Resetting or assigning none leaves the option empty; emplace always leaves a value built from the given arguments, try_emplace does so only when empty and otherwise changes nothing; take moves the value out and leaves the option empty, take_if does that only when it holds a value and the predicate accepts it; both emplacing forms return the contained object.",
  ["inputs", "histories", "programs"],
  "Every initial state, every argument list, every predicate outcome, every contained type.",
  "Tests use a few integer-like values; predicate outcomes, storage kinds and engaged/empty states are sampled.",
  [("reset/emplace/try_emplace/take/take_if", H+":2985-3050")])
p("C05", "Swap exchanges states and values",
  "Swapping two options exchanges whether each contains a value and the contained values themselves: two engaged options swap their contained objects through the contained type's swap, one engaged and one empty moves the value across and leaves the former owner empty, two empty ones stay empty.",
  ["inputs", "programs"],
  "Every combination of states, same or different contained types, member and free form, references included, also when an option is swapped with itself.",
  "Tests sample a few concrete swaps.",
  [("swap", H+":3255-3275, 3385-3390")])
p("C06", "Access is checked as documented",
  "Throwing access raises the library's access exception exactly when the option is empty and otherwise returns the contained object; precondition-checked access runs the user-configurable check exactly when empty and returns the contained object otherwise; unchecked access never runs the check; pointer access is null exactly when empty. Every accessor returns the contained object itself, never a copy, with the constness and value category of the option it was called on.",
  ["inputs", "programs"],
  "Every option state, every accessor and every value category it is overloaded on, for values and references.",
  "Tests call accessors mostly on engaged options and cannot observe the failing check, which aborts.",
  [("get/operator*/operator->/get_unchecked/value/ptr_or_null", H+":3052-3145, 3195-3202")])
p("C07", "Callbacks run exactly once and only when they should",
  "Transforming, chaining, inspecting, filtering and predicate operations call their function exactly once with the contained object when the option holds a value and never otherwise; fallback operations evaluate or construct their fallback only when the option is empty. The result is exactly the function's result, the contained value or the fallback, as documented for each operation.",
  ["inputs", "programs"],
  "Every option state, every callback result, every value category, and callbacks that throw.",
  "Tests use pure lambdas on a few values; multiplicity and absence of calls are rarely observed.",
  [("monadic helpers", H+":2537-2630"), ("member wrappers", H+":3005-3250")])
p("C08", "Operands keep their value category",
  "Operations on lvalue or const options never move from, assign to, reset or otherwise change the option or its contained object; operations on rvalue options hand the contained object on as an rvalue, so move-only types work and no needless copy is made. After being moved from, an option that held a value still holds a (moved-from) value.",
  ["inputs", "programs"],
  "Every operation overloaded on value category or taking forwarding options, every state.",
  "Tests check results, not which special member produced them; int-like values hide copies and moves.",
  [("ref-qualified members and forwarding free functions", H+":2537-2640, 3330-3735")])
p("C09", "Comparisons follow the documented truth tables",
  "Comparing two options applies the same operator to the contained values when both are engaged and otherwise orders empty below engaged, with empties equal; comparing with none or with a plain value follows the corresponding table. The contained values are compared with exactly the requested operator, in operand order, at most once, and never when a side is empty.",
  ["inputs", "programs"],
  "All six operators, all operand shapes (option/option, option/none, none/option, option/value, value/option), all states, any comparison behaviour of the contained type (including unordered values).",
  "Tests use totally ordered integers, where swapping operators or operands goes unnoticed.",
  [("comparison operators", H+":3737-3880")])
p("C10", "Logical operators select the documented operand",
  "The or-operator yields the left option's value if it has one and otherwise the right operand (value or option), the or-assignment assigns only when the left side is empty, the and-operator yields the right option only when the left holds a value, and the xor-operator yields the single engaged operand or an empty option when both or neither hold a value; the chosen operand is copied when lvalue and moved when rvalue.",
  ["inputs", "programs"],
  "Every overload on value categories and every combination of states.",
  "Tests sample values and a few overloads.",
  [("operator| |= & ^", H+":3626-3735")])
p("C11", "Combining and converting functions agree with their operands",
  "Zipping yields the tuple of all values exactly when all operands hold one, zip-with calls its function once with all values exactly then; unzipping, flattening, casting, making an option, wrapping a raw value and wrapping a nullable pointer preserve both emptiness and the contained value or object, as documented.",
  ["inputs", "programs"],
  "Every combination of states and value categories of the operands; pointers null and not null; raw values inside and outside the reserved range.",
  "Tests sample a few concrete tuples.",
  [("zip, zip_with, option_cast, from_nullable, as_option, flatten, unzip, make_option", H+":3324-3440")])
p("C12", "Element lookups are in bounds and refer to the element",
  "Element access through an option of a tuple-like, through a variant, through an indexed or ordered container's index/front/back, and through an associative lookup yields a reference to exactly the requested element when it exists and an empty option when it does not. The container's element accessor is never called for an element that does not exist.",
  ["inputs", "programs"],
  "Every index and size (any unsigned value), every variant alternative, every lookup result, every value category.",
  "Tests try a few indexes in small containers; boundary arithmetic over all sizes is not decided.",
  [("get, at, at_front, at_back, lookup", H+":3442-3625")])
p("C13", "An option is a range of zero or one elements",
  "Iterating an option visits exactly its contained object when it holds one and nothing when empty; its iterators refer to the contained object itself, obey random-access arithmetic and comparison, and a const option only yields const access.",
  ["inputs", "programs"],
  "Every state, every contained type incl. references, every iterator operation and offset.",
  "Tests iterate a few int options.",
  [("option_iterator, begin/end", H+":2403-2510, 2985-3003")])
p("C14", "Hashing is consistent",
  "The hash of an option that holds a value equals the contained type's hash of that value, all empty options of one type share one fixed hash, a reference option hashes the identity of the object it refers to, and hashing depends on nothing else; it is available exactly when the contained type's hash is.",
  ["inputs", "programs"],
  "Every contained type with a hash and every state.",
  "Tests compare a few hashes of ints.",
  [("std::hash specializations", H+":4047-4097")])
p("C15", "Stream helpers read and write exactly one thing",
  "Streaming an option out writes the contained value exactly once when it holds one, and otherwise writes nothing or the given placeholder exactly once; streaming in reads into the contained object or else into the placeholder; the option's engagement never changes and the same stream is returned.",
  ["inputs", "programs"],
  "Every state, every stream type, both directions.",
  "Tests use string streams with ints.",
  [("io", H+":3520-3580")])
p("C16", "Reference options rebind and never touch the referent",
  "An option of a reference refers to exactly the object it was last bound to; assigning rebinds it instead of assigning through, copying copies the binding, emptying it leaves the referent untouched, constness of the option does not add or remove access to the referent, and no operation copies, moves, constructs or destroys the referent or binds to a temporary.",
  ["inputs", "histories", "programs"],
  "Every history of operations on reference options (lvalue, rvalue and const references, reference wrappers).",
  "Tests use ints, for which assigning through and rebinding are often indistinguishable.",
  [("reference storage", H+":2262-2315"), ("reference overload checks", H+":2735-2790")])
p("C17", "Queries are pure and options share no hidden state",
  "Const-qualified operations (state queries, access, comparison, hashing, copying from) never write to the option, its contained object or any shared or global state, and no option operation allocates memory or uses mutable global state of its own; hence concurrent const use of one option, or any use of distinct options, needs no synchronization.",
  ["schedules", "programs"],
  "Every interleaving of const operations on one option and of arbitrary operations on distinct options.",
  "No test is multi-threaded; a data race would have to be scheduled to be seen.",
  [("const members", H+":2990-3250")])
p("C18", "Emptiness marks round-trip within the object",
  "For every built-in optimized type, every emptiness depth below the advertised maximum can be written into and read back unchanged from the value's own storage, writing touches only bytes of that value, distinct depths have distinct representations, and the advertised maximum is positive and representable.",
  ["inputs", "programs"],
  "Every depth from 0 to the maximum (up to 2^64-1), every built-in optimized type, composed types included.",
  "Tests construct at most three nesting depths; hundreds or more of depths per type exist.",
  [("internal_option_traits", H+":1167-1745, 3280-3322")])
p("C19", "Ordinary values are never mistaken for empty",
  "For every built-in optimized type, no ordinary value of the type (any bool, any canonical address or null, any non-reserved floating-point value including infinities and the hardware's NaNs, any live string, vector, view, smart pointer, polymorphic object, defined enumerator) is ever reported as empty, also after being stored, copied or moved through an option.",
  ["inputs", "programs"],
  "The full value range of every built-in optimized type.",
  "Tests store a dozen values per type; the value sets have up to 2^64 members.",
  [("internal_option_traits::get_level", H+":1167-1745")])
p("C20", "Reserved representations are the documented ones",
  "Each built-in optimized type reserves exactly the documented number of representations, at the documented place (reserved byte values, non-canonical addresses, negative signalling NaN payloads, sentinel enumerators, unused enumeration values), so values computed by other means never collide with them.",
  ["inputs", "programs", "configurations"],
  "Every reserved representation of every built-in optimized type.",
  "Tests compare sizes and some levels but not the reserved sets.",
  [("level constants", H+":1167-1745")], files=(H, "docs/builtin_traits.md"))
p("C21", "Composite types delegate to one best member and touch nothing else",
  "For pairs, tuples, arrays, tuple-likes, reflected aggregates, complex numbers, padding members and selected-member wrappers, emptiness is stored in exactly one member, one offering the largest maximum, by that member's own rule; the other members are neither read to decide emptiness nor written when emptying.",
  ["inputs", "programs"],
  "Every composition of optimized and plain member types, any member order, user-specified member rules included.",
  "Tests use a few shapes where a wrong choice of member often gives the same size.",
  [("pair/tuple/array/tuple_like/reflectable/complex/padding traits", H+":1240-1345, 1590-1660")])
p("C22", "Nested options keep every emptiness level apart",
  "In options of options of any depth, the states 'outer empty', 'outer engaged with inner empty' and so on down to a contained value are all distinct, each is reached and preserved by the operations that should produce it, and emptying or engaging one layer never changes what another layer reports.",
  ["inputs", "histories", "programs"],
  "Every nesting depth supported by the type, every state, every operation on every layer.",
  "Tests go to depth three with a few types.",
  [("nested option traits", H+":3280-3322")])
p("C23", "No size overhead where a spare representation exists",
  "An option of a type with a spare representation has exactly the size and alignment of that type, also when nested as deep as the type supports; otherwise it is the type plus one flag, and nesting such options further adds nothing.",
  ["programs", "configurations"],
  "Every built-in optimized type, composition and nesting depth, in every configuration.",
  "Size assertions in the tests list particular types in a single configuration.",
  [("storage layers", H+":1890-2115"), ("option bases", H+":2790-2805")])
p("C24", "Special members are propagated from the contained type",
  "Copy/move construction and assignment of an option are available, trivial, and non-throwing exactly when documented from the contained type's own properties, destruction is trivial exactly when the contained type's is and throws only if the contained type's does, and this holds for every mixture of trivial, user-provided, throwing and deleted special members.",
  ["programs", "configurations"],
  "Every combination of special-member properties of the contained type; value and reference options; all supported compilers and language modes.",
  "meta.test.cpp samples a dozen types in one mode.",
  [("option_base/enable_copy_move specializations", H+":2137-2400")])
p("C25", "Overloads participate, convert and return types as documented",
  "Each constructor, assignment, free function and operator participates in overload resolution exactly under its documented conditions, conversions are implicit exactly when the contained conversion is, options never convert to bool or none implicitly or bind references to temporaries, and every operation's result type, constness and value category is the documented one.",
  ["programs", "configurations"],
  "Every argument type against every contained type, all value categories, C++17 and C++20, both compilers.",
  "meta tests probe a sample of conversions.",
  [("overload checks", H+":2655-2790"), ("class option signature", H+":2790-3275")])
p("C26", "Declared non-throwing operations never terminate the program",
  "No operation that an option declares non-throwing can let an exception of the contained type escape into termination: wherever user code that may throw is reachable, the operation is not declared non-throwing, except for the documented element-access helpers whose requirement is on the container; conversely the documented non-throwing operations are declared so.",
  ["fault_sequences", "programs"],
  "Every operation and every mixture of throwing and non-throwing special members of the contained type.",
  "Would need a throwing type for each special member in each operation.",
  [("noexcept specifications", H+":2137-2260, 2820-3275")])
p("C27", "Misuse of the customization contract is rejected at compile time",
  "A customization whose level accessors are missing, have a wrong signature or may throw does not compile; an enforced option of a type without spare representation, an option of void, none or in-place tags, chaining with a function that does not return an option, and mapping to mismatched types do not compile; a correct customization always compiles.",
  ["programs"],
  "Every user-supplied customization and misuse of the listed kinds.",
  "The tests cannot contain code that must not compile.",
  [("static assertions", H+":1965-2070, 2806-2830, 4030-4045")])
p("C28", "Sentinel and wrapper types behave like the wrapped type",
  "Wrapping a type with sentinel values, comparison/setter function objects, a selected member or the enforcement wrapper reserves exactly the given values: each listed value reads as the corresponding emptiness depth, all others as engaged, any number of values is supported, and the wrapper otherwise constructs, assigns and converts as the wrapped type.",
  ["inputs", "programs"],
  "Every list of sentinel values, every wrapped type and value.",
  "Tests use one or two values and never several with function objects.",
  [("sentinel, sentinel_f, member, enforce, sentinel_option_traits", H+":1750-1790, 3880-4045")])
p("C29", "Behaviour is independent of configuration",
  "The whole public interface is well-formed and has the same specified behaviour in every documented configuration: language mode, compiler, assertion setting, built-in optimizations on or off, standard forward declarations on or off, reflection library on or off, and annotation checking on or off.",
  ["configurations", "programs"],
  "Every combination of documented configuration macros, C++17/20/23, gcc and clang.",
  "The suite is built in a single configuration.",
  [("configuration macros", H+":1-290")], files=(H, "include/opt/option_fwd.hpp", "docs/macros.md"))
p("C30", "Compile-time guards against dangling and discarded results",
  "Keeping a reference, pointer, iterator or reference option obtained from a temporary option is diagnosed by the compiler through the documented lifetime annotation, discarding the result of a query or transformation is diagnosed, and with annotation checking enabled access without a preceding check is diagnosed.",
  ["programs"],
  "Every accessor documented with the annotation; every program using it on a temporary.",
  "A diagnostic is not observable at run time.",
  [("lifetime annotations", H+":95-110, 2985-3250, 3442-3625")])
p("C31", "Operations are usable in constant expressions",
  "Every operation documented as usable at compile time is a constant expression for literal contained types that use a flag, in every language mode it is documented for, including destruction of non-trivial types from C++20 on.",
  ["programs", "configurations"],
  "Every operation and every literal contained type with constexpr operations.",
  "constexpr tests list some operations in one mode.",
  [("constexpr specifiers", H+":1890-3880")])
p("C32", "Generated code has no overhead over hand-written checks",
  "Optimized builds compile option operations to the same instructions as hand-written sentinel checks.",
  ["programs", "configurations"],
  "Every operation and optimized type at the documented optimization level.",
  "The code generation sample covers a few functions on one compiler.",
  [("codegen sample", "test/codegen/sample.cpp")], files=(H, "test/codegen/sample.cpp"))
p("C33", "Representation assumptions hold on other platforms",
  "The layout assumptions about strings, vectors, member pointers and 32-bit pointers hold for the standard libraries and ABIs other than the one installed here.",
  ["configurations"],
  "MSVC STL (all iterator debug levels), libc++ (both string layouts), 32-bit targets.",
  "Only one standard library and ABI is present.",
  [("string and vector layout tables", H+":1665-1745")])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
