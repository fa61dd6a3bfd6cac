#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (committed; run by hand when they change)."""
import json
import os

TP, TB, DI, MC, MM, TA, BR = ("src/tagged_pointer.rs", "src/tagged_box.rs", "src/discriminant.rs", "src/tagged_box_macro/mod.rs", "src/tagged_box_macro/meta_macros.rs", "src/taggable.rs", "build.rs")
ENUMS = "every enum that tagged_box! accepts: unit, struct-like and tuple variants of 0 to 32 elements of any types; every payload; every reserved width; dev and release builds"

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, level_note, technique):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mechanism=mechanism, observe=observe, level_note=level_note, technique=technique))


prop("C01", "Packing an address and a tag into a word loses neither",
     "For every reserved width, packing any address and any tag that fit gives a pointer from which exactly that address and exactly that tag are read back, through every accessor, and whose raw word is the address in the low bits with the tag above it. "
     "Taking any 64-bit word apart and putting it together again gives the same word, and reads and writes through the pointer reach the memory at that address and nothing else. "
     "Dangling pointers and boxes carry their tag and a non-null address aligned for their type.",
     ["inputs", "configurations"], "all 64-bit words, all addresses and tags that fit, all 16 reserved widths, dev and release builds",
     "The tests try a handful of addresses and tags at the default width only.",
     [TP, DI, TB], [("TaggedPointer::new, store_discriminant, fetch_discriminant, strip_discriminant, dangling", TP), ("width constants", DI)], ["TaggedPointer's accessors", "memory behind the pointer"],
     "Generated and boundary-exhaustive inputs over all 16 widths in dev and release, against shifts and masks computed from the width alone.", "property-based testing (proptest) with boundary enumeration against an arithmetic model")
prop("C02", "Tags and addresses that don't fit are refused, those that fit are not",
     "Every safe or checked constructor of pointers and boxes panics, in dev and release builds, when its tag exceeds the largest tag or its address needs more bits than reserved, and hands out nothing. "
     "A value whose boxing is refused for its tag is not dropped more than once, and no call whose tag and address fit is ever refused.",
     ["inputs", "configurations"], "all tags and addresses, fitting or not, for all 16 reserved widths, dev and release",
     "One should_panic test covers one oversized tag in the test profile; the boundary of each width and release builds aren't covered.",
     [TP, TB], [("range assertions in TaggedPointer::new and dangling", TP), ("TaggedBox::new and from_raw", TB)], ["panic or result of each constructor"],
     "Generated fitting and non-fitting inputs to every constructor at every width in dev and release.", "property-based testing (proptest): accept/refuse oracle computed from the width")
prop("C03", "Each documented reserved width gives a coherent build, others the default",
     "A build with the environment variable set to 48bits up to 63bits has that pointer width, and its number of tag bits, largest tag, largest address, address mask and tag type all agree with it. "
     "Without the variable (or with a value that isn't Unicode), or with any other value, the width is 60 bits, with a warning in the latter case only. "
     "This holds after any sequence of builds with other values in the same target directory.",
     ["configurations", "histories"], "all values of the variable, all sequences of builds in one target directory, dev and release",
     "The tests run at one width in one build; no test changes the variable.",
     [BR, DI], [("selection of the width", BR), ("constants for a width", DI)], ["public constants", "cargo's warnings"],
     "Generated histories of real cargo builds, each followed by reading the constants of what was linked; every documented width in dev and release.", "model-based testing of generated build histories")
prop("C04", "A box gives back any value of any type exactly as it was put in",
     "A value of any sized type (any size including zero, any alignment, with niches or destructors) stored under any tag is read, written and taken out of its box unchanged, through every accessor, and its tag stays what it was given. "
     "The box's contents are aligned for their type and no two live boxes overlap.",
     ["inputs", "histories"], "stored types of sizes 0 to tens of kilobytes and alignments 1 to 4096, every tag, any history of operations on several boxes at once",
     "The tests store about four small types, each for one operation.",
     [TB], [("new, new_unchecked, into_inner, as_ref, as_mut_ref, as_ptr, as_mut_ptr", TB)], ["values read", "addresses"],
     "Generated histories over a table of stored types in dev and release, against the values kept aside; every type through every path at least once.", "stateful property-based testing (proptest) against a model")
prop("C05", "Every stored value has one owner: it is dropped at most once, never while held",
     "A value moved into a box or container is never dropped while it is still held there, and through storing, viewing, converting, cloning and taking out it is dropped at most once in all; once taken out it belongs to the caller and is dropped exactly when the caller drops it. "
     "No operation duplicates a value or makes one up, also for values of size zero.",
     ["histories"], "any history of operations on several boxes and containers; " + ENUMS,
     "No test counts drops.",
     [TB, MC], [("moves by ptr read and write", TB), ("ManuallyDrop views", MC)], ["drop counts of tracked values"],
     "Generated histories over boxes and generated enums with tracked values of one identity each: double drops, early drops and copies are reported at once.", "stateful property-based testing with instrumented values")
prop("C06", "Each box has at most one heap block, and blocks are released as documented",
     "Boxing takes one heap block of the value's size and alignment, or none for values of size zero and unit variants, and no other operation allocates except cloning. "
     "A block is released at most once, with the layout it was allocated with, never while a box refers to it, and turning a box into a Box passes the block on to that Box. "
     "Nothing is written outside a live block.",
     ["histories"], "any history of operations on several boxes and containers; " + ENUMS,
     "No test observes the allocator.",
     [TB, MC], [("Box::into_raw and from_raw", TB), ("dangling for unit variants", MC)], ["every call of the global allocator"],
     "Generated histories under an instrumented global allocator with guard bytes. Known: blocks of discarded and emptied boxes aren't released.", "stateful property-based testing under an instrumented allocator")
prop("C07", "Copies of a copyable container stay valid whatever is done with the others",
     "When a container and its enum are Copy, each copy gives the stored value however often and in whatever order copies are viewed, cloned, discarded or taken out. "
     "Taking the value out of one copy doesn't disturb another, nor anything stored later.",
     ["histories"], "any history of copying, viewing, taking out and storing; every Copy enum",
     "One test copies a container once at most; reuse after taking out isn't tested.",
     [MC, TB], [("into_inner reads without releasing", TB)], ["values seen through each copy"],
     "Generated histories over generated Copy enums with memory churn and an allocator which scrubs released blocks.", "stateful property-based testing against a model")
prop("C08", "A container gives back exactly the enum value it was made from",
     "For any declared enum, a container made from a value gives back a value of the same variant with the same field values in the same places, by taking it out or by viewing it. "
     "This holds for any number of containers alive at once and in any order of operations.",
     ["programs", "inputs", "histories"], ENUMS,
     "The tests round-trip one declaration of four variants with one payload each.",
     [MC, MM, TA], [("the conversions generated by tagged_box!", MC), ("per-arity tuple expansion", MM)], ["values taken out or viewed"],
     "Generated declarations (plus a zoo of every kind and arity) compiled and driven by generated histories at several widths in dev and release.", "property-based testing over generated programs and histories")
prop("C09", "An enum boxed and unboxed by any mix of the conversions comes back unchanged",
     "Whatever boxed an enum value (the enum's own conversion, the container's, From) and whatever unboxes it (the enum's own conversion, the container's), the same variant with the same fields comes back. "
     "All of these conversions agree on tag, memory layout and contents.",
     ["programs", "inputs", "histories"], ENUMS,
     "The tests use each conversion with its own counterpart, where equal mistakes cancel out.",
     [MC, MM], [("into_tagged_box, from_tagged_box, into_inner, From", MC)], ["values taken out"],
     "Generated declarations with histories which mix the conversions of the enum and the container.", "property-based testing: differential over conversion paths")
prop("C10", "Viewing a box shows its current contents, once, and leaves it intact",
     "Viewing a box by reference calls the callback exactly once, with the stored variant and its current field values, and changes neither the box nor its value nor who owns it, also when the callback panics. "
     "What was written through the box's mutable accessors shows in every later view and in what is taken out.",
     ["programs", "inputs", "histories"], ENUMS + "; writes between the views",
     "The tests view one value of one declaration without writing to it.",
     [MC, TA], [("ref_from_tagged_box", MC)], ["what the callback sees", "the box afterwards"],
     "Generated declarations with histories of views, nested views, panicking callbacks and writes. Known: changes through Cells held inline are made to a bitwise copy.", "stateful property-based testing against a model")
prop("C11", "A variant's tag is its place in the declaration; other tags are refused",
     "The variant declared at position n (from 0) is stored under tag n and tag n is read as that variant, whatever the kinds and number of variants. "
     "Taking out or viewing a box whose tag belongs to no variant panics without calling the callback. "
     "Storing a variant for whose position there is no tag at the reserved width panics, as long as the position can be expressed in the tag type.",
     ["programs", "inputs", "configurations"], ENUMS + "; every tag",
     "The tests never look at the tag of a declared variant and never read an unknown one.",
     [MC, MM], [("the counter enum", MM), ("match on the tag", MC)], ["discriminant()", "panics"],
     "Generated declarations of 1 to 300 variants, every tag at the small widths.", "property-based testing over generated programs")
prop("C12", "From conversions exist exactly where documented and build the right variant",
     "A container is made from the element of a one-element tuple variant, from the tuple of the elements of a longer one, from () for an empty one, and from the enum itself, and then holds that variant with those elements in that order. "
     "Struct-like and unit variants add no conversion, and there are no others.",
     ["programs", "inputs"], ENUMS,
     "The tests make two containers from contents; element order, other arities and missing conversions aren't covered.",
     [MC, MM], [("__derive_from", MC), ("__expand_tuple", MM)], ["tag and contents of the container made"],
     "Generated declarations of all arities, with conversions checked for presence and absence by trait selection and for contents by value.", "property-based testing over generated programs")
prop("C13", "A clone is equal, independent and made by the value's own Clone",
     "Cloning a box or container of a cloneable enum gives one with the same tag and an equal value in a heap block of its own, made by the Clone of its fields, and leaves the original as it was. "
     "Changing, discarding or taking out either one doesn't affect the other. (A container that is Copy is cloned by copying it: see C07.)",
     ["programs", "histories"], ENUMS + ", with Clone",
     "One test clones one box of one type and compares it.",
     [TB, MC], [("Clone for TaggedBox", TB)], ["values, addresses, clone counts"],
     "Generated declarations with histories of cloning, writing and taking out over tracked values.", "stateful property-based testing against a model")
prop("C14", "Comparing boxes or containers gives what comparing the enum values gives",
     "Equality, inequality, all four order operators, partial_cmp, cmp, max, min and clamp of boxes (and of two containers with the traits derived) give exactly what the enum's own implementations give for the stored values, including incomparable values such as NaN and hand-written orders. "
     "Comparing changes neither side.",
     ["programs", "inputs"], ENUMS + ", with derived or hand-written comparisons",
     "The tests compare equal values of one type.",
     [TB], [("PartialEq, Eq, PartialOrd, Ord for TaggedBox", TB)], ["results of the operators"],
     "Generated declarations and pairs of values (equal, same variant, different, incomparable), against the enum's own operators.", "property-based testing: differential against the enum's own traits")
prop("C15", "Debug and Display of boxes and containers agree with the enum under any spec",
     "Formatting a box with Debug or Display, under any width, precision, fill, alignment, sign, alternate or zero flag, gives what formatting the stored enum value gives, and a container's derived Debug is that of a struct of its name whose value field is the enum. "
     "An error of the writer is passed on as it is, and formatting changes nothing.",
     ["programs", "inputs", "fault_sequences"], ENUMS + "; every format spec; writers that fail at any point",
     "One test formats one value with {} and {:?}.",
     [TB], [("Debug and Display for TaggedBox", TB)], ["formatted text", "result of the formatting call"],
     "Generated declarations, values and specs; writers which fail after a drawn number of bytes.", "property-based testing: differential against the enum's own formatting")
prop("C16", "Pointers and boxes print their address, without the tag, in every number format",
     "Lower and upper hex, binary and octal formatting of a tagged pointer or box, and pointer formatting of a tagged pointer, show the address without its tag as the corresponding integer or pointer would be shown, under any width, fill, alignment and flag, whatever the tag. The debug form of a tagged pointer tells its word, its address and its tag.",
     ["inputs", "configurations"], "all addresses, tags and format specs; all reserved widths",
     "No test formats a pointer with a non-zero tag or with flags.",
     [TP, TB], [("fmt implementations of TaggedPointer and TaggedBox", TP)], ["formatted text"],
     "Generated words and format specs at every width, and boxes of generated enums, against the standard formatting of the address.", "property-based testing: differential against integer formatting")
prop("C17", "Tagged pointers are equal, ordered and hashed by their tag and address",
     "Two tagged pointers are equal exactly when their tags and their addresses are, equal ones hash alike and unequal ones compare unequal under every operator. "
     "Their order is total, consistent with equality and the same through every operator, and is that of their words: first by tag, then by address.",
     ["inputs", "configurations"], "all pairs and triples of words, all reserved widths",
     "No test compares pointers which differ in the tag alone or in the address alone, or hashes them.",
     [TP], [("PartialEq, Eq, PartialOrd, Ord, Hash of TaggedPointer", TP)], ["operators", "hashes"],
     "Generated pairs and triples which differ in one bit, in the tag or in the address, at every width.", "property-based testing against a model")
prop("C18", "Pointers, boxes and containers are one 64-bit word with the documented bits",
     "A tagged pointer, a box of any enum and a container of any enum each take exactly eight bytes with the alignment of a 64-bit integer, and their bits are the address in the low bits and the tag above. "
     "A word taken from one of them and turned back is the same box, so they may be stored and passed as plain words.",
     ["programs", "inputs", "configurations"], ENUMS,
     "One test checks one size at one width.",
     [TP, TB, MC], [("repr(transparent)", TP), ("repr(transparent) container", MC)], ["size, alignment and bits"],
     "Sizes and transmuted bits over generated words and enums at every width.", "property-based testing over generated words and programs")
prop("C19", "Boxes and containers are Send and Sync exactly when their enum is",
     "A box or container of an enum is Send exactly when the enum is, and Sync exactly when the enum is. "
     "A value stored in one thread is taken out, viewed and dropped in another exactly as it would be in the first, and threads working at the same time on boxes of their own, or viewing the same Sync box, see what each of them would alone.",
     ["programs", "schedules"], ENUMS + ", of Send, Sync and neither",
     "No test uses threads or asserts the auto traits.",
     [TB], [("auto traits of TaggedBox<T>", TB)], ["trait selection", "values taken out in other threads"],
     "Trait selection on generated enums of every combination, generated hand-overs between threads, and threads running generated histories at the same time; schedules are the operating system's (and Miri's in C23).", "property-based testing over generated programs")
prop("C20", "Every documented declaration compiles; tuples of over 32 elements are refused",
     "tagged_box! accepts every enum of the documented grammar (any number, about a hundred under the default recursion limit, any order and mix of unit, struct-like and tuple variants of up to 32 elements, fields of any type, optional trailing comma in struct-like variants, attributes, visibilities, raw identifiers), at every reserved width, in editions 2015 to 2024, in any scope (whatever items, macros and methods the scope names, other than primitive types), without anything imported and under any name of the crate. "
     "A tuple variant of more than 32 elements is refused with the documented message.",
     ["programs", "configurations"], "declarations of the documented grammar, scopes, editions, all reserved widths",
     "The tests compile a few declarations in one edition, at one width, with the macro imported.",
     [MC, MM], [("the macros' rules", MC), ("tuple arity rules", MM)], ["rustc's verdict"],
     "Generated declarations compiled in generated scopes, editions and widths, with the plain enum as the oracle for what is Rust. Known: some variant names shadow names the generated code uses, and field names may be taken for constants in scope.", "grammar-based generation of programs, compiled")
prop("C21", "When memory runs out, boxing reports it and nothing is corrupted",
     "When the allocator refuses to give the block for a box, directly or in a conversion, the operation ends in the standard allocation error report (an abort or a panic); it never yields a box and never touches memory that isn't there.",
     ["fault_sequences", "programs"], "failure of any single allocation in any history; " + ENUMS,
     "No test makes an allocation fail.",
     [TB], [("Box::new", TB)], ["how the process ends"],
     "Histories with the allocator failing at a drawn allocation, each in a process of its own.", "property-based testing with fault injection")
prop("C22", "A panic in user code leaves every box usable and every value owned once",
     "When a view callback or a value's Clone, comparison or formatting panics during an operation on boxes, the panic reaches the caller. "
     "Afterwards no value has been dropped twice or dropped while still held, and every box that existed before still gives its value.",
     ["fault_sequences", "programs", "histories"], "a panic at any call of user code in any history; " + ENUMS,
     "No test panics inside an operation.",
     [TB, MC], [("ManuallyDrop around views", MC), ("views in trait implementations", TB)], ["drop counts and values after the panic"],
     "Histories over generated enums with a fuse which panics at a drawn call of user code.", "stateful property-based testing with fault injection")
prop("C23", "No operation has undefined behaviour",
     "No sequence of operations on boxes and containers that keeps to the documented safety conditions reads uninitialised, released or misaligned memory, makes an invalid value, races or goes beyond an object's bounds.",
     ["histories", "programs"], "any history of operations; " + ENUMS,
     "The tests run natively, where most undefined behaviour goes unnoticed, and on few histories.",
     [TB, TP, MC], [("unsafe code", TB)], ["Miri's verdict"],
     "The generated histories of the other checks run under Miri (permissive provenance, aliasing model off) on generated enums.", "property-based testing under an undefined-behaviour-detecting interpreter (Miri)")
prop("C24", "Values go to raw pointers and Boxes and back without copying or loss",
     "Turning a box into a raw pointer or a Box hands over the very block the value lives in, with the value unchanged and nothing allocated or released, and a box made from a raw pointer and a tag holds that block and that tag. "
     "Any sequence of such hand-overs keeps value, address and ownership.",
     ["histories", "inputs"], "any history of hand-overs over the table of stored types and one-element variants of generated enums; every tag",
     "The doc tests hand over one small value once.",
     [TB], [("into_raw, from_raw, into_box", TB)], ["addresses, values, allocator calls"],
     "Generated histories of hand-overs under an instrumented allocator.", "stateful property-based testing against a model")
prop("C25", "The crate and what its macro generates work without the standard library",
     "A program without the standard library, with its own allocator and panic handler, that declares and uses tagged enums compiles, links and behaves as elsewhere, at every reserved width.",
     ["programs", "configurations"], "declarations over core and alloc types, all reserved widths, dev and release",
     "The tests link the standard library, which hides uses of it in the generated code.",
     ["src/lib.rs", MC, TB], [("no_std and core/alloc paths", "src/lib.rs")], ["build and exit code of freestanding programs"],
     "Generated declarations compiled into freestanding programs which check themselves.", "property-based testing over generated freestanding programs")

prop("C26", "32-bit and big-endian targets behave like 64-bit ones",
     "On targets with pointers of 32 bits and on big-endian ones the crate builds, a tagged pointer or box is the same 64-bit value (the address below the reserved width, the tag above it), and boxes and tagged enums hold, show, change, convert and give back their values as on 64-bit little-endian targets, without undefined behaviour.",
     ["histories", "programs", "configurations"], "i686 and s390x (thorough: powerpc, armv7 and aarch64 too), reserved widths, the generated words, histories and declarations of the other properties",
     "The tests run on the machine that builds them, a 64-bit little-endian one.",
     ["src/lib.rs", TP, TB, MC], [("the targets which are accepted", "src/lib.rs"), ("casts between u64 and pointers", TP)], ["model and signatures of the other properties, Miri's verdict"],
     "The other properties' suites and oracles, interpreted by Miri for other targets.", "property-based testing against models, interpreted for other targets (Miri)")
prop("C27", "What is const can be used in constants and gives there what it gives at run time",
     "TaggedPointer's dangling, discriminant, as_u64, as_raw_u64, as_ptr, store_discriminant, fetch_discriminant and strip_discriminant and TaggedBox's dangling, discriminant and as_ptr can be called in constants, statics, array lengths, associated constants and const functions, "
     "and give there, at every reserved width, the very tags, addresses and words they give at run time; a static box of a variant without payload works as that variant. "
     "In a constant, a dangling pointer or box with a tag above MAX_DISCRIMINANT is refused at compile time.",
     ["programs", "configurations"], "constants over types of every size and alignment, all tags and 64-bit words, all reserved widths, dev and release",
     "The tests use no constants, so they pass without any function being const, and no test can look at a program which must not compile.",
     [TP, TB], [("const functions", TP), ("const functions", TB)], ["values of constants in generated programs", "the compiler's verdict on those programs"],
     "Generated programs of constants, compared with run time and with arithmetic done apart.", "property-based testing over generated programs (differential: constants against run time)")

prop("C28", "Boxes of enums implemented by hand do what the type's own traits do",
     "For any type which implements TaggableInner by hand, whatever tags it gives its values, whether several values share a tag or equal values have different ones, and whatever it stores for them, a TaggedBox of it is cloned, compared, ordered and shown by calling the type's own implementations on the values ref_from_tagged_box presents, "
     "with the results, errors and panics these have; a clone has the tag and contents into_tagged_box gives it, and no value is lost, duplicated or changed.",
     ["histories", "inputs"], "any history of boxing, cloning, comparing, sorting, showing, changing, handing over and taking out; any assignment of tags; lawful and unlawful comparisons, clones which change the value, failing formatters, panics in the type's code; all reserved widths",
     "The guide's example is compiled, not used; the tests only use what the macro writes, whose tags are dense and whose traits are derived.",
     ["src/manually_impl_enum.rs", "src/taggable.rs", TB], [("Clone, PartialEq, PartialOrd, Ord, Debug and Display of TaggedBox", TB), ("TaggableInner and TaggableContainer", "src/taggable.rs")], ["values, tags, drop counts, texts and orderings"],
     "A hand-written implementation with drawn behaviour, run through drawn histories against a model.", "stateful property-based testing against a model")

prop("C29", "What boxes and pointers lend is borrowed from them, and danger needs unsafe",
     "A reference taken from a box or pointer borrows it, mutably when it is a mutable one: no program is accepted which uses the reference after the box or pointer was moved, changed, assigned, taken out or gone, or beside another access, nor one in which what a view shows leaves its callback, "
     "a box is used after it was moved (unless its enum is Copy), or a box of a type with a lifetime outlives it. A box of a longer lifetime is accepted where a shorter one is expected. "
     "The operations which can break memory (as_ref, as_mut_ref, into_inner, into_box, from_raw, new_unchecked, ref_from_tagged_box) are refused outside unsafe, the others are accepted there, and every program which keeps to this is accepted.",
     ["programs"], "any sequence of taking references, viewing, moving, assigning, cloning, swapping, comparing and taking out, over boxes, containers and pointers, of enums with and without lifetimes, Copy or not; any relation of lifetimes in a signature",
     "It is about programs which must not compile: a test which does compile can't show it, and there are endlessly many of them.",
     [TP, TB, "src/taggable.rs"], [("signatures and variance of TaggedBox", TB), ("signatures of TaggedPointer", TP), ("the view's callback", "src/taggable.rs")], ["the compiler's verdict on generated functions"],
     "Generated functions, each compiled with the crate and with a model which has the documented signatures only; the verdicts must agree.", "property-based testing over generated programs (differential against a model of the interface)")

prop("C30", "A declaration makes the two documented types, as visible as declared, no more",
     "tagged_box! makes a container, with one private field value holding a TaggedBox of the enum, and the enum, each as visible as declared and with the declared attributes, and implements the documented conversions and the two traits. "
     "Whatever uses them, from any place in the program or another crate, is accepted or refused exactly as with the expansion the documentation shows: fields and variants as declared, matches over all variants exhaustive, only the derived traits implemented, "
     "nothing else in the way of methods, conversions and implementations of the program's own.",
     ["programs"], "declarations with any visibilities, attributes, derives and variants; any use, match, construction, trait bound, or implementation of the program's own; places in, below, beside and above the module, the root and other crates",
     "The tests only use what they declare in their own modules, and can't show what must not compile.",
     [MC], [("tagged_box!", MC), ("__make_enum!", MC)], ["the compiler's verdict on generated programs"],
     "Generated declarations and uses, each compiled with the macro and with the documented expansion written out; the verdicts must agree.", "property-based testing over generated programs (differential against the documented expansion)")


def main():
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]], "observe_at": p["observe"], "hook_needed": None}}, ensure_ascii=False) + "\n")
    m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": [
        {"property": p["id"], "quick_cmd": "python3 check.py %s" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s" % p["id"], "technique": p["technique"], "level": "exploration",
         "level_note": p["level_note"] + " Explores, doesn't prove."} for p in P], "not_applicable": [],
        "notes": "One driver, check.py; see DESIGN.md. No hooks in /repo: everything is observed through the public interface, the allocator and generated programs."}
    with open(os.path.join(root, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write("\n")


main()
