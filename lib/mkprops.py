"""writes properties.jsonl (kept as a script so that the wording lives in one place)"""
import json, os
P = []


def p(id, title, st, over, q, why, files, mech, observe=(), hook=None):
    d = dict(id=id, title=title, statement=st, quantifier=dict(over=over, text=q), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook))
    assert len(title) <= 80, title
    P.append(d)


CPP = 'macroslib/src/cpp/'
JNI = 'macroslib/src/java_jni/'
NOCPP = 'The C++ test-suite is not among the tests that run; the expectation tests compare generated text for a few interfaces and never execute it. '
p('C01', 'Scalar arguments and results cross the C++ boundary unchanged',
  'A boolean, integer or floating-point argument given to a generated C++ function, method or constructor reaches the Rust function in its declared position with exactly the same value (same bits for floats), for any number and mix of parameters. The Rust result comes back to C++ as the same value, in the C++ type of the same width and signedness.',
  ['inputs'], 'every value of every argument, for every primitive type and parameter mix of the interface',
  NOCPP + 'Even where executed, tests sample a handful of values per type; sign extension, narrowing and parameter-order errors show only for particular values.',
  [CPP + 'cpp-include.rs', CPP + 'fclass.rs', CPP + 'cpp_code.rs'], [('primitive type maps', CPP + 'cpp-include.rs'), ('argument conversion and forwarding', CPP + 'fclass.rs generate_static_method/generate_method/generate_constructor')], ['generated C++ API'])
p('C02', 'Enum values map one-to-one between C++ and Rust',
  'Each exported enumerator converts to exactly the Rust variant it was declared for, and back to the same enumerator, wherever an enum is passed or returned: as a plain argument or result, inside an optional, a result or a pair, and in callbacks. An integer that is no declared enumerator never reaches Rust code as a variant: the call aborts instead.',
  ['inputs'], 'every 32-bit value as the enumerator, in every position an enum type is accepted',
  NOCPP + 'Enumerators are compared by name in one expectation test; undeclared integers are never tried.',
  [CPP + 'fenum.rs', CPP + 'cpp-include.rs'], [('as_u32/from_u32 tables', CPP + 'fenum.rs generate_rust_trait_for_enum')], ['generated C++ API'])
p('C03', 'Optional, result and tuple values keep their alternative and their payload',
  'Passing or returning an optional, a result (as a variant), a pair or a triple through the generated C++ API preserves which alternative is present and every payload component, in order, for scalars, enums, strings, vectors and class objects. An absent value or an error never reads or frees a payload, and a present payload is delivered exactly once, so nothing leaks or is freed twice.',
  ['inputs'], 'both/all alternatives times every payload value, for every supported payload kind, with the value moved, dropped or read',
  NOCPP + 'The union-based transfer structures can be wrong for one alternative or payload type only.',
  [CPP + 'cpp-include.rs', CPP + 'map_type.rs'], [('CRustOpt / CRustResult unions, CRustPair, CRustTuple3', CPP + 'cpp-include.rs')], ['generated C++ API', 'heap ledger'])
p('C04', 'Strings cross the C++ boundary byte for byte and are freed exactly once',
  'A string passed to Rust (string view or path) is seen with exactly its bytes and length, including empty strings and embedded zero bytes, and a string or string view returned to C++ has exactly the bytes Rust produced. An owning string can be copied, moved, assigned and destroyed in any order: copies are independent, moved-from strings are empty, and the buffer is freed exactly once by the Rust allocator.',
  ['inputs', 'histories'], 'every string content up to the length bound, and every sequence of copy/move/assign/read/destroy operations up to the bound',
  NOCPP + 'Ownership errors need particular operation sequences (self-contained tests do one or two).',
  [CPP + 'cpp-include.rs'], [('CRustStrView, CRustString, RustString class, crust_string_free/clone', CPP + 'cpp-include.rs')], ['generated C++ API', 'heap ledger'])
p('C05', 'Slices and vectors of plain values expose exactly the Rust elements',
  'A slice or vector of plain values (integers, floats, C-layout structs) passed in either direction has the same length and the same elements in the same order; indexing and iteration visit exactly those elements, and writes through a mutable slice are seen by Rust. A returned vector owns its buffer: it can be moved, assigned and passed back to Rust, and is freed exactly once with its original capacity.',
  ['inputs', 'histories'], 'every length up to the bound including empty, every element value, every index, and every sequence of move/assign/pass-back/destroy up to the bound',
  NOCPP + 'Capacity different from length, empty slices and move chains are only sampled at best.',
  [CPP + 'cpp-include.rs', CPP + 'rust_vec_impl.hpp', CPP + 'rust_slice_tmpl.hpp', CPP + 'map_type.rs'], [('CRustSlice/CRustSliceMut/CRustVec', CPP + 'cpp-include.rs'), ('RustVec, RustSlice containers', CPP + 'rust_vec_impl.hpp, rust_slice_tmpl.hpp')], ['generated C++ API', 'heap ledger'])
p('C06', 'Vectors and slices of class objects behave as sequences of those objects',
  'A vector or slice of exported objects returned to C++ has the same length and the same objects in order; element access, iteration in both directions, iterator arithmetic and comparison agree with random-access sequence semantics. Pushing appends, removing returns exactly the removed element and keeps the order of the others, and every element and the buffer are freed exactly once, including when the vector is moved or handed back to Rust.',
  ['inputs', 'histories'], 'every length up to the bound, every pair of iterator positions, every sequence of push/remove/move/pass-back operations up to the bound',
  NOCPP + 'Iterator arithmetic is nowhere tested; element size, stride and index errors need specific positions.',
  [CPP + 'cpp-include.rs', CPP + 'rust_foreign_vec_impl.hpp', CPP + 'rust_foreign_slice_iter.hpp', CPP + 'rust_foreign_slice_impl.hpp', CPP + 'fclass.rs', CPP + 'rust_vec_access.hpp', CPP + 'rust_slice_access.hpp'],
  [('RustForeignVec, foreign slice iterators', CPP + 'rust_foreign_*.hpp'), ('CRustForeignVec helpers', CPP + 'cpp-include.rs')], ['generated C++ API', 'heap ledger'])
p('C07', 'An owned object is destroyed exactly once, by its last owner',
  'Each Rust object created through or returned to the generated C++ API is dropped exactly once: when its owning wrapper is destroyed or overwritten, or by Rust after the wrapper was passed by value. Moving, releasing, re-adopting a released pointer and taking reference wrappers transfer or share access without any double free, leak or use after free; a reference wrapper never frees, and a moved-from wrapper owns nothing.',
  ['histories', 'inputs'], 'every sequence of construct/move-construct/move-assign/release/adopt/reference/pass-by-value/call operations up to the bound',
  NOCPP + 'Ownership faults depend on the history of operations on the same object.',
  [CPP + 'fclass.rs', CPP + 'map_class_self_type.rs', CPP + 'cpp-include.rs'], [('generated wrapper class: move constructor/assignment, release, free_mem, destructor', CPP + 'fclass.rs'), ('box_object/unbox_object', CPP + 'fclass.rs')], ['generated C++ API', 'heap ledger', 'drop counter'])
p('C08', 'Copied and shared objects keep value and reference-count semantics',
  'For classes exported with copy support, copying a wrapper yields an independent equal object; for shared-pointer classes (Rc, Arc, with RefCell or Mutex) copying shares the same object and the object lives exactly as long as its last C++ or Rust holder. Copying an empty (moved-from) wrapper yields an empty wrapper, self-assignment is harmless, and assignment releases the previously held object.',
  ['histories', 'inputs'], 'every sequence of copy/assign/move/mutate/drop operations on up to the bound of wrappers',
  NOCPP + 'Reference-count errors show only after particular sequences.',
  [CPP + 'fclass.rs', CPP + 'map_class_self_type.rs', CPP + 'cpp-include.rs'], [('clone function and copy constructor/assignment generation', CPP + 'fclass.rs'), ('Rc/Arc/RefCell/Mutex self type conversions', CPP + 'map_class_self_type.rs, cpp-include.rs')], ['generated C++ API', 'heap ledger', 'drop counter'])
p('C09', 'A generated method runs the declared Rust function on the object it is called on',
  'Calling a generated method runs exactly the Rust function it was declared for, on the object the wrapper refers to, with shared or exclusive access as declared, for plain, boxed-trait, Rc, Arc, RefCell and Mutex self types; state changed by one call is seen by later calls and through every alias of the object. Object arguments and returned references denote the very object passed or stored, and static functions need no object.',
  ['inputs', 'histories'], 'every object state and argument value, and every interleaving of mutating and reading calls up to the bound on several objects of several self types',
  NOCPP + 'Confusing two objects, two methods or a copy with a reference needs specific states to show.',
  [CPP + 'fclass.rs', CPP + 'map_class_self_type.rs', CPP + 'map_type.rs', CPP + 'cpp-include.rs'], [('method generation', CPP + 'fclass.rs'), ('class reference conversions', CPP + 'map_class_self_type.rs')], ['generated C++ API'])
p('C10', 'C++ callbacks receive the exact arguments and are released exactly once',
  'When Rust calls a C++ implementation of an exported callback interface, the matching C++ virtual method runs once with exactly the arguments Rust passed, and its result (scalar, enum, optional, string, object) reaches Rust unchanged; each method slot calls its own method. A callback given with ownership is destroyed exactly once, when Rust drops it, and one given by reference is never destroyed.',
  ['inputs', 'histories'], 'every argument and result value; every order of calls and drop up to the bound; owned and borrowed callbacks',
  NOCPP + 'Slot mix-ups between methods of equal signature and ownership faults are invisible to text comparison.',
  [CPP + 'finterface.rs', CPP + 'map_type.rs', CPP + 'cpp_code.rs'], [('function table struct and trampolines', CPP + 'finterface.rs')], ['generated C++ API', 'heap ledger'])
p('C11', 'C-layout structs, function pointers and user type maps convert faithfully',
  'A struct exported with C layout has the same size and field values on both sides in arguments, results, optionals and slices; function pointers and closures passed with a context pointer are called with exactly the given context and arguments. User-written type maps are applied exactly as written, once per conversion, in the direction declared; of two rules for the same types the one given later counts.',
  ['inputs'], 'every field and argument value',
  NOCPP + 'Layout and conversion-direction mistakes depend on types and values no test combines.',
  ['macroslib/src/typemap/typemap_macro.rs', CPP + 'map_type.rs', CPP + 'cpp-include.rs', CPP + 'cpp_code.rs'], [('foreign_typemap! expansion', 'macroslib/src/typemap/typemap_macro.rs'), ('define_c_type', CPP + 'map_type.rs')], ['generated C++ API'])
p('C12', 'Boost and single-header configurations behave like the default C++ output',
  'The generated C++ API gives the same results, ownership and lifetime behaviour whichever configuration is selected: standard-library or Boost optional/variant/string-view types, declarations together with or separate from their implementation, and whatever (possibly nested) namespace the API is generated into.',
  ['configurations', 'inputs'], 'every supported configuration crossed with every input of the shared scenarios',
  'Only the expectation text of the two flavours is compared; the Boost output is never compiled by the tests that run.',
  [CPP + 'mod.rs', CPP + 'cpp-include.rs', CPP + 'fclass.rs', 'macroslib/src/lib.rs'], [('option = "CppOptional::Boost" and similar branches', CPP + 'cpp-include.rs'), ('separate_impl_headers', CPP + 'fclass.rs')], ['generated C++ API'])
JT = 'The Java suite runs a handful of concrete calls; '
p('J01', 'Numbers cross the Java boundary exactly, or the call is rejected',
  'Every boolean, integer and floating-point argument and result keeps its value between Java and Rust, with unsigned and pointer-sized Rust types carried in the next larger Java type. A Java value outside the Rust type\'s range, or a Rust value outside the Java type\'s range, is rejected (the call aborts) and never silently wrapped or truncated.',
  ['inputs'], 'every Java value of every primitive parameter and every Rust value of every primitive result',
  JT + 'range edges and rejected values are not exercised.', [JNI + 'jni-include.rs', JNI + 'fclass.rs'], [('checked TryFrom conversions', JNI + 'jni-include.rs'), ('argument conversion', JNI + 'fclass.rs')], ['generated Java API'])
p('J02', 'Strings cross the Java boundary character for character',
  'A Java string passed to Rust (as a string, a string slice or a path) arrives as the same text, and a Rust string returned to Java has the same characters, for every valid text including empty strings, embedded zero characters and characters outside the basic plane. Character buffers obtained from the virtual machine are released exactly once and not used after release.',
  ['inputs'], 'every string up to the length bound',
  JT + 'strings are short ASCII literals.', [JNI + 'jni-include.rs'], [('JavaUTF16Slice, from_std_str_jstring', JNI + 'jni-include.rs')], ['generated Java API', 'modelled JNI environment'])
p('J03', 'Arrays cross the Java boundary with the same length and elements',
  'Primitive arrays, string arrays and object arrays passed between Java and Rust keep their length, order and element values in both directions; element buffers pinned for a call are released exactly once and Java\'s array is not modified by passing it. Objects returned in an array are each owned by exactly one Java object.',
  ['inputs'], 'every array length up to the bound including zero, every element value',
  JT + 'a few fixed arrays.', [JNI + 'jni-include.rs'], [('define_array_handling_code!', JNI + 'jni-include.rs'), ('vec_of_objects_to_jobject_array and its inverse', JNI + 'jni-include.rs')], ['generated Java API', 'modelled JNI environment'])
p('J04', 'Java optionals and exceptions reflect the Rust option or result',
  'A Rust None appears in Java as the empty optional (or null where declared) and Some(x) as exactly x; a Java null or boxed value arrives in Rust as None or Some of the same value. An Err result throws the declared Java exception carrying the error text and no value is returned; an Ok result throws nothing and returns exactly the value.',
  ['inputs'], 'both alternatives with every payload value, for every supported payload type',
  JT + 'one payload value per type.', [JNI + 'jni-include.rs', JNI + 'fclass.rs', JNI + 'map_type.rs'], [('to_java_util_optional_*, from_java_lang_*_to_rust', JNI + 'jni-include.rs'), ('Result type maps and jni_throw', JNI + 'jni-include.rs')], ['generated Java API'])
p('J05', 'A Java object frees its Rust value exactly once',
  'Each Rust value owned by a Java object is dropped exactly once, by explicit delete or by finalization whichever comes first, in any order and number of such calls; passing the object by value to Rust moves the value out so that later delete or finalization frees nothing. Methods called on a live object always act on its own Rust value, including shared self types.',
  ['histories', 'inputs'], 'every sequence of create/call/pass/delete/finalize operations up to the bound',
  JT + 'double deletion and finalization after transfer are not explored; the garbage collector decides the order.', [JNI + 'fclass.rs', JNI + 'map_class_self_type.rs', JNI + 'jni-include.rs', JNI + 'rust_code.rs', JNI + 'java_code.rs'], [('delete/finalize/do_delete generation', JNI + 'fclass.rs'), ('object_to_jobject, mNativeObj', JNI + 'jni-include.rs')], ['generated Java API', 'drop counter', 'heap ledger'])
p('J06', 'Java callbacks receive the exact arguments and are released exactly once',
  'When Rust invokes a Java implementation of an exported callback interface, the matching Java method runs once with exactly the arguments passed (including narrow integers, floats, strings, objects and enums) and its result reaches Rust unchanged. The global reference to the Java object is deleted exactly once when Rust drops the callback, and an exception thrown by the Java method is cleared rather than left pending.',
  ['inputs', 'histories'], 'every argument and result value; every order of calls and drop up to the bound; callbacks that throw or not',
  JT + 'variadic argument promotion errors depend on value and position.', [JNI + 'finterface.rs', JNI + 'jni-include.rs', JNI + 'rust_code.rs'], [('JavaCallback and generated trait impl', JNI + 'finterface.rs'), ('method id table', JNI + 'finterface.rs')], ['generated Java API', 'modelled JNI environment'])
p('J07', 'Enum values map one-to-one between Java and Rust',
  'Each exported Java enum constant converts to exactly the Rust variant it was declared for and back, as argument, result, optional and in callbacks, and its integer value is stable in both directions. An integer that is no declared constant is rejected on either side and never becomes a variant.',
  ['inputs'], 'every 32-bit integer, every constant, every position an enum is accepted',
  JT + 'unknown values are not tried.', [JNI + 'fenum.rs', JNI + 'map_type.rs', JNI + 'jni-include.rs'], [('fromInt/getValue, as_jint/from_jint', JNI + 'fenum.rs')], ['generated Java API'])
p('J08', 'Every native Java method is bound to its own Rust function',
  'For every native method the generated Java classes declare, including overloads and names or packages needing escapes, the Rust side exports exactly the symbol the Java virtual machine looks up, with a matching signature, and calling the method runs the Rust function it was declared for.',
  ['inputs', 'programs'], 'every native method of an interface covering static, instance, overloaded, underscore and nested-package names; every argument value',
  JT + 'overloads are few; a wrong symbol shows only when that very overload is called.', [JNI + 'rust_code.rs', JNI + 'fclass.rs', JNI + 'map_type.rs'], [('JNI symbol mangling', JNI + 'rust_code.rs'), ('overload detection', JNI + 'fclass.rs')], ['generated Java API'])
p('J09', 'Native calls leave no virtual machine resource behind',
  'Class, method and field handles cached at library load refer to the classes and members they are used for, are valid for the whole lifetime of the library, and are released exactly once at unload. Every global reference, pinned array and string buffer taken during a call is released, no further environment call other than the permitted ones is made while an exception is pending, and no reference is used after its release.',
  ['inputs', 'histories'], 'every call of the interface with every input up to the bounds, every load/unload cycle',
  'The virtual machine tolerates most violations silently, so concrete tests pass.', [JNI + 'find_cache.rs', JNI + 'jni-include.rs', JNI + 'rust_code.rs', JNI + 'mod.rs'], [('JNI_OnLoad/JNI_OnUnload generation', JNI + 'mod.rs, find_cache.rs')], ['modelled JNI environment'])
p('J10', 'User type maps for Java are applied exactly as written',
  'A type map the user writes with foreign_typemap! in the interface or adds with merge_type_map is applied exactly as written, once per conversion and in the direction declared, on the Rust side and on the Java side: in arguments, results, constructors, methods, optionals, exceptions and callbacks, with the variant for the configured null annotations. A rule given later replaces the earlier rule for the same types, including a built-in one, and all other conversions stay as they are.',
  ['inputs', 'configurations'], 'every value of every mapped type, in every position a mapped type may appear',
  JT + 'the only user map is one for dates, whose two directions are not distinguishable from built-in rules.', ['macroslib/src/typemap/typemap_macro.rs', 'macroslib/src/typemap/merge.rs', JNI + 'map_type.rs', JNI + 'fclass.rs', 'macroslib/src/lib.rs'], [('foreign_typemap! expansion', 'macroslib/src/typemap/typemap_macro.rs'), ('merge_type_map, TypeMap::merge', 'macroslib/src/typemap/merge.rs'), ('java_converter', JNI + 'map_type.rs')], ['generated Java API'])
p('J11', 'Null annotations of the Java API tell the truth',
  'With null annotations configured, a result that the generated Java API annotates as non-null is not null for any input, and results that are texts, objects, optionals, dates or arrays of objects carry that annotation. A parameter is annotated as nullable exactly when its Rust type is an option, and null passed for it is seen by Rust as the absent value; every other parameter of a reference type, of functions, methods, constructors and callback methods, is annotated as non-null, and callbacks never receive null for it. Values of primitive type carry no annotation.',
  ['inputs'], 'every input of every generated function, every combination of present and absent optional arguments',
  'The stable tests compare a few generated signatures as text; no test relates an annotation to what the function returns or accepts.', [JNI + 'map_type.rs', JNI + 'java_code.rs', JNI + 'fclass.rs', JNI + 'finterface.rs', JNI + 'jni-include.rs'], [('annotation of mapped types', JNI + 'map_type.rs'), ('f_type rules with option = "NullAnnotations"', JNI + 'jni-include.rs'), ('get_null_annotation_imports, args_with_java_types', JNI + 'java_code.rs')], ['generated Java API and its annotations'])
p('G01', 'Generated files are rewritten only when their content changed',
  'After writing a generated file, the file holds exactly the generated content, whatever was there before; and if the file already held exactly that content it is not opened for writing, so its modification time stays.',
  ['inputs', 'fault_sequences'], 'every old and new content up to the bound, missing or unreadable old file, short reads',
  'No unit test covers rewriting; only prefix/length coincidences reveal a wrong comparison.', ['macroslib/src/file_cache.rs'], [('FileWriteCache::update_file_if_necessary', 'macroslib/src/file_cache.rs')], ['file contents and write operations'])
p('G02', 'Generated identifiers never collide and substitution keeps the rest of the text',
  'A fresh name chosen while generating code differs from every name already in use and starts with the requested stem, which is returned unchanged when free. Replacing a placeholder in a code template substitutes the first occurrence and the further ones with their respective replacements and leaves every other byte of the template unchanged.',
  ['inputs'], 'every stem, name set, template, placeholder and replacement up to the bound',
  'Only two or three sample strings are exercised, indirectly.', ['macroslib/src/namegen.rs', 'macroslib/src/str_replace.rs'], [('new_unique_name', 'macroslib/src/namegen.rs'), ('replace_first_and_other', 'macroslib/src/str_replace.rs')], ['return values'])
p('G03', 'Documentation comments never change the generated code',
  'Whatever the text of the documentation comments in the interface description (several lines, trailing backslashes, comment delimiters, unicode escapes), the comment the generator writes is a comment for the target language from its first to its last byte: the code after it is the code that would be generated without it, and the words of the documentation are kept.',
  ['inputs'], 'every text of one or two documentation attributes up to the bound', 'Expectation tests contain a handful of plain one-line comments.',
  ['macroslib/src/cpp/cpp_code.rs', 'macroslib/src/java_jni/java_code.rs'], [('doc_comments_to_c_comments', 'macroslib/src/cpp/cpp_code.rs'), ('doc_comments_to_java_comments', 'macroslib/src/java_jni/java_code.rs')], ['generated text'])
p('G04', 'A generator run leaves exactly the right files in the output directory',
  'A run that succeeds leaves every generated file in the output directory with the generated content, whatever was there before, without rewriting files that are already right; with remove_not_generated_files_from_output_directory it also removes every stale .h/.hpp (C++) or .java (Java) file and never one it has just generated, and without the option removes nothing; other files are never touched; a failure to read, write or remove is reported as an error.',
  ['inputs', 'configurations', 'fault_sequences'], 'every initial content of the directory, option value and fault within the bound', 'The tests only look at generated text; no test checks removal, unrelated files or faults.',
  ['macroslib/src/cpp/mod.rs', 'macroslib/src/java_jni/mod.rs', 'macroslib/src/typemap/utils.rs', 'macroslib/src/file_cache.rs'], [('expand_items', 'macroslib/src/cpp/mod.rs'), ('expand_items', 'macroslib/src/java_jni/mod.rs'), ('remove_files_if', 'macroslib/src/typemap/utils.rs')], ['files after the run'])
p('G05', 'Attribute callbacks run exactly where asked; other Rust items pass through',
  'A callback registered for a class, method or enum attribute is called for every item that carries the attribute, once for each time it is written and for each generated file of the item, with the complete generated text of that file and with the right class name, method name and kind; what it does to the text is what is written; items without the attribute are not touched. An attribute that is neither predefined nor registered, or a callback that the chosen language cannot support, is an error and never silently ignored; after such an error the output file is not written. Every Rust item of the sources that is not one of the generator\'s macros is in the output unchanged and in order.',
  ['inputs', 'configurations'], 'every combination of attributes, registered callbacks, items and sources within the bound', 'One test registers one callback of each kind for C++ with one item; Java enums, several items, errors and pass-through order are not looked at.',
  ['macroslib/src/lib.rs', 'macroslib/src/extension.rs', 'macroslib/src/code_parse.rs', 'macroslib/src/cpp/fclass.rs', 'macroslib/src/cpp/fenum.rs', 'macroslib/src/java_jni/fclass.rs', 'macroslib/src/java_jni/fenum.rs', 'macroslib/src/python/mod.rs'], [('expand_str, register_*_attribute_callback', 'macroslib/src/lib.rs'), ('extend_foreign_class, extend_foreign_enum', 'macroslib/src/extension.rs'), ('parse_attrs', 'macroslib/src/code_parse.rs')], ['generated files', 'public Generator API'])
PT = 'The Python suite of the repository calls a few functions with a few values (and needs an interpreter); '
PY = ['macroslib/src/python/mod.rs', 'macroslib/src/python/python-include.rs']
p('P01', 'Values cross the Python boundary exactly or raise',
  'A value passed from Python to an exported Rust function arrives unchanged when the Rust type can represent it, and the result arrives in Python as the equal Python value: integers of every width, bool, floats, text, enums, options (None), lists and slices, tuples. A value the Rust type cannot represent, a value of another type, or a wrong number of arguments raises a Python exception and Rust is not called; nothing is wrapped, truncated or crashes.',
  ['inputs'], 'every argument value of every supported type (integers beyond 64 bits, non-ASCII text, None, nested lists), every number of arguments up to the bound',
  PT + 'range errors and mixed element types depend on the value.', PY, [('generate_conversion_for_argument, generate_conversion_for_return', PY[0]), ('enum conversion', PY[0]), ('conversions of lists, options and tuples', PY[0])], ['generated Python module API'])
p('P02', 'Failures reach Python as exceptions and leave nothing behind',
  "A Rust function returning Err raises the module's Error with the text of the error and of its whole chain of causes; Ok returns the value. A failing conversion of any argument, in any position, raises an exception without the Rust function being called. After any call, successful or not, no Python reference and no Rust memory is leaked or released twice, and no exception is set when a value is returned.",
  ['inputs', 'fault_sequences'], 'every Ok/Err outcome, error text, cause chain and position of the unconvertible argument up to the bound',
  PT + 'reference balance on error paths is never looked at.', PY, [('Result conversion and Error type', PY[0]), ('cause_to_string', PY[1])], ['generated Python module API', 'reference counts'])
p('P03', 'Python objects own their Rust objects',
  'A Python object made by an exported constructor or returned from Rust holds exactly one Rust object (or one share of it for Arc storage), calls reach that object, and it is dropped exactly once when the last Python reference goes. Arguments by reference act on that very object, arguments by value receive a clone (or a share for Arc) while the Python object keeps its own; this also holds in options, lists and tuples and when the same object appears in several positions. Objects of another class are rejected with an exception, and no call blocks forever.',
  ['inputs', 'histories'], 'every argument value, every assignment of objects to argument positions, every order of the operations up to the bound',
  PT + 'aliasing of arguments and the order of drops are not covered.', PY, [('generate_deref_for_* / storage kinds', PY[0]), ('rust_instance data of py_class!', PY[0])], ['generated Python module API', 'live Rust objects'])
p('T01', 'Type conversion search finds a shortest applicable conversion, deterministically',
  'Whenever the known conversion rules connect two types, the generator emits a chain of those rules with the fewest steps, each step starting where the previous one ended; a generic rule is applied only to a type that is an instance of its pattern and whose trait bounds are all met; a chain through applicable generic rules is found when no concrete one exists and an error is reported when there is none; a type is mapped to a nearest foreign type (the first registered among equally near ones), whatever else is registered.',
  ['programs', 'configurations'], 'every set of conversion rules, trait implementations and foreign types over the queried types', 'The tests fix a small number of interfaces and type maps.', ['macroslib/src/typemap.rs', 'macroslib/src/typemap/ast.rs', 'macroslib/src/typemap/merge.rs'], [('conversion graph search', 'macroslib/src/typemap.rs find_conversion_path, try_build_path'), ('generic rule matching', 'macroslib/src/typemap/ast.rs is_conv_possible')])
p('T02', 'Every interface the generator accepts yields code that compiles',
  'If the generator accepts an interface without an error, the generated Rust glue and the generated foreign code compile and link together.',
  ['programs'], 'every interface description in the supported language', 'Tests cover a fixed corpus of interfaces.', ['macroslib/src/lib.rs', 'macroslib/src/code_parse.rs', CPP + 'fclass.rs', JNI + 'fclass.rs'], [('whole generator', 'macroslib/src')])
if __name__ == '__main__':
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(here + '/properties.jsonl', 'w') as f:
        for d in P:
            f.write(json.dumps(d) + '\n')
