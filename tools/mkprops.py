#!/usr/bin/env python3
"""Writes properties.jsonl (the source of the property list)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
I = "include/sparrow/"
p("C01", "The owning buffer is a contiguous sequence with exact memory ownership",
  "A buffer built, copied, moved, resized or edited at any position holds exactly the elements the same operations give on an abstract sequence, keeps elements that an operation does not mention, and preserves its content across reallocation. Its size never exceeds its capacity, and every block it obtains or adopts is given back exactly once.",
  ["inputs", "histories"], "every element type class, size, capacity, position, count and content, for each operation from an arbitrary reachable state",
  "The tests run each operation on a few fixed sizes; overlap directions, growth steps, empty ranges and capacity corner cases depend on the relation of size, capacity, position and count.",
  [I + "buffer/buffer.hpp", I + "buffer/allocator.hpp"],
  [("buffer class", I + "buffer/buffer.hpp: class buffer"), ("growth and relocation", I + "buffer/buffer.hpp: reserve, reserve_with_growth_policy, insert, insert_impl"), ("release", I + "buffer/buffer.hpp: buffer_base")])
p("C02", "A bitset is a sequence of bits with an exact count of unset bits",
  "After any sequence of operations a bitset's size, each of its bits and its count of unset bits agree with the abstract sequence of booleans, whether it owns, borrows or views its blocks. Iterators and references reached by any route designate the bit at their position, and a bitset without storage reads as all set.",
  ["inputs", "histories"], "every size, block content, position, count and value, starting from an arbitrary bitset",
  "Block boundaries, spare bits of the last block and count maintenance interact; the tests use a handful of sizes.",
  [I + "buffer/dynamic_bitset/dynamic_bitset_base.hpp", I + "buffer/dynamic_bitset/dynamic_bitset.hpp", I + "buffer/dynamic_bitset/bitset_iterator.hpp", I + "buffer/dynamic_bitset/bitset_reference.hpp", I + "buffer/dynamic_bitset/dynamic_bitset_view.hpp", I + "buffer/dynamic_bitset/non_owning_dynamic_bitset.hpp"],
  [("bit access and count maintenance", I + "buffer/dynamic_bitset/dynamic_bitset_base.hpp: set, test, resize, insert, erase, count_non_null, zero_unused_bits"), ("position arithmetic", I + "buffer/dynamic_bitset/bitset_iterator.hpp")])
p("C03", "Typed views and adaptors over bytes act as the typed sequence they stand for",
  "A view or typed adaptor over a byte buffer presents exactly the typed elements stored in those bytes, and every edit through it has the effect of the same edit on the typed sequence, with the underlying bytes resized to match. Building an immutable byte buffer from any range stores each element in order, and views refuse indices outside their range.",
  ["inputs", "histories"], "every content, size, position, count, element type and direction of edit",
  "Size conversion between bytes and elements and overlap in edits depend on sizes not sampled by the tests.",
  [I + "buffer/buffer_view.hpp", I + "buffer/buffer_adaptor.hpp", I + "buffer/u8_buffer.hpp", I + "utils/buffers.hpp"],
  [("typed adaptor", I + "buffer/buffer_adaptor.hpp"), ("view", I + "buffer/buffer_view.hpp"), ("byte buffer", I + "buffer/u8_buffer.hpp")])
p("C04", "Arrow C structures are released exactly once with everything they own",
  "An array or schema structure produced by the library, once released, has given back every buffer, child, dictionary and private block it owns exactly once and is marked released; moving or swapping a structure transfers that duty without duplicating it. Owning handles release exactly what they own, and non-owning handles release nothing.",
  ["inputs", "histories"], "every tree shape up to nesting by induction on children, every combination of owned and borrowed children and dictionaries, every order of move, swap, release and destruction",
  "A leak or double release is silent in a unit test and depends on ownership combinations and order of release.",
  [I + "arrow_interface/arrow_array.hpp", I + "arrow_interface/arrow_schema.hpp", I + "arrow_interface/arrow_array_schema_utils.hpp", "src/arrow_interface/arrow_array.cpp", "src/arrow_interface/arrow_schema.cpp", I + "arrow_interface/arrow_array/private_data.hpp", I + "arrow_interface/arrow_schema/private_data.hpp", "src/arrow_array_schema_proxy.cpp"],
  [("release callbacks", "src/arrow_interface/arrow_array.cpp: release_arrow_array; src/arrow_interface/arrow_schema.cpp: release_arrow_schema"), ("child release", I + "arrow_interface/arrow_array_schema_utils.hpp: release_common_arrow"), ("handle destruction", "src/arrow_array_schema_proxy.cpp: ~arrow_proxy")])
p("C05", "Copies of Arrow structures are deep, equal and independent",
  "Copying an array structure, a schema structure or a handle to both yields structures with equal format, name, flags, counts, buffer contents, children and dictionary that share no storage with the source. No byte outside the source buffers is read while copying.",
  ["inputs", "programs"], "every supported format, offset, length, buffer content and child tree",
  "Buffer lengths are derived per format from length, offset and offsets buffers; tests copy a few small structures.",
  ["src/arrow_interface/arrow_array.cpp", "src/arrow_interface/arrow_schema.cpp", I + "arrow_interface/arrow_array_schema_info_utils.hpp", "src/arrow_array_schema_proxy.cpp"],
  [("buffer sizes", "src/arrow_interface/arrow_array.cpp: get_arrow_array_buffers"), ("deep copy", "src/arrow_interface/arrow_array.cpp: copy_array; src/arrow_interface/arrow_schema.cpp: copy_schema")])
p("C06", "A handle to Arrow structures keeps its views and counts consistent",
  "Whatever sequence of setters is applied to a handle, what it reports (length, offset, null count, buffers, children, format, name, metadata, flags) is what was last set, its buffer views designate the live buffers, and once the length or a buffer is set the null count equals the number of unset validity bits among the elements designated by offset and length. Setters refuse structures not created by the library and refused calls change nothing.",
  ["inputs", "histories"], "every order of setters with arbitrary values on arbitrary handles",
  "Cached views and counts go stale only after particular sequences of setters.",
  ["src/arrow_array_schema_proxy.cpp", I + "arrow_array_schema_proxy.hpp"],
  [("setters", "src/arrow_array_schema_proxy.cpp: set_buffer, set_length, set_offset, push_bitmap, insert_bitmap, erase_bitmap, resize_bitmap"), ("cached counts", "src/arrow_array_schema_proxy.cpp: update_null_count, update_buffers")])
p("C07", "Slicing selects exactly the requested elements",
  "A slice of any array designated by a start and an end contains exactly the elements of the source at those positions, with their validity, in order, whether it copies or views, and slicing a slice is relative to that slice. Slicing leaves the source unchanged and a view remains usable as long as the source lives.",
  ["inputs", "histories"], "every source offset and length, every start and end, every layout, repeated slicing",
  "Each layout must apply the offset to each of its buffers; tests slice few layouts and rarely slice a slice.",
  ["src/arrow_array_schema_proxy.cpp", I + "layout/array_base.hpp", "src/array.cpp", I + "array_api.hpp"],
  [("slice", "src/arrow_array_schema_proxy.cpp: slice, slice_view")])
p("C08", "Data types, format strings and flags map one to one",
  "Every data type the library writes has a format string, reading that string yields the same data type, and every Arrow format string of a supported family maps to its type with its declared sizes. Flag sets convert to the bit mask of the specification and back without loss, and the number of bytes reserved for a type matches its format.",
  ["inputs"], "every data type, every flag combination, every format string of the parametric families with any number",
  "The mapping is a table plus prefix matching; tests list some entries.",
  [I + "types/data_type.hpp", I + "arrow_interface/arrow_flag_utils.hpp", I + "arrow_interface/arrow_array_schema_info_utils.hpp", I + "utils/bit.hpp"],
  [("format mapping", I + "types/data_type.hpp: format_to_data_type, data_type_to_format"), ("flags", I + "arrow_interface/arrow_flag_utils.hpp")])
p("C09", "A primitive array reads back the values and validity it was built from",
  "A fixed-width array built from any values and any validity has the size of its input, reports each element's value and validity unchanged through indexing, iterators, front and back, and designates exactly the elements from its offset. Its null count equals the number of missing elements.",
  ["inputs", "configurations"], "every element type, length, content, validity, offset and construction route",
  "Construction routes and offsets combine; the tests of this layout do not belong to the suite that runs.",
  [I + "layout/primitive_array.hpp", I + "layout/array_bitmap_base.hpp", I + "layout/array_base.hpp", I + "layout/layout_utils.hpp"],
  [("construction", I + "layout/primitive_array.hpp: create_proxy"), ("element access", I + "layout/array_base.hpp: operator[]"), ("validity", I + "layout/array_bitmap_base.hpp: has_value")])
p("C10", "Editing a primitive array changes exactly the addressed elements",
  "Assigning, inserting, erasing, appending, removing or resizing elements of a fixed-width array changes values, validity, length and null count as the same edit changes a sequence of optional values. Elements not addressed keep their value and validity, also when the array starts at a non-zero offset.",
  ["inputs", "histories"], "every array, offset, position, count, value and validity",
  "Values and validity are edited separately and both must shift by the offset; tests use unsliced arrays.",
  [I + "layout/mutable_array_base.hpp", I + "layout/primitive_array.hpp", I + "layout/array_bitmap_base.hpp", "src/arrow_array_schema_proxy.cpp"],
  [("editing", I + "layout/mutable_array_base.hpp"), ("values", I + "layout/primitive_array.hpp: insert_value, erase_values, resize_values"), ("validity", I + "layout/array_bitmap_base.hpp")])
p("C11", "Variable-size string and binary arrays keep offsets and data consistent",
  "Reading element i of a string or binary array yields exactly the bytes it was built from or last assigned, with its validity. Assigning, inserting, erasing or resizing elements changes exactly those elements, and the offsets stay non-decreasing and end at the data size.",
  ["inputs", "histories"], "every sequence of strings, both offset widths, every position, length and offset",
  "An edit must shift the data and all later offsets by the same amount; the tests of this layout are not in the suite that runs.",
  [I + "layout/variable_size_binary_layout/variable_size_binary_array.hpp", I + "layout/variable_size_binary_layout/variable_size_binary_reference.hpp", I + "layout/variable_size_binary_layout/variable_size_binary_iterator.hpp"],
  [("construction", I + "layout/variable_size_binary_layout/variable_size_binary_array.hpp: offset_from_sizes, create_proxy"), ("editing", I + "layout/variable_size_binary_layout/variable_size_binary_array.hpp: assign, insert_value, insert_values, erase_values, resize_values")])
p("C12", "String-view arrays return the exact bytes of short and long values",
  "Element i of a string-view or binary-view array is the byte sequence it was built from, whatever its length, whether stored inline or in a long-values buffer, with its validity.",
  ["inputs"], "every sequence of byte strings of any lengths, validity, offset and number of long buffers",
  "The inline threshold, prefix and buffer placement depend on each length; tests use a few strings.",
  [I + "layout/variable_size_binary_view_array.hpp"],
  [("encoding", I + "layout/variable_size_binary_view_array.hpp: create_buffers"), ("decoding", I + "layout/variable_size_binary_view_array.hpp: value")])
p("C13", "List arrays present each list as its own range of the child array",
  "Element i of a list, large list, list-view or fixed-size list array is exactly the range of child elements given by its offsets and sizes, with its validity and in order, also when the array starts at an offset. Building offsets from sizes gives running sums.",
  ["inputs"], "every offsets, sizes, child length, validity and array offset",
  "Four layouts derive ranges differently and each must apply the array's own offset.",
  [I + "layout/list_layout/list_array.hpp", I + "layout/list_layout/list_value.hpp", "src/list_value.cpp"],
  [("range of an element", I + "layout/list_layout/list_array.hpp: offset_range"), ("element", "src/list_value.cpp")])
p("C14", "Struct arrays present the row made of each child's element",
  "Element i of a struct array is the row whose j-th field is element i of child j, with the row's own validity, at any offset of the struct. Rows are equal exactly when all their fields are.",
  ["inputs"], "every number and type of children, length, offset and validity", "Tests read a small struct without offsets.",
  [I + "layout/struct_layout/struct_array.hpp", I + "layout/struct_layout/struct_value.hpp", "src/struct_value.cpp"],
  [("row", I + "layout/struct_layout/struct_array.hpp: value"), ("field", "src/struct_value.cpp")])
p("C15", "Union arrays select the child and position named by type id and offset",
  "Element i of a union array is the element of the child registered for its type id, at position i for a sparse union and at its stored offset for a dense one, at any offset of the union. Type ids map to children as declared in the format.",
  ["inputs"], "every type-id mapping, type ids, offsets, children and array offset", "The mapping and offsets are read from buffers; tests use identity mappings.",
  [I + "layout/union_array.hpp"], [("selection", I + "layout/union_array.hpp: operator[], element_offset, parse_type_id_map")])
p("C16", "Dictionary arrays decode each key to its dictionary value",
  "Element i of a dictionary-encoded array is the dictionary element at the position given by key i, and it is missing exactly when the key or the dictionary element is missing.",
  ["inputs"], "every key type, keys, dictionary, validities and offset", "Validity of key and value combine and key types differ in signedness; tests use one or two.",
  [I + "layout/dictionary_encoded_array.hpp"], [("decoding", I + "layout/dictionary_encoded_array.hpp: operator[]")])
p("C17", "Run-end encoded arrays expand to the value of the run containing each index",
  "Element i of a run-end encoded array is the value of the first run whose end exceeds i, by index and by iteration, and iteration visits exactly the logical length. The array's offset and length select logical elements.",
  ["inputs"], "every sequence of run ends of each width, values, validity, offset and length", "Search and iterator state depend on run boundaries; tests use one layout of runs.",
  [I + "layout/run_end_encoded_layout/run_end_encoded_array.hpp", I + "layout/run_end_encoded_layout/run_end_encoded_iterator.hpp", "src/run_encoded_array.cpp"],
  [("search", "src/run_encoded_array.cpp: operator[]"), ("iteration", I + "layout/run_end_encoded_layout/run_end_encoded_iterator.hpp")])
p("C18", "An optional value behaves as either a value or nothing",
  "Construction, assignment, swap, comparison and access of optional values and references agree with the abstract optional: comparisons order nothing before every value, access to a missing value raises, assignment through a reference writes the referred value and flag, and variants of them report their validity and equality alike.",
  ["inputs", "histories"], "every combination of value and reference, validity and value, and operator", "Many overloads; tests check selected pairs.",
  [I + "utils/nullable.hpp"], [("optional", I + "utils/nullable.hpp: nullable"), ("variant", I + "utils/nullable.hpp: nullable_variant")])
p("C19", "Iterators and helper ranges obey the random access laws",
  "Iterators of every array and helper range satisfy the laws of random access: advancing, stepping, distance, comparison and dereference agree with positions, and begin to end visits exactly the size. Repeated-value ranges and offset helpers yield the specified elements.",
  ["inputs", "histories"], "every position, distance and route of reaching a position", "Tests step through small ranges in order.",
  [I + "utils/iterator.hpp", I + "utils/functor_index_iterator.hpp", I + "utils/repeat_container.hpp", I + "utils/offsets.hpp", I + "layout/layout_iterator.hpp", I + "utils/algorithm.hpp"],
  [("iterator base", I + "utils/iterator.hpp"), ("position iterator", I + "utils/functor_index_iterator.hpp"), ("comparison", I + "utils/algorithm.hpp")])
p("C20", "A type-erased array acts as the typed array inside it",
  "An array obtained from Arrow structures selects the layout given by its format, and its size, validity, elements and equality are those of that layout; checked access refuses exactly the indices outside it. Copies are equal and independent, and extraction of the structures gives back what was adopted.",
  ["inputs", "programs"], "every supported format, length, offset, index and pair of arrays", "Tests visit a few formats and indices.",
  ["src/array.cpp", "src/array_factory.cpp", "src/array_helper.cpp", I + "array_api.hpp", I + "layout/dispatch.hpp", I + "layout/array_wrapper.hpp"],
  [("selection", "src/array_factory.cpp: array_factory"), ("dispatch", I + "layout/dispatch.hpp: visit"), ("access", "src/array.cpp")])
p("C21", "A record batch keeps names, columns and rows consistent",
  "A record batch has one distinct name per column and columns of equal length, finds a column by its name or position, and refuses unknown ones. Building one from ranges takes their names and columns in order without changing what the caller keeps; copies are equal and independent, moves keep the content, and equality holds exactly for equal names and columns.",
  ["inputs", "histories"], "every number of columns, names, column lengths and order of additions", "Tests use one small batch.",
  ["src/record_batch.cpp", I + "record_batch.hpp"], [("lookup", "src/record_batch.cpp: get_column, get_column_name"), ("consistency", "src/record_batch.cpp: check_consistency, update_array_map_cache")])
p("C22", "Building an array from a native nested range preserves every element",
  "The array built from any range of values, optionals, strings, tuples, variants or ranges of these has the length of the range and its element i corresponds to element i of the range, with missing elements exactly where the range has them; dictionary and run-end encodings expand to the same elements.",
  ["inputs", "programs"], "every supported nesting of types and every content", "The builder is generic; tests instantiate a few types with a few values.",
  [I + "builder/builder.hpp", I + "builder/builder_utils.hpp"], [("builder", I + "builder/builder.hpp: builder specialisations")])
p("C23", "Nested comparison of values is an equivalence and a strict weak order",
  "The nested equality used to build encoded arrays holds exactly between structurally equal values, including missing ones, and the nested ordering is a strict weak order consistent with it.",
  ["inputs"], "every pair and triple of nested values", "Transitivity and consistency quantify over triples of values.",
  [I + "builder/nested_eq.hpp", I + "builder/nested_less.hpp"], [("equality", I + "builder/nested_eq.hpp"), ("order", I + "builder/nested_less.hpp")])
p("C24", "A null array has the stated length and only missing elements",
  "A null array of length n has n elements, all missing, by index and iteration, equals exactly the null arrays of the same length, and refuses checked access outside its length.",
  ["inputs"], "every length, offset and index", "Tests use one length.",
  [I + "layout/null_array.hpp"], [("null array", I + "layout/null_array.hpp")])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
