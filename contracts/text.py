"""Contracts on text: messages are built for people, their content is not part of any property. A std::string made by
to_string, operator+, a stream or a constructor is *some* string; nothing else is written, nothing is thrown
(assumption: no bad_alloc). The representation handed back is that of an empty string."""
import term as t
from symex import Ptr

STR = r"std::__cxx11::basic_string<char, std::char_traits<char>, std::allocator<char> ?>"


def put(ex, st, p):
    off = t.lift(p.off)
    ex.store(st, ("ptr",), Ptr(p.obj, off + 16), p)
    ex.store(st, ("i", 64), t.const(0), Ptr(p.obj, off + 8))
    ex.store(st, ("i", 8), t.const(0), Ptr(p.obj, off + 16))
    return None


def made(ex, st, inst, a, dem): return put(ex, st, a[0])
def kept(ex, st, inst, a, dem): return a[0]
def nothing(ex, st, inst, a, dem): return None


TEXT = [
    (r"^(std::__cxx11::)?(std::)?(__cxx11::)?basic_string<char.*>::basic_string", made),
    (r"::basic_string<char.*>::~basic_string", nothing),
    (r"^std::__cxx11::basic_string<char.*>::(operator=|operator\+=|append|_M_append|_M_assign|_M_replace\w*|assign|insert|replace)", kept),
    (r"^std::__cxx11::basic_string<char.*>::(resize|push_back|reserve|_M_mutate|_M_erase|clear)", nothing),
    (r"^std::__cxx11::basic_string<char.*> std::operator\+", made),
    (r"^(scipp::\w+::)?(\w+::)*(to_string|labels_to_string|format_dims|dict_keys_to_string)\b", made),
    (r"std::__cxx11::to_string", made),
    (r"(Error|Exception)(<.*>)?::(?!~)\w+\(", nothing),
    (r"^std::(runtime_error|logic_error|out_of_range|invalid_argument|length_error)::", nothing),
]
