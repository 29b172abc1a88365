#!/usr/bin/env python3
"""appends the fixed: lines to known-findings.txt (matched by subject, so that hashes are current)"""
import os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = [
 ("do not assign to storage", "C01", "option<T> with non-trivial destructor, trivial copy/move and C++17: constructing into an empty option assigned to storage without a live object, so the value was destroyed once too often"),
 ("restore the empty state", "C02", "emplace/assignment into an empty option with traits left has_value()==true and no live object when the constructor threw (e.g. option<std::string>::emplace(max_size()+1, 'x'))"),
 ("opt::sentinel_f with more", "C28", "opt::sentinel_f with two or more values did not compile"),
 ("opt::get by type from an rvalue", "C12", "opt::get<T>(option<tuple>&&) did not compile"),
 ("assignment of an lvalue option<U&>", "C16", "assigning an lvalue option<U&> to option<T&> did not compile"),
 ("option<T&> cannot be constructed from an option", "C16", "constructing option<T&> from option<U&> (e.g. option<const X&> from option<X&>) did not compile although assignment and values of the same types convert"),
 ("value_or on an rvalue option<const T>", "C08", "value_or/operator| on an rvalue option<const T> did not compile"),
 ("opt::swap never participates", "C05", "swap(option&, option&) never took part in overload resolution, so std::swap was used instead of the contained swap"),
 ("swap of options with different contained types does not", "C05", "option<T>::swap(option<U>&) did not compile (access to a base of another specialization)"),
 ("max_level of a narrow PADDING", "C18", "max_level of a PADDING member narrower than int exceeded the range of the member: depths did not round-trip"),
 ("opt::flatten of a const lvalue", "C11", "opt::flatten(const option<option<T>>&) did not compile"),
 ("defining only OPTION_PFR_FILE", "C29", "defining only OPTION_PFR_FILE left OPTION_PFR_NAMESPACE undefined"),
 ("option of a const-qualified type with", "C29", "option<const double>, option<T* const>, option<option<const bool>>, option<std::pair<T* const, V>> (e.g. the value_type of a std::map) did not compile: set_level on a const object"),
 ("traits of std::unique_ptr<T[]>", "C18", "option<std::unique_ptr<T[]>> did not compile"),
 ("signed overflow when reading an enumeration", "C19", "reading an enumeration with a SENTINEL/SENTINEL_START value far from the stored value overflowed a signed integer"),
 ("wrappers of types without a default constructor", "C28", "opt::member<M, &M::x> etc. of an M without default constructor: option<member<M, &M::x>>(M(...)) did not compile"),
 ("wrappers reject conversions that", "C28", "option<sentinel<int, -1>>(std::size_t) etc. did not compile (narrowing inside braces), and sentinel_f<std::vector<int>, ...>(3, 4) built a list of two elements"),
 ("option of a union does not", "C29", "option of a union did not compile when a reflection library is available"),
 ("levels of an enumeration with underlying type bool", "C18", "option of an enumeration with underlying type bool: levels other than 0 and 1 were not representable (undefined behaviour, wrong on optimization)"),
 ("option of an enumeration without a fixed", "C29", "option of an enumeration without a fixed underlying type did not compile with clang"),
 ("emplacing into an option of a reference can bind", "C16", "option<const long&>::emplace(int_lvalue), make_option<const long&>(int_lvalue), option<const X&>(std::in_place, X{}) etc. compiled and stored a pointer to a temporary"),
 ("option of a reference takes any first", "C25", "option<T&>(anything, lvalue) was accepted, as if the first argument were std::in_place"),
 ("option of an aggregate accepts other", "C25", "C++20: option<struct { int a[2]; }>(1, 2) was rejected (brace elision), and option<struct { int a; }>(2.5) was reported as constructible but did not compile"),
 ("inspect of an rvalue option", "C29", "C++23: option<T>::inspect on an rvalue option did not compile"),
 ("annotation checking does not diagnose access after reset", "C30", "with OPTION_CONSUMED_ANNOTATION_CHECKING, o.reset(); o.get(); was not diagnosed (after o = opt::none it was)"),
 ("OPTION_USE_PFR alone does not", "C29", "-DOPTION_USE_PFR=1 without OPTION_PFR_FILE did not compile although Boost.PFR is installed and the file is optional"),
 ("assigning to a wrapper constructs a temporary", "C28", "wrapper = value constructed a temporary wrapper and move assigned it, and did not compile for a T assignable but not constructible from the value"),
 ("emplace and value_or_construct act as a C-style cast", "C27", "option<int*>::emplace(const int*) and emplace(double*) compiled in C++17, and value_or_construct with such an argument in every standard: the argument was reinterpreted or lost its const; option<int&>::value_or_construct(double_lvalue) returned an int& to the double"),
 ("option_cast acts as a C-style cast", "C27", "option_cast<int*>(option<const int*>), option_cast<int*>(option<double*>), option_cast<int&>(option<double&>) compiled although a static_cast is documented"),
 ("noexcept when the converting constructors throw", "C26", "option<T>::swap(option<U>&) was noexcept although the construction of a T from U&& (or U from T&&) may throw: std::terminate when exactly one of them holds a value"),
 ("terminates when the conversion throws", "C26", "option<T&>::emplace, try_emplace, option<T&>(std::in_place, x) and make_option<T&>(x) with an x whose operator T&() throws ended in std::terminate"),
]
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout.split("\n")
p = V + "/known-findings.txt"
keep = [l for l in open(p) if not l.startswith("fixed:")]
for sub, prop, what in T:
    h = [l.split()[0] for l in log if sub in l]
    assert len(h) == 1, sub
    keep.append("fixed: property=%s %s %s\n" % (prop, h[0], what))
open(p, "w").writelines(keep)
