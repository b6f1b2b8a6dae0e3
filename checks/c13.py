def plan(c):
    c.module("ad", "comparators.cpp", ["ADAPT"])
    c.bounds = ["comparator: every binary relation on 3 values; projection: every map of 3 values, two of them; every nesting of flip, not_fn and projection_compare up to depth 3, all four value categories of the adapter, lvalue and rvalue arguments",
                "callables: function objects with and without state, overloaded on the argument types, function pointers, pointers to data members and member functions, function_constant",
                "half on all values of 5 integer types; the log and sqrt functors are outside (they only forward to the C library)"]
    for w in range(23):
        for h in range(6): c.task("ad", "e_adapt", [w, h])
