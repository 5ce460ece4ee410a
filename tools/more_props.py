prop('V01', 'A safe variable never silently takes a value outside its range',
     'Constructing, initialising, assigning or passing to a safe type from an integer, bool, enumeration, another safe type or a safe literal stores exactly the given value when it lies within the declared range of the target, and otherwise invokes the error handler with a positive overflow error (value above), a negative overflow or domain error (value below); never a wrapped or truncated value.',
     ['inputs', 'configurations'], 'every source value, for a broad table of source types and target types/ranges and four syntactic forms of conversion',
     'Tests sample about ten values for each type pair; the claim is over up to 2^64 values and arbitrary ranges.',
     [D + 'safe_base.hpp', D + 'safe_base_operations.hpp', D + 'checked_integer.hpp'],
     [('validate_detail::return_value', D + 'safe_base_operations.hpp'), ('checked::cast', D + 'checked_default.hpp')], technique=AI, note=AIN)
prop('V02', 'Conversion of a safe value to a built-in integer is exact or reports an error',
     'Converting a safe value to a built-in integer type, explicitly, implicitly or as an argument, yields exactly the value when the built-in type can represent it and otherwise invokes the error handler; base_value always yields exactly the stored value.',
     ['inputs', 'configurations'], 'every value of each source type/range for every built-in integer target and form of conversion',
     'Tests sample about ten values for each type pair.', [D + 'safe_base.hpp', D + 'safe_base_operations.hpp'],
     [('safe_base::operator R()', D + 'safe_base_operations.hpp'), ('base_value', D + 'safe_base.hpp')], technique=AI, note=AIN)
prop('R01', 'The declared range of a result type contains every value the expression can have',
     'numeric_limits<decltype(t op u)>::min() and max() bound every value the expression can return without reporting an error, for + - * / % << >> & | ^ and unary - + ~ on safe types, ranges, literals and built-in operands: later code is allowed to skip checks on the strength of that range.',
     ['inputs', 'configurations'], 'every pair of operand values for a broad family of operand types/ranges, thirteen operators, native and automatic promotion',
     'A wrong range makes a later check vanish; tests do not compare values of an expression with the range declared for it.',
     [D + 'safe_base_operations.hpp', D + 'interval.hpp', D + 'utility.hpp'],
     [('return_interval / rl / ru of each *_result', D + 'safe_base_operations.hpp'), ('interval operators', D + 'interval.hpp'), ('round_out', D + 'utility.hpp')],
     technique=AI, note=AIN)
prop('C03', 'checked::cast is exact or returns the right error',
     'checked::cast<R>(t) between built-in integer types, and the range limited heterogeneous cast, return exactly t when it lies in the target range and otherwise an error that names the direction (positive overflow above; negative overflow or domain error below), without undefined behaviour.',
     ['inputs'], 'every source value for 11 x 12 type pairs and limited target ranges', 'test_checked_cast compares a dozen values per pair.',
     [D + 'checked_integer.hpp', D + 'checked_default.hpp'], [('heterogeneous_checked_operation::cast', D + 'checked_integer.hpp')], technique=AI, note=AIN)
prop('K01', 'Comparison of safe values is mathematically correct or reports an error',
     'For <, <=, >, >=, == and != on safe types, ranges, literals and built-in operands under native, automatic and cpp<> promotion, the result is the truth of the mathematical comparison of the two values; the error handler is invoked only if an operand cannot be represented in the common type the policy compares in, and never is a wrong truth value returned.',
     ['inputs', 'configurations'], 'every pair of values for a broad family of operand types/ranges and six operators',
     'Mixed sign comparisons go wrong on few values; the result may also be decided from the static ranges alone, which differs for each instantiation.',
     [D + 'safe_base_operations.hpp', D + 'safe_compare.hpp', D + 'interval.hpp', D + 'automatic.hpp'],
     [('less_than_result / equal_result', D + 'safe_base_operations.hpp')], technique=AI, note=AIN)
prop('K02', 'safe_compare primitives give the mathematical truth for every pair of integer types',
     'safe_compare::less_than, less_than_equal, greater_than, greater_than_equal, equal and not_equal return the mathematical truth for all values of every pair of built-in integer types, without undefined behaviour.',
     ['inputs'], 'every pair of values of 12 x 12 built-in types', 'The claim is over up to 2^128 value pairs for each of 864 instantiations.',
     [D + 'safe_compare.hpp'], [('safe_compare_detail::less_than / equal', D + 'safe_compare.hpp')], technique=AI, note=AIN)
prop('M01', 'Compound assignment, ++ and -- are operate-then-assign with the strong guarantee',
     'x op= y (+ - * / % << >> & | ^) leaves in x, and returns, exactly the mathematical result of x op y when x can hold it, and otherwise invokes the error handler at a point where x still has its old value; ++x, --x, x++ and x-- change x by exactly one or invoke the handler with x unchanged, the prefix forms return x itself and the postfix forms return the old value.',
     ['inputs', 'configurations'], 'every pair of operand values for pairs of standard types, ranges and built-in operands',
     'Tests of compound operators look at a handful of values and never at the variable at the moment an error is reported.',
     [D + 'safe_base.hpp', D + 'safe_base_operations.hpp'], [('operator+= … operator^=', D + 'safe_base_operations.hpp'), ('operator++/--', D + 'safe_base.hpp')],
     technique=AI, note=AIN)
prop('E01', 'Each error calls exactly the matching handler of the policy exactly once, and nothing else calls one',
     'With an exception policy whose handlers all return, each arithmetic operation, shift, conversion and default construction that fails calls exactly one handler once: the arithmetic slot with an error code naming the kind and direction of the error, the implementation-defined slot for shift errors, the uninitialised slot for default construction. An operation whose operands and result are representable calls none.',
     ['inputs', 'configurations'], 'every operand value, for a broad family of types, operators and conversions',
     'Tests use throwing handlers only, so double or wrong-slot calls are invisible to them.',
     [D + 'safe_base_operations.hpp', D + 'exception_policies.hpp', D + 'checked_integer.hpp'],
     [('dispatch / dispatch_switch', D + 'safe_base_operations.hpp'), ('make_safe_numerics_action', D + 'exception_policies.hpp')], technique=AI, note=AIN)
prop('E03', 'The error tables are consistent',
     'For every safe_numerics_error: literal_string and message() name it, make_error_code preserves it, two codes are equal exactly if the enumerators are, make_safe_numerics_action and safe_numerics_actions_category.equivalent agree on its action, dispatch calls the policy slot of that action once, and the error category is one object shared by all translation units of a program.',
     ['inputs', 'configurations'], 'all 11 error codes against all 5 actions, in any combination of translation units',
     'No test looks at the tables, and tests are single translation units.', [D + 'exception.hpp', D + 'exception_policies.hpp', D + 'safe_base_operations.hpp'],
     [('safe_numerics_error_category, safe_numerics_actions_category', D + 'exception.hpp'), ('make_safe_numerics_action', D + 'exception_policies.hpp')],
     technique='abstract interpretation of the LLVM IR of the table functions on every error code (through virtual calls, not inlined) and a linkage rule on the category object', note='Exact: finite domain.')
prop('W01', 'With handlers that return, an operation yields what the built-in operation yields',
     'When the handlers of the exception policy return (ignore_exception), + - * / %, shifts by less than the width, and conversions yield exactly what the same operation on the underlying built-in types yields wherever that is defined - wrapped unsigned results, truncated conversions, arithmetic right shift of negatives - never another value.',
     ['inputs', 'configurations'], 'every operand value for pairs of standard types, ranges and built-in operands',
     'Tests never use returning handlers on failing operations.', [D + 'safe_base_operations.hpp', D + 'checked_result.hpp'],
     [('fallback branch of each *_result::return_value', D + 'safe_base_operations.hpp'), ('validate_detail', D + 'safe_base_operations.hpp')], technique=AI, note=AIN)
prop('R02', 'Native promotion yields the type of the built-in operation, and policies are preserved',
     'Under native promotion the result of a binary operator (+ - * / % << >> & | ^) or unary - ~ on safe integers, or on a safe and a built-in integer, is a safe type whose base type is the type of the same built-in operation and whose promotion and exception policies are those of the operands; unary + and compound/update operators keep the type of the variable; comparisons yield bool; an operand without policies (literal) takes those of the other operand.',
     ['configurations'], 'every pair of eleven built-in integer types, every operator, in three operand arrangements, and policy combinations',
     'Tests check values, not result types; one wrong promotion type shows only for values which the right type holds and the wrong one does not.',
     [D + 'native.hpp', D + 'safe_base.hpp', D + 'safe_base_operations.hpp'],
     [('native::*_result', D + 'native.hpp'), ('common_promotion_policy / common_exception_policy', D + 'safe_base_operations.hpp')], technique=TL, note=TLN)
prop('T01', 'With trap policies a program compiles exactly if no operation in it can fail',
     'With strict_trap_policy, an arithmetic operation, shift, conversion, update or default construction for which some values of the operand types would be an error does not compile, and one for which no operand values can be an error compiles - arithmetic under native and automatic promotion, decided from the ranges of the operand types. Consequently such a program contains no run-time check that can fail, and automatic promotion yields results up to 64 bits without any error.',
     ['configurations'], 'about 9500 (quick) to 60000 (thorough) programs over 37 fixed and further random ranges, 8 standard types and literals',
     'Tests contain a handful of trap programs. A wrong verdict in one direction lets an unchecked overflow through, in the other makes the documented trap usage impossible.',
     [D + 'safe_base_operations.hpp', D + 'exception_policies.hpp', D + 'automatic.hpp', D + 'interval.hpp'],
     [('exception_possible() of each *_result', D + 'safe_base_operations.hpp'), ('validate_detail::return_value', D + 'safe_base_operations.hpp'), ('trap_exception', D + 'exception_policies.hpp')],
     technique=TL, note=TLN)
prop('R03', 'Result types under cpp<> are those of the emulated machine',
     'Under a cpp<char,short,int,long,long long> promotion policy that describes a machine, the result of + - * / % << >> & | ^ on operands of types of that machine has the width and signedness which integral promotion and the usual arithmetic conversions give on that machine (shifts: the promoted left operand), whichever operand is safe and in either order of the operands; a narrow unsigned type promotes to unsigned int as the library documents in its tests.',
     ['configurations'], 'seven machine descriptions, all pairs of eight types, ten operators, three operand arrangements',
     'test_cpp checks one machine and one pair of types at a time; a wrong rank decision shows on a few pairs only.',
     [D + 'cpp.hpp', D + 'safe_base_operations.hpp'], [('cpp::usual_arithmetic_conversions / integral_promotion / *_result', D + 'cpp.hpp')], technique=TL, note=TLN)
prop('I01', 'Stream input stores exactly the value read or reports an error and leaves the variable alone',
     'operator>> into a safe type or range stores exactly the number that the stream yields when it lies in the declared range, invokes the error handler otherwise, invokes it when no number could be read, never stores a value before it was validated, and never uses an indeterminate value; operator<< writes the number (character sized types: as the library documents).',
     ['inputs', 'histories'], 'every value the stream can yield, a stream without a number and a stream that failed before, for eight types and several ranges',
     'Tests read a few literals; failure of the stream in the middle and out of range values are hardly tested.',
     [D + 'safe_base.hpp', D + 'safe_base_operations.hpp'], [('safe_base::input / output', D + 'safe_base_operations.hpp')], technique=AI, note=AIN)
prop('D01', 'Operations have no effects besides their operands, their result and the policy handler',
     'No operation of the library (arithmetic, comparison, conversion, update, checked:: functions, safe_compare functions, checked_result operators) writes to static storage, calls anything outside the library other than the handlers of the policy, or depends on or creates mutable static data, so distinct objects can be used from distinct threads; functions declared noexcept (checked::, safe_compare) do not reach anything that throws.',
     ['inputs', 'schedules'], 'the transitive closure of calls and stores of about 2200 (quick) entry points',
     'No test is threaded, and a race or hidden state does not show in a single threaded assertion.',
     [D + 'safe_base_operations.hpp', D + 'checked_integer.hpp', D + 'checked_result_operations.hpp', D + 'exception.hpp'],
     [('all operators', D + 'safe_base_operations.hpp'), ('error categories', D + 'exception.hpp')],
     technique='effect analysis: call graph closure with store and external call rules over the LLVM IR of generated instantiations', note='Exact for the enumerated instantiations; indirect calls are violations except in the error category tables.')
prop('N01', 'Interval arithmetic and predicates are correct',
     'For intervals with ordered ends: includes, excludes, intersect, ==, != and the tribool comparisons are true (false) exactly when they hold (fail) for the sets of numbers, < > <= >= are indeterminate when the intervals overlap in more than one end; | and & give the least and greatest ends; the sum and difference of intervals of checked results have the exact ends or the error that names the direction.',
     ['inputs'], 'every four ends, for eight integer types and checked results of them', 'test_interval compares a few intervals.',
     [D + 'interval.hpp'], [('interval operators and predicates', D + 'interval.hpp')], technique=AI, note=AIN)
prop('X01', 'Arithmetic on checked results is exact for values and sound for errors',
     'For checked_result operands: + - * / % unary - + ~ << >> on values give the exact result or the error that names the direction (a negative shift count shifts the other way; a shift by the width or more gives 0 or an overflow; a right shift of a negative number truncates; the least value may be refused by <<); positive_overflow_error and negative_overflow_error act as numbers above and below all values (sign rules, value/overflow = 0, value%overflow = value, 0*overflow = 0, opposite infinities added give an error), any other error code as an unknown number, so that the result of + - * / % | ^ & is an error and comparisons are indeterminate; comparisons are true or false exactly when certain; no combination trips an assertion. For a user defined number type checked_operation applies the operator of the same name.',
     ['inputs'], 'every value for six (quick) or eight types, each of ten error codes on either side and every pair of codes', 'Tests use a handful of values and five codes.',
     [D + 'checked_result_operations.hpp', D + 'checked_result.hpp', D + 'checked_default.hpp'],
     [('the tables of the operators', D + 'checked_result_operations.hpp')], technique=AI, note=AIN)

prop('Q01', 'Safe types describe themselves truthfully',
     'For every safe type, range and literal, numeric_limits min(), lowest() and max() are exactly the ends of the declared range and of the type itself, is_signed, is_integer, digits, is_bounded are those of the base type, is_safe, base_type, get_promotion_policy and get_exception_policy answer the declared properties (native and strict_exception_policy when none are given), a range or literal is stored in the least standard type which holds it, and a safe type has the size, alignment and trivial, non-throwing copy of its base type. Built-in types are not safe and have no policies.',
     ['configurations'], 'eleven base types with three promotion and two exception policies, about 700 (quick) ranges and literals of every magnitude',
     'Generic code relies on these answers for any type; tests look at a few types. The library itself skips checks on their strength.',
     [D + 'safe_base.hpp', D + 'safe_integer_range.hpp', D + 'safe_integer_literal.hpp', D + 'safe_common.hpp'],
     [('std::numeric_limits<safe_base<...>>', D + 'safe_base.hpp'), ('signed_stored_type / unsigned_stored_type', D + 'utility.hpp')], technique=TL, note=TLN)
prop('G01', 'Programs that can have no right meaning are rejected by the compiler',
     'An operation or update which mixes two promotion policies or two exception policies, an operation on literals without policies only, a conversion between ranges or of a literal that no value survives, initialisation, assignment or arithmetic with a string, pointer, null pointer or (except assignment) a scoped enumeration, and a promotion policy that is none do not compile; the same program with matching policies, overlapping ranges or an integer does.',
     ['configurations'], 'about 1000 pairs of a rejected program and its accepted twin (quick)', 'A test which does not compile can not be part of the unit tests, so a rejection that got lost goes unnoticed.',
     [D + 'safe_base_operations.hpp', D + 'safe_base.hpp'],
     [('common_promotion_policy, common_exception_policy, legal_overload', D + 'safe_base_operations.hpp'), ('validate_detail', D + 'safe_base_operations.hpp')], technique=TL, note=TLN)
prop('E02', 'The predefined exception policies and handlers do what they are documented to do',
     'throw_exception throws std::system_error carrying exactly the given error code in the category of the library and the given message, ignore_exception returns without any effect, trap_exception does not compile when reached. loose_exception_policy throws arithmetic errors and ignores the rest, strict_exception_policy throws arithmetic errors, implementation-defined and undefined behaviour and ignores uninitialised values, loose_trap_policy traps arithmetic errors and ignores the rest, strict_trap_policy traps everything; the default policy is strict_exception_policy; exception_policy hands each kind of error to the handler in its position.',
     ['inputs', 'configurations'], 'all error codes for every slot of seventeen policies, and thirteen failing operations over ranges of operands under the throwing policies',
     'Tests mostly check that something was thrown, not what, and use two of the policies.',
     [D + 'exception_policies.hpp', D + 'exception.hpp'], [('exception_policy, throw_exception, predefined policies', D + 'exception_policies.hpp')],
     technique='abstract interpretation of the LLVM IR of each handler and of failing operations, with the construction of std::system_error and __cxa_throw as the observed effects; type-level witnesses for trapping slots and defaults', note=AIN)
prop('U01', 'Unary operators are exact or report an error',
     'For safe types and ranges, +t is t; -t is exactly the negative of t when the result type holds it and otherwise invokes the error handler (native: the promoted type; automatic: up to 64 bits; cpp<>: exact within the promoted type of the emulated machine); ~t under native promotion is the complement of the promoted value. For safe literals +, - and ~ give a literal of exactly that value with the same policies.',
     ['inputs', 'configurations'], 'every value of eleven base types and about 60 ranges under four promotion policies', 'Tests negate a handful of values.',
     [D + 'safe_base.hpp', D + 'safe_integer_literal.hpp'], [('safe_base::operator-, +, ~', D + 'safe_base.hpp'), ('safe_literal_impl::operator-, ~', D + 'safe_integer_literal.hpp')], technique=AI + '; type-level witnesses for literals', note=AIN)
prop('Y01', 'Operations on constants are constant expressions, and a failing one is no constant expression',
     'Construction, conversion, arithmetic, comparison, shifts, compound assignment, increment and decrement of safe types and ranges, the checked:: functions and the safe_compare functions can be used in constant expressions and have there the value they have at run time; with the default policy an operation which reports an error is not a constant expression, so that the error is found by the compiler.',
     ['inputs', 'configurations'], 'about 14000 constant expressions at the corners of all pairs of eight types and 1200 failing ones, by two compilers',
     'Tests evaluate a few constexpr cases; a construct that is no longer constexpr for one pair of types, or only on one path, stays unnoticed.',
     [D + 'safe_base_operations.hpp', D + 'safe_base.hpp', D + 'checked_integer.hpp', D + 'safe_compare.hpp'],
     [('constexpr operators', D + 'safe_base_operations.hpp')], technique=TL, note='The constant evaluators of clang 18 and g++ 13 decide each witness; values are sampled at the corners of the types, not exhausted.')
prop('P01', 'The guarantees hold on every data model and under every language standard',
     'Where int, long and pointers have other widths (ILP32, LLP64, 16-bit int), where plain char is unsigned, and when compiled as C++17, C++20 or C++23, the library compiles and arithmetic, shifts, bitwise operators, comparisons, conversions, updates, checked:: and checked_result operations still give the exact value or report the error, declared ranges still bound the results and the types of native expressions are still those of the built-in operators of that platform: nothing depends on int having 32 bits, on long having 64 bits or on the sign of char.',
     ['inputs', 'configurations'], 'every operand value of a seeded sample of the instantiations of twenty-six other checks, for seven data models and three further language standards',
     'The tests run on one machine with one data model; the conversion rules, and with them every branch that the library chooses by type, differ on the others.',
     [D + 'safe_base_operations.hpp', D + 'safe_base.hpp', D + 'checked_integer.hpp', D + 'automatic.hpp', D + 'utility.hpp', D + 'cpp.hpp'],
     [('native, automatic, cpp result types', D + 'native.hpp, automatic.hpp, cpp.hpp'), ('significant_bits, stored types', D + 'utility.hpp')],
     technique=AI + ', repeated on the IR of other targets', note=AIN)
prop('S01', 'Every public header can be used alone, in any order and in any number of translation units',
     'Each public header of the library compiles when it is the only one included, when it is included twice, and together with the others in any order, under every language standard from C++14 on, with every conforming compiler, and also when exceptions, run-time type information or assertions are switched off; everything it defines may be defined again in another translation unit (no function or variable with a strong definition), so a program which includes the headers in several units links.',
     ['configurations'], 'all headers, a quarter (thorough: all) of the ordered pairs, shuffled inclusion of all, two compilers, three or four language standards',
     'Every test is one translation unit that includes the same headers in the same order.',
     [D + 'native.hpp', D + 'checked_default.hpp', D + 'range_value.hpp', D + 'exception.hpp'], [('all public headers', D)],
     technique='compile and linkage witnesses: each inclusion is type-checked by two front ends, linkage of each definition is read from the LLVM IR', note='checked_float.hpp is excluded: it is unfinished and not documented.')
prop('X02', 'A checked result gives back exactly what it was made from',
     'A checked_result made from a value holds that value and no error; made from an error code and message it holds that error and that message (an empty one by default); copies, moves, make_checked_result and construction from a checked_result of another type keep the error, the message, and every value that both types hold; exception(), the conversions to the value, to safe_numerics_error and to char const * tell so; << writes exactly the number, or for an error the messages and no number. A checked_result cannot be made from nothing and not be assigned.',
     ['inputs'], 'every value of ten types, all error codes, all (thorough) pairs of types', 'Tests look at a few results of int8_t and int.',
     [D + 'checked_result.hpp', D + 'checked_result_operations.hpp'], [('checked_result', D + 'checked_result.hpp'), ('operator<<(ostream, checked_result)', D + 'checked_result_operations.hpp')], technique=AI + '; type-level witnesses', note=AIN)
