#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from the table below (claimed = props/cNN.py exists)"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = 'include/boost/safe_numerics/'
VAL = 'every value of every operand, for each type and range combination encoded'
TESTS = ('the tests call it for a table of a few boundary values per type; 2^16 to 2^128 operand pairs per type pair remain, and '
         'the failures live at single operand pairs')

P = {}


def prop(pid, title, statement, text, why, files, mech, over=('inputs', 'configurations'), na=None, note=None):
    P[pid] = dict(title=title, statement=statement, text=text, why=why, files=files, mech=mech, over=over, na=na, note=note)


prop('C01', 'Checked arithmetic on primitive types is exact or flagged',
     'checked::add, subtract, multiply, divide, modulus and minus on integers of one type deliver the exact mathematical result when it '
     'exists and fits that type, and otherwise deliver an error instead of a value, never an error for a result that fits. '
     'Overflow errors name the right direction (positive above the maximum, negative below the minimum); division or modulus by zero and '
     'an unsigned result below zero are errors too.',
     'all operand pairs, 8/16/32/64-bit signed and unsigned', TESTS, [I + 'checked_integer.hpp', I + 'checked_default.hpp'],
     [('overflow pre-checks per operation', I + 'checked_integer.hpp add/subtract/multiply/divide/modulus')])
prop('C02', 'Checked shifts and bitwise operations are exact or flagged',
     'checked::left_shift delivers t*2^u exactly, or an error only if t or u is negative or the result does not fit; checked::right_shift '
     'delivers floor(t/2^u), or an error only if t or u is negative or u is at least the number of value bits; neither executes an undefined shift. '
     'checked::bitwise_or, bitwise_and, bitwise_xor and bitwise_not never fail and deliver the bitwise combination. '
     'Error codes name the cause: negative operand, or shift too large.',
     'all operand pairs, 8/16/32/64-bit signed and unsigned', TESTS, [I + 'checked_integer.hpp', I + 'utility.hpp'],
     [('shift checks', I + 'checked_integer.hpp left_shift/right_shift'), ('bit length', I + 'utility.hpp significant_bits')])
prop('C03', 'Checked conversions preserve the value or are flagged',
     'checked::cast from one integer type to another (or into a sub-range of one) preserves the value when the target can represent it and '
     'otherwise delivers an error, never the other way round. '
     'The error is positive overflow above the target maximum, and negative overflow or domain error below its minimum.',
     'all values of all pairs of integer types and selected sub-ranges', TESTS, [I + 'checked_integer.hpp', I + 'safe_compare.hpp'],
     [('range comparison before static_cast', I + 'checked_integer.hpp heterogeneous_checked_operation::cast')])
prop('C04', 'Comparing primitive integers of different types is mathematically exact',
     'safe_compare::less_than, greater_than, less_than_equal, greater_than_equal, equal and not_equal give the truth of the relation between '
     'the mathematical values of two integers of any two types, whatever their signs and widths. '
     'checked::less_than, greater_than, less_than_equal, greater_than_equal and equal deliver it, without an error, for two integers of one type.',
     'all values of all pairs of integer types', TESTS, [I + 'safe_compare.hpp', I + 'checked_default.hpp', I + 'checked_integer.hpp'],
     [('sign-aware comparison', I + 'safe_compare.hpp'), ('checked comparison functions', I + 'checked_default.hpp')])
prop('C05', 'safe arithmetic (native promotion) is exact or raises an arithmetic error',
     'For +, -, *, / and % on safe<T> and safe<T> or builtin operands with native promotion, the result has the base type C++ prescribes for the builtin '
     'operands, and its value is the exact mathematical result. '
     'An arithmetic error with the right direction is raised instead exactly when an operand or the exact result does not fit that type or the '
     'divisor is zero; no operation executes undefined behaviour.',
     'all values of all pairs of the eight integer types', TESTS, [I + 'safe_base_operations.hpp', I + 'native.hpp'],
     [('casting_helper + checked_operation', I + 'safe_base_operations.hpp'), ('exception_possible short cut', I + 'safe_base_operations.hpp')])
prop('C06', 'Automatic promotion yields exact results without error while 64 bits suffice',
     'With the automatic promotion policy every delivered result of +, -, *, / and % is the exact mathematical result and lies in the declared range of the result type. '
     'While some 64-bit type of the documented signedness holds all operands and results of the operand ranges, no error other than a zero divisor is raised; '
     'beyond that an operation that does not fit raises an arithmetic error.',
     'all values of all pairs of the eight safe<T, automatic> types and selected declared ranges', TESTS,
     [I + 'automatic.hpp', I + 'safe_base_operations.hpp', I + 'interval.hpp'],
     [('result type from interval arithmetic', I + 'automatic.hpp'), ('interval of results', I + 'interval.hpp')])
prop('C07', 'The cpp promotion policy reproduces the emulated machine\'s arithmetic',
     'With cpp<char,short,int,long,long long bits> the result base type of a binary operation is the one C++ prescribes on a machine with those widths, '
     'and a delivered value is the exact mathematical result. '
     'An arithmetic error is raised instead exactly when an operand or the exact result does not fit that type or the divisor is zero.',
     'all values of operand pairs under several emulated machines', 'test_cpp checks a handful of values on one machine',
     [I + 'cpp.hpp', I + 'safe_base_operations.hpp'], [('integral_promotion, usual_arithmetic_conversions', I + 'cpp.hpp')])
prop('C08', 'Comparisons on safe values are mathematically correct',
     'The six comparison operators on safe (or safe and builtin) operands give the truth of the relation between the mathematical values. '
     'They raise an arithmetic error instead only when an operand is not representable in the type the promotion policy compares in.',
     'all values of all type pairs, native and automatic promotion, selected declared ranges', TESTS,
     [I + 'safe_base_operations.hpp', I + 'safe_compare.hpp', I + 'interval.hpp'],
     [('less_than_result, equal_result', I + 'safe_base_operations.hpp'), ('static interval short cut', I + 'interval.hpp operator<')])
prop('C09', 'Shifts and bitwise operations on safe values are exact, in range, or flagged',
     'On safe operands << delivers the exact product with a power of two and >> the exact quotient, or raises an error only when an operand is negative or does not fit the result type, '
     'or the shift is too large; |, & and ^ deliver the bits of the builtin operation and never fail. '
     'Every delivered result lies in the range its type declares; shift failures reach the implementation-defined-behaviour handler.',
     'all values of all type pairs, native and automatic promotion, selected declared ranges', TESTS,
     [I + 'safe_base_operations.hpp', I + 'checked_integer.hpp', I + 'utility.hpp'],
     [('left_shift_result, right_shift_result, bitwise_*_result', I + 'safe_base_operations.hpp')])
prop('C10', 'A safe variable always holds a value of its declared range',
     'Constructing a safe or range type from any builtin or safe value, or assigning one, stores exactly that value if it lies in the declared range and raises an arithmetic error otherwise. '
     'An assignment that raises leaves the target unchanged. '
     'Copying and moving preserve the value.',
     'all source values, target types and declared ranges encoded', TESTS, [I + 'safe_base.hpp', I + 'safe_base_operations.hpp'],
     [('validated_cast', I + 'safe_base_operations.hpp validate_detail'), ('assignment', I + 'safe_base.hpp operator=')])
prop('C11', 'Declared ranges of results contain every delivered value',
     'When operands are declared with ranges, the range declared by the type of the result of +, -, *, / and % contains every value the operation delivers, '
     'and errors are raised only when the exact result does not fit the result type. '
     'The delivered value is the exact mathematical result.',
     'all values inside selected declared ranges, all pairs of ranges', 'tests print or check a few literal ranges',
     [I + 'safe_base_operations.hpp', I + 'interval.hpp', I + 'checked_result_operations.hpp'],
     [('r_type_interval, return_interval', I + 'safe_base_operations.hpp'), ('interval operators', I + 'interval.hpp')])
prop('C12', 'Converting a safe value to a builtin type preserves it or raises',
     'Converting (implicitly, by static_cast, or by assignment) a safe value to a builtin integer type or bool yields the same mathematical value when the target can '
     'represent it and raises an arithmetic error otherwise. base_value yields the stored value.',
     'all values of every source and target type, selected declared ranges', TESTS, [I + 'safe_base_operations.hpp', I + 'safe_base.hpp'],
     [('operator R()', I + 'safe_base_operations.hpp'), ('base_value', I + 'safe_base.hpp')])
prop('C13', 'Compound assignment, ++ and -- are exact or raise and leave the target alone',
     't op= u for +, -, *, /, %, <<, >>, |, &, ^ stores exactly the value of t op u in t if that is delivered without error and lies in t\'s range; '
     'otherwise it raises and t keeps its old value. The value of t op= u, and of prefix ++ and --, is t itself, not a copy. '
     '++ and -- do the same with 1, and their prefix and postfix forms return the new and the old value respectively.',
     'all values, selected type pairs and ranges', TESTS, [I + 'safe_base_operations.hpp', I + 'safe_base.hpp'],
     [('operator+= etc.', I + 'safe_base_operations.hpp'), ('operator++', I + 'safe_base.hpp')], over=('inputs', 'histories', 'configurations'))
prop('C14', 'Interval arithmetic encloses every result of its operands\' members',
     'For intervals t and u with value bounds, every exact result of +, -, *, / (divisor interval without zero), %, << or >> (rounding down) on a member of t and a member of u lies in the computed interval, '
     'where an overflow error as a bound stands for a value beyond the type in its direction and any other error bound claims nothing. '
     'Union encloses both intervals and intersection contains exactly the common members.',
     'all bounds and all members, every integer type', 'test_interval checks one pair of literal intervals per operation',
     [I + 'interval.hpp', I + 'checked_result_operations.hpp', I + 'utility.hpp'], [('interval operators', I + 'interval.hpp'), ('minmax', I + 'utility.hpp')])
prop('C15', 'Interval predicates decide membership and order correctly',
     'includes is true exactly for a member point or subset interval and excludes exactly when there is no common member, intersect exactly when there is one; == means equal bounds. '
     '<, >, <=, >= of intervals answer true only when the relation holds for every choice of members, false only when it holds for none, and do so whenever all members of one lie strictly on one side of all members of the other. '
     'When bounds are error values they answer as three-valued logic over the ordering of checked results does. An interval made from a pair or from an interval of another type has the same bounds, where that type can hold them.',
     'all interval bounds and members, every integer type', 'test_interval checks a few literal intervals', [I + 'interval.hpp'],
     [('tribool predicates', I + 'interval.hpp')])
prop('C16', 'Arithmetic on checked results never turns an error into a wrong value',
     'On checked_result values, +, -, *, /, %, unary -, << and >> (rounding down, a negative count shifting the other way) deliver the exact result if it fits, an overflow error of its direction if it does not, and some error where no result exists. '
     'Overflow operands act as infinities: sums, products, quotients and shifts carry their sign, cancelling ones give no value, a value divided by one is 0, and a remainder is one that some overflowed operand justifies. '
     'Operands with any other error never produce a value, except that zero shifted by anything is zero. Converting one to a checked result of another type keeps its error and every value that type can hold.',
     'all operand pairs including error operands', 'tests compare an 8x8 table of sample values',
     [I + 'checked_result_operations.hpp', I + 'checked_result.hpp'], [('operator tables', I + 'checked_result_operations.hpp')])
prop('C17', 'Comparisons of checked results never give a wrong definite answer',
     'Comparing two checked_result values compares the values; a below-minimum error is less than every value and every above-maximum error; '
     'two errors of the same direction, or any undetermined error, compare indeterminate. '
     '==, !=, <, <=, >, >= are consistent with each other.',
     'all operand pairs including error operands', 'tests compare an 8x8 table of sample values',
     [I + 'checked_result_operations.hpp'], [('operator< and operator== tables', I + 'checked_result_operations.hpp')])
prop('C18', 'Every error reaches the handler its kind prescribes and throw policies throw it',
     'An error raised by a safe operation is passed to exactly the policy handler of its kind: arithmetic, implementation-defined, or uninitialized value. '
     'With the default, strict and loose throwing policies an arithmetic error surfaces as std::system_error carrying exactly the error code; loose policies ignore implementation-defined behaviour and strict ones throw; '
     'default construction of a safe value invokes the uninitialized handler. Built without exceptions, a throwing policy calls the handler the program provides.',
     'all operand values; strict, loose and recording policies', 'tests catch std::exception without looking at code or handler',
     [I + 'exception_policies.hpp', I + 'safe_base_operations.hpp', I + 'exception.hpp'], [('dispatch', I + 'safe_base_operations.hpp'), ('policies', I + 'exception_policies.hpp')])
prop('C19', 'Ignored errors yield what the builtin operation yields',
     'With a policy that ignores a kind of error, an operation that meets it yields the value the builtin operation on the converted operands yields where that is defined, '
     'and an operation without error yields the same as under any other policy.',
     'all operand values under the ignore policy', 'tests never use an ignoring policy on failing operands',
     [I + 'safe_base_operations.hpp', I + 'exception_policies.hpp'], [('return_value fallbacks', I + 'safe_base_operations.hpp'), ('casting_helper', I + 'safe_base_operations.hpp')])
prop('C20', 'Error codes, conditions, actions and messages agree',
     'Every error code has its own numeric value and non-empty message in the safe numerics category, is an error_code of that category, and is equivalent to exactly the '
     'action (condition) that the dispatcher routes it to.',
     'every error code and condition value', 'tests print messages for one code', [I + 'exception.hpp', I + 'exception_policies.hpp'],
     [('error category', I + 'exception.hpp'), ('make_safe_numerics_action', I + 'exception_policies.hpp')], over=('inputs',))
prop('C21', 'Stream input never stores an unchecked value',
     'Extracting a safe value from a stream stores exactly the number written in the stream when it lies in the declared range, for character base types as well (what insertion writes, extraction reads back). '
     'When extraction fails or the number is outside the range an error is raised and the target still holds a value of its range.',
     'every value the stream may extract, success or failure, every base type', 'test_stream feeds a few literal strings',
     [I + 'safe_base_operations.hpp'], [('safe_base::input', I + 'safe_base_operations.hpp')])
prop('C22', 'Stream output writes the number that is stored',
     'Inserting a safe value into a stream inserts exactly its stored number, as a number also for 8-bit base types.',
     'every stored value, every base type', 'tests print a few values and compare none', [I + 'safe_base_operations.hpp'],
     [('safe_base::output', I + 'safe_base_operations.hpp')])
prop('C23', 'Safe literals carry exactly their value',
     'A safe literal converts to exactly its value, arithmetic, shifts, bitwise operations and comparisons between a literal and a safe operand or literal deliver '
     'the exact result or raise, and storing it in a safe type succeeds exactly if the range contains it.',
     'all operand values with selected literals', 'tests use literals in a few expressions', [I + 'safe_integer_literal.hpp'],
     [('safe_literal_impl', I + 'safe_integer_literal.hpp')])
prop('C24', 'Unary minus, plus and complement are exact or raise',
     'Unary - on a safe value delivers the exact negation or raises an arithmetic error exactly when the result type cannot hold it; unary + delivers the value; '
     '~ delivers the builtin complement. '
     'The result lies in the range its type declares.',
     'all values of every type, native, automatic and cpp promotion, selected ranges', TESTS, [I + 'safe_base.hpp'],
     [('operator-, operator+, operator~', I + 'safe_base.hpp')])
prop('C25', 'numeric_limits and stored types match the declared ranges',
     'numeric_limits of a safe type reports as min, max and lowest exactly the bounds of its declared range, each constructible and stored unchanged, and no value outside them can be constructed. '
     'The stored type of a signed or unsigned range type represents both bounds. numeric_limits of a checked_result and a default interval hold every value of their base type, finite floating point numbers too.',
     'every candidate value and bound', 'tests look at a few literal ranges', [I + 'safe_base.hpp', I + 'safe_integer_range.hpp', I + 'utility.hpp'],
     [('numeric_limits specialisation', I + 'safe_base.hpp'), ('signed_stored_type', I + 'utility.hpp')])
prop('C26', 'Bit-length helpers are exact for every value',
     'significant_bits gives the position of the highest bit that differs from the sign (1 for 0 and -1), ilog2 gives floor(log2) of positive values, and round_out gives the smallest '
     'all-ones value (or, for a negative value, its complement) of the same bit length.',
     'all values of all integer types', 'no test calls them', [I + 'utility.hpp'], [('ilog2, significant_bits, round_out', I + 'utility.hpp')])
prop('C28', 'An expression the trap policy accepts cannot fail at run time',
     'If an expression on ranged safe types compiles with a trapping exception policy, then for all operand values in the declared ranges its result is the exact mathematical value, '
     'lies in the declared range, and executes no undefined behaviour.',
     'all operand values, every accepted combination of selected ranges', 'tests compile a few expressions', [I + 'safe_base_operations.hpp', I + 'interval.hpp', I + 'exception_policies.hpp'],
     [('exception_possible', I + 'safe_base_operations.hpp')], over=('inputs', 'programs', 'configurations'))
prop('C30', 'Programs over safe variables compute exactly or stop at the first inexact step',
     'A sequence of statements on safe variables (nested arithmetic, shift and bitwise expressions, conversions, compound assignments, ++ and --) leaves every variable with exactly the value '
     'the same statements give on mathematical integers, until the first statement one of whose operations or conversions has no exact result fitting its type or range. '
     'That statement raises an error and leaves all variables as the completed statements made them; no statement raises otherwise. Bitwise results are those of the builtin operation.',
     'all initial values, written and generated programs', 'the tests exercise one operation at a time on builtin operands; intermediate result types and values of nested expressions are never checked',
     [I + 'safe_base_operations.hpp', I + 'safe_base.hpp', I + 'automatic.hpp', I + 'cpp.hpp'],
     [('operators on results of operators', I + 'safe_base_operations.hpp'), ('compound assignment', I + 'safe_base_operations.hpp')], over=('inputs', 'histories', 'programs'))
prop('C31', 'Displayed intervals, ranges and checked results show their exact numbers',
     'Inserting an interval into a stream writes "[lower,upper]", a range value "[min,max]value", a result display the same in hexadecimal followed by "(value)" in decimal, and a checked result '
     'without error 0 followed by its value, one with an error 1, the message of its error code, a colon and its text. All numbers are exact and written as numbers, also for 8-bit types.',
     'all bounds and values of the eight integer types', 'tests print a few of them and look at none', [I + 'interval.hpp', I + 'range_value.hpp', I + 'checked_result_operations.hpp'],
     [('stream insertion operators', I + 'interval.hpp operator<<'), ('range and result display', I + 'range_value.hpp')])
prop('C27', 'Conversions between integers and floating point preserve the value or are flagged',
     'checked::cast from float or double to an integer type (or a sub-range), and constructing or assigning a safe integer from one, delivers exactly the same number or an error: overflow of its direction '
     'beyond the range, precision error for a number that is not an integer, domain error for NaN; nothing undefined is executed. checked::cast from an integer to a floating point type and converting a safe '
     'integer to one (C++20) delivers exactly the integer, or a precision error only if it has more significant bits than the type. safe_compare functions order floating point numbers exactly, and so does comparing a safe integer with one (C++20), or it is a precision error.',
     'all floating point values and all values of the integer types', 'the only test is disabled and uses a few values', [I + 'checked_integer.hpp', I + 'safe_compare.hpp', I + 'safe_base_operations.hpp'],
     [('cast from floating point', I + 'checked_integer.hpp heterogeneous_checked_operation::cast'), ('keep precision', I + 'checked_integer.hpp')])
prop('C29', 'Constant evaluation and run-time evaluation agree',
     'An expression on safe types evaluated as a constant expression yields the value it yields at run time.',
     'all constant operands', 'constexpr tests cover a table of values', [I + 'safe_base_operations.hpp'], [('constexpr functions', I + 'safe_base_operations.hpp')],
     na='constant evaluation happens inside the compiler front end; there is no code of the library to encode separately from the run-time path '
        'verified by the other properties')

PENDING = 'no check yet (work in progress)'


def main():
    claimed = [p for p in P if os.path.exists(os.path.join(ROOT, 'props', p.lower() + '.py'))]
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for pid in sorted(P):
            d = P[pid]
            f.write(json.dumps(dict(id=pid, title=d['title'], statement=d['statement'], quantifier=dict(over=list(d['over']), text=d['text']),
                                    why_tests_cant=d['why'], anchors=dict(files=d['files'], mechanism=[dict(name=n, where=w) for n, w in d['mech']]))) + '\n')
    checks = [dict(property=p, quick_cmd='python3-vt run_check.py ' + p, thorough_cmd='env VERIF_TIER=thorough python3-vt run_check.py ' + p,
                   technique='symbolic execution of the LLVM IR of /repo\'s headers + SMT (z3/cvc5)', level='model_checking',
                   level_note=P[p].get('note') or 'every input of each encoded type/range combination is decided by the solver (no sampling, loops and recursion '
                   'fully unrolled); combinations not listed in the evidence bounds are outside. Trusts clang-18 -O0 code generation for x86-64, the executor '
                   '(cross-checked natively on path models every run) and the solvers') for p in sorted(claimed)]
    na = [dict(property=p, reason=P[p]['na'] or PENDING) for p in sorted(P) if p not in claimed]
    json.dump(dict(version=1, setup_cmd='python3-vt tools/setup_check.py', checks=checks, not_applicable=na,
                   notes='see DESIGN.md; known_findings.json lists recorded genuine defects and repaired ones'),
              open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    for p in P:
        n = P[p]['statement'].count('. ') + 1
        if n > 3 or len(P[p]['title']) > 80:
            print('check', p, n, len(P[p]['title']))


main()
