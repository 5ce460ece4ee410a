#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand, both files are committed)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = 'include/boost/safe_numerics/'
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=(), state=(), technique='', note='', na=None, level='proof'):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  observe=observe, state=state, technique=technique, note=note, na=na, level=level))


AI = 'abstract interpretation of the LLVM IR of generated instantiations (polyhedral/polynomial value domain), exit-by-exit comparison with the arithmetic specification'
AIN = ('Sound for all operand values of each enumerated instantiation under the trusted base (clang 18 lowering, the abstract domain); '
       'only disagreements confirmed in a degenerate cell are reported, undecided obligations are listed in the evidence and are quiet.')
TL = 'type-level witnesses: generated static_assert / must-compile / must-not-compile translation units decided by the compiler front ends'
TLN = 'Exact for every enumerated instantiation; the enumeration of types, ranges and policies is finite and listed in the evidence.'

prop('A01', 'Native safe arithmetic is exact or reports an error',
     'For safe integers with the native promotion policy, t+u, t-u, t*u, t/u and t%u (safe with safe, or safe with built-in, either side) either yield exactly the mathematical result in the type C++ gives the expression, or invoke the error handler of the exception policy; they never yield a different value and never execute undefined behaviour. '
     'An error is reported only if the mathematical result is not representable in that type, the divisor is zero, or an operand itself is not representable in that type.',
     ['inputs', 'configurations'], 'every value of both operands, for every pair of standard integer types, every operator and each of safe/safe, safe/built-in, built-in/safe',
     'The tests sample about a dozen boundary values per type pair; the claim is over up to 2^128 operand pairs for each of several hundred instantiations.',
     [D + 'safe_base_operations.hpp', D + 'checked_integer.hpp', D + 'native.hpp'],
     [('checked::add/subtract/multiply/divide/modulus guards', D + 'checked_integer.hpp'), ('addition_result … modulus_result', D + 'safe_base_operations.hpp')],
     technique=AI, note=AIN)
prop('A02', 'Automatic promotion arithmetic is exact or reports an error',
     'For safe integers with the automatic promotion policy, every binary + - * / % either yields exactly the mathematical result or invokes the error handler, never a different value and never undefined behaviour. '
     'The handler is invoked only when the divisor is zero or the mathematical result (or an operand) cannot be held in the result type the policy selects.',
     ['inputs', 'configurations'], 'every value of both operands, for every pair of standard integer types and a set of constrained ranges, every operator',
     'Tests sample a dozen values for each pair of types; result types are computed by compile time interval arithmetic which differs for every range.',
     [D + 'automatic.hpp', D + 'interval.hpp', D + 'safe_base_operations.hpp'],
     [('automatic::*_result type selection', D + 'automatic.hpp'), ('interval arithmetic on ranges', D + 'interval.hpp')],
     technique=AI, note=AIN)
prop('A03', 'cpp<> target promotion arithmetic is exact or reports an error',
     'For safe integers with a cpp<...> promotion policy, + - * / % either yield exactly the mathematical result in the type the target architecture\'s integer promotions and conversions would give, or invoke the error handler; they never yield a different value and never execute undefined behaviour.',
     ['inputs', 'configurations'], 'every value of both operands for 8/16/32/64 bit operand types under 8, 16 and 32 bit target descriptions',
     'test_cpp only checks that result types match the host; the embedded targets which the policy exists for are never exercised over values.',
     [D + 'cpp.hpp', D + 'safe_base_operations.hpp', D + 'checked_integer.hpp'],
     [('cpp<…>::result_type', D + 'cpp.hpp')], technique=AI, note=AIN)
prop('A04', 'Arithmetic on range-limited safe types is exact or reports an error',
     'For safe_signed_range, safe_unsigned_range and safe literals under native or automatic promotion, + - * / % of values within the declared ranges either yield exactly the mathematical result or invoke the error handler, and never execute undefined behaviour - in particular when the library decides from the ranges that no run-time check is needed.',
     ['inputs', 'configurations'], 'every pair of operand values within the ranges, for a broad family of ranges (sign-crossing, one-sided, singleton, extreme) and operators',
     'The removal of checks depends on compile time interval arithmetic; the tests only instantiate a handful of ranges and values.',
     [D + 'interval.hpp', D + 'safe_base_operations.hpp', D + 'safe_integer_range.hpp', D + 'safe_integer_literal.hpp'],
     [('exception_possible() of each *_result', D + 'safe_base_operations.hpp'), ('interval operators', D + 'interval.hpp')],
     technique=AI, note=AIN)
prop('C01', 'checked:: arithmetic returns the exact value or the right error',
     'boost::safe_numerics::checked::add, subtract, multiply, divide, modulus and minus on built-in integers return the exact mathematical result when it is representable in the operand type, and otherwise an error (positive_overflow_error above the range, negative_overflow_error below, domain_error for a zero divisor), without undefined behaviour and without ever throwing.',
     ['inputs'], 'every pair of values of every standard integer type', 'test_checked_* compare about 40 value pairs on signed char only.',
     [D + 'checked_integer.hpp', D + 'checked_default.hpp', D + 'checked_result.hpp'],
     [('checked_operation<R, F> for signed and unsigned integers', D + 'checked_integer.hpp')], technique=AI, note=AIN)
prop('C02', 'checked:: shifts and bitwise operators are right or report an error',
     'checked::left_shift, right_shift, bitwise_and, bitwise_or, bitwise_xor and bitwise_not on built-in integers return the C++ value of the operation when it is defined and representable and otherwise an error; a negative or too large shift count and a left shift that loses significant bits are always reported, and no undefined behaviour is executed.',
     ['inputs'], 'every pair of values of every standard integer type', 'test_checked_*_shift sample about 40 value pairs on one type.',
     [D + 'checked_integer.hpp', D + 'utility.hpp'], [('check_shift / left_shift / right_shift', D + 'checked_integer.hpp'), ('significant_bits / ilog2', D + 'utility.hpp')],
     technique=AI, note=AIN)
prop('B01', 'Bitwise operators on safe types give the built-in value',
     'For safe integers, ranges and literals under native and automatic promotion, t&u, t|u and t^u (and ~t under native promotion) have exactly the bits that the same expression has on the underlying built-in types after the usual arithmetic conversions, for every operand value including negative ones, and never report an error or execute undefined behaviour.',
     ['inputs', 'configurations'], 'every value of both operands for every pair of standard integer types, safe/safe, safe/built-in and built-in/safe, and for fixed and seeded random ranges and literals',
     'Tests sample a dozen values per pair of types.', [D + 'safe_base_operations.hpp', D + 'safe_base.hpp'],
     [('bitwise_or_result, bitwise_and_result, bitwise_xor_result', D + 'safe_base_operations.hpp')], technique=AI, note=AIN)
prop('H01', 'Safe shifts give the exact value or report an error',
     'For native safe integers and ranges, t<<u and t>>u yield exactly t*2^u and floor(t/2^u) in the result type, or invoke the error handler; a negative shift count, a shift count of at least the width of the result type and a left shift whose result is not representable are always reported. Under automatic promotion a non-negative t shifted right by less than its width, or shifted left with a result that fits in 63 bits, gives the exact value (no spurious error); anything else is either exact or reported, never a wrong value. No undefined behaviour is executed.',
     ['inputs', 'configurations'], 'every value and shift count for every pair of standard integer types, and ranges (fixed families of boundary ranges and seeded random ones), under native and automatic promotion', 'Tests sample a dozen values per pair of types.',
     [D + 'safe_base_operations.hpp', D + 'checked_integer.hpp'], [('left_shift_result, right_shift_result', D + 'safe_base_operations.hpp')],
     technique=AI, note=AIN)
exec(open(os.path.join(V, 'tools', 'more_props.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'more_props.py')) else None

checks, na = [], []
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']],
                        'state': [{'name': a, 'meaning': b, 'where': c} for a, b, c in p['state']],
                        'observe_at': list(p['observe']), 'hook_needed': None}}) + '\n')
        have = os.path.exists(os.path.join(V, 'checks', p['id'].lower() + '.py'))
        if have and not p['na']:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'], 'thorough_cmd': 'python3 check.py ' + p['id'] + ' thorough',
                           'evidence_file': 'evidence/%s.json' % p['id'], 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.path.insert(0, \'lib\'); import vp"', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo. Repairs of genuine defects are the fix: commits listed in known_findings.jsonl.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
