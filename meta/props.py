#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json: one entry per property whose harness exists."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
N='src/bigint/nat.rs'; NM='src/bigint/nat_macro.rs'; NA='src/bigint/nat_amd64.rs'; AR='src/bigint/arith_generic.rs'; B='src/bigint/bigint.rs'; BM='src/bigint/bigint_macro.rs'
R='src/bigint/rat.rs'; F='src/bigint/float.rs'; FF='src/bigint/float_fmt.rs'; FP='src/bigint/float_para.rs'; D='src/bigint/decimal.rs'; U='src/bigint/util.rs'
WHY='The unit tests compare a few dozen fixed values; %s'
P=[]
def p(i,title,st,qt,why,files,mech,over=('inputs',)): P.append(dict(id=i,title=title,statement=st,quantifier=dict(over=list(over),text=qt),why_tests_cant=WHY%why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech])))
p('C01','Natural addition and subtraction are exact','For all naturals a and b, a + b is the exact sum and a - b is the absolute difference |a - b|; the difference-with-sign operations additionally report whether a >= b. Results are canonical (no leading zero words, so equality and ordering of results are value equality and ordering), and operators, assigning operators and the forms taking a 32-bit right operand agree.','all pairs of naturals of any length, including carries and borrows that run through many words','carry chains across word boundaries depend on every bit of both operands.',[N,NA,NM],[('add_inner / add_inner_basic',NA),('sub_inner_with_sign / sub_inner_basic',NA),('operator macros',NM)])
p('C02','Natural multiplication and squaring are exact','For all naturals a and b, a * b (operator, assigning operator, product with a 32-bit value, the explicit Karatsuba product) is the exact product and a.sqr() equals a * a, at every operand size on either side of the algorithm-switching thresholds. Results are canonical and no access leaves the buffers.','all pairs of naturals; sizes around the Karatsuba (40 words) and squaring (20, 260 words) thresholds, balanced and unbalanced','the algorithm chosen and its carries depend on lengths and on interior zero or all-ones words.',[N,'src/bigint/nat_avx2.rs',AR],[('mul_inner','src/bigint/nat_avx2.rs'),('mul_by_karatsuba / karatsuba',N),('sqr_v / basic_sqr / karatsuba_sqr',N),('vector primitives',AR)])
p('C03','Natural division and remainder satisfy the division identity','For all naturals a and b with b > 0, a / b and a % b give the unique q and r with a = q*b + r and 0 <= r < b, in canonical form, for operators, assigning operators and 32-bit divisors, also when both operands are the same object. Dividing by zero panics and never returns a value.','all pairs of naturals with non-zero divisor, and the zero divisor','quotient estimation and restoring steps depend on relative magnitudes bit by bit.',[N,NM],[('div_inner / rem_inner',N),('div_inner_basic / rem_inner_basic',N)])
p('C04','Natural shifts, bitwise operations and bit queries','For every natural, << n multiplies by 2^n, >> n is floor division by 2^n (zero when everything is shifted out), and & | ^ and and-not act on the binary digits with missing digits read as zero; ! complements the digits within the value\'s own bit length. Bit length, single-bit query (nothing at or beyond the bit length) and trailing-zero count describe the binary expansion; all results are canonical and assigning forms agree.','all naturals and all shift distances, in particular multiples of the word size, distances past the end, and operands of different lengths','word-multiple distances, unequal lengths and cancelling top words are sampled only a few times.',[N,NM],[('shl_inner / shr_inner',N),('bitand_inner / bitor_inner / bitxor_inner / not_inner / and_not_assign',N),('bits_len / is_set_bit / trailling_zeros',N)])
p('C05','Natural equality and ordering agree with value','Two naturals compare equal, less or greater exactly as their mathematical values do, whatever their lengths and however they were produced, and the same holds when the right operand is any unsigned primitive type. Comparisons are consistent with each other (==, !=, <, <=, >, >=, partial_cmp), and a NaN is unequal to and unordered with everything.','all pairs of naturals and all (natural, primitive) pairs','most pairs differ in the top word; agreement must hold for pairs that differ only in one low word.',[N,NM],[('PartialEq / PartialOrd',N),('comparisons with primitives',NM)])
p('C06','Natural byte and primitive conversions round-trip','Building a natural from an unsigned primitive, from words, or from little- or big-endian bytes gives exactly that value, ignoring leading zeros; an empty buffer gives NaN. Writing bytes in either order yields the shortest representation (one zero byte for 0, nothing for NaN), is the reverse of the other order, replaces previous content of the destination, and reading it back gives the same value.','all byte strings and word vectors of any length, all primitive values','partial words and zero padding at either end are sampled a few times.',[N,NM],[('from_le_bytes / from_be_bytes / copy_to_le / copy_to_be',N),('From implementations',NM)])
p('C07','Natural text round-trips in bases 2, 8, 10 and 16','Formatting a natural in decimal, binary, octal, lower or upper hexadecimal yields its positional digits without leading zeros (a single 0 for zero, NaN for NaN) plus the base prefix when the alternate form is requested. Parsing optionally signed text with surrounding blanks, a base prefix (0b/0B, 0o, 0x/0X) followed by digits, or plain decimal digits yields that value; any illegal character (and decimal text of several characters beginning with 0) is an error, and parsing never panics; parse(format(x)) = x for decimal and for the prefixed forms.','all naturals, all digit strings, all character positions','digit groups straddle words in octal and decimal; each length and each digit position matters.',[N,NM],[('FromStr',N),('Display / Octal / Binary / LowerHex / UpperHex',N+', '+NM)])
p('C08','Powers and modular powers of naturals are exact','a.pow(b) is a^b (with 0^0 = 1), and for n > 0 both modular exponentiation routines return a^b mod n reduced into [0, n) (0 when n = 1), agreeing with each other; for modulus 0 they return a^b. Operands are not modified.','all bases, exponents and moduli: odd and even moduli, single- and multi-word exponents, base above or below the modulus, base 0 and 1, exponent 0 and 1','which algorithm runs (plain, windowed, Montgomery) depends on operand shapes that few fixed cases reach.',[N],[('pow / pow_mod',N),('exp / exp_montogomery / exp_windowed',N)])
p('C09','Natural square root is the exact floor','For every natural n, n.sqrt() is the largest s with s*s <= n, in canonical form, and the operand is unchanged.','all naturals, in particular perfect squares and their neighbours','the Newton iteration must stop at the floor for every starting value, perfect squares and neighbours included.',[N],[('sqrt',N)])
p('C10','NaN propagates through natural and integer operations','Any arithmetic, bitwise, shift, power or text operation with a NaN natural or integer operand yields NaN (or the documented none/false for queries) and never a number, in both operator and assigning forms, on either side; dividing by zero still panics.','all operations, NaN on the left, on the right or on both sides','the tests exercise only a couple of operations with NaN.',[N,NM,B,BM],[('is_nan guards in operator macros',NM+', '+BM)])
p('C11','Operators have value semantics; deep clones are independent','An operator expression never changes the value seen through its operands or through other clones of them, even when both operands are the same object; a value obtained with deep_clone is never affected by later assigning operations on the original, or the reverse. An assigning operation whose right operand is a clone of the left gives the same result as with an independent copy.','all sequences of clone, deep_clone, operator and assigning operations','clones share storage, so every operation is a potential aliasing hazard, and the tests never use aliased operands.',[N,NM,B,BM,R],[('Rc<Cell<Vec>> sharing, deep_clone before in-place work',N+', '+NM)],('inputs','histories'))
p('C12','Primality testing, random naturals and prime generation','Every prime is reported probably prime whatever the random source delivers, and every composite in the checked range is rejected whatever it delivers. A random natural drawn below n is canonical and lies in [0, n) for every random stream, and a generated prime has exactly the requested bit length, is odd (or has 2 bits) and passes the test; a requested length below 2 is an error.','all candidates and all random streams','the outcome depends on the random stream, of which tests sample one.',[N],[('probably_prime_test, miller_rabin, lucas',N),('random / generate_prime',N)],('inputs','histories'))
p('C13','Integer addition, subtraction, multiplication, negation are exact','For all integers a and b, a + b, a - b, a * b, -a, the absolute value and the square are exact for all sign combinations, in operator and assigning forms. Zero has one representation: a zero result compares equal to 0, prints as 0 and is never negative.','all pairs of integers, all four sign combinations, results that cancel to zero','sign handling multiplies every magnitude case by four and cancellation to zero is rare.',[B,BM],[('add/sub/mul inner',B),('operator macros',BM)])
p('C14','Integer division: truncated and Euclidean','For all integers a and b with b != 0, a / b and a % b are the truncated quotient and remainder (remainder takes the sign of a), and the Euclidean pair satisfies a = q*b + r with 0 <= r < |b|; each pair satisfies the division identity, results are canonical with no negative zero, and division by zero panics.','all pairs of integers with non-zero divisor','the remainder and quotient corrections depend on all sign combinations and exact divisibility.',[B,BM],[('div_inner / rem_inner',B),('div_euclid / rem_euclid',B)])
p('C15','Integer bitwise operations and shifts are two\'s complement','For all integers, & | ^ ! and and-not equal the result on infinite two\'s-complement representations, << n multiplies by 2^n, >> n is floor division by 2^n, and setting or querying a bit follows the same representation.','all pairs of integers, all four sign combinations, all shift distances','negative operands need borrow propagation that only some bit patterns show.',[B,BM],[('bitand/bitor/bitxor/not/shr',B)])
p('C16','gcd, Bezout coefficients, modular inverse, congruences','gcd(a, b) is the non-negative greatest common divisor, the extended form returns x, y with a*x + b*y = gcd(a, b), for coprime a and n != 0 the modular inverse i of a satisfies a*i = 1 (mod n) with i in [0, |n|), and the linear-congruence solver returns exactly the solutions of a*x = b (mod n).','all integer pairs and triples','quotient sequences of the Euclidean algorithm vary with every input.',[B],[('gcd / gcd_extend / mod_inverse / congruence',B)])
p('C17','Integer modular exponent, Jacobi symbol, modular square root','x.exp(y, n) is x^y mod |n| in [0, |n|) for non-negative y (the inverse power for negative y when x and n are coprime), the Jacobi symbol equals its number-theoretic value for odd n (for negative n, with the sign factor -1 exactly when x is negative too) and is None for zero or NaN n, and a modular square root r modulo an odd prime p satisfies r*r = x (mod p) and exists exactly for quadratic residues.','all arguments and all odd primes in range','the reciprocity steps and the three square-root algorithms are selected by residues modulo 4 and 8.',[B],[('exp / jacobi / mod_sqrt',B)])
p('C18','Range products and binomial coefficients are exact','The product of the range [a, b] is exact for all signed bounds (0 if the range contains 0, 1 if it is empty), and binomial(n, k) is the exact coefficient for all n, k >= 0.','all bounds, including ranges with negative bounds and the extreme 64-bit values','few fixed ranges are tested.',[B,N],[('mul_range / binomial',B),('Nat::mul_range',N)])
p('C19','Integer comparison, text and conversions','Integers compare as their values do, and equality with a 32-bit unsigned value is value equality; conversion from every primitive type is exact including the minimum values; formatting prints an optional minus sign, optional base prefix and digits in bases 2, 8, 10, 16, and parsing inverts formatting; malformed text is an error, never a panic.','all integers, all primitive values, all strings up to the bound','minimum values and sign-prefix combinations are rarely sampled.',[B,BM],[('FromStr / Display / PartialOrd / From',B+', '+BM)])
p('C20','Rational arithmetic is exact and in lowest terms','For all rationals, + - * /, negation, inverse and absolute value give the exact value with positive denominator and numerator and denominator coprime (zero as 0/1), in operator and assigning forms; a NaN operand gives NaN, division by zero panics, and the inverse of zero or a zero denominator is an error, never a wrong number.','all pairs of rationals','reduction must be complete for every common factor pattern.',[R],[('Rat arithmetic and normalisation',R)])
p('C21','Rational comparison and text','Rationals compare exactly as their values do, formatting prints numerator/denominator in lowest terms (each with the base prefix in the alternate forms), and parsing an integer, a fraction a/b, or decimal notation with a point and optional exponent yields the exact value in lowest terms (or an error for a non-zero value whose exponent exceeds a million); malformed text is an error, never a panic.','all pairs of rationals, all strings up to the bound','only a handful of literals are parsed by tests.',[R],[('PartialOrd / FromStr / Display',R)])
p('C22','Rational to and from f32/f64 are exact and correctly rounded','Building a rational from a finite float is exact (NaN/infinity are refused), and converting a rational to f32/f64 returns the nearest float with ties to even, together with a correct exactness flag, over normal, subnormal and overflowing ranges.','all floats, all rationals','rounding boundaries and subnormals are a vanishing share of inputs.',[R,U],[('from_f32 / from_f64 / to_f32 / to_f64',R),('ldexp / frexp',U)])
p('C23','Float arithmetic is correctly rounded in the requested mode','For finite floats, + - * / equal the exact result rounded to the precision of the left operand in the rounding mode of the left operand (nearest-even, nearest-away, toward zero, away from zero, -inf, +inf), the reported accuracy (below/exact/above) matches the sign of the error, and changing the precision rounds the same way; changing the mode leaves the value as it is and marks it exact.','all mantissas, exponents, precisions, rounding modes','rounding depends on discarded bits which tests cover with few patterns.',[F,FP],[('uadd/usub/umul/uquo/round',F)])
p('C24','Float zeros, infinities, signs and comparison','Operations on signed zeros and infinities follow IEEE-754 (undefined forms such as Inf - Inf, 0 * Inf, 0/0, Inf/Inf give NaN; the sign of a zero sum of opposite zeros is + except possibly toward -Inf), negation and absolute value act on the sign alone, and comparison agrees with value ordering with -0 equal to +0 and NaN unordered.','all combinations of finite, zero and infinite operands with both signs','special operands combine in dozens of ways of which few are tested.',[F,FP],[('special-case dispatch in add/sub/mul/div/cmp',F)])
p('C25','Float conversions to and from integers, rationals and f32/f64','Conversion from every primitive integer and float, from integers and from rationals yields the value rounded to nearest-even at the resulting precision (exact for integers and primitive floats; at least 64 bits for rationals) with a correct accuracy, and truncation to i64/u64 and conversion to f32/f64 yield the value truncated toward zero or rounded to nearest-even with a correct accuracy, saturating or infinite outside the range, exact in the subnormal range.','all values','boundaries of the target ranges and subnormals are rarely sampled.',[F,FP],[('set_* / to_*',F)])
p('C26','Float text conversion','Parsing an integer (plain or prefixed) or decimal notation ([sign] digits with an optional point and an optional exponent) yields the value correctly rounded to the resulting precision; plain formatting prints the value in fixed notation rounded half-even to as many decimals as the precision has bits, exponent formatting prints d.ddde[-]xx rounded half-even to the requested number of decimals (7 by default); infinities print as +Inf/-Inf and NaN as NaN; malformed text is an error, never a panic.','all strings up to the bound, all floats','few literals are tested.',[FF,D,F],[('FromStr / Decimal / fmt',FF+', '+D)])
p('C27','Pseudo-random generators follow their defining recurrences','Each generator (linear congruential, Mersenne Twister, lagged Fibonacci) produces exactly the sequence its defining recurrence gives for its parameters and seed (the standard Mersenne Twister parameters give the published sequence), resetting with a seed restarts that sequence, and equal seeds give equal sequences.','all seeds, parameters and positions in the sequence','a sequence is an infinite history; tests print values without a reference.',['src/rand/linear_congruential_rand.rs','src/rand/mersenne_twister_rand.rs','src/rand/lagged_fibonacci_rand.rs'],[('gen / reset','src/rand/')],('inputs','histories'))
p('C28','Random source iteration, errors and parameter validation','Iterating a source yields exactly what repeated generation yields, stops at an error which stays readable until cleared, and constructors reject invalid parameters instead of building a broken generator.','all sources, seeds, parameters and error points','error paths are not tested.',['src/rand/iter.rs','src/rand/mod.rs','src/rand/rand_error.rs','src/rand/mersenne_twister_rand.rs'],[('IterMut / constructors','src/rand/')],('inputs','histories','fault_sequences'))
p('C29','Hardware-backed seeds and generators deliver what the hardware gives','Every request to the default seed, the default generator or the cryptographic generator returns in full width the value the hardware random instruction delivered, or an error of the documented kind when the instruction failed, never a stale, truncated or made-up value; iterating yields the same values and stops at the error, and a generator seeded or reset from the default seed behaves exactly as one seeded with the delivered value, or reports the failure.','all delivered values, all success/failure patterns of the instruction, all widths','the instruction practically never fails in a test, and its value is unknown.',['src/rand/default_rand_amd64.rs','src/rand/crypto_rand_amd64.rs','src/rand/default_seed_amd64.rs','src/rand/iter.rs'],[('Seed / Source over rdseed, rdrand','src/rand/')],('inputs','histories','fault_sequences'))
p('C30','Operations stay within their storage, use defined data and release what they allocate','Every operation on valid operands, including every one that returns an error, reads and writes only inside storage that is alive and belongs to its operands, its result or its temporaries; its outcome never depends on uninitialised memory; results and operands remain usable after any of the others are dropped; and once every value is dropped everything the operations allocated has been released.','all operations, all operands, all orders of cloning, assigning and dropping','the kernels work through raw pointers with lengths computed by hand and shared vectors are mutated in place, so a slip corrupts or leaks memory without changing the results a test looks at.',[N,NM,B,BM,R,F,'src/bigint/arith_generic.rs','src/bigint/nat_avx2.rs','src/bigint/nat_amd64.rs'],[('raw-pointer kernels','src/bigint/arith_generic.rs, src/bigint/nat_avx2.rs'),('karatsuba, basic_mul, basic_sqr, add_at, shared Rc<Cell<Vec>> storage',N),('mantissa shifts and splits through raw pointers',F)],('inputs','histories'))
p('C31','Errors name their cause','Every refused request carries the kind of its cause: a text whose first significant characters cannot start a number and a text with an illegal digit later are told apart (and the message names a character of the text), any malformed rational or Float text is a parse error, a well-formed fraction over zero and a zero denominator are zero-denominator errors, inverting zero is a zero-numerator error, a Float exponent beyond the supported range is an overflow or an underflow according to its sign, too short a prime is an invalid parameter and a zero modulus of a generator is a zero divisor. An error reads back its kind and its text, also when it wraps another error.','all refused texts, arguments and error values','callers branch on the kind, while the tests at most look at whether an error occurred.',[N,B,R,FF,'src/bigint/nat_err.rs','src/bigint/rat_err.rs','src/bigint/float_err.rs','src/parse_err.rs','src/rand/linear_congruential_rand.rs'],[('check_base and the digit readers',N),('FromStr, from_frac, inv',R),('FromStr',FF),('error types','src/bigint/*_err.rs')])
NA={}
NOTE={}
exec(open(os.path.join(V,'meta/notes.py')).read())
if __name__=='__main__':
    have=[q for q in P if os.path.exists(os.path.join(V,'harness/%s.jobs'%q['id'].lower()))]
    every=[q for q in P if q in have or q['id'] in NA]
    open(os.path.join(V,'properties.jsonl'),'w').write(''.join(json.dumps(q,ensure_ascii=False)+'\n' for q in every))
    ch=[dict(property=q['id'],quick_cmd='./check %s quick'%q['id'],thorough_cmd='./check %s thorough'%q['id'],evidence_file='evidence/%s.json'%q['id'],
      technique='bounded symbolic execution of the compiled real code (LLVM IR regenerated each run) with SMT queries; counterexamples replayed natively',
      level='model_checking',level_note='Every value within the stated bounds: each path of the compiled code is executed symbolically and every assertion discharged by algebraic normalisation or z3; path models are replayed against the native build. '+NOTE.get(q['id'],'Trusts the translator (validated per run by native replay), rustc/LLVM up to IR, and z3.')) for q in have]
    json.dump(dict(version=1,setup_cmd='cd engine && cargo build --release --offline',checks=ch,not_applicable=[dict(property=k,reason=v) for k,v in NA.items()],
      notes='No hooks in /repo: the checks compile the crate as it is.'),open(os.path.join(V,'MANIFEST.json'),'w'),indent=1)
    print([q['id'] for q in have])
