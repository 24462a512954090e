#!/usr/bin/env python3
"""writes /verif/DESIGN.md from the job files, properties, known findings, planted bugs and the texts below"""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HEAD = open(os.path.join(V, 'meta/design_head.md')).read().rstrip()
TAIL = open(os.path.join(V, 'meta/design_tail.md')).read().rstrip()
# property: (oracle, what this reaches that tests cannot)
X={
'C01':('exact Z identity of the result words, canonical form, sign flag = (a >= b)','carry chains over all word values at once; the tests have about ten pairs'),
'C02':('exact Z identity over polynomials in the words (lift.rs), canonical form, memory safety of the raw-pointer kernels','all values per length pair; long operands via symbolic runs, which force and suppress every carry between Karatsuba partial results'),
'C03':('Z identity a = q*b + r and r < b; zero divisor must panic','tables cover all small pairs and the boundary shapes (equal, shifted, off by one) of wide ones'),
'C04':('direct bit formula on the input words; Z identity for shifts','every residue of the distance modulo 32 with fully symbolic words'),
'C05':('lexicographic comparison of canonical words, written on the inputs','one differing word anywhere, all values; all primitive widths'),
'C06':('byte/word positional value','all byte values at all lengths up to the bound'),
'C07':('digits recomputed by positional value in the harness; parser specified as a grammar over symbolic characters','every short string, every digit position of long ones'),
'C08':('repeated multiplication in machine integers (moduli to 64 bits), square-and-multiply over * and % for wider ones; the two routines compared','algorithm selection (odd/even/multi-word) with symbolic operands'),
'C09':('s^2 <= n < (s+1)^2 over Z','squares and their neighbours with symbolic roots'),
'C10':('is_nan / None of each result','every operation x NaN position, other operand arbitrary'),
'C11':('values of all names before and after, storage identity by mutation','all short histories over shared names'),
'C12':('trial division in the harness; range and canonical form','the random stream is a symbolic input'),
'C13':('signed Z identity, canonical zero','all sign pairs over all word values'),
'C14':('signed Z identity, range and sign of the remainder','all sign pairs, exact multiples and neighbours'),
'C15':("two's-complement word formula computed on sign-extended inputs",'borrow chains over all word values'),
'C16':('Euclid over machine integers; Bezout identity, divisibility and maximality; complete solution sets by search over residues','all small tuples, wide with symbolic ends'),
'C17':("modular powers by repeated multiplication; Jacobi by Zolotarev's lemma / Euler's criterion; r*r = x and existence by search or Euler",'all residue classes of the selection logic'),
'C18':('Z product; Pascal/Z identity','symbolic 64-bit bounds incl. both extremes'),
'C19':('signed comparison of input words; grammar; positional value','all primitive values, all short strings'),
'C20':('cross-multiplied Z identity, coprimality by machine gcd, positive denominator','common factors of every shape'),
'C21':('cross multiplication; grammar and exact decimal value','all short strings, templates with symbolic digits'),
'C22':('exact mantissa/exponent decomposition; nearest-even by comparing remainders in wide integers','rounding positions across subnormal/normal/overflow'),
'C23':('harness/fl.rs: exact sum/product/quotient in wide integers, then rounding by definition in each mode; accuracy = sign of (rounded - exact)','fully symbolic mantissas at every alignment'),
'C24':('IEEE-754 case table; value comparison','every kind x sign x mode'),
'C25':('definition of truncation / nearest-even on the integer mantissa','all mantissa bits symbolic'),
'C26':('exact decimal expansion in wide integers, half-even rounding by definition; grammar','digit-by-digit over all small mantissas and exponents'),
'C27':('textbook recurrences in the harness; published mt19937 values','seed (and masks) symbolic'),
'C29':('the outcomes (value, success flag) that the instruction stand-in delivered, in order','every success/failure pattern with arbitrary 64-bit values; real hardware almost never fails'),
'C30':('the executor checks every load, store, copy and free against the extent and lifetime of its allocation and tracks which bytes are defined; the harness adds that every result is defined and that no allocation is left (`vs_defined`, `vs_live`). Counterexamples are confirmed natively under valgrind or by a counting allocator','lengths at which a kernel is one word too long, whatever the spare capacity happens to hold'),
'C31':('the grammar of each text read off the documentation, giving the position of the first fault and so the kind; the zero tests of the arguments','every ASCII character at the varied positions'),
'C28':('model of Iterator/err protocol; documented parameter constraints','arbitrary result sequences and all parameters at once'),
}
SECS = json.load(open(os.path.join(V, 'meta/secs.json')))
out = [HEAD, '']
for l in open(os.path.join(V, 'properties.jsonl')):
    p = json.loads(l); i = p['id']
    jobs = open(os.path.join(V, 'harness/%s.jobs' % i.lower())).read().splitlines()
    b = [j[8:].strip() for j in jobs if j.startswith('# bound:')]
    a = [j[9:].strip() for j in jobs if j.startswith('# assume:')]
    out.append('**%s %s** (%s s). Oracle: %s. Reach: %s.' % (i, p['title'], SECS.get(i, '?'), X[i][0], X[i][1]))
    for t in b: out.append('- %s%s.' % ('' if t.startswith('outside') else 'bound: ', t))
    for t in a: out.append('- assumed: %s.' % t)
    out.append('')
out.append('## 3. Genuine defects found in rmath\n')
out.append('Each was shown by a replayed counterexample against the real code and repaired by a small `fix:` commit (also in KNOWN_FINDINGS.jsonl; a fixed entry suppresses nothing, and no defect is left open).\n')
for l in open(os.path.join(V, 'KNOWN_FINDINGS.jsonl')):
    if l.strip():
        e = json.loads(l)['entry']; out.append('- ' + e.replace('fixed: property=', ''))
out.append('\n## 4. Planted bugs\n')
out.append('`seeded/Snn`: written from the property text and the code; each compiles, passes the stable tests, and its demo fails. "missed first" = the checks were strengthened because of it.\n')
out.append('| id | property | needs | caught by |'); out.append('|---|---|---|---|')
RES = json.load(open(os.path.join(V, 'meta/seed_results.json')))
for d in sorted(glob.glob(os.path.join(V, 'seeded/*'))):
    s = os.path.basename(d); m = json.load(open(d + '/meta.json'))
    out.append('| %s | %s | %s | %s |' % (s, m['property'], m['needs'].replace('|', '\\|'), RES.get(s, '?')))
out += ['', TAIL, '']
open(os.path.join(V, 'DESIGN.md'), 'w').write('\n'.join(out))
