"""The properties, their checks, and the generation of properties.jsonl and MANIFEST.json."""
import os, json
from vlib import *
CHECKS = {}; NA = {}; META = {}
TVNOTE = ('Translation validation: the tree\'s own compiler and assembler are rebuilt and compile each template program; the resulting machine code is executed symbolically (x86-64 interpreter inside the symx symbolic executor) with every argument, global, external return value and '
          'unspecified register/stack bit symbolic, and z3 decides equality with a reference compilation (clang front end, no optimisation) for all of them. A counterexample is replayed on the processor before it is reported. Trusted: clang, the interpreter, symx, z3, the ELF loader of the harness.')
def prop(id, title, statement, over, qtext, why, files, mech, level='translation_validation', technique='', note='', extra=None):
    def deco(fn):
        META[id] = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}
        CHECKS[id] = {'title': title, 'level': level, 'run': fn, 'technique': technique, 'note': note}
        return fn
    return deco
def na(id, title, statement, over, qtext, why, files, mech, reason):
    META[id] = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': {'files': files, 'mechanism': [{'name': a, 'where': b} for a, b in mech]}}; NA[id] = reason
SYM_TV = 'symbolic execution of emitted machine code vs reference, SMT equality per template (translation validation)'
TESTS = 'The value tests evaluate each construct on one or two fixed operands; a wrong instruction, width or sign choice that agrees on those operands passes.'
def tvcommon(c):
    c.fn('machine code emitted by cc1+as (all of src/cc and src/as for x64) for every template function'); c.assume('clang front end + sroa implements C semantics (with wrap-around for signed overflow, which the templates otherwise avoid)'); c.assume('inputs with undefined behaviour are excluded by a precondition per template')
    c.bound('all values of all arguments, memory and external results; loops unrolled as far as the template preconditions allow (at most about 8 iterations); at most 20000 machine instructions per run')

@prop('C01', 'Integer expressions compute the C value', 'For every integer expression (arithmetic, bitwise, shift, comparison, logical, assignment and increment operators, over all integer types of any width and signedness, with variable or constant operands), the x86-64 code xcc produces yields the value the C standard defines, for all operand values.',
      ['programs', 'inputs'], 'all operand values x operator x operand types x constant or variable operand', TESTS, ['src/cc/backend/codegen_expr.c', 'src/cc/arch/x64/ir_x64.c', 'src/cc/arch/x64/emit_x64.c', 'src/cc/backend/ir.c', 'src/cc/frontend/fe_misc.c', 'src/cc/backend/optimize.c'],
      [('expression code generation', 'src/cc/backend/codegen_expr.c'), ('instruction selection', 'src/cc/arch/x64/ir_x64.c'), ('constant folding and strength reduction', 'src/cc/frontend/fe_misc.c, src/cc/backend/ir.c')], technique=SYM_TV, note=TVNOTE)
def c01(c):
    import fam_int as F; tvcommon(c)
    c.tv('binary', F.binary()); c.tv('unary', F.unary()); c.tv('logic', F.logic()); c.tv('exprs', F.exprs()); c.tv('compound', F.compound())
    c.tv('consts', F.consts(seed=c.seed)); import fam_ctl; c.tv('order', fam_ctl.order())
    import fam_gen; c.tv('random', fam_gen.flow(c.seed + 100, 400 if c.thorough else 24), opts=['--rlimit', '10000000'])

@prop('C02', 'Conversions, promotions and bit-fields keep the C value', 'Every conversion between integer types, _Bool, enumerations and pointers, implicit or by cast, in assignment, argument passing, return and initialisation, and the integer promotions, yield the value C defines for all source values; reading or writing a bit-field affects exactly its own bits and yields the field\'s value.',
      ['programs', 'inputs'], 'all values x source type x destination type x context; all bit-field widths and positions', TESTS, ['src/cc/frontend/fe_misc.c', 'src/cc/backend/codegen_expr.c', 'src/cc/frontend/type.c', 'src/cc/arch/x64/ir_x64.c'],
      [('casts and usual arithmetic conversions', 'src/cc/frontend/fe_misc.c'), ('bit-field access expansion', 'src/cc/frontend/fe_misc.c'), ('IR_CAST selection', 'src/cc/arch/x64/ir_x64.c')], technique=SYM_TV, note=TVNOTE)
def c02(c):
    import fam_int as F; tvcommon(c)
    c.tv('conv', F.conv()); c.tv('bitfields', F.bitfields()); c.tv('binary', F.binary(ops=['+', '>>', '<', '/'])); c.tv('unary', F.unary())
    import fam_flo; c.tv('float-conv', fam_flo.conv()); c.tv('float-const', fam_flo.flits())
    import fam_abi; c.tv('args', fam_abi.scalars(c.seed, 30)); c.tv('compound', F.compound())

@prop('C03', 'Floating-point code follows IEEE 754', 'For float and double operands, including NaN, infinities, signed zeros and subnormals, the generated x86-64 code for arithmetic, comparison, negation, logical tests and conversions between floating and integer types gives exactly the IEEE 754 result C requires, and floating constants have their correctly rounded value.',
      ['programs', 'inputs'], 'all bit patterns of all operands', 'Floating tests use a few ordinary numbers; NaN, signed zero, rounding and unsigned range boundaries are not sampled.', ['src/cc/backend/codegen_expr.c', 'src/cc/arch/x64/ir_x64.c', 'src/cc/frontend/fe_misc.c', 'src/cc/backend/emit_code.c', 'src/cc/frontend/lexer.c'],
      [('flonum instruction selection', 'src/cc/arch/x64/ir_x64.c'), ('flonum folding', 'src/cc/frontend/fe_misc.c'), ('flonum condition codes', 'src/cc/backend/codegen_expr.c')], technique=SYM_TV, note=TVNOTE + ' Floating operations are uninterpreted when both sides apply the same operation, otherwise z3 decides the IEEE theory.')
def c03(c):
    import fam_flo as F; tvcommon(c)
    c.tv('arith', F.arith()); c.tv('compare', F.compare()); c.tv('conv', F.conv()); c.tv('constants', F.flits()); c.tv('calls', F.calls()); c.tv('compare-ssa', F.compare(), cc1opts=['--apply-ssa'], tag='+ssa')

@prop('C04', 'Control flow follows the C abstract machine', 'For every statement form (if, loops, switch with any case set, goto, break, continue, return, short-circuit and conditional operators) the compiled x86-64 program performs the same sequence of external calls with the same arguments, and ends with the same values, as the C program defines, for all inputs.',
      ['programs', 'inputs'], 'all input values, hence all paths, of each template and of randomly structured functions; loops up to the stated iteration bounds', 'Tests run each statement form on fixed inputs along one path; jump-table bounds, inverted conditions and block reordering errors show on other values.', ['src/cc/backend/codegen.c', 'src/cc/backend/optimize.c', 'src/cc/backend/codegen_expr.c', 'src/cc/frontend/parser.c'],
      [('statement code generation, switch tables', 'src/cc/backend/codegen.c'), ('branch simplification', 'src/cc/backend/optimize.c'), ('conditions', 'src/cc/backend/codegen_expr.c')], technique=SYM_TV, note=TVNOTE)
def c04(c):
    import fam_ctl as F, fam_gen; tvcommon(c)
    c.tv('loops', F.loops()); c.tv('branches', F.branches()); c.tv('switches', F.switches(c.seed)); c.tv('order', F.order())
    import fam_int, fam_flo; c.tv('logic', fam_int.logic()); c.tv('float-cond', [t for t in fam_flo.flits() if t.name.startswith('flit/cond')])
    c.tv('random', fam_gen.flow(c.seed, 600 if c.thorough else 60), opts=['--rlimit', '10000000'])

@prop('C05', 'Calls follow the platform calling convention', 'Functions compiled by xcc exchange arguments, variadic arguments, aggregates and results correctly with each other, and, for scalar and variadic arguments and for aggregates of more than 16 bytes, with functions compiled by other x86-64 System V compilers; callee-saved registers, stack alignment and the caller\'s frame are preserved by every call.',
      ['programs', 'inputs'], 'all argument values; signatures of up to 20 parameters of every scalar type; struct shapes up to 96 bytes', 'Tests call functions of a few signatures compiled by xcc on both sides, where symmetric mistakes cancel out, and never look at preserved registers.', ['src/cc/backend/codegen_expr.c', 'src/cc/backend/codegen.c', 'src/cc/arch/x64/ir_x64.c', 'src/cc/arch/x64/emit_x64.c', 'src/cc/builtin.c', 'include/stdarg.h'],
      [('argument placement', 'src/cc/backend/codegen_expr.c'), ('prologue, epilogue, saved registers', 'src/cc/arch/x64/emit_x64.c'), ('va_list', 'src/cc/builtin.c')], technique=SYM_TV, note=TVNOTE + ' The other side of cross-compiler calls is compiled by gcc. Aggregates of at most 16 bytes are passed in memory by xcc, unlike the System V ABI, so only agreement of xcc with itself is claimed for them; _Bool is 4 bytes in xcc.')
def c05(c):
    import fam_abi as F, fam_flo, fam_gen; tvcommon(c)
    c.tv('scalars', F.scalars(c.seed, 400 if c.thorough else 60)); c.tv('structs', F.structs()); c.tv('varargs', F.varargs(c.seed, 120 if c.thorough else 24)); c.tv('float-calls', fam_flo.calls())
    c.tv('pressure', fam_gen.press(c.seed, 200 if c.thorough else 24), opts=['--rlimit', '10000000'])

@prop('C06', 'Data layout and memory access match the platform ABI', 'Sizes, alignments and offsets of scalar, array, struct, union and bit-field types follow the x86-64 System V layout (_Bool, which is four bytes, apart), and reads and writes through members, array elements, pointers and pointer arithmetic touch exactly the addressed bytes with the right width and sign, for all index and memory values.',
      ['programs', 'inputs'], 'all memory contents and in-range indices; random struct shapes from the seed', 'Tests use a few struct shapes and check values, not neighbouring bytes.', ['src/cc/frontend/type.c', 'src/cc/frontend/fe_misc.c', 'src/cc/backend/codegen_expr.c', 'src/cc/arch/x64/ir_x64.c'],
      [('struct layout', 'src/cc/frontend/type.c'), ('address generation', 'src/cc/backend/codegen_expr.c'), ('load/store selection', 'src/cc/arch/x64/ir_x64.c')], technique=SYM_TV, note=TVNOTE)
def c06(c):
    import fam_agg as F, fam_int, fam_abi; tvcommon(c)
    c.tv('layout', F.layout(c.seed, 600 if c.thorough else 120)); c.tv('pointers', F.pointers()); c.tv('structs', fam_abi.structs()); c.tv('bitfields', fam_int.bitfields())

@prop('C07', 'Initialisers give every byte its defined value', 'After initialisation every static or automatic object - scalar, array, string, nested aggregate, union, bit-field, designated, partially initialised or with address constants - holds exactly the bytes C defines, with all remaining members zero, for all values of run-time initialiser expressions.',
      ['programs', 'inputs'], 'all values of the run-time initialisers and of the previous stack contents', 'Tests read back named members of fixed initialisers; stale stack bytes and neighbouring objects are not observed.', ['src/cc/frontend/initializer.c', 'src/cc/backend/emit_code.c', 'src/cc/backend/codegen.c'],
      [('initialiser flattening', 'src/cc/frontend/initializer.c'), ('static data emission', 'src/cc/backend/emit_code.c')], technique=SYM_TV, note=TVNOTE + ' Stack contents below the frame are symbolic, so a byte left uninitialised is a counterexample.')
def c07(c):
    import fam_agg as F; tvcommon(c)
    c.tv('init', F.init()); import fam_flo; c.tv('float-const', [t for t in fam_flo.flits() if not t.name.startswith(('flit/cond', 'flit/fold'))]); c.tv('layout', F.layout(c.seed, 40))

@prop('C09', 'Optimisation and register allocation preserve meaning', 'Whatever the optimisation options (none, -O, SSA form) and however many values are alive at once, the compiled function computes the same results, memory effects and external calls as its C source, for all inputs.',
      ['programs', 'inputs', 'configurations'], 'all input values; option combinations; functions with up to about 25 simultaneously live values and randomly drawn structure', 'The optimiser and the allocator act on the shape of a function; tests fix both the shapes and the inputs, and the SSA option is not run at all.', ['src/cc/backend/regalloc.c', 'src/cc/backend/optimize.c', 'src/cc/backend/ssa.c', 'src/cc/backend/ir.c', 'src/cc/backend/codegen.c'],
      [('register allocation and spilling', 'src/cc/backend/regalloc.c'), ('peephole, copy propagation, dead code', 'src/cc/backend/optimize.c'), ('SSA construction and removal', 'src/cc/backend/ssa.c')], technique=SYM_TV, note=TVNOTE)
def c09(c):
    import fam_ctl, fam_gen, fam_int, fam_flo, fam_abi, fam_agg; tvcommon(c); n = 300 if c.thorough else 40; O = ['--rlimit', '10000000']
    c.tv('pressure', fam_gen.press(c.seed, n), opts=O); c.tv('pressure', fam_gen.press(c.seed + 1, n), cc1opts=['--apply-ssa'], tag='+ssa', opts=O); c.tv('random', fam_gen.flow(c.seed + 7, n), cc1opts=['--apply-ssa', '-O2'], tag='+ssa', opts=O); c.tv('random', fam_gen.flow(c.seed + 8, n), opts=O)
    m = 3 if c.thorough else 0.34
    c.tv('propagated constants', fam_gen.cprop(c.seed, m), cc1opts=['--apply-ssa'], tag='+ssa'); c.tv('propagated constants', fam_gen.cprop(c.seed, m)); c.tv('phis', fam_gen.phis(), cc1opts=['--apply-ssa'], tag='+ssa'); c.tv('phis', fam_gen.phis(), cc1opts=['-O2'], tag='+O2')
    for nm, ts in (('loops', fam_ctl.loops()), ('branches', fam_ctl.branches()), ('order', fam_ctl.order()), ('logic', fam_int.logic()), ('compare', fam_flo.compare()), ('farith', fam_flo.arith()), ('pointers', fam_agg.pointers()), ('scalars', fam_abi.scalars(c.seed, 30)), ('switches', fam_ctl.switches(c.seed))):
        c.tv(nm, ts, cc1opts=['--apply-ssa', '-O2'], tag='+ssa')
    c.tv('loops', fam_ctl.loops()); c.tv('branches', fam_ctl.branches())

HX_T = 'bounded symbolic execution of the real functions (clang IR), z3 decides every assertion on every path'
HXNOTE = 'The tree\'s own source files are compiled to LLVM IR on every run and executed symbolically by symx together with a harness that states the expected result; every branch and assertion over symbolic data is decided by z3 for all values within the bounds, memory accesses are checked against object bounds, and a counterexample is replayed natively under AddressSanitizer before it is reported. Trusted: clang, symx, z3, the oracle in the harness. What the tree\'s own compiler makes of these sources is the subject of C01-C09.'
def hxcommon(c, *fns):
    c.fn(*fns); c.assume('clang front end implements C semantics'); c.assume('arguments satisfy the preconditions of the C standard (valid objects, terminated strings, no overlap where restrict)')

@prop('C14', 'String and memory functions do what ISO C says', 'Every function of string.h and strings.h in the bundled C library (strlen to strtok_r, memcpy to memchr, str(n)casecmp, str(n)dup, stpcpy ...) returns the value and writes exactly the bytes ISO C and POSIX define, for all contents including bytes above 127, empty strings and needles, and unterminated arrays where a length limits the access; no function reads or writes outside the given objects.',
      ['inputs'], 'all contents of strings up to 4 characters and memory blocks up to 65 bytes, all lengths, all search characters', 'The library tests call each function on a few ASCII strings; byte signedness, overlap directions, padding, stale trailing bytes and accesses past the end stay invisible.', ['libsrc/string/strncpy.c', 'libsrc/string/memmove.c', 'libsrc/string/strstr.c', 'libsrc/string/strtok_r.c', 'libsrc/string/strcmp.c', 'libsrc/string/memset.c'],
      [('string scanning and comparison', 'libsrc/string'), ('block copy and fill', 'libsrc/string/memcpy.c, libsrc/string/memmove.c, libsrc/string/memset.c')], level='model_checking', technique=HX_T, note=HXNOTE)
def c14(c):
    import libx; hxcommon(c, 'libsrc/string/*.c (all functions but strerror)'); c.bound('strings of up to 4 (thorough 6) symbolic bytes, second operands up to the same, blocks of 0..65 bytes at chosen sizes around word boundaries, length arguments 0..N+1 and SIZE_MAX')
    libx.string(c, 6 if c.thorough else 4)

@prop('C15', 'Character classes and text-to-integer conversion follow ISO C', 'The ctype.h functions give the C locale result for EOF and every unsigned char; strtol, strtoll, strtoul, strtoull, atoi, atol, atoll accept exactly the ISO C subject sequences in every base, return the exact value or the specified limit on overflow and store the right end pointer; abs, labs, llabs give the absolute value; rand, srand and nrand48 produce the POSIX 48-bit linear congruential sequence, with rand within 0..RAND_MAX.',
      ['inputs'], 'all characters; all short texts; all last digits near every overflow limit; all seeds', 'Tests convert a handful of well-formed numbers; prefixes without digits, limits in unusual bases, and bytes outside ASCII are not sampled.', ['libsrc/stdlib/_strtoull_sub.c', 'libsrc/stdlib/strtol.c', 'libsrc/stdlib/strtoul.c', 'libsrc/stdlib/_parse_sign.c', 'libsrc/misc/isspace.c', 'include/ctype.h', 'libsrc/stdlib/rand.c'],
      [('number scanning', 'libsrc/stdlib/_strtoull_sub.c, libsrc/stdlib/_parse_sign.c'), ('character classes', 'libsrc/misc')], level='model_checking', technique=HX_T, note=HXNOTE + ' Overflowing strtoul with a minus sign is excluded (implementations differ).')
def c15(c):
    import libx; hxcommon(c, 'libsrc/misc/is*.c, to*.c', 'libsrc/stdlib: strto*, ato*, *abs, rand, srand, nrand48'); c.bound('free texts of 4 symbolic bytes in bases 0, 2, 3, 8, 10, 16, 36; texts around each overflow limit with 3 free last characters; sequences of 3 random numbers')
    libx.numeric(c)

@prop('C16', 'Formatted output is exact', 'The printf family of the bundled C library produces exactly the text ISO C prescribes for %d, %u, %x, %X, %p, %s, %c and %% with the -, 0 and + flags, width, precision (also as * arguments) and the l, ll and z modifiers, for all argument values; the return value is the full length, snprintf never writes beyond the given size and terminates the text, and the same text comes out of sprintf, fprintf and memory streams.',
      ['inputs', 'programs'], 'all flag combinations x width x precision x argument values x buffer sizes', 'Tests print a few values with a few formats; interactions of zero padding with sign, precision and alignment, minimum values and truncation points are not covered.', ['libsrc/stdio/vfprintf.c', 'libsrc/stdio/vsnprintf.c', 'libsrc/stdio/snprintf.c', 'libsrc/stdio/open_memstream.c'],
      [('format interpretation', 'libsrc/stdio/vfprintf.c'), ('bounded output', 'libsrc/stdio/vsnprintf.c')], level='model_checking', technique=HX_T, note=HXNOTE + ' %i, %o, # and the space flag are unsupported by the library and not claimed; neither are floating conversions.')
def c16(c):
    import libx; hxcommon(c, 'libsrc/stdio: vfprintf, vsnprintf, snprintf, sprintf, fprintf, open_memstream'); c.bound('integer arguments: all values up to 120 in magnitude, all 64-bit values for %lx, 15 boundary values for the rest; strings up to 4 symbolic bytes; widths 0, 2, 19, 22 and -3..4 as argument; precisions none, 0, 3, 12 and -1..3 as argument; buffer sizes 0..13, 300')
    libx.printf(c)

@prop('C17', 'Allocation, sorting and searching are sound', 'malloc, calloc and realloc of the bundled C library return disjoint, aligned blocks of at least the requested size, preserve the contents of live blocks through any sequence of allocations, reallocations and frees, return null for sizes that cannot be satisfied (including overflowing products), and reuse freed memory; qsort permutes its elements into ascending order for every element size, bsearch finds an element exactly when one exists, and both pass the comparison function only pointers to elements.',
      ['histories', 'inputs'], 'all sequences of up to 4 operations over block sizes around the header and page limits; all arrays of up to 6 elements', 'Tests perform one fixed sequence and sort one fixed array.', ['libsrc/stdlib/malloc.c', 'libsrc/stdlib/realloc.c', 'libsrc/stdlib/calloc.c', 'libsrc/stdlib/qsort.c', 'libsrc/stdlib/bsearch.c'],
      [('free list', 'libsrc/stdlib/malloc.c'), ('partitioning', 'libsrc/stdlib/qsort.c')], level='model_checking', technique=HX_T, note=HXNOTE + ' sbrk is modelled as a bounded arena that may be exhausted.')
def c17(c):
    import libx; hxcommon(c, 'libsrc/stdlib: malloc, free, calloc, realloc, qsort, bsearch'); c.bound('4 allocator operations (3 with realloc or exhaustion); sizes 0..2, 16, 17, 32, 33, 4064, 4065, 4080, 4081, 8160, 8161; overflow: all 64-bit sizes; arrays of up to 6 elements with symbolic keys, element sizes 1..40')
    libx.memory(c)

@prop('C18', 'Buffered streams transfer exactly the data', 'For every sequence of stdio operations (fopen, fdopen, fmemopen, open_memstream, fgetc, fread, fgets, getline, ungetc, fputc, fputs, fwrite, fflush, fseek, ftell, feof, fclose) the bundled C library delivers the bytes of the file in order and writes exactly the bytes given at the right positions, whatever the data, the chunk sizes, the buffer boundaries and short transfers by the kernel; positions, end-of-file indications and open flags are right, and read, write and close errors are reported rather than lost.',
      ['histories', 'inputs', 'fault schedules'], 'all sequences of up to 4 operations; all data bytes; short reads and writes; failing writes and closes', 'Tests read and write small files in one way; buffer boundaries, partial transfers, pushed-back characters around seeks and failing system calls do not occur.', ['libsrc/stdio/_file.c', 'libsrc/stdio/fread.c', 'libsrc/stdio/fwrite.c', 'libsrc/stdio/fgetc.c', 'libsrc/stdio/fseek.c', 'libsrc/stdio/ungetc.c', 'libsrc/stdio/fflush.c', 'libsrc/stdio/fmemopen.c', 'libsrc/stdio/getline.c'],
      [('buffering', 'libsrc/stdio/fgetc.c, libsrc/stdio/fputc.c, libsrc/stdio/fread.c, libsrc/stdio/fwrite.c'), ('positioning', 'libsrc/stdio/fseek.c, libsrc/stdio/ftell.c')], level='model_checking', technique=HX_T, note=HXNOTE + ' The kernel is a model of one file with the system calls read, write, lseek, open and close, which may transfer less than asked or fail.')
def c18(c):
    import libx; hxcommon(c, 'libsrc/stdio/*.c except the floating part of vfprintf'); c.bound('4 operations per stream (5 for fmemopen); files of up to a few hundred bytes with chunk sizes around the buffer size; at most one failing system call')
    libx.stdio(c)

@prop('C13', 'Tokens and constants have the meaning ISO C gives them', 'For every source text the front end splits the input into the longest possible C tokens, treats comments and joined lines as ISO C translation phases 2 and 3 prescribe and knows the line of each token; integer constants in every base, with every suffix and of every size have the exact value and the type of ISO C 6.4.4.1; character constants and string literals, with all escape sequences, wide prefixes and adjacent-literal concatenation, have the specified characters; floating constants are recognised in full and converted in the type their suffix denotes.',
      ['inputs', 'programs'], 'all short token sequences; all digits, suffixes, escapes and characters; all values near the limits of the types', 'Tests contain a few constants; the type of a constant, values at type limits, unusual digit and escape combinations and ambiguous operator sequences hardly occur.', ['src/cc/frontend/lexer.c', 'src/cc/frontend/parser_expr.c', 'src/util/util.c'],
      [('token scanner', 'src/cc/frontend/lexer.c'), ('types of constants', 'src/cc/frontend/parser_expr.c'), ('line joining', 'src/util/util.c')], level='model_checking', technique=HX_T, note=HXNOTE + ' Names are interned by a specification model of src/util/table.c; strtod and strtof are replaced by a scanner of the C grammar, so the numeric value of floating constants is that of the host library.')
def c13(c):
    import libx; hxcommon(c, 'src/cc/frontend: lexer.c (all), parser_expr.c literals', 'src/util/util.c: getline_cont, block_comment_end, skip_whitespaces'); c.bound('integer constants: up to 3 free digits, or all last two digits around each type limit, x 6 prefixes x 12 suffixes; strings of up to 3 free pieces, concatenations of 2, lengths 10..33; operator texts of 3 free characters (4 with a fixed prefix); files of 5 free characters out of / * \\ newline blank letter; keywords with one character replaced or added')
    libx.lexer(c)

@prop('C12', 'Preprocessing yields the tokens ISO C prescribes', 'For every source text the preprocessor emits exactly the token sequence of ISO C translation phases 2 to 4: object-like and function-like macros (nested, recursive, spanning lines, with empty, variadic, GNU-comma and __VA_OPT__ arguments), # and ##, rescanning with suppression of a macro within its own expansion, #undef, conditional groups nested to any shape with #if expressions evaluated in 64-bit signed and unsigned arithmetic with short circuits, #include of files found in the specified order, #line, __LINE__, __FILE__ and #error; no token is glued to a neighbour, lost or moved to another line, and ill-formed directives are diagnosed.',
      ['programs', 'inputs'], 'all combinations of macro definitions, invocations and directives built from the stated pieces; all operand values of #if', 'Tests expand a few macros and evaluate a few conditions; argument pre-expansion, hide sets, pasting with empty operands, unsigned #if arithmetic, skipped groups and line bookkeeping interact in ways no sample covers.', ['src/cpp/preprocessor.c', 'src/cpp/macro.c', 'src/cpp/pp_parser.c'],
      [('directives and conditional stack', 'src/cpp/preprocessor.c'), ('macro expansion', 'src/cpp/macro.c, src/cpp/pp_parser.c'), ('#if expressions', 'src/cpp/pp_parser.c')], level='model_checking', technique=HX_T, note=HXNOTE + ' The oracle is a second preprocessor (rt/refpp.h: hide-set algorithm of the C standard, #if evaluator on intmax_t and uintmax_t) executed on the same symbolic text; token sequences and their lines are compared. Names are interned by a specification model of src/util/table.c. Not claimed: preprocessing numbers that are no C constants, stray characters, defined produced by a macro, incompatible redefinition, multi-line comments inside a directive before its operand.')
def c12(c):
    import libx; hxcommon(c, 'src/cpp: preprocessor.c, macro.c, pp_parser.c', 'src/cc/frontend/lexer.c', 'src/util/util.c'); c.bound('37 templates; bodies, arguments and lines assembled from up to 4 (thorough 5) symbolic choices among 6 to 12 pieces each; #if operands: any 64-bit values near 0, the signed and the unsigned limits for every operator pair; up to 4 directives; include search over 3 directories')
    libx.cpp(c, **(dict(DEEP=1, NC=5, NM=5, NL=4) if c.thorough else {}))

@prop('C19', 'RISC-V code does what the C program says', 'For the riscv64 target too, every function compiled by xcc - integer and floating expressions, conversions, bit-fields, control flow, aggregates, initialised objects, calls with any number of arguments and variadic calls - yields the values, memory effects and external calls the C standard defines, with and without optimisation, for all inputs; callee-saved registers, the stack pointer and the caller\'s frame are preserved, the stack is aligned at calls, 32-bit results and arguments are sign-extended and floats NaN-boxed as the calling convention requires.',
      ['programs', 'inputs'], 'all operand values, hence all paths, of each template; the same program families as for x86-64, except those that need a second compiler for the target', 'The test suite runs only what the host can execute: nothing of the riscv64 back end, its assembler or its instruction encodings is exercised.', ['src/cc/arch/riscv64/ir_riscv64.c', 'src/cc/arch/riscv64/emit_riscv64.c', 'src/cc/arch/riscv64/emit_riscv64.c', 'src/as/arch/riscv64/asm_code.c', 'src/as/arch/riscv64/ir_asm_riscv64.c', 'src/as/arch/riscv64/parse_riscv64.c', 'src/cc/backend/regalloc.c', 'src/cc/backend/codegen.c', 'include/stdarg.h'],
      [('instruction selection', 'src/cc/arch/riscv64/ir_riscv64.c'), ('prologue, epilogue, saved registers', 'src/cc/arch/riscv64/emit_riscv64.c'), ('instruction encoding', 'src/as/arch/riscv64/asm_code.c')], technique=SYM_TV, note=TVNOTE.replace('x86-64', 'RV64GC') + ' The program runs in an RV64GC instruction interpreter. 8 and 16 bit arguments and results, which xcc leaves unextended, are not claimed; relocations are applied by the check\'s own loader.')
def c19(c):
    import fam_int as I, fam_flo as F, fam_ctl as C, fam_abi as B, fam_agg as A, fam_gen as G; tvcommon(c); t = c.thorough; O = ['--rlimit', '10000000']
    def r(nm, ts, ssa=False, **k): c.tv(nm, [x for x in ts if not x.comp], arch='riscv64', **k); ssa and c.tv(nm, [x for x in ts if not x.comp], arch='riscv64', cc1opts=['--apply-ssa', '-O2'], tag='+ssa', **k)
    r('binary', I.binary()); r('unary', I.unary()); r('conv', I.conv()); r('exprs', I.exprs()); r('compound', I.compound()); r('logic', I.logic()); r('bitfields', I.bitfields()); r('consts', I.consts(seed=c.seed) if t else I.consts(kinds=('i8', 'u16', 'i32', 'u32', 'u64'), thin=3, seed=c.seed))
    r('float-arith', F.arith()); r('float-compare', F.compare()); r('float-conv', F.conv()); r('float-const', F.flits()); r('float-calls', F.calls())
    r('loops', C.loops()); r('branches', C.branches(), ssa=True); r('switches', C.switches(c.seed)[::1 if t else 3]); r('order', C.order())
    r('scalars', B.scalars(c.seed, 200 if t else 60)); r('structs', B.structs()); r('varargs', B.varargs(c.seed)); r('layout', A.layout(c.seed, 300 if t else 60)); r('pointers', A.pointers()); r('init', A.init())
    r('random', G.flow(c.seed + 11, 300 if t else 12), opts=O); r('pressure', G.press(c.seed + 11, 200 if t else 12), opts=O, ssa=True); r('phis', G.phis()[::1 if t else 2], ssa=True)

@prop('C11', 'The linker produces the program its inputs define', 'Linking object files and archives yields an executable in which every text, read-only, data, initialiser or finaliser array and bss section of the linked objects has an address of its alignment, apart from all others, inside a loadable segment with the rights it needs, with exactly its bytes (zero for bss) except where a relocation applies; every relocation field gets the value its type defines from symbol, addend and place, the remaining bits being kept (x86-64, AArch64 and RISC-V relocations); each reference gets the definition that the rules for local, global, weak and tentative definitions select; __init_array_start/end and __fini_array_start/end delimit all entries in order; the entry point is the symbol asked for; archive members are linked exactly when they define a name that is still missing; duplicate strong definitions, missing names, entry points and libraries end with a failure status.',
      ['inputs', 'configurations'], 'all section contents, addends and symbol offsets; sizes, alignments, section orders, binding combinations and archive shapes within the bounds', 'Tests link a few programs of the tree\'s own making; odd alignments, padding before bss, unusual addends, bindings and symbol orders, and the AArch64 and RISC-V relocations do not occur.', ['src/ld/ld.c', 'src/ld/elfobj.c', 'src/util/archive.c', 'src/util/elfutil.c', 'src/util/util.c'],
      [('symbol resolution', 'src/ld/ld.c: resolve_symbols_elfobj, resolve_symbols_archive'), ('address assignment and output', 'src/ld/ld.c: ld_calc_address, output_exe'), ('relocation', 'src/ld/ld.c: resolve_rela_elfobj'), ('object and archive reading', 'src/ld/elfobj.c, src/util/archive.c')], level='model_checking', technique=HX_T, note=HXNOTE + ' The linker\'s main runs on object files and archives that the harness writes with symbolic contents; names are interned by a specification model of src/util/table.c and streams are unbuffered (C18 checks the buffers). Section addresses are read from the linked image itself, so no layout is prescribed.')
def c11(c):
    import libx; hxcommon(c, 'src/ld/ld.c: all but the map file', 'src/ld/elfobj.c', 'src/util/archive.c', 'src/util/elfutil.c', 'src/util/util.c: data storage, option parsing'); c.bound('up to 3 objects and archives of up to 3 members; sections up to 4.5 kB with alignments up to 8 kB; symbolic contents, addends and offsets (within the range of the field for narrow relocations)'); c.assume('not claimed: undefined weak references, other section names, tentative definitions of different sizes or next to a weak definition, relocation overflow, the map file')
    for a in ('x64', 'riscv64', 'aarch64'): libx.ld(c, a)

def setup():
    build_symx(); tools('x64'); tools('riscv64')
def generate():
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for k in sorted(META): f.write(json.dumps(META[k]) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 check.py setup', 'checks': [{'property': k, 'quick_cmd': 'python3 check.py %s quick' % k, 'thorough_cmd': 'python3 check.py %s thorough' % k, 'technique': v['technique'], 'level': v['level'], 'level_note': v['note']} for k, v in sorted(CHECKS.items())],
         'not_applicable': [{'property': k, 'reason': r} for k, r in sorted(NA.items())], 'notes': 'No hooks in /repo: the checks compile the unmodified sources. fix: commits are listed in known_findings.json.'}
    json.dump(m, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1); open(os.path.join(VERIF, 'MANIFEST.json'), 'a').write('\n')
