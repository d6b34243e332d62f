#!/usr/bin/env python3
# Source of /verif/properties.jsonl (one JSON object per line).
import json, os
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=(),hook=None):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=list(observe),hook_needed=hook)))

p("C01","Each thread computes in its own, last-set decimal rounding mode",
 "fe_dec_setround accepts exactly the five FE_DEC_* modes (returning 0; any other value returns nonzero and changes nothing), fe_dec_getround returns the mode the calling thread last set, and a new thread starts in FE_DEC_TONEAREST whatever other threads have set. "
 "Every operation that rounds in the current mode (the operators + - * /, fma, fdim, sqrt, scalbn, scalbln, ldexp, conversions between decimal formats, from integers and between decimal and binary floating point, quantize, rint, nearbyint, lrint, llrint, strtod/wcstod of a text within reach of the type, and printf/strfrom with a reduced precision) returns the exact result correctly rounded in the calling thread's mode, however calls and mode changes of other threads are interleaved with it. ",
 ["schedules","histories","inputs"],
 "Every interleaving of calls and fe_dec_setround in any number of threads, every history of modes in one thread, every operand.",
 "test-fenv and the .input tables call one function at a time from one thread, in one mode at a time; a mode shared, cached or published late between threads is invisible to them.",
 ["sysdeps/soft-dfp/bid/fe_decround.c","libbid/bid_decimal_globals.c","libbid/bid_conf.h","ieee754r/rintd32.c","ieee754r/quantized32.c","stdlib/strtod32.c","printf-hooks/printf_dfp.c"],
 [("thread-local rounding mode read by every rounding routine","libbid/bid_decimal_globals.c, libbid/bid_conf.h (BID_THREAD)"),
  ("mode translation tables and range check","sysdeps/soft-dfp/bid/fe_decround.c"),
  ("printf asks the thread's mode through a callback","printf-hooks/printf_dfp.c __printf_dfp_getround_callback")],
 [("_IDEC_glbround","decimal rounding mode of the thread","libbid/bid_decimal_globals.c")],
 ["return value of fe_dec_setround/fe_dec_getround","result bits of the rounding operations","text produced by printf/strfrom"])

p("C02","No call changes the caller's decimal or binary rounding mode",
 "Apart from a successful fe_dec_setround, no libdfp call leaves the calling thread with another decimal rounding mode than it had when the call began, on any return path: special operands, domain and range errors, parse failures, failed allocations, failing output streams. "
 "The binary floating-point rounding mode of the thread is left alone in the same way.",
 ["histories","inputs","fault_sequences","schedules"],
 "Every exported function, every operand class and starting mode, every allocation or stream failure inside the call, every interleaving.",
 "Many routines switch the mode temporarily and must restore it on each early return; tests look at the result, never at the mode afterwards, almost always in the default mode, and never with a failing allocation.",
 ["include/dfpfenv_private.h","sysdeps/generic/dfp_inline.h","dfp/fenv.h","ieee754r/expd128.c","ieee754r/nextafterd32.c","ieee754r/nexttowardd32.c","libbid/","sysdeps/soft-dfp/bid/fe_decround.c"],
 [("scoped save/set/restore of the rounding mode","dfp_inline.h SET_RESTORE_DROUND"),
  ("explicit save and restore around directed rounding","ieee754r/nextafterd32.c and other users of __fe_dec_setround")],
 [("_IDEC_glbround","decimal rounding mode of the thread","libbid/bid_decimal_globals.c")],
 ["fe_dec_getround and fegetround right after every call"])

p("C03","Concurrent calls return exactly what they return when run alone",
 "Any libdfp call (arithmetic, math, conversion, comparison, parsing, formatting) gives each thread bit-for-bit the result, output parameters and text that the same call gives alone in a fresh process with the same rounding mode and locale, whatever other threads' calls are interleaved with it at any instruction. "
 "A thread stopped forever in the middle of a call never blocks another thread's calls or changes their results.",
 ["schedules","inputs"],
 "Every pair or larger set of calls in different threads, every preemption point inside them, every thread that never resumes.",
 "No test in the suite starts a second thread; hidden static scratch buffers, caches and lazily built tables give right answers until two calls overlap.",
 ["libbid/bid_decimal_globals.c","printf-hooks/printf_dfp.c","libdecnumber/decNumber.c","decNumberMath/decNumberMath.c","stdlib/strtod32.c","stdlib/strfromd32.c","ieee754r/","base-math/"],
 [("all scratch storage is automatic, heap or thread-local","throughout"),
  ("constants and tables are read-only","libbid/bid_decimal_data.c, libbid/bid_convert_data.c"),
  ("global printf registration state is written only by the constructor","printf-hooks/printf_dfp.c")],
 [("writable library globals","pa_d32/64/128, mod_H/D/DD and the getround callback: fixed after load","printf-hooks/printf_dfp.c")],
 ["result bits, output parameters and produced text of every call"])

p("C04","Floating-point exception flags are sticky, complete and per thread",
 "A libdfp call never clears an exception flag that was raised before it, raises the same set of flags whatever was raised or computed before and whatever other threads do, and never raises one in another thread. "
 "The operators + - * /, the conversions between decimal formats and strtod/wcstod raise exactly the flags IEEE 754 requires: invalid, division by zero, overflow together with inexact, underflow (tininess judged before rounding) together with inexact, inexact, and none for an exact result. A math function raises invalid for a domain error, divide-by-zero for a pole, and neither of them without its cause; no other operation raises invalid, divide-by-zero or overflow without its cause.",
 ["histories","schedules","inputs"],
 "Every sequence of calls, flag clears and flag raises in any number of threads, every operand.",
 "The suite tests each exception once, starting from cleared flags in a single thread (two of those tests are known to fail); stickiness, combination and isolation need histories.",
 ["libbid/bid_decimal_globals.c","libbid/bid_gcc_intrinsics.h","include/ieee754r_private.h","ieee754r/","sysdeps/soft-dfp/bid"],
 [("status-to-fenv translation at the end of every operator","libbid/bid_decimal_globals.c __dfp_set_status"),
  ("DFP_EXCEPT / feraiseexcept in math wrappers","include/ieee754r_private.h, ieee754r/*.c")],
 [("_IDEC_glbflags","thread's accumulated decimal status","libbid/bid_decimal_globals.c"),("MXCSR / x87 status","the thread's fenv flags","hardware")],
 ["fetestexcept before and after every call"])

p("C05","errno is per thread, never cleared, and set only by the call's own outcome",
 "A call that does not fail leaves errno exactly as it was; a call that reports a domain, pole or range error (or an out-of-range or failed parse) sets errno to the same value whatever errno held before, and no call ever sets errno to zero. "
 "Calls in other threads and nested calls never change the thread's errno.",
 ["histories","schedules","inputs"],
 "Every exported function, operand class, prior errno value and interleaving.",
 "Tests set errno to 0, make one call and look; a save/restore of the wrong value, a clear, or an internal libc call that leaks its errno only shows with other prior values and longer histories.",
 ["include/ieee754r_private.h","ieee754r/","base-math/","stdlib/strtod32.c","stdlib/strfromd32.c"],
 [("DFP_ERRNO in math wrappers","include/ieee754r_private.h"),("__set_errno(ERANGE) in the parser","stdlib/strtod32.c")],
 [("errno","thread-local error indicator","libc")],
 ["errno before and after every call"])

p("C06","Formatted output on a failing stream: right prefix, honest return value",
 "printf_dfp on a byte or wide stream whose device rejects, truncates, delays or interrupts writes at any byte delivers an exact prefix of the text it produces on a healthy stream: no byte is skipped, repeated or written after the first failure. "
 "It returns a negative value if any byte was refused and otherwise the exact number of characters produced, for finite values, infinities and NaNs alike; fprintf and snprintf of decimal values report the matching total. A field width pads the text to exactly that many characters when it would be shorter, in front of it, behind it, or with zeros after the sign, as the flags ask.",
 ["fault_sequences","inputs","configurations"],
 "Every byte position at which the device fails (once or for good), every buffering mode, every conversion, flag, width and precision, every value.",
 "Tests print to healthy in-memory buffers only; each of the many output points has its own failure check.",
 ["printf-hooks/printf_dfp.c"],
 [("every character goes through a checked putc","printf-hooks/printf_dfp.c outchar, PADN"),("running count of characters","printf-hooks/printf_dfp.c done")],
 [("FILE buffer and error flag","the caller's stream","libc")],
 ["bytes accepted by the device","return value","ferror"])

p("C07","C++ stream insertion and extraction survive any chunking, EOF or error",
 "operator>> for decimal32/64/128 skips leading white space, consumes exactly one white-space-delimited token however the buffer delivers it, stores the strtod value of that token, sets failbit when the token is no complete number (or is missing) and leaves the rest of the stream to the next extraction. "
 "operator<< inserts exactly the text printf produces for the stream's format, width and precision, of any length; a stream buffer that fails, throws or hits EOF at any byte yields badbit/eofbit/failbit (or the exception the mask asks for), a delivered prefix, and no access outside the text.",
 ["fault_sequences","inputs","histories"],
 "Every way of splitting the input into buffer refills, every EOF and failure position, every exception mask, every sequence of extractions and insertions.",
 "test-istream and test-ostream use one whole stringstream holding one short number and never look at the stream state.",
 ["dfp/decimal/decimal"],
 [("token extraction and conversion","dfp/decimal/decimal operator>>"),("formatting through printf then string insertion","dfp/decimal/decimal decimal_to_string")],
 [("stream state","iostate, position, width","caller's stream")],
 ["extracted value, stream state and remaining characters","characters accepted by the stream buffer"])

p("C08","A failed allocation is contained in the call that met it",
 "If any memory allocation or locale object a call needs cannot be obtained, at any point of the call, the call still returns: either with exactly the result it would otherwise give, or with a visible failure (NaN for numeric results; no conversion or a non-positive count with errno ENOMEM for text), never with a wrong finite value and never by crashing. "
 "It leaves rounding mode and earlier exception flags intact, and every later call works as if nothing had happened.",
 ["fault_sequences","inputs","histories"],
 "Every allocation made anywhere inside any exported call, failing alone, in bursts or for good, for every operand.",
 "Tests never make an allocation fail, and large-precision heap paths in the decimal kernel are rarely taken at all.",
 ["libdecnumber/decNumber.c","decNumberMath/decNumberMath.c","stdlib/strtod32.c","stdlib/strfromd32.c","ieee754r/"],
 [("insufficient-storage status after each heap allocation","libdecnumber/decNumber.c, decNumberMath/decNumberMath.c"),
  ("fallback when the locale object or memory stream cannot be had","stdlib/strtod32.c, stdlib/strfromd32.c")],
 [("temporary heap storage","owned by one call","libdecnumber/decNumber.c")],
 ["result, errno, rounding mode, flags after the call, and results of the following calls"])

p("C09","Repeated calls never accumulate memory, streams or locale objects",
 "Every exported call releases, before it returns, all heap memory, memory streams and locale objects it acquired, on every return path: success, special values, unparsable or out-of-range text, truncation, and failed inner allocations. "
 "So repeating any history of calls, in any threads, does not grow the process, and nothing is released twice or used after release.",
 ["histories","fault_sequences","inputs"],
 "Every call repeated any number of times, on every return path, with and without failing allocations, in any locale.",
 "Each test process is short-lived and never measures what a call leaves behind; parsers with a release before each of a dozen returns leak on one path only.",
 ["stdlib/strtod32.c","stdlib/strfromd32.c","libdecnumber/decNumber.c","decNumberMath/decNumberMath.c","ieee754r/"],
 [("freelocale on each return of the parser","stdlib/strtod32.c"),("fclose of the memory stream","stdlib/strfromd32.c"),("single clean-up block freeing temporaries","libdecnumber/decNumber.c")],
 [("live allocations","bytes and blocks owned by the library","heap")],
 ["balance of allocations and releases across each call"])

p("C10","Parsing and printing follow the calling thread's locale as of that call",
 "strtod/wcstod, strfrom and printf use the decimal point (and for grouped printing the separator) of the locale in force for the calling thread at that call: its own uselocale setting, or else the global locale. "
 "A locale chosen in another thread, used in an earlier call, or since freed never influences a result, and no call changes the thread's or the process's locale.",
 ["schedules","histories","configurations"],
 "Every history of uselocale/setlocale/newlocale/freelocale in any threads interleaved with parsing and printing calls, every text.",
 "Tests run in one locale per process; stale cached separators and cross-thread locale leaks need a history of changes.",
 ["stdlib/strtod32.c","stdlib/wcstod32.c","printf-hooks/printf_dfp.c","stdlib/strfromd32.c"],
 [("separators are looked up afresh on every call","stdlib/strtod32.c, printf-hooks/printf_dfp.c nl_langinfo"),("temporary locale objects are private to the call","stdlib/strtod32.c newlocale/freelocale")],
 [("thread locale / global locale","libc's current locale","libc")],
 ["parsed value and end pointer, printed text, uselocale(0) and setlocale(LC_ALL,NULL) after each call"])

p("C11","A signal handler may use libdfp at any instant of an interrupted call",
 "If a signal interrupts a libdfp call at any instruction of the library and its handler makes libdfp calls of its own (setting the rounding mode it wants and restoring mode, flags and errno as handlers do), the handler's calls give their normal results and the interrupted call then completes with exactly the result, output and mode it would have had uninterrupted.",
 ["schedules","inputs"],
 "Every instruction boundary of the library in every call, every call made by the handler, nesting included.",
 "No test delivers a signal; thread-local scratch space is safe against threads but not against re-entry on the same thread.",
 ["libbid/bid_decimal_globals.c","printf-hooks/printf_dfp.c","libdecnumber/decNumber.c","stdlib/strtod32.c","ieee754r/"],
 [("scratch storage is automatic or heap, never static or per thread","throughout"),("the thread's mode is changed only around short sections and restored to the value saved","sysdeps/generic/dfp_inline.h")],
 [("_IDEC_glbround, _IDEC_glbflags","the only per-thread library state","libbid/bid_decimal_globals.c")],
 ["result of the interrupted call and of the nested calls"])

p("C12","printf support keeps working however often and when it is registered",
 "Decimal formatting (printf with the H, D and DD modifiers, and strfrom) gives the same text at any point of the life of the process: right after load, after any number of further register_printf_dfp calls, after other libraries register modifiers, types or specifiers of their own, whatever other conversions stand in the same format, and in every thread; loading and unloading the library, however often, leaves printf working. "
 "If registration cannot be completed, register_printf_dfp reports it and strfrom and earlier registered conversions keep working.",
 ["histories","fault_sequences","configurations"],
 "Every history of registrations by libdfp and by other code, failures of the registration calls included, interleaved with formatting calls.",
 "The suite relies on the single registration done at load and never repeats or fails it.",
 ["printf-hooks/printf_dfp.c","printf-hooks/init_dfp.c"],
 [("constructor registers modifiers, types and specifiers once","printf-hooks/init_dfp.c, printf-hooks/printf_dfp.c register_printf_dfp"),("defaults that let strfrom work unregistered","printf-hooks/printf_dfp.c mod_H/mod_D/mod_DD")],
 [("mod_H, mod_D, mod_DD, pa_d32, pa_d64, pa_d128","bits and argument types obtained from libc","printf-hooks/printf_dfp.c")],
 ["text and count of snprintf, printf_dfp and strfrom after each registration"])

p("C13","strfrom never writes past n and reports the untruncated length",
 "strfromd32/64/128(s, n, fmt, x) never touches a byte outside s[0..n), stores the longest prefix of the full text that fits followed by a null byte when n > 0, and returns the length of the full text, which depends only on fmt, x, the rounding mode and the locale: not on n, on what the buffer held, or on earlier calls.",
 ["inputs","fault_sequences","histories"],
 "Every buffer size as the point where the memory device fills up, every format and value, including texts longer than any internal stdio buffer.",
 "test-strfrom uses ample buffers with short texts; the device-full point is a parameter of the fault space.",
 ["stdlib/strfromd32.c","stdlib/strfromd64.c","stdlib/strfromd128.c","printf-hooks/printf_dfp.c"],
 [("output goes to a bounded memory stream","stdlib/strfromd32.c")],
 [("s[0..n)","caller's buffer","caller")],
 ["bytes in and around the buffer, return value"])

p("C14","A call's result does not depend on the calls made before it",
 "Within one thread, the result, output parameters, text and raised flags of a call depend only on its arguments, the rounding mode and the locale in force: they are the same as the first call of a fresh process whatever sequence of successful, failing, out-of-memory or interrupted calls, mode changes, errno values, raised flags and stack or heap contents came before.",
 ["histories","fault_sequences","inputs"],
 "Every history of calls and faults before a call, every content of stack and recycled heap memory.",
 "Each table entry of the suite is checked once in a fixed order; memo tables, lazily filled constants, stale thread state and reads of uninitialised storage give right answers in that order.",
 ["libbid/","libdecnumber/decNumber.c","decNumberMath/decNumberMath.c","ieee754r/","base-math/","stdlib/","printf-hooks/printf_dfp.c"],
 [("functions are stateless but for mode and flags","throughout"),("every local is initialised before use","throughout")],
 [("_IDEC_glbround, _IDEC_glbflags","the only state carried between calls","libbid/bid_decimal_globals.c")],
 ["results of a call placed after different histories"])

N="No schedule, time, I/O, fault or history enters it: the result is a pure function of the arguments, so there is nothing for a simulator to decide."
def n(id,title,statement,files,text,why,mech):
    p(id,title,statement,["inputs"],text,why,files,[(mech,files[0])])
n("N01","Elementary functions are accurate to the documented ulp bound",
 "exp, log, pow, trigonometric, hyperbolic, gamma, erf, cbrt, hypot and sqrt return a value within the accuracy documented for the type for every finite argument, and the specified special values for infinities, NaNs and zeros.",
 ["ieee754r/","decNumberMath/decNumberMath.c"],"Every argument.","The ulp tables sample a few dozen points per function.","decNumber kernels with extra working precision")
n("N02","Decimal text round-trips through parse and format",
 "Formatting any finite decimal value with %a and parsing the text back gives the same value and quantum, and parsing any decimal text that fits the precision is exact.",
 ["stdlib/strtod32.c","printf-hooks/printf_dfp.c"],"Every finite value of each type.","Tests compare a list of literals.","digit extraction and digit-wise accumulation")
n("N03","Classification, comparison and sign operations follow IEEE 754",
 "fpclassify, isnan, isinf, isnormal, issignaling, signbit, copysign, fmin/fmax and the quiet comparisons follow IEEE 754-2008 for every bit pattern, non-canonical encodings included.",
 ["ieee754r/fpclassifyd32.c","ieee754r/issignalingd32.c"],"Every bit pattern.","Tables list a few patterns.","bit-level inspection of the encoding")
n("N04","Conversions to integers truncate exactly and report what does not fit",
 "Conversions from decimal floating point to integers return the truncated value for every operand in range and raise invalid for every other.",
 ["libbid/","ieee754r/"],"Every operand.","test-type-conversions samples values.","fix* conversions in the BID library")
n("N05","Quantum exponent of every result is the preferred exponent",
 "quantum, samequantum, llquantexp and every arithmetic result carry the preferred exponent that IEEE 754-2008 assigns to the operation.",
 ["ieee754r/quantumd32.c","libbid/"],"Every operand.","Sampled by tables.","exponent handling in each BID routine")
n("N06","decoded and left-justify/setexp helpers preserve the value",
 "decoded32/64/128 prints sign, digits and exponent that denote exactly the encoded value, in the declared buffer size, for every bit pattern.",
 ["sysdeps/bid/decode.c","include/decode.h"],"Every bit pattern.","test-decode samples values.","digit extraction")
n("N07","nextafter, nextup and nextdown step to the adjacent value",
 "nextup(x) is the least value greater than x and nextdown(x) the greatest less than x, nextafter and nexttoward move one step toward the target, for every representable x across cohort, subnormal and overflow boundaries.",
 ["ieee754r/nextupd32.c","ieee754r/nextafterd32.c"],"Every operand pair.","Tables sample boundaries.","directed-rounding addition of a tiny value")
n("N08","The exported ABI contains every documented symbol with its version",
 "Every symbol of the released version map stays exported with its version and headers declare what the library exports.",
 ["Versions","dfp/math.h"],"Every symbol.","The symlist test covers one configuration.","linker version script")

os.chdir(os.path.dirname(os.path.abspath(__file__))+"/..")
with open("properties.jsonl","w") as f:
    for q in P: f.write(json.dumps(q,ensure_ascii=False)+"\n")
for q in P:
    assert len(q["title"])<=80,q["id"]
print(len(P))
