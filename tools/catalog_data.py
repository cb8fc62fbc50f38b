"""The property table. claim(...) entries are decided by a check; na(...) entries are not."""
BASE = ('Proof for every input over the LLVM IR of the real headers: every postcondition, every assert in the code and '
        'every undefined-behaviour trap is an obligation. Trusted: clang front end, the VC generator, z3/cvc5. ')


def fill(p):
    p('C01', 'uint128_t addition, subtraction, multiplication are exact modulo 2^128',
      'For all 128-bit values x and y, x + y, x - y, -x, x * y, the compound assignments and the increments and decrements '
      'give exactly the integer result modulo 2^128, with carries and borrows propagated between the two words. Compound '
      'and prefix forms return the object itself; postfix forms return the old value.',
      'inputs', 'every pair of 128-bit operands', 'There are 2^256 operand pairs; the test samples a few fixed and random ones.',
      'uint128_t.h uint_t.h', [('operators + - * ++ --', 'uint128_t.h')],
      note=BASE + 'Operands are unrestricted.')
    p('C02', 'uint128_t division and remainder are the Euclidean ones',
      'For all 128-bit x and every non-zero y, x / y is floor(x / y) and x % y is the remainder: x = q * y + r with r < y. '
      'Division or remainder by zero throws division_by_zero_error.',
      'inputs', 'every pair of 128-bit operands', 'Long division has 128 data-dependent steps; tests take one path through them per sample.',
      'uint128_t.h', [('long division loop of operators / and %', 'uint128_t.h')],
      note=BASE + 'The 128 iterations are verified as a chain of inductive steps with the invariant q*y + r == leading bits of x.')
    p('C03', 'uint128_t bit operations, shifts, comparisons and integer conversions',
      'For all 128-bit x and y: &, |, ^, ~ and ! act on all 128 bits; << and >> by any amount s < 128 multiply or divide by 2^s '
      'modulo 2^128; the six comparisons agree with the numeric order. Construction or assignment from an unsigned integer keeps the value and '
      'demote_integer keeps the low bits (to bool: whether the value is non-zero).',
      'inputs', 'all operands and all shift amounts below 128', 'Shift amounts at and around the 64-bit word boundary times all operand values cannot be enumerated.',
      'uint128_t.h integer_demotion.h', [('operators << >> & | ^ ~ == <', 'uint128_t.h'), ('demote_integer', 'integer_demotion.h')],
      note=BASE)
    p('C04', 'uint_t addition, subtraction, multiplication are exact modulo 2^N',
      'For every bit width N and block type, and all operands, uint_t +, -, unary -, *, ++, -- and the compound forms give the integer '
      'result modulo 2^N, also when the operands alias. All bits at or above N in the last block stay zero. multHiLo returns the full double-width product.',
      'inputs configurations', 'all operands, for a family of widths: single and multiple blocks, exact and partial last block, 8/16/32/64-bit blocks',
      'Carry chains across blocks and partial last blocks depend on all operand bits; tests sample random operands of a few widths.',
      'uint_t.h', [('operators + - *, increment_, decrement_', 'uint_t.h'), ('clear_unused_bits_', 'uint_t.h')],
      state=[('m_blocks', 'little-endian blocks; bits N.. of the last one are zero', 'uint_t.h')],
      note=BASE + 'Templates are proved per instantiation (listed in the spec); widths not instantiated are not covered. Loops over blocks have compile-time bounds and are unrolled completely.')
    p('C05', 'uint_t bit operations, shifts, comparisons and single-bit access',
      'For every bit width N and block type: &, |, ^, ~, !, comparisons, copy and move act on exactly N bits and keep unused bits zero; shifts by any amount '
      'below N (as integer or uint_t) multiply or divide by 2^s modulo 2^N. Reading or writing bit i through operator[] affects exactly bit i.',
      'inputs configurations', 'all operands and all shift amounts and indices below N, for a family of widths and block types',
      'Every (amount, width, block size) combination has its own word/bit split; tests sample few.',
      'uint_t.h', [('operators << >>, shift_blocks_left_/right_', 'uint_t.h'), ('bit_reference', 'uint_t.h')],
      note=BASE + 'Templates proved per listed instantiation; shift amounts and indices enumerated completely.')
    p('C06', 'uint_t conversions keep the value modulo 2^N',
      'Constructing or assigning uint_t from an unsigned (or non-negative signed) integer, uint128_t, another uint_t of any width, or a block generator '
      'yields that value modulo 2^N with unused bits zero. demote_integer to a smaller integer, uint_t, uint128_t or bool keeps exactly the low bits (bool: non-zero test).',
      'inputs configurations', 'all source values, for a family of source and destination types',
      'Source and destination block sizes combine in many ways with word-crossing copies; tests cover a few pairs.',
      'uint_t.h integer_demotion.h', [('copy_bits_, constructor_', 'uint_t.h'), ('demote, demote_to_other_uint_t', 'uint_t.h')],
      note=BASE + 'Templates proved per listed instantiation. Little-endian host. Negative signed sources are outside the property.')
    p('C07', 'uint_t division and remainder are the Euclidean ones',
      'For every bit width N and block type, all x and every non-zero y: divMod(x, y) gives quotient q and remainder r with x = q * y + r and '
      'r < y, unused bits zero; x / y and x % y and the compound forms agree with it. Division or remainder by zero throws division_by_zero_error.',
      'inputs configurations', 'all operand pairs, for a family of widths and block types',
      'Each quotient bit depends on a comparison over all blocks; tests divide a few random pairs of a few widths.',
      'uint_t.h', [('divMod, operators / and %', 'uint_t.h')],
      note=BASE + 'Templates proved per listed instantiation. Long division is an induction with invariant q*y + r == leading bits of x; '
      'the operators it is built from are replaced there by their contracts, which C04/C05 prove for these instantiations.')
    p('C08', 'Printing uint128_t and uint_t gives the exact positional notation',
      'operator<< on a std::ostream writes for every value exactly its digits in the base selected by the stream (decimal, hex, octal), '
      'most significant first, without leading zeros, in the selected letter case, with a leading plus sign for a non-zero value when showpos is set, '
      'and 0 for zero; it never writes outside its digit buffer and returns the stream.',
      'inputs configurations', 'all values, the three bases, both cases, showpos on and off, for a family of widths',
      'Digit count and buffer position depend on the value; tests print few values.',
      'uint128_t.h uint_t.h', [('operator<<, digit buffer', 'uint128_t.h'), ('operator<<, static digit buffer', 'uint_t.h')],
      note=BASE + 'std::ostream is replaced by a contract stub recording the characters written. divMod and comparisons are replaced by their contracts (C02, C05, C07). '
      'uint_t widths up to 128 bits; the heap digit buffer for N > 765 is not covered.')
    p('C15', 'PackedStruct fields lie back to back in declaration order',
      'In a PackedStruct<Ts...> (and through PackedStructAccessor / ConstPackedStructAccessor over any, also unaligned, address) field I occupies exactly the '
      'bytes [sum of sizeof of the preceding fields, + sizeof(field I)). get, set, ref, ptr and voidPtr of field I all designate those bytes, '
      'a write to one field changes no other byte, size() is the sum of the field sizes, and copies, == and != act on all bytes.',
      'inputs configurations', 'all byte contents, values and offsets, for a family of field lists', 'Every field list has its own offsets and every write must leave all other bytes alone; the test uses one list and few values.',
      'PackedStruct.h PackedStructAccessor.h ConstPackedStructAccessor.h PackingInfo.h',
      [('ElemOffset, sizeInBytes', 'PackingInfo.h'), ('get/set/ref/ptr', 'PackedStruct.h'), ('accessors', 'PackedStructAccessor.h')],
      note=BASE + 'Templates proved per listed field list. ptr/ref/voidPtr of the mutable PackedStructAccessor are ambiguous overloads that cannot be called and are not covered.')
    p('C16', 'DynamicPackedStruct: run-time sized fields in one exactly sized allocation',
      'A DynamicPackedStruct with any run-time sizes (no arithmetic overflow) owns one allocation of exactly size() bytes, the sum of all field sizes; field I starts at the sum of the preceding '
      'sizes. Reads and writes of a field or a vector element touch only its bytes. Copying duplicates layout and bytes into separate storage, moving transfers the storage, '
      'assignment works for any two sizes and for self-assignment, a failed allocation leaks nothing and leaves the target as it was, and every allocation is freed once. validSizes checks exactly the declared bounds.',
      'inputs configurations histories', 'all sizes below 2^32, all contents, for a family of field lists; every allocation may fail', 'Offsets depend on run-time sizes, and ownership on every copy/move/failure path; tests use a few fixed sizes and no allocation failure.',
      'DynamicPackedStruct.h DynamicPackingInfo.h MaybeDynamicPackedStruct.h',
      [('copy/move/assignment', 'DynamicPackedStruct.h'), ('elemOffset, sizeInBytes, validSizes', 'DynamicPackingInfo.h')],
      note=BASE + 'Templates proved per listed field list; dynamic sizes unbounded below 2^32; malloc/free are contracts.')
    p('C17', 'Unaligned references and pointers access exactly the addressed object',
      'UnalignedReference<T>, ConstUnalignedReference<T> and UnalignedPointer<T> read and write exactly the sizeof(T) bytes at their address, whatever its alignment; assignment converts the '
      'assigned value to T; compound assignments equal the operation on T. Pointer arithmetic, indexing, difference and comparison move in units of sizeof(T) as for a T*.',
      'inputs configurations', 'all addresses in a buffer of any length, all values and index distances', 'Behaviour depends on alignment, distance and converted value; no test covers these headers.',
      'UnalignedReference.h UnalignedPointer.h ConstUnalignedReference.h', [('operator=, compound assignment', 'UnalignedReference.h'), ('arithmetic, difference', 'UnalignedPointer.h')],
      note=BASE + 'Types: 8..64-bit integers and a trivially copyable struct with padding.')
    p('C18', 'Integral comparisons agree with mathematical order for every pair of types',
      'integralLess, LessEqual, Equal, NotEqual, GreaterEqual, Greater (and the LessThan/GreaterThan names) of values of any two integral types, and integralPositive, Negative, NonNegative, NonPositive, Zero, NonZero, '
      'give the result of comparing the mathematical integers, whatever the signedness and width.',
      'inputs', 'all values of all 15 x 15 pairs of integral types', 'The usual conversions go wrong only at sign and width boundaries of particular pairs; tests sample values.',
      'IntegralComparisons.h', [('integralLess and friends', 'IntegralComparisons.h')], note=BASE)
    p('C19', 'Integer helpers: isPowerOfTwo, min, max, sign conversions, enum conversion',
      'isPowerOfTwo(x) is true exactly for the powers of two; min and max return the least and greatest of their arguments; toSigned/toUnsigned/signedToUnsigned give the value '
      'congruent modulo 2^w and the identity for a type of that signedness; enumToUnderlying keeps the value.',
      'inputs', 'all values of all built-in integer types', 'Boundary values (zero, minimum, sign bit) of each type; tests sample constants.',
      'IsPowerOfTwo.h Min.h Max.h ToSigned.h ToUnsigned.h SignedToUnsigned.h EnumToUnderlying.h', [('isPowerOfTwo', 'IsPowerOfTwo.h'), ('min', 'Min.h'), ('max', 'Max.h')], note=BASE)
    p('C13', 'BasicStringView agrees with the character sequence it views',
      'For every view, argument and position: accessors, iterators, substr, remove_prefix/suffix, copy, comparisons (lexicographic by Traits), find, rfind and the four find_*_of searches, '
      'startsWith/endsWith, swap and conversion to std::basic_string give exactly what the standard std::basic_string operation gives on that character sequence, npos and end positions included, '
      'never read outside it, and throw out_of_range exactly when a start position exceeds the size. operator<< writes exactly the characters, padded to the stream width with its fill on the side adjustfield selects.',
      'inputs', 'all contents, lengths and positions, for character types of 1, 2 and 4 bytes and a user Traits', 'Boundary positions and lengths combine without limit; the test uses a few literals.',
      'StringView.h', [('find family, compare, substr', 'StringView.h'), ('operator<<', 'StringView.h')],
      note=BASE + 'Lengths unbounded. memcmp/memchr/strlen are contracts. For output a negative stream width is excluded (an existing test fixes that it prints nothing).')
    p('C14', 'split visits exactly the fields between delimiters, in order',
      'split calls the action once per maximal delimiter-free field in order, empty fields included (an empty sequence is one empty field); splitNoAllowEmpty does so once per non-empty field. '
      'Every non-delimiter position lies in exactly one field, a field ends at a delimiter or the end, and nothing outside the range is read.',
      'inputs', 'all sequences of any length and all delimiter predicates', 'Where delimiters sit (at the ends, doubled, absent) decides every branch; tests use a few strings.',
      'Split.h', [('split, splitNoAllowEmpty', 'Split.h')], note=BASE + 'Sequences of unbounded length; loops cut at inductive invariants.')
    p('C20', 'Flags are bit sets, and every AtomicFlags operation is one atomic step',
      'Flags set, unset, toggle, exchange and the has* queries act on exactly the given bits, whatever the underlying type. Each AtomicFlags operation performs a single atomic access with the memory order asked for, '
      'so under any interference by other threads it has its sequential effect on the value it found, and returns what that value implies.',
      'inputs schedules', 'all flag values and arguments, 8..64-bit types, arbitrary interference before every atomic access', 'An operation split in two accesses fails only under a particular interleaving; no test covers it.',
      'Flags.h AtomicFlags.h', [('hasAllOf, toggleFlags', 'Flags.h'), ('fetch_* operations', 'AtomicFlags.h')],
      note=BASE + 'Interference is a rely condition: the atomic word may change arbitrarily between accesses. AtomicFlags::has cannot be instantiated and is not covered.')
    p('C11', 'CircBufferSCSP is a bounded first-in first-out queue',
      'For every capacity, offset and fill: write stores as many of the given elements as fit, behind those already queued, and returns that number; read delivers the oldest elements in order and removes exactly '
      'those it returns; spaceAvailable, dataAvailable, full, empty, the until-buffer-end variants, haveRead, haveWritten and the actor forms agree with that queue; nothing outside the storage array is touched.',
      'inputs histories', 'all capacities, offsets, fills, contents and request sizes', 'Wrap-around positions and exact fits combine without limit; tests use few sizes.',
      'CircBufferSCSP.h', [('operate, haveRead, haveWritten', 'CircBufferSCSP.h')], state=[('m_readOffset, m_writeOffset, count', 'position and fill of the ring', 'CircBufferSCSP.h')],
      note=BASE + 'Sequential use (CircBufferNoLocking); element types of 1 and 4 bytes. The concurrent guarantee is C12.')
    p('C12', 'CircBufferSCSP is safe between one producer and one consumer thread',
      'With one producer and one consumer thread under any interleaving: each side touches its own offset, only slots it owns (free ones for the producer, queued ones for the consumer), and the shared counter only '
      'under the lock; elements are complete before they become visible, come out in order and are copied before their slots are given back; waits end only when there is something to do; every change is notified.',
      'schedules inputs', 'all interleavings of the two sides at lock granularity, all capacities, fills and sizes', 'A slot published or released one step too early is only visible under a particular interleaving.',
      'CircBufferSCSP.h', [('locking', 'CircBufferSCSP.h'), ('operate', 'CircBufferSCSP.h')], state=[('m_dataAvailable', 'number of published elements, guarded by the mutex', 'CircBufferSCSP.h')],
      note=BASE + 'Rely/guarantee: each side is verified against every action the other may take while the lock is free. The loops are verified over a locking which is the contract proved for CircBufferScspLocking. '
      'std::mutex, std::condition_variable and clocks are contracts (include/vc_sync.h).')

    p('C09', 'BitVec is a sequence of bits, whatever its block type and its spare bits',
      'For every size and content: reading and writing a bit through at, [], front, back and bit references acts on exactly that bit; at throws exactly when the index is out of range; push_back, pop_back, '
      'resize, clear, swap, construction, moves and append give the corresponding bit sequence; set, reset, flip, assign, &, | and ^ act bit by bit on all bits and leave operands alone; two vectors are equal '
      'exactly when they have the same size and bits, whatever the unused bits of the last block hold.',
      'inputs configurations', 'all sizes, contents (unused bits included), indices and arguments, blocks of 8, 32 and 64 bits', 'Sizes at and off block boundaries and stale unused bits combine without limit; no test covers this header.',
      'BitVector.h', [('append, resize, push_back', 'BitVector.h'), ('comparison', 'BitVector.h')], state=[('m_num_bits, m_blocks', 'the number of bits and their blocks', 'BitVector.h')],
      note=BASE + 'The container of blocks (std::vector) is a contract; appending a vector to itself is excluded.')
    p('C22', 'Latch and SimpleWait: no lost wake-up, and their effects happen under the lock',
      'Latch and SimpleWait signal exactly what they promise: a wait returns only when its condition holds, every change a waiter may depend on is made under the mutex and followed by a notification of all who may be '
      'waiting, the mutex is held at every access to the shared state and released at the end, whatever the other threads do meanwhile.',
      'schedules', 'all interleavings at lock granularity, all counter and state values', 'A notification lost or a state read outside the lock shows only under a particular interleaving; no test covers these headers.',
      'Latch.h SimpleWait.h', [('countDown, wait', 'Latch.h'), ('notify and wait functions', 'SimpleWait.h')],
      note=BASE + 'Interference is a rely condition applied whenever the lock is taken or a wait returns; std::mutex and std::condition_variable are contracts (include/vc_sync.h).')
    p('C27', 'FileDescriptor owns its descriptor; system calls are retried and errors reported',
      'Every descriptor a FileDescriptor owns is closed exactly once, by its destructor, close, assignment or replacement, and no other; moves and releases transfer it; duplicate and write/read retry interrupted '
      'calls. syscallLoop repeats a call exactly while it fails with EINTR or EAGAIN and otherwise returns its result or throws with the saved errno nested; fcntlAdd* set exactly the requested flags in addition to the present ones.',
      'inputs faults histories', 'all descriptors, flags and errno values, and every sequence of results of the system calls', 'Failures and interruptions of system calls at every point cannot be produced by a test.',
      'FileDescriptor.h Posix.h Exception.h', [('close, assignment, duplicate', 'FileDescriptor.h'), ('syscallLoop, fcntlAdd*', 'Posix.h')],
      note=BASE + 'The system calls are contracts: any result, any errno; their names are redirected by macros.')
    p('C28', 'AlignedAllocator, UninitializedDynamicArray give exactly the storage asked for',
      'AlignedAllocator::allocate(n) returns storage of at least n * sizeof(T) bytes aligned as asked or throws bad_alloc, also when the size overflows or memory is exhausted, and deallocate frees it; '
      'UninitializedDynamicArray owns storage for exactly the given number of elements, accesses stay inside it, moves transfer and swap exchanges it, and it is freed exactly once.',
      'inputs faults histories', 'all element counts up to the maximum, every allocation may fail', 'Overflow and allocation failure are out of reach for tests; no test covers these headers.',
      'AlignedAllocator.h UninitializedDynamicArray.h', [('allocate, deallocate', 'AlignedAllocator.h'), ('ownership', 'UninitializedDynamicArray.h')],
      note=BASE + 'posix_memalign/malloc/free are contracts.')
    p('C29', 'CallStack, ScopeExit and throwNested: thread-local scopes, exits and nesting',
      'While a CallStack context lives it is the top of its stack, the previous top reappears when it ends, contains finds exactly the live keys with their values; a scope exit guard runs its '
      'action exactly once when the scope is left, by return or exception; throwNested and throwWithNested throw the outer exception with the inner one nested in it.',
      'inputs histories', 'all keys and values, stacks to depth 3 for contains (bounded), all exits', 'Nesting orders and exceptional exits combine; tests follow a few.',
      'CallStack.h ScopeExit.h ThrowNested.h ThrowWithNested.h', [('Context', 'CallStack.h'), ('guards', 'ScopeExit.h'), ('nesting', 'ThrowNested.h')],
      note=BASE + 'CallStack::contains is proved for stacks of depth up to 3 (bounded part).')
