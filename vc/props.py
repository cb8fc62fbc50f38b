"""Registry: property id -> specification translation units and settings."""
PROPS = {
    'C01': dict(specs=['uint128_arith.cpp']),
    'C02': dict(specs=['uint128_div.cpp', 'uint128_div_ops.cpp'], budget=dict(quick=540, thorough=680)),
    'C03': dict(specs=['uint128_bits.cpp']),
    'C04': dict(specs=['uint_arith.cpp'], thorough_specs=['uint_arith_big.cpp']),
    'C05': dict(specs=['uint_bits.cpp']),
    'C06': dict(specs=['uint_conv.cpp']),
    'C07': dict(specs=['uint_div.cpp', 'uint_div_ops.cpp']),
    'C08': dict(specs=['uint_print.cpp'], stubs=['ostream_contract']),
    'C17': dict(specs=['unaligned.cpp']),
    'C18': dict(specs=['integral_cmp.cpp']),
    'C19': dict(specs=['int_helpers.cpp']),
    'C15': dict(specs=['packed_struct.cpp']),
    'C16': dict(specs=['dyn_packed_struct.cpp']),
    'C13': dict(specs=['stringview.cpp', 'stringview_out.cpp']),
    'C14': dict(specs=['split.cpp']),
    'C20': dict(specs=['flags.cpp']),
    'C11': dict(specs=['circ_buffer.cpp'], thorough_specs=['circ_buffer_big.cpp']),
    'C22': dict(specs=['latch.cpp']),
    'C27': dict(specs=['file_descriptor.cpp']),
    'C28': dict(specs=['storage.cpp']),
    'C29': dict(specs=['scopes.cpp']),
    'C09': dict(specs=['bitvec.cpp']),
    'C12': dict(specs=['circ_conc.cpp', 'circ_conc_loops.cpp']),
}
