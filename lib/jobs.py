"""Which harness runs decide which property. A job is 'harness:params [@seconds] [+fork] [known=<id>]'."""
QUICK_WALL = 600
QUICK_JOB = 240
THOROUGH_WALL = 6 * 3600
THOROUGH_JOB = 3600

ASSUMPTIONS = [
    'rustc and LLVM 16 translate the sources to IR faithfully; the executor (/verif/engine) implements the LLVM semantics '
    '(cross-checked on every run: sampled symbolic paths are re-run natively and must observe the same values)',
    'z3 and cvc5 are sound',
    'SHA-256 is an uninterpreted function that is injective on the inputs that occur (collision resistance)',
    'code is compiled for a 64-bit target with overflow checks on, so an arithmetic overflow counts as a violation',
]

# crates whose sources have to be generated from /repo first
PREPARE = {}

def rng(h, l, *rest):
    return ['%s:%s' % (h, ','.join(str(y) for y in (x if isinstance(x, tuple) else (x,)))) for x in l]

def hist(h, width, ops, n=14):
    """A history harness: parameter 0 is the width, then the operations; the count is the last of 16."""
    ops = list(ops)
    return '%s:%s' % (h, ','.join(str(x) for x in [width] + ops + [0] * (n - len(ops)) + [len(ops)]))

B = 'h_bitcoin'
PROPS = {
    'C01': dict(crate=B,
        quick=['compact_format'] + rng('compact_parse', range(1, 12)),
        thorough=rng('compact_parse', range(12, 40)),
        bounds='encoder: every length 1..2^64-1; decoder: every buffer of 1..11 bytes (thorough: ..39)',
        outside='nothing for the encoder; longer buffers only add bytes after the integer'),
    'C02': dict(crate=B,
        quick=rng('parse_tx_any', [0, 4, 8, 12, 16, 20, 24]) + rng('parse_tx_input_any', [(12, 0), (20, 0), (24, 0), (12, 1), (20, 1), (24, 1)])
            + rng('parse_header_any', [0, 79, 80, 81]) + rng('parse_proof_any', [0, 4, 10, 40, 70]),
        thorough=rng('parse_tx_any', [32, 40]) + rng('parse_tx_input_any', [(32, 0), (40, 0), (28, 1), (30, 1)]) + rng('parse_proof_any', [80, 100, 120, 200]),
        bounds='transactions: every byte string of up to 24 bytes and every continuation of up to 24 bytes after a fixed first outpoint (thorough: 40); headers: every string of 79..81 bytes; proofs: 80 header bytes and every continuation of up to 70 (thorough: 200) bytes',
        outside='longer strings'),
    'C03': dict(crate=B,
        quick=rng('tx_roundtrip', [(1, 1, 0, 0, 0), (1, 1, 3, 25, 0), (2, 1, 1, 2, 0), (1, 2, 0, 3, 1), (2, 2, 2, 22, 2), (3, 3, 3, 3, 2), (2, 1, 1, 1, 2, 1), (3, 1, 1, 1, 1, 5), (1, 1, 253, 1, 0), (1, 1, 2, 260, 1)])
            + rng('parse_idem', [(1, 8), (1, 14), (1, 18)]),
        thorough=rng('tx_roundtrip', [(4, 4, 4, 4, 3), (5, 1, 0, 34, 0), (1, 5, 107, 34, 2), (8, 8, 1, 1, 1), (1, 260, 0, 1, 0), (254, 1, 0, 1, 0)]) + rng('parse_idem', [(1, 24), (1, 30), (2, 40)]),
        bounds='shapes of up to 3 inputs and outputs with scripts and witnesses of the listed sizes, every content; idempotence: every byte string of the listed sizes after the first outpoint',
        outside='shapes not listed; version other than 1 and 2 (rejected by design); transactions without inputs'),
    'C04': dict(crate=B,
        quick=rng('tx_id', [(1, 1, 0, 0, 0), (1, 1, 3, 25, 0), (2, 2, 2, 22, 2), (2, 1, 1, 1, 2, 1), (1, 3, 0, 34, 1)]) + ['tx_id_binding'],
        thorough=rng('tx_id', [(4, 4, 4, 4, 3), (3, 1, 107, 25, 2), (1, 1, 300, 1, 1)]),
        bounds='the listed shapes (inputs, outputs, script sizes, witness items), every content, every bound',
        outside='other shapes'),
    'C05': dict(crate=B,
        quick=['header_roundtrip', 'header_hash_binds'],
        bounds='every 80-byte header', outside='nothing'),
    'C06': dict(crate=B,
        quick=['nbits_decode', 'nbits_encode'],
        bounds='every 32-bit compact value, every 256-bit target', outside='nothing'),
    'C07': dict(crate=B,
        quick=['retarget:29,1,65535 +fork', 'retarget:28,1,3711 +fork', 'retarget:4,1,8388607 +fork', 'retarget:3,1,32768 +fork',
               'retarget:23,1,983275 +fork', 'retarget:29,2,1200000 +fork', 'retarget:28,2,302400 +fork', 'retarget:4,2,4838399 +fork', 'retarget:3,2,302401 +fork', 'retarget:2 +fork'],
        thorough=['retarget:%d +fork @3000' % e for e in (1, 3, 4, 5, 10, 20, 23, 27, 28, 29)],
        bounds='all pairs of 32-bit times for fixed targets; all 23-bit mantissas of exponents 3, 4, 28, 29 for fixed time differences; exponent 2 with everything symbolic (thorough: both symbolic for ten exponents)',
        outside='other combinations of exponent and mantissa in the quick tier'),
    'C08': dict(crate=B,
        quick=rng('merkle_sound', [(1, 1, 1, 1), (2, 2, 2, 3), (2, 2, 1, 2), (3, 3, 3, 6), (3, 3, 2, 5), (3, 4, 3, 6), (4, 4, 3, 7), (4, 3, 3, 7), (4, 4, 4, 7), (5, 5, 3, 8)])
            + rng('merkle_extract_spec', [(1, 1, 1), (1, 1, 8), (2, 2, 3), (2, 1, 8), (3, 3, 8), (3, 2, 8), (4, 3, 8), (5, 3, 8), (6, 4, 8), (7, 4, 8), (0, 0, 0), (0, 1, 8), (3, 4, 8), (2, 3, 8)]),
        thorough=rng('merkle_sound', [(5, 5, 4, 8), (6, 6, 4, 9), (7, 7, 4, 11), (8, 8, 4, 12)]) + rng('merkle_extract_spec', [(7, 4, 16), (8, 4, 16), (9, 5, 16), (12, 5, 16), (16, 5, 16), (16667, 2, 8)]),
        bounds='blocks of up to 5 (thorough: 8) transactions, proofs with up to 4 hashes and 8 flag bits (thorough: 5 and 16), every content',
        outside='larger blocks; SHA-256 collisions'),
    'C09': dict(crate=B,
        quick=rng('merkle_root_matches', range(1, 10)) + ['merkle_geometry', 'log2_ceiling'] +
            rng('merkle_complete', [(n, i) for n in range(1, 8) for i in range(n)]) + ['block_build:0', 'block_build:1'],
        thorough=rng('merkle_root_matches', [15, 16, 17, 31, 33]) + rng('merkle_complete', [(n, i) for n in (8, 9, 13, 16, 17, 25) for i in (0, n // 2, n - 1)]) + ['block_build:2', 'block_build:3'],
        bounds='blocks of 1..7 transactions, each position (thorough: up to 25); tree geometry: all counts up to 16666',
        outside='larger blocks'),
    'C10': dict(crate=B,
        quick=rng('proof_roundtrip', [(0, 0), (1, 1), (2, 3), (3, 8), (4, 9), (2, 16), (1, 25)]),
        thorough=rng('proof_roundtrip', [(8, 40), (16, 64), (253, 8), (12, 2032)]),
        bounds='the listed numbers of hashes and flag bits, every content', outside='other sizes'),
    'C11': dict(crate=B,
        quick=rng('script_classify', [0, 1, 2, 21, 22, 23, 24, 25, 26, 33, 34, 35]) + rng('address_roundtrip', [(a, b) for a in range(4) for b in range(4)]),
        thorough=rng('script_classify', [x for x in range(3, 60) if x not in (21, 22, 23, 24, 25, 26, 33, 34, 35)]),
        bounds='every script of the listed lengths (all lengths at and next to a standard one; thorough: 0..59); every address of every kind', outside='other script lengths, which no standard form has'),
    'C12': dict(crate=B,
        quick=rng('op_return', [0, 1, 2, 3, 34, 77, 78, 79, 82, 83, 84, 85]) + rng('op_return_build', [0, 1, 32, 75, 76, 80, 81, 82]),
        thorough=rng('op_return', list(range(4, 34)) + list(range(35, 77)) + [80, 81, 100, 200]) + rng('op_return_build', range(2, 81)),
        bounds='every script and payload of the listed lengths', outside='other lengths'),
    'C13': dict(crate=B,
        quick=rng('coinbase_height', [0, 3, 20, 90]) + ['block_build:0'],
        thorough=rng('coinbase_height', range(1, 95)),
        bounds='every height below 2^31, extra script of the listed lengths', outside='heights from 2^31'),
    'C14': dict(crate=B,
        quick=['h256le_endianness', 'log256_ceiling', 'log2_ceiling'],
        bounds='every pair of 32-byte hashes, every 256-bit and 64-bit value', outside='nothing'),
    'C15': dict(crate=B,
        quick=['deposit_key'],
        bounds='every key and request id; elliptic-curve multiplication is an uninterpreted injective function', outside='secp256k1 itself'),
    'C16': dict(crate=B,
        quick=rng('compat_tx', [(1, 1, 0, 0, 0), (1, 1, 2, 25, 1), (2, 2, 3, 4, 2), (2, 1, 1, 1, 1, 2), (1, 3, 1, 34, 0), (3, 1, 107, 22, 2)]) + rng('compat_address', range(4)),
        thorough=rng('compat_tx', [(4, 4, 4, 4, 3), (1, 1, 253, 300, 1)]),
        bounds='the listed shapes, every content', outside='other shapes'),
    'C17': dict(crate=B,
        quick=['vsize:0', 'vsize:1', 'vsize:2'],
        bounds='up to 10000 inputs, 20000 outputs of each kind, 15 keys', outside='OP_RETURN outputs (the estimate is a constant)'),
}

RW = 'h_reward'
PROPS.update({
    'R01': dict(crate=RW, poly=True,
        quick=[hist('reward_hist', 4, o) for o in ((1, 2, 5, 6, 7), (101, 5, 102, 5, 6, 7), (101, 5, 6, 5, 6, 2, 5, 7), (101, 102, 5, 3, 5, 6, 7),
               (101, 102, 5, 108, 5, 7, 109, 5, 6, 7), (101, 102, 5, 5, 5, 5, 6, 7))] + [hist('reward_hist', 8, (1, 2, 3, 4, 8, 9))],
        thorough=[hist('reward_hist', 4, o) + ' @3000' for o in ((101, 2, 105, 8, 5, 6, 7), (1, 5, 6, 1, 6, 3, 6), (5, 1, 5, 3, 5, 1, 5, 6), (1, 5, 2, 5, 6, 7))],
        bounds='histories of up to 10 operations of two participants in one pool; amounts up to 2^32 (stake changes alone: 2^64); in the longer histories the stakes are fixed numbers and the rewards symbolic',
        outside='more participants, larger amounts (the 18-decimal fixed point then overflows by design), other operation orders'),
    'R02': dict(crate=RW, poly=True,
        quick=['reward_share:4', 'reward_late:4'],
        bounds='two participants, every stake and reward below 2^32', outside='more participants, larger amounts'),
    'S01': dict(crate=RW, poly=True,
        quick=[hist('staking_hist', 4, o) for o in ((101, 102, 5, 6, 7, 8), (101, 102, 6, 5, 6, 7, 8), (101, 102, 105, 2, 4), (101, 102, 105, 5, 6, 7, 8), (1, 2, 3, 4))] + [hist('staking_hist', 4, (101, 102, 5, 3)) + ' @150'],
        thorough=[hist('staking_hist', 4, o) + ' @3000' for o in ((101, 102, 5, 4), (101, 102, 5, 2, 5), (1, 2, 5), (101, 102, 5, 3, 4), (1, 2, 6, 7, 8))],
        bounds='histories of up to 7 operations of a vault and one nominator; amounts up to 2^32; where a slash is followed by more operations the deposits are fixed numbers and the slash symbolic',
        outside='more nominators, larger amounts, other orders'),
    'S02': dict(crate=RW, poly=True,
        quick=[hist('staking_hist', 4, o) for o in ((101, 102, 5, 9, 10), (101, 102, 6, 9, 10, 6, 7), (101, 102, 5, 6, 9, 10, 7), (101, 102, 105, 2, 9, 10))],
        bounds='a vault and one nominator, at most one slash, amounts up to 2^32 (deposits fixed)', outside='several refunds in a row, more nominators'),
})

PROPS.update({
    'C18': dict(crate=B,
        quick=rng('scale_address', range(4)) + rng('scale_address_any', [0, 1, 20, 21, 22, 32, 33, 34]) + rng('scale_tx', [(1, 1, 0, 0, 0), (2, 2, 3, 25, 2), (1, 1, 70, 1, 1), (0, 0, 0, 0, 0)])
            + rng('scale_proof', [(0, 0), (2, 3), (3, 9)]) + rng('scale_tx_any', [(12, 0), (16, 0), (12, 1)]),
        thorough=rng('scale_address_any', [x for x in range(2, 40) if x not in (20, 21, 22, 32, 33, 34)]) + rng('scale_tx', [(3, 3, 107, 34, 3), (1, 20, 1, 22, 0)]) + rng('scale_tx_any', [(20, 0), (16, 1), (18, 1)]),
        bounds='every address; every byte string of the listed lengths as an address or transaction; transactions of the listed shapes and proofs of up to 3 hashes and 9 flags, every content',
        outside='other shapes; the SCALE library itself is executed, not assumed'),
    'C19': dict(crate=B,
        quick=rng('hash_hex', [(0, 2), (15, 2), (30, 2)]) + rng('script_hex', [0, 1, 2, 3]) + rng('header_hex', [(0, 2), (4, 2), (35, 2), (67, 2), (74, 2), (78, 2)]),
        thorough=rng('hash_hex', [(i, 2) for i in range(0, 31)]) + rng('script_hex', [4, 5]) + rng('header_hex', [(i, 2) for i in range(0, 79)]),
        bounds='windows of two symbolic bytes at the listed positions, the other bytes fixed; scripts of up to 3 (thorough: 5) bytes',
        outside='all bytes symbolic at once (every digit forks the parser)'),
    'C20': dict(crate=B,
        quick=rng('script_sigs', [0, 1, 71, 72, 73, 74]),
        thorough=rng('script_sigs', range(2, 71)),
        bounds='every key, outpoint and signature of the listed lengths', outside='other signature lengths; whether the signature is valid'),
})
PR = 'h_prim'
LPK = [0, 1, 2]
CK = [0, 1, 2, 4] + list(range(10, 19))
PROPS.update({
    'P01': dict(crate=PR,
        quick=rng('currency_codec', CK) + rng('currency_any', range(0, 13)) + ['token_numbers'] + rng('token_names', range(0, 7)) + rng('vault_ids', [(0, 1), (11, 0), (2, 4)]),
        bounds='every currency; every byte string of up to 12 bytes; every token number; every name of up to 6 bytes', outside='nothing (no encoding or name is longer)'),
    'P02': dict(crate=PR,
        quick=rng('lp_join', [(i, j) for i in (0, 1, 2, 4, 14) for j in (0, 1, 2, 4, 14)]) + rng('lp_sort', [(i, j) for i in LPK for j in LPK]) + rng('sort_others', [0, 1, 2, 4]),
        bounds='every pair of currencies of every kind', outside='nothing'),
    'P03': dict(crate=PR, quick=['to_fixed', 'truncate'], bounds='every 128-bit number', outside='nothing'),
})
SW = 'h_swap'
def swap(*ops):
    return 'swap_once:' + ','.join(str(x) for x in list(ops) + [0] * (15 - len(ops)) + [len(ops)])
PROPS.update({
    'W01': dict(crate=SW,
        quick=rng('swap_pays', [(0, 0), (1, 2), (2, 3), (3, 1)]) + rng('swap_refuses', range(4)),
        thorough=rng('swap_pays', [(a, b) for a in range(4) for b in range(4)]),
        bounds='two open trades with every address, price and amount; every answer of the runtime', outside='more trades; the runtime\'s verification itself (C08, V-series)',
        assumptions=['the contract runs in a stand-in for ink 4 (/verif/ws/shim/ink): storage mapping, balance, transfers and the chain extension are modelled; a trap reverts']),
    'W02': dict(crate=SW,
        quick=[swap(1, 2, 11, 12), swap(1, 2, 11, 11), swap(1, 2, 3, 12, 12), swap(1, 11, 1, 11), swap(1, 2, 12, 2, 11, 12), swap(1, 1, 2, 11, 12)],
        bounds='the listed histories of up to three traders, every amount', outside='other histories',
        assumptions=['the contract runs in a stand-in for ink 4 (/verif/ws/shim/ink)']),
    'W03': dict(crate=SW, quick=rng('flipper', [0, 1, 4, 8]), bounds='up to 8 calls', outside='nothing that matters', assumptions=['the contract runs in a stand-in for ink 4 (/verif/ws/shim/ink)']),
})

VA = 'h_vault'
def vh(mask, *hs):
    """Histories of the vault side: parameter 0 is the amount width and the group of assertions."""
    return [hist('vault_hist', 4 | mask << 4, o) for o in hs]
V_BOUNDS = 'the listed histories of up to 9 calls over two vaults, a user and a third party, starting from registered vaults with fixed collateral; amounts marked symbolic cover all 32-bit values, the others are fixed odd numbers (see DESIGN.md for the operation codes); prices fixed per step'
V_OUT = 'other orders and longer histories, more vaults or users, amounts above 2^32, other fee rates and thresholds'
V_ASM = ['the pallets run on a stand-in for FRAME and ORML (/verif/ws/frame): transactional storage, balances with free and reserved parts, one parachain runtime configuration', 'the relay has its inclusion check switched off by its own storage switch (inclusion: C08, B-series); amount, address and identifier of the payment are checked by the real code']
PROPS.update({
    'V01': dict(crate=VA, poly=True, assumptions=V_ASM,
        quick=vh(1, (10, 11), (110, 11, 20), (110, 111, 20, 21), (110, 111, 220, 22, 1, 24), (110, 111, 220, 23, 20), (110, 111, 20, 42), (110, 111, 220, 42, 26), (110, 111, 30, 232, 33), (110, 111, 130, 32, 33), (110, 111, 130, 232, 34, 30, 33), (110, 111, 220, 22, 25), (110, 13, 11), (110, 111, 210, 42, 11), (110, 111, 220, 42, 10)),
        thorough=[j + ' @3000' for j in vh(1, (110, 111, 20, 22), (110, 11, 220, 42, 26), (110, 111, 20, 42, 21, 26))],
        bounds=V_BOUNDS, outside=V_OUT),
    'V02': dict(crate=VA, poly=True, assumptions=V_ASM,
        quick=vh(2, (1, 2), (3, 4), (3, 5, 6), (1, 3, 2), (110, 111, 30, 31), (110, 111, 130, 32, 34), (110, 111, 20, 42), (110, 111, 220, 23, 2), (110, 111, 220, 42, 23, 26), (110, 111, 130, 232, 42, 34, 26), (10, 12), (110, 11), (110, 111, 220, 42, 21), (110, 111, 220, 42, 22), (103, 110, 111, 220, 42, 21, 26)),
        thorough=[j + ' @3000' for j in vh(2, (3, 110, 111, 220, 42, 21), (3, 110, 111, 220, 42, 22), (1, 3, 110, 111, 220, 23, 5, 6))],
        bounds=V_BOUNDS, outside=V_OUT),
    'V03': dict(crate=VA, poly=True, assumptions=V_ASM,
        quick=vh(4, (10, 11), (10, 12), (10, 13), (110, 111, 20, 21), (110, 111, 20, 23), (110, 111, 220, 22, 20), (110, 111, 130, 32, 33), (110, 111, 130, 32, 34), (110, 10, 42, 13), (110, 111, 220, 20, 42), (110, 111, 220, 310, 42, 11), (110, 111, 130, 232, 42, 33), (110, 111, 130, 232, 30, 34)),
        thorough=[j + ' @3000' for j in vh(4, (10, 11, 20), (110, 111, 20, 120, 21))],
        bounds=V_BOUNDS, outside=V_OUT),
    'V04': dict(crate=VA, poly=True, assumptions=V_ASM,
        quick=vh(8, (10, 2), (10, 4), (3, 10, 4), (110, 10), (7, 10, 2), (110, 111, 140, 10), (110, 11), (110, 13, 11), (110, 13, 740, 11), (110, 111, 130, 32), (110, 111, 130, 232, 34, 33), (710, 711, 730, 32), (110, 111, 340, 220, 22, 1, 24), (110, 111, 120, 22, 540, 2)),
        thorough=[j + ' @3000' for j in vh(8, (7, 10, 11, 2), (110, 111, 1, 3, 10, 2))],
        bounds=V_BOUNDS, outside=V_OUT),
    'V05': dict(crate=VA, poly=True, assumptions=V_ASM,
        quick=vh(16, (10, 11), (10, 11, 11), (110, 14), (10, 12), (10, 13), (10, 15), (110, 13, 11), (110, 13, 14), (110, 8, 10), (110, 9, 11), (10, 42, 13), (110, 42, 11), (110, 12, 11), (110, 111, 220, 23, 10)),
        thorough=[j + ' @3000' for j in vh(16, (10, 42, 11), (10, 310, 11))],
        bounds=V_BOUNDS, outside=V_OUT),
    'V06': dict(crate=VA, poly=True, assumptions=V_ASM,
        quick=vh(32, (110, 111, 20, 21), (110, 111, 20, 27), (110, 111, 220, 27), (110, 111, 20, 28), (110, 111, 20, 29), (110, 111, 220, 21, 20), (110, 111, 20, 23), (110, 111, 220, 22, 1, 24, 24), (110, 111, 220, 22, 25), (110, 111, 540, 20, 21), (110, 111, 340, 20), (110, 111, 20, 50, 21), (110, 111, 220, 42, 21, 20), (110, 111, 20, 21, 21), (110, 111, 20, 23, 21), (110, 11, 220, 22), (110, 111, 220, 120, 22, 1, 24)),
        thorough=[j + ' @3000' for j in vh(32, (110, 111, 20, 22), (110, 11, 20, 21), (110, 11, 20, 23))],
        bounds=V_BOUNDS, outside=V_OUT),
    'V07': dict(crate=VA, poly=True, assumptions=V_ASM,
        quick=vh(64, (110, 111, 30, 31), (110, 111, 30, 232, 33), (110, 111, 130, 32, 33), (110, 111, 130, 32, 33, 33), (110, 111, 130, 32, 34), (110, 111, 130, 32, 36), (110, 111, 130, 232, 34, 33, 30), (110, 111, 130, 32, 34, 34), (110, 111, 220, 30), (110, 111, 130, 232, 35, 31), (110, 111, 220, 23, 30), (110, 111, 130, 20, 21), (110, 111, 130, 232, 132, 33, 35), (110, 111, 130, 232, 132, 34, 35, 33)),
        thorough=[j + ' @3000' for j in vh(64, (110, 11, 30, 232, 33), (110, 111, 130, 31, 232, 34, 33))],
        bounds=V_BOUNDS, outside=V_OUT),
    'V08': dict(crate=VA, poly=True, assumptions=V_ASM,
        quick=vh(128, (10, 111, 340, 41), (110, 11, 340, 41), (110, 111, 1, 340, 41), (110, 111, 3, 440, 41), (110, 11, 540, 41), (110, 111, 42, 26), (110, 111, 20, 42), (110, 111, 220, 42, 21, 26), (110, 111, 220, 42, 22, 26), (110, 111, 220, 42, 23, 26), (110, 111, 220, 440, 41, 26), (110, 111, 42, 41, 26), (10, 42), (110, 111, 42, 226), (110, 111, 20, 42, 226), (110, 111, 220, 120, 42, 21, 23, 26)),
        thorough=[j + ' @3000' for j in vh(128, (110, 11, 42, 226), (110, 10, 42), (110, 111, 10, 42), (110, 11, 540, 41, 26))],
        bounds=V_BOUNDS, outside=V_OUT),
    'V09': dict(crate=VA, poly=True, assumptions=V_ASM,
        quick=vh(256, (10, 11), (110, 14), (10, 13), (10, 12), (110, 8, 11), (110, 111, 20, 21), (110, 111, 20, 23), (110, 111, 220, 22, 20, 23), (110, 111, 220, 42, 21, 26), (110, 111, 220, 42, 22, 26), (110, 111, 130, 32, 33), (110, 111, 130, 32, 34), (110, 111, 130, 232, 43, 34), (110, 111, 130, 232, 42, 33), (110, 111, 130, 232, 42, 34), (110, 42, 11), (110, 42, 13), (110, 340, 11)),
        thorough=[j + ' @3000' for j in vh(256, (10, 11, 20, 21), (110, 11, 20, 23), (110, 111, 30, 32, 33))],
        bounds=V_BOUNDS, outside=V_OUT),
})

RL = 'h_relay'
R_ASM = ['the pallets run on a stand-in for FRAME (/verif/ws/frame): storage maps and transactional dispatch']
def opr(h, rs, ls):
    return ['%s:%s' % (h, ','.join(map(str, (r,) + tuple(l) + (0,)))) for r in rs for l in ls]
_PAIRS = [(1, 5), (5, 2), (3, 5), (5, 4), (5,), (1,), (5, 5), (1, 2), (2, 6), (7, 3), (8, 5), (5, 9), (9, 1)]
_TRIPLES = [(1, 1, 5), (1, 2, 5), (3, 5, 3), (5, 4, 4), (5, 2, 1), (1, 5, 5), (3, 8, 5), (2, 3, 1)]
PROPS.update({
    'B01': dict(crate=RL, assumptions=R_ASM,
        quick=rng('relay_tree', [(5, 1), (5, 2), (5, 3), (6, 2), (7, 6, 1, 1, 1), (7, 1, 1, 1, 2), (7, 2, 1, 2, 2), (7, 3, 1, 2, 1), (7, 2, 1, 1, 2)]) + rng('relay_duplicate', [(3, 1), (4, 2)]),
        thorough=[j + ' @3000' for j in rng('relay_tree', [(6, 1), (6, 3), (7, 1), (7, 2), (7, 3), (9, 2, 1, 1, 1, 1), (9, 3, 1, 2, 2, 1), (9, 2, 1, 2, 3, 1, 5), (10, 3, 1, 2, 3, 1, 5, 6)]) + rng('relay_duplicate', [(5, 1), (5, 2)])],
        bounds='every tree of 5 blocks after the first and every confirmation depth 1..3, every tree of 6 at depth 2, every continuation by 4 blocks of the listed trees (thorough: all trees of 7, up to 10 blocks)',
        outside='larger trees; work is measured by height, as in the specification of the relay'),
    'B02': dict(crate=RL, assumptions=R_ASM,
        quick=rng('relay_confirmed', [(3, 1), (4, 1), (4, 2), (4, 3), (5, 2)]), thorough=rng('relay_confirmed', [(5, 1), (5, 3), (6, 1), (6, 2)]),
        bounds='every tree of up to 5 blocks after the first, every block, every number of confirmations, time and age', outside='larger trees'),
    'B03': dict(crate=RL, assumptions=R_ASM,
        quick=rng('relay_header', [(0, 0, 0), (0, 3, 0), (0, 2, 1), (1, 2, 0), (1, 3, 1)]) + rng('relay_retarget', [(0, 0, 0), (0, 0, 2), (0, 0, 4), (1, 0, 1), (2, 0, 3), (2, 1, 3), (3, 1, 0), (3, 0, 4)]),
        bounds='every header on a parent with a target of the form x * 2^(64 k), x any 64-bit number; period ends on the main chain and on branches of up to 3 blocks, for five period lengths',
        outside='the retarget formula itself is C07'),
    'B04': dict(crate=RL, assumptions=R_ASM,
        quick=opr('op_return_payment', (1, 2, 3, 4), _PAIRS[:8]) + opr('op_return_payment', (2,), _PAIRS[8:]) + opr('op_return_payment', (1, 3), _TRIPLES) + opr('op_return_payment', (1, 2), [(1, 2, 3, 5), (5, 1, 2, 1), (1, 1, 5, 9)])
            + opr('issue_payment', (1, 2, 3, 4), [(1,), (2, 3), (8, 1, 2), (3, 3), (4, 5), (9,), (2, 5, 2, 1), (4, 4, 1)]),
        bounds='transactions of up to 4 outputs of the listed kinds (the four payment scripts, data of 31 to 33 bytes, others), every script content, amount, recipient and identifier', outside='more outputs'),
    'B05': dict(crate=RL, assumptions=R_ASM, quick=['relay_expiry'] + rng('active_blocks', [2, 3]),
        bounds='every opening time, height, period and current state; every 3 calls of the block counter', outside='50 parachain blocks per Bitcoin block'),
    'B06': dict(crate=RL, assumptions=R_ASM,
        quick=rng('inclusion', [(2, 1, 1, 1, 1, 1, 1, 1), (2, 2, 3, 2, 2, 3, 2, 1), (1, 2, 3, 2, 2, 3, 2, 0), (2, 2, 3, 2, 1, 1, 1, 1), (2, 2, 3, 3, 2, 3, 3, 1)]),
        thorough=rng('inclusion', [(2, 3, 5, 3, 3, 5, 3, 1), (2, 3, 5, 4, 3, 5, 4, 1), (2, 3, 5, 4, 2, 3, 2, 1)]),
        bounds='proofs of up to 2 hashes and 3 flags each for blocks of up to 3 transactions (thorough: 3 hashes, 5 flags, 4 transactions), every hash, flag, claimed block and stored root', outside='larger proofs (the proof verifier itself: C08, C09)'),
    'B07': dict(crate=RL, assumptions=R_ASM, quick=rng('secure_ids', [(2, 0), (3, 2), (3, 7), (4, 0)]),
        bounds='four requests in a row, every account, starting number and parent hash', outside='2^256 requests'),
})

GV = 'h_gov'
G_ASM = ['the pallets run on a stand-in for FRAME and ORML (/verif/ws/frame); the block reward provider is the one of the runtimes for escrow rewards']
def gh(h, p0, *hs):
    return [hist(h, p0, o) for o in hs]
E_B = 'two accounts; the listed histories of up to 7 calls; every lock amount below 2^32 where marked symbolic, all end heights and elapsed blocks (up to 6 per step); longest period 8 blocks, heights rounded to 4'
PROPS.update({
    'E01': dict(crate=GV, poly=True, assumptions=G_ASM,
        quick=gh('escrow_hist', 5, (1,), (101, 60, 3)) + gh('escrow_hist', 1, (1, 2, 60, 4), (101, 2, 60, 5), (101, 60, 3, 60, 2), (101, 60, 11, 60, 5), (1, 70, 60, 2), (70, 52, 1, 60, 2), (71, 1, 60, 11), (101, 71, 2, 3, 5), (101, 60, 4, 60, 1), (1, 11, 60, 15), (401, 301, 60, 2, 5)),
        thorough=[j + ' @3000' for j in gh('escrow_hist', 1, (101, 60, 2, 60, 3, 60, 4), (1, 60, 2, 60, 4, 1), (101, 60, 3, 60, 5, 60, 4, 1))],
        bounds=E_B, outside='other periods, longer histories'),
    'E02': dict(crate=GV, poly=True, assumptions=G_ASM,
        quick=gh('escrow_hist', 2, (101, 60, 211, 60), (101, 60, 211, 60, 3), (101, 60, 13, 60), (101, 211, 52, 3, 60, 2, 60), (101, 60, 211, 60, 4, 1), (1, 53, 11, 60), (101, 11, 3, 60, 5, 60), (101, 2, 60, 5, 60), (101, 3, 60, 3, 60)),
        thorough=[j + ' @3000' for j in gh('escrow_hist', 2, (101, 60, 211, 60, 3, 60), (101, 60, 211, 60, 4, 60, 12), (1, 60, 11, 60, 2, 60, 13), (101, 60, 3, 60, 3, 60, 3))],
        bounds=E_B, outside='other periods, more accounts, longer histories; heights before the last update'),
    'E03': dict(crate=GV, poly=True, assumptions=G_ASM, quick=['inflation:3,0', 'inflation:3,1', 'inflation:7,1'],
        thorough=['inflation:12,0', 'inflation:12,1'],
        bounds='up to 7 blocks (thorough: 12) from any block below 2^24; any rate up to 10^18 at a fixed issuance, any issuance below 2^96 at a fixed rate', outside='both arbitrary at once'),
    'E04': dict(crate=GV, poly=True, assumptions=G_ASM,
        quick=gh('annuity_hist', 0, (7, 1, 2, 1, 3), (4, 1, 4, 5, 1), (7, 1, 1, 1, 1, 1, 1, 1), (7, 5, 1, 6, 2, 1, 4, 1, 3), (5, 7, 1, 5, 1, 2), (7, 1, 7, 1, 3, 7, 1, 2), (6, 1, 2, 3))
            + [j + ' known=annuity-recount' for j in gh('annuity_hist', 0, (7, 1, 1, 1, 1, 1, 1, 1, 7, 1))],
        thorough=gh('annuity_hist', 0, (7, 1, 2, 1, 1, 3, 4, 1, 1, 2, 6, 1), (4, 5, 1, 2, 4, 5, 1, 3, 6, 1)),
        bounds='two stakers with fixed stakes; the listed histories of up to 10 calls; all funds below 2^32, all caps below 2^24; period 7 blocks', outside='longer histories, other stakes (R01)'),
    'E05': dict(crate=GV, poly=True, assumptions=G_ASM,
        quick=gh('farming_hist', 1, (1, 34, 31, 35), (432, 1, 30, 2)) + gh('farming_hist', 0, (432, 1, 30, 30, 3, 30), (1, 432, 30, 332, 30, 3), (1, 432, 30, 333, 3), (1, 11, 532, 31, 102, 31, 13), (1, 332, 30, 30, 30, 30, 332, 30, 3), (1, 32, 30, 2), (432, 30, 1, 30, 302, 30, 3), (1, 432, 30, 33, 432, 30, 3)),
        thorough=[j + ' @3000' for j in gh('farming_hist', 1, (1, 11, 532, 31, 3, 31, 13)) + gh('farming_hist', 0, (1, 11, 532, 30, 102, 332, 30, 3, 333, 13))],
        bounds='one pool, two farmers with fixed stakes; the listed histories of up to 9 calls; all reward amounts, and withdrawals where marked symbolic, below 2^32; all period counts where marked', outside='several pools, longer histories, other stakes (R01)'),
    'E06': dict(crate=GV, assumptions=G_ASM, quick=['pausing:1', 'pausing:2'], thorough=['pausing:3 @3500'],
        bounds='every two calls (thorough: three) of pause or unpause, by anyone, over four pallets and three calls each, one of them exempt; then every call, including names that are too long', outside='other names'),
    'E07': dict(crate=GV, assumptions=G_ASM, quick=['clients:0', 'clients:1', 'clients:2'], thorough=['clients:4'],
        bounds='three settings of names up to 2 bytes, all contents', outside='longer names'),
})

def oh(w, *hs):
    return [hist('oracle_hist', w, o) for o in hs]
PROPS.update({
    'O01': dict(crate=VA, assumptions=G_ASM[:0] + ['the pallets run on a stand-in for FRAME and ORML (/verif/ws/frame)'],
        quick=oh(16, (1, 2, 10), (1, 10, 2, 10), (5, 2, 10, 6, 10, 10), (4, 22, 4, 1, 10, 20, 1, 3, 10), (1, 2, 21, 23, 10, 1, 3, 10), (1, 10, 10, 11), (1, 20, 10, 10)) + oh(8, (1, 2, 3, 10), (1, 10, 2, 10, 3, 10), (22, 4, 1, 2, 3, 11)),
        thorough=[j + ' @3000' for j in oh(16, (1, 10, 2, 10, 3, 10, 1, 10), (1, 2, 3, 10, 22, 4, 10, 10), (1, 10, 2, 10, 20, 10, 3, 10))],
        bounds='the listed histories of up to 9 steps with up to four oracles and two keys; every 128-bit value (64-bit where more than two oracles feed), every time and delay below 2^48 ms', outside='more oracles; u64 overflow of the clock'),
    'O02': dict(crate=VA, poly=True, assumptions=['the pallets run on a stand-in for FRAME and ORML (/verif/ws/frame)'],
        quick=['conversion:16,16,0', 'conversion:16,16,1', 'conversion:16,16,2'] + ['conversion:4,4,3,%d' % i for i in range(8)],
        thorough=['conversion:8,8,3,%d @2000' % i for i in range(8)],
        bounds='every 128-bit amount and price for the value of a conversion; every 32-bit amount (thorough: 64-bit) at eight prices from 1e-18 to 123456 for round trips and order', outside='round trips at other prices'),
    'U01': dict(crate=VA, poly=True, assumptions=['the pallets run on a stand-in for FRAME and ORML (/verif/ws/frame): balances with free and reserved parts'],
        quick=['amount_math:0', 'amount_math:2', 'amount_math:3'] + ['amount_math:1,%d' % i for i in range(6)] + rng('amount_funds', range(5)),
        bounds='every 128-bit amount and factor; every balance below 2^120', outside='orml-tokens itself (stand-in); existential deposits'),
    'U02': dict(crate=VA, poly=True, assumptions=['the pallets run on a stand-in for FRAME (/verif/ws/frame)'],
        quick=rng('fee_rates', range(6)) + ['commission'], bounds='every rate, amount and caller', outside='nothing'),
    'U03': dict(crate=VA, poly=True, assumptions=V_ASM,
        quick=vh(512, (60,), (103, 60), (103, 64, 60), (8, 60), (160, 103, 61, 60, 62), (103, 60, 5, 160), (103, 60, 42, 160), (60, 440, 160), (110, 111, 220, 23, 60), (110, 111, 220, 60, 22), (160, 101, 60), (160, 8, 260, 9, 60), (110, 11), (103, 64, 7, 60), (103, 7, 64, 8, 60, 9, 160, 62), (160, 64, 103, 60), (103, 160, 4), (110, 111, 220, 21, 60), (110, 111, 20, 42), (103, 110, 111, 220, 160, 42, 26, 60), (103, 60, 204, 160), (103, 160, 204, 60), (103, 110, 111, 160, 220, 23, 160), (103, 110, 111, 60, 220, 22, 160, 5, 160), (103, 160, 42, 60)),
        thorough=[j + ' @3000' for j in vh(512, (103, 60, 7, 60, 103, 60), (103, 60, 101, 62, 160, 61, 160), (160, 1, 60), (3, 160), (103, 110, 111, 160, 220, 23, 60, 62))],
        bounds=V_BOUNDS, outside=V_OUT + '; rounding of a few units per step stays in the pool'),
})

def lh(kind, p0, *hs):
    return [hist('lending', p0 | kind << 8, o) for o in hs]
L_ASM = ['the pallets run on a stand-in for FRAME and ORML (/verif/ws/frame)', 'num-bigint is replaced by an exact 256-bit stand-in (/verif/ws/patch/num-bigint)', 'two markets; the price of one is one of 5, 8, 11 and 40 per wrapped token']
L_BOUNDS = 'the listed histories (up to 9 operations of two borrowers and a liquidator over two markets): every 32-bit amount for the marked operations, fixed amounts for the rest; no interest, or a day/year at the jump model or a flat 10%'
L_OUT = 'longer histories, more markets, larger amounts, rate-model and reserve-factor changes in mid-history'
LO = 'h_loans'
PROPS.update({
    'L01': dict(crate=LO, poly=True, assumptions=L_ASM,
        quick=lh(0, 20, (1,2,3,5), (1,4,5), (101,6,2,10,11,12), (101,21,22), (101,2,6,21,9), (101,2,106,10,51,50), (106,9,117,18,115,116,7))
            + lh(1, 20, (101,2,106,110,32,12,8), (101,2,106,610,32,1,8), (101,2,106,610,31,107,150)) + lh(2, 20, (101,2,106,10,32,11)) + lh(0, 20, (101,2,106,610,240,19,52)),
        thorough=[j + ' @3000' for j in lh(0, 20, (1,2,21,22,4), (1,1,4)) + lh(1, 20, (101,2,106,10,31,11,4), (101,2,106,9,115,10,31,16,11)) + lh(2, 20, (1,2,6,10,31,8))],
        bounds=L_BOUNDS, outside=L_OUT + '; a redemption may burn up to one lend token less than its worth'),
    'L02': dict(crate=LO, poly=True, assumptions=L_ASM,
        quick=lh(0, 36, (1,2,10), (101,2,106,10,3), (101,2,106,10,4), (101,2,106,10,12,3), (101,2,6,10,140,10), (101,2,106,9,13,15), (101,2,106,9,15,10,340,4), (1,2,6,10,10), (101,2,106,10,7), (106,6,1))
            + lh(1, 36, (101,2,106,610,32,4), (101,2,106,610,32,3), (101,2,106,610,32,10)),
        thorough=[j + ' @3000' for j in lh(1, 36, (101,2,106,10,32,10), (101,2,106,9,15,610,31,10)) + lh(2, 36, (101,2,106,10,32,10))],
        bounds=L_BOUNDS, outside=L_OUT),
    'L03': dict(crate=LO, poly=True, assumptions=L_ASM,
        quick=lh(0, 68, (101,2,106,610,240,19), (101,2,106,10,240,519), (101,2,106,610,340,19,19), (101,2,106,610,117,18,240,19), (101,2,106,610,40,19), (1,2,106,610,240,519), (101,2,106,9,610,613,240,19))
            + lh(1, 68, (201,2,106,310,31,310,31,310,31,711,4,340,19), (101,2,106,610,31,19), (101,2,106,610,32,240,519), (101,2,106,610,32,19,4), (101,2,106,610,240,32,19)),
        bounds=L_BOUNDS, outside=L_OUT),
    'L04': dict(crate=LO, poly=True, assumptions=L_ASM,
        quick=['market_params:0', 'market_params:1', 'rates:16,0,0,1', 'rates:2,1,800001', 'rates:2,2,500001', 'rates:2,3,300001', 'rates:2,2,1000001', 'rates:2,1,0', 'rates:2,2,0', 'rates:2,1,2', 'supply_rate:200', 'supply_rate:150000', 'accrual:4,2,6,0,0', 'accrual:4,2,31536000,0,0', 'accrual:4,0,86400,0,100000000'],
        thorough=['rates:1,0,800001 @3000', 'accrual:4,1,86400,30000000,100000000 @3000', 'accrual:8,2,31536000,0,0 @3000'],
        bounds='market updates: every parameter and caller; rate models: acceptance for every rate and jump point, rates for three sets of rates, every jump point and pair of utilisations; accrual: every 32-bit cash, debt, reserves and supply at the flat model, over 6 s, a day (no interest) and a year', outside='rates of arbitrary models; the curve model\'s accrual'),
    'L05': dict(crate=LO, poly=True, assumptions=L_ASM,
        quick=[hist('rewards', 4, o) for o in ((101,2,106,10,60,160,30), (101,2,106,610,160,60,130,240,519,230,61,63), (1,60,30,61,6,160,130,2,230), (101,60,30,121,30), (101,106,160,60,30,64,30,2,610,30), (60,30,1,30,60,30))],
        thorough=[hist('rewards', 4, o) + ' @3000' for o in ((101,2,106,610,60,160,30,11,130,61), (101,160,60,2,6,130,21,30,4,30))],
        bounds='the listed histories: every 32-bit speed and amount for the marked operations', outside=L_OUT + '; rewards when the reward account is short of funds; interest'),
})
