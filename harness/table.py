"""The sample specifications as documented (iso8583.specs docstring):
number: (data type, length digits (0: fixed), maximum length).
"a" text, "b" binary in the ASCII/Binary flavour (hex text of twice the
length in the ASCII flavour)."""

FIELDS = {
    2: ("a", 2, 19),
    3: ("a", 0, 6),
    4: ("a", 0, 12),
    5: ("a", 0, 12),
    6: ("a", 0, 12),
    7: ("a", 0, 10),
    8: ("a", 0, 8),
    9: ("a", 0, 8),
    10: ("a", 0, 8),
    11: ("a", 0, 6),
    12: ("a", 0, 6),
    13: ("a", 0, 4),
    14: ("a", 0, 4),
    15: ("a", 0, 4),
    16: ("a", 0, 4),
    17: ("a", 0, 4),
    18: ("a", 0, 4),
    19: ("a", 0, 3),
    20: ("a", 0, 3),
    21: ("a", 0, 3),
    22: ("a", 0, 3),
    23: ("a", 0, 3),
    24: ("a", 0, 3),
    25: ("a", 0, 2),
    26: ("a", 0, 2),
    27: ("a", 0, 1),
    28: ("a", 0, 9),
    29: ("a", 0, 9),
    30: ("a", 0, 9),
    31: ("a", 0, 9),
    32: ("a", 2, 11),
    33: ("a", 2, 11),
    34: ("a", 2, 28),
    35: ("a", 2, 37),
    36: ("a", 3, 104),
    37: ("a", 0, 12),
    38: ("a", 0, 6),
    39: ("a", 0, 2),
    40: ("a", 0, 3),
    41: ("a", 0, 8),
    42: ("a", 0, 15),
    43: ("a", 0, 40),
    44: ("a", 2, 25),
    45: ("a", 2, 76),
    46: ("a", 3, 999),
    47: ("a", 3, 999),
    48: ("a", 3, 999),
    49: ("a", 0, 3),
    50: ("a", 0, 3),
    51: ("a", 0, 3),
    52: ("b", 0, 8),
    53: ("a", 0, 16),
    54: ("a", 3, 240),
    55: ("b", 3, 255),
    56: ("a", 3, 999),
    57: ("a", 3, 999),
    58: ("a", 3, 999),
    59: ("a", 3, 999),
    60: ("a", 3, 999),
    61: ("a", 3, 999),
    62: ("a", 3, 999),
    63: ("a", 3, 999),
    64: ("b", 0, 8),
    66: ("a", 0, 1),
    67: ("a", 0, 2),
    68: ("a", 0, 3),
    69: ("a", 0, 3),
    70: ("a", 0, 3),
    71: ("a", 0, 4),
    72: ("a", 0, 4),
    73: ("a", 0, 6),
    74: ("a", 0, 10),
    75: ("a", 0, 10),
    76: ("a", 0, 10),
    77: ("a", 0, 10),
    78: ("a", 0, 10),
    79: ("a", 0, 10),
    80: ("a", 0, 10),
    81: ("a", 0, 10),
    82: ("a", 0, 12),
    83: ("a", 0, 12),
    84: ("a", 0, 12),
    85: ("a", 0, 12),
    86: ("a", 0, 16),
    87: ("a", 0, 16),
    88: ("a", 0, 16),
    89: ("a", 0, 16),
    90: ("a", 0, 42),
    91: ("a", 0, 1),
    92: ("a", 0, 2),
    93: ("a", 0, 5),
    94: ("a", 0, 7),
    95: ("a", 0, 42),
    96: ("b", 0, 8),
    97: ("a", 0, 17),
    98: ("a", 0, 25),
    99: ("a", 2, 11),
    100: ("a", 2, 11),
    101: ("a", 2, 17),
    102: ("a", 2, 28),
    103: ("a", 2, 28),
    104: ("a", 3, 100),
    105: ("a", 3, 999),
    106: ("a", 3, 999),
    107: ("a", 3, 999),
    108: ("a", 3, 999),
    109: ("a", 3, 999),
    110: ("a", 3, 999),
    111: ("a", 3, 999),
    112: ("a", 3, 999),
    113: ("a", 3, 999),
    114: ("a", 3, 999),
    115: ("a", 3, 999),
    116: ("a", 3, 999),
    117: ("a", 3, 999),
    118: ("a", 3, 999),
    119: ("a", 3, 999),
    120: ("a", 3, 999),
    121: ("a", 3, 999),
    122: ("a", 3, 999),
    123: ("a", 3, 999),
    124: ("a", 3, 999),
    125: ("a", 3, 999),
    126: ("a", 3, 999),
    127: ("a", 3, 999),
    128: ("b", 0, 8),
}
