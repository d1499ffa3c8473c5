"""Brainpool seeds at the end of their range (tools/gen_bpwrap.py); reach only."""
SEEDS = [(True, 165, 'ffffffffffffffffffffffffffffffffffffffff', 1), (False, 165, 'ffffffffffffffffffffffffffffffffffffffff', 3), (False, 214, 'ffffffffffffffffffffffffffffffffffffffff', 3), (True, 167, 'ffffffffffffffffffffffffffffffffffffffff', 6), (True, 180, 'ffffffffffffffffffffffffffffffffffffffff', 7), (False, 167, 'ffffffffffffffffffffffffffffffffffffffff', 8), (True, 185, 'ffffffffffffffffffffffffffffffffffffffff', 9), (False, 162, 'ffffffffffffffffffffffffffffffffffffffff', 11), (True, 194, 'ffffffffffffffffffffffffffffffffffffffff', 11), (True, 215, 'ffffffffffffffffffffffffffffffffffffffff', 14), (False, 169, 'ffffffffffffffffffffffffffffffffffffffff', 15), (False, 191, 'ffffffffffffffffffffffffffffffffffffffff', 15), (False, 219, 'ffffffffffffffffffffffffffffffffffffffff', 15), (True, 175, 'ffffffffffffffffffffffffffffffffffffffff', 16), (False, 211, 'ffffffffffffffffffffffffffffffffffffffff', 16), (False, 203, 'ffffffffffffffffffffffffffffffffffffffff', 17), (False, 186, 'ffffffffffffffffffffffffffffffffffffffff', 19), (False, 193, 'ffffffffffffffffffffffffffffffffffffffff', 21), (True, 166, 'ffffffffffffffffffffffffffffffffffffffff', 23), (False, 220, 'ffffffffffffffffffffffffffffffffffffffff', 23), (True, 186, 'ffffffffffffffffffffffffffffffffffffffff', 24), (True, 191, 'ffffffffffffffffffffffffffffffffffffffff', 25), (False, 173, 'ffffffffffffffffffffffffffffffffffffffff', 26), (False, 168, 'ffffffffffffffffffffffffffffffffffffffff', 27), (True, 173, 'ffffffffffffffffffffffffffffffffffffffff', 28), (True, 225, 'ffffffffffffffffffffffffffffffffffffffff', 28), (False, 216, 'ffffffffffffffffffffffffffffffffffffffff', 29), (False, 218, 'ffffffffffffffffffffffffffffffffffffffff', 29), (True, 216, 'ffffffffffffffffffffffffffffffffffffffff', 32), (True, 200, 'ffffffffffffffffffffffffffffffffffffffff', 35), (True, 211, 'ffffffffffffffffffffffffffffffffffffffff', 37), (True, 162, 'ffffffffffffffffffffffffffffffffffffffff', 39), (False, 166, 'ffffffffffffffffffffffffffffffffffffffff', 39), (False, 212, 'ffffffffffffffffffffffffffffffffffffffff', 41), (False, 329, 'fffffffffffffffffffffffffffffffffffffffe', 41), (False, 223, 'ffffffffffffffffffffffffffffffffffffffff', 44), (False, 197, 'ffffffffffffffffffffffffffffffffffffffff', 46), (False, 206, 'ffffffffffffffffffffffffffffffffffffffff', 46), (False, 180, 'ffffffffffffffffffffffffffffffffffffffff', 47), (False, 198, 'ffffffffffffffffffffffffffffffffffffffff', 47), (True, 198, 'ffffffffffffffffffffffffffffffffffffffff', 51), (True, 223, 'ffffffffffffffffffffffffffffffffffffffff', 52), (True, 219, 'ffffffffffffffffffffffffffffffffffffffff', 56), (False, 176, 'ffffffffffffffffffffffffffffffffffffffff', 57), (True, 220, 'ffffffffffffffffffffffffffffffffffffffff', 60)]
