"""Per sorter and entry: factors of n log2 n for comparisons, moves, iterator steps; bytes of heap per element; see c19.py"""
WORST = {
    ('adaptive_shivers', 'ra', 0): (1.4, 5.2, 9.9, 6.5),
    ('block', 'ra', 0): (1.6, 3.8, 3.6, 0),
    ('block', 'ra', 1): (1.6, 3.8, 3.6, 0),
    ('cartesian_tree', 'fwd', 0): (2.5, 0.4, 0.6, 64.9),
    ('cartesian_tree', 'bid', 0): (2.5, 0.4, 0.6, 64.9),
    ('cartesian_tree', 'ra', 0): (2.5, 0.4, 0.4, 64.9),
    ('d_ary_heap4', 'ra', 0): (3.4, 4.6, 5.9, 0),
    ('d_ary_heap4', 'ra', 1): (3.4, 4.6, 5.9, 0),
    ('d_ary_heap3', 'ra', 0): (3.4, 5.5, 6.4, 0),
    ('d_ary_heap3', 'ra', 1): (3.4, 5.5, 6.4, 0),
    ('drop_merge', 'bid', 0): (3.6, 4.7, 5.8, 33.5),
    ('drop_merge', 'ra', 0): (3.6, 4.7, 5.6, 33.5),
    ('grail', 'ra', 0): (3.8, 11.4, 9.7, 0),
    ('grail', 'ra', 1): (3.8, 11.4, 9.7, 0),
    ('heap', 'ra', 0): (1.9, 2.5, 4.3, 0),
    ('heap', 'ra', 1): (1.9, 2.5, 4.3, 0),
    ('mel', 'fwd', 0): (2.5, 0.4, 0.6, 69.5),
    ('mel', 'bid', 0): (2.5, 0.4, 0.6, 69.5),
    ('mel', 'ra', 0): (2.5, 0.4, 0.4, 69.5),
    ('merge_insertion', 'ra', 0): (1.4, 5.1, 7.3, 66.0),
    ('merge', 'fwd', 0): (1.7, 3.7, 4.7, 9.1),
    ('merge', 'fwd', 1): (1.8, 13.6, 17.2, 0),
    ('merge', 'bid', 0): (3.8, 4.5, 8.4, 9.1),
    ('merge', 'bid', 1): (3.7, 10.3, 18.1, 0),
    ('merge', 'ra', 0): (3.8, 4.5, 8.0, 9.1),
    ('merge', 'ra', 1): (3.6, 9.7, 9.7, 0),
    ('pdq', 'ra', 0): (2.9, 1.8, 5.2, 0),
    ('pdq', 'ra', 1): (2.9, 1.8, 5.2, 0),
    ('poplar', 'ra', 0): (3.7, 3.2, 6.1, 0),
    ('quick_merge', 'fwd', 0): (7.8, 4.7, 12.6, 0),
    ('quick_merge', 'fwd', 1): (7.8, 4.7, 12.6, 0),
    ('quick_merge', 'bid', 0): (6.8, 4.9, 11.6, 0),
    ('quick_merge', 'bid', 1): (6.8, 4.9, 11.6, 0),
    ('quick_merge', 'ra', 0): (3.2, 4.4, 4.4, 0),
    ('quick_merge', 'ra', 1): (3.2, 4.4, 4.4, 0),
    ('quick', 'fwd', 0): (11.0, 6.3, 18.3, 0),
    ('quick', 'fwd', 1): (11.0, 6.3, 18.3, 0),
    ('quick', 'bid', 0): (10.6, 4.6, 15.9, 0),
    ('quick', 'bid', 1): (10.6, 4.6, 15.9, 0),
    ('quick', 'ra', 0): (10.6, 4.6, 12.1, 0),
    ('quick', 'ra', 1): (10.6, 4.6, 12.1, 0),
    ('slab', 'bid', 0): (6.0, 2.8, 6.0, 60.0),
    ('slab', 'ra', 0): (6.0, 2.8, 5.4, 60.0),
    ('smooth', 'ra', 0): (4.0, 5.3, 6.7, 0),
    ('smooth', 'ra', 1): (4.0, 5.3, 6.7, 0),
    ('spin', 'ra', 0): (3.1, 3.6, 3.8, 6.0),
    ('splay', 'fwd', 0): (2.0, 0.4, 0.6, 48.0),
    ('splay', 'bid', 0): (2.0, 0.4, 0.6, 48.0),
    ('splay', 'ra', 0): (2.0, 0.4, 0.4, 48.0),
    ('split', 'ra', 0): (2.4, 2.1, 3.4, 6.0),
    ('split', 'ra', 1): (2.4, 3.0, 3.9, 0),
    ('std', 'ra', 0): (4.7, 2.8, 9.2, 0),
    ('std', 'ra', 1): (4.7, 2.8, 9.2, 0),
    ('tim', 'ra', 0): (1.4, 5.2, 9.9, 6.4),
    ('verge', 'bid', 0): (2.9, 4.4, 6.3, 6.5),
    ('verge', 'ra', 0): (2.1, 1.8, 3.7, 6.5),
    ('grail_sqrt', 'ra', 0): (3.8, 10.3, 9.5, 0),
    ('wiki0', 'ra', 0): (2.8, 13.3, 14.4, 0),
    ('wiki0', 'ra', 1): (2.8, 13.3, 14.4, 0),
    ('wiki', 'ra', 0): (1.6, 3.8, 3.6, 0),
    ('wiki', 'ra', 1): (1.6, 3.8, 3.6, 0),
    ('stable_pdq', 'ra', 0): (5.2, 3.0, 0.2, 24.1),
    ('stable_quick_merge', 'fwd', 0): (4.5, 5.4, 0.4, 24.1),
    ('stable_quick_merge', 'bid', 0): (4.5, 5.4, 0.4, 24.1),
    ('stable_quick_merge', 'ra', 0): (4.5, 5.4, 0.2, 24.1),
    ('stable_std', 'ra', 0): (1.6, 2.4, 3.0, 6.0),
    ('stable_std', 'ra', 1): (2.0, 10.6, 10.5, 0),
    ('stable_verge', 'ra', 0): (5.1, 5.2, 2.4, 25.1),
    ('verge_heap', 'ra', 0): (1.9, 2.5, 4.6, 6.5),
    ('indirect_merge', 'fwd', 0): (3.8, 0.3, 0.4, 42.0),
    ('indirect_merge', 'bid', 0): (3.8, 0.3, 0.4, 42.0),
    ('indirect_merge', 'ra', 0): (3.8, 0.3, 0.4, 21.1),
    ('indirect_quick', 'fwd', 0): (10.6, 0.3, 0.4, 24.1),
    ('indirect_quick', 'bid', 0): (10.6, 0.3, 0.4, 24.1),
    ('indirect_quick', 'ra', 0): (10.6, 0.3, 0.4, 12.2),
    ('schwartz_merge', 'fwd', 0): (1.7, 3.7, 4.7, 9.1),
    ('schwartz_merge', 'bid', 0): (3.8, 4.5, 8.4, 9.1),
    ('schwartz_merge', 'ra', 0): (3.8, 4.5, 8.0, 9.1),
    ('schwartz_pdq', 'ra', 0): (2.9, 1.8, 5.2, 0),
    ('oop_pdq', 'fwd', 0): (2.9, 2.2, 0.6, 12.1),
    ('oop_pdq', 'bid', 0): (2.9, 2.2, 0.6, 12.1),
    ('oop_pdq', 'ra', 0): (2.9, 2.2, 0.4, 12.1),
    ('oop_merge', 'fwd', 0): (3.8, 4.9, 0.6, 21.1),
    ('oop_merge', 'bid', 0): (3.8, 4.9, 0.6, 21.1),
    ('oop_merge', 'ra', 0): (3.8, 4.9, 0.4, 21.1),
    ('counting_smooth', 'ra', 0): (4.0, 5.3, 6.7, 0),
    ('counting_smooth', 'ra', 1): (4.0, 5.3, 6.7, 0),
    ('drop_merge_heap', 'ra', 0): (3.5, 5.1, 5.6, 33.5),
    ('drop_merge_merge', 'bid', 0): (5.5, 7.6, 5.8, 33.5),
    ('drop_merge_merge', 'ra', 0): (5.5, 7.6, 5.6, 33.5),
    ('split_poplar', 'ra', 0): (3.8, 3.3, 6.5, 6.0),
    ('self_sort', 'fwd', 0): (7.8, 4.7, 12.6, 0),
    ('self_sort', 'fwd', 1): (7.8, 4.7, 12.6, 0),
    ('self_sort', 'bid', 0): (6.8, 4.9, 11.6, 0),
    ('self_sort', 'bid', 1): (6.8, 4.9, 11.6, 0),
    ('self_sort', 'ra', 0): (3.2, 4.4, 4.4, 0),
    ('self_sort', 'ra', 1): (3.2, 4.4, 4.4, 0),
    ('small_array', 'ra', 0): (1.7, 5.2, 7.6, 66.0),
    ('p_block', 'fwd', 0): (4.0, 0.1, 0.6, 21.1),
    ('p_block', 'bid', 0): (4.0, 0.1, 0.6, 21.1),
    ('p_block', 'ra', 0): (4.0, 0.1, 0.4, 21.1),
    ('p_dis', 'fwd', 0): (3.0, 0.1, 3.3, 0),
    ('p_dis', 'fwd', 1): (3.0, 0.1, 3.3, 0),
    ('p_dis', 'bid', 0): (1.0, 0.1, 0.6, 12.1),
    ('p_dis', 'bid', 1): (3.0, 0.1, 3.3, 0),
    ('p_dis', 'ra', 0): (1.0, 0.1, 0.4, 12.1),
    ('p_dis', 'ra', 1): (3.0, 0.1, 3.0, 0),
    ('p_enc', 'fwd', 0): (1.2, 0.1, 0.2, 16.8),
    ('p_enc', 'bid', 0): (1.2, 0.1, 0.2, 16.8),
    ('p_enc', 'ra', 0): (1.2, 0.1, 0.2, 16.8),
    ('p_ham', 'fwd', 0): (3.2, 0.1, 0.6, 12.1),
    ('p_ham', 'bid', 0): (3.2, 0.1, 0.6, 12.1),
    ('p_ham', 'ra', 0): (3.2, 0.1, 0.4, 12.1),
    ('p_inv', 'fwd', 0): (1.6, 0.1, 0.4, 24.1),
    ('p_inv', 'bid', 0): (1.6, 0.1, 0.4, 24.1),
    ('p_inv', 'ra', 0): (1.6, 0.1, 0.2, 24.1),
    ('p_max', 'fwd', 0): (5.4, 0.1, 0.6, 12.1),
    ('p_max', 'bid', 0): (5.4, 0.1, 0.6, 12.1),
    ('p_max', 'ra', 0): (5.4, 0.1, 0.4, 12.1),
    ('p_mono', 'fwd', 0): (0.4, 0.1, 0.2, 0),
    ('p_mono', 'bid', 0): (0.4, 0.1, 0.2, 0),
    ('p_mono', 'ra', 0): (0.4, 0.1, 0.2, 0),
    ('p_osc', 'fwd', 0): (5.6, 0.1, 0.8, 24.1),
    ('p_osc', 'fwd', 1): (1754.3, 0.1, 1003.0, 0),
    ('p_osc', 'bid', 0): (5.6, 0.1, 0.8, 24.1),
    ('p_osc', 'bid', 1): (1754.3, 0.1, 1003.0, 0),
    ('p_osc', 'ra', 0): (5.6, 0.1, 0.6, 24.1),
    ('p_rem', 'fwd', 0): (1.3, 0.1, 0.2, 33.5),
    ('p_rem', 'bid', 0): (1.3, 0.1, 0.2, 33.5),
    ('p_rem', 'ra', 0): (1.3, 0.1, 0.2, 33.5),
    ('p_runs', 'fwd', 0): (0.2, 0.1, 0.4, 0),
    ('p_runs', 'bid', 0): (0.2, 0.1, 0.4, 0),
    ('p_runs', 'ra', 0): (0.2, 0.1, 0.4, 0),
    ('p_sus', 'fwd', 0): (1.3, 0.1, 0.2, 33.5),
    ('p_sus', 'bid', 0): (1.3, 0.1, 0.2, 33.5),
    ('p_sus', 'ra', 0): (1.3, 0.1, 0.2, 33.5),
    ('l_mel', 'list', 0): (2.5, 0.4, 0.1, 69.5),
    ('l_mel', 'flist', 0): (2.5, 0.4, 0.1, 69.5),
    ('l_merge', 'list', 0): (1.4, 0.1, 0.1, 0),
    ('l_merge', 'flist', 0): (1.4, 0.1, 0.1, 0),
    ('p_exc', 'fwd', 0): (3.2, 0.1, 0.6, 24.2),
    ('p_exc', 'bid', 0): (3.2, 0.1, 0.6, 24.2),
    ('p_exc', 'ra', 0): (3.2, 0.1, 0.4, 24.2),
    ('l_insertion', 'list', 0): (1.6, 0.1, 0.1, 0),
    ('l_insertion', 'flist', 0): (1.6, 0.1, 0.1, 0),
}
LINEAR = {        # (name, entry): {kind of input: factors of n for comparisons, moves, steps}
    ('adaptive_shivers', 'ra'): {0: (1.6, 0.1, 3.0), 1: (1.6, 0.1, 3.0), 2: (1.6, 2.3, 4.5), 4: (1.6, 0.1, 3.0), 5: (5.0, 15.1, 34.3)},
    ('tim', 'ra'): {0: (1.6, 0.1, 3.0), 1: (1.6, 0.1, 3.0), 2: (1.6, 2.3, 4.5), 4: (1.6, 0.1, 3.0), 5: (5.0, 15.1, 34.3)},
    ('cartesian_tree', 'fwd'): {0: (1.6, 3.0, 4.5), 1: (1.6, 3.0, 4.5), 4: (1.6, 3.0, 4.5)},
    ('cartesian_tree', 'bid'): {0: (1.6, 3.0, 4.5), 1: (1.6, 3.0, 4.5), 4: (1.6, 3.0, 4.5)},
    ('cartesian_tree', 'ra'): {0: (1.6, 3.0, 3.0), 1: (1.6, 3.0, 3.0), 4: (1.6, 3.0, 3.0)},
    ('mel', 'fwd'): {0: (1.6, 3.0, 4.6), 1: (1.6, 3.0, 4.6), 2: (3.0, 3.0, 4.6), 3: (3.0, 3.0, 4.6), 4: (1.6, 3.0, 4.6)},
    ('mel', 'bid'): {0: (1.6, 3.0, 4.6), 1: (1.6, 3.0, 4.6), 2: (3.0, 3.0, 4.6), 3: (3.0, 3.0, 4.6), 4: (1.6, 3.0, 4.6)},
    ('mel', 'ra'): {0: (1.6, 3.0, 3.1), 1: (1.6, 3.0, 3.1), 2: (3.0, 3.0, 3.1), 3: (3.0, 3.0, 3.1), 4: (1.6, 3.0, 3.1)},
    ('slab', 'bid'): {0: (1.6, 3.0, 4.5), 1: (1.6, 3.0, 4.5), 2: (3.0, 3.0, 4.5), 3: (3.0, 3.0, 4.5), 4: (1.6, 3.0, 4.5)},
    ('slab', 'ra'): {0: (1.6, 3.0, 3.0), 1: (1.6, 3.0, 3.0), 2: (3.0, 3.0, 3.0), 3: (3.0, 3.0, 3.0), 4: (1.6, 3.0, 3.0)},
    ('verge', 'bid'): {0: (5.1, 0.2, 11.3), 1: (5.2, 0.3, 11.4), 2: (7.4, 7.2, 16.3), 4: (5.2, 0.2, 12.2), 5: (15.4, 17.9, 32.8), 6: (15.9, 18.6, 33.7)},
    ('verge', 'ra'): {0: (3.1, 0.2, 4.6), 1: (4.7, 0.6, 6.3), 2: (4.7, 2.7, 6.3), 4: (3.2, 0.3, 3.4), 5: (15.3, 15.8, 27.2), 6: (10.6, 10.4, 18.3)},
    ('verge_heap', 'ra'): {0: (9.8, 13.2, 25.7), 1: (9.9, 13.3, 25.3), 2: (8.5, 10.5, 22.7), 4: (10.2, 13.5, 22.8), 5: (10.1, 13.5, 26.1), 6: (10.0, 13.6, 25.6)},
    ('stable_verge', 'ra'): {0: (9.1, 0.1, 3.0), 1: (9.1, 0.1, 3.0), 2: (26.0, 37.3, 4.6), 4: (9.1, 0.1, 3.0)},
    ('drop_merge', 'bid'): {0: (1.6, 0.1, 4.5), 1: (1.6, 0.1, 4.5), 4: (1.6, 0.1, 4.5), 7: (3.1, 2.9, 8.8)},
    ('drop_merge', 'ra'): {0: (1.6, 0.1, 4.5), 1: (1.6, 0.1, 4.5), 4: (1.6, 0.1, 4.5), 7: (3.1, 2.9, 8.8)},
    ('split', 'ra'): {0: (3.0, 4.5, 4.5), 1: (3.0, 4.5, 4.5), 4: (3.0, 4.5, 4.5), 7: (8.0, 9.1, 15.9)},
    ('drop_merge_heap', 'ra'): {0: (1.6, 0.1, 4.5), 1: (1.6, 0.1, 4.5), 4: (1.6, 0.1, 4.5), 7: (3.1, 3.1, 8.8)},
    ('drop_merge_merge', 'bid'): {0: (1.6, 0.1, 4.5), 1: (1.6, 0.1, 4.5), 4: (1.6, 0.1, 4.5), 7: (3.1, 2.9, 8.8)},
    ('drop_merge_merge', 'ra'): {0: (1.6, 0.1, 4.5), 1: (1.6, 0.1, 4.5), 4: (1.6, 0.1, 4.5), 7: (3.1, 2.9, 8.8)},
    ('split_poplar', 'ra'): {0: (3.0, 4.5, 4.5), 1: (3.0, 4.5, 4.5), 4: (3.0, 4.5, 4.5), 7: (12.8, 11.8, 24.8)},
    ('spin', 'ra'): {0: (4.5, 7.5, 12.1), 1: (4.5, 7.5, 12.1), 4: (4.5, 7.5, 12.1)},
    ('smooth', 'ra'): {0: (6.0, 0.1, 20.0), 1: (6.0, 0.1, 20.0), 4: (6.0, 0.1, 20.0)},
    ('pdq', 'ra'): {0: (3.1, 0.2, 4.6), 1: (7.4, 0.6, 8.9), 4: (3.2, 0.3, 3.4)},
    ('wiki', 'ra'): {0: (4.4, 0.1, 3.1), 1: (4.4, 3.8, 4.9), 4: (3.9, 0.1, 2.4)},
    ('block', 'ra'): {0: (4.4, 0.1, 3.1), 1: (4.4, 3.8, 4.9), 4: (3.9, 0.1, 2.4)},
    ('wiki0', 'ra'): {0: (9.5, 0.1, 23.4), 1: (13.1, 22.2, 45.5)},
    ('insertion', 'bid'): {0: (1.6, 0.1, 3.0), 1: (1.6, 0.1, 3.0), 4: (1.6, 0.1, 3.0)},
    ('insertion', 'ra'): {0: (1.6, 0.1, 3.0), 1: (1.6, 0.1, 3.0), 4: (1.6, 0.1, 3.0)},
    ('splay', 'fwd'): {0: (1.6, 3.0, 4.5), 1: (1.6, 3.0, 4.5), 4: (1.6, 3.0, 4.5)},
    ('splay', 'bid'): {0: (1.6, 3.0, 4.5), 1: (1.6, 3.0, 4.5), 4: (1.6, 3.0, 4.5)},
    ('splay', 'ra'): {0: (1.6, 3.0, 3.0), 1: (1.6, 3.0, 3.0), 4: (1.6, 3.0, 3.0)},
    ('l_insertion', 'list'): {0: (1.6, 0.1, 0.1), 1: (1.6, 0.1, 0.1), 4: (1.6, 0.1, 0.1)},
    ('l_insertion', 'flist'): {0: (1.6, 0.1, 0.1), 1: (1.6, 0.1, 0.1), 4: (1.6, 0.1, 0.1)},
    ('l_mel', 'list'): {0: (1.6, 3.0, 0.1), 1: (1.6, 3.0, 0.1), 2: (3.0, 3.0, 0.1), 3: (3.0, 3.0, 0.1), 4: (1.6, 3.0, 0.1)},
    ('l_mel', 'flist'): {0: (1.6, 3.0, 0.1), 1: (1.6, 3.0, 0.1), 2: (3.0, 3.0, 0.1), 3: (3.0, 3.0, 0.1), 4: (1.6, 3.0, 0.1)},
    ('quick', 'fwd'): {4: (3.3, 0.2, 7.5)},
    ('quick', 'bid'): {4: (3.3, 0.2, 7.4)},
    ('quick', 'ra'): {4: (3.3, 0.2, 3.2)},
    ('schwartz_pdq', 'ra'): {0: (3.1, 0.2, 4.6), 1: (7.4, 0.6, 8.9), 4: (3.2, 0.3, 3.4)},
    ('p_dis', 'bid'): {0: (6.0, 0.1, 4.5), 1: (6.0, 0.1, 4.5), 2: (4.5, 0.1, 3.1), 3: (4.5, 0.1, 3.1), 4: (6.0, 0.1, 4.5), 5: (6.8, 0.1, 4.5), 6: (6.8, 0.1, 3.8), 7: (6.3, 0.1, 4.1)},
    ('p_dis', 'ra'): {0: (6.0, 0.1, 3.0), 1: (6.0, 0.1, 3.0), 2: (4.5, 0.1, 1.6), 3: (4.5, 0.1, 1.6), 4: (6.0, 0.1, 3.0), 5: (6.8, 0.1, 3.0), 6: (6.8, 0.1, 2.3), 7: (6.3, 0.1, 2.6)},
    ('p_runs', 'fwd'): {0: (1.6, 0.1, 3.0), 1: (1.6, 0.1, 3.0), 2: (1.6, 0.1, 3.0), 3: (1.6, 0.1, 3.0), 4: (1.6, 0.1, 3.0), 5: (1.6, 0.1, 3.0), 6: (1.6, 0.1, 3.0), 7: (1.6, 0.1, 3.0)},
    ('p_runs', 'bid'): {0: (1.6, 0.1, 3.0), 1: (1.6, 0.1, 3.0), 2: (1.6, 0.1, 3.0), 3: (1.6, 0.1, 3.0), 4: (1.6, 0.1, 3.0), 5: (1.6, 0.1, 3.0), 6: (1.6, 0.1, 3.0), 7: (1.6, 0.1, 3.0)},
    ('p_runs', 'ra'): {0: (1.6, 0.1, 3.0), 1: (1.6, 0.1, 3.0), 2: (1.6, 0.1, 3.0), 3: (1.6, 0.1, 3.0), 4: (1.6, 0.1, 3.0), 5: (1.6, 0.1, 3.0), 6: (1.6, 0.1, 3.0), 7: (1.6, 0.1, 3.0)},
    ('p_mono', 'fwd'): {0: (1.6, 0.1, 1.6), 1: (1.6, 0.1, 1.6), 2: (1.6, 0.1, 1.6), 3: (1.6, 0.1, 1.6), 4: (3.0, 0.1, 1.6), 5: (1.6, 0.1, 1.6), 6: (1.6, 0.1, 1.6), 7: (1.6, 0.1, 1.6)},
    ('p_mono', 'bid'): {0: (1.6, 0.1, 1.6), 1: (1.6, 0.1, 1.6), 2: (1.6, 0.1, 1.6), 3: (1.6, 0.1, 1.6), 4: (3.0, 0.1, 1.6), 5: (1.6, 0.1, 1.6), 6: (1.6, 0.1, 1.6), 7: (1.6, 0.1, 1.6)},
    ('p_mono', 'ra'): {0: (1.6, 0.1, 1.6), 1: (1.6, 0.1, 1.6), 2: (1.6, 0.1, 1.6), 3: (1.6, 0.1, 1.6), 4: (3.0, 0.1, 1.6), 5: (1.6, 0.1, 1.6), 6: (1.6, 0.1, 1.6), 7: (1.6, 0.1, 1.6)},
}
